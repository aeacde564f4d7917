//! C04: the root finders against caller-supplied functions that misbehave at a chosen evaluation.
use crate::core::*;
use crate::expr::F;
use crate::s_text::inverse;
use crate::{bail, check, seam};
use geqslib::newton::{multivariate_newton_raphson, newton_raphson};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

pub struct C04;

/// a function of n variables: c + sum a_j x_j + shaped terms
#[derive(Clone, Serialize, Deserialize)]
pub struct Fun {
    pub c: F,
    pub a: Vec<F>,
    /// (coefficient, shape, variable)
    pub t: Vec<(F, u8, usize)>,
    /// overall factor (flat and steep functions)
    pub scale: F,
}
fn shape(k: u8, x: f64) -> f64 {
    match k {
        0 => x * x,
        1 => x * x * x,
        2 => x.sin(),
        3 => (x.clamp(-700.0, 700.0)).exp(),
        4 => x.atan(),
        5 => x.abs(),
        6 => x.abs().sqrt(),
        7 => 1.0 / x,
        8 => x.ln(),
        9 => x.sqrt(),
        10 => x.floor(),
        11 => {
            if x > 1.0 {
                1.0
            } else {
                -1.0
            }
        }
        12 => x.powi(4),
        13 => (x * 400.0).sin(),
        14 => x.tanh(),
        _ => (-x * x).exp(),
    }
}
fn dshape(k: u8, x: f64) -> f64 {
    match k {
        0 => 2.0 * x,
        1 => 3.0 * x * x,
        2 => x.cos(),
        3 => (x.clamp(-700.0, 700.0)).exp(),
        4 => 1.0 / (1.0 + x * x),
        5 => x.signum(),
        6 => 0.5 * x.signum() / x.abs().sqrt(),
        7 => -1.0 / (x * x),
        8 => 1.0 / x,
        9 => 0.5 / x.sqrt(),
        10 | 11 => 0.0,
        12 => 4.0 * x.powi(3),
        13 => 400.0 * (x * 400.0).cos(),
        14 => 1.0 / x.cosh().powi(2),
        _ => -2.0 * x * (-x * x).exp(),
    }
}
impl Fun {
    fn at(&self, x: &[f64]) -> f64 {
        let mut s = self.c.0;
        for (j, a) in self.a.iter().enumerate() {
            if a.0 != 0.0 {
                s += a.0 * x[j];
            }
        }
        for (c, k, j) in &self.t {
            s += c.0 * shape(*k, x[*j]);
        }
        s * self.scale.0
    }
    fn grad(&self, x: &[f64]) -> Vec<f64> {
        let mut g: Vec<f64> = self.a.iter().map(|a| a.0).collect();
        for (c, k, j) in &self.t {
            g[*j] += c.0 * dshape(*k, x[*j]);
        }
        g.iter_mut().for_each(|v| *v *= self.scale.0);
        g
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Kind {
    Err,
    Nan,
    Inf,
    NegInf,
    Panic,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Fault {
    pub at: u64,
    pub kind: Kind,
    /// this evaluation and all later ones
    pub sticky: bool,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Call {
    pub multi: bool,
    pub f: Vec<Fun>,
    pub guess: Vec<F>,
    pub margin: F,
    pub limit: u64,
    pub fault: Option<Fault>,
    pub hash: u64,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub calls: Vec<Call>,
}

#[derive(Debug)]
pub struct MyErr(pub u64);
impl std::fmt::Display for MyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected error {}", self.0)
    }
}
impl std::error::Error for MyErr {}

struct Ctl {
    n: Cell<u64>,
    fault: Option<Fault>,
    fired: Cell<u64>,
    bad_at: Cell<u64>,
    cap: u64,
    nonfinite: Cell<u64>,
    last: RefCell<Vec<u64>>,
}
impl Ctl {
    fn new(c: &Call, cap: u64, with_fault: bool) -> Ctl {
        Ctl { n: Cell::new(0), fault: if with_fault { c.fault.clone() } else { None }, fired: Cell::new(0), bad_at: Cell::new(0), cap, nonfinite: Cell::new(0), last: RefCell::new(vec![]) }
    }
    fn eval(&self, f: &Fun, x: &[f64]) -> Result<f64, MyErr> {
        let n = self.n.get() + 1;
        self.n.set(n);
        if n > self.cap {
            std::panic::panic_any(Injected(u64::MAX));
        }
        let _ = &self.last;
        if let Some(q) = &self.fault {
            if n == q.at || (q.sticky && n > q.at) {
                self.fired.set(self.fired.get() + 1);
                if self.bad_at.get() == 0 {
                    self.bad_at.set(n);
                }
                match q.kind {
                    Kind::Err => return Err(MyErr(n)),
                    Kind::Panic => std::panic::panic_any(Injected(n)),
                    Kind::Nan => return Ok(f64::NAN),
                    Kind::Inf => return Ok(f64::INFINITY),
                    Kind::NegInf => return Ok(f64::NEG_INFINITY),
                }
            }
        }
        let y = f.at(x);
        if !y.is_finite() {
            self.nonfinite.set(self.nonfinite.get() + 1);
        }
        Ok(y)
    }
}
enum Out {
    Ok(Vec<f64>),
    Err(anyhow::Error),
    Panic(String),
}
fn key(i: usize) -> String {
    format!("v{i}")
}
fn invoke(c: &Call, ctl: &Ctl) -> Out {
    seam::set_hash_seed(c.hash);
    let n = c.f.len();
    if !c.multi {
        match guard(|| newton_raphson(|x| ctl.eval(&c.f[0], &[x]), c.guess[0].0, c.margin.0, c.limit as usize)) {
            Ok(Ok(x)) => Out::Ok(vec![x]),
            Ok(Err(e)) => Out::Err(e),
            Err(p) => Out::Panic(p),
        }
    } else if c.hash % 2 == 0 {
        let mut g: HashMap<String, f64> = (0..c.guess.len()).map(|i| (key(i), c.guess[i].0)).collect();
        let fs: Vec<_> = c.f.iter().map(|f| move |m: &HashMap<String, f64>| { let x: Vec<f64> = (0..n.max(m.len())).map(|i| m.get(&key(i)).copied().unwrap_or(0.0)).collect(); ctl.eval(f, &x) }).collect();
        match guard(|| multivariate_newton_raphson(fs, &mut g, c.margin.0, c.limit as usize).map(|m| (0..m.len()).map(|i| m[&key(i)]).collect::<Vec<f64>>())) {
            Ok(Ok(x)) => Out::Ok(x),
            Ok(Err(e)) => Out::Err(e),
            Err(p) => Out::Panic(p),
        }
    } else {
        let mut g: HashMap<(u32, u8), f64> = (0..c.guess.len()).map(|i| ((i as u32 * 7, 1), c.guess[i].0)).collect();
        let fs: Vec<_> = c.f.iter().map(|f| move |m: &HashMap<(u32, u8), f64>| { let x: Vec<f64> = (0..n.max(m.len())).map(|i| m.get(&(i as u32 * 7, 1)).copied().unwrap_or(0.0)).collect(); ctl.eval(f, &x) }).collect();
        match guard(|| multivariate_newton_raphson(fs, &mut g, c.margin.0, c.limit as usize).map(|m| (0..m.len()).map(|i| m[&(i as u32 * 7, 1)]).collect::<Vec<f64>>())) {
            Ok(Ok(x)) => Out::Ok(x),
            Ok(Err(e)) => Out::Err(e),
            Err(p) => Out::Panic(p),
        }
    }
}
fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn step(jac: &[Vec<f64>], y: &[f64]) -> Option<f64> {
    if jac.iter().flatten().any(|v| !v.is_finite()) {
        return None;
    }
    // scale rows so that flat functions are not mistaken for singular ones
    let mut j = jac.to_vec();
    let mut y = y.to_vec();
    for i in 0..j.len() {
        let m = j[i].iter().fold(0.0f64, |a, v| a.max(v.abs()));
        if m == 0.0 {
            return None;
        }
        j[i].iter_mut().for_each(|v| *v /= m);
        y[i] /= m;
    }
    let inv = inverse(&j)?;
    let d: Vec<f64> = inv.iter().map(|r| r.iter().zip(&y).map(|(a, b)| a * b).sum()).collect();
    Some(norm(&d))
}
fn cond(jac: &[Vec<f64>]) -> f64 {
    let Some(inv) = inverse(jac) else { return f64::INFINITY };
    let f = |m: &[Vec<f64>]| m.iter().flatten().fold(0.0f64, |a, v| a.max(v.abs()));
    f(jac) * f(&inv) * (jac.len() * jac.len()) as f64
}

/// A reported root has to be confirmed by fresh, fault-free evaluations.
fn confirm(c: &Call, x: &[f64]) -> Result<(), String> {
    let n = c.f.len();
    if x.iter().any(|v| !v.is_finite()) {
        return Err(format!("the reported root {x:?} is not finite"));
    }
    let y: Vec<f64> = c.f.iter().map(|f| f.at(x)).collect();
    if !(norm(&y) <= c.margin.0 * (1.0 + 1e-12)) {
        return Err(format!("the function values at the reported root {x:?} are {y:?}, margin {:?}", c.margin.0));
    }
    // next to a jump the slope is whatever the rounding of the iterate makes it
    let jump = |k: u8, v: f64| (k == 10 && (v - v.round()).abs() < 1e-2) || (k == 11 && (v - 1.0).abs() < 1e-2);
    if c.f.iter().any(|f| f.t.iter().any(|(_, k, j)| jump(*k, x[*j]))) {
        return Ok(());
    }
    let mut steps = vec![];
    let exact: Vec<Vec<f64>> = c.f.iter().map(|f| f.grad(x)).collect();
    steps.push(step(&exact, &y));
    for h in [1e-3, -1e-3] {
        let mut j = vec![vec![0.0; n]; n];
        for k in 0..n {
            let mut z = x.to_vec();
            z[k] += h;
            for i in 0..n {
                j[i][k] = (c.f[i].at(&z) - y[i]) / h;
            }
        }
        if n > 1 && cond(&j) > 1e9 {
            return Ok(());
        }
        steps.push(step(&j, &y));
    }
    if n > 1 && cond(&exact) > 1e9 {
        return Ok(());
    }
    // all residuals exactly zero: no step remains whatever the slope is
    if y.iter().all(|v| *v == 0.0) && steps.iter().all(|s| s.is_none()) {
        return Ok(());
    }
    if steps.iter().flatten().any(|s| *s <= c.margin.0 * 1.5 + 1e-12) {
        return Ok(());
    }
    Err(format!("the remaining Newton step at the reported root {x:?} is {:?}, margin {:?}; function values {y:?}", steps, c.margin.0))
}

fn gen_fun(r: &mut Rng, n: usize, i: usize, root: &[f64], wild: bool) -> Fun {
    let mut a: Vec<F> = vec![F(0.0); n];
    let mut t = vec![];
    for j in 0..n {
        if j == i || r.chance(0.5) {
            let k = if j == i { r.range(3, 9) } else { r.range(1, 3) } as f64;
            a[j] = F(if r.chance(0.3) { -k } else { k });
        }
    }
    for _ in 0..r.below(3) {
        t.push((F(r.dec(-3, 3)), if wild { r.below(16) as u8 } else { *r.pick(&[0, 2, 4, 14]) }, r.below(n)));
    }
    if wild && r.chance(0.4) && !t.is_empty() {
        a.iter_mut().for_each(|x| *x = F(0.0));
    }
    let mut f = Fun { c: F(0.0), a, t, scale: F(1.0) };
    let y = f.at(root);
    // most functions have the hidden root, some have none
    f.c = F(if r.chance(0.85) && y.is_finite() { -y } else { r.dec(-5, 5) });
    f.scale = F(match r.below(6) {
        0 => 1e-3,
        1 => 1e-6,
        2 if wild => 1e-9,
        3 if wild => 1e4,
        _ => 1.0,
    });
    f
}

impl Scenario for C04 {
    type Plan = Plan;
    fn meta(&self) -> Meta {
        Meta {
            id: "C04",
            rule: "one run = 1-4 root-finder calls (1-5 functions, smooth, flat, kinked, singular or rootless; about two thirds with a fault at a seeded evaluation), each followed by the same call fault-free; counted when a fault fired or a root was reported; distinct by trace hash",
            real: "geqslib::newton and gmatlib, built from /repo with edge instrumentation",
            stub: "the functions being solved are the simulator's; hash seeds come from the run seed",
            assumptions: &["faults are injected at the only outside call the root finders make: the evaluation of a function", "the remaining Newton step is accepted if any of the analytic, forward or backward difference slopes gives one within 1.5 margins"],
            quick_runs: 350000,
            thorough_runs: 4000000,
            chunk: 2500,
            step_limit: 400_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> Plan {
        let k = 1 + r.below(3);
        let calls = (0..k)
            .map(|_| {
                let multi = r.chance(0.6);
                let n = if multi { 1 + r.below(if thorough { 8 } else { 6 }) } else { 1 };
                let wild = r.chance(0.5);
                let root: Vec<f64> = (0..n).map(|_| r.dec(-4, 6)).collect();
                let mut f: Vec<Fun> = (0..n).map(|i| gen_fun(r, n, i, &root, wild)).collect();
                if n > 1 && r.chance(0.05) {
                    // linearly dependent functions
                    f[1] = f[0].clone();
                }
                let mut guess: Vec<F> = root.iter().map(|x| F(x + r.range(-30, 30) as f64 / 10.0)).collect();
                match r.below(12) {
                    0 => guess.iter_mut().zip(&root).for_each(|(g, x)| *g = F(*x)),
                    1 => guess.iter_mut().for_each(|g| *g = F(r.range(-300, 300) as f64)),
                    2 if multi && r.chance(0.3) => {
                        if r.chance(0.5) {
                            guess.pop();
                        } else {
                            guess.push(F(1.0));
                        }
                    }
                    _ => {}
                }
                let margin = *r.pick(&[1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8]);
                let margin = if r.chance(0.02) { *r.pick(&[0.0, -1.0, f64::NAN]) } else { margin };
                let limit = *r.pick(&[0, 1, 2, 3, 5, 10, 30, 100]);
                let limit = if r.chance(0.5) { 40 } else { limit };
                let fault = if r.chance(0.65) {
                    let per = if multi { n * (n + 2) } else { 2 };
                    let at = match r.below(3) {
                        0 => 1 + r.below(per),
                        1 => 1 + r.below(per * 3),
                        _ => 1 + r.below(per * 8),
                    } as u64;
                    Some(Fault { at, kind: *r.pick(&[Kind::Err, Kind::Err, Kind::Nan, Kind::Nan, Kind::Inf, Kind::NegInf, Kind::Panic]), sticky: r.chance(0.4) })
                } else {
                    None
                };
                Call { multi, f, guess, margin: F(margin), limit, fault, hash: r.u64() >> 16 }
            })
            .collect();
        Plan { calls }
    }
    fn run(&self, p: &Plan, r: &mut Run) -> Res {
        for c in &p.calls {
            let n = c.f.len();
            if n == 0 || c.guess.is_empty() || (!c.multi && (n != 1 || c.guess.len() != 1)) || n > 12 || c.limit > 300 {
                return Ok(());
            }
            if c.f.iter().any(|f| f.a.len() != n || f.t.iter().any(|t| t.2 >= n)) || c.guess.iter().any(|g| !g.0.is_finite()) {
                return Ok(());
            }
            let per = if c.multi { n * (n + 2) } else { 2 } as u64;
            let cap = 2 * c.limit * per + 2 * per + 4;
            let mut clean: Option<(String, bool)> = None;
            // fault-free, then with the fault, then fault-free again
            for pass in 0..3 {
                if pass == 1 && c.fault.is_none() {
                    break;
                }
                let ctl = Ctl::new(c, cap, pass == 1);
                let out = invoke(c, &ctl);
                let what = || format!("{} call, guess {:?}, margin {:?}, limit {}, fault {}", if c.multi { "multivariate" } else { "univariate" }, c.guess, c.margin.0, c.limit, match &c.fault {
                    Some(f) if pass == 1 => format!("{:?} at evaluation {}{}", f.kind, f.at, if f.sticky { " and after" } else { "" }),
                    _ => "none".into(),
                });
                let line = match &out {
                    Out::Ok(x) => format!("root {}", x.iter().map(|v| fx(*v)).collect::<Vec<_>>().join(" ")),
                    Out::Err(e) => format!("error {e}"),
                    Out::Panic(p) => format!("panic {p}"),
                };
                r.ev(format!("{} evals {}", line, ctl.n.get()));
                let fired = ctl.fired.get() > 0;
                if fired {
                    r.fault(match c.fault.as_ref().unwrap().kind {
                        Kind::Err => "callback_error",
                        Kind::Panic => "callback_panic",
                        Kind::Nan => "callback_nan",
                        _ => "callback_infinite",
                    });
                    r.nontrivial = true;
                }
                if let Out::Panic(m) = &out {
                    if m == &format!("injected#{}", u64::MAX) {
                        bail!("evaluations", "{}: more than {cap} evaluations", what());
                    }
                }
                let kind = if fired { c.fault.as_ref().map(|f| f.kind) } else { None };
                match kind {
                    Some(Kind::Err) => {
                        let want = ctl.bad_at.get();
                        match &out {
                            Out::Err(e) => match e.downcast_ref::<MyErr>() {
                                Some(MyErr(k)) => check!(*k == want, "wrong-error", "{}: the caller got injected error {k} instead of {want}", what()),
                                None => bail!("wrong-error", "{}: the caller got {e:?} instead of the function's own error", what()),
                            },
                            _ => bail!("error-lost", "{}: the function's error was not passed on: {line}", what()),
                        }
                    }
                    Some(Kind::Panic) => {
                        let want = format!("injected#{}", ctl.bad_at.get());
                        match &out {
                            Out::Panic(m) => check!(*m == want, "panic-changed", "{}: the caller saw {m:?}", what()),
                            _ => bail!("panic-lost", "{}: the panic did not pass through: {line}", what()),
                        }
                    }
                    _ => match &out {
                        Out::Panic(m) => bail!("panic", "{}: panicked: {m}", what()),
                        Out::Err(e) => check!(e.downcast_ref::<MyErr>().is_none(), "wrong-error", "{}: an error of an earlier call came back: {e}", what()),
                        Out::Ok(x) => {
                            r.nontrivial = true;
                            check!(c.margin.0 >= 0.0, "margin", "{}: success with an unusable margin", what());
                            check!(c.limit > 0, "limit", "{}: success without an iteration", what());
                            check!(x.len() == n, "size", "{}: success for {n} functions of {} variables", what(), x.len());
                            if fired && c.fault.as_ref().unwrap().sticky {
                                bail!("nonfinite-root", "{}: a root was reported although the function had stopped giving finite values", what());
                            }
                            if let Err(m) = confirm(c, x) {
                                bail!("unconfirmed-root", "{}: {m}", what());
                            }
                            r.probe(if fired { "root_despite_fault" } else { "root_confirmed" });
                        }
                    },
                }
                if pass != 1 {
                    // hash order differs from call to call: only calls of one variable repeat bit for bit
                    let quick = match &out {
                        Out::Ok(x) => {
                            ctl.n.get() <= 5 * per
                                && c.limit >= 24
                                && c.f.iter().all(|f| f.t.iter().all(|t| [0, 2, 4, 14].contains(&t.1)))
                                && cond(&c.f.iter().map(|f| f.grad(x)).collect::<Vec<_>>()) < 1e3
                        }
                        _ => false,
                    };
                    match &clean {
                        None => clean = Some((line, quick)),
                        Some((first, _)) if n == 1 => check!(*first == line, "later-call-affected", "{}: repeated after a faulty call: {line}, before it: {first}", what()),
                        Some((first, true)) => check!(matches!(out, Out::Ok(_)), "later-call-affected", "{}: repeated after a faulty call: {line}, before it: {first}", what()),
                        _ => {}
                    }
                }
            }
        }
        Ok(())
    }
}
