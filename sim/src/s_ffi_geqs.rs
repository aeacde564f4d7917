//! C06: histories of calls through the equation solver's C interface, against a model of the handles.
use crate::core::*;
use crate::expr::F;
use crate::s_text::inverse;
use crate::text::gen_names;
use crate::{bail, check, seam};
use geqslib::ffi as g;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_void, CStr, CString};
use std::sync::atomic::Ordering::Relaxed;

pub struct C06;

/// sum of coefficient * name + sq * (first name)^2 = rhs; names may be unknowns or constants of the context
#[derive(Clone, Serialize, Deserialize)]
pub struct Lin {
    pub terms: Vec<(F, String)>,
    pub sq: F,
    pub rhs: F,
    pub style: u32,
    pub bad: u8,
}
impl Lin {
    pub fn text(&self) -> Vec<u8> {
        let sp = if self.style & 1 == 0 { " " } else { "" };
        let mut l = String::new();
        for (c, v) in &self.terms {
            if c.0 == 0.0 {
                continue;
            }
            let body = match (self.style >> 1) & 3 {
                0 => format!("{}{sp}*{sp}{v}", c.0.abs()),
                1 => format!("{v}*{}", c.0.abs()),
                2 => format!("({}*{v})", c.0.abs()),
                _ if c.0.abs() == 1.0 => v.clone(),
                _ => format!("{}*({v})", c.0.abs()),
            };
            if l.is_empty() {
                l = if c.0 < 0.0 { format!("-{body}") } else { body };
            } else {
                l += &format!("{sp}{}{sp}{body}", if c.0 < 0.0 { '-' } else { '+' });
            }
        }
        if self.sq.0 != 0.0 && !self.terms.is_empty() {
            l += &format!("{}{}*{}^2", if l.is_empty() { "" } else { " + " }, self.sq.0.abs(), self.terms[0].1);
        }
        if l.is_empty() {
            l = "0".into();
        }
        let r = if self.rhs.0 < 0.0 { format!("-{}", -self.rhs.0) } else { format!("{}", self.rhs.0) };
        match self.bad {
            1 => format!("{l} - ({r})").into(),
            2 => format!("{l} == {r}").into(),
            3 => format!("({l} = {r}").into(),
            4 => format!("{l} = {r} + $").into(),
            5 => vec![],
            6 => format!("{l}) = {r}").into(),
            7 => format!("{l} * = {r}").into(),
            8 => {
                let mut b: Vec<u8> = format!("{l} = {r} + ").into();
                b.extend([0xff, 0xfe]);
                b
            }
            9 => format!("{l} = {r} = {r}").into(),
            _ if self.style & 16 == 0 => format!("{l}{sp}={sp}{r}").into(),
            _ => format!("{r}{sp}={sp}{l}").into(),
        }
    }
    pub fn names(&self) -> BTreeSet<String> {
        if self.bad == 5 {
            return BTreeSet::new();
        }
        self.terms.iter().map(|t| t.1.clone()).collect()
    }
    pub fn unknowns(&self, consts: &BTreeMap<String, f64>) -> BTreeSet<String> {
        self.names().into_iter().filter(|v| !consts.contains_key(v)).collect()
    }
    pub fn ok(&self) -> bool {
        let mut seen = BTreeSet::new();
        self.rhs.0.is_finite()
            && self.sq.0.is_finite()
            && self.sq.0 >= 0.0
            && (self.sq.0 == 0.0 || (self.terms.len() == 1 && self.terms[0].0 .0 == 0.0))
            && self.terms.iter().all(|t| t.0 .0.is_finite() && (t.0 .0 != 0.0 || self.sq.0 != 0.0) && seen.insert(&t.1) && !t.1.is_empty())
    }
}
#[derive(Clone, Serialize, Deserialize)]
pub enum Op {
    NewCtx { default: bool },
    AddConst { ctx: usize, name: String, val: F },
    Solve { ctx: usize, eq: Lin, guess: F, min: F, max: F, margin: F, limit: u32 },
    NewBuilder { ctx: usize, eq: Lin },
    Try { b: usize, eq: Lin },
    IsFull { b: usize },
    Debug { b: usize },
    Build { b: usize },
    Specify { s: usize, var: String, guess: F, min: F, max: F },
    SolveSys { s: usize, margin: F, limit: u32 },
    FreeCtx { ctx: usize },
    FreeBuilder { b: usize },
    FreeSys { s: usize },
    FreeStr { k: usize },
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub ops: Vec<Op>,
    pub hash: u64,
}

#[derive(Clone)]
struct MB {
    consts: BTreeMap<String, f64>,
    vars: BTreeSet<String>,
    eqs: Vec<Lin>,
}
struct MS {
    b: MB,
    dom: BTreeMap<String, (f64, f64, f64)>,
}
pub type H<T> = Vec<Option<(*mut c_void, T)>>;

pub fn pick_some<T>(v: &mut H<T>, i: usize) -> Option<(usize, &mut (*mut c_void, T))> {
    let live: Vec<usize> = (0..v.len()).filter(|k| v[*k].is_some()).collect();
    if live.is_empty() {
        return None;
    }
    let k = live[i % live.len()];
    v[k].as_mut().map(|x| (k, x))
}

pub fn default_consts() -> BTreeMap<String, f64> {
    BTreeMap::from([("pi".into(), std::f64::consts::PI), ("e".into(), std::f64::consts::E)])
}

struct World {
    ctx: H<BTreeMap<String, f64>>,
    builders: H<MB>,
    systems: H<MS>,
    strings: Vec<Option<(*mut c_char, Vec<u8>)>>,
}
impl World {
    fn new() -> World {
        World { ctx: vec![], builders: vec![], systems: vec![], strings: vec![] }
    }
}

pub fn linear_solve(eqs: &[Lin], vars: &BTreeSet<String>, consts: &BTreeMap<String, f64>, guess: &dyn Fn(&str) -> f64) -> Option<(Vec<f64>, f64)> {
    let n = vars.len();
    let col: BTreeMap<&String, usize> = vars.iter().enumerate().map(|(i, v)| (v, i)).collect();
    let mut a = vec![vec![0.0; n]; n];
    let mut rhs = vec![0.0; n];
    for (i, e) in eqs.iter().enumerate() {
        let mut k = e.rhs.0;
        if e.sq.0 != 0.0 {
            let v = &e.terms[0].1;
            if consts.contains_key(v) {
                return None;
            }
            let q = k / e.sq.0;
            if q < 0.1 || guess(v).abs() < 0.1 || guess(v).abs() > 30.0 {
                return None;
            }
            a[i][col[v]] = 1.0;
            rhs[i] = q.sqrt() * guess(v).signum();
            continue;
        }
        for (c, v) in &e.terms {
            match consts.get(v) {
                Some(x) => k -= c.0 * x,
                None => a[i][col[v]] = c.0,
            }
        }
        rhs[i] = k;
    }
    let inv = inverse(&a)?;
    let x: Vec<f64> = (0..n).map(|i| (0..n).map(|j| inv[i][j] * rhs[j]).sum()).collect();
    let norm = |x: &[Vec<f64>]| x.iter().map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(0.0, f64::max);
    Some((x, norm(&a) * norm(&inv)))
}
fn parse_pairs(t: &[u8]) -> Option<BTreeMap<String, f64>> {
    let t = std::str::from_utf8(t).ok()?;
    let mut m = BTreeMap::new();
    for l in t.split('\n') {
        let (k, v) = l.split_once('=')?;
        if m.insert(k.to_string(), v.parse().ok()?).is_some() {
            return None;
        }
    }
    Some(m)
}

impl C06 {
    fn once(&self, p: &Plan, r: &mut Run, record: bool) -> Res {
        let mut w = World::new();
        let mut hist: Vec<String> = vec![];
        let out = self.drive(p, r, record, &mut w, &mut hist);
        if out.is_ok() {
            // release everything that is still held
            unsafe {
                for (h, _) in w.ctx.into_iter().flatten() {
                    g::free_context_hash_map(h);
                }
                for (h, _) in w.builders.into_iter().flatten() {
                    g::free_system_builder(h);
                }
                for (h, _) in w.systems.into_iter().flatten() {
                    g::free_system(h);
                }
                for (s, want) in w.strings.into_iter().flatten() {
                    let now = CStr::from_ptr(s).to_bytes().to_vec();
                    if now != want {
                        bail!("string-changed", "{}\na returned string changed from {:?} to {:?} before it was freed", hist.join("\n"), String::from_utf8_lossy(&want), String::from_utf8_lossy(&now));
                    }
                    g::free_solution_string(s);
                }
            }
        }
        out
    }
    fn drive(&self, p: &Plan, r: &mut Run, record: bool, w: &mut World, hist: &mut Vec<String>) -> Res {
        let mut failures = 0;
        for op in &p.ops {
            let mf = seam::MEM_FAULT.load(Relaxed);
            if mf != 0 {
                bail!("memory", "{}\nthe allocator ledger saw {}", hist.join("\n"), ["", "a double free", "a free of a block it never gave out", "a free with another layout", "a write to a freed block"][mf as usize]);
            }
            match op {
                Op::NewCtx { default } => {
                    let h = match guard(|| unsafe { if *default { g::new_default_context_hash_map() } else { g::new_context_hash_map() } }) {
                        Ok(h) => h,
                        Err(e) => bail!("panic", "creating a context panicked: {e}"),
                    };
                    hist.push(format!("ctx{} = new_{}context_hash_map()", w.ctx.len(), if *default { "default_" } else { "" }));
                    check!(!h.is_null(), "null", "{}\ngave null", hist.join("\n"));
                    w.ctx.push(Some((h, if *default { default_consts() } else { BTreeMap::new() })));
                }
                Op::AddConst { ctx, name, val } => {
                    let Some((k, (h, m))) = pick_some(&mut w.ctx, *ctx) else { continue };
                    let n = CString::new(name.clone()).unwrap();
                    hist.push(format!("add_const_to_ctx(ctx{k}, {name:?}, {})", val.0));
                    let h = *h;
                    if let Err(e) = guard(|| unsafe { g::add_const_to_ctx(h, n.as_ptr(), val.0) }) {
                        bail!("panic", "{}\npanicked: {e}", hist.join("\n"));
                    }
                    m.insert(name.clone(), val.0);
                }
                Op::Solve { ctx, eq, guess, min, max, margin, limit } => {
                    let Some((k, (h, m))) = pick_some(&mut w.ctx, *ctx) else { continue };
                    let t = CString::new(eq.text()).unwrap();
                    hist.push(format!("solve_equation({t:?}, ctx{k}, guess {}, [{}, {}], {}, {limit})", guess.0, min.0, max.0, margin.0));
                    let h = *h;
                    let s = match guard(|| g::solve_equation(t.as_ptr(), h, guess.0, min.0, max.0, margin.0, *limit)) {
                        Ok(s) => s,
                        Err(e) => bail!("panic", "{}\npanicked: {e}", hist.join("\n")),
                    };
                    let unk = eq.unknowns(m);
                    let truth = if unk.len() == 1 && eq.bad == 0 { linear_solve(&[eq.clone()], &unk, m, &|_| guess.0) } else { None };
                    let got = self.keep_string(w, s as *mut c_char);
                    if record {
                        r.ev(match &got {
                            None => "solve null".to_string(),
                            Some(t) => format!("solve {}", String::from_utf8_lossy(t)),
                        });
                    }
                    if got.is_none() {
                        failures += 1;
                        if record {
                            r.fault("solve_equation_failed");
                        }
                    }
                    let solvable = unk.len() == 1 && eq.bad == 0 && margin.0 >= 0.0 && *limit > 0;
                    match (&got, solvable) {
                        (Some(t), false) => bail!("false-success", "{}\nreturned {:?} although it cannot be solved for one unknown", hist.join("\n"), String::from_utf8_lossy(t)),
                        (None, true) => {
                            if let Some((x, c)) = truth {
                                let x = x[0];
                                let inside = x > min.0 + 0.1 && x < max.0 - 0.1 && guess.0 > min.0 + 0.1 && guess.0 < max.0 - 0.1;
                                let free = eq.sq.0 == 0.0 || (min.0.is_infinite() && max.0.is_infinite());
                                let slope = eq.terms.iter().filter(|t| unk.contains(&t.1)).map(|t| t.0 .0.abs()).sum::<f64>();
                                if inside && free && *limit >= 40 && c < 1e3 && margin.0 >= 1e-8 && x.abs() < 1e4 && (slope >= 0.2 || eq.sq.0 > 0.0) && guess.0.abs() < 1e4 {
                                    bail!("false-failure", "{}\nreturned null, the solution is {x}", hist.join("\n"));
                                }
                            }
                        }
                        (Some(t), true) => {
                            let m = parse_pairs(t);
                            let name = unk.iter().next().unwrap();
                            let Some(x) = m.as_ref().and_then(|m| if m.len() == 1 { m.get(name) } else { None }) else {
                                bail!("string", "{}\nreturned {:?}, expected the value of {name}", hist.join("\n"), String::from_utf8_lossy(t))
                            };
                            check!(*x >= min.0 && *x <= max.0, "domain", "{}\nreturned {:?}", hist.join("\n"), String::from_utf8_lossy(t));
                            if let Some((want, c)) = truth {
                                if record {
                                    r.probe("equation_value_checked");
                                }
                                let floor = if eq.sq.0 == 0.0 { (1e-10 * c.max(1.0)).min(1e-7) } else { 1e-7 };
                                let roots = if eq.sq.0 != 0.0 { vec![want[0], -want[0]] } else { vec![want[0]] };
                                let near_root = roots.iter().any(|w| (x - w).abs() <= 2.0 * margin.0 + floor * (1.0 + w.abs()));
                                let right = near_root && (eq.sq.0 == 0.0 || !(min.0.is_infinite() && max.0.is_infinite()) || (x - want[0]).abs() <= 2.0 * margin.0 + floor * (1.0 + want[0].abs()));
                                check!(right, "value", "{}\nreturned {:?}, the equation determines {}", hist.join("\n"), String::from_utf8_lossy(t), want[0]);
                            }
                        }
                        _ => {}
                    }
                }
                Op::NewBuilder { ctx, eq } => {
                    let Some((k, (h, m))) = pick_some(&mut w.ctx, *ctx) else { continue };
                    let t = CString::new(eq.text()).unwrap();
                    hist.push(format!("b{} = new_system_builder({t:?}, ctx{k})", w.builders.len()));
                    let h = *h;
                    let b = match guard(|| g::new_system_builder(t.as_ptr(), h)) {
                        Ok(b) => b as *mut c_void,
                        Err(e) => bail!("panic", "{}\npanicked: {e}", hist.join("\n")),
                    };
                    check!(b.is_null() == (eq.bad != 0), "builder", "{}\ngave {}", hist.join("\n"), if b.is_null() { "null" } else { "a builder" });
                    if b.is_null() {
                        failures += 1;
                        if record {
                            r.fault("new_system_builder_failed");
                        }
                        continue;
                    }
                    let mb = MB { consts: m.clone(), vars: eq.unknowns(m), eqs: vec![eq.clone()] };
                    w.builders.push(Some((b, mb)));
                }
                Op::Try { b, eq } => {
                    let Some((k, (h, m))) = pick_some(&mut w.builders, *b) else { continue };
                    let t = CString::new(eq.text()).unwrap();
                    hist.push(format!("try_constrain_with(b{k}, {t:?})"));
                    let h = *h;
                    let rc = match guard(|| g::try_constrain_with(h, t.as_ptr())) {
                        Ok(x) => x,
                        Err(e) => bail!("panic", "{}\npanicked: {e}", hist.join("\n")),
                    };
                    *hist.last_mut().unwrap() += &format!(" -> {rc}");
                    let full = m.vars.len() == m.eqs.len();
                    let new = eq.unknowns(&m.consts).difference(&m.vars).count();
                    let ok = if eq.bad != 0 {
                        rc != 1 && (full || new > 1 || rc == -1) && [0, 2, -1].contains(&rc)
                    } else if full {
                        rc == 2
                    } else if new > 1 {
                        rc == 0
                    } else {
                        rc == 1
                    };
                    check!(ok, "return-code", "{}\nunexpected return code; unknowns {:?}, {} equations", hist.join("\n"), m.vars, m.eqs.len());
                    if rc == 1 {
                        m.vars.extend(eq.unknowns(&m.consts));
                        m.eqs.push(eq.clone());
                    } else {
                        failures += 1;
                        if record {
                            r.fault("constrain_rejected");
                        }
                    }
                    if record {
                        r.ev(format!("try {rc}"));
                    }
                }
                Op::IsFull { b } => {
                    let Some((k, (h, m))) = pick_some(&mut w.builders, *b) else { continue };
                    hist.push(format!("is_fully_constrained(b{k})"));
                    let h = *h;
                    let rc = guard(|| g::is_fully_constrained(h)).unwrap_or(-7);
                    let want = (m.vars.len() == m.eqs.len()) as i32;
                    check!(rc == want, "return-code", "{}\nreturned {rc}, expected {want}", hist.join("\n"));
                }
                Op::Debug { b } => {
                    let Some((k, (h, _))) = pick_some(&mut w.builders, *b) else { continue };
                    hist.push(format!("debug_system_builder(b{k})"));
                    let h = *h;
                    if let Err(e) = guard(|| unsafe { g::debug_system_builder(h) }) {
                        bail!("panic", "{}\npanicked: {e}", hist.join("\n"));
                    }
                }
                Op::Build { b } => {
                    let Some((k, _)) = pick_some(&mut w.builders, *b) else { continue };
                    let (h, m) = w.builders[k].take().unwrap();
                    hist.push(format!("s{} = build_system(b{k})", w.systems.len()));
                    let s = match guard(|| g::build_system(h)) {
                        Ok(s) => s as *mut c_void,
                        Err(e) => bail!("panic", "{}\npanicked: {e}", hist.join("\n")),
                    };
                    let full = m.vars.len() == m.eqs.len();
                    check!(s.is_null() != full, "build", "{}\ngave {}; fully constrained: {full}", hist.join("\n"), if s.is_null() { "null" } else { "a system" });
                    if full {
                        w.systems.push(Some((s, MS { b: m, dom: BTreeMap::new() })));
                        if record {
                            r.probe("system_built");
                        }
                    } else {
                        failures += 1;
                        if record {
                            r.fault("build_failed");
                        }
                    }
                }
                Op::Specify { s, var, guess, min, max } => {
                    if !(min.0 < guess.0 && guess.0 < max.0) {
                        continue;
                    }
                    let Some((k, (h, m))) = pick_some(&mut w.systems, *s) else { continue };
                    let t = CString::new(var.clone()).unwrap();
                    hist.push(format!("specify_variable(s{k}, {var:?}, {}, {}, {})", guess.0, min.0, max.0));
                    let h = *h;
                    let rc = match guard(|| g::specify_variable(h, t.as_ptr(), guess.0, min.0, max.0)) {
                        Ok(x) => x,
                        Err(e) => bail!("panic", "{}\npanicked: {e}", hist.join("\n")),
                    };
                    let own = m.b.vars.contains(var);
                    check!(rc == if own { 1 } else { -1 }, "return-code", "{}\nreturned {rc}; the system's unknowns are {:?}", hist.join("\n"), m.b.vars);
                    if own {
                        m.dom.insert(var.clone(), (guess.0, min.0, max.0));
                    } else {
                        failures += 1;
                        if record {
                            r.fault("specify_rejected");
                        }
                    }
                }
                Op::SolveSys { s, margin, limit } => {
                    let Some((k, _)) = pick_some(&mut w.systems, *s) else { continue };
                    let (h, m) = w.systems[k].take().unwrap();
                    hist.push(format!("solve_system(s{k}, {}, {limit})", margin.0));
                    let p = match guard(|| g::solve_system(h, margin.0, *limit)) {
                        Ok(s) => s as *mut c_char,
                        Err(e) => bail!("panic", "{}\npanicked: {e}", hist.join("\n")),
                    };
                    let got = self.keep_string(w, p);
                    if record {
                        r.ev(match &got {
                            None => "system null".to_string(),
                            Some(t) => {
                                let mut l: Vec<&[u8]> = t.split(|b| *b == b'\n').collect();
                                l.sort();
                                format!("system {}", String::from_utf8_lossy(&l.join(&b';')))
                            }
                        });
                    }
                    let truth = if m.b.vars.len() == m.b.eqs.len() && m.b.vars.len() <= 12 { linear_solve(&m.b.eqs, &m.b.vars, &m.b.consts, &|v| m.dom.get(v).map_or(1.0, |d| d.0)) } else { None };
                    let has_sq = m.b.eqs.iter().any(|e| e.sq.0 != 0.0);
                    let bounded = m.dom.values().any(|d| d.1.is_finite() || d.2.is_finite());
                    match &got {
                        None => {
                            failures += 1;
                            if record {
                                r.fault("solve_system_failed");
                            }
                            if let Some((x, c)) = truth {
                                let inside = m.b.vars.iter().zip(&x).all(|(v, x)| m.dom.get(v).map_or(true, |d| *x > d.1 + 0.1 && *x < d.2 - 0.1 && d.0 > d.1 + 0.1 && d.0 < d.2 - 0.1));
                                if margin.0 >= 1e-8 && *limit >= 60 && c < 1e3 && inside && !(has_sq && bounded) && x.iter().all(|x| x.abs() < 1e4) {
                                    bail!("false-failure", "{}\nreturned null, the solution is {:?}", hist.join("\n"), m.b.vars.iter().zip(&x).collect::<Vec<_>>());
                                }
                            }
                        }
                        Some(t) => {
                            let Some(pairs) = parse_pairs(t).filter(|_| !m.b.vars.is_empty()).or_else(|| if m.b.vars.is_empty() && t.is_empty() { Some(BTreeMap::new()) } else { None }) else {
                                bail!("string", "{}\nreturned {:?}", hist.join("\n"), String::from_utf8_lossy(t))
                            };
                            check!(pairs.keys().cloned().collect::<BTreeSet<_>>() == m.b.vars, "string", "{}\nreturned {:?}; the unknowns are {:?}", hist.join("\n"), String::from_utf8_lossy(t), m.b.vars);
                            check!(margin.0 >= 0.0 && *limit > 0, "false-success", "{}\nreturned {:?}", hist.join("\n"), String::from_utf8_lossy(t));
                            for (v, x) in &pairs {
                                if let Some(d) = m.dom.get(v) {
                                    check!(*x >= d.1 && *x <= d.2, "domain", "{}\nreports {v} = {x}", hist.join("\n"));
                                }
                            }
                            if let Some((want, c)) = truth {
                                if c < 1e3 && !(has_sq && bounded) && want.iter().all(|x| x.abs() < 1e4) {
                                    if record {
                                        r.probe("system_value_checked");
                                    }
                                    for (v, x) in m.b.vars.iter().zip(&want) {
                                        let tol = 2.0 * margin.0 + if has_sq { 1e-7 } else { (1e-10 * c.max(1.0)).min(1e-7) } * (1.0 + x.abs());
                                        check!((pairs[v] - x).abs() <= tol, "value", "{}\nreports {v} = {}, the equations determine {x}", hist.join("\n"), pairs[v]);
                                    }
                                }
                            }
                        }
                    }
                }
                Op::FreeCtx { ctx } => {
                    let Some((k, _)) = pick_some(&mut w.ctx, *ctx) else { continue };
                    let (h, _) = w.ctx[k].take().unwrap();
                    hist.push(format!("free_context_hash_map(ctx{k})"));
                    unsafe { g::free_context_hash_map(h) };
                }
                Op::FreeBuilder { b } => {
                    let Some((k, _)) = pick_some(&mut w.builders, *b) else { continue };
                    let (h, _) = w.builders[k].take().unwrap();
                    hist.push(format!("free_system_builder(b{k})"));
                    unsafe { g::free_system_builder(h) };
                }
                Op::FreeSys { s } => {
                    let Some((k, _)) = pick_some(&mut w.systems, *s) else { continue };
                    let (h, _) = w.systems[k].take().unwrap();
                    hist.push(format!("free_system(s{k})"));
                    unsafe { g::free_system(h) };
                }
                Op::FreeStr { k } => {
                    let live: Vec<usize> = (0..w.strings.len()).filter(|i| w.strings[*i].is_some()).collect();
                    if live.is_empty() {
                        continue;
                    }
                    let (s, want) = w.strings[live[*k % live.len()]].take().unwrap();
                    let now = unsafe { CStr::from_ptr(s).to_bytes().to_vec() };
                    hist.push("free_solution_string".into());
                    check!(now == want, "string-changed", "{}\na returned string changed from {:?} to {:?}", hist.join("\n"), String::from_utf8_lossy(&want), String::from_utf8_lossy(&now));
                    unsafe { g::free_solution_string(s) };
                }
            }
        }
        if record {
            r.nontrivial = failures > 0 && hist.len() >= 5;
        }
        Ok(())
    }
    fn keep_string(&self, w: &mut World, s: *mut c_char) -> Option<Vec<u8>> {
        if s.is_null() {
            return None;
        }
        let t = unsafe { CStr::from_ptr(s).to_bytes().to_vec() };
        w.strings.push(Some((s, t.clone())));
        Some(t)
    }
}

/// Repeats a history until the number of live blocks after it settles; None when it does, otherwise the growth
/// per repetition.
pub fn leak_check(mut once: impl FnMut() -> Res) -> Result<Option<(u64, u64)>, Violation> {
    let mut last = (seam::LIVE_BLOCKS.load(Relaxed), seam::LIVE_BYTES.load(Relaxed));
    let mut grown = None;
    for k in 0..5 {
        once()?;
        let now = (seam::LIVE_BLOCKS.load(Relaxed), seam::LIVE_BYTES.load(Relaxed));
        let d = now.0 as i64 - last.0 as i64;
        let by = now.1 as i64 - last.1 as i64;
        last = now;
        // the first repetitions may fill caches
        if k >= 2 {
            if d <= 0 && by <= 0 {
                return Ok(None);
            }
            grown = Some((d.max(0) as u64, by.max(0) as u64));
        }
    }
    Ok(grown)
}

pub fn gen_lin(r: &mut Rng, pool: &[String], k: usize) -> Lin {
    let mut names = pool.to_vec();
    r.shuffle(&mut names);
    names.truncate(k);
    let mut l = Lin {
        terms: names
            .into_iter()
            .map(|v| {
                let c = if r.chance(0.3) { 1.0 } else { r.range(1, 9) as f64 };
                (F(if r.chance(0.4) { -c } else { c }), v)
            })
            .collect(),
        sq: F(0.0),
        rhs: F(r.dec(-30, 30)),
        style: r.u64() as u32,
        bad: 0,
    };
    if k == 1 && r.chance(0.15) && !l.terms.is_empty() {
        l.sq = F(r.range(1, 5) as f64);
        l.terms[0].0 = F(0.0);
        l.rhs = F(r.range(1, 80) as f64);
    }
    if r.chance(0.12) {
        l.bad = r.range(1, 9) as u8;
    }
    l
}
pub fn gen_dom(r: &mut Rng) -> (F, F, F) {
    let g = r.dec(-6, 6);
    let g = if r.chance(0.5) { 1.0 } else { g };
    match r.below(5) {
        0 => (F(g), F(g - 40.0), F(g + 60.0)),
        1 => (F(g), F(g - 3.0), F(g + 2.0)),
        2 => (F(g), F(g - 1.0), F(f64::INFINITY)),
        _ => (F(g), F(f64::NEG_INFINITY), F(f64::INFINITY)),
    }
}

impl Scenario for C06 {
    type Plan = Plan;
    fn meta(&self) -> Meta {
        Meta {
            id: "C06",
            rule: "one run = a history of 10-60 calls through the C interface over up to 3 contexts, 4 builders, 4 systems and any number of result strings, with malformed, unsolvable and rejected requests mixed in, executed 3 times on an allocator that records liveness, poisons and quarantines freed blocks; counted when at least one call failed; distinct by trace hash",
            real: "geqslib::ffi and everything below it, built from /repo with edge instrumentation",
            stub: "the process allocator is the simulator's ledger; hash seeds come from the run seed; the handle model and the reference solution are the simulator's",
            assumptions: &["callers keep the documented contract (no null, freed or foreign handles)", "allocation failure is not injected: Rust aborts the process on it by design"],
            quick_runs: 120000,
            thorough_runs: 700000,
            chunk: 400,
            step_limit: 2_000_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> Plan {
        let mut names = gen_names(r, 7);
        if r.chance(0.15) {
            names[0] = r.pick(&["e", "pi"]).to_string(); // predefined names may be given another value
        }
        let (cn, vn) = names.split_at(2);
        let mut ops = vec![Op::NewCtx { default: r.chance(0.6) }];
        let n = 10 + r.below(if thorough { 90 } else { 45 });
        // a rough picture of one builder under construction, so that systems do get finished
        let mut known: BTreeSet<String> = BTreeSet::new();
        let mut have = 0usize;
        for _ in 0..n {
            let i = r.below(8);
            let (g, lo, hi) = gen_dom(r);
            let margin = F(if r.chance(0.05) { *r.pick(&[0.0, -1.0]) } else { *r.pick(&[1e-3, 1e-4, 1e-6, 1e-10]) });
            let limit = if r.chance(0.1) { r.below(4) as u32 } else { *r.pick(&[60, 60, 100, 256, 1024]) };
            ops.push(match r.below(22) {
                0 => {
                    if r.chance(0.4) {
                        Op::NewCtx { default: r.chance(0.6) }
                    } else {
                        Op::AddConst { ctx: i, name: r.pick(cn).clone(), val: F(r.dec(-9, 9)) }
                    }
                }
                1..=4 => {
                    let k = 1 + r.below(3);
                    let pool: Vec<String> = if k == 1 { vn.to_vec() } else { cn.iter().cloned().chain([r.pick(vn).clone()]).collect() };
                    let eq = gen_lin(r, &pool, k);
                    let guess = if eq.sq.0 != 0.0 && g.0.abs() < 0.1 { F(1.0) } else { g };
                    let (lo, hi) = if lo.0 < guess.0 && guess.0 < hi.0 { (lo, hi) } else { (F(f64::NEG_INFINITY), F(f64::INFINITY)) };
                    Op::Solve { ctx: i, eq, guess, min: lo, max: hi, margin, limit }
                }
                5 => {
                    let k = 1 + r.below(3);
                    let eq = gen_lin(r, vn, k);
                    if eq.bad == 0 {
                        known = eq.names();
                        have = 1;
                    }
                    Op::NewBuilder { ctx: i, eq }
                }
                6..=12 => {
                    let old: Vec<String> = known.iter().cloned().collect();
                    let eq = match r.below(5) {
                        0 => {
                            let k = 1 + r.below(3);
                            gen_lin(r, vn, k)
                        }
                        1 => {
                            let mut p = old.clone();
                            p.push(r.pick(vn).clone());
                            p.dedup();
                            let p: Vec<String> = p.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
                            let k = 1 + r.below(p.len().min(3));
                            gen_lin(r, &p, k)
                        }
                        2 if !old.is_empty() => {
                            let p: Vec<String> = old.iter().cloned().chain(cn.iter().cloned()).collect();
                            let k = 1 + r.below(p.len().min(4));
                            gen_lin(r, &p, k)
                        }
                        _ => {
                            let k = 1 + r.below(old.len().clamp(1, 4));
                            gen_lin(r, if old.is_empty() { vn } else { &old }, k)
                        }
                    };
                    if eq.bad == 0 && have < known.len() && eq.names().difference(&known).count() <= 1 {
                        known.extend(eq.names());
                        have += 1;
                    }
                    // mostly the newest builder
                    Op::Try { b: if r.chance(0.8) { usize::MAX / 2 } else { i }, eq }
                }
                13 => Op::IsFull { b: i },
                14..=15 => {
                    if r.chance(0.05) {
                        Op::Debug { b: i }
                    } else {
                        Op::Build { b: if have == known.len() || r.chance(0.2) { usize::MAX / 2 } else { i } }
                    }
                }
                16..=17 => Op::Specify { s: i, var: if r.chance(0.8) { r.pick(vn).clone() } else { r.pick(&["sin", "pi", "nosuch", ""]).to_string() }, guess: g, min: lo, max: hi },
                18 => Op::SolveSys { s: i, margin, limit },
                19 => {
                    if r.chance(0.3) {
                        Op::FreeCtx { ctx: i }
                    } else {
                        Op::FreeStr { k: i }
                    }
                }
                20 => {
                    if r.chance(0.2) {
                        Op::FreeBuilder { b: i }
                    } else {
                        Op::FreeStr { k: i }
                    }
                }
                _ => {
                    if r.chance(0.2) {
                        Op::FreeSys { s: i }
                    } else {
                        Op::SolveSys { s: i, margin, limit }
                    }
                }
            });
            // contexts may have all been freed
            if r.chance(0.03) {
                ops.push(Op::NewCtx { default: true });
            }
        }
        Plan { ops, hash: r.u64() >> 16 }
    }
    fn run(&self, p: &Plan, r: &mut Run) -> Res {
        for op in &p.ops {
            let l = match op {
                Op::Solve { eq, .. } | Op::NewBuilder { eq, .. } | Op::Try { eq, .. } => Some(eq),
                _ => None,
            };
            if l.map_or(false, |l| !l.ok() || CString::new(l.text()).is_err()) {
                return Ok(());
            }
            if let Op::Solve { guess, min, max, limit, .. } = op {
                if !(min.0 < guess.0 && guess.0 < max.0) || *limit > 300 {
                    return Ok(());
                }
            }
            if let Op::AddConst { name, val, .. } = op {
                // a constant must not hide a function or be unusable as a name
                if !val.0.is_finite() || name.is_empty() || crate::expr::UNARY_FUNCS.iter().any(|f| f.0 == name) {
                    return Ok(());
                }
            }
            if let Op::Solve { eq, .. } | Op::NewBuilder { eq, .. } | Op::Try { eq, .. } = op {
                if eq.terms.iter().any(|t| !t.1.starts_with(|c: char| c.is_ascii_alphabetic()) || crate::expr::UNARY_FUNCS.iter().any(|f| f.0 == t.1)) {
                    return Ok(());
                }
            }
        }
        seam::set_hash_seed(p.hash);
        seam::QUARANTINE.store(true, Relaxed);
        let mut first = true;
        let grown = leak_check(|| {
            let rec = std::mem::replace(&mut first, false);
            self.once(p, r, rec)
        })?;
        seam::QUARANTINE.store(false, Relaxed);
        seam::quarantine_flush();
        if let Some((blocks, bytes)) = grown {
            bail!("leak", "every repetition of the history leaves {blocks} more blocks ({bytes} bytes) although every handle was freed");
        }
        Ok(())
    }
}
