//! C10: threads working on their own objects under a seeded scheduler, compared with running alone.
use crate::core::*;
use crate::expr::*;
use crate::net::*;
use crate::s_expr::GARBAGE;
use crate::s_text::{gen_p2, p2_lines, reference, P2};
use crate::text::{gen_names, render};
use crate::{bail, check, seam};
use geqslib::newton::{multivariate_newton_raphson, newton_raphson};
use geqslib::shunting::{compile_to_fn, eval_str, eval_str_with_context, new_context, ContextLike};
use geqslib::system::SystemBuilder;
use neapolitan::Matrix;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::ffi::{CStr, CString};

pub struct C10;

#[derive(Clone, Serialize, Deserialize)]
pub enum Job {
    /// a well-posed text
    Text(P2),
    /// the same small program in every thread, with other numbers
    Tmpl { a: F, b: F, k: F, unit: u8, ffi: bool },
    /// texts the solver must refuse
    BadText(u8),
    /// expression evaluated at several points, with a custom function that may pause or panic
    Expr { e: E, consts: Vec<(String, F)>, var: String, at: Vec<F>, boom: u64 },
    Str(E),
    Garbage(String),
    /// equations ax + by = c added one by one
    Builder { rows: Vec<[F; 3]>, bad: bool },
    Root { a: F, b: F, fail: u64 },
    Roots { a: F, b: F, fail: u64 },
    Convert { from: String, to: String },
    Cond { text: String },
    Matrix { n: usize, seed: u64 },
    Study { net: Net },
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub threads: Vec<(u64, Vec<Job>)>,
    pub sched: u64,
    pub mean: u64,
    pub rare: u64,
}

thread_local! {
    static BOOM: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn tick() {
    seam::sched_yield_point();
    BOOM.with(|b| {
        let n = b.get();
        if n > 0 {
            b.set(n - 1);
            if n == 1 {
                std::panic::panic_any(Injected(10));
            }
        }
    });
}
fn pause(a: &[f64]) -> f64 {
    tick();
    a[0]
}
/// evaluates another expression in the middle of an evaluation
fn inner(a: &[f64]) -> f64 {
    tick();
    let y = eval_str(&format!("({} + 2) * 3 - sin(0)", lit(a[0].clamp(-1e6, 1e6)))).unwrap_or(f64::NAN);
    seam::sched_yield_point();
    y
}

/// exact result
fn x(v: impl Into<Value>) -> Value {
    json!({"x": v.into()})
}
fn bits(v: f64) -> String {
    if v.is_nan() {
        "nan".into()
    } else {
        format!("{:016x}", v.to_bits())
    }
}
/// named values, equal within tolerances
fn m<'a>(v: impl Iterator<Item = (&'a String, &'a f64)>, tol: &dyn Fn(&str) -> f64) -> Value {
    json!({"m": v.map(|(k, y)| (k.clone(), json!([y, tol(k)]))).collect::<BTreeMap<_, _>>()})
}
const BAD: &[&str] = &["x + = 3", "x = sin(", "x = 1 [ft->parsec]", "x + y = 3", "x^2 = 0-4", "if x:\n x = 1\nend", "const k =", ""];
fn template(a: f64, b: f64, k: f64, unit: u8) -> String {
    let u = ["ft->m", "m->ft", "min->s", "lbm->kg"][unit as usize % 4];
    format!("// numbers differ\nconst k = {}\nx * k + y = {}\ny - x = {}\nz = x + y [{u}]\nkeep w on [0, 100]\nguess 2 for w\nif k > 3:\nw^2 = 9\nelse:\nw^2 = 25\nend\nv = #g + z\n", lit(k), lit(a), lit(b)).replace("[{u}]", u)
}
fn one(j: &Job) -> Value {
    match j {
        Job::Text(p) => {
            let Some(t) = reference(p) else { return x("-") };
            match nexsys::solve_with_preprocessors(&render(&p2_lines(p)), p.margin.0, p.limit as usize) {
                Err(_) => x("err"),
                Ok((_, s)) => m(s.iter(), &|k| 2.0 * t.tol.get(k).unwrap_or(&1e-6) + 1e-9),
            }
        }
        Job::Tmpl { a, b, k, unit, ffi } => {
            let t = template(a.0, b.0, k.0, *unit);
            if *ffi {
                let c = CString::new(t).unwrap();
                let p = unsafe { nexsys::ffi::solve_with_preprocessors(c.as_ptr(), 1e-8, 200) };
                if p.is_null() {
                    return x("null");
                }
                let text = unsafe { CStr::from_ptr(p) }.to_bytes().to_vec();
                unsafe { nexsys::ffi::free_solution_string(p) };
                return match crate::s_ffi_nexsys::parse_report(&text) {
                    None => x("unreadable"),
                    Some(s) => m(s.iter(), &|_| 1e-5),
                };
            }
            match nexsys::solve_with_preprocessors(&t, 1e-8, 200) {
                Err(_) => x("err"),
                Ok((_, s)) => m(s.iter(), &|_| 1e-5),
            }
        }
        Job::BadText(k) => x(match nexsys::solve_with_preprocessors(BAD[*k as usize % BAD.len()], 1e-6, 50) {
            Err(_) => "err",
            Ok(_) => "ok",
        }),
        Job::Expr { e, consts, var, at, boom } => {
            let mut ctx = new_context();
            for (n, v) in consts {
                ctx.add_const_to_ctx(n, v.0);
            }
            ctx.add_func_to_ctx("pause", pause, 1);
            ctx.add_func_to_ctx("inner", inner, 1);
            ctx.add_var_to_ctx(var, 1.0);
            let t = text(e, 1);
            let Ok(f) = compile_to_fn(&t, &mut ctx) else { return x("err") };
            let mut out = vec![];
            for (i, v) in at.iter().enumerate() {
                BOOM.with(|b| b.set(if i == 0 { *boom } else { 0 }));
                out.push(match guard(|| f(v.0)) {
                    Err(_) => "panic".to_string(),
                    Ok(Err(_)) => "err".to_string(),
                    Ok(Ok(y)) => bits(y),
                });
                BOOM.with(|b| b.set(0));
            }
            let whole = eval_str_with_context(&format!("{} + 1", consts.first().map_or("pi", |c| c.0.as_str())), &mut ctx);
            out.push(whole.map_or("err".into(), bits));
            x(out)
        }
        Job::Str(e) => x(eval_str(&text(e, 1)).map_or("err".into(), bits)),
        Job::Garbage(t) => x(eval_str(t).map_or("err".into(), bits)),
        Job::Builder { rows, bad } => {
            let (mut eqs, mut first) = (vec![], None);
            for r in rows {
                eqs.push(format!("{} * p + {} * q = {}", lit(r[0].0), lit(r[1].0), lit(r[2].0)));
            }
            let mut verdicts = vec![];
            let first_eq = "p - q + p = 3".to_string();
            if let Ok(mut b) = SystemBuilder::new(&first_eq, new_context()) {
                if *bad {
                    verdicts.push(format!("{:?}", b.try_constrain_with("p + q + r + s = 2").map_err(|_| ())));
                    verdicts.push(format!("{:?}", b.try_constrain_with("p + * q = 2").map_err(|_| ())));
                }
                for e in &eqs {
                    verdicts.push(format!("{:?}", b.try_constrain_with(e).map_err(|_| ())));
                }
                if let Some(mut s) = b.build_system() {
                    s.specify_variable("p", 0.5, -1e6, 1e6);
                    first = s.solve(1e-8, 200).ok();
                }
            }
            match first {
                None => x(verdicts),
                Some(s) => {
                    let mut v = m(s.iter(), &|_| 1e-4);
                    v["x"] = json!(verdicts);
                    v
                }
            }
        }
        Job::Root { a, b, fail } => {
            let n = std::cell::Cell::new(0);
            let (a, b) = (a.0, b.0);
            let f = |v: f64| {
                seam::sched_yield_point();
                n.set(n.get() + 1);
                if n.get() == *fail {
                    anyhow::bail!("own failure");
                }
                Ok(a * v - b)
            };
            x(newton_raphson(f, 1.0, 1e-8, 100).map_or_else(|e| format!("err {e}"), bits))
        }
        Job::Roots { a, b, fail } => {
            let n = std::rc::Rc::new(std::cell::Cell::new(0));
            let (a, b, fail) = (a.0, b.0, *fail);
            let mk = |k: u8| {
                let n = n.clone();
                move |v: &HashMap<u8, f64>| {
                    seam::sched_yield_point();
                    n.set(n.get() + 1);
                    if n.get() == fail {
                        anyhow::bail!("own failure");
                    }
                    Ok(if k == 0 { a * v[&0] + v[&1] - b } else { v[&0] - 2.0 * v[&1] - 1.0 })
                }
            };
            let mut g = HashMap::from([(0u8, 1.0), (1u8, 1.0)]);
            match multivariate_newton_raphson(vec![mk(0), mk(1)], &mut g, 1e-8, 100) {
                Err(e) => x(format!("err {e}")),
                Ok(s) => {
                    let s: BTreeMap<String, f64> = s.iter().map(|(k, v)| (k.to_string(), *v)).collect();
                    m(s.iter(), &|_| 1e-4)
                }
            }
        }
        Job::Convert { from, to } => x(nexsys::units::convert(from, to).map_or("err".into(), bits)),
        Job::Cond { text } => x(nexsys::parsing::conditionals(text).unwrap_or_else(|_| "err".into())),
        Job::Matrix { n, seed } => {
            let n = (*n).clamp(1, 9);
            let mut r = Rng::new(*seed);
            let mut v = vec![];
            for i in 0..n * n {
                v.push(r.dec(-4, 4) + if i % (n + 1) == 0 { 12.0 } else { 0.0 });
            }
            let Ok(a) = Matrix::from_vec(n, v) else { return x("err") };
            let mut b = a.clone();
            if b.try_inplace_invert().is_err() {
                return x("singular");
            }
            let mut c = &a * &b;
            c.inplace_scale(3.0);
            if n > 1 {
                c.inplace_row_swap(0, n - 1);
            }
            let c = &c + &a;
            x(Vec::<f64>::from(c).into_iter().chain(Vec::<f64>::from(b)).map(bits).collect::<Vec<_>>())
        }
        Job::Study { net } => {
            let Some(w) = net.reference() else { return x("-") };
            let top = w.v.iter().flatten().fold(1.0f64, |m, x| m.max(x.abs()));
            match net.build(None).and_then(|b| b.run_study(1e-6, 100)) {
                Err(_) => x("err"),
                Ok(s) => {
                    let v = serde_json::to_value(s).unwrap_or(Value::Null);
                    match parse_result(net, &v) {
                        Err(e) => x(format!("unreadable {}", e.class)),
                        Ok(o) => {
                            let s: BTreeMap<String, f64> = o.v.iter().enumerate().map(|(i, v)| (i.to_string(), v[0])).collect();
                            m(s.iter(), &|_| 1e-5 + 1e-9 * top * (1.0 + w.cond))
                        }
                    }
                }
            }
        }
    }
}
fn all(jobs: &[Job]) -> Vec<Value> {
    jobs.iter()
        .map(|j| {
            seam::sched_yield_point();
            guard(|| one(j)).unwrap_or_else(|_| x("panic"))
        })
        .collect()
}
fn same(a: &Value, b: &Value) -> bool {
    if a["x"] != b["x"] {
        return false;
    }
    match (a["m"].as_object(), b["m"].as_object()) {
        (None, None) => true,
        (Some(p), Some(q)) => {
            p.len() == q.len()
                && p.iter().all(|(k, v)| {
                    q.get(k).is_some_and(|w| match (v[0].as_f64(), w[0].as_f64()) {
                        (Some(x), Some(y)) => (x - y).abs() <= v[1].as_f64().unwrap_or(0.0).max(w[1].as_f64().unwrap_or(0.0)),
                        (None, None) => true,
                        _ => false,
                    })
                })
        }
        _ => false,
    }
}
fn show(j: &Job) -> String {
    match j {
        Job::Text(p) => format!("solve text\n{}", render(&p2_lines(p))),
        Job::Tmpl { a, b, k, unit, .. } => format!("solve text\n{}", template(a.0, b.0, k.0, *unit)),
        j => serde_json::to_string(j).unwrap_or_default(),
    }
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
}
/// runs `f` in a forked copy of this (cold) process
fn apart(f: impl FnOnce() -> Vec<Value>) -> Result<Vec<Value>, i32> {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            return Err(-1);
        }
        let pid = fork();
        if pid == 0 {
            let t = serde_json::to_vec(&f()).unwrap();
            let mut o = 0;
            while o < t.len() {
                let n = write(fds[1], t.as_ptr().add(o), t.len() - o);
                if n <= 0 {
                    _exit(9);
                }
                o += n as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        let mut buf = vec![];
        let mut b = [0u8; 65536];
        loop {
            let n = read(fds[0], b.as_mut_ptr(), b.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&b[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st != 0 {
            return Err(st);
        }
        serde_json::from_slice(&buf).map_err(|_| -2)
    }
}

fn gen_job(r: &mut Rng, shared: &[Job], thorough: bool) -> Job {
    if !shared.is_empty() && r.chance(0.4) {
        let mut j = r.pick(shared).clone();
        // the same work with other numbers
        match &mut j {
            Job::Expr { consts, at, boom, .. } => {
                for c in consts.iter_mut() {
                    c.1 = F(r.dec(-9, 9));
                }
                at.iter_mut().for_each(|v| *v = F(r.dec(-6, 6)));
                if r.chance(0.2) {
                    *boom = 1 + r.below(3) as u64;
                }
            }
            Job::Tmpl { a, b, k, .. } => {
                *a = F(r.dec(-30, 30));
                *b = F(r.dec(-30, 30));
                *k = F(r.range(1, 7) as f64);
            }
            Job::Matrix { seed, .. } => *seed = r.u64(),
            Job::Root { b, .. } | Job::Roots { b, .. } => *b = F(r.dec(-9, 9)),
            _ => {}
        }
        return j;
    }
    let kind = r.below(16);
    gen_kind(r, kind, thorough)
}
fn gen_kind(r: &mut Rng, kind: usize, thorough: bool) -> Job {
    match kind {
        0 | 1 => {
            let mut p = gen_p2(r, if thorough { 8 } else { 5 }, 1);
            p.margin = F(1e-7);
            p.limit = 200;
            Job::Text(p)
        }
        2 | 3 => Job::Tmpl { a: F(r.dec(-30, 30)), b: F(r.dec(-30, 30)), k: F(r.range(1, 7) as f64), unit: r.below(4) as u8, ffi: r.chance(0.3) },
        4 => Job::BadText(r.below(BAD.len()) as u8),
        5..=7 => {
            let names = gen_names(r, 4);
            let consts: Vec<(String, F)> = names[1..3].iter().map(|n| (n.clone(), F(r.dec(-9, 9)))).collect();
            let vars: Vec<String> = names[..3].to_vec();
            let o = GenOpts { vars: &vars, funcs: UNARY_FUNCS, allow_if: true, allow_div: true, allow_pow: true, text_consts: false };
            let depth = 1 + r.below(4);
            let mut e = gen_expr(r, depth, &o);
            for _ in 0..r.below(3) {
                let f = if r.chance(0.5) { "pause" } else { "inner" };
                e = b(*r.pick(&['+', '-', '*']), e, E::C(f.into(), vec![v(r.pick(&vars))]));
            }
            Job::Expr { e, consts, var: names[0].clone(), at: (0..1 + r.below(3)).map(|_| F(r.dec(-6, 6))).collect(), boom: if r.chance(0.25) { 1 + r.below(3) as u64 } else { 0 } }
        }
        8 => {
            let o = GenOpts { vars: &[], funcs: UNARY_FUNCS, allow_if: true, allow_div: true, allow_pow: true, text_consts: false };
            Job::Str(gen_expr(r, 3, &o))
        }
        9 => Job::Garbage(r.pick(GARBAGE).to_string()),
        10 => Job::Builder { rows: vec![[F(r.range(1, 5) as f64), F(9.0), F(r.dec(-9, 9))], [F(1.0), F(1.0), F(2.0)]], bad: r.chance(0.5) },
        11 => {
            let fail = if r.chance(0.5) { 1 + r.below(6) as u64 } else { 0 };
            if r.chance(0.5) {
                Job::Root { a: F(r.range(1, 9) as f64), b: F(r.dec(-9, 9)), fail }
            } else {
                Job::Roots { a: F(r.range(1, 9) as f64), b: F(r.dec(-9, 9)), fail }
            }
        }
        12 => {
            const U: &[&str] = &["ft", "m", "in", "min", "s", "hr", "g", "kg", "ft^2", "m^2", "in^3", "m^3", "mi/hr", "m/s", "nosuch"];
            if r.chance(0.8) {
                // units of one kind
                let a = r.pick(UNITS);
                let same: Vec<&str> = UNITS.iter().filter(|u| u.1 == a.1).map(|u| u.0).collect();
                return Job::Convert { from: r.pick(&same).to_string(), to: r.pick(&same).to_string() };
            }
            Job::Convert { from: r.pick(U).to_string(), to: r.pick(U).to_string() }
        }
        13 => Job::Cond { text: r.pick(&["if a > b:\ny = 1\nelse:\ny = 2\nend", "x = 1\nif a == b:\n  q = 3\nelse:\n  q = 4\nend\nz = 2", "if a <= 3:\nc = a\nelse:\nc = 2\nend\nif b >= 1:\nd = 1\nelse:\nd = 0\nend", "if a ! b:\n1\nelse:\n2\nend", "x = 3"]).to_string() },
        14 => Job::Matrix { n: 1 + r.below(7), seed: r.u64() },
        _ => {
            let gn = GenNet { heat: r.chance(0.5), dim: 1, max_nodes: 4, custom: false, grounded: true };
            Job::Study { net: gen_net(r, &gn) }
        }
    }
}
impl Scenario for C10 {
    type Plan = Plan;
    fn meta(&self) -> Meta {
        Meta {
            id: "C10",
            rule: "one run = 2-5 threads of 1-15 jobs each (text solves, expressions, builders, root finding, conversions, matrices, network studies; failing and panicking ones among them) in a cold process under a seeded scheduler that pre-empts at basic-block edges (uniformly, or mostly where code ran rarely), allocations and locks; every job's result compared with the result of its thread running alone in a cold process; counted when a pre-emption happened; distinct by trace hash (results and scheduling decisions)",
            real: "geqslib, nexsys, gmatlib, neapolitan with their lazily initialised tables, built from /repo with edge instrumentation, on real OS threads of which exactly one runs at a time",
            stub: "scheduler, futex waits and hash seeds are the simulator's; custom functions, their pauses and panics are the simulator's",
            assumptions: &["sequentially consistent memory: one thread runs at a time, so hardware reorderings are not explored", "code of the standard library and other dependencies is pre-empted only where it allocates, locks or calls back"],
            quick_runs: 5000,
            thorough_runs: 120000,
            chunk: 60,
            step_limit: 6_000_000_000,
            fork: true,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> Plan {
        let n = 2 + r.below(if thorough { 4 } else { 3 });
        let rare = if r.chance(0.5) { *r.pick(&[2, 4, 10, 30]) } else { 0 };
        if r.chance(0.5) {
            // every thread does the same kind of short work over and over again
            let kind = *r.pick(&[2, 4, 5, 8, 9, 10, 11, 12, 12, 12, 13, 14]);
            let light = [8, 9, 11, 12, 13].contains(&kind);
            let pool: Vec<Job> = (0..2 + r.below(3)).map(|_| gen_kind(r, kind, thorough)).collect();
            let threads = (0..n)
                .map(|_| {
                    let k = 3 + r.below(if kind == 12 { 12 } else { 5 });
                    (r.u64() >> 16, (0..k).map(|_| r.pick(&pool).clone()).collect())
                })
                .collect();
            return Plan { threads, sched: r.u64() >> 16, mean: if rare > 0 { 20000 } else if light { *r.pick(&[2, 4, 8, 20, 60]) } else { *r.pick(&[10, 50, 200, 800, 3000]) }, rare };
        }
        let mut shared: Vec<Job> = vec![];
        let threads = (0..n)
            .map(|_| {
                let k = 1 + r.below(4);
                let jobs: Vec<Job> = (0..k).map(|_| gen_job(r, &shared, thorough)).collect();
                shared.extend(jobs.iter().cloned());
                (r.u64() >> 16, jobs)
            })
            .collect();
        Plan { threads, sched: r.u64() >> 16, mean: if rare > 0 { 20000 } else { *r.pick(&[20, 100, 500, 3000, 20000]) }, rare }
    }
    fn run(&self, p: &Plan, r: &mut Run) -> Res {
        if p.threads.is_empty() || p.threads.len() > 7 {
            return Ok(());
        }
        let mut alone = vec![];
        for (h, jobs) in &p.threads {
            let (h, j) = (*h, jobs.clone());
            let k = jobs.clone();
            match apart(move || {
                let (mut out, _) = seam::run_threads(1, u64::MAX >> 12, 0, vec![(h, Box::new(move || all(&j)))]);
                out.remove(0).unwrap_or_default()
            }) {
                Ok(v) => alone.push(v),
                Err(st) if (st >> 8) & 0xff == seam::EXIT_DEADLOCK => {
                    bail!("deadlock", "a thread running alone waits for itself:\n{}", k.iter().map(show).collect::<Vec<_>>().join("\n"))
                }
                Err(_) => {
                    r.probe("failed_alone");
                    return Ok(());
                }
            }
        }
        let jobs = p
            .threads
            .iter()
            .map(|(h, j)| {
                let j = j.clone();
                (*h, Box::new(move || all(&j)) as Box<dyn FnOnce() -> Vec<Value> + Send>)
            })
            .collect();
        let (out, st) = seam::run_threads(p.sched, p.mean, p.rare, jobs);
        r.ev(format!("sched {:x} {} {}", st.trace, st.switches, st.blocks));
        r.probe_n("switches", st.switches);
        r.probe_n("lock_waits", st.blocks);
        r.fault("schedule");
        if st.stalls > 0 {
            r.fault("stalled_thread");
        }
        if st.preempts > 0 {
            r.nontrivial = true;
        }
        for (t, got) in out.iter().enumerate() {
            let Some(got) = got else { bail!("thread-lost", "thread {t} ended by a panic outside of its jobs") };
            check!(got.len() == alone[t].len(), "thread-lost", "thread {t} finished {} of {} jobs", got.len(), alone[t].len());
            for (k, (g, w)) in got.iter().zip(&alone[t]).enumerate() {
                let job = &p.threads[t].1[k];
                check!(same(g, w), "interference", "thread {t}, job {k} gives {g}, alone it gives {w}\n{}\n({} threads, {} switches)", show(job), p.threads.len(), st.switches);
                r.ev(if g["x"].is_null() { "solved".to_string() } else { g["x"].to_string() });
                if g["x"] == "panic" || g["x"].as_array().is_some_and(|a| a.iter().any(|x| x == "panic")) {
                    r.fault("panicking_callback");
                } else if g["x"].as_str().is_some_and(|s| s.starts_with("err")) {
                    r.fault("failing_call");
                }
                if w["m"].is_object() {
                    r.probe("solved");
                }
            }
        }
        Ok(())
    }
}
