//! C05: compiled expressions against ordinary arithmetic, in histories that interleave evaluations of
//! expressions sharing contexts, failing and panicking evaluations, and changes to the contexts.
use crate::core::*;
use crate::expr::*;
use crate::text::gen_names;
use crate::{bail, check, seam};
use geqslib::shunting::{
    compile_to_fn, compile_to_fn_of_hashmap, eval_str, eval_str_with_context, new_context, ContextHashMap, ContextLike, Token,
};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct C05;

#[derive(Clone, Serialize, Deserialize)]
pub struct VarDef {
    pub name: String,
    pub init: F,
    pub min: F,
    pub max: F,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Ctx {
    pub vars: Vec<VarDef>,
    pub consts: Vec<(String, F)>,
    /// built-in functions and constants present
    pub default: bool,
}
#[derive(Clone, Serialize, Deserialize)]
pub enum Op {
    /// compile expression `e` against context `c` into the next slot
    Compile { c: usize, e: E, sp: u8, single: bool },
    /// call a compiled slot; fault: the k-th custom function call panics
    Eval { slot: usize, vals: Vec<F>, boom: u64 },
    /// call a compiled slot with a name it cannot know
    EvalUnknown { slot: usize, vals: Vec<F> },
    /// evaluate a text without variables of the context
    Str { c: Option<usize>, e: E, sp: u8, boom: u64 },
    /// text that is not an expression
    Garbage { c: usize, text: String },
    Remove { c: usize, name: String },
    SetConst { c: usize, name: String, val: F },
    SetVar { c: usize, def: VarDef },
    SetFunc { c: usize, name: String },
    /// `+=`, `-=`, `*=` or `/=` on the live variable that the context shares with its compiled expressions
    Adjust { c: usize, name: String, op: char, val: F },
    Drop { c: usize },
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub ctx: Vec<Ctx>,
    pub ops: Vec<Op>,
    pub hash: u64,
}

thread_local! {
    static BOOM: Cell<u64> = const { Cell::new(0) };
}
fn tick() {
    BOOM.with(|b| {
        let n = b.get();
        if n > 0 {
            b.set(n - 1);
            if n == 1 {
                std::panic::panic_any(Injected(5));
            }
        }
    });
}
// custom functions whose value does not depend on the order of their arguments
fn sum3(a: &[f64]) -> f64 {
    tick();
    assert!(a.len() == 3);
    a[0] + (a[1] + a[2])
}
fn mx(a: &[f64]) -> f64 {
    tick();
    assert!(a.len() == 2);
    if a[0] > a[1] { a[0] } else { a[1] }
}
fn twice(a: &[f64]) -> f64 {
    tick();
    assert!(a.len() == 1);
    2.0 * a[0]
}
fn seven(_: &[f64]) -> f64 {
    tick();
    7.0
}
fn nanf(_: &[f64]) -> f64 {
    tick();
    f64::NAN
}
/// evaluates other expressions, one of which fails, before it returns
fn nest(a: &[f64]) -> f64 {
    tick();
    let mut ctx = new_context();
    ctx.add_var_to_ctx("x", 4.0);
    let k = compile_to_fn("if(x, 5, 2, x / 4, 0) * 2", &ctx).and_then(|f| f(4.0));
    let _ = eval_str("7 - 1 / (3 - 3)");
    let j = eval_str("2 * 3 - 10 / 2");
    a[0] + (k.unwrap_or(1e30) + j.unwrap_or(1e30))
}
fn r_nest(a: &[f64]) -> f64 {
    a[0] + 3.0
}
fn r_sum3(a: &[f64]) -> f64 {
    a[2] + (a[1] + a[0])
}
fn r_mx(a: &[f64]) -> f64 {
    if a[1] > a[0] { a[1] } else { a[0] }
}
fn r_twice(a: &[f64]) -> f64 {
    2.0 * a[0]
}
fn r_seven(_: &[f64]) -> f64 {
    7.0
}
fn r_nan(_: &[f64]) -> f64 {
    f64::NAN
}
const REF: &[CustomFn] = &[("sum3", 3, r_sum3), ("mx", 2, r_mx), ("twice", 1, r_twice), ("seven", 1, r_seven), ("nanf", 1, r_nan), ("nest", 1, r_nest)];
const CUSTOM: &[(&str, usize)] = &[("sum3", 3), ("mx", 2), ("twice", 1), ("nanf", 1), ("nest", 1)];

fn build(c: &Ctx) -> ContextHashMap {
    let mut m = if c.default { new_context() } else { ContextHashMap::new() };
    m.add_func_to_ctx("sum3", sum3, 3);
    m.add_func_to_ctx("mx", mx, 2);
    m.add_func_to_ctx("twice", twice, 1);
    m.add_func_to_ctx("seven", seven, 1);
    m.add_func_to_ctx("nanf", nanf, 1);
    m.add_func_to_ctx("nest", nest, 1);
    for (k, x) in &c.consts {
        m.add_const_to_ctx(k, x.0);
    }
    for v in &c.vars {
        m.add_var_with_domain_to_ctx(&v.name, v.init.0, v.min.0, v.max.0);
    }
    m
}

/// evaluation with every intermediate result nudged by rounding-size noise
fn noisy(e: &E, get: &dyn Fn(&str) -> Option<f64>, seed: &mut u64) -> Result<f64, EvErr> {
    let mut nudge = |x: f64| {
        *seed = seam::mix(*seed);
        x * (1.0 + ((*seed >> 40) as f64 / (1u64 << 24) as f64 - 0.5) * 2e-14)
    };
    Ok(match e {
        E::B(op, l, r) => {
            let x = noisy(l, get, seed)?;
            let y = noisy(r, get, seed)?;
            let z = eval(&b(*op, n(x), n(y)), &Env { get, funcs: REF })?;
            let mut nudge = |x: f64| {
                *seed = seam::mix(*seed);
                x * (1.0 + ((*seed >> 40) as f64 / (1u64 << 24) as f64 - 0.5) * 2e-14)
            };
            nudge(z)
        }
        E::Neg(x) => -noisy(x, get, seed)?,
        E::Par(x) => noisy(x, get, seed)?,
        E::If(a, op, c, t, f) => {
            let (a, c, t, f) = (noisy(a, get, seed)?, noisy(c, get, seed)?, noisy(t, get, seed)?, noisy(f, get, seed)?);
            if cmp_op(a, *op, c) { t } else { f }
        }
        E::C(name, args) => {
            let mut v = vec![];
            for a in args {
                v.push(n(noisy(a, get, seed)?));
            }
            let z = eval(&E::C(name.clone(), v), &Env { get, funcs: REF })?;
            *seed = seam::mix(*seed);
            z * (1.0 + ((*seed >> 40) as f64 / (1u64 << 24) as f64 - 0.5) * 2e-14)
        }
        leaf => {
            let _ = &mut nudge;
            eval(leaf, &Env { get, funcs: REF })?
        }
    })
}
/// compare a result with the reference: equal, or equal up to the sensitivity of the expression to rounding
fn agree(got: &Result<f64, String>, e: &E, get: &dyn Fn(&str) -> Option<f64>) -> Result<bool, String> {
    let want = eval(e, &Env { get, funcs: REF });
    match (&want, got) {
        (Ok(w), Ok(g)) if w.to_bits() == g.to_bits() || (w.is_nan() && g.is_nan()) || w == g => return Ok(true),
        (Err(_), Err(_)) => return Ok(false),
        _ => {}
    }
    // is the reference value stable under rounding noise?
    let mut spread = 0.0f64;
    let mut stable = true;
    for s in 1..7u64 {
        let mut seed = s * 7919;
        match (noisy(e, get, &mut seed), &want) {
            (Ok(x), Ok(w)) => {
                if x.is_nan() != w.is_nan() || x.is_infinite() != w.is_infinite() {
                    stable = false;
                } else if x.is_finite() {
                    spread = spread.max((x - w).abs());
                }
            }
            (Err(_), Err(_)) => {}
            _ => stable = false,
        }
    }
    match (&want, got) {
        (Ok(w), Ok(g)) => {
            if !stable || (g - w).abs() <= 50.0 * spread + 1e-12 * w.abs() {
                return Ok(false);
            }
            Err(format!("gives {g:?}, arithmetic gives {w:?}"))
        }
        _ if !stable => Ok(false),
        (Ok(w), Err(m)) => Err(format!("fails ({m}), arithmetic gives {w:?}")),
        (Err(x), Ok(g)) => Err(format!("gives {g:?}, but its value is undefined ({x:?})")),
        _ => Ok(false),
    }
}
fn count_calls(e: &E) -> u64 {
    match e {
        E::Neg(x) | E::Par(x) => count_calls(x),
        E::B(_, l, r) => count_calls(l) + count_calls(r),
        E::C(f, a) => a.iter().map(count_calls).sum::<u64>() + REF.iter().any(|c| c.0 == f) as u64,
        E::If(a, _, c, t, f) => count_calls(a) + count_calls(c) + count_calls(t) + count_calls(f),
        _ => 0,
    }
}

enum Compiled {
    Map(Box<dyn Fn(&HashMap<String, f64>) -> anyhow::Result<f64>>),
    Single(Box<dyn Fn(f64) -> anyhow::Result<f64>>),
}
struct Slot {
    f: Compiled,
    e: E,
    text: String,
    /// variables to supply, with their domains, as they were at compile time
    vars: Vec<VarDef>,
    consts: BTreeMap<String, f64>,
    c: usize,
}

fn gen_ctx(r: &mut Rng, names: &[String], single: bool) -> Ctx {
    let nv = if single { 1 } else { 1 + r.below(4) };
    let nc = r.below(3);
    let mut names = names.to_vec();
    r.shuffle(&mut names);
    let mut it = names.into_iter();
    let vars = (0..nv)
        .filter_map(|_| it.next())
        .map(|name| {
            let (min, max) = match r.below(4) {
                0 => (-2.0, 3.0),
                1 => (0.0, f64::INFINITY),
                _ => (f64::NEG_INFINITY, f64::INFINITY),
            };
            VarDef { name, init: F(1.0), min: F(min), max: F(max) }
        })
        .collect();
    let consts = (0..nc).filter_map(|_| it.next()).map(|k| (k, F(r.dec(-5, 9)))).collect();
    Ctx { vars, consts, default: r.chance(0.85) }
}
fn gen_in(r: &mut Rng, c: &Ctx, depth: usize, with_vars: bool) -> E {
    let mut names: Vec<String> = c.consts.iter().map(|k| k.0.clone()).collect();
    if with_vars {
        names.extend(c.vars.iter().map(|v| v.name.clone()));
        names.extend(c.vars.iter().map(|v| v.name.clone()));
    }
    let mut funcs: Vec<(&str, usize)> = vec![];
    if c.default {
        funcs.extend(UNARY_FUNCS);
    }
    funcs.extend(CUSTOM);
    let o = GenOpts { vars: &names, funcs: &funcs, allow_if: c.default, allow_div: true, allow_pow: true, text_consts: false };
    let e = gen_expr(r, depth, &o);
    if c.default {
        e
    } else {
        strip(&e)
    }
}
/// contexts without the built-ins know neither pi nor e
fn strip(e: &E) -> E {
    match e {
        E::V(s) if s == "pi" || s == "e" => n(3.0),
        E::Neg(x) => E::Neg(Box::new(strip(x))),
        E::Par(x) => E::Par(Box::new(strip(x))),
        E::B(o, l, r) => b(*o, strip(l), strip(r)),
        E::C(f, a) => E::C(f.clone(), a.iter().map(strip).collect()),
        x => x.clone(),
    }
}
pub const GARBAGE: &[&str] = &["", " ", "1 +", "* 2", "(1 + 2", "1 + 2)", "nosuch + 1", "1 2", "1 $ 2", "()", "1 + ()", ")(", "1 + * 2", "3 +", "/", "2 ^", "1 & 2", "((1)"];

impl Scenario for C05 {
    type Plan = Plan;
    fn meta(&self) -> Meta {
        Meta {
            id: "C05",
            rule: "one run = 1-3 contexts, 8-40 operations: compiling expressions, calling any of them in seeded order (with injected panics in custom functions, divisions by zero, NaN, unknown names), changing and dropping the contexts; counted when at least two compiled expressions sharing a context were called; distinct by trace hash",
            real: "geqslib::shunting, context and variable, built from /repo with edge instrumentation",
            stub: "custom functions, their injected panics and the reference evaluator are the simulator's",
            assumptions: &["results may differ from the reference by a small multiple of the expression's own sensitivity to rounding", "custom functions of several arguments are symmetric in them (the order in which the libraries pass them is not part of the property)"],
            quick_runs: 300000,
            thorough_runs: 3000000,
            chunk: 2000,
            step_limit: 400_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> Plan {
        let names = gen_names(r, 8);
        let nc = 1 + r.below(3);
        let ctx: Vec<Ctx> = (0..nc).map(|_| { let single = r.chance(0.25); gen_ctx(r, &names, single) }).collect();
        let mut ops = vec![];
        let mut slots: Vec<(usize, usize, E)> = vec![];
        let nops = 8 + r.below(if thorough { 60 } else { 32 });
        // contexts as they currently are
        let mut now: Vec<Option<Ctx>> = ctx.iter().cloned().map(Some).collect();
        for k in 0..nops {
            let c = r.below(nc);
            let live = now[c].clone();
            let val = |r: &mut Rng| F(if r.chance(0.08) { *r.pick(&[0.0, -0.0, 1e9, -1e9, f64::INFINITY, f64::NAN]) } else { r.dec(-6, 6) });
            match if k < 3 { 0 } else { r.below(20) } {
                0..=4 => {
                    if let Some(d) = &live {
                        let single = d.vars.len() == 1 && r.chance(0.4);
                        let depth = 1 + r.below(4);
                        let e = gen_in(r, d, depth, true);
                        slots.push((c, d.vars.len(), e.clone()));
                        ops.push(Op::Compile { c, e, sp: r.below(3) as u8, single });
                    }
                }
                5..=12 => {
                    if !slots.is_empty() {
                        let s = r.below(slots.len());
                        let calls = count_calls(&slots[s].2);
                        let boom = if calls > 0 && r.chance(0.3) { 1 + r.below(calls as usize) as u64 } else { 0 };
                        ops.push(Op::Eval { slot: s, vals: (0..slots[s].1).map(|_| val(r)).collect(), boom });
                    }
                }
                13 => {
                    if !slots.is_empty() {
                        let s = r.below(slots.len());
                        ops.push(Op::EvalUnknown { slot: s, vals: (0..slots[s].1).map(|_| val(r)).collect() });
                    }
                }
                14..=15 => {
                    let depth = 1 + r.below(3);
                    if let (Some(d), true) = (&live, r.chance(0.6)) {
                        let e = gen_in(r, d, depth, false);
                        let calls = count_calls(&e);
                        let boom = if calls > 0 && r.chance(0.3) { 1 } else { 0 };
                        ops.push(Op::Str { c: Some(c), e, sp: r.below(3) as u8, boom });
                    } else {
                        let o = GenOpts { vars: &[], funcs: UNARY_FUNCS, allow_if: true, allow_div: true, allow_pow: true, text_consts: false };
                        ops.push(Op::Str { c: None, e: gen_expr(r, depth, &o), sp: r.below(3) as u8, boom: 0 });
                    }
                }
                16 => {
                    if live.is_some() {
                        ops.push(Op::Garbage { c, text: r.pick(GARBAGE).to_string() });
                    }
                }
                17 => {
                    if let Some(d) = now[c].as_mut() {
                        if d.vars.len() > 1 {
                            let i = r.below(d.vars.len());
                            let v = d.vars.remove(i);
                            ops.push(Op::Remove { c, name: v.name });
                        }
                    }
                }
                18 => {
                    if let Some(d) = now[c].as_mut() {
                        if !d.vars.is_empty() && r.chance(0.3) {
                            let name = d.vars[r.below(d.vars.len())].name.clone();
                            for _ in 0..r.range(1, 3) {
                                ops.push(Op::Adjust { c, name: name.clone(), op: *r.pick(&['+', '-', '*', '/']), val: F(r.dec(-30, 30)) });
                            }
                            continue;
                        }
                        match r.below(4) {
                            0 if !d.consts.is_empty() => {
                                let i = r.below(d.consts.len());
                                let x = F(r.dec(-9, 9));
                                d.consts[i].1 = x;
                                ops.push(Op::SetConst { c, name: d.consts[i].0.clone(), val: x });
                            }
                            1 => ops.push(Op::SetFunc { c, name: r.pick(&["twice", "mx", "sum3"]).to_string() }),
                            2 if d.vars.len() > 1 => {
                                // a variable turns into a constant
                                let i = r.below(d.vars.len());
                                let v = d.vars.remove(i);
                                let x = F(r.dec(-9, 9));
                                d.consts.push((v.name.clone(), x));
                                ops.push(Op::SetConst { c, name: v.name, val: x });
                            }
                            _ => {
                                // a fresh variable of the same name with another domain
                                let i = r.below(d.vars.len());
                                d.vars[i].min = F(-1.0);
                                d.vars[i].max = F(r.range(2, 9) as f64);
                                d.vars[i].init = F(0.5);
                                ops.push(Op::SetVar { c, def: d.vars[i].clone() });
                            }
                        }
                    }
                }
                _ => {
                    if r.chance(0.25) && live.is_some() {
                        now[c] = None;
                        ops.push(Op::Drop { c });
                    }
                }
            }
        }
        Plan { ctx, ops, hash: r.u64() >> 16 }
    }

    fn run(&self, p: &Plan, r: &mut Run) -> Res {
        seam::set_hash_seed(p.hash);
        let mut defs: Vec<Option<Ctx>> = p.ctx.iter().cloned().map(Some).collect();
        // functions replaced in a context compute something else from then on
        let mut replaced: Vec<BTreeSet<String>> = p.ctx.iter().map(|_| BTreeSet::new()).collect();
        let mut maps: Vec<Option<ContextHashMap>> = p.ctx.iter().map(|c| Some(build(c))).collect();
        let mut slots: Vec<Option<Slot>> = vec![];
        let mut hist: Vec<String> = vec![];
        let mut called: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        let mut failed_before = false;
        for op in &p.ops {
            BOOM.with(|b| b.set(0));
            match op {
                Op::Compile { c, e, sp, single } => {
                    let (Some(Some(d)), Some(Some(m))) = (defs.get(*c), maps.get(*c)) else {
                        slots.push(None);
                        continue;
                    };
                    let mut used = BTreeSet::new();
                    vars(e, &mut used);
                    let known = |s: &String| d.vars.iter().any(|v| v.name == *s) || d.consts.iter().any(|k| k.0 == *s);
                    if !used.iter().all(known) || (*single && d.vars.len() != 1) || uses(e, &replaced[*c]) || !wellformed(e, d.default) {
                        slots.push(None);
                        continue;
                    }
                    let t = text(e, *sp);
                    hist.push(format!("slot {} = compile({t:?}) in context {c}{}", slots.len(), if *single { " (single)" } else { "" }));
                    let f = if *single {
                        guard(|| compile_to_fn(&t, m).map(|f| Compiled::Single(Box::new(f))))
                    } else {
                        guard(|| compile_to_fn_of_hashmap(&t, m).map(|f| Compiled::Map(Box::new(f))))
                    };
                    match f {
                        Err(x) => bail!("panic", "{}\npanicked: {x}", hist.join("\n")),
                        Ok(Err(x)) => bail!("compile", "{}\nwas refused: {x}", hist.join("\n")),
                        Ok(Ok(f)) => slots.push(Some(Slot { f, e: e.clone(), text: t, vars: d.vars.clone(), consts: d.consts.iter().map(|k| (k.0.clone(), k.1 .0)).collect(), c: *c })),
                    }
                    r.ev("compile");
                }
                Op::Eval { slot, vals, boom } => {
                    let Some(Some(s)) = slots.get(*slot) else { continue };
                    if vals.len() != s.vars.len() {
                        continue;
                    }
                    let given: Vec<(String, f64)> = s.vars.iter().zip(vals).map(|(v, x)| (v.name.clone(), x.0)).collect();
                    hist.push(format!("slot {slot} ({:?}) at {given:?}{}", s.text, if *boom > 0 { format!(", custom function call {boom} panics") } else { String::new() }));
                    BOOM.with(|b| b.set(*boom));
                    let got = match &s.f {
                        Compiled::Map(f) => {
                            let m: HashMap<String, f64> = given.iter().cloned().collect();
                            guard(|| f(&m))
                        }
                        Compiled::Single(f) => guard(|| f(given[0].1)),
                    };
                    let fired = *boom > 0 && BOOM.with(|b| b.get()) == 0;
                    BOOM.with(|b| b.set(0));
                    // each variable is held inside of its domain (the domain it had when the expression was compiled,
                    // unless the context has a newer cell, which the expression does not see)
                    let clamp: BTreeMap<String, f64> = s.vars.iter().zip(&given).map(|(v, g)| (v.name.clone(), if g.1 > v.max.0 { v.max.0 } else if g.1 < v.min.0 { v.min.0 } else { g.1 })).collect();
                    let get = |x: &str| clamp.get(x).or_else(|| s.consts.get(x)).copied();
                    if fired {
                        r.fault("custom_function_panic");
                        failed_before = true;
                        match got {
                            Err(m) => check!(m == "injected#5", "panic-changed", "{}\nthe caller saw {m}", hist.join("\n")),
                            Ok(x) => bail!("panic-lost", "{}\nthe panic did not pass through: {:?}", hist.join("\n"), x.ok()),
                        }
                        r.ev("panic");
                        continue;
                    }
                    let got = match got {
                        Err(x) => bail!("panic", "{}\npanicked: {x}", hist.join("\n")),
                        Ok(x) => x.map_err(|e| e.to_string()),
                    };
                    r.ev(match &got {
                        Ok(x) => fx(*x),
                        Err(_) => "err".into(),
                    });
                    if got.is_err() {
                        r.fault("evaluation_error");
                        failed_before = true;
                    } else if failed_before {
                        r.probe("evaluated_after_failure");
                    }
                    match agree(&got, &s.e, &get) {
                        Ok(true) => r.probe("exact"),
                        Ok(false) => r.probe("agreed"),
                        Err(m) => bail!("value", "{}\n{m}", hist.join("\n")),
                    }
                    let set = called.entry(s.c).or_default();
                    set.insert(*slot);
                    r.nontrivial |= set.len() > 1;
                }
                Op::EvalUnknown { slot, vals } => {
                    let Some(Some(s)) = slots.get(*slot) else { continue };
                    let Compiled::Map(f) = &s.f else { continue };
                    let mut m: HashMap<String, f64> = s.vars.iter().zip(vals).map(|(v, x)| (v.name.clone(), x.0)).collect();
                    m.insert("no_such_variable".into(), 4.0);
                    hist.push(format!("slot {slot} ({:?}) with an unknown variable", s.text));
                    match guard(|| f(&m)) {
                        Err(x) => bail!("panic", "{}\npanicked: {x}", hist.join("\n")),
                        Ok(Ok(x)) => bail!("unknown-name", "{}\ngave {x}", hist.join("\n")),
                        Ok(Err(_)) => {}
                    }
                    failed_before = true;
                    r.fault("unknown_variable");
                    r.ev("unknown");
                }
                Op::Str { c, e, sp, boom } => {
                    let t = text(e, *sp);
                    let consts: BTreeMap<String, f64> = match c {
                        Some(c) => match defs.get(*c) {
                            Some(Some(d)) => {
                                if uses(e, &replaced[*c]) || !wellformed(e, d.default) {
                                    continue;
                                }
                                d.consts.iter().map(|k| (k.0.clone(), k.1 .0)).collect()
                            }
                            _ => continue,
                        },
                        None => {
                            if uses(e, &CUSTOM.iter().map(|c| c.0.to_string()).chain(["seven".to_string()]).collect()) {
                                continue;
                            }
                            BTreeMap::new()
                        }
                    };
                    let mut used = BTreeSet::new();
                    vars(e, &mut used);
                    if !used.iter().all(|s| consts.contains_key(s)) {
                        continue;
                    }
                    hist.push(format!("eval({t:?}){}", c.map_or(String::new(), |c| format!(" in context {c}"))));
                    BOOM.with(|b| b.set(*boom));
                    let got = match c {
                        Some(c) => {
                            let m = maps[*c].as_ref().unwrap();
                            guard(|| eval_str_with_context(&t, m))
                        }
                        None => guard(|| eval_str(&t)),
                    };
                    let fired = *boom > 0 && BOOM.with(|b| b.get()) == 0;
                    BOOM.with(|b| b.set(0));
                    if fired {
                        r.fault("custom_function_panic");
                        failed_before = true;
                        check!(matches!(&got, Err(m) if m == "injected#5"), "panic-lost", "{}\nthe panic did not pass through", hist.join("\n"));
                        continue;
                    }
                    let got = match got {
                        Err(x) => bail!("panic", "{}\npanicked: {x}", hist.join("\n")),
                        Ok(x) => x.map_err(|e| e.to_string()),
                    };
                    r.ev(match &got {
                        Ok(x) => fx(*x),
                        Err(_) => "err".into(),
                    });
                    if let Err(m) = agree(&got, e, &|x| consts.get(x).copied()) {
                        bail!("value", "{}\n{m}", hist.join("\n"));
                    }
                }
                Op::Garbage { c, text } => {
                    let Some(Some(m)) = maps.get(*c) else { continue };
                    hist.push(format!("garbage {text:?}"));
                    let a = guard(|| compile_to_fn_of_hashmap(text, m).map(|f| f(&HashMap::new())));
                    let b = guard(|| eval_str_with_context(text, m));
                    let c = guard(|| eval_str(text));
                    let bad = |x: &Result<anyhow::Result<f64>, String>| !matches!(x, Ok(Err(_)));
                    if bad(&b) || bad(&c) || !matches!(a, Ok(Err(_)) | Ok(Ok(Err(_)))) {
                        bail!("garbage", "{}\nwas given a value or panicked", hist.join("\n"));
                    }
                    failed_before = true;
                    r.fault("malformed_text");
                    r.ev("garbage");
                }
                Op::Remove { c, name } => {
                    let (Some(Some(d)), Some(Some(m))) = (defs.get_mut(*c), maps.get_mut(*c)) else { continue };
                    d.vars.retain(|v| v.name != *name);
                    d.consts.retain(|v| v.0 != *name);
                    m.remove(name);
                    hist.push(format!("remove {name} from context {c}"));
                    r.fault("context_changed");
                }
                Op::SetConst { c, name, val } => {
                    let (Some(Some(d)), Some(Some(m))) = (defs.get_mut(*c), maps.get_mut(*c)) else { continue };
                    d.vars.retain(|v| v.name != *name);
                    d.consts.retain(|v| v.0 != *name);
                    d.consts.push((name.clone(), *val));
                    m.add_const_to_ctx(name, val.0);
                    hist.push(format!("constant {name} = {} in context {c}", val.0));
                    r.fault("context_changed");
                }
                Op::SetVar { c, def } => {
                    let (Some(Some(d)), Some(Some(m))) = (defs.get_mut(*c), maps.get_mut(*c)) else { continue };
                    if !(def.min.0 <= def.init.0 && def.init.0 <= def.max.0) {
                        continue;
                    }
                    d.vars.retain(|v| v.name != def.name);
                    d.consts.retain(|v| v.0 != def.name);
                    d.vars.push(def.clone());
                    m.add_var_with_domain_to_ctx(&def.name, def.init.0, def.min.0, def.max.0);
                    hist.push(format!("variable {} on [{}, {}] in context {c}", def.name, def.min.0, def.max.0));
                    r.fault("context_changed");
                }
                Op::SetFunc { c, name } => {
                    let Some(Some(m)) = maps.get_mut(*c) else { continue };
                    let Some(k) = CUSTOM.iter().find(|f| f.0 == name) else { continue };
                    m.add_func_to_ctx(name, seven, k.1);
                    replaced[*c].insert(name.clone());
                    hist.push(format!("function {name} replaced in context {c}"));
                    r.fault("context_changed");
                }
                Op::Adjust { c, name, op, val } => {
                    let (Some(Some(d)), Some(Some(m))) = (defs.get(*c), maps.get(*c)) else { continue };
                    let Some(def) = d.vars.iter().find(|v| v.name == *name) else { continue };
                    let Some(Token::Var(cell)) = m.get(name) else {
                        bail!("context-lost-variable", "variable {name} is no longer in its context\n{}", hist.join("\n"));
                    };
                    let before = f64::from(*cell.borrow());
                    let want = match op {
                        '+' => before + val.0,
                        '-' => before - val.0,
                        '*' => before * val.0,
                        _ => before / val.0,
                    };
                    if !before.is_finite() || !want.is_finite() {
                        continue;
                    }
                    let want = if want > def.max.0 { def.max.0 } else if want < def.min.0 { def.min.0 } else { want };
                    {
                        let mut x = cell.borrow_mut();
                        match op {
                            '+' => *x += val.0,
                            '-' => *x -= val.0,
                            '*' => *x *= val.0,
                            _ => *x /= val.0,
                        }
                    }
                    let got = f64::from(*cell.borrow());
                    hist.push(format!("{name} {op}= {} in context {c}", val.0));
                    r.ev(format!("adjust {}", fx(got)));
                    r.fault("context_changed");
                    check!(
                        (got - want).abs() <= 1e-12 * want.abs(),
                        "variable-arithmetic",
                        "{name} = {before} on [{}, {}], then {op}= {}: {got} instead of {want}\n{}",
                        def.min.0,
                        def.max.0,
                        val.0,
                        hist.join("\n")
                    );
                }
                Op::Drop { c } => {
                    let Some(m) = maps.get_mut(*c) else { continue };
                    *m = None;
                    defs[*c] = None;
                    hist.push(format!("drop context {c}"));
                    r.fault("context_dropped");
                }
            }
        }
        Ok(())
    }
}
fn uses(e: &E, names: &BTreeSet<String>) -> bool {
    match e {
        E::Neg(x) | E::Par(x) => uses(x, names),
        E::B(_, l, r) => uses(l, names) || uses(r, names),
        E::C(f, a) => names.contains(f) || a.iter().any(|x| uses(x, names)),
        E::If(a, _, c, t, f) => [a, c, t, f].iter().any(|x| uses(x, names)),
        _ => false,
    }
}
/// shrinking may produce trees the language cannot express
fn wellformed(e: &E, builtins: bool) -> bool {
    match e {
        E::N(x) => x.0.is_finite() && x.0.abs() < 1e15 && (x.0 == 0.0 || x.0.abs() > 1e-6),
        E::V(s) => !s.is_empty() && (builtins || (s != "pi" && s != "e")),
        E::Neg(x) | E::Par(x) => wellformed(x, builtins),
        E::B(o, l, r) => "+-*/^".contains(*o) && wellformed(l, builtins) && wellformed(r, builtins),
        E::C(f, a) => {
            let k = REF.iter().map(|c| (c.0, c.1)).chain(if builtins { UNARY_FUNCS.iter().copied().collect::<Vec<_>>() } else { vec![] }).find(|c| c.0 == f);
            k.map_or(false, |k| k.1 == a.len()) && a.iter().all(|x| wellformed(x, builtins))
        }
        E::If(a, op, c, t, f) => builtins && (1..=6).contains(op) && [a, c, t, f].iter().all(|x| wellformed(x, builtins)),
        _ => false,
    }
}
