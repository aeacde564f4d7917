//! C09: sessions of solves through the text solver's C interface, sharing contexts and declarations.
use crate::core::*;
use crate::expr::F;
use crate::s_ffi_geqs::{default_consts, gen_dom, gen_lin, leak_check, linear_solve, pick_some, Lin, H};
use crate::text::gen_names;
use crate::{bail, check, seam};
use nexsys::ffi as n;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, CStr, CString};
use std::sync::atomic::Ordering::Relaxed;

pub struct C09;

#[derive(Clone, Serialize, Deserialize)]
pub enum Op {
    NewCtx { default: bool },
    AddConst { ctx: usize, name: String, val: F },
    NewDecl,
    Declare { d: usize, var: String, guess: F, min: F, max: F },
    Solve { ctx: usize, d: usize, lines: Vec<Lin>, margin: F, limit: u32 },
    /// the whole language, independent of the session
    Pre { lines: Vec<Lin>, decl: Vec<(u8, String, F, F)>, odd: u8, margin: F, limit: u32 },
    FreeCtx { ctx: usize },
    FreeDecl { d: usize },
    FreeStr { k: usize },
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub ops: Vec<Op>,
    pub hash: u64,
}
#[derive(Clone, Default)]
struct MC {
    known: BTreeMap<String, f64>,
    /// names that a failed solve of several equations may or may not have left known
    maybe: BTreeSet<String>,
}
type Dom = BTreeMap<String, (f64, f64, f64)>;
struct World {
    ctx: H<MC>,
    decl: H<Dom>,
    strings: Vec<Option<(*mut c_char, Vec<u8>)>>,
}

const ODD: [&str; 9] = [
    "",
    "if a > b:\n  a = 1",
    "guess two for q",
    "keep q on [0 1]",
    "q = 3 [furlong->parsec]",
    "const = 4",
    "else:",
    "q = sin(",
    "q = [ft->m",
];
fn has_eq(l: &Lin) -> bool {
    l.text().contains(&b'=')
}
fn join(lines: &[Lin], extra: &[String]) -> Vec<u8> {
    let mut v: Vec<u8> = extra.join("\n").into_bytes();
    for l in lines {
        if !v.is_empty() {
            v.push(b'\n');
        }
        v.extend(l.text());
    }
    v
}
/// the name: value pairs of a report
pub fn parse_report(t: &[u8]) -> Option<BTreeMap<String, f64>> {
    let t = std::str::from_utf8(t).ok()?;
    let (_, s) = t.rsplit_once("\nsoln: \"")?;
    let s = s.strip_suffix("\" }")?;
    let mut m = BTreeMap::new();
    for p in s.split(", ").filter(|p| !p.is_empty()) {
        let (k, v) = p.split_once(": ")?;
        if m.insert(k.to_string(), v.parse().ok()?).is_some() {
            return None;
        }
    }
    if !t.starts_with("{ log: \"") {
        return None;
    }
    Some(m)
}
fn rank(rows: &[Vec<f64>]) -> usize {
    let mut a = rows.to_vec();
    let (m, n) = (a.len(), a.first().map_or(0, |r| r.len()));
    let mut r = 0;
    for j in 0..n {
        let Some(p) = (r..m).max_by(|x, y| a[*x][j].abs().total_cmp(&a[*y][j].abs())) else { break };
        if a[p][j].abs() < 1e-9 {
            continue;
        }
        a.swap(r, p);
        for i in 0..m {
            if i != r {
                let f = a[i][j] / a[r][j];
                for k in 0..n {
                    a[i][k] -= f * a[r][k];
                }
            }
        }
        r += 1;
        if r == m {
            break;
        }
    }
    r
}
/// can the equations be used up one single-unknown equation or one group over the same unknowns at a time?
fn stepwise(eqs: &[&Lin], known: &BTreeMap<String, f64>) -> bool {
    let mut left: Vec<BTreeSet<String>> = eqs.iter().map(|e| e.unknowns(known)).collect();
    loop {
        left.retain(|s| !s.is_empty());
        if left.is_empty() {
            return true;
        }
        let Some(s) = left.iter().find(|s| left.iter().filter(|t| t == s).count() == s.len()).cloned() else { return false };
        for t in left.iter_mut() {
            *t = t.difference(&s).cloned().collect();
        }
    }
}

impl C09 {
    fn once(&self, p: &Plan, r: &mut Run, record: bool) -> Res {
        let mut w = World { ctx: vec![], decl: vec![], strings: vec![] };
        let mut hist = vec![];
        let out = self.drive(p, r, record, &mut w, &mut hist);
        if out.is_ok() {
            unsafe {
                for (h, _) in w.ctx.into_iter().flatten() {
                    n::free_context_hash_map(h);
                }
                for (h, _) in w.decl.into_iter().flatten() {
                    n::free_declared_hash_map(h);
                }
                for (s, want) in w.strings.into_iter().flatten() {
                    let now = CStr::from_ptr(s).to_bytes().to_vec();
                    check!(now == want, "string-changed", "{}\na returned string changed before it was freed", hist.join("\n"));
                    n::free_solution_string(s);
                }
            }
        }
        out
    }
    fn drive(&self, p: &Plan, r: &mut Run, record: bool, w: &mut World, hist: &mut Vec<String>) -> Res {
        let mut failures = 0;
        for op in &p.ops {
            let mf = seam::MEM_FAULT.load(Relaxed);
            if mf != 0 {
                bail!("memory", "{}\nthe allocator ledger saw {}", hist.join("\n"), ["", "a double free", "a free of a block it never gave out", "a free with another layout", "a write to a freed block"][mf as usize]);
            }
            macro_rules! call {
                ($e:expr) => {
                    match guard(#[allow(unused_unsafe)] || unsafe { $e }) {
                        Ok(x) => x,
                        Err(e) => bail!("panic", "{}\npanicked: {e}", hist.join("\n")),
                    }
                };
            }
            match op {
                Op::NewCtx { default } => {
                    hist.push(format!("ctx{} = new_{}context_hash_map()", w.ctx.len(), if *default { "default_" } else { "" }));
                    let h = call!(if *default { n::new_default_context_hash_map() } else { n::new_context_hash_map() });
                    check!(!h.is_null(), "null", "{}\ngave null", hist.join("\n"));
                    w.ctx.push(Some((h, MC { known: if *default { default_consts() } else { BTreeMap::new() }, maybe: BTreeSet::new() })));
                }
                Op::AddConst { ctx, name, val } => {
                    let Some((k, (h, m))) = pick_some(&mut w.ctx, *ctx) else { continue };
                    let t = CString::new(name.clone()).unwrap();
                    hist.push(format!("add_const_to_ctx(ctx{k}, {name:?}, {})", val.0));
                    let h = *h;
                    call!(n::add_const_to_ctx(h, t.as_ptr(), val.0));
                    m.known.insert(name.clone(), val.0);
                    m.maybe.remove(name);
                }
                Op::NewDecl => {
                    hist.push(format!("decl{} = new_declared_hash_map()", w.decl.len()));
                    let h = call!(n::new_declared_hash_map());
                    check!(!h.is_null(), "null", "{}\ngave null", hist.join("\n"));
                    w.decl.push(Some((h, Dom::new())));
                }
                Op::Declare { d, var, guess, min, max } => {
                    let Some((k, (h, m))) = pick_some(&mut w.decl, *d) else { continue };
                    let t = CString::new(var.clone()).unwrap();
                    hist.push(format!("add_declared_variable(decl{k}, {var:?}, {}, {}, {})", guess.0, min.0, max.0));
                    let h = *h;
                    let rc = call!(n::add_declared_variable(h, t.as_ptr(), guess.0, min.0, max.0));
                    check!(rc == 1, "return-code", "{}\nreturned {rc}", hist.join("\n"));
                    m.insert(var.clone(), (guess.0, min.0, max.0));
                }
                Op::Solve { ctx, d, lines, margin, limit } => {
                    let Some((kc, (hc, mc))) = pick_some(&mut w.ctx, *ctx) else { continue };
                    let Some((kd, (hd, md))) = pick_some(&mut w.decl, *d) else { continue };
                    let bytes = join(lines, &[]);
                    let t = CString::new(bytes.clone()).unwrap();
                    hist.push(format!("basic_solve({:?}, ctx{kc}, decl{kd}, {}, {limit})", String::from_utf8_lossy(&bytes), margin.0));
                    let (hc, hd) = (*hc, *hd);
                    let s = call!(n::basic_solve(t.as_ptr(), hc, hd, margin.0, *limit));
                    let mc = std::mem::take(mc);
                    let md = md.clone();
                    let got = keep(w, s);
                    let out = self.judge(&mc, &md, lines, margin.0, *limit, &got, hist, r, record)?;
                    if got.is_none() {
                        failures += 1;
                        if record {
                            r.fault("session_solve_failed");
                        }
                    }
                    if record {
                        r.ev(match &out.1 {
                            None => "null".into(),
                            Some(m) => m.iter().map(|(k, v)| format!("{k}={}", fx(*v))).collect::<Vec<_>>().join(" "),
                        });
                    }
                    w.ctx[kc].as_mut().unwrap().1 = out.0;
                }
                Op::Pre { lines, decl, odd, margin, limit } => {
                    let mut known = default_consts();
                    let mut dom = Dom::new();
                    let mut extra = vec![];
                    for (kind, v, a, b) in decl {
                        match kind {
                            0 => {
                                extra.push(format!("const {v} = {}", a.0));
                                known.insert(v.clone(), a.0);
                            }
                            1 => {
                                extra.push(format!("guess {} for {v}", a.0));
                                let e = dom.entry(v.clone()).or_insert((1.0, f64::NEG_INFINITY, f64::INFINITY));
                                e.0 = a.0;
                            }
                            _ => {
                                extra.push(format!("keep {v} on [{}, {}]", a.0, b.0));
                                let e = dom.entry(v.clone()).or_insert((1.0, 0.0, 0.0));
                                (e.1, e.2) = (a.0, b.0);
                            }
                        }
                    }
                    let odd = ODD[*odd as usize % ODD.len()];
                    if !odd.is_empty() {
                        extra.insert(0, odd.to_string());
                    }
                    let bytes = join(lines, &extra);
                    let t = CString::new(bytes.clone()).unwrap();
                    hist.push(format!("solve_with_preprocessors({:?}, {}, {limit})", String::from_utf8_lossy(&bytes), margin.0));
                    let s = call!(n::solve_with_preprocessors(t.as_ptr(), margin.0, *limit));
                    let got = keep(w, s);
                    if got.is_none() {
                        failures += 1;
                        if record {
                            r.fault("text_solve_failed");
                        }
                    }
                    if !odd.is_empty() {
                        // only containment is required of these
                        if let Some(t) = &got {
                            check!(parse_report(t).is_some(), "string", "{}\nreturned {:?}", hist.join("\n"), String::from_utf8_lossy(t));
                        }
                        if record {
                            r.fault("odd_text");
                        }
                        continue;
                    }
                    let mc = MC { known, maybe: BTreeSet::new() };
                    let out = self.judge(&mc, &dom, lines, margin.0, *limit, &got, hist, r, record)?;
                    if record {
                        r.ev(match &out.1 {
                            None => "null".into(),
                            Some(m) => m.iter().map(|(k, v)| format!("{k}={}", fx(*v))).collect::<Vec<_>>().join(" "),
                        });
                    }
                }
                Op::FreeCtx { ctx } => {
                    let Some((k, _)) = pick_some(&mut w.ctx, *ctx) else { continue };
                    let (h, _) = w.ctx[k].take().unwrap();
                    hist.push(format!("free_context_hash_map(ctx{k})"));
                    call!(n::free_context_hash_map(h));
                }
                Op::FreeDecl { d } => {
                    let Some((k, _)) = pick_some(&mut w.decl, *d) else { continue };
                    let (h, _) = w.decl[k].take().unwrap();
                    hist.push(format!("free_declared_hash_map(decl{k})"));
                    call!(n::free_declared_hash_map(h));
                }
                Op::FreeStr { k } => {
                    let live: Vec<usize> = (0..w.strings.len()).filter(|i| w.strings[*i].is_some()).collect();
                    if live.is_empty() {
                        continue;
                    }
                    let (s, want) = w.strings[live[*k % live.len()]].take().unwrap();
                    let now = unsafe { CStr::from_ptr(s).to_bytes().to_vec() };
                    hist.push("free_solution_string".into());
                    check!(now == want, "string-changed", "{}\na returned string changed", hist.join("\n"));
                    call!(n::free_solution_string(s));
                }
            }
        }
        if record {
            r.nontrivial = failures > 0 && hist.len() >= 4;
        }
        Ok(())
    }
    /// what one solve may return given what was known before; gives what is known afterwards
    #[allow(clippy::too_many_arguments)]
    fn judge(&self, mc: &MC, md: &Dom, lines: &[Lin], margin: f64, limit: u32, got: &Option<Vec<u8>>, hist: &[String], r: &mut Run, record: bool) -> Result<(MC, Option<BTreeMap<String, f64>>), Violation> {
        let h = || hist[hist.len().saturating_sub(25)..].join("\n");
        let eqs: Vec<&Lin> = lines.iter().filter(|l| has_eq(l)).collect();
        let vars: BTreeSet<String> = eqs.iter().flat_map(|e| e.unknowns(&mc.known)).collect();
        let malformed = eqs.iter().any(|e| e.bad != 0);
        let fuzzy = vars.iter().any(|v| mc.maybe.contains(v));
        let open: Vec<&Lin> = eqs.iter().copied().filter(|e| !e.unknowns(&mc.known).is_empty()).collect();
        // coefficients over the unknowns
        let rows: Vec<Vec<f64>> = open
            .iter()
            .map(|e| vars.iter().map(|v| e.terms.iter().find(|t| &t.1 == v).map_or(0.0, |t| if e.sq.0 != 0.0 { 1.0 } else { t.0 .0 })).collect())
            .collect();
        let full_rank = rank(&rows) == rows.len();
        let Some(text) = got else {
            let square = full_rank && !malformed && !fuzzy && open.len() == eqs.len();
            if square && margin >= 1e-8 && limit >= 60 {
                let bounded = vars.iter().any(|v| md.get(v).map_or(false, |d| d.1.is_finite() || d.2.is_finite()));
                let curved = eqs.iter().any(|e| e.sq.0 != 0.0);
                let guess = |v: &str| md.get(v).map_or(1.0, |d| d.0);
                let mut must = !bounded && !curved;
                if !must && open.len() == vars.len() && (!curved || (eqs.len() == 1 && !bounded)) {
                    let owned: Vec<Lin> = eqs.iter().map(|e| (*e).clone()).collect();
                    if let Some((x, c)) = linear_solve(&owned, &vars, &mc.known, &guess) {
                        must = c < 1e3
                            && vars.iter().zip(&x).all(|(v, x)| x.abs() < 1e4 && md.get(v).map_or(true, |d| *x > d.1 + 0.1 && *x < d.2 - 0.1 && d.0 > d.1 + 0.1 && d.0 < d.2 - 0.1));
                        // group members and single equations alike must stay in their domains on the way
                        must = must && (!bounded || eqs.len() == 1);
                    }
                }
                must = must && vars.iter().all(|v| guess(v).abs() < 1e4);
                check!(!must, "false-failure", "{}\nreturned null for a solvable text; known {:?}", h(), mc.known);
            }
            let mut mc = mc.clone();
            // a single equation leaves no trace when it fails; of several, some may have been solved
            if eqs.len() > 1 {
                mc.maybe.extend(vars);
            }
            return Ok((mc, None));
        };
        let Some(m) = parse_report(text) else {
            bail!("string", "{}\nreturned {:?}", h(), String::from_utf8_lossy(text))
        };
        check!(!(malformed && eqs.len() == 1), "false-success", "{}\nreturned {:?} for a malformed equation", h(), String::from_utf8_lossy(text));
        for (k, v) in &mc.known {
            match m.get(k) {
                None => bail!("lost-value", "{}\nreturned {:?} without {k}, known to be {v}", h(), String::from_utf8_lossy(text)),
                Some(x) => check!(x == v || (x.is_nan() && v.is_nan()), "lost-value", "{}\nreturned {:?}, but {k} was {v} before", h(), String::from_utf8_lossy(text)),
            }
        }
        for k in m.keys() {
            check!(mc.known.contains_key(k) || vars.contains(k) || mc.maybe.contains(k), "stray-value", "{}\nreturned {:?}; nothing mentioned {k}", h(), String::from_utf8_lossy(text));
        }
        if !malformed && !fuzzy {
            let new: Vec<&String> = m.keys().filter(|k| vars.contains(*k)).collect();
            check!(margin >= 0.0 && limit > 0 || new.is_empty(), "false-success", "{}\nreturned {:?}", h(), String::from_utf8_lossy(text));
            for v in &new {
                if let Some(d) = md.get(*v) {
                    check!(d.1 > d.2 || (m[*v] >= d.1 && m[*v] <= d.2), "domain", "{}\nreported {v} = {}", h(), m[*v]);
                }
            }
            if full_rank {
                for e in &open {
                    if e.terms.iter().all(|t| m.contains_key(&t.1)) {
                        let mut s = -e.rhs.0;
                        let mut mag = e.rhs.0.abs();
                        for (c, v) in &e.terms {
                            let q = if e.sq.0 != 0.0 { e.sq.0 * m[v] * m[v] } else { c.0 * m[v] };
                            s += q;
                            mag += q.abs();
                        }
                        if record {
                            r.probe("equation_checked");
                        }
                        check!(s.abs() <= margin * 1.000001 + 1e-12 * mag, "residual", "{}\nreturned {:?}; {:?} is off by {s}", h(), String::from_utf8_lossy(text), String::from_utf8_lossy(&e.text()));
                    }
                }
                if open.len() == eqs.len() && open.len() == vars.len() {
                    if stepwise(&open, &mc.known) {
                        check!(new.len() == vars.len(), "incomplete", "{}\nreturned {:?}; unknowns are {vars:?}", h(), String::from_utf8_lossy(text));
                    }
                    let owned: Vec<Lin> = eqs.iter().map(|e| (*e).clone()).collect();
                    let guess = |v: &str| md.get(v).map_or(1.0, |d| d.0);
                    let bounded = vars.iter().any(|v| md.get(v).map_or(false, |d| d.1.is_finite() || d.2.is_finite()));
                    let curved = eqs.iter().any(|e| e.sq.0 != 0.0);
                    if let Some((x, c)) = if curved && (bounded || eqs.len() > 1) { None } else { linear_solve(&owned, &vars, &mc.known, &guess) } {
                        if c < 1e3 {
                            for (v, x) in vars.iter().zip(&x) {
                                if let Some(y) = m.get(v) {
                                    if record {
                                        r.probe("value_checked");
                                    }
                                    // errors of one step are amplified by the next ones
                                    check!((x - y).abs() <= margin * 20.0 * c + 1e-6 * (1.0 + x.abs()), "value", "{}\nreported {v} = {y}, the equations determine {x}", h());
                                }
                            }
                        }
                    }
                }
            }
        }
        // everything listed is known from here on; what is not listed is unknown
        Ok((MC { known: m.clone(), maybe: BTreeSet::new() }, Some(m)))
    }
}
fn keep(w: &mut World, s: *mut c_char) -> Option<Vec<u8>> {
    if s.is_null() {
        return None;
    }
    let t = unsafe { CStr::from_ptr(s).to_bytes().to_vec() };
    w.strings.push(Some((s, t.clone())));
    Some(t)
}

/// a few equations that can be solved one after another or as small groups, over names not in `used`
fn gen_text(r: &mut Rng, names: &[String], consts: &[String], known: &mut BTreeSet<String>) -> Vec<Lin> {
    let mut out = vec![];
    for _ in 0..1 + r.below(3) {
        let free: Vec<String> = names.iter().filter(|v| !known.contains(*v)).cloned().collect();
        if free.is_empty() {
            break;
        }
        let k = if free.len() >= 2 && r.chance(0.35) { 2 } else { 1 };
        let mut group = free;
        r.shuffle(&mut group);
        group.truncate(k);
        let mut base: Vec<String> = known.iter().cloned().chain(consts.iter().cloned()).collect();
        r.shuffle(&mut base);
        for _ in 0..k {
            let extra = if r.chance(0.5) { r.below(2.min(base.len()) + 1) } else { 0 };
            let mut l = gen_lin(r, &group, k);
            l.bad = 0;
            let x = gen_lin(r, &base, extra);
            if l.sq.0 == 0.0 {
                l.terms.extend(x.terms.into_iter().filter(|t| t.0 .0 != 0.0));
            }
            out.push(l);
        }
        known.extend(group);
    }
    r.shuffle(&mut out);
    out
}

impl Scenario for C09 {
    type Plan = Plan;
    fn meta(&self) -> Meta {
        Meta {
            id: "C09",
            rule: "one run = a session of 6-40 calls through the text solver's C interface over shared contexts and declarations, with malformed, unsolvable and non-converging texts mixed in, executed 3 times on an allocator that records liveness, poisons and quarantines freed blocks; counted when at least one solve failed; distinct by trace hash",
            real: "nexsys::ffi and everything below it (nexsys, geqslib, gmatlib), built from /repo with edge instrumentation",
            stub: "the process allocator is the simulator's ledger; hash seeds come from the run seed; the session model and reference solution are the simulator's",
            assumptions: &["callers keep the documented contract (no null, freed or foreign handles)", "what a failing text of several equations leaves known is not fixed by the contract and is learned from the next successful report", "allocation failure is not injected: Rust aborts the process on it by design"],
            quick_runs: 60000,
            thorough_runs: 600_000,
            chunk: 400,
            step_limit: 2_000_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _: u64, thorough: bool) -> Plan {
        let mut names = gen_names(r, 9);
        if r.chance(0.15) {
            names[0] = r.pick(&["e", "pi"]).to_string(); // predefined names may be given another value
        }
        let (cn, vn) = names.split_at(2);
        let mut ops = vec![Op::NewCtx { default: r.chance(0.6) }, Op::NewDecl];
        let mut known: BTreeSet<String> = BTreeSet::new();
        let mut last: Vec<Lin> = vec![];
        if r.chance(0.7) {
            for c in cn {
                ops.push(Op::AddConst { ctx: 0, name: c.clone(), val: F(r.dec(-9, 9)) });
            }
        }
        for _ in 0..5 + r.below(if thorough { 45 } else { 22 }) {
            let i = if r.chance(0.7) { 0 } else { r.below(6) };
            let margin = F(if r.chance(0.04) { -1.0 } else { *r.pick(&[1e-3, 1e-4, 1e-6]) });
            let limit = if r.chance(0.1) { r.below(3) as u32 } else { *r.pick(&[100, 100, 100, 256]) };
            ops.push(match r.below(20) {
                0 => Op::NewCtx { default: r.chance(0.6) },
                1 => Op::AddConst { ctx: i, name: if r.chance(0.7) { r.pick(cn).clone() } else { r.pick(vn).clone() }, val: F(r.dec(-9, 9)) },
                2 if r.chance(0.3) => Op::NewDecl,
                2..=3 => {
                    let (g, lo, hi) = gen_dom(r);
                    Op::Declare { d: i, var: r.pick(vn).clone(), guess: g, min: lo, max: hi }
                }
                4..=9 => {
                    let lines = gen_text(r, vn, cn, &mut known);
                    last = lines.clone();
                    let fail = margin.0 < 0.0 || limit < 50;
                    if fail {
                        for v in lines.iter().flat_map(|l| l.names()) {
                            known.remove(&v);
                        }
                    }
                    Op::Solve { ctx: i, d: i, lines, margin, limit }
                }
                10..=11 => {
                    // one equation, good or bad
                    let free: Vec<String> = vn.iter().filter(|v| !known.contains(*v)).cloned().collect();
                    let pool = if free.is_empty() { vn.to_vec() } else { free };
                    let k = 1 + r.below(2.min(pool.len()));
                    let mut l = gen_lin(r, &pool, k);
                    if r.chance(0.4) {
                        l.bad = r.range(1, 9) as u8;
                    }
                    last = vec![l.clone()];
                    Op::Solve { ctx: i, d: i, lines: vec![l], margin, limit: if r.chance(0.3) { r.below(3) as u32 } else { limit } }
                }
                12 => {
                    // anything goes
                    let lines: Vec<Lin> = (0..1 + r.below(4))
                        .map(|_| {
                            let k = 1 + r.below(3);
                            gen_lin(r, vn, k)
                        })
                        .collect();
                    Op::Solve { ctx: i, d: i, lines, margin, limit }
                }
                // the same request once more
                13 => Op::Solve { ctx: i, d: i, lines: last.clone(), margin: F(1e-4), limit: 100 },
                14..=15 => {
                    let mut none = BTreeSet::new();
                    let lines = gen_text(r, vn, &[], &mut none);
                    let mut decl = vec![];
                    if r.chance(0.4) {
                        decl.push((1, r.pick(vn).clone(), F(r.dec(-9, 9)), F(0.0)));
                    }
                    if r.chance(0.4) {
                        decl.push((0, r.pick(cn).clone(), F(r.dec(-9, 9)), F(0.0)));
                    }
                    if r.chance(0.3) {
                        let v = r.pick(vn).clone();
                        let a = r.range(-60, 0) as f64;
                        decl.push((1, v.clone(), F(a + 25.0), F(0.0)));
                        decl.push((2, v, F(a), F(a + 50.0)));
                    }
                    Op::Pre { lines, decl, odd: if r.chance(0.25) { r.below(ODD.len()) as u8 } else { 0 }, margin, limit }
                }
                16 => {
                    if r.chance(0.25) {
                        Op::FreeCtx { ctx: i }
                    } else {
                        Op::FreeStr { k: i }
                    }
                }
                17 => {
                    if r.chance(0.2) {
                        Op::FreeDecl { d: i }
                    } else {
                        Op::FreeStr { k: i }
                    }
                }
                _ => Op::FreeStr { k: r.below(9) },
            });
        }
        Plan { ops, hash: r.u64() >> 16 }
    }
    fn run(&self, p: &Plan, r: &mut Run) -> Res {
        let funcs = |v: &str| crate::expr::UNARY_FUNCS.iter().any(|f| f.0 == v) || !v.starts_with(|c: char| c.is_ascii_alphabetic());
        for op in &p.ops {
            match op {
                Op::Solve { lines, limit, .. } | Op::Pre { lines, limit, .. } => {
                    if lines.iter().any(|l| !l.ok() || CString::new(l.text()).is_err() || l.terms.iter().any(|t| funcs(&t.1))) || *limit > 300 {
                        return Ok(());
                    }
                    // one text does not name the same equation twice
                    let mut seen = BTreeSet::new();
                    if lines.iter().any(|l| !seen.insert(l.text())) {
                        return Ok(());
                    }
                    if let Op::Pre { decl, .. } = op {
                        let mut seen = BTreeSet::new();
                        if decl.iter().any(|d| funcs(&d.1) || d.0 == 0 && !seen.insert(d.1.clone()) || !d.2 .0.is_finite() || d.2 .0.abs() > 1e6 || (d.0 == 2 && (d.2 .0 > 1.0 && !decl.iter().any(|e| e.0 == 1 && e.1 == d.1) || d.3 .0 <= d.2 .0))) {
                            return Ok(());
                        }
                        if lines.iter().any(|l| l.terms.iter().any(|t| decl.iter().any(|d| d.0 == 0 && d.1 == t.1))) {
                            return Ok(());
                        }
                    }
                }
                Op::AddConst { name, val, .. } => {
                    if !val.0.is_finite() || funcs(name) {
                        return Ok(());
                    }
                }
                Op::Declare { var, .. } => {
                    if funcs(var) {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
        seam::set_hash_seed(p.hash);
        seam::QUARANTINE.store(true, Relaxed);
        let mut first = true;
        let grown = leak_check(|| {
            let rec = std::mem::replace(&mut first, false);
            self.once(p, r, rec)
        })?;
        seam::QUARANTINE.store(false, Relaxed);
        seam::quarantine_flush();
        check!(seam::MEM_FAULT.load(Relaxed) == 0, "memory", "a freed block was written to");
        if let Some((blocks, bytes)) = grown {
            bail!("leak", "every repetition of the session leaves {blocks} more blocks ({bytes} bytes) although every handle was freed");
        }
        Ok(())
    }
}
