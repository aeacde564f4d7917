//! C01 (soundness) and C02 (completeness, repeatability) of the text solver.
use crate::core::*;
use crate::expr::*;
use crate::text::*;
use crate::{bail, check, seam};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct C01;
pub struct C02;

#[derive(Clone, Serialize, Deserialize)]
pub struct P1 {
    pub lines: Vec<Line>,
    pub margin: F,
    pub limit: u64,
    /// (line permutation seed, hash seed)
    pub variants: Vec<(u64, u64)>,
}

/// the pairing of equations and unknowns: every equation gets an unknown of its own
fn hall(lines: &[Line], consts: &BTreeMap<String, f64>) -> bool {
    let eqs: Vec<Vec<String>> = lines
        .iter()
        .filter_map(line_vars)
        .map(|s| s.into_iter().filter(|v| !consts.contains_key(v)).collect())
        .collect();
    let mut owner: BTreeMap<String, usize> = BTreeMap::new();
    fn go(i: usize, eqs: &[Vec<String>], owner: &mut BTreeMap<String, usize>, seen: &mut BTreeSet<String>) -> bool {
        for v in &eqs[i] {
            if seen.insert(v.clone()) {
                let o = owner.get(v).cloned();
                if o.is_none() || go(o.unwrap(), eqs, owner, seen) {
                    owner.insert(v.clone(), i);
                    return true;
                }
            }
        }
        false
    }
    (0..eqs.len()).all(|i| go(i, &eqs, &mut owner, &mut BTreeSet::new()))
}
fn permuted(lines: &[Line], seed: u64) -> Vec<Line> {
    let mut l = lines.to_vec();
    if seed != 0 {
        Rng::new(seed).shuffle(&mut l);
    }
    l
}
fn gen_variants(r: &mut Rng, k: usize) -> Vec<(u64, u64)> {
    (0..k).map(|i| (if i == 0 { 0 } else { r.u64() >> 16 }, r.u64() >> 16)).collect()
}
/// a program may declare a constant under the name of a predefined one
fn redefine_builtin(r: &mut Rng, names: &mut [String], vars: usize) {
    if names.len() > vars && r.chance(0.08) {
        names[vars] = r.pick(&["e", "pi"]).to_string();
    }
}
fn lit_e(x: f64) -> E {
    n(x)
}
/// l = r with both sides equal at the hidden values
fn balanced(r: &mut Rng, l: E, hid: &dyn Fn(&str) -> Option<f64>, other: Option<E>) -> Option<(E, E)> {
    let env = Env { get: hid, funcs: &[] };
    let x = eval(&l, &env).ok()?;
    if !x.is_finite() || x.abs() > 1e6 {
        return None;
    }
    if let Some(o) = other {
        let y = eval(&o, &env).ok()?;
        if !y.is_finite() || y.abs() > 1e6 {
            return None;
        }
        let c = x - y;
        let rhs = if c >= 0.0 { b('+', o, lit_e(c)) } else { b('-', o, lit_e(-c)) };
        return Some((l, rhs));
    }
    if r.chance(0.1) && x != 0.0 {
        // everything on one side
        return Some((if x > 0.0 && r.chance(0.7) { b('-', lit_e(x), l) } else { b('-', l, lit_e(x)) }, lit_e(0.0)));
    }
    if r.chance(0.15) {
        Some((lit_e(x), l))
    } else {
        Some((l, lit_e(x)))
    }
}
fn decorate(r: &mut Rng, lines: &mut Vec<Line>) {
    for _ in 0..r.below(4) {
        let at = r.below(lines.len() + 1);
        let l = if r.chance(0.25) { Line::Blank } else { Line::Comment(gen_comment(r)) };
        lines.insert(at, l);
    }
    for l in lines.iter_mut() {
        if let Line::Eq { cm, .. } = l {
            if r.chance(0.2) {
                *cm = Some(gen_comment(r));
            }
        }
    }
}
fn linear_term(r: &mut Rng, var: &str, consts: &BTreeMap<String, f64>) -> E {
    let (c, _) = gen_coef(r, consts);
    match r.below(6) {
        0 => v(var),
        1 => b('*', v(var), c),
        2 => b('/', v(var), c),
        _ => b('*', c, v(var)),
    }
}
fn sum(r: &mut Rng, terms: Vec<E>) -> E {
    let mut it = terms.into_iter();
    let mut e = it.next().unwrap();
    for t in it {
        e = if r.chance(0.6) { b('+', e, t) } else { b('-', e, t) };
    }
    e
}

impl Scenario for C01 {
    type Plan = P1;
    fn meta(&self) -> Meta {
        Meta {
            id: "C01",
            rule: "one run = one generated consistent program (1-8 equations over a hidden exact solution; declarations, comments, unit conversions, conditionals) solved under 3 (thorough 5) (line order, hash seed) pairs; counted when it has at least 2 equations and at least one variant was reported solved; distinct by trace hash",
            real: "nexsys::solve_with_preprocessors with geqslib and gmatlib below it, built from /repo with edge instrumentation",
            stub: "process randomness (hash seeds) and line order come from the run seed; reference residuals are evaluated by the simulator's own expression evaluator",
            assumptions: &["x86_64 Linux; hash iteration order enters only through std RandomState (getrandom), which the simulator owns", "equation texts use plain decimals and blanks as separators"],
            quick_runs: 50000,
            thorough_runs: 400000,
            chunk: 200,
            step_limit: 2_000_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> P1 {
        let nv = match r.below(5) {
            0 => 1,
            1 => 2,
            _ => 2 + r.below(7),
        };
        let nc = r.below(4);
        let mut names = gen_names(r, nv + nc);
        redefine_builtin(r, &mut names, nv);
        let (vs, cs) = names.split_at(nv.min(names.len()));
        let mut lines = vec![];
        for c in cs {
            lines.push(Line::Const { name: c.clone(), val: gen_const_val(r), style: gen_any_style(r) });
        }
        let consts = const_values(&lines);
        let mut hidden: BTreeMap<String, f64> = vs.iter().map(|x| (x.clone(), r.dec(-9, 9))).collect();
        for x in hidden.values_mut() {
            if r.chance(0.1) {
                *x *= 50.0;
            }
        }
        let hid = |s: &str| hidden.get(s).or_else(|| consts.get(s)).cloned();
        let shape = r.below(4);
        let hard = r.chance(0.35);
        for i in 0..vs.len() {
            let pool: Vec<String> = match shape {
                0 => vs[..i].to_vec(),
                1 => {
                    if vs.len() > 1 {
                        vec![vs[(i + 1) % vs.len()].clone()]
                    } else {
                        vec![]
                    }
                }
                2 => vs.iter().filter(|x| **x != vs[i]).cloned().collect(),
                _ => vs[..i].iter().filter(|_| true).cloned().collect(),
            };
            let mut deps: Vec<String> = vec![];
            for d in &pool {
                if shape == 1 || r.chance(0.4) {
                    deps.push(d.clone());
                }
            }
            let all: Vec<String> = deps.iter().cloned().chain(std::iter::once(vs[i].clone())).chain(consts.keys().cloned()).collect();
            for _try in 0..30 {
                let kind = if hard { r.below(6) } else { r.below(4) };
                let mk_affine = |r: &mut Rng| {
                    let mut t = vec![linear_term(r, &vs[i], &consts)];
                    for d in &deps {
                        t.push(linear_term(r, d, &consts));
                    }
                    r.shuffle(&mut t);
                    sum(r, t)
                };
                let l = match kind {
                    0 | 1 => mk_affine(r),
                    2 => {
                        // pivot inside a smooth or polynomial term
                        let f = *r.pick(&["sin", "cos", "arctan", "tanh", "abs", "sinh", "ln", "log10"]);
                        let t = match r.below(4) {
                            0 => b('^', v(&vs[i]), n(r.range(2, 3) as f64)),
                            1 => b('*', v(&vs[i]), v(&vs[i])),
                            2 => b('+', E::C(f.into(), vec![v(&vs[i])]), b('*', n(2.0), v(&vs[i]))),
                            _ => E::C(f.into(), vec![mk_affine(r)]),
                        };
                        if deps.is_empty() {
                            t
                        } else {
                            b('+', t, mk_affine(r))
                        }
                    }
                    3 => {
                        let m = mk_affine(r);
                        let d = gen_num(r) + 1.0;
                        b('/', m, n(d))
                    }
                    _ => {
                        let o = GenOpts { vars: &all, funcs: UNARY_FUNCS, allow_if: true, allow_div: true, allow_pow: true, text_consts: true };
                        gen_expr(r, 2 + (kind - 4), &o)
                    }
                };
                let mut s = BTreeSet::new();
                vars(&l, &mut s);
                if !s.contains(&vs[i]) {
                    continue;
                }
                let other = if r.chance(0.3) {
                    let o = GenOpts { vars: &all, funcs: SMOOTH_FUNCS, allow_if: false, allow_div: false, allow_pow: false, text_consts: true };
                    Some(gen_expr(r, 1, &o))
                } else {
                    None
                };
                let cond = r.chance(0.12);
                if cond {
                    let l2 = mk_affine(r);
                    let e1 = balanced(r, l.clone(), &hid, None);
                    let e2 = balanced(r, l2, &hid, None);
                    if let (Some(a), Some(c)) = (e1, e2) {
                        let o = GenOpts { vars: &all, funcs: &[], allow_if: false, allow_div: false, allow_pow: false, text_consts: false };
                        let pick = |r: &mut Rng| gen_leaf(r, &o);
                        lines.push(Line::Cond(Cond {
                            a: pick(r),
                            op: r.range(1, 6) as u8,
                            b: pick(r),
                            t: Body::Eq { l: a.0, r: a.1 },
                            f: Body::Eq { l: c.0, r: c.1 },
                            ind: r.below(6) as u8,
                            deco: r.chance(0.2),
                        }));
                        break;
                    }
                    continue;
                }
                if let Some((l, rr)) = balanced(r, l, &hid, other) {
                    lines.push(Line::Eq { l, r: rr, sp: r.below(3) as u8, cm: None });
                    break;
                }
            }
        }
        // under-determined now and then
        if r.chance(0.2) && lines.len() > 2 {
            let eqs: Vec<usize> = lines.iter().enumerate().filter(|x| matches!(x.1, Line::Eq { .. })).map(|x| x.0).collect();
            if eqs.len() > 1 {
                lines.remove(eqs[r.below(eqs.len())]);
            }
        }
        for x in vs {
            let h = hidden[x];
            if r.chance(0.3) {
                let g = if r.chance(0.6) { h + r.dec(-1, 1) } else { r.dec(-20, 20) };
                lines.push(Line::Guess { name: x.clone(), val: F((g * 100.0).round() / 100.0), style: gen_any_style(r) });
            }
            if r.chance(0.3) {
                let lo = h - if r.chance(0.1) { 0.0 } else { r.dec(0, 20).abs() };
                let hi = h + if r.chance(0.1) { 0.0 } else { r.dec(0, 20).abs() };
                lines.push(Line::Keep {
                    name: x.clone(),
                    lo: F((lo * 100.0).floor() / 100.0),
                    hi: F((hi * 100.0).ceil() / 100.0),
                    style: gen_any_style(r),
                });
            }
        }
        decorate(r, &mut lines);
        P1 {
            lines,
            margin: F(*r.pick(&[1e-2, 1e-3, 1e-4, 1e-4, 1e-6, 1e-9])),
            limit: *r.pick(&[3, 10, 30, 100, 100]),
            variants: gen_variants(r, if thorough { 5 } else { 3 }),
        }
    }
    fn run(&self, p: &P1, r: &mut Run) -> Res {
        let consts = const_values(&p.lines);
        if !hall(&p.lines, &consts) || p.margin.0 <= 0.0 || p.margin.0 > 0.1 {
            return Ok(());
        }
        let mut keeps: BTreeMap<&str, (f64, f64, u32)> = BTreeMap::new();
        for l in &p.lines {
            if let Line::Keep { name, lo, hi, .. } = l {
                if lo.0 > hi.0 {
                    return Ok(());
                }
                let e = keeps.entry(name).or_insert((lo.0, hi.0, 0));
                e.2 += 1;
            }
        }
        let unknowns: BTreeSet<String> = p.lines.iter().filter_map(line_vars).flatten().filter(|v| !consts.contains_key(v)).collect();
        let neq = p.lines.iter().filter(|l| line_vars(l).is_some()).count();
        let mut solved = 0;
        for (perm, hs) in &p.variants {
            let lines = permuted(&p.lines, *perm);
            let t = render(&lines);
            seam::set_hash_seed(*hs);
            if *perm != 0 {
                r.fault("reorder_lines");
            }
            r.fault("hash_seed");
            let res = guard(|| nexsys::solve_with_preprocessors(&t, p.margin.0, p.limit as usize));
            match res {
                Err(e) => {
                    r.ev(format!("panic {e}"));
                    r.probe("panicked");
                }
                Ok(Err(e)) => {
                    r.ev(format!("error {e}"));
                    r.probe("reported_error");
                }
                Ok(Ok((_log, soln))) => {
                    solved += 1;
                    r.probe("reported_success");
                    let sorted: BTreeMap<&String, &f64> = soln.iter().collect();
                    r.ev(format!("ok {:?}", sorted.iter().map(|x| format!("{}={}", x.0, fx(**x.1))).collect::<Vec<_>>()));
                    let get = |s: &str| soln.get(s).cloned();
                    for (c, x) in &consts {
                        match soln.get(c) {
                            Some(y) if (y - x).abs() <= 1e-9 * x.abs().max(1e-9) => {}
                            o => bail!("const-value", "constant {c} declared as {x} is reported as {o:?}\n{t}"),
                        }
                    }
                    for l in &p.lines {
                        let Some(vs) = line_vars(l) else { continue };
                        let known = |x: &String| soln.contains_key(x);
                        if !vs.iter().all(known) {
                            r.probe("equation_unsolved");
                            continue;
                        }
                        r.probe("equation_checked");
                        let mag = magnitude(l, &get);
                        match residual(l, &get) {
                            Ok(y) if y.abs() <= p.margin.0 * (1.0 + 1e-9) + 1e-11 * mag.max(1.0) => {}
                            o => bail!(
                                "equation-violated",
                                "margin {}: {:?} leaves a residual of {:?} at {:?}\n{t}",
                                p.margin.0,
                                render_line(l),
                                o,
                                vs.iter().map(|x| format!("{x}={:?}", soln[x])).collect::<Vec<_>>()
                            ),
                        }
                    }
                    for u in &unknowns {
                        if let (Some(x), Some((lo, hi, 1))) = (soln.get(u), keeps.get(u.as_str())) {
                            r.probe("domain_checked");
                            let eps = 1e-12 * x.abs();
                            check!(*x >= lo - eps && *x <= hi + eps, "domain", "{u} = {x} is outside its declared domain [{lo}, {hi}]\n{t}");
                        }
                    }
                }
            }
        }
        r.nontrivial = neq >= 2 && solved > 0;
        Ok(())
    }
}

// =================================================================================================
#[derive(Clone, Serialize, Deserialize)]
pub struct Block {
    pub kind: u8, // 0 linear, 1 square, 2 power of two
    pub vars: Vec<String>,
    pub lines: Vec<Line>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct P2 {
    pub head: Vec<Line>,
    pub blocks: Vec<Block>,
    pub decl: Vec<Line>,
    pub margin: F,
    pub limit: u64,
    pub variants: Vec<(u64, u64)>,
}
pub struct Truth {
    pub val: BTreeMap<String, f64>,
    pub tol: BTreeMap<String, f64>,
}

/// dense inverse with complete pivoting search over rows (partial pivoting)
pub fn inverse(a: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let n = a.len();
    let mut m: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let mut row = a[i].clone();
            row.extend((0..n).map(|j| if i == j { 1.0 } else { 0.0 }));
            row
        })
        .collect();
    for c in 0..n {
        let p = (c..n).max_by(|x, y| m[*x][c].abs().total_cmp(&m[*y][c].abs()))?;
        if !(m[p][c].abs() >= 1e-12) {
            return None;
        }
        m.swap(c, p);
        let d = m[c][c];
        for x in m[c].iter_mut() {
            *x /= d;
        }
        for i in 0..n {
            if i != c {
                let f = m[i][c];
                if f != 0.0 {
                    for j in 0..2 * n {
                        let t = m[c][j];
                        m[i][j] -= f * t;
                    }
                }
            }
        }
    }
    Some(m.into_iter().map(|r| r[n..].to_vec()).collect())
}

/// Structure check and reference solution of a C02 program; None if it is not a member of the class.
pub fn reference(p: &P2) -> Option<Truth> {
    let consts = const_values(&p.head);
    let mut val: BTreeMap<String, f64> = consts.clone();
    let mut tol: BTreeMap<String, f64> = consts.keys().map(|k| (k.clone(), 0.0)).collect();
    let mut guess: BTreeMap<&str, f64> = BTreeMap::new();
    let mut keep: BTreeMap<&str, (f64, f64)> = BTreeMap::new();
    for l in &p.decl {
        match l {
            Line::Guess { name, val, .. } => {
                if guess.insert(name, val.0).is_some() || !val.0.is_finite() || val.0.abs() > 100.0 {
                    return None;
                }
            }
            Line::Keep { name, lo, hi, .. } => {
                if keep.insert(name, (lo.0, hi.0)).is_some() || !(lo.0 < hi.0) {
                    return None;
                }
            }
            _ => return None,
        }
    }
    for l in &p.head {
        if line_vars(l).is_some() {
            return None;
        }
    }
    let linear = p.blocks.iter().all(|b| b.kind == 0 && b.lines.iter().all(|l| clean(l, &mut 0)));
    let mut texts = BTreeSet::new();
    let mut nl_budget = 3;
    let mut grown: BTreeSet<String> = BTreeSet::new();
    for bl in &p.blocks {
        let k = bl.vars.len();
        if k == 0 || bl.lines.len() != k || bl.vars.iter().any(|x| val.contains_key(x)) {
            return None;
        }
        if bl.vars.iter().collect::<BTreeSet<_>>().len() != k {
            return None;
        }
        let mut const_only = true;
        for l in &bl.lines {
            let vs = line_vars(l)?;
            for x in &vs {
                if !val.contains_key(x) && !bl.vars.contains(x) {
                    return None;
                }
                if !bl.vars.contains(x) && !consts.contains_key(x) {
                    const_only = false;
                }
            }
            if !texts.insert(render_line(l)) {
                return None;
            }
            if !clean(l, &mut nl_budget) {
                return None;
            }
            if growing(l, &consts).iter().any(|x| grown.contains(x)) {
                return None;
            }
        }
        if bl.lines.iter().any(|l| !growing(l, &consts).is_empty() || line_vars(l).is_some_and(|w| w.iter().any(|x| grown.contains(x)))) {
            grown.extend(bl.vars.iter().cloned());
        }
        let at = |xs: &[f64], i: usize| -> Option<f64> {
            let get = |s: &str| bl.vars.iter().position(|w| w == s).map(|q| xs[q]).or_else(|| val.get(s).cloned());
            residual(&bl.lines[i], &get).ok().filter(|x| x.is_finite())
        };
        let sol: Vec<f64>;
        let jac: Vec<Vec<f64>>;
        match bl.kind {
            0 => {
                let z = vec![0.0; k];
                let mut j = vec![vec![0.0; k]; k];
                let mut f0 = vec![0.0; k];
                for i in 0..k {
                    f0[i] = at(&z, i)?;
                    for c in 0..k {
                        let mut e = z.clone();
                        e[c] = 1.0;
                        j[i][c] = at(&e, i)? - f0[i];
                        if j[i][c].abs() < 1e-6 {
                            // a coefficient this small must be exactly absent
                            let get = |s: &str| bl.vars.iter().position(|w| w == s).map(|_| 0.0).or_else(|| val.get(s).cloned());
                            let _ = get;
                            if line_vars(&bl.lines[i])?.contains(&bl.vars[c]) {
                                return None;
                            }
                            j[i][c] = 0.0;
                        }
                        if j[i][c].abs() > 400.0 {
                            return None;
                        }
                    }
                    // affine?
                    for t in [3.0f64, -7.0] {
                        let xs: Vec<f64> = (0..k).map(|c| t + c as f64 * 0.5).collect();
                        let want: f64 = f0[i] + (0..k).map(|c| j[i][c] * xs[c]).sum::<f64>();
                        if (at(&xs, i)? - want).abs() > 1e-7 * (1.0 + want.abs() + f0[i].abs()) {
                            return None;
                        }
                    }
                }
                let inv = inverse(&j)?;
                sol = (0..k).map(|i| -(0..k).map(|c| inv[i][c] * f0[c]).sum::<f64>()).collect();
                jac = j;
            }
            1 | 2 => {
                if k != 1 || !const_only {
                    return None;
                }
                let g = *guess.get(bl.vars[0].as_str()).unwrap_or(&1.0);
                let Line::Eq { l, r: E::N(c), .. } = &bl.lines[0] else { return None };
                let x = v(&bl.vars[0]);
                let (x0, d) = if bl.kind == 1 {
                    if *l != b('*', x.clone(), x.clone()) && *l != b('^', x, n(2.0)) {
                        return None;
                    }
                    if c.0 < 0.25 || c.0 > 900.0 || g.abs() < 0.3 {
                        return None;
                    }
                    let s = c.0.sqrt() * g.signum();
                    (s, 2.0 * s)
                } else {
                    if *l != b('^', n(2.0), x) || c.0 < 0.25 || c.0 > 32.0 || g < 0.0 {
                        return None;
                    }
                    // far above the root every step of Newton's method comes 1/ln 2 closer
                    if g > 5.0 && p.limit < 30 + ((g - c.0.log2()) * std::f64::consts::LOG2_E) as u64 {
                        return None;
                    }
                    (c.0.log2(), c.0 * 2f64.ln())
                };
                if let Some((lo, hi)) = keep.get(bl.vars[0].as_str()) {
                    let far = if bl.kind == 1 { (g.abs() + c.0 / g.abs()) / 2.0 } else { return None };
                    let far = far.max(g.abs()) * g.signum();
                    if x0 <= lo + 0.05 || x0 >= hi - 0.05 || g <= lo + 0.05 || g >= hi - 0.05 || far <= lo + 0.05 || far >= hi - 0.05 {
                        return None;
                    }
                }
                sol = vec![x0];
                jac = vec![vec![d]];
            }
            _ => return None,
        }
        let inv = inverse(&jac)?;
        let ninv = inv.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max);
        if ninv > 30.0 {
            return None;
        }
        // influence of the accuracy of the values it depends on
        let mut dep_err = 0.0;
        for i in 0..k {
            let vs = line_vars(&bl.lines[i])?;
            let mut s = 0.0;
            for x in vs {
                if bl.vars.contains(&x) || consts.contains_key(&x) {
                    continue;
                }
                let mut worst: f64 = 0.0;
                for h in [1e-4, -1e-4] {
                    let get = |s: &str| bl.vars.iter().position(|w| w == s).map(|q| sol[q]).or_else(|| val.get(s).map(|y| if s == x { y + h } else { *y }));
                    let y = residual(&bl.lines[i], &get).ok()?;
                    worst = worst.max((y / h).abs());
                }
                s += worst * tol[&x];
            }
            dep_err = f64::max(dep_err, s);
        }
        let t = 1.5 * ninv * (p.margin.0 + dep_err) + 2.0 * p.margin.0 + 1e-9;
        for (i, x) in bl.vars.iter().enumerate() {
            if !sol[i].is_finite() || sol[i].abs() > (if linear { 1e5 } else { 2000.0 }) || (sol[i].abs() > 2000.0 && p.margin.0 < 1e-6) {
                return None;
            }
            if bl.kind == 0 {
                if let Some((lo, hi)) = keep.get(x.as_str()) {
                    let g = *guess.get(x.as_str()).unwrap_or(&1.0);
                    if !const_only || sol[i] <= lo + 0.02 || sol[i] >= hi - 0.02 || g <= lo + 0.02 || g >= hi - 0.02 {
                        return None;
                    }
                }
            }
            val.insert(x.clone(), sol[i]);
            tol.insert(x.clone(), t);
        }
        if t > 0.5 {
            return None;
        }
    }
    for x in guess.keys().chain(keep.keys()) {
        if !val.contains_key(*x) || consts.contains_key(*x) {
            return None;
        }
    }
    // joinability: from some equation, adding equations that bring at most one new unknown each
    let mut left: Vec<BTreeSet<String>> = p
        .blocks
        .iter()
        .flat_map(|b| b.lines.iter())
        .map(|l| line_vars(l).unwrap().into_iter().filter(|x| !consts.contains_key(x)).collect())
        .collect();
    while !left.is_empty() {
        let mut found = None;
        for s in 0..left.len() {
            let mut used = vec![false; left.len()];
            used[s] = true;
            let mut vs = left[s].clone();
            let mut ne = 1;
            loop {
                let mut prog = false;
                for i in 0..left.len() {
                    if ne == vs.len() {
                        break;
                    }
                    if !used[i] && left[i].difference(&vs).count() <= 1 {
                        vs.extend(left[i].iter().cloned());
                        used[i] = true;
                        ne += 1;
                        prog = true;
                    }
                }
                if !prog {
                    break;
                }
            }
            if ne == vs.len() {
                found = Some((used, vs));
                break;
            }
        }
        let (used, vs) = found?;
        let mut next = vec![];
        for (i, s) in left.iter().enumerate() {
            if !used[i] {
                next.push(s.difference(&vs).cloned().collect());
            }
        }
        left = next;
    }
    Some(Truth { val, tol })
}
/// the unknowns that a line squares, multiplies with one another or exponentiates
fn growing(l: &Line, consts: &BTreeMap<String, f64>) -> BTreeSet<String> {
    fn unknown(e: &E, consts: &BTreeMap<String, f64>) -> BTreeSet<String> {
        let mut o = BTreeSet::new();
        vars(e, &mut o);
        o.retain(|x| !consts.contains_key(x));
        o
    }
    fn ge(e: &E, k: &BTreeMap<String, f64>, o: &mut BTreeSet<String>) {
        match e {
            E::N(_) | E::V(_) | E::U(..) | E::P(_) => {}
            E::Neg(x) | E::Par(x) => ge(x, k, o),
            E::B(op, l, r) => {
                let (a, c) = (unknown(l, k), unknown(r, k));
                if *op == '^' || (*op == '*' && !a.is_empty() && !c.is_empty()) {
                    o.extend(a);
                    o.extend(c);
                }
                ge(l, k, o);
                ge(r, k, o);
            }
            E::C(_, xs) => xs.iter().for_each(|x| ge(x, k, o)),
            E::If(a, _, b, c, d) => [a, b, c, d].iter().for_each(|x| ge(x, k, o)),
        }
    }
    fn gb(b: &Body, k: &BTreeMap<String, f64>, o: &mut BTreeSet<String>) {
        match b {
            Body::Eq { l, r } => {
                ge(l, k, o);
                ge(r, k, o);
            }
            Body::If(c) => {
                gb(&c.t, k, o);
                gb(&c.f, k, o);
            }
        }
    }
    let mut o = BTreeSet::new();
    match l {
        Line::Eq { l, r, .. } => {
            ge(l, consts, &mut o);
            ge(r, consts, &mut o);
        }
        Line::Cond(c) => {
            gb(&c.t, consts, &mut o);
            gb(&c.f, consts, &mut o);
        }
        _ => {}
    }
    o
}
/// only operations whose Newton path the reference analysis covers
fn clean(l: &Line, nl: &mut i32) -> bool {
    fn ce(e: &E, nl: &mut i32) -> bool {
        match e {
            E::N(_) | E::V(_) | E::U(..) | E::P(_) => true,
            E::Neg(x) | E::Par(x) => ce(x, nl),
            E::B('+', l, r) | E::B('-', l, r) => ce(l, nl) && ce(r, nl),
            E::B('*', l, r) => {
                let (mut a, mut c) = (BTreeSet::new(), BTreeSet::new());
                vars(l, &mut a);
                vars(r, &mut c);
                if !a.is_empty() && !c.is_empty() {
                    *nl -= 1;
                }
                ce(l, nl) && ce(r, nl)
            }
            E::B('/', l, r) => {
                let mut c = BTreeSet::new();
                vars(r, &mut c);
                c.is_empty() && ce(l, nl) && ce(r, nl)
            }
            E::B(_, l, r) => {
                *nl -= 1;
                ce(l, nl) && matches!(**r, E::N(F(x)) if x == 2.0) || (matches!(**l, E::N(F(x)) if x == 2.0) && matches!(**r, E::V(_)))
            }
            E::C(f, a) => ["sin", "cos", "arctan", "tanh"].contains(&f.as_str()) && a.len() == 1 && ce(&a[0], nl),
            E::If(..) => false,
        }
    }
    fn cb(b: &Body, nl: &mut i32) -> bool {
        match b {
            Body::Eq { l, r } => ce(l, nl) && ce(r, nl),
            Body::If(c) => cc(c, nl),
        }
    }
    fn cc(c: &Cond, nl: &mut i32) -> bool {
        // conditions between constants only, and not knife-edge
        let num = |e: &E| matches!(e, E::N(_) | E::V(_));
        num(&c.a) && num(&c.b) && cb(&c.t, nl) && cb(&c.f, nl)
    }
    let ok = match l {
        Line::Eq { l, r, .. } => ce(l, nl) && ce(r, nl),
        Line::Cond(c) => cc(c, nl),
        _ => false,
    };
    ok && *nl >= 0
}

pub fn gen_p2(r: &mut Rng, max_vars: usize, variants: usize) -> P2 {
    for attempt in 0..60 {
        let p = try_gen_p2(r, if attempt > 40 { 3 } else { max_vars }, variants);
        if reference(&p).is_some() {
            return p;
        }
    }
    // a trivial member of the class
    P2 {
        head: vec![],
        blocks: vec![Block { kind: 0, vars: vec!["x".into()], lines: vec![Line::Eq { l: v("x"), r: n(3.0), sp: 1, cm: None }] }],
        decl: vec![],
        margin: F(1e-6),
        limit: 100,
        variants: gen_variants(r, variants),
    }
}
/// an equation for a further unknown whose text is a part of the text of another equation
/// (`y = 13` occurs in `2*x + xy = 13`)
const RESERVED: &[&str] = &["if", "pi", "e", "else", "end", "guess", "keep", "const", "for", "on", "to", "max", "min"];
fn echo(r: &mut Rng, blocks: &mut Vec<Block>, names: &[String]) {
    fn last(e: &E) -> Option<&String> {
        match e {
            E::V(x) => Some(x),
            E::B(_, _, x) => last(x),
            _ => None,
        }
    }
    let mut found = vec![];
    for l in blocks.iter().flat_map(|b| b.lines.iter()) {
        let Line::Eq { l: lhs, r: rhs @ E::N(_), sp, .. } = l else { continue };
        let Some(x) = last(lhs) else { continue };
        for k in 1..x.len() {
            let y = &x[k..];
            let twin = Line::Eq { l: v(y), r: rhs.clone(), sp: *sp, cm: None };
            let name = y.starts_with(|c: char| c.is_ascii_alphabetic()) && !RESERVED.contains(&y) && !UNARY_FUNCS.iter().any(|f| f.0 == y) && !names.iter().any(|n| n == y);
            if name && render_line(l).contains(&render_line(&twin)) {
                found.push((y.to_string(), twin));
            }
        }
    }
    if found.is_empty() {
        return;
    }
    let (y, twin) = found.swap_remove(r.below(found.len()));
    let at = r.below(blocks.len() + 1);
    blocks.insert(at, Block { kind: 0, vars: vec![y], lines: vec![twin] });
}
fn try_gen_p2(r: &mut Rng, max_vars: usize, variants: usize) -> P2 {
    // now and then a long program
    let total = if max_vars > 6 && r.chance(0.01) { 30 + r.below(35) } else { 1 + r.below(max_vars) };
    let nc = r.below(4);
    let mut names = gen_names(r, total + nc);
    let total = total.min(names.len() - nc);
    redefine_builtin(r, &mut names, total);
    let mut head = vec![];
    for c in &names[total..] {
        head.push(Line::Const { name: c.clone(), val: gen_const_val(r), style: gen_style(r) });
    }
    let consts = const_values(&head);
    // programs over large values stay linear: there the resolution of the difference quotient is known to suffice
    let wide = r.chance(0.15);
    let truth: BTreeMap<String, f64> = names[..total].iter().map(|x| (x.clone(), r.dec(-20, 20) * if wide { 10f64.powi(r.below(4) as i32) } else { 1.0 })).collect();
    let hid = |s: &str| truth.get(s).or_else(|| consts.get(s)).cloned();
    let mut blocks: Vec<Block> = vec![];
    let mut done: Vec<String> = vec![];
    let mut decl = vec![];
    let mut nl = if wide { 0 } else { 3 };
    // unknowns whose Newton path may overshoot: growing them further (squares, products) could carry a
    // jointly solved chain beyond the resolution of the difference quotient
    let mut grown: BTreeSet<String> = BTreeSet::new();
    let mut i = 0;
    while i < total {
        let k = match r.below(6) {
            0 if r.chance(0.1) => 8 + r.below(13),
            0 => 2,
            1 => 2 + r.below(6),
            2 => 3,
            _ => 1,
        }
        .min(total - i);
        let vs: Vec<String> = names[i..i + k].to_vec();
        i += k;
        let dep_term = |r: &mut Rng, done: &Vec<String>, nl: &mut i32, grown: &BTreeSet<String>| -> E {
            let d = r.pick(done).clone();
            let kind = r.below(6);
            match kind {
                1 | 2 if grown.contains(&d) => linear_term(r, &d, &consts),
                0 => E::C((*r.pick(&["sin", "cos", "arctan", "tanh"])).into(), vec![v(&d)]),
                1 if *nl > 0 => {
                    *nl -= 1;
                    b('^', v(&d), n(2.0))
                }
                2 if *nl > 0 => {
                    *nl -= 1;
                    let mut d2 = r.pick(done).clone();
                    if grown.contains(&d2) {
                        d2 = d.clone();
                    }
                    b('*', v(&d), v(&d2))
                }
                _ => linear_term(r, &d, &consts),
            }
        };
        if k == 1 && !wide && r.chance(0.2) {
            // nonlinear in its own unknown
            let x = &vs[0];
            let kind = 1 + r.below(2) as u8;
            let c = if kind == 1 { r.range(1, 300) as f64 / 4.0 + 0.5 } else { r.range(1, 32) as f64 };
            let l = if kind == 2 {
                b('^', n(2.0), v(x))
            } else if r.chance(0.5) {
                b('*', v(x), v(x))
            } else {
                b('^', v(x), n(2.0))
            };
            if kind == 1 && r.chance(0.6) {
                let s = if r.chance(0.5) { -1.0 } else { 1.0 };
                let g = s * r.range(5, 120) as f64 / 10.0;
                decl.push(Line::Guess { name: x.clone(), val: F(g), style: gen_style(r) });
                if r.chance(0.5) {
                    let f = ((g.abs() + c / g.abs()) / 2.0).max(g.abs()).ceil() + 2.0;
                    let (lo, hi) = if s > 0.0 { (0.0, f) } else { (-f, 0.0) };
                    decl.push(Line::Keep { name: x.clone(), lo: F(lo), hi: F(hi), style: gen_style(r) });
                }
            }
            if kind == 2 && r.chance(0.2) {
                decl.push(Line::Guess { name: x.clone(), val: F(r.range(60, 1000) as f64 / 10.0), style: gen_style(r) });
            }
            nl -= 2;
            grown.insert(x.clone());
            blocks.push(Block { kind, vars: vs.clone(), lines: vec![Line::Eq { l, r: n(c), sp: r.below(3) as u8, cm: None }] });
            done.extend(vs);
            continue;
        }
        let use_deps = !done.is_empty() && r.chance(0.75);
        let mut lines = vec![];
        let ring = r.chance(0.5);
        for j in 0..k {
            let mut t = vec![];
            let dominant = |r: &mut Rng, x: &str| {
                let c = r.range(40, 90) as f64 / 10.0;
                b('*', n(c), v(x))
            };
            if k == 1 {
                t.push(linear_term(r, &vs[0], &consts));
            } else {
                t.push(dominant(r, &vs[j]));
                let mut others: Vec<usize> = (0..k).filter(|q| *q != j).collect();
                if ring {
                    others = vec![(j + 1) % k];
                } else if k > 2 {
                    r.shuffle(&mut others);
                    others.truncate(1 + r.below(2));
                }
                for q in others {
                    let c = r.range(5, 18) as f64 / 10.0;
                    t.push(b('*', n(c), v(&vs[q])));
                }
            }
            if use_deps {
                for _ in 0..(if k == 1 { 1 + r.below(3) } else { r.below(2) }) {
                    t.push(dep_term(r, &done, &mut nl, &grown));
                }
            }
            // a long line
            if r.chance(0.01) {
                for _ in 0..20 + r.below(60) {
                    t.push(if r.chance(0.5) || consts.is_empty() { n(gen_num(r)) } else { gen_coef(r, &consts).0 });
                }
            }
            r.shuffle(&mut t);
            let l = sum(r, t);
            let cond = k == 1 && r.chance(0.15);
            if cond {
                let cs: Vec<String> = consts.keys().cloned().collect();
                let leaf = |r: &mut Rng| if !cs.is_empty() && r.chance(0.7) { v(r.pick(&cs)) } else { n(gen_num(r)) };
                let l2 = linear_term(r, &vs[0], &consts);
                if let (Some(a), Some(c)) = (balanced(r, l.clone(), &hid, None), balanced(r, l2, &hid, None)) {
                    let mut t = Body::Eq { l: a.0, r: a.1 };
                    let f = Body::Eq { l: c.0, r: c.1 };
                    if r.chance(0.25) {
                        let l3 = linear_term(r, &vs[0], &consts);
                        if let Some(d) = balanced(r, l3, &hid, None) {
                            t = Body::If(Box::new(Cond { a: leaf(r), op: r.range(1, 6) as u8, b: leaf(r), t, f: Body::Eq { l: d.0, r: d.1 }, ind: 0, deco: false }));
                        }
                    }
                    lines.push(Line::Cond(Cond { a: leaf(r), op: r.range(1, 6) as u8, b: leaf(r), t, f, ind: r.below(6) as u8, deco: r.chance(0.2) }));
                    continue;
                }
            }
            let other = if r.chance(0.25) { Some(if use_deps && r.chance(0.5) { linear_term(r, &r.clone().pick(&done).clone(), &consts) } else { n(gen_num(r)) }) } else { None };
            match balanced(r, l, &hid, other) {
                Some((l, rr)) => lines.push(Line::Eq { l, r: rr, sp: r.below(3) as u8, cm: None }),
                None => lines.push(Line::Eq { l: v(&vs[j]), r: n(1.0), sp: 0, cm: None }),
            }
        }
        if lines.iter().any(|l: &Line| !growing(l, &consts).is_empty() || line_vars(l).is_some_and(|w| w.iter().any(|x| grown.contains(x)))) {
            grown.extend(vs.iter().cloned());
        }
        for x in &vs {
            let h = truth[x];
            let g = if r.chance(0.35) {
                let g = if r.chance(0.3) { r.range(1, 3) as f64 } else { (r.dec(-30, 30) * 10.0).round() / 10.0 };
                decl.push(Line::Guess { name: x.clone(), val: F(g), style: gen_style(r) });
                g
            } else {
                1.0
            };
            if !use_deps && r.chance(0.3) {
                let lo = h.min(g) - 0.1 - r.dec(0, 10).abs();
                let hi = h.max(g) + 0.1 + r.dec(0, 10).abs();
                decl.push(Line::Keep { name: x.clone(), lo: F((lo * 10.0).floor() / 10.0), hi: F((hi * 10.0).ceil() / 10.0), style: gen_style(r) });
            }
        }
        blocks.push(Block { kind: 0, vars: vs.clone(), lines });
        done.extend(vs);
    }
    if r.chance(0.15) {
        echo(r, &mut blocks, &names);
    }
    decorate(r, &mut head);
    for bl in blocks.iter_mut() {
        for l in bl.lines.iter_mut() {
            if let Line::Eq { cm, .. } = l {
                if r.chance(0.15) {
                    *cm = Some(gen_comment(r));
                }
            }
        }
    }
    P2 {
        head,
        blocks,
        decl,
        margin: F(*r.pick(&[1e-3, 1e-4, 1e-4, 1e-6, if wide { 1e-6 } else { 1e-8 }])),
        limit: *r.pick(&[60, 100, 100, 200]),
        variants: gen_variants(r, variants),
    }
}
pub fn p2_lines(p: &P2) -> Vec<Line> {
    let mut l = p.head.clone();
    l.extend(p.blocks.iter().flat_map(|b| b.lines.iter().cloned()));
    l.extend(p.decl.iter().cloned());
    l
}
pub fn check_full(t: &str, p: &P2, truth: &Truth, soln: &HashMap<String, f64>) -> Res {
    for (x, want) in &truth.val {
        match soln.get(x) {
            None => bail!("incomplete", "{x} is missing from the reported solution {:?}\n{t}", soln.keys().collect::<BTreeSet<_>>()),
            Some(y) => {
                let tol = truth.tol[x] + 1e-9 * want.abs();
                check!((y - want).abs() <= tol, "value", "{x} = {y}, but the system determines {want} (allowance {tol:e}, margin {})\n{t}", p.margin.0);
            }
        }
    }
    for x in soln.keys() {
        check!(truth.val.contains_key(x) || x == "pi" || x == "e", "extra-variable", "the reported solution contains {x}, which is no name of the program\n{t}");
    }
    Ok(())
}

impl Scenario for C02 {
    type Plan = P2;
    fn meta(&self) -> Meta {
        Meta {
            id: "C02",
            rule: "one run = one well-posed block-triangular program (up to 12, thorough 20 unknowns; chains, diagonally dominant groups of 2-7 and now and then up to 20, values up to 1e5, quadratic and exponential single equations; now and then programs of 30-64 equations) solved under 4 (thorough 8) (line order, hash seed) pairs; counted when it has at least 2 unknowns; distinct by trace hash",
            real: "nexsys::solve_with_preprocessors with geqslib and gmatlib below it, built from /repo with edge instrumentation",
            stub: "process randomness (hash seeds) and line order come from the run seed; the reference solution comes from the simulator's own elimination",
            assumptions: &["x86_64 Linux; hash iteration order enters only through std RandomState (getrandom), which the simulator owns", "equation texts use plain decimals and blanks as separators"],
            quick_runs: 45000,
            thorough_runs: 150000,
            chunk: 100,
            step_limit: 4_000_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> P2 {
        gen_p2(r, if thorough { 20 } else { 12 }, if thorough { 8 } else { 4 })
    }
    fn run(&self, p: &P2, r: &mut Run) -> Res {
        let Some(truth) = reference(p) else { return Ok(()) };
        if p.limit < 60 || !(1e-9..=1e-2).contains(&p.margin.0) {
            return Ok(());
        }
        let lines = p2_lines(p);
        for (perm, hs) in &p.variants {
            let t = render(&permuted(&lines, *perm));
            seam::set_hash_seed(*hs);
            if *perm != 0 {
                r.fault("reorder_lines");
            }
            r.fault("hash_seed");
            match guard(|| nexsys::solve_with_preprocessors(&t, p.margin.0, p.limit as usize)) {
                Err(e) => bail!("panic", "the solver panicked: {e}\n{t}"),
                Ok(Err(e)) => bail!("unsolved", "the solver reported an error: {e}\n{t}"),
                Ok(Ok((log, soln))) => {
                    let sorted: BTreeMap<&String, &f64> = soln.iter().collect();
                    r.ev(format!("ok {} {:?}", log.len(), sorted.iter().map(|x| format!("{}={}", x.0, fx(**x.1))).collect::<Vec<_>>()));
                    check_full(&t, p, &truth, &soln)?;
                }
            }
        }
        if truth.val.values().any(|x| x.abs() > 2000.0) {
            r.probe("large_values");
        }
        if truth.val.len() >= 30 {
            r.probe("long_program");
        }
        for b in &p.blocks {
            r.probe(&format!("block_kind{}_size{}", b.kind, b.vars.len()));
        }
        r.nontrivial = p.blocks.iter().map(|b| b.vars.len()).sum::<usize>() >= 2;
        Ok(())
    }
}
