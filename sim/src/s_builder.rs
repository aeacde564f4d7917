//! C03: bookkeeping of geqslib::system::SystemBuilder over histories that include rejections.
use crate::core::*;
use crate::expr::F;
use crate::s_text::inverse;
use crate::text::gen_names;
use crate::{bail, check, seam};
use geqslib::shunting::{new_context, ContextLike};
use geqslib::system::{ConstrainResult, SystemBuilder};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub struct C03;

/// sum of coefficient * variable (+ q * first variable squared) = value at the hidden solution
#[derive(Clone, Serialize, Deserialize)]
pub struct Eq {
    pub terms: Vec<(F, String)>,
    /// coefficient of the square of the only variable (single-variable equations)
    pub sq: F,
    /// name of a constant of the context added on the right
    pub k: Option<String>,
    pub style: u32,
    /// the first variable is also added to both sides, so that it occurs again after the others
    #[serde(default)]
    pub twice: bool,
    /// 0 well-formed; 1 no '='; 2 two '='; 3 unclosed parenthesis; 4 unknown symbol; 5 empty; 6 surplus ')';
    /// 7 operand missing on the left; 8 operator missing; 9 operand missing on the right
    pub bad: u8,
}
#[derive(Clone, Serialize, Deserialize)]
pub enum Op {
    Try(Eq),
    Bulk(Vec<Eq>),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Spec {
    pub var: String,
    pub guess: F,
    pub min: F,
    pub max: F,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub consts: BTreeMap<String, F>,
    pub default_ctx: bool,
    pub hidden: BTreeMap<String, F>,
    pub first: Eq,
    pub ops: Vec<Op>,
    pub specs: Vec<Spec>,
    pub margin: F,
    pub hash: Vec<u64>,
}

fn num(x: f64) -> String {
    if x < 0.0 {
        format!("(0 - {})", -x)
    } else {
        format!("{x}")
    }
}
impl Eq {
    fn vars(&self) -> BTreeSet<String> {
        if self.bad == 5 {
            return BTreeSet::new();
        }
        self.terms.iter().map(|t| t.1.clone()).collect()
    }
    fn lhs_at(&self, p: &Plan) -> f64 {
        let mut s = 0.0;
        for (c, v) in &self.terms {
            s += c.0 * p.hidden.get(v).map_or(0.0, |x| x.0);
        }
        if let Some((_, v)) = self.terms.first() {
            let x = p.hidden.get(v).map_or(0.0, |x| x.0);
            s += self.sq.0 * x * x;
        }
        s
    }
    fn text(&self, p: &Plan) -> String {
        let sp = if self.style & 1 == 0 { " " } else { "" };
        let mut l = String::new();
        let mut r = String::new();
        for (i, (c, v)) in self.terms.iter().enumerate() {
            // some of the later terms are written on the right-hand side
            if c.0 == 0.0 {
                continue;
            }
            let right = i > 0 && (self.style >> (i + 3)) & 1 == 1;
            let (side, c) = if right { (&mut r, -c.0) } else { (&mut l, c.0) };
            let body = match (self.style >> 1) & 3 {
                _ if c.abs() == 1.0 && self.style & 64 == 0 => v.clone(),
                0 => format!("{}{sp}*{sp}{v}", c.abs()),
                1 => format!("{v}*{}", c.abs()),
                2 => format!("({}*{v})", c.abs()),
                _ => format!("{v}/({})", 1.0 / c.abs()),
            };
            if side.is_empty() {
                *side = if c < 0.0 { format!("-{body}") } else { body };
            } else {
                *side += &format!("{sp}{}{sp}{body}", if c < 0.0 { '-' } else { '+' });
            }
        }
        if self.sq.0 != 0.0 {
            if let Some((_, v)) = self.terms.first() {
                l += &format!("{}{}*{v}^2", if l.is_empty() { "" } else { " + " }, num(self.sq.0));
            }
        }
        if l.is_empty() {
            l = "0".into();
        }
        let mut val = self.lhs_at(p);
        if let Some(k) = &self.k {
            if let Some(x) = p.consts.get(k) {
                val -= x.0;
                r = if r.is_empty() { k.clone() } else { format!("{r}{sp}+{sp}{k}") };
            }
        }
        let tail = if val < 0.0 { format!("{sp}-{sp}{}", -val) } else { format!("{sp}+{sp}{val}") };
        let r = if r.is_empty() { if val < 0.0 { format!("-{}", -val) } else { format!("{val}") } } else { format!("{r}{tail}") };
        let (l, r) = match self.terms.first() {
            Some((_, v)) if self.twice => (format!("{l}{sp}+{sp}{v}"), if self.style & 16 == 0 { format!("{r}{sp}+{sp}{v}") } else { format!("{v}{sp}+{sp}({r})") }),
            _ => (l, r),
        };
        match self.bad {
            1 => format!("{l} - ({r})"),
            2 => {
                if self.style & 8 == 0 {
                    format!("{l} == {r}")
                } else {
                    format!("{l} = {r} = 0")
                }
            }
            3 => format!("({l}{sp}={sp}{r}"),
            4 => format!("{l}{sp}={sp}{r} + $"),
            5 => String::new(),
            6 => format!("{l}){sp}={sp}{r}"),
            7 => format!("{l} *{sp}={sp}{r}"),
            8 => format!("{l} 2{sp}={sp}{r}"),
            9 => format!("{l}{sp}={sp}{r} /"),
            _ => format!("{l}{sp}={sp}{r}"),
        }
    }
}

#[derive(Clone)]
struct Model {
    vars: BTreeSet<String>,
    eqs: Vec<Eq>,
}
impl Model {
    fn full(&self) -> bool {
        self.vars.len() == self.eqs.len()
    }
    fn new_vars(&self, e: &Eq) -> usize {
        e.vars().difference(&self.vars).count()
    }
    fn add(&mut self, e: &Eq) {
        self.vars.extend(e.vars());
        self.eqs.push(e.clone());
    }
}

fn gen_eq(r: &mut Rng, pool: &[String], hidden: &BTreeMap<String, F>, nterms: usize) -> Eq {
    let mut names: Vec<String> = pool.to_vec();
    r.shuffle(&mut names);
    names.truncate(nterms);
    let terms: Vec<(F, String)> = names
        .into_iter()
        .map(|v| {
            let c = if r.chance(0.3) { 1.0 } else { r.range(1, 9) as f64 };
            (F(if r.chance(0.4) { -c } else { c }), v)
        })
        .collect();
    let _ = hidden;
    Eq { terms, sq: F(0.0), k: None, style: r.u64() as u32, twice: r.chance(0.12), bad: 0 }
}

impl Scenario for C03 {
    type Plan = Plan;
    fn meta(&self) -> Meta {
        Meta {
            id: "C03",
            rule: "one run = one builder history of 3-16 add attempts (single and bulk; malformed, under- and over-constraining ones mixed in), then specification and solution of the finished system, executed under 2 hash seeds; counted when at least one attempt was refused and one accepted; distinct by trace hash",
            real: "geqslib::system (SystemBuilder, System), the expression compiler, the Newton solver and gmatlib, built from /repo with edge instrumentation",
            stub: "hash seeds come from the run seed; the model of the bookkeeping and the reference solution (own elimination) are the simulator's",
            assumptions: &["x86_64 Linux; hash iteration order enters only through std RandomState (getrandom), which the simulator owns", "equation texts use plain decimals"],
            quick_runs: 400000,
            thorough_runs: 3000000,
            chunk: 2000,
            step_limit: 1_000_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> Plan {
        let nv = 1 + r.below(if thorough { 9 } else { 6 });
        let nk = r.below(3);
        let names = gen_names(r, nv + nk + 1);
        let (vs, ks) = names.split_at(nv);
        let mut hidden = BTreeMap::new();
        for v in vs {
            hidden.insert(v.clone(), F(r.dec(-9, 9)));
        }
        let mut consts = BTreeMap::new();
        for k in &ks[..nk.min(ks.len())] {
            consts.insert(k.clone(), F(r.range(1, 40) as f64 / 4.0));
        }
        let k0 = (1 + r.below(4)).min(nv);
        let k0 = if r.chance(0.05) { 0 } else { k0 };
        let mut first = gen_eq(r, vs, &hidden, k0);
        if r.chance(0.06) {
            first.bad = r.range(1, 9) as u8;
        }
        let mut known: BTreeSet<String> = first.vars();
        let mut neq = 1;
        let mut ops = vec![];
        let nops = 2 + r.below(if thorough { 18 } else { 12 });
        for _ in 0..nops {
            if neq >= known.len() && r.chance(0.35) {
                break;
            }
            let one = |r: &mut Rng, known: &mut BTreeSet<String>, neq: &mut usize| {
                let unknown: Vec<String> = vs.iter().filter(|v| !known.contains(*v)).cloned().collect();
                let old: Vec<String> = known.iter().cloned().collect();
                let arm = if !unknown.is_empty() && r.chance(0.5) { r.range(3, 8) } else { r.range(0, 10) };
                let mut e = match arm {
                    // an eligible equation without a new unknown
                    0..=2 => {
                        let k = 1 + r.below(old.len().clamp(1, 4));
                        gen_eq(r, &old, &hidden, k)
                    }
                    // an eligible equation with one new unknown
                    3..=5 if !unknown.is_empty() => {
                        let k = r.below(old.len().clamp(1, 3) + 1);
                        let mut e = gen_eq(r, &old, &hidden, k);
                        let c = r.range(1, 7) as f64;
                        e.terms.push((F(if r.chance(0.3) { -c } else { c }), r.pick(&unknown).clone()));
                        if r.chance(0.5) {
                            e.terms.reverse();
                        }
                        e
                    }
                    // too many new unknowns
                    6 if unknown.len() > 1 => {
                        let k = 2 + r.below(unknown.len() - 1);
                        gen_eq(r, &unknown, &hidden, k)
                    }
                    // symmetric roots, told apart by the guess
                    8 if !unknown.is_empty() => {
                        let mut e = gen_eq(r, &unknown, &hidden, 1);
                        if hidden[&e.terms[0].1].0.abs() >= 0.5 {
                            e.sq = F(r.range(1, 5) as f64);
                            e.terms[0].0 = F(0.0);
                        }
                        e
                    }
                    // no unknowns at all
                    7 if r.chance(0.15) => Eq { terms: vec![], sq: F(0.0), k: None, style: 0, twice: false, bad: 0 },
                    _ => {
                        let k = 1 + r.below(vs.len().min(4));
                        gen_eq(r, vs, &hidden, k)
                    }
                };
                if !consts.is_empty() && r.chance(0.25) {
                    let ks: Vec<&String> = consts.keys().collect();
                    e.k = Some(ks[r.below(ks.len())].clone());
                }
                if r.chance(0.22) {
                    e.bad = r.range(1, 9) as u8;
                } else if *neq < known.len() && e.vars().difference(known).count() <= 1 {
                    known.extend(e.vars());
                    *neq += 1;
                }
                e
            };
            if r.chance(0.15) {
                let n = 1 + r.below(4);
                let mut l: Vec<Eq> = (0..n).map(|_| one(r, &mut known, &mut neq)).collect();
                if r.chance(0.6) {
                    l.iter_mut().for_each(|e| e.bad = 0);
                }
                if r.chance(0.5) {
                    l.reverse();
                }
                ops.push(Op::Bulk(l));
            } else {
                ops.push(Op::Try(one(r, &mut known, &mut neq)));
            }
        }
        // fill up what is missing, most of the time
        if r.chance(0.85) {
            for _ in 0..3 * nv {
                if neq >= known.len() {
                    break;
                }
                let old: Vec<String> = known.iter().cloned().collect();
                let k = 1 + r.below(old.len().min(4));
                ops.push(Op::Try(gen_eq(r, &old, &hidden, k)));
                neq += 1;
            }
        }
        let mut specs = vec![];
        let unbounded = r.chance(0.5);
        for v in &names {
            if let Some(h) = hidden.get(v) {
                let needs = h.0 < 0.0;
                if r.chance(if needs { 0.8 } else { 0.5 }) {
                    let (lo, hi) = match r.below(4) {
                        _ if unbounded => (f64::NEG_INFINITY, f64::INFINITY),
                        0 => (f64::NEG_INFINITY, f64::INFINITY),
                        1 => (h.0 - 1.0 - r.range(0, 9) as f64, h.0 + 1.0 + r.range(0, 9) as f64),
                        2 => (h.0 - 0.5, f64::INFINITY),
                        _ => (h.0 - 2.0, h.0 + 3.0),
                    };
                    // sometimes a domain that leaves the solution out
                    let (lo, hi) = if r.chance(0.06) { (h.0 + 1.0, h.0 + 5.0) } else { (lo, hi) };
                    let g = if lo > h.0 { lo + 1.0 } else { h.0 + r.range(-40, 90) as f64 / 100.0 };
                    specs.push(Spec { var: v.clone(), guess: F(g), min: F(lo), max: F(hi) });
                }
            } else if r.chance(0.4) {
                specs.push(Spec { var: v.clone(), guess: F(77.0), min: F(70.0), max: F(80.0) });
            }
        }
        if r.chance(0.2) {
            specs.push(Spec { var: r.pick(&["sin", "nosuch", "pi", ""]).to_string(), guess: F(3.0), min: F(2.0), max: F(4.0) });
        }
        r.shuffle(&mut specs);
        // specified before, elsewhere: the last specification counts
        if r.chance(0.25) && !specs.is_empty() {
            let s = specs[r.below(specs.len())].clone();
            if let Some(h) = hidden.get(&s.var) {
                let h = h.0.abs();
                specs.insert(0, Spec { var: s.var, guess: F(h + 4.0), min: F(h + 1.0), max: F(h + 9.0) });
            }
        }
        Plan {
            consts,
            default_ctx: r.chance(0.7),
            hidden,
            first,
            ops,
            specs,
            margin: F(*r.pick(&[1e-3, 1e-5, 1e-7])),
            hash: (0..2).map(|_| r.u64() >> 16).collect(),
        }
    }

    fn run(&self, p: &Plan, r: &mut Run) -> Res {
        if !(1e-9..=1e-2).contains(&p.margin.0) || p.hidden.keys().any(|v| p.consts.contains_key(v)) {
            return Ok(());
        }
        let all: Vec<&Eq> = std::iter::once(&p.first)
            .chain(p.ops.iter().flat_map(|o| match o {
                Op::Try(e) => vec![e],
                Op::Bulk(l) => l.iter().collect(),
            }))
            .collect();
        for e in &all {
            let mut seen = BTreeSet::new();
            if e.terms.iter().any(|t| !p.hidden.contains_key(&t.1) || !seen.insert(&t.1) || !t.0 .0.is_finite()) {
                return Ok(());
            }
            if e.terms.iter().any(|t| t.0 .0 == 0.0 && e.sq.0 == 0.0) || (e.sq.0 != 0.0 && e.terms.len() != 1) {
                return Ok(());
            }
        }
        for hs in &p.hash {
            seam::set_hash_seed(*hs);
            r.fault("hash_seed");
            self.once(p, r)?;
        }
        Ok(())
    }
}

fn describe(h: &[String]) -> String {
    h.join("\n")
}

impl C03 {
    fn once(&self, p: &Plan, r: &mut Run) -> Res {
        let mut ctx = if p.default_ctx { new_context() } else { Default::default() };
        for (k, x) in &p.consts {
            ctx.add_const_to_ctx(k, x.0);
        }
        let mut hist = vec![];
        let t = p.first.text(p);
        hist.push(format!("new({t:?})"));
        let mut b = match guard(|| SystemBuilder::new(&t, ctx)) {
            Err(e) => bail!("panic", "{}\npanicked: {e}", describe(&hist)),
            Ok(Err(e)) => {
                check!(p.first.bad != 0, "refused", "{}\nwas refused: {e}", describe(&hist));
                r.fault("malformed_first");
                r.ev("new err");
                r.nontrivial = true;
                return Ok(());
            }
            Ok(Ok(b)) => b,
        };
        check!(p.first.bad == 0, "accepted-malformed", "{}\nwas accepted", describe(&hist));
        let mut m = Model { vars: BTreeSet::new(), eqs: vec![] };
        m.add(&p.first);
        let mut refused = 0;
        let mut accepted = 0;
        // false once the accepted set is not determined by the rules alone
        let mut exact = true;
        let state = |b: &SystemBuilder| -> (Vec<String>, bool) {
            let mut v = b.get_vars().clone();
            v.sort();
            (v, b.is_fully_constrained())
        };
        let same = |b: &SystemBuilder, m: &Model| {
            let (v, f) = state(b);
            v == m.vars.iter().cloned().collect::<Vec<_>>() && f == m.full()
        };
        check!(same(&b, &m), "state", "{}\nthe builder reports {:?}, expected {:?} full={}", describe(&hist), state(&b), m.vars, m.full());
        for op in &p.ops {
            match op {
                Op::Try(e) => {
                    let t = e.text(p);
                    hist.push(format!("try_constrain_with({t:?})"));
                    let got = guard(|| b.try_constrain_with(&t));
                    let kind = match &got {
                        Err(e) => bail!("panic", "{}\npanicked: {e}", describe(&hist)),
                        Ok(Ok(ConstrainResult::WillConstrain)) => "accepted",
                        Ok(Ok(ConstrainResult::WillNotConstrain)) => "not-constrain",
                        Ok(Ok(ConstrainResult::WillOverConstrain)) => "over",
                        Ok(Err(_)) => "error",
                    };
                    *hist.last_mut().unwrap() += &format!(" -> {kind}");
                    r.ev(kind);
                    let full = m.full();
                    let ok = if e.bad != 0 {
                        r.fault("malformed_equation");
                        // malformed equations are never accepted; which refusal is reported first is not specified
                        kind != "accepted"
                    } else if full {
                        r.fault("over_constraining");
                        kind == "over"
                    } else if m.new_vars(e) > 1 {
                        r.fault("under_constraining");
                        kind == "not-constrain"
                    } else {
                        kind == "accepted"
                    };
                    // an attempt on an unfinished system that is malformed but would otherwise be accepted has to be an error
                    let ok = ok && !(e.bad != 0 && !full && m.new_vars(e) <= 1 && kind != "error");
                    check!(ok, "verdict", "{}\nunexpected verdict; before it the system had unknowns {:?} and {} equations", describe(&hist), m.vars, m.eqs.len());
                    if kind == "accepted" {
                        m.add(e);
                        accepted += 1;
                    } else {
                        refused += 1;
                    }
                }
                Op::Bulk(l) => {
                    let ts: Vec<String> = l.iter().map(|e| e.text(p)).collect();
                    hist.push(format!("try_fully_constrain_with({ts:?})"));
                    let got = match guard(|| b.try_fully_constrain_with(ts.iter().map(|s| s.as_str()).collect())) {
                        Err(e) => bail!("panic", "{}\npanicked: {e}", describe(&hist)),
                        Ok(x) => x,
                    };
                    *hist.last_mut().unwrap() += &format!(" -> {}", match &got {
                        Ok(x) => x.to_string(),
                        Err(_) => "error".into(),
                    });
                    r.ev(format!("bulk {:?}", got.as_ref().ok()));
                    let before = m.clone();
                    let mut left: Vec<&Eq> = l.iter().collect();
                    let mut err = false;
                    'grow: while !m.full() {
                        for i in 0..left.len() {
                            if m.new_vars(left[i]) <= 1 {
                                if left[i].bad != 0 {
                                    err = true;
                                    break 'grow;
                                }
                                m.add(left[i]);
                                left.remove(i);
                                continue 'grow;
                            }
                        }
                        break;
                    }
                    if l.iter().any(|e| e.bad != 0) {
                        r.fault("malformed_in_bulk");
                        refused += 1;
                        // whether the well-formed part of a failing list is kept is not specified: both are fine,
                        // anything else is a trace of the malformed equation
                        if same(&b, &before) && !same(&b, &m) {
                            m = before.clone();
                        }
                        check!(same(&b, &m), "state", "{}\nthe builder reports {:?}, expected {:?} full={}", describe(&hist), state(&b), m.vars, m.full());
                        check!(!(err && matches!(got, Ok(true)) && !m.full()), "verdict", "{}\nreported success", describe(&hist));
                        exact = exact && m.full() == before.full();
                        if m.vars != before.vars || m.eqs.len() != before.eqs.len() {
                            exact = false;
                        }
                        continue;
                    }
                    let Ok(full) = got else { bail!("verdict", "{}\nfailed although every equation is well-formed", describe(&hist)) };
                    check!(full == b.is_fully_constrained(), "verdict", "{}\nthe returned value differs from is_fully_constrained() = {}", describe(&hist), b.is_fully_constrained());
                    check!(full == m.full(), "verdict", "{}\nexpected {}", describe(&hist), m.full());
                    if m.full() && !left.is_empty() && !before.full() {
                        // more equations than needed: which of them were used depends on the order of the search
                        exact = false;
                        let pool: BTreeSet<String> = l.iter().flat_map(|e| e.vars()).chain(before.vars.iter().cloned()).collect();
                        let now: BTreeSet<String> = b.get_vars().iter().cloned().collect();
                        check!(now.is_superset(&before.vars) && now.is_subset(&pool), "state", "{}\nthe builder reports unknowns {now:?}", describe(&hist));
                        m.vars = now;
                        let k = m.vars.len();
                        m.eqs.resize_with(k, || p.first.clone());
                        r.probe("bulk_oversupply");
                    }
                    accepted += m.eqs.len().saturating_sub(before.eqs.len());
                }
            }
            check!(same(&b, &m), "state", "{}\nthe builder reports {:?}, expected unknowns {:?} full={}", describe(&hist), state(&b), m.vars, m.full());
        }
        r.nontrivial = refused > 0 && accepted > 0;
        // the finished system
        let full = m.full();
        let sys = match guard(|| b.build_system()) {
            Err(e) => bail!("panic", "{}\nbuild_system panicked: {e}", describe(&hist)),
            Ok(s) => s,
        };
        check!(sys.is_some() == full, "build", "{}\nbuild_system gives a system: {}, fully constrained: {full}", describe(&hist), sys.is_some());
        let Some(mut sys) = sys else { return Ok(()) };
        r.probe("built");
        let mut dom: BTreeMap<String, Spec> = BTreeMap::new();
        for s in &p.specs {
            if !(s.min.0 < s.guess.0 && s.guess.0 < s.max.0) || s.guess.0.is_infinite() {
                return Ok(());
            }
            let own = m.vars.contains(&s.var);
            hist.push(format!("specify_variable({:?}, {:?}, {:?}, {:?})", s.var, s.guess.0, s.min.0, s.max.0));
            match guard(|| sys.specify_variable(&s.var, s.guess.0, s.min.0, s.max.0)) {
                Err(e) => bail!("panic", "{}\npanicked: {e}", describe(&hist)),
                Ok(x) => check!(x == own, "specify", "{}\nreturned {x}", describe(&hist)),
            }
            if own {
                dom.insert(s.var.clone(), s.clone());
            }
        }
        // reference: single-unknown squares first, then elimination
        let n = m.vars.len();
        let col: BTreeMap<&String, usize> = m.vars.iter().enumerate().map(|(i, v)| (v, i)).collect();
        let guess = |v: &String| dom.get(v).map_or(1.0, |s| s.guess.0);
        let mut a = vec![vec![0.0; n]; n];
        let mut rhs = vec![0.0; n];
        let mut good = exact && n <= 12;
        let mut flipped: BTreeMap<String, f64> = BTreeMap::new();
        if good {
            for (i, e) in m.eqs.iter().enumerate() {
                if e.sq.0 != 0.0 {
                    let v = &e.terms[0].1;
                    let h = p.hidden[v].0;
                    if e.terms[0].0 .0 != 0.0 || h.abs() < 0.3 {
                        good = false;
                        break;
                    }
                    // from a guess on one side of zero the iteration stays there
                    let root = h.abs() * guess(v).signum();
                    if guess(v).abs() < 0.1 || guess(v).abs() > 30.0 {
                        good = false;
                    }
                    if root != h {
                        flipped.insert(v.clone(), root);
                    }
                    a[i][col[v]] = 1.0;
                    rhs[i] = root;
                } else {
                    for (c, v) in &e.terms {
                        a[i][col[v]] = c.0;
                    }
                    rhs[i] = e.lhs_at(p);
                }
            }
        }
        let inv = if good { inverse(&a) } else { None };
        let (mut want, mut cond) = (vec![], f64::INFINITY);
        if let Some(inv) = &inv {
            want = (0..n).map(|i| (0..n).map(|j| inv[i][j] * rhs[j]).sum::<f64>()).collect();
            let norm = |x: &[Vec<f64>]| x.iter().map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(0.0, f64::max);
            cond = norm(&a) * norm(inv);
        }
        hist.push(format!("solve({:?}, 60)", p.margin.0));
        let out = match guard(|| sys.solve(p.margin.0, 60)) {
            Err(e) => bail!("panic", "{}\npanicked: {e}", describe(&hist)),
            Ok(x) => x,
        };
        if let Ok(s) = &out {
            let keys: BTreeSet<String> = s.keys().cloned().collect();
            check!(keys == m.vars, "solution-keys", "{}\nreports {keys:?}, the unknowns are {:?}", describe(&hist), m.vars);
            for (v, x) in s {
                check!(x.is_finite(), "solution-value", "{}\nreports {v} = {x}", describe(&hist));
                if let Some(d) = dom.get(v) {
                    check!(*x >= d.min.0 && *x <= d.max.0, "domain", "{}\nreports {v} = {x}", describe(&hist));
                }
            }
        }
        let sorted = |s: &std::collections::HashMap<String, f64>| {
            let b: BTreeMap<_, _> = s.iter().map(|(k, v)| (k.clone(), fx(*v))).collect();
            format!("{b:?}")
        };
        r.ev(match &out {
            Ok(s) => sorted(s),
            Err(_) => "solve err".into(),
        });
        if cond > 2e3 || want.iter().any(|w: &f64| w.abs() > 1e4) {
            return Ok(());
        }
        let names: Vec<&String> = m.vars.iter().collect();
        let mut outside = false;
        let mut edge = false;
        for (i, v) in names.iter().enumerate() {
            if let Some(d) = dom.get(*v) {
                if want[i] < d.min.0 - 0.1 || want[i] > d.max.0 + 0.1 {
                    outside = true;
                } else if want[i] < d.min.0 + 0.05 || want[i] > d.max.0 - 0.05 {
                    edge = true;
                }
                if d.guess.0 < d.min.0 + 0.05 || d.guess.0 > d.max.0 - 0.05 {
                    edge = true;
                }
            }
        }
        if outside {
            r.probe("domain_excludes_solution");
            check!(out.is_err(), "domain", "{}\nreports a solution although the only one, {:?}, lies outside the given domains", describe(&hist), names.iter().zip(&want).collect::<Vec<_>>());
            return Ok(());
        }
        // a square's first step may leave a domain: only linear systems are sure to converge under domains
        let has_sq = m.eqs.iter().any(|e| e.sq.0 != 0.0);
        if edge || (has_sq && !dom.values().all(|d| d.min.0.is_infinite() && d.max.0.is_infinite())) {
            return Ok(());
        }
        r.probe(if has_sq { "solved_with_square" } else { "solved_linear" });
        match out {
            Err(e) => bail!("unsolved", "{}\nfailed: {e}; the solution is {:?}", describe(&hist), names.iter().zip(&want).collect::<Vec<_>>()),
            Ok(s) => {
                for (i, v) in names.iter().enumerate() {
                    let tol = 2.0 * p.margin.0 + 1e-7 * (1.0 + want[i].abs());
                    check!((s[*v] - want[i]).abs() <= tol, "solution-value", "{}\nreports {v} = {}, the accepted equations determine {} (allowance {tol:e})", describe(&hist), s[*v], want[i]);
                }
            }
        }
        Ok(())
    }
}
