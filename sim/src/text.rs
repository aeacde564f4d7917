//! Programs of the nexsys text language: plans, rendering, reference residuals, generators.
use crate::core::Rng;
use crate::expr::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Body {
    Eq { l: E, r: E },
    If(Box<Cond>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cond {
    pub a: E,
    pub op: u8,
    pub b: E,
    pub t: Body,
    pub f: Body,
    pub ind: u8,
    /// trailing comments / blanks on the keyword lines
    pub deco: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Line {
    Eq { l: E, r: E, sp: u8, cm: Option<String> },
    Cond(Cond),
    Const { name: String, val: E, style: u8 },
    Guess { name: String, val: F, style: u8 },
    Keep { name: String, lo: F, hi: F, style: u8 },
    Comment(String),
    Blank,
}

/// styles: 1, 2 blanks; 4 blank after a minus sign; 8 upper-case keywords; 16 on the line of what comes before;
/// from 32 on other ways to write a number
fn num_text(x: f64, style: u8) -> String {
    match style >> 5 {
        1 => return format!("{x:e}"),
        2 => return format!("{x:E}").replace("E", "E+").replace("E+-", "E-"),
        3 => return format!("{}/4", lit(x * 4.0)),
        4 => return format!("2*{}", lit(x / 2.0)),
        5 if x.abs() < 1.0 => return lit(x).replacen("0.", ".", 1),
        6 => return format!("+{}", lit(x)),
        7 => return format!("{} + 1", lit(x - 1.0)),
        _ => {}
    }
    if x < 0.0 {
        if style & 4 != 0 {
            format!("- {}", lit(-x))
        } else {
            format!("-{}", lit(-x))
        }
    } else {
        lit(x)
    }
}
fn op_text(op: u8) -> &'static str {
    OPS[(op.clamp(1, 6) - 1) as usize]
}
fn kw(w: &str, style: u8) -> String {
    if style & 8 != 0 {
        w.to_uppercase()
    } else {
        w.to_string()
    }
}
fn render_body(b: &Body, out: &mut Vec<String>, ind: usize, step: usize, deco: bool) {
    match b {
        Body::Eq { l, r } => out.push(format!("{}{} = {}", " ".repeat(ind), text(l, 1), text(r, 1))),
        Body::If(c) => render_cond(c, out, ind, step, deco),
    }
}
fn render_cond(c: &Cond, out: &mut Vec<String>, ind: usize, step: usize, deco: bool) {
    let p = " ".repeat(ind);
    let d = |s: &str| if deco { s.to_string() } else { String::new() };
    out.push(format!("{p}if {} {} {}:{}", text(&c.a, 1), op_text(c.op), text(&c.b, 1), d(" // first case")));
    render_body(&c.t, out, ind + step, step, deco);
    out.push(format!("{p}else:{}", d("  ")));
    render_body(&c.f, out, ind + step, step, deco);
    out.push(format!("{p}end{}", d(" // of if")));
}
pub fn render_line(l: &Line) -> String {
    match l {
        Line::Eq { l, r, sp, cm } => {
            let eq = if *sp == 0 { "=" } else { " = " };
            let mut s = format!("{}{eq}{}", text(l, *sp), text(r, *sp));
            if let Some(c) = cm {
                s += &format!(" //{c}");
            }
            s
        }
        Line::Cond(c) => {
            let mut v = vec![];
            render_cond(c, &mut v, (c.ind % 3) as usize * 2, (c.ind / 3 % 2) as usize * 4, c.deco);
            v.join("\n")
        }
        Line::Const { name, val, style } => {
            let t = match val {
                E::N(x) => num_text(x.0, *style),
                o => text(o, 0),
            };
            let k = kw("const", *style);
            match style % 4 {
                0 => format!("{k} {name} = {t}"),
                1 => format!("{k} {name}={t}"),
                2 => format!("{k}  {name}  =  {t}"),
                _ => format!("  {k} {name} = {t}"),
            }
        }
        Line::Guess { name, val, style } => {
            let (g, f) = (kw("guess", *style), kw("for", *style));
            match style % 3 {
                0 => format!("{g} {} {f} {name}", num_text(val.0, *style)),
                1 => format!("{g}   {}  {f}  {name}", num_text(val.0, *style)),
                _ => format!("  {g} {} {f} {name}", num_text(val.0, *style)),
            }
        }
        Line::Keep { name, lo, hi, style } => {
            let (k, o) = (kw("keep", *style), kw("on", *style));
            let (a, b) = (num_text(lo.0, *style), num_text(hi.0, *style));
            match style % 3 {
                0 => format!("{k} {name} {o} [{a}, {b}]"),
                1 => format!("{k}  {name}  {o}  [ {a},{b} ]"),
                _ => format!(" {k} {name} {o} [{a},  {b}]"),
            }
        }
        Line::Comment(c) => format!("//{c}"),
        Line::Blank => String::new(),
    }
}
pub fn render(lines: &[Line]) -> String {
    let mut s = String::new();
    let mut open = false; // can the line go on?
    for l in lines {
        let style = match l {
            Line::Const { style, .. } | Line::Guess { style, .. } | Line::Keep { style, .. } => Some(*style),
            _ => None,
        };
        if !s.is_empty() {
            s.push_str(if open && style.is_some_and(|x| x & 16 != 0) { "  " } else { "\n" });
        }
        s.push_str(&render_line(l));
        open = style.is_some() || matches!(l, Line::Eq { cm: None, .. });
    }
    s.push('\n');
    s
}

// ---- reference meaning -----------------------------------------------------------------------
fn body_vars(b: &Body, o: &mut BTreeSet<String>) {
    match b {
        Body::Eq { l, r } => {
            vars(l, o);
            vars(r, o)
        }
        Body::If(c) => cond_vars(c, o),
    }
}
fn cond_vars(c: &Cond, o: &mut BTreeSet<String>) {
    vars(&c.a, o);
    vars(&c.b, o);
    body_vars(&c.t, o);
    body_vars(&c.f, o);
}
pub fn line_vars(l: &Line) -> Option<BTreeSet<String>> {
    let mut o = BTreeSet::new();
    match l {
        Line::Eq { l, r, .. } => {
            vars(l, &mut o);
            vars(r, &mut o);
        }
        Line::Cond(c) => cond_vars(c, &mut o),
        _ => return None,
    }
    Some(o)
}
fn body_res(b: &Body, env: &Env) -> Result<f64, EvErr> {
    match b {
        Body::Eq { l, r } => Ok(eval(l, env)? - eval(r, env)?),
        Body::If(c) => cond_res(c, env),
    }
}
fn cond_res(c: &Cond, env: &Env) -> Result<f64, EvErr> {
    let a = eval(&c.a, env)?;
    let b = eval(&c.b, env)?;
    let t = body_res(&c.t, env)?;
    let f = body_res(&c.f, env)?;
    Ok(if cmp_op(a, c.op, b) { t } else { f })
}
/// lhs - rhs of an equation line under the given values
pub fn residual(l: &Line, get: &dyn Fn(&str) -> Option<f64>) -> Result<f64, EvErr> {
    let env = Env { get, funcs: &[] };
    match l {
        Line::Eq { l, r, .. } => Ok(eval(l, &env)? - eval(r, &env)?),
        Line::Cond(c) => cond_res(c, &env),
        _ => Err(EvErr::Unbound),
    }
}
/// largest magnitude met while evaluating (for rounding allowances)
pub fn magnitude(l: &Line, get: &dyn Fn(&str) -> Option<f64>) -> f64 {
    fn go(e: &E, env: &Env, m: &mut f64) {
        if let Ok(x) = eval(e, env) {
            if x.is_finite() {
                *m = m.max(x.abs());
            }
        }
        match e {
            E::Neg(x) | E::Par(x) => go(x, env, m),
            E::B(_, l, r) => {
                go(l, env, m);
                go(r, env, m)
            }
            E::C(_, a) => a.iter().for_each(|x| go(x, env, m)),
            E::If(a, _, c, t, f) => [a, c, t, f].into_iter().for_each(|x| go(x, env, m)),
            _ => {}
        }
    }
    fn gb(b: &Body, env: &Env, m: &mut f64) {
        match b {
            Body::Eq { l, r } => {
                go(l, env, m);
                go(r, env, m)
            }
            Body::If(c) => {
                gb(&c.t, env, m);
                gb(&c.f, env, m)
            }
        }
    }
    let env = Env { get, funcs: &[] };
    let mut m = 0.0;
    match l {
        Line::Eq { l, r, .. } => {
            go(l, &env, &mut m);
            go(r, &env, &mut m)
        }
        Line::Cond(c) => {
            gb(&c.t, &env, &mut m);
            gb(&c.f, &env, &mut m)
        }
        _ => {}
    }
    m
}
pub fn const_values(lines: &[Line]) -> BTreeMap<String, f64> {
    let env = Env { get: &|_| None, funcs: &[] };
    let mut m = BTreeMap::new();
    for l in lines {
        if let Line::Const { name, val, .. } = l {
            if let Ok(x) = eval(val, &env) {
                m.insert(name.clone(), x);
            }
        }
    }
    m
}

// ---- generators --------------------------------------------------------------------------------
const NAMES: &[&str] = &[
    "x", "x1", "x10", "x2", "xy", "y", "y1", "z", "X", "Y", "flow", "flow_rate", "P", "P1", "T_in", "T_out", "a", "b", "c", "ab", "guess1",
    "keeper", "on", "q", "Q", "rho", "r", "k1", "k", "sinx", "dp", "vel", "m_dot", "length", "constant1", "iffy", "lim", "pix", "w", "u", "v",
    "blend", "elsewhere", "send", "trend", "dif", "log2", "t", "s", "h1", "h2", "n_a", "inf", "nan", "NaN", "infinity", "guess", "keep", "for",
];
const LONG: &[&str] = &[
    "temperature_of_the_coolant_at_the_outlet_of_the_second_heat_exchanger", "temperature_of_the_coolant_at_the_outlet_of_the_first_heat_exchanger",
    "TotalMassFlowRateThroughTheBypassValveWhenFullyOpen", "pressureDropAcrossSectionNumber0001",
];
pub fn gen_names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<&str> = NAMES.to_vec();
    r.shuffle(&mut v);
    // favour prefix families
    if r.chance(0.5) {
        for (i, w) in ["x", "x1", "x10", "xy", "X"].iter().enumerate() {
            if let Some(p) = v.iter().position(|q| q == w) {
                v.swap(i, p);
            }
        }
    }
    // or names that contain a keyword
    if r.chance(0.08) {
        for (i, w) in ["send", "trend", "blend", "iffy", "elsewhere", "guess1", "keeper", "constant1", "dif"].iter().enumerate() {
            if let Some(p) = v.iter().position(|q| q == w) {
                v.swap(i, p);
            }
        }
    }
    if r.chance(0.03) {
        for (i, w) in LONG.iter().enumerate() {
            v.insert(i, w);
        }
    }
    v.truncate(n.min(v.len()));
    let mut v: Vec<String> = v.iter().map(|s| s.to_string()).collect();
    v.extend((v.len()..n).map(|i| format!("var_{i}")));
    r.shuffle(&mut v);
    v
}
pub fn gen_style(r: &mut Rng) -> u8 {
    r.below(16) as u8 | if r.chance(0.08) { 16 } else { 0 }
}
/// any way to write a declaration, including ones that need not be understood
pub fn gen_any_style(r: &mut Rng) -> u8 {
    gen_style(r) | if r.chance(0.04) { (r.range(1, 7) as u8) << 5 } else { 0 }
}
const COMMENTS: &[&str] = &[
    "", " x", " a", " a note", " x = 3", " const q = 9", "a", " balance of flows", " guess 3 for x", " keep x on [0, 1]", " #nonsense", " [ft->xx]",
    " if x > y:", " else:", " end", "/ triple", " x + y = z // twice", " http://example.com/a", " 100 % sure", " \"quoted\"",
];
pub fn gen_comment(r: &mut Rng) -> String {
    r.pick(COMMENTS).to_string()
}
pub fn gen_const_val(r: &mut Rng) -> E {
    match r.below(8) {
        0 => gen_unit(r),
        1 => E::P(r.pick(&PHYS_TEXT[..12]).to_string()),
        2 => n(-gen_num(r) - 0.5),
        _ => n(gen_num(r) + 0.5),
    }
}
/// multiply by a number, possibly written as a unit conversion, physical constant or const name
pub fn gen_coef(r: &mut Rng, consts: &BTreeMap<String, f64>) -> (E, f64) {
    for _ in 0..20 {
        let (e, x) = match r.below(12) {
            0 => {
                let e = gen_unit(r);
                let x = eval(&e, &Env { get: &|_| None, funcs: &[] }).unwrap();
                (e, x)
            }
            1 => {
                let p = r.pick(&PHYS[..8]);
                (E::P(p.0.to_string()), p.1)
            }
            2 | 3 if !consts.is_empty() => {
                let ks: Vec<&String> = consts.keys().collect();
                let k = ks[r.below(ks.len())];
                (v(k), consts[k])
            }
            _ => {
                let x = r.range(1, 60) as f64 / if r.chance(0.5) { 1.0 } else { 10.0 };
                (n(x), x)
            }
        };
        if x.abs() >= 0.3 && x.abs() <= 20.0 {
            return (e, x);
        }
    }
    (n(2.0), 2.0)
}
