//! Reference arithmetic: expression trees, their text form and their value by ordinary arithmetic.
use crate::core::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

/// an f64 that survives JSON exactly
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct F(pub f64);
impl Serialize for F {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(F).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum E {
    N(F),
    V(String),
    Neg(Box<E>),
    B(char, Box<E>, Box<E>),
    C(String, Vec<E>),
    /// if(a, op, b, then, else)
    If(Box<E>, u8, Box<E>, Box<E>, Box<E>),
    /// unit conversion literal [from->to] (nexsys text only)
    U(String, String),
    /// physical constant #name (nexsys text only)
    P(String),
    /// redundant parentheses
    Par(Box<E>),
}
pub fn n(x: f64) -> E {
    E::N(F(x))
}
pub fn v(s: &str) -> E {
    E::V(s.to_string())
}
pub fn b(op: char, l: E, r: E) -> E {
    E::B(op, Box::new(l), Box::new(r))
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum EvErr {
    DivZero,
    Unbound,
}

pub type CustomFn = (&'static str, usize, fn(&[f64]) -> f64);

pub struct Env<'a> {
    pub get: &'a dyn Fn(&str) -> Option<f64>,
    /// custom functions: arguments in the order written
    pub funcs: &'a [CustomFn],
}

pub const OPS: [&str; 6] = ["==", "<=", ">=", "<", ">", "!="];

pub fn cmp_op(a: f64, op: u8, b: f64) -> bool {
    match op {
        1 => a == b,
        2 => a <= b,
        3 => a >= b,
        4 => a < b,
        5 => a > b,
        _ => a != b,
    }
}

/// (unit, quantity, factor to SI); exactly defined factors only
pub const UNITS: &[(&str, &str, f64)] = &[
    ("m", "len", 1.0), ("ft", "len", 0.3048), ("in", "len", 0.0254), ("cm", "len", 0.01), ("mm", "len", 0.001),
    ("km", "len", 1000.0), ("yd", "len", 0.9144), ("mi", "len", 1609.344),
    ("s", "time", 1.0), ("min", "time", 60.0), ("hr", "time", 3600.0), ("day", "time", 86400.0),
    ("kg", "mass", 1.0), ("g", "mass", 0.001), ("tonne", "mass", 1000.0),
    ("m^2", "area", 1.0), ("ft^2", "area", 0.3048 * 0.3048), ("cm^2", "area", 1e-4), ("mm^2", "area", 1e-6), ("in^2", "area", 0.0254 * 0.0254), ("km^2", "area", 1e6),
    ("m^3", "vol", 1.0), ("ft^3", "vol", 0.3048 * 0.3048 * 0.3048), ("cm^3", "vol", 1e-6), ("L", "vol", 0.001), ("ml", "vol", 1e-6), ("in^3", "vol", 0.0254 * 0.0254 * 0.0254),
    ("m/s", "vel", 1.0), ("ft/s", "vel", 0.3048), ("mi/hr", "vel", 1609.344 / 3600.0), ("km/hr", "vel", 1000.0 / 3600.0), ("cm/min", "vel", 0.01 / 60.0),
    ("N", "force", 1.0), ("kN", "force", 1000.0),
    ("J", "energy", 1.0), ("kJ", "energy", 1000.0), ("N-m", "energy", 1.0), ("kN-mm", "energy", 1.0), ("MJ", "energy", 1e6),
    ("J/s", "power", 1.0), ("kJ/hr", "power", 1000.0 / 3600.0), ("kJ/min", "power", 1000.0 / 60.0),
    ("m^3/s", "flow", 1.0), ("L/min", "flow", 0.001 / 60.0), ("ft^3/min", "flow", 0.3048 * 0.3048 * 0.3048 / 60.0),
    ("Pa", "press", 1.0), ("kPa", "press", 1000.0), ("MPa", "press", 1e6), ("bar", "press", 1e5), ("N/m^2", "press", 1.0), ("N/mm^2", "press", 1e6),
    ("N/m", "spring", 1.0), ("kN/m", "spring", 1000.0), ("N/mm", "spring", 1000.0),
];
pub fn unit_factor(from: &str, to: &str) -> Option<f64> {
    let f = UNITS.iter().find(|u| u.0 == from)?;
    let t = UNITS.iter().find(|u| u.0 == to)?;
    if f.1 != t.1 {
        return None;
    }
    Some(f.2 / t.2)
}
pub const PHYS: &[(&str, f64)] = &[
    ("g", 9.807), ("R", 8.31434), ("T_zero", 273.15), ("Po", 101.325), ("SndSpeed", 331.36), ("pi", 3.14159265359),
    ("true", 1.0), ("h_fg_water", 2441.5), ("G_sc", 1367.0), ("Vo", 22.4136), ("F", 96486700.0), ("R_inf", 10973730.0), ("gc", 6.6732e-11), ("k", 1.380622e-23),
    ("C", 299792500.0), ("C1", 374200000.0), ("C2", 14388.0), ("C3", 2897.7),
];
/// constants used as operands (moderate size)
pub const PHYS_TEXT: &[&str] = &["g", "R", "T_zero", "Po", "SndSpeed", "pi", "true", "h_fg_water", "G_sc", "Vo", "C2", "C3", "gc", "k"];
pub fn phys(name: &str) -> Option<f64> {
    PHYS.iter().find(|p| p.0 == name).map(|p| p.1)
}

pub fn eval(e: &E, env: &Env) -> Result<f64, EvErr> {
    Ok(match e {
        E::N(x) => x.0,
        E::V(s) => match (env.get)(s) {
            Some(x) => x,
            None if s == "pi" => std::f64::consts::PI,
            None if s == "e" => std::f64::consts::E,
            None => return Err(EvErr::Unbound),
        },
        E::Neg(x) => -eval(x, env)?,
        E::Par(x) => eval(x, env)?,
        E::U(a, c) => unit_factor(a, c).ok_or(EvErr::Unbound)?,
        E::P(a) => phys(a).ok_or(EvErr::Unbound)?,
        E::B(op, l, r) => {
            let x = eval(l, env)?;
            let y = eval(r, env)?;
            match op {
                '+' => x + y,
                '-' => x - y,
                '*' => x * y,
                '/' => {
                    if y == 0.0 {
                        return Err(EvErr::DivZero);
                    }
                    x / y
                }
                _ => x.powf(y),
            }
        }
        E::If(a, op, c, t, f) => {
            let a = eval(a, env)?;
            let c = eval(c, env)?;
            let t = eval(t, env)?;
            let f = eval(f, env)?;
            if cmp_op(a, *op, c) {
                t
            } else {
                f
            }
        }
        E::C(name, args) => {
            let mut x = vec![];
            for a in args {
                x.push(eval(a, env)?);
            }
            if let Some(c) = env.funcs.iter().find(|c| c.0 == name) {
                return Ok((c.2)(&x));
            }
            match name.as_str() {
                "sin" => x[0].sin(),
                "cos" => x[0].cos(),
                "tan" => x[0].tan(),
                "arcsin" => x[0].asin(),
                "arccos" => x[0].acos(),
                "arctan" => x[0].atan(),
                "sinh" => x[0].sinh(),
                "cosh" => x[0].cosh(),
                "tanh" => x[0].tanh(),
                "ln" => x[0].ln(),
                "log10" => x[0].log10(),
                "log" => x[1].log(x[0]),
                "abs" => x[0].abs(),
                _ => return Err(EvErr::Unbound),
            }
        }
    })
}

pub fn vars(e: &E, out: &mut BTreeSet<String>) {
    match e {
        E::V(s) => {
            if s != "pi" && s != "e" {
                out.insert(s.clone());
            }
        }
        E::Neg(x) | E::Par(x) => vars(x, out),
        E::B(_, l, r) => {
            vars(l, out);
            vars(r, out)
        }
        E::C(_, a) => a.iter().for_each(|x| vars(x, out)),
        E::If(a, _, c, t, f) => {
            for x in [a, c, t, f] {
                vars(x, out)
            }
        }
        _ => {}
    }
}
pub fn size(e: &E) -> usize {
    match e {
        E::Neg(x) | E::Par(x) => 1 + size(x),
        E::B(_, l, r) => 1 + size(l) + size(r),
        E::C(_, a) => 1 + a.iter().map(size).sum::<usize>(),
        E::If(a, _, c, t, f) => 1 + size(a) + size(c) + size(t) + size(f),
        _ => 1,
    }
}

pub fn lit(x: f64) -> String {
    // non-negative plain decimal
    format!("{}", x)
}

fn prec(e: &E) -> u8 {
    match e {
        E::B('+', ..) | E::B('-', ..) => 1,
        E::B('*', ..) | E::B('/', ..) => 2,
        E::Neg(_) => 3,
        E::B(..) => 4,
        E::N(x) if x.0 < 0.0 => 3,
        _ => 5,
    }
}
/// Text of the tree. `sp`: 0 = no blanks, 1 = blanks around + and -, 2 = blanks around every token.
pub fn text(e: &E, sp: u8) -> String {
    let sub = |x: &E, paren: bool| {
        let t = text(x, sp);
        if paren {
            if sp == 2 {
                format!("( {t} )")
            } else {
                format!("({t})")
            }
        } else {
            t
        }
    };
    match e {
        E::N(x) => {
            if x.0 < 0.0 {
                format!("-{}", lit(-x.0))
            } else {
                lit(x.0)
            }
        }
        E::V(s) => s.clone(),
        E::Neg(x) => {
            let t = sub(x, prec(x) <= 2);
            if sp == 2 {
                format!("- {t}")
            } else {
                format!("-{t}")
            }
        }
        E::Par(x) => sub(x, true),
        E::U(a, c) => format!("[{a}->{c}]"),
        E::P(a) => format!("#{a}"),
        E::B(op, l, r) => {
            let (lp, rp) = match op {
                '+' | '-' => (false, matches!(**r, E::B('+', ..) | E::B('-', ..))),
                '*' | '/' => (prec(l) < 2, prec(r) <= 2),
                _ => (prec(l) <= 4, prec(r) <= 2),
            };
            let lt = sub(l, lp);
            let rt = sub(r, rp);
            let blank = sp == 2 || (sp == 1 && (*op == '+' || *op == '-'));
            if blank {
                format!("{lt} {op} {rt}")
            } else {
                format!("{lt}{op}{rt}")
            }
        }
        E::C(f, a) => {
            let args: Vec<String> = a.iter().map(|x| text(x, sp)).collect();
            format!("{f}({})", args.join(if sp == 0 { "," } else { ", " }))
        }
        E::If(a, op, c, t, f) => {
            let j = if sp == 0 { "," } else { ", " };
            format!("if({}{j}{op}{j}{}{j}{}{j}{})", text(a, sp), text(c, sp), text(t, sp), text(f, sp))
        }
    }
}

pub struct GenOpts<'a> {
    pub vars: &'a [String],
    pub funcs: &'a [(&'a str, usize)],
    pub allow_if: bool,
    pub allow_div: bool,
    pub allow_pow: bool,
    pub text_consts: bool,
}
pub const UNARY_FUNCS: &[(&str, usize)] = &[
    ("sin", 1), ("cos", 1), ("tan", 1), ("arcsin", 1), ("arccos", 1), ("arctan", 1), ("sinh", 1), ("cosh", 1), ("tanh", 1),
    ("ln", 1), ("log10", 1), ("log", 2), ("abs", 1),
];
pub const SMOOTH_FUNCS: &[(&str, usize)] = &[("sin", 1), ("cos", 1), ("arctan", 1), ("tanh", 1), ("abs", 1), ("sin", 1)];

pub fn gen_num(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => r.range(0, 3) as f64,
        1 => r.range(1, 99) as f64 / 10.0,
        2 => r.range(1, 999) as f64 / 100.0,
        _ => r.range(1, 12) as f64,
    }
}
pub fn gen_expr(r: &mut Rng, depth: usize, o: &GenOpts) -> E {
    if depth == 0 || r.chance(0.12) {
        return gen_leaf(r, o);
    }
    match r.below(14) {
        0..=3 => b('+', gen_expr(r, depth - 1, o), gen_expr(r, depth - 1, o)),
        4..=5 => b('-', gen_expr(r, depth - 1, o), gen_expr(r, depth - 1, o)),
        6..=7 => b('*', gen_expr(r, depth - 1, o), gen_expr(r, depth - 1, o)),
        8 => {
            if o.allow_div {
                b('/', gen_expr(r, depth - 1, o), gen_expr(r, depth - 1, o))
            } else {
                b('*', gen_expr(r, depth - 1, o), gen_expr(r, depth - 1, o))
            }
        }
        9 => {
            if o.allow_pow {
                let ex = match r.below(4) {
                    0 => gen_expr(r, depth - 1, o),
                    1 => E::Neg(Box::new(gen_leaf(r, o))),
                    _ => n(r.range(0, 3) as f64),
                };
                b('^', gen_expr(r, depth - 1, o), ex)
            } else {
                b('*', gen_expr(r, depth - 1, o), gen_leaf(r, o))
            }
        }
        10 => E::Neg(Box::new(gen_expr(r, depth - 1, o))),
        11 if o.allow_if => {
            let op = r.range(1, 6) as u8;
            E::If(
                Box::new(gen_expr(r, depth - 1, o)),
                op,
                Box::new(gen_expr(r, depth - 1, o)),
                Box::new(gen_expr(r, depth - 1, o)),
                Box::new(gen_expr(r, depth - 1, o)),
            )
        }
        12 if r.chance(0.3) => E::Par(Box::new(gen_expr(r, depth - 1, o))),
        _ => {
            if o.funcs.is_empty() {
                return gen_leaf(r, o);
            }
            let f = *r.pick(o.funcs);
            E::C(f.0.to_string(), (0..f.1).map(|_| gen_expr(r, depth - 1, o)).collect())
        }
    }
}
pub fn gen_leaf(r: &mut Rng, o: &GenOpts) -> E {
    if !o.vars.is_empty() && r.chance(0.6) {
        return v(r.pick(o.vars));
    }
    if o.text_consts && r.chance(0.2) {
        if r.chance(0.5) {
            return gen_unit(r);
        }
        return E::P(r.pick(PHYS_TEXT).to_string());
    }
    if r.chance(0.04) {
        return v(if r.chance(0.5) { "pi" } else { "e" });
    }
    n(gen_num(r))
}
pub fn gen_unit(r: &mut Rng) -> E {
    loop {
        let a = r.pick(UNITS);
        let c = r.pick(UNITS);
        if a.1 == c.1 {
            let f = a.2 / c.2;
            if (1e-4..=1e4).contains(&f) {
                return E::U(a.0.into(), c.0.into());
            }
        }
    }
}
