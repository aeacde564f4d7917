//! C07 / C08: histories of matrix operations, through the C interface and through the Rust API, each step checked
//! against textbook algebra on the values the matrices held just before it.
use crate::core::*;
use crate::expr::F;
use crate::s_ffi_geqs::leak_check;
use crate::s_text::inverse;
use crate::{bail, check, seam};
use gmatlib::ffi as g;
use gmatlib::Matrix;
use serde::{Deserialize, Serialize};
use std::ffi::{c_uint, c_void};
use std::sync::atomic::Ordering::Relaxed;

pub struct C07;
pub struct C08;

#[derive(Clone, Serialize, Deserialize)]
pub enum Op {
    New { r: usize, c: usize },
    Ident { n: usize },
    Huge { r: u32, c: u32 },
    FromVec { cols: usize, vals: Vec<F>, how: u8 },
    Fill { m: usize, vals: Vec<F>, shape: u8 },
    Set { m: usize, i: usize, j: usize, v: F },
    Get { m: usize, i: usize, j: usize },
    Swap { m: usize, a: usize, b: usize },
    RowScale { m: usize, a: usize, s: F },
    Scale { m: usize, s: F },
    RowAdd { m: usize, a: usize, b: usize },
    ScaledAdd { m: usize, a: usize, b: usize, s: F },
    Mul { a: usize, b: usize, how: u8 },
    Aug { a: usize, b: usize, how: u8 },
    Subset { m: usize, r1: usize, c1: usize, r2: usize, c2: usize },
    Trace { m: usize },
    Transpose { m: usize },
    Invert { m: usize },
    Clone { m: usize },
    Free { m: usize },
    Add { a: usize, b: usize, how: u8 },
    Sub { a: usize, b: usize, how: u8 },
    AddAssign { a: usize, b: usize },
    SubAssign { a: usize, b: usize },
    MulS { a: usize, s: F, how: u8 },
    Show { m: usize },
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub ops: Vec<Op>,
    /// element type: 0 f64, 1 f32, 2 i64, 3 i32
    pub ty: u8,
    pub hash: u64,
}

/// What the executors have in common. Err(()) is a rejected call (failure value, error, or panic where the
/// operation documents one); Err from `bail` is reserved for the simulator's own checks.
trait Be {
    type H;
    fn new(&self, r: usize, c: usize) -> Option<Self::H>;
    fn ident(&self, n: usize) -> Option<Self::H>;
    fn from_vec(&self, cols: usize, v: &[f64], how: u8) -> Option<Option<Self::H>>;
    fn set(&self, h: &mut Self::H, i: usize, j: usize, v: f64) -> bool;
    fn get(&self, h: &Self::H, i: usize, j: usize) -> Option<f64>;
    fn dims(&self, h: &Self::H) -> Option<(usize, usize)>;
    fn all(&self, h: &Self::H, r: usize, c: usize) -> Option<Vec<f64>>;
    fn swap(&self, h: &mut Self::H, a: usize, b: usize) -> bool;
    fn row_scale(&self, h: &mut Self::H, a: usize, s: f64) -> bool;
    fn scale(&self, h: &mut Self::H, s: f64) -> bool;
    fn row_add(&self, h: &mut Self::H, a: usize, b: usize) -> bool;
    fn scaled_add(&self, h: &mut Self::H, a: usize, b: usize, s: f64) -> bool;
    fn mul(&self, a: &Self::H, b: &Self::H, how: u8) -> Option<Self::H>;
    fn aug(&self, a: &Self::H, b: &Self::H, how: u8) -> Option<Self::H>;
    fn subset(&self, h: &Self::H, r1: usize, c1: usize, r2: usize, c2: usize) -> Option<Self::H>;
    fn trace(&self, h: &Self::H) -> Option<f64>;
    fn transpose(&self, h: &Self::H) -> Option<Self::H>;
    fn invert(&self, h: &mut Self::H) -> bool;
    fn clone(&self, h: &Self::H) -> Option<Self::H>;
    fn free(&self, h: Self::H);
    /// the Rust-only operations: None when this interface does not have them
    fn add(&self, _a: &Self::H, _b: &Self::H, _how: u8, _neg: bool) -> Option<Option<Self::H>> {
        None
    }
    fn add_assign(&self, _a: &mut Self::H, _b: &Self::H, _neg: bool) -> Option<bool> {
        None
    }
    fn mul_s(&self, _a: &Self::H, _s: f64, _how: u8) -> Option<Option<Self::H>> {
        None
    }
    fn show(&self, _a: &Self::H) -> Option<String> {
        None
    }
    const TOL: f64;
    const INT: bool;
    /// largest magnitude kept
    const MAX: f64;
    /// what underflow may lose
    const TINY: f64;
}

struct Ffi;
fn hp(p: *mut c_void) -> Option<*mut c_void> {
    if p.is_null() {
        None
    } else {
        Some(p)
    }
}
fn u(x: usize) -> c_uint {
    x.min(u32::MAX as usize) as c_uint
}
impl Be for Ffi {
    type H = *mut c_void;
    fn new(&self, r: usize, c: usize) -> Option<Self::H> {
        hp(g::new_double_matrix(u(r), u(c)))
    }
    fn ident(&self, n: usize) -> Option<Self::H> {
        hp(g::new_double_identity_matrix(u(n)))
    }
    fn from_vec(&self, _: usize, _: &[f64], _: u8) -> Option<Option<Self::H>> {
        None
    }
    fn set(&self, h: &mut Self::H, i: usize, j: usize, v: f64) -> bool {
        g::index_mut_double_matrix(*h, u(i), u(j), v) != 0
    }
    fn get(&self, h: &Self::H, i: usize, j: usize) -> Option<f64> {
        let x = g::index_double_matrix(*h, u(i), u(j));
        if x == f64::MIN {
            None
        } else {
            Some(x)
        }
    }
    fn dims(&self, _: &Self::H) -> Option<(usize, usize)> {
        None
    }
    fn all(&self, h: &Self::H, r: usize, c: usize) -> Option<Vec<f64>> {
        let mut v = vec![];
        for i in 0..r {
            for j in 0..c {
                v.push(self.get(h, i, j)?);
            }
        }
        // and no more than that
        if self.get(h, r, 0).is_some() || self.get(h, 0, c).is_some() {
            return None;
        }
        Some(v)
    }
    fn swap(&self, h: &mut Self::H, a: usize, b: usize) -> bool {
        g::inplace_row_swap(*h, u(a), u(b)) != 0
    }
    fn row_scale(&self, h: &mut Self::H, a: usize, s: f64) -> bool {
        g::inplace_row_scale(*h, u(a), s) != 0
    }
    fn scale(&self, h: &mut Self::H, s: f64) -> bool {
        g::inplace_scale(*h, s) != 0
    }
    fn row_add(&self, h: &mut Self::H, a: usize, b: usize) -> bool {
        g::inplace_row_add(*h, u(a), u(b)) != 0
    }
    fn scaled_add(&self, h: &mut Self::H, a: usize, b: usize, s: f64) -> bool {
        g::inplace_scaled_row_add(*h, u(a), u(b), s) != 0
    }
    fn mul(&self, a: &Self::H, b: &Self::H, _: u8) -> Option<Self::H> {
        hp(g::multiply_matrix(*a, *b))
    }
    fn aug(&self, a: &Self::H, b: &Self::H, _: u8) -> Option<Self::H> {
        hp(g::augment_with(*a, *b))
    }
    fn subset(&self, h: &Self::H, r1: usize, c1: usize, r2: usize, c2: usize) -> Option<Self::H> {
        hp(g::subset(*h, u(r1), u(c1), u(r2), u(c2)))
    }
    fn trace(&self, h: &Self::H) -> Option<f64> {
        let t = g::trace(*h);
        if t.is_nan() {
            None
        } else {
            Some(t)
        }
    }
    fn transpose(&self, h: &Self::H) -> Option<Self::H> {
        hp(g::transpose(*h))
    }
    fn invert(&self, h: &mut Self::H) -> bool {
        g::try_inplace_invert(*h) == c_uint::MAX
    }
    fn clone(&self, h: &Self::H) -> Option<Self::H> {
        hp(g::clone_double_matrix(*h))
    }
    fn free(&self, h: Self::H) {
        g::free_double_matrix(h)
    }
    const TOL: f64 = 1e-12;
    const INT: bool = false;
    const MAX: f64 = 1e60;
    const TINY: f64 = 1e-280;
}

struct Api<T>(std::marker::PhantomData<T>);
macro_rules! api {
    ($t:ty, $tol:expr, $int:expr, $max:expr) => {
        impl Be for Api<$t> {
            type H = Matrix<$t>;
            fn new(&self, r: usize, c: usize) -> Option<Self::H> {
                guard(|| Matrix::new(r, c)).ok()
            }
            fn ident(&self, n: usize) -> Option<Self::H> {
                guard(|| Matrix::new_identity(n)).ok()
            }
            fn from_vec(&self, cols: usize, v: &[f64], how: u8) -> Option<Option<Self::H>> {
                let v: Vec<$t> = v.iter().map(|x| *x as $t).collect();
                Some(match how % 3 {
                    0 => guard(|| Matrix::from_vec(cols, v)).ok().and_then(|r| r.ok()),
                    1 => guard(|| Matrix::from_row_vec(v)).ok(),
                    _ => guard(|| Matrix::from_col_vec(v)).ok(),
                })
            }
            fn set(&self, h: &mut Self::H, i: usize, j: usize, v: f64) -> bool {
                guard(|| h[(i, j)] = v as $t).is_ok()
            }
            fn get(&self, h: &Self::H, i: usize, j: usize) -> Option<f64> {
                guard(|| h[(i, j)] as f64).ok()
            }
            fn dims(&self, h: &Self::H) -> Option<(usize, usize)> {
                Some((h.get_rows(), h.get_cols()))
            }
            fn all(&self, h: &Self::H, r: usize, c: usize) -> Option<Vec<f64>> {
                let a: Vec<f64> = h.iter().map(|x| *x as f64).collect();
                if a.len() != r * c || guard(|| (0..r * c).any(|k| (h[(k / c, k % c)] as f64).to_bits() != a[k].to_bits())) != Ok(false) {
                    return None;
                }
                Some(a)
            }
            fn swap(&self, h: &mut Self::H, a: usize, b: usize) -> bool {
                guard(|| h.inplace_row_swap(a, b)).is_ok()
            }
            fn row_scale(&self, h: &mut Self::H, a: usize, s: f64) -> bool {
                guard(|| h.inplace_row_scale(a, s as $t)).is_ok()
            }
            fn scale(&self, h: &mut Self::H, s: f64) -> bool {
                guard(|| h.inplace_scale(s as $t)).is_ok()
            }
            fn row_add(&self, h: &mut Self::H, a: usize, b: usize) -> bool {
                guard(|| h.inplace_row_add(a, b)).is_ok()
            }
            fn scaled_add(&self, h: &mut Self::H, a: usize, b: usize, s: f64) -> bool {
                guard(|| h.inplace_scaled_row_add(a, b, s as $t)).is_ok()
            }
            fn mul(&self, a: &Self::H, b: &Self::H, how: u8) -> Option<Self::H> {
                match how % 5 {
                    0 => guard(|| a.multiply_matrix(b).ok()).ok().flatten(),
                    1 => guard(|| a * b).ok(),
                    2 => guard(|| a.clone() * b).ok(),
                    3 => guard(|| a * b.clone()).ok(),
                    _ => guard(|| a.clone() * b.clone()).ok(),
                }
            }
            fn aug(&self, a: &Self::H, b: &Self::H, how: u8) -> Option<Self::H> {
                match how % 2 {
                    0 => guard(|| a.augment_with(b).ok()).ok().flatten(),
                    _ => guard(|| a | b).ok(),
                }
            }
            fn subset(&self, h: &Self::H, r1: usize, c1: usize, r2: usize, c2: usize) -> Option<Self::H> {
                guard(|| h.subset(r1, c1, r2, c2)).ok()
            }
            fn trace(&self, h: &Self::H) -> Option<f64> {
                guard(|| h.trace().ok()).ok().flatten().map(|x| x as f64)
            }
            fn transpose(&self, h: &Self::H) -> Option<Self::H> {
                guard(|| h.transpose()).ok()
            }
            fn invert(&self, h: &mut Self::H) -> bool {
                guard(|| h.try_inplace_invert().is_ok()) == Ok(true)
            }
            fn clone(&self, h: &Self::H) -> Option<Self::H> {
                guard(|| h.clone()).ok()
            }
            fn free(&self, h: Self::H) {
                let v: Vec<$t> = h.into();
                drop(v)
            }
            fn add(&self, a: &Self::H, b: &Self::H, how: u8, neg: bool) -> Option<Option<Self::H>> {
                Some(match (how % 4, neg) {
                    (0, false) => guard(|| a + b).ok(),
                    (1, false) => guard(|| a.clone() + b).ok(),
                    (2, false) => guard(|| a + b.clone()).ok(),
                    (_, false) => guard(|| a.clone() + b.clone()).ok(),
                    (0, true) => guard(|| a - b).ok(),
                    (1, true) => guard(|| a.clone() - b).ok(),
                    (2, true) => guard(|| a - b.clone()).ok(),
                    (_, true) => guard(|| a.clone() - b.clone()).ok(),
                })
            }
            fn add_assign(&self, a: &mut Self::H, b: &Self::H, neg: bool) -> Option<bool> {
                Some(if neg { guard(|| *a -= b.clone()).is_ok() } else { guard(|| *a += b.clone()).is_ok() })
            }
            fn mul_s(&self, a: &Self::H, s: f64, how: u8) -> Option<Option<Self::H>> {
                Some(if how % 2 == 0 { guard(|| a * (s as $t)).ok() } else { guard(|| a.clone() * (s as $t)).ok() })
            }
            fn show(&self, a: &Self::H) -> Option<String> {
                Some(guard(|| a.to_string()).unwrap_or_else(|e| format!("panic: {e}")))
            }
            const TOL: f64 = $tol;
            const INT: bool = $int;
            const MAX: f64 = $max;
            const TINY: f64 = if $int { 0.0 } else if $tol > 1e-8 { 1e-30 } else { 1e-280 };
        }
    };
}
api!(f64, 1e-12, false, 1e60);
api!(f32, 1e-5, false, 1e15);
api!(i64, 0.0, true, 1e15);
api!(i32, 0.0, true, 1e9);

/// a value a matrix should hold, and the magnitude of what was added up to get it
type E = (f64, f64);
struct M<H> {
    h: H,
    r: usize,
    c: usize,
    v: Vec<f64>,
}

struct Drv<'a, B: Be> {
    b: B,
    ms: Vec<Option<M<B::H>>>,
    hist: Vec<String>,
    r: &'a mut Run,
    record: bool,
    failures: u64,
}
fn show_m(r: usize, c: usize, v: &[f64]) -> String {
    (0..r).map(|i| format!("{:?}", &v[i * c..(i + 1) * c])).collect::<Vec<_>>().join(" ")
}

impl<'a, B: Be> Drv<'a, B> {
    fn pick(&self, k: usize) -> Option<usize> {
        let live: Vec<usize> = (0..self.ms.len()).filter(|i| self.ms[*i].is_some()).collect();
        if live.is_empty() {
            None
        } else {
            Some(live[k % live.len()])
        }
    }
    fn hist(&self) -> String {
        let n = self.hist.len();
        self.hist[n.saturating_sub(30)..].join("\n")
    }
    /// the values of matrix k as the interface gives them back
    fn observe(&self, k: usize) -> Result<Vec<f64>, Violation> {
        let m = self.ms[k].as_ref().unwrap();
        if let Some(d) = self.b.dims(&m.h) {
            check!(d == (m.r, m.c), "shape", "{}\nmatrix {k} is {} x {}, expected {} x {}", self.hist(), d.0, d.1, m.r, m.c);
        }
        match guard(|| self.b.all(&m.h, m.r, m.c)) {
            Ok(Some(v)) => Ok(v),
            Ok(None) => bail!("shape", "{}\nthe elements of matrix {k} cannot be read back as {} x {}", self.hist(), m.r, m.c),
            Err(e) => bail!("panic", "{}\nreading matrix {k} panicked: {e}", self.hist()),
        }
    }
    /// every matrix not listed in `except` holds exactly what it held
    fn unchanged(&self, except: Option<usize>) -> Res {
        for k in 0..self.ms.len() {
            if self.ms[k].is_none() || except == Some(k) {
                continue;
            }
            let now = self.observe(k)?;
            let m = self.ms[k].as_ref().unwrap();
            check!(
                now.iter().zip(&m.v).all(|(a, b)| a == b || (a.is_nan() && b.is_nan())),
                "other-changed",
                "{}\nmatrix {k} changed from {} to {}",
                self.hist(),
                show_m(m.r, m.c, &m.v),
                show_m(m.r, m.c, &now)
            );
        }
        Ok(())
    }
    fn close(&self, got: f64, want: E) -> bool {
        !want.0.is_finite() || !want.1.is_finite() || (got - want.0).abs() <= B::TOL * want.1.max(want.0.abs()) + B::TINY
    }
    fn compare(&mut self, k: usize, want: &[E]) -> Res {
        let now = self.observe(k)?;
        let m = self.ms[k].as_ref().unwrap();
        for (i, (g, w)) in now.iter().zip(want).enumerate() {
            check!(
                self.close(*g, *w),
                "value",
                "{}\nmatrix {k} is {}\nelement ({}, {}) should be {}",
                self.hist(),
                show_m(m.r, m.c, &now),
                i / m.c,
                i % m.c,
                w.0
            );
        }
        if self.record {
            self.r.ev(format!("m{k} {}", now.iter().map(|x| fx(*x)).collect::<Vec<_>>().join(" ")));
            self.r.probe("matrix_checked");
        }
        self.ms[k].as_mut().unwrap().v = now;
        Ok(())
    }
    fn created(&mut self, h: Option<B::H>, r: usize, c: usize, want: Option<Vec<E>>, what: String) -> Res {
        self.hist.push(format!("m{} = {what}", self.ms.len()));
        match (h, want) {
            (None, None) => {
                self.reject();
                self.unchanged(None)
            }
            (None, Some(_)) => bail!("false-failure", "{}\nwas rejected", self.hist()),
            (Some(_), None) => bail!("false-success", "{}\nwas accepted", self.hist()),
            (Some(h), Some(w)) => {
                self.ms.push(Some(M { h, r, c, v: vec![0.0; r * c] }));
                let k = self.ms.len() - 1;
                self.compare(k, &w)?;
                self.unchanged(Some(k))
            }
        }
    }
    fn reject(&mut self) {
        self.failures += 1;
        if self.record {
            self.r.fault("rejected_call");
        }
    }
    fn status(&mut self, k: usize, ok: bool, want: Option<Vec<E>>, what: String) -> Res {
        self.hist.push(what);
        match want {
            Some(w) => {
                check!(ok, "false-failure", "{}\nwas rejected", self.hist());
                self.compare(k, &w)?;
                self.unchanged(Some(k))
            }
            None => {
                check!(!ok, "false-success", "{}\nwas accepted", self.hist());
                self.reject();
                self.unchanged(None)
            }
        }
    }
    fn within(&self, w: &[E]) -> bool {
        w.iter().all(|e| e.1.max(e.0.abs()) <= B::MAX)
    }
    fn op(&mut self, op: &Op) -> Res {
        let f0 = |x: f64| (x, 0.0);
        let m = |s: &Self, k: usize| -> (usize, usize, Vec<f64>) {
            let m = s.ms[k].as_ref().unwrap();
            (m.r, m.c, m.v.clone())
        };
        macro_rules! pick {
            ($k:expr) => {
                match self.pick($k) {
                    Some(k) => k,
                    None => return Ok(()),
                }
            };
        }
        macro_rules! h {
            ($k:expr) => {
                &self.ms[$k].as_ref().unwrap().h
            };
        }
        macro_rules! hm {
            ($k:expr) => {
                &mut self.ms[$k].as_mut().unwrap().h
            };
        }
        match op {
            Op::New { r, c } => {
                let h = self.b.new(*r, *c);
                self.created(h, *r, *c, Some(vec![(0.0, 0.0); r * c]), format!("new({r}, {c})"))
            }
            Op::Ident { n } => {
                let h = self.b.ident(*n);
                self.created(h, *n, *n, Some((0..n * n).map(|k| f0(if k / n == k % n { 1.0 } else { 0.0 })).collect()), format!("identity({n})"))
            }
            Op::Huge { r, c } => {
                let h = self.b.new(*r as usize, *c as usize);
                self.created(h, 0, 0, None, format!("new({r}, {c})"))
            }
            Op::FromVec { cols, vals, how } => {
                let v: Vec<f64> = vals.iter().map(|x| x.0).collect();
                let Some(h) = self.b.from_vec(*cols, &v, *how) else { return Ok(()) };
                let n = v.len();
                let (r, c, ok) = match how % 3 {
                    0 => (n / cols, *cols, n % cols == 0),
                    1 => (1, n, true),
                    _ => (n, 1, true),
                };
                self.created(h, r, c, if ok { Some(v.iter().map(|x| f0(*x)).collect()) } else { None }, format!("from_vec({how}, {cols}, {v:?})"))
            }
            Op::Fill { m: k, vals, shape } => {
                let k = pick!(*k);
                let (r, c, _) = m(self, k);
                for i in 0..r {
                    for j in 0..c {
                        let mut x = vals[(i * c + j) % vals.len()].0;
                        match shape {
                            1 if i == j => x += if x < 0.0 { -20.0 } else { 20.0 },
                            2 if (i + 1) % r == j => x += if x < 0.0 { -20.0 } else { 20.0 },
                            3 if (r - 1 - i) == j => x += 20.0,
                            // singular: an all-zero row or column, or two equal rows
                            4 if i == vals.len() % r => x = 0.0,
                            5 if j == vals.len() % c => x = 0.0,
                            6 if i == r - 1 => x = vals[j % vals.len()].0,
                            // a zero in the leading corner
                            7 if i == j && i < 2 => x = 0.0,
                            7 if (i ^ 1) == j => x += 20.0,
                            _ => {}
                        }
                        check!(self.b.set(hm!(k), i, j, x), "false-failure", "{}\nwriting element ({i}, {j}) of matrix {k} was rejected", self.hist());
                        self.ms[k].as_mut().unwrap().v[i * c + j] = x;
                    }
                }
                let w: Vec<E> = self.ms[k].as_ref().unwrap().v.iter().map(|x| f0(*x)).collect();
                self.hist.push(format!("fill m{k}"));
                self.compare(k, &w)?;
                let t = show_m(r, c, &self.ms[k].as_ref().unwrap().v);
                *self.hist.last_mut().unwrap() += &format!(" {t}");
                self.unchanged(Some(k))
            }
            Op::Set { m: k, i, j, v } => {
                let k = pick!(*k);
                let (r, c, mut x) = m(self, k);
                let ok = self.b.set(hm!(k), *i, *j, v.0);
                let want = if *i < r && *j < c {
                    x[i * c + j] = v.0;
                    Some(x.into_iter().map(f0).collect())
                } else {
                    None
                };
                self.status(k, ok, want, format!("m{k}[{i}, {j}] = {}", v.0))
            }
            Op::Get { m: k, i, j } => {
                let k = pick!(*k);
                let (r, c, x) = m(self, k);
                let got = self.b.get(h!(k), *i, *j);
                self.hist.push(format!("read m{k}[{i}, {j}]"));
                let want = if *i < r && *j < c { Some(x[i * c + j]) } else { None };
                if want.is_none() {
                    self.reject();
                }
                check!(got == want || (want.map_or(false, |w| w.is_nan()) && got.map_or(false, |g| g.is_nan())), "value", "{}\ngave {got:?}, expected {want:?}", self.hist());
                self.unchanged(None)
            }
            Op::Swap { m: k, a, b } => {
                let k = pick!(*k);
                let (r, c, x) = m(self, k);
                let want = if *a < r && *b < r {
                    Some((0..r * c).map(|q| f0(x[(if q / c == *a { *b } else if q / c == *b { *a } else { q / c }) * c + q % c])).collect())
                } else {
                    None
                };
                let ok = self.b.swap(hm!(k), *a, *b);
                self.status(k, ok, want, format!("swap rows {a}, {b} of m{k}"))
            }
            Op::RowScale { m: k, a, s } => {
                let k = pick!(*k);
                let (r, c, x) = m(self, k);
                let want: Option<Vec<E>> = if *a < r { Some((0..r * c).map(|q| if q / c == *a { (x[q] * s.0, (x[q] * s.0).abs()) } else { f0(x[q]) }).collect()) } else { None };
                if want.as_ref().map_or(false, |w| !self.within(w)) {
                    return Ok(());
                }
                let ok = self.b.row_scale(hm!(k), *a, s.0);
                self.status(k, ok, want, format!("scale row {a} of m{k} by {}", s.0))
            }
            Op::Scale { m: k, s } => {
                let k = pick!(*k);
                let (_, _, x) = m(self, k);
                let want: Vec<E> = x.iter().map(|x| (x * s.0, (x * s.0).abs())).collect();
                if !self.within(&want) {
                    return Ok(());
                }
                let ok = self.b.scale(hm!(k), s.0);
                self.status(k, ok, Some(want), format!("scale m{k} by {}", s.0))
            }
            Op::RowAdd { m: k, a, b } => {
                let k = pick!(*k);
                let (r, c, x) = m(self, k);
                let want: Option<Vec<E>> = if *a < r && *b < r {
                    Some((0..r * c).map(|q| if q / c == *a { (x[q] + x[b * c + q % c], x[q].abs() + x[b * c + q % c].abs()) } else { f0(x[q]) }).collect())
                } else {
                    None
                };
                if want.as_ref().map_or(false, |w| !self.within(w)) {
                    return Ok(());
                }
                let ok = self.b.row_add(hm!(k), *a, *b);
                self.status(k, ok, want, format!("add row {b} of m{k} to row {a}"))
            }
            Op::ScaledAdd { m: k, a, b, s } => {
                let k = pick!(*k);
                let (r, c, x) = m(self, k);
                let want: Option<Vec<E>> = if *a < r && *b < r {
                    Some(
                        (0..r * c)
                            .map(|q| {
                                let t = x[b * c + q % c] * s.0;
                                if q / c == *a {
                                    (x[q] + t, x[q].abs() + t.abs())
                                } else {
                                    f0(x[q])
                                }
                            })
                            .collect(),
                    )
                } else {
                    None
                };
                if want.as_ref().map_or(false, |w| !self.within(w)) {
                    return Ok(());
                }
                let ok = self.b.scaled_add(hm!(k), *a, *b, s.0);
                self.status(k, ok, want, format!("add {} times row {b} of m{k} to row {a}", s.0))
            }
            Op::Mul { a, b, how } => {
                let (ka, kb) = (pick!(*a), pick!(*b));
                let ((ra, ca, xa), (rb, cb, xb)) = (m(self, ka), m(self, kb));
                let want: Option<Vec<E>> = if ca == rb {
                    Some(
                        (0..ra * cb)
                            .map(|q| {
                                let (i, j) = (q / cb, q % cb);
                                let t: Vec<f64> = (0..ca).map(|k| xa[i * ca + k] * xb[k * cb + j]).collect();
                                (t.iter().sum(), t.iter().map(|x| x.abs()).sum())
                            })
                            .collect(),
                    )
                } else {
                    None
                };
                if want.as_ref().map_or(false, |w| !self.within(w)) {
                    return Ok(());
                }
                let h = self.b.mul(h!(ka), h!(kb), *how);
                self.created(h, ra, cb, want, format!("m{ka} * m{kb} ({how})"))
            }
            Op::Aug { a, b, how } => {
                let (ka, kb) = (pick!(*a), pick!(*b));
                let ((ra, ca, xa), (rb, cb, xb)) = (m(self, ka), m(self, kb));
                let c = ca + cb;
                let want: Option<Vec<E>> = if ra == rb { Some((0..ra * c).map(|q| f0(if q % c < ca { xa[q / c * ca + q % c] } else { xb[q / c * cb + q % c - ca] })).collect()) } else { None };
                let h = self.b.aug(h!(ka), h!(kb), *how);
                self.created(h, ra, c, want, format!("m{ka} | m{kb}"))
            }
            Op::Subset { m: k, r1, c1, r2, c2 } => {
                let k = pick!(*k);
                let (r, c, x) = m(self, k);
                let (nr, nc) = (r2 - r1 + 1, c2 - c1 + 1);
                let want: Option<Vec<E>> = if *r2 < r && *c2 < c { Some((0..nr * nc).map(|q| f0(x[(r1 + q / nc) * c + c1 + q % nc])).collect()) } else { None };
                let h = self.b.subset(h!(k), *r1, *c1, *r2, *c2);
                self.created(h, nr, nc, want, format!("subset of m{k} ({r1}, {c1}) to ({r2}, {c2})"))
            }
            Op::Trace { m: k } => {
                let k = pick!(*k);
                let (r, c, x) = m(self, k);
                let got = self.b.trace(h!(k));
                self.hist.push(format!("trace of m{k}"));
                if r != c {
                    self.reject();
                    check!(got.is_none(), "false-success", "{}\ngave {got:?} for a {r} x {c} matrix", self.hist());
                } else {
                    let w: f64 = (0..r).map(|i| x[i * c + i]).sum();
                    let s: f64 = (0..r).map(|i| x[i * c + i].abs()).sum();
                    if s <= B::MAX {
                        check!(got.map_or(false, |g| self.close(g, (w, s))), "value", "{}\ngave {got:?}, expected {w}", self.hist());
                    }
                }
                self.unchanged(None)
            }
            Op::Transpose { m: k } => {
                let k = pick!(*k);
                let (r, c, x) = m(self, k);
                let h = self.b.transpose(h!(k));
                self.created(h, c, r, Some((0..r * c).map(|q| f0(x[q % r * c + q / r])).collect()), format!("transpose of m{k}"))
            }
            Op::Invert { m: k } => {
                let k = pick!(*k);
                let (r, c, x) = m(self, k);
                if B::INT && r == c {
                    return Ok(());
                }
                let ok = self.b.invert(hm!(k));
                self.hist.push(format!("invert m{k}"));
                if r != c {
                    check!(!ok, "false-success", "{}\nof a {r} x {c} matrix was accepted", self.hist());
                    self.reject();
                    return self.unchanged(None);
                }
                let a: Vec<Vec<f64>> = (0..r).map(|i| x[i * c..(i + 1) * c].to_vec()).collect();
                let zero_row = a.iter().any(|r| r.iter().all(|x| *x == 0.0));
                let zero_col = (0..c).any(|j| (0..r).all(|i| a[i][j] == 0.0));
                let same = (0..r).any(|i| (0..i).any(|j| a[i] == a[j]));
                // whole numbers small enough for every product in the determinant to be exact in either float type
                let exact = r <= 4 && x.iter().all(|v| v.fract() == 0.0 && v.abs() <= 40.0) && int_det(&a) == 0;
                let tame = x.iter().all(|v| v.abs() < 1e8 && (*v == 0.0 || v.abs() > 1e-4));
                // equal rows cancel exactly only while the determinant's products are exact, or by elimination
                let same = same && (r >= 5 || x.iter().all(|v| v.fract() == 0.0 && v.abs() <= 40.0));
                let singular = tame && (zero_row || zero_col || same || exact);
                if singular {
                    check!(!ok, "false-success", "{}\nof the singular matrix {} was accepted", self.hist(), show_m(r, c, &x));
                    if self.record {
                        self.r.fault("singular_matrix");
                    }
                }
                let inv = if tame && !singular { inverse(&a) } else { None };
                let norm = |x: &[Vec<f64>]| x.iter().map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(0.0, f64::max);
                let cond = inv.as_ref().map_or(f64::INFINITY, |i| norm(i) * norm(&a));
                let lim = if B::TOL > 1e-8 { 1e2 } else { 1e4 };
                if !ok {
                    check!(!(cond < lim), "false-failure", "{}\nof {} (condition {cond}) was rejected", self.hist(), show_m(r, c, &x));
                    self.reject();
                    let now = self.observe(k)?;
                    self.ms[k].as_mut().unwrap().v = now;
                    return self.unchanged(Some(k));
                }
                if cond < lim {
                    let i = inv.unwrap();
                    let s = norm(&i);
                    if self.record {
                        self.r.probe(&format!("inverse_checked_{}", r.min(5)));
                    }
                    let want: Vec<E> = (0..r * c).map(|q| (i[q / c][q % c], s * cond.powi(if r <= 4 { 3 } else { 1 }).min(1e9 * if B::TOL > 1e-8 { 1e-5 } else { 1.0 }).max(10.0))).collect();
                    self.compare(k, &want)?;
                } else {
                    let now = self.observe(k)?;
                    self.ms[k].as_mut().unwrap().v = now;
                }
                self.unchanged(Some(k))
            }
            Op::Clone { m: k } => {
                let k = pick!(*k);
                let (r, c, x) = m(self, k);
                let h = self.b.clone(h!(k));
                self.created(h, r, c, Some(x.into_iter().map(f0).collect()), format!("clone of m{k}"))
            }
            Op::Free { m: k } => {
                let k = pick!(*k);
                self.hist.push(format!("free m{k}"));
                let m = self.ms[k].take().unwrap();
                self.b.free(m.h);
                self.unchanged(None)
            }
            Op::Add { a, b, how } | Op::Sub { a, b, how } => {
                let neg = matches!(op, Op::Sub { .. });
                let (ka, kb) = (pick!(*a), pick!(*b));
                let ((ra, ca, xa), (rb, cb, xb)) = (m(self, ka), m(self, kb));
                let s = if neg { -1.0 } else { 1.0 };
                let want: Option<Vec<E>> = if (ra, ca) == (rb, cb) { Some(xa.iter().zip(&xb).map(|(a, b)| (a + s * b, a.abs() + b.abs())).collect()) } else { None };
                if want.as_ref().map_or(false, |w| !self.within(w)) {
                    return Ok(());
                }
                let Some(h) = self.b.add(h!(ka), h!(kb), *how, neg) else { return Ok(()) };
                self.created(h, ra, ca, want, format!("m{ka} {} m{kb} ({how})", if neg { '-' } else { '+' }))
            }
            Op::AddAssign { a, b } | Op::SubAssign { a, b } => {
                let neg = matches!(op, Op::SubAssign { .. });
                let (ka, kb) = (pick!(*a), pick!(*b));
                let ((ra, ca, xa), (rb, cb, xb)) = (m(self, ka), m(self, kb));
                let s = if neg { -1.0 } else { 1.0 };
                let want: Option<Vec<E>> = if (ra, ca) == (rb, cb) { Some(xa.iter().zip(&xb).map(|(a, b)| (a + s * b, a.abs() + b.abs())).collect()) } else { None };
                if want.as_ref().map_or(false, |w| !self.within(w)) {
                    return Ok(());
                }
                let Some(other) = self.b.clone(h!(kb)) else { bail!("panic", "{}\ncloning m{kb} failed", self.hist()) };
                let ok = self.b.add_assign(hm!(ka), &other, neg);
                self.b.free(other);
                let Some(ok) = ok else { return Ok(()) };
                self.status(ka, ok, want, format!("m{ka} {}= m{kb}", if neg { '-' } else { '+' }))
            }
            Op::MulS { a, s, how } => {
                let k = pick!(*a);
                let (r, c, x) = m(self, k);
                let want: Vec<E> = x.iter().map(|x| (x * s.0, (x * s.0).abs())).collect();
                if !self.within(&want) {
                    return Ok(());
                }
                let Some(h) = self.b.mul_s(h!(k), s.0, *how) else { return Ok(()) };
                self.created(h, r, c, Some(want), format!("m{k} * {}", s.0))
            }
            Op::Show { m: k } => {
                let k = pick!(*k);
                let (r, c, x) = m(self, k);
                let Some(t) = self.b.show(h!(k)) else { return Ok(()) };
                self.hist.push(format!("print m{k}"));
                let rows: Option<Vec<Vec<f64>>> = t
                    .strip_prefix('[')
                    .and_then(|t| t.strip_suffix(']'))
                    .and_then(|t| t.split(';').map(|r| r.split(',').map(|x| x.trim().parse::<f64>().ok()).collect()).collect());
                let good = rows.as_ref().map_or(false, |g| {
                    g.len() == r && (0..r).all(|i| g[i].len() == c && (0..c).all(|j| (g[i][j] - x[i * c + j]).abs() <= 1e-6 * (1.0 + x[i * c + j].abs()) || !x[i * c + j].is_finite()))
                });
                check!(good, "text", "{}\nshows {t:?} for {}", self.hist(), show_m(r, c, &x));
                self.unchanged(None)
            }
        }
    }
}
fn int_det(a: &[Vec<f64>]) -> i128 {
    let n = a.len();
    if n == 1 {
        return a[0][0] as i128;
    }
    (0..n)
        .map(|j| {
            let m: Vec<Vec<f64>> = (1..n).map(|i| (0..n).filter(|k| *k != j).map(|k| a[i][k]).collect()).collect();
            (if j % 2 == 0 { 1 } else { -1 }) * a[0][j] as i128 * int_det(&m)
        })
        .sum()
}

fn execute<B: Be>(b: B, p: &Plan, r: &mut Run, record: bool, mem: bool) -> Res {
    let mut d = Drv { b, ms: vec![], hist: vec![], r, record, failures: 0};
    let mut out = Ok(());
    for op in &p.ops {
        out = d.op(op);
        if out.is_err() {
            break;
        }
        let mf = seam::MEM_FAULT.load(Relaxed);
        if mem && mf != 0 {
            bail!("memory", "{}\nthe allocator ledger saw {}", d.hist(), ["", "a double free", "a free of a block it never gave out", "a free with another layout", "a write to a freed block"][mf as usize]);
        }
    }
    if record {
        d.r.nontrivial = d.failures > 0 && d.hist.len() >= 5;
    }
    if out.is_ok() {
        let Drv { b, ms, .. } = d;
        for m in ms.into_iter().flatten() {
            b.free(m.h);
        }
        let mf = seam::MEM_FAULT.load(Relaxed);
        if mem && mf != 0 {
            bail!("memory", "releasing the matrices that were left: the allocator ledger saw fault {mf}");
        }
    }
    out
}

fn gen(r: &mut Rng, ffi: bool, thorough: bool) -> Plan {
    let ty = if ffi { 0 } else { *r.pick(&[0, 0, 0, 1, 2, 2, 3]) };
    let int = ty >= 2;
    let big = r.chance(0.25);
    let cap = if r.chance(0.03) { 10 + r.below(15) } else if big { 9 } else { 5 };
    let dim = |r: &mut Rng| 1 + r.below(cap);
    // mostly one size, so that operations fit together
    let base = dim(r);
    let dim = |r: &mut Rng| if r.chance(0.6) { base } else { 1 + r.below(cap) };
    let num = |r: &mut Rng| F(if int || r.chance(0.6) { r.range(-9, 9) as f64 } else { r.range(-400, 400) as f64 / 8.0 });
    let scal = |r: &mut Rng| F(if int { r.range(-3, 3) as f64 } else { *r.pick(&[2.0, -1.0, 0.5, 3.0, -0.25, 0.0, 1.0, 10.0, 1.5]) });
    let mut ops = vec![];
    // now and then a matrix with more rows than a byte counts
    let tall = if r.chance(0.003) { 257 + r.below(30) } else { 0 };
    if tall > 0 {
        let wide = r.chance(0.3);
        let few = 1 + r.below(2);
        ops.push(if wide { Op::New { r: few, c: tall } } else { Op::New { r: tall, c: few } });
        ops.push(Op::Fill { m: 0, vals: (0..(7 + r.below(90))).map(|_| num(r)).collect(), shape: 0 });
    }
    let n = 6 + r.below(if thorough { 60 } else { 30 });
    for _ in 0..2 {
        ops.push(Op::New { r: dim(r), c: dim(r) });
        ops.push(Op::Fill { m: ops.len(), vals: (0..(7 + r.below(90))).map(|_| num(r)).collect(), shape: r.below(9) as u8 });
    }
    for _ in 0..n {
        let (a, b) = (r.below(8), r.below(8));
        let how = r.below(20) as u8;
        // mostly inside, sometimes one past the end or far outside
        let ix = |r: &mut Rng| match r.below(10) {
            0 => base,
            // also far outside, where a narrower count would come around
            1 => {
                let k = r.below(base);
                *r.pick(&[base + 1, base + 3, 1000, 256 + k, 65536 + k, (1 << 31) + k, u32::MAX as usize])
            }
            2..=6 if tall > 0 => r.below(tall),
            _ => r.below(base),
        };
        ops.push(match r.below(27) {
            0 => Op::New { r: dim(r), c: dim(r) },
            1 => Op::Ident { n: dim(r) },
            2 if ffi && r.chance(0.3) => Op::Huge { r: u32::MAX, c: u32::MAX - r.below(3) as u32 },
            2 => Op::FromVec { cols: 1 + r.below(5), vals: (0..1 + r.below(14)).map(|_| num(r)).collect(), how },
            3..=5 => Op::Fill { m: a, vals: (0..(7 + r.below(90))).map(|_| num(r)).collect(), shape: r.below(9) as u8 },
            6 => Op::Set { m: a, i: ix(r), j: ix(r), v: num(r) },
            7 => Op::Get { m: a, i: ix(r), j: ix(r) },
            8 => Op::Swap { m: a, a: ix(r), b: ix(r) },
            9 => Op::RowScale { m: a, a: ix(r), s: scal(r) },
            10 => Op::Scale { m: a, s: scal(r) },
            11 => Op::RowAdd { m: a, a: ix(r), b: ix(r) },
            12 => Op::ScaledAdd { m: a, a: ix(r), b: ix(r), s: scal(r) },
            13 | 14 => Op::Mul { a, b, how },
            15 => Op::Aug { a, b, how },
            16 => {
                let (r1, c1) = (if tall > 0 && r.chance(0.6) { r.below(tall) } else { r.below(base) }, r.below(base));
                let e = |r: &mut Rng, a: usize| if r.chance(0.15) { a + r.below(4) } else { a + r.below(base.max(a + 1) - a) };
                let (r2, c2) = (e(r, r1), e(r, c1));
                // far outside, where a narrower count would come around
                match r.below(if tall > 0 { 100 } else { 25 }) {
                    0 => Op::Subset { m: a, r1, c1, r2: r2 + 256, c2 },
                    1 => Op::Subset { m: a, r1, c1, r2, c2: c2 + 256 },
                    2 => Op::Subset { m: a, r1: r1 + 256, c1, r2: r2 + 256, c2 },
                    _ => Op::Subset { m: a, r1, c1, r2, c2 },
                }
            }
            17 => Op::Trace { m: a },
            18 => Op::Transpose { m: a },
            19 | 20 => Op::Invert { m: a },
            21 => Op::Clone { m: a },
            22 => {
                if r.chance(0.6) {
                    Op::Free { m: a }
                } else {
                    Op::Show { m: a }
                }
            }
            23 if !ffi => Op::Add { a, b, how },
            24 if !ffi => Op::Sub { a, b, how },
            25 if !ffi => {
                if r.chance(0.5) {
                    Op::AddAssign { a, b }
                } else {
                    Op::SubAssign { a, b }
                }
            }
            26 if !ffi => Op::MulS { a, s: scal(r), how },
            _ => Op::Free { m: a },
        });
        if r.chance(0.1) {
            ops.push(Op::Invert { m: r.below(8) });
        }
    }
    Plan { ops, ty, hash: r.u64() >> 16 }
}
fn valid(p: &Plan) -> bool {
    let mut elems = 0usize;
    for op in &p.ops {
        let ok = match op {
            Op::New { r, c } => {
                elems += 1;
                *r >= 1 && *c >= 1 && *r <= 300 && *c <= 300 && *r * *c <= 900
            }
            Op::Ident { n } => *n >= 1 && *n <= 30,
            // never a size that would really be allocated
            Op::Huge { r, c } => *r > u32::MAX - 10 && *c > u32::MAX - 10,
            Op::FromVec { cols, vals, .. } => *cols >= 1 && !vals.is_empty() && vals.iter().all(|x| x.0.is_finite()),
            Op::Fill { vals, .. } => !vals.is_empty() && vals.iter().all(|x| x.0.is_finite()),
            Op::Set { v, .. } => v.0.is_finite() && v.0.abs() < 1e9,
            Op::RowScale { s, .. } | Op::Scale { s, .. } | Op::ScaledAdd { s, .. } | Op::MulS { s, .. } => s.0.is_finite(),
            Op::Subset { r1, c1, r2, c2, .. } => r1 <= r2 && c1 <= c2 && *r2 < 1000 && *c2 < 1000,
            _ => true,
        };
        if !ok {
            return false;
        }
        if p.ty >= 2 {
            let whole = match op {
                Op::FromVec { vals, .. } | Op::Fill { vals, .. } => vals.iter().all(|x| x.0.fract() == 0.0),
                Op::Set { v: s, .. } | Op::RowScale { s, .. } | Op::Scale { s, .. } | Op::ScaledAdd { s, .. } | Op::MulS { s, .. } => s.0.fract() == 0.0,
                _ => true,
            };
            if !whole {
                return false;
            }
        }
    }
    elems < 1000
}

impl Scenario for C07 {
    type Plan = Plan;
    fn meta(&self) -> Meta {
        Meta {
            id: "C07",
            rule: "one run = a history of 10-70 calls through the matrix C interface over a growing set of matrices (sizes 1-9), with mismatched sizes, out-of-range indices, singular and unallocatable requests mixed in, executed 3 times on an allocator that records liveness, poisons and quarantines freed blocks; every matrix is read back after every call; counted when at least one call was rejected; distinct by trace hash",
            real: "gmatlib::ffi and everything below it, built from /repo with edge instrumentation",
            stub: "the process allocator is the simulator's ledger; the model of every handle's contents is the simulator's",
            assumptions: &["callers keep the documented contract (no null, freed or foreign handles, at least one row and column)", "allocation failure is not injected: Rust aborts the process on it by design; sizes beyond the address space are requested instead"],
            quick_runs: 60000,
            thorough_runs: 1_200_000,
            chunk: 1000,
            step_limit: 20_000_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _: u64, thorough: bool) -> Plan {
        gen(r, true, thorough)
    }
    fn run(&self, p: &Plan, r: &mut Run) -> Res {
        if !valid(p) {
            return Ok(());
        }
        seam::set_hash_seed(p.hash);
        seam::QUARANTINE.store(true, Relaxed);
        let mut first = true;
        let grown = leak_check(|| {
            let rec = std::mem::replace(&mut first, false);
            execute(Ffi, p, r, rec, true)
        })?;
        seam::QUARANTINE.store(false, Relaxed);
        seam::quarantine_flush();
        let mf = seam::MEM_FAULT.load(Relaxed);
        check!(mf == 0, "memory", "a freed block was written to");
        if let Some((blocks, bytes)) = grown {
            bail!("leak", "every repetition of the history leaves {blocks} more blocks ({bytes} bytes) although every matrix was freed");
        }
        Ok(())
    }
}
impl Scenario for C08 {
    type Plan = Plan;
    fn meta(&self) -> Meta {
        Meta {
            id: "C08",
            rule: "one run = a history of 10-70 operations of the Rust matrix API over a growing set of f64, f32, i64 or i32 matrices (sizes 1-9), rejected operations and singular inversions mixed in; after every operation every live matrix is read back and compared with textbook algebra applied to the values held just before; counted when at least one operation was rejected; distinct by trace hash",
            real: "the gmatlib crate, built from /repo with edge instrumentation",
            stub: "the textbook algebra and reference inverse are the simulator's",
            assumptions: &["matrices have at least one row and column", "exactly singular means a zero row or column, two equal rows, or a whole-number determinant of zero up to 4 x 4", "well conditioned means a condition number below 1e4 (1e2 for f32) and elements between 1e-4 and 1e8"],
            quick_runs: 300000,
            thorough_runs: 2_500_000,
            chunk: 1500,
            step_limit: 20_000_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _: u64, thorough: bool) -> Plan {
        gen(r, false, thorough)
    }
    fn run(&self, p: &Plan, r: &mut Run) -> Res {
        if !valid(p) {
            return Ok(());
        }
        seam::set_hash_seed(p.hash);
        match p.ty {
            0 => execute(Api::<f64>(std::marker::PhantomData), p, r, true, false),
            1 => execute(Api::<f32>(std::marker::PhantomData), p, r, true, false),
            2 => execute(Api::<i64>(std::marker::PhantomData), p, r, true, false),
            _ => execute(Api::<i32>(std::marker::PhantomData), p, r, true, false),
        }
    }
}
