//! C11 (consistency), C12 (completeness, repeatability), C13 (custom elements, faults), C14 (saved models).
use crate::core::*;
use crate::expr::F;
use crate::net::*;
use crate::{bail, check, seam};
use neapolitan::modelling::{GenericElement, GenericNode, NodalAnalysisModel};
use neapolitan::{get_node_potential, is_locked, lock_node, set_node_potential, Matrix, NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::{Rc, Weak};
use std::str::FromStr;

pub struct C11;
pub struct C12;
pub struct C13;
pub struct C14;

#[derive(Clone, Serialize, Deserialize)]
pub struct NetPlan {
    pub net: Net,
    pub margin: F,
    pub limit: usize,
    /// (node numbering seed, element order seed)
    pub variants: Vec<(u64, u64)>,
    /// further nodes, fixed and connected to nothing
    #[serde(default)]
    pub pad: usize,
    pub hash: u64,
}

/// Ok(Ok) result, Ok(Err) the study's error, Err panic
type Studied = Result<Result<Out, String>, String>;
fn study(net: &Net, margin: f64, limit: usize) -> Result<Studied, Violation> {
    let got = guard(|| net.build(None).and_then(|b| b.run_study(margin, limit)).map(|r| serde_json::to_value(r).unwrap_or(Value::Null)).map_err(|e| e.to_string()));
    Ok(match got {
        Err(p) => Err(p),
        Ok(Err(e)) => Ok(Err(e)),
        Ok(Ok(v)) => Ok(Ok(parse_result(net, &v)?)),
    })
}
fn back(net: &Net, o: &Out, np: &[usize], ep: &[usize]) -> Out {
    let mut b = Out { v: vec![vec![]; net.nodes], flux: vec![vec![]; net.elems.len()] };
    for (i, k) in np.iter().enumerate() {
        b.v[i] = o.v[*k].clone();
    }
    for (k, i) in ep.iter().enumerate() {
        b.flux[*i] = o.flux[k].clone();
    }
    b
}
fn seeds(r: &mut Rng, k: usize) -> Vec<(u64, u64)> {
    (0..k).map(|i| if i == 0 { (0, 0) } else { (if r.chance(0.3) { 0 } else { r.u64() >> 16 }, if r.chance(0.3) { 0 } else { r.u64() >> 16 }) }).collect()
}
fn ev_out(r: &mut Run, o: &Out) {
    r.ev(format!("{:?}", o.v.iter().flatten().chain(o.flux.iter().flatten()).map(|x| fx(*x)).collect::<Vec<_>>()));
}

impl Scenario for C11 {
    type Plan = NetPlan;
    fn meta(&self) -> Meta {
        Meta {
            id: "C11",
            rule: "one run = one circuit or heat-transfer network (well-posed, floating, conflicting, degenerate or cut short), studied under 2-3 node numberings, element orders and hash orders; counted when a study succeeded on a network with a node to solve for; distinct by trace hash",
            real: "neapolitan (builder, study, elements, flux laws), geqslib's Newton solver and gmatlib, built from /repo with edge instrumentation",
            stub: "hash seeds come from the run seed; the flux laws and balances are recomputed by the simulator from the reported potentials",
            assumptions: &["sources that close a loop are excluded (a loop of sources has no defined behaviour)", "a fixed potential node is exempt from balance"],
            quick_runs: 120000,
            thorough_runs: 600000,
            chunk: 500,
            step_limit: 4_000_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> NetPlan {
        let max = if r.chance(0.1) { if thorough { 24 } else { 14 } } else { 7 };
        let mut net = { let gn = GenNet { heat: r.chance(0.5), dim: 1, max_nodes: max, custom: false, grounded: r.chance(0.8) }; gen_net(r, &gn) };
        // degenerate elements and conflicting sources
        if r.chance(0.06) && !net.elems.is_empty() {
            let k = r.below(net.elems.len());
            let e = &mut net.elems[k];
            if e.kind != SRC {
                e.g[0] = F(*r.pick(&[0.0, -3.0, 1e-9, 1e9, 1e300]));
            }
        }
        if r.chance(0.08) && net.nodes > 1 {
            let (a, b) = (r.below(net.nodes), r.below(net.nodes));
            net.elems.push(El { kind: SRC, a, b, g: vec![F(r.dec(-9, 9))] });
        }
        let k = 2 + r.below(2);
        NetPlan {
            net,
            margin: F(*r.pick(&[1e-4, 1e-4, 1e-4, 1e-6, 1e-2, 0.3, 10.0])),
            limit: if r.chance(0.15) { r.below(4) } else { 100 },
            variants: seeds(r, k),
            pad: 0,
            hash: r.u64() >> 16,
        }
    }
    fn run(&self, p: &NetPlan, r: &mut Run) -> Res {
        if !p.net.sane() || !(p.margin.0 > 0.0) || p.limit > 300 {
            return Ok(());
        }
        seam::set_hash_seed(p.hash);
        for (ns, es) in &p.variants {
            let (net, _, _) = p.net.permuted(*ns, *es);
            let src = net.sources();
            if src == Sources::Loop {
                return Ok(());
            }
            r.fault("hash_seed");
            if *ns != 0 || *es != 0 {
                r.fault("permutation");
            }
            match study(&net, p.margin.0, p.limit)? {
                Ok(Ok(o)) => {
                    ev_out(r, &o);
                    r.probe("solved");
                    if net.fixed().len() < net.nodes {
                        r.nontrivial = true;
                    }
                    if let Sources::Conflict(i) = src {
                        bail!("conflict", "{}\nsolved although element {i} connects two held nodes", net.describe());
                    }
                    consistent(&net, &o, p.margin.0)?;
                    if net.elems.iter().any(|e| e.is_source()) {
                        r.probe("solved_with_source");
                    }
                }
                Ok(Err(e)) => {
                    r.ev(format!("err {}", e.chars().take(40).collect::<String>()));
                    r.fault(match src {
                        Sources::Conflict(_) => "conflicting_source",
                        _ if p.limit < 4 => "iteration_limit",
                        _ if !net.grounded() => "floating_node",
                        _ => "failing_study",
                    });
                }
                Err(_) => {
                    r.ev("panic");
                    r.probe("panic");
                }
            }
        }
        Ok(())
    }
}

impl Scenario for C12 {
    type Plan = NetPlan;
    fn meta(&self) -> Meta {
        Meta {
            id: "C12",
            rule: "one run = one well-posed network of 1-200 nodes (sometimes among 200-65700 further fixed nodes), studied under 3-5 node numberings, element orders and hash orders with the default margin and limit (or a finer margin), each result compared with an independent solution of the network equations; counted when compared; distinct by trace hash",
            real: "neapolitan (builder, study, elements, flux laws), geqslib's Newton solver and gmatlib, built from /repo with edge instrumentation",
            stub: "hash seeds come from the run seed; the reference solution (modified nodal analysis, own elimination) is the simulator's",
            assumptions: &["networks whose equations are ill-conditioned (estimate above 1e5) are not compared", "each source, in listed order, finds an end that is not already held"],
            quick_runs: 60000,
            thorough_runs: 400000,
            chunk: 300,
            step_limit: 20_000_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> NetPlan {
        let max = match r.below(1000) {
            0 => 40 + r.below(if thorough { 160 } else { 70 }),
            1..=50 => {
                if thorough {
                    40
                } else {
                    25
                }
            }
            _ => 9,
        };
        let net = { let gn = GenNet { heat: r.chance(0.5), dim: 1, max_nodes: max, custom: false, grounded: true }; gen_net(r, &gn) };
        let k = if max > 40 { 2 } else { 3 + r.below(3) };
        let pad = match r.below(2000) {
            0 => 65_500 + r.below(200),
            1..=20 => 200 + r.below(800),
            _ => 0,
        };
        NetPlan { net, pad, margin: F(*r.pick(&[1e-4, 1e-4, 1e-4, 1e-5, 1e-6])), limit: 100, variants: seeds(r, k), hash: r.u64() >> 16 }
    }
    fn run(&self, p: &NetPlan, r: &mut Run) -> Res {
        if !p.net.sane() || !p.net.grounded() || !(1e-7..=1e-3).contains(&p.margin.0) || p.limit < 100 {
            return Ok(());
        }
        if p.net.elems.iter().any(|e| !e.is_source() && e.kind != CUR && e.linear(p.net.heat, 1).is_none_or(|(g, _)| !(g[0][0] > 1e-6 && g[0][0] < 1e7))) {
            return Ok(());
        }
        if p.net.nodes > 400 || p.pad > 69_000 {
            return Ok(());
        }
        let base = p.net.expanded(p.pad);
        let Some(want) = base.reference() else { return Ok(()) };
        if want.cond > 1e5 || want.v.iter().flatten().any(|v| v.abs() > 1e6) {
            r.probe("ill_conditioned");
            return Ok(());
        }
        seam::set_hash_seed(p.hash);
        for (ns, es) in &p.variants {
            // the padding only matters when it comes in between
            let (net, np, ep) = base.permuted(if p.pad > 0 { ns.wrapping_add(1).max(1) } else { *ns }, *es);
            match net.sources() {
                Sources::Loop => return Ok(()),
                Sources::Conflict(_) => {
                    r.probe("order_conflict");
                    continue;
                }
                _ => {}
            }
            r.fault("hash_seed");
            r.fault("permutation");
            match study(&net, p.margin.0, p.limit)? {
                Ok(Ok(o)) => {
                    ev_out(r, &o);
                    agrees(&base, &back(&base, &o, &np, &ep), &want, p.margin.0)?;
                    r.nontrivial = true;
                    r.probe(if net.nodes > 10 { "solved_large" } else { "solved" });
                    if net.nodes > 256 {
                        r.probe("solved_huge");
                    }
                    if net.fixed().len() == net.nodes {
                        r.probe("all_fixed");
                    }
                }
                Ok(Err(e)) => bail!("unsolved", "{}\nmargin {:e}, limit {}: failed: {e}; the solution is {:?}", net.describe(), p.margin.0, p.limit, want.v),
                Err(e) => bail!("panic", "{}\npanicked: {e}", net.describe()),
            }
        }
        Ok(())
    }
}

// ---- C13 ----------------------------------------------------------------------------------------
#[derive(Debug)]
struct Boom(u64);
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "custom element failure {}", self.0)
    }
}
impl std::error::Error for Boom {}
#[derive(Clone, Copy, PartialEq, Serialize, Deserialize, Debug)]
pub enum Fault {
    None,
    /// the k-th constructor call fails
    Ctor(u64),
    /// the flux evaluation at this fraction (of 1000) of all evaluations of the fault-free study fails
    Flux(u64),
    /// the same evaluation panics
    Panic(u64),
    /// fluxes of the first element are NaN / infinite whenever its input is above this potential
    NanAbove(F),
    InfAbove(F),
}
thread_local! {
    static CTORS: Cell<u64> = const { Cell::new(0) };
    static FLUXES: Cell<u64> = const { Cell::new(0) };
    static FAIL_CTOR: Cell<u64> = const { Cell::new(0) };
    static FAIL_FLUX: Cell<u64> = const { Cell::new(0) };
    static PANIC_FLUX: Cell<u64> = const { Cell::new(0) };
    /// (threshold, value)
    static BAD: Cell<Option<(f64, f64)>> = const { Cell::new(None) };
    static DIM: Cell<usize> = const { Cell::new(1) };
}
fn reset() {
    for c in [&CTORS, &FLUXES, &FAIL_CTOR, &FAIL_FLUX, &PANIC_FLUX] {
        c.with(|c| c.set(0));
    }
    BAD.with(|c| c.set(None));
}
type N = Weak<RefCell<GenericNode>>;
type NR = Rc<RefCell<GenericNode>>;
fn ctor_tick() -> anyhow::Result<()> {
    let k = CTORS.with(|c| c.replace(c.get() + 1)) + 1;
    if FAIL_CTOR.with(|c| c.get()) == k {
        return Err(Boom(1000 + k).into());
    }
    Ok(())
}
fn flux_tick() -> anyhow::Result<()> {
    let k = FLUXES.with(|c| c.replace(c.get() + 1)) + 1;
    if FAIL_FLUX.with(|c| c.get()) == k {
        return Err(Boom(k).into());
    }
    if PANIC_FLUX.with(|c| c.get()) == k {
        std::panic::panic_any(Injected(77));
    }
    Ok(())
}
fn pot(n: &NR) -> anyhow::Result<Vec<f64>> {
    Ok(get_node_potential(&Rc::downgrade(n))?.into())
}
fn spoil(va: &[f64], f: Vec<f64>) -> Matrix<f64> {
    match BAD.with(|c| c.get()) {
        Some((t, x)) if va.iter().any(|v| *v > t) => Matrix::from_col_vec(vec![x; f.len()]),
        _ => Matrix::from_col_vec(f),
    }
}
fn f_coupled(a: NR, b: NR, g: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    flux_tick()?;
    let (va, vb) = (pot(&a)?, pot(&b)?);
    let d = va.len();
    let f = (0..d).map(|i| (0..d).map(|j| g[(i * d + j, 0)] * (va[j] - vb[j])).sum()).collect();
    Ok(spoil(&va, f))
}
fn f_cubic(a: NR, b: NR, g: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    flux_tick()?;
    let (va, vb) = (pot(&a)?, pot(&b)?);
    let f = va.iter().zip(&vb).map(|(x, y)| g[(0, 0)] * ((x - y) + g[(1, 0)] * (x - y).powi(3))).collect();
    Ok(spoil(&va, f))
}
fn f_directed(a: NR, b: NR, g: &Matrix<f64>, flag: bool) -> anyhow::Result<Matrix<f64>> {
    flux_tick()?;
    let (va, vb) = (pot(&a)?, pot(&b)?);
    let f = va.iter().zip(&vb).map(|(x, y)| g[(0, 0)] * if flag { 2.0 } else { 1.0 } * (x - y)).collect();
    Ok(spoil(&va, f))
}
fn f_leak(a: NR, _b: NR, g: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    flux_tick()?;
    let va = pot(&a)?;
    let f = va.iter().map(|x| g[(0, 0)] * (x - g[(1, 0)])).collect();
    Ok(spoil(&va, f))
}
fn f_const(a: NR, b: NR, g: &Matrix<f64>, flag: bool) -> anyhow::Result<Matrix<f64>> {
    flux_tick()?;
    neapolitan::flux_formulas::constant_flux(a, b, g, flag)
}
fn f_pump(a: NR, b: NR, g: &Matrix<f64>, flag: bool) -> anyhow::Result<Matrix<f64>> {
    flux_tick()?;
    neapolitan::flux_formulas::observe_flux(a, b, g, flag)
}
fn c_coupled(a: N, b: N, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    ctor_tick()?;
    GenericElement::try_new(g, a, b, f_coupled, false, true, true)
}
fn c_cubic(a: N, b: N, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    ctor_tick()?;
    GenericElement::try_new(g, a, b, f_cubic, false, true, true)
}
fn c_directed(a: N, b: N, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    ctor_tick()?;
    let flag = g[1] > 0.0;
    GenericElement::try_new(g, a, b, f_directed, flag, true, true)
}
fn c_leak(a: N, b: N, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    ctor_tick()?;
    GenericElement::try_new(g, a, b, f_leak, false, true, false)
}
fn c_sink(a: N, b: N, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    ctor_tick()?;
    GenericElement::try_new(g, a, b, f_const, false, false, true)
}
fn c_cur(a: N, b: N, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    ctor_tick()?;
    GenericElement::try_new(g, a, b, f_const, false, true, true)
}
/// a source of any dimension, made from the library's public parts
fn c_pump(a: N, b: N, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    ctor_tick()?;
    if is_locked(&a)? && is_locked(&b)? {
        return Err(Boom(500).into());
    }
    let out = !is_locked(&b)?;
    let delta = Matrix::from_col_vec(g.clone());
    if out {
        lock_node(&b)?;
        set_node_potential(&b, (get_node_potential(&a)? + delta).into())?;
    } else {
        lock_node(&a)?;
        set_node_potential(&a, (get_node_potential(&b)? - delta).into())?;
    }
    GenericElement::try_new(g, a, b, f_pump, out, out, !out)
}
fn custom_config(dim: usize) -> anyhow::Result<HashMap<String, NodalAnalysisStudyConfigurator>> {
    let c = NodalAnalysisStudyConfigurator::new(dim)
        .add_element_type("coupled", c_coupled)?
        .add_element_type("cubic", c_cubic)?
        .add_element_type("directed", c_directed)?
        .add_element_type("leak", c_leak)?
        .add_element_type("sink", c_sink)?
        .add_element_type("current_source", c_cur)?
        .add_element_type("pump", c_pump)?
        .add_element_type("ohmic", neapolitan::dc_circuits::resistor)?;
    Ok(HashMap::from([("custom".to_string(), c)]))
}
fn custom_study(net: &Net, margin: f64, limit: usize) -> Result<anyhow::Result<Value>, String> {
    CTORS.with(|c| c.set(0));
    FLUXES.with(|c| c.set(0));
    guard(|| net.build(Some(custom_config(net.dim)?))?.run_study(margin, limit).map(|r| serde_json::to_value(r).unwrap_or(Value::Null)))
}
#[derive(Clone, Serialize, Deserialize)]
pub struct P13 {
    pub net: Net,
    pub margin: F,
    pub limit: usize,
    pub faults: Vec<Fault>,
    pub hash: u64,
}
impl Scenario for C13 {
    type Plan = P13;
    fn meta(&self) -> Meta {
        Meta {
            id: "C13",
            rule: "one run = one network of custom and built-in elements (1-3 components per node), studied fault-free, then under 2-6 injected faults (failing constructor, failing or panicking flux evaluation at a seeded point, NaN/infinite fluxes in a region), with a fault-free study after each; counted when a fault fired; distinct by trace hash",
            real: "neapolitan (configurator, builder, study, GenericElement, observe_flux/constant_flux/resistor), geqslib's Newton solver and gmatlib, built from /repo with edge instrumentation",
            stub: "custom elements, their faults and the reference solution are the simulator's",
            assumptions: &["a flux is a function of the potentials (a value that is NaN only for one evaluation is not injected)"],
            quick_runs: 40000,
            thorough_runs: 400000,
            chunk: 300,
            step_limit: 20_000_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> P13 {
        let dim = *r.pick(&[1, 1, 2, 2, 3]);
        let max = if r.chance(0.1) && thorough { 9 } else { 5 };
        let net = { let gn = GenNet { heat: false, dim, max_nodes: max, custom: true, grounded: r.chance(0.92) }; gen_net(r, &gn) };
        let n = 2 + r.below(5);
        let faults = (0..n)
            .map(|_| match r.below(12) {
                0 | 1 => Fault::Ctor(1 + r.below(net.elems.len().max(1)) as u64),
                2..=6 => Fault::Flux(match r.below(5) {
                    0 => 0,
                    1 => 999,
                    2 => 1000,
                    _ => r.below(1000) as u64,
                }),
                7 | 8 => Fault::Panic(r.below(1000) as u64),
                9 => Fault::NanAbove(F(r.range(-12, 12) as f64 + 0.5)),
                10 => Fault::InfAbove(F(r.range(-12, 12) as f64 + 0.5)),
                _ => Fault::None,
            })
            .collect();
        P13 { net, margin: F(*r.pick(&[1e-4, 1e-4, 1e-6])), limit: 100, faults, hash: r.u64() >> 16 }
    }
    fn run(&self, p: &P13, r: &mut Run) -> Res {
        let net = &p.net;
        if !net.sane() || !(1e-8..=1e-2).contains(&p.margin.0) || !(100..=200).contains(&p.limit) || p.faults.len() > 20 {
            return Ok(());
        }
        if net.elems.iter().any(|e| !(e.is_source() || [CUR, MAT, CUBIC, DIRECT, VDELTA, LEAK, OHM, SINK].contains(&e.kind)) || e.kind == SRC || e.gains().iter().any(|g| !g.is_finite())) {
            return Ok(());
        }
        let src = net.sources();
        if src == Sources::Loop {
            return Ok(());
        }
        seam::set_hash_seed(p.hash);
        reset();
        let nonlinear = net.elems.iter().any(|e| e.kind == CUBIC && e.g[1].0 != 0.0);
        let want = if nonlinear || !net.grounded() { None } else { net.reference().filter(|w| w.cond < 1e4 && w.v.iter().flatten().all(|v| v.abs() < 1e5)) };
        let dominant = net.elems.iter().all(|e| match e.kind {
            MAT => (0..net.dim).all(|i| e.g[i * net.dim + i].0 > (0..net.dim).filter(|j| *j != i).map(|j| e.g[i * net.dim + j].0.abs()).sum::<f64>()),
            CUBIC | DIRECT | LEAK | OHM => e.g[0].0 > 1e-3 && e.g[0].0 < 1e5,
            _ => true,
        });
        // the fault-free study, also used after each fault
        let clean = |r: &mut Run, when: &str| -> Result<(bool, u64), Violation> {
            let got = match custom_study(net, p.margin.0, p.limit) {
                Err(e) => bail!("panic", "{}\n{when}panicked: {e}", net.describe()),
                Ok(x) => x,
            };
            let calls = FLUXES.with(|c| c.get());
            match got {
                Ok(v) => {
                    let o = parse_result(net, &v)?;
                    ev_out(r, &o);
                    if let Sources::Conflict(i) = src {
                        bail!("conflict", "{}\n{when}solved although the constructor of element {i} failed", net.describe());
                    }
                    consistent(net, &o, p.margin.0)?;
                    if let Some(w) = &want {
                        agrees(net, &o, w, p.margin.0)?;
                        r.probe("compared");
                    }
                    Ok((true, calls))
                }
                Err(e) => {
                    r.ev("clean err");
                    if let Sources::Conflict(_) = src {
                        check!(e.chain().any(|c| c.downcast_ref::<Boom>().is_some_and(|b| b.0 == 500)), "wrong-error", "{}\n{when}the constructor's error was replaced by: {e}", net.describe());
                    }
                    check!(want.is_none() || !dominant || matches!(src, Sources::Conflict(_)), "unsolved", "{}\n{when}failed: {e}; the solution is {:?}", net.describe(), want.as_ref().map(|w| &w.v));
                    Ok((false, calls))
                }
            }
        };
        let (ok, calls) = clean(r, "fault-free: ")?;
        let ctors = net.elems.iter().filter(|e| e.kind != OHM).count() as u64;
        for f in &p.faults {
            reset();
            let mut wanted = None;
            match f {
                Fault::None => {}
                Fault::Ctor(k) => {
                    FAIL_CTOR.with(|c| c.set(*k));
                    if *k <= ctors {
                        wanted = Some(1000 + k);
                    }
                }
                Fault::Flux(x) if calls > 0 => {
                    let k = 1 + (calls - 1) * x.min(&1000) / 1000;
                    FAIL_FLUX.with(|c| c.set(k));
                    wanted = Some(k);
                }
                Fault::Panic(x) if calls > 0 => {
                    let k = 1 + (calls - 1) * x.min(&1000) / 1000;
                    PANIC_FLUX.with(|c| c.set(k));
                }
                Fault::NanAbove(t) => BAD.with(|c| c.set(Some((t.0, f64::NAN)))),
                Fault::InfAbove(t) => BAD.with(|c| c.set(Some((t.0, if t.0 as i64 % 2 == 0 { f64::INFINITY } else { f64::NEG_INFINITY })))),
                _ => {}
            }
            if net.dim == 0 {
                return Ok(());
            }
            let got = custom_study(net, p.margin.0, p.limit);
            let fired = FLUXES.with(|c| c.get());
            let built = CTORS.with(|c| c.get());
            let at = match f {
                Fault::Flux(_) => format!("with flux evaluation {} of {calls} failing: ", FAIL_FLUX.with(|c| c.get())),
                Fault::Panic(_) => format!("with flux evaluation {} of {calls} panicking: ", PANIC_FLUX.with(|c| c.get())),
                Fault::Ctor(k) => format!("with constructor call {k} failing: "),
                Fault::NanAbove(t) => format!("with NaN fluxes above {}: ", t.0),
                Fault::InfAbove(t) => format!("with infinite fluxes above {}: ", t.0),
                Fault::None => "again: ".to_string(),
            };
            match f {
                Fault::Panic(_) if calls > 0 && fired >= PANIC_FLUX.with(|c| c.get()) => {
                    r.fault("flux_panic");
                    r.nontrivial = true;
                    match got {
                        Err(m) => check!(m == "injected#77", "panic-changed", "{}\n{at}the caller saw {m}", net.describe()),
                        Ok(x) => bail!("panic-lost", "{}\n{at}the panic did not pass through: {:?}", net.describe(), x.ok()),
                    }
                    r.ev("panic");
                }
                Fault::Ctor(_) | Fault::Flux(_) => {
                    let got = match got {
                        Err(m) => bail!("panic", "{}\n{at}panicked: {m}", net.describe()),
                        Ok(x) => x,
                    };
                    // a conflicting source may end the study before the faulty call
                    let hit = match f {
                        Fault::Ctor(k) => built >= *k,
                        _ => fired >= FAIL_FLUX.with(|c| c.get()) && calls > 0,
                    };
                    if hit && wanted.is_some() {
                        r.fault(if matches!(f, Fault::Ctor(_)) { "constructor_error" } else { "flux_error" });
                        r.nontrivial = true;
                        match got {
                            Ok(v) => bail!("error-swallowed", "{}\n{at}the study reported {v}", net.describe()),
                            Err(e) => check!(
                                e.chain().any(|c| c.downcast_ref::<Boom>().is_some_and(|b| Some(b.0) == wanted)),
                                "wrong-error",
                                "{}\n{at}the element's own error was replaced by: {e:?}",
                                net.describe()
                            ),
                        }
                        r.ev("err");
                    } else if matches!(f, Fault::Flux(_)) && ok && calls > 0 {
                        // the evaluation that should fail was never made: fewer evaluations than before are fine
                        r.probe("fewer_evaluations");
                    }
                }
                Fault::NanAbove(_) | Fault::InfAbove(_) => {
                    r.fault("bad_flux");
                    match got {
                        Err(m) => bail!("panic", "{}\n{at}panicked: {m}", net.describe()),
                        Ok(Ok(v)) => {
                            let o = parse_result(net, &v)?;
                            // only fluxes that enter a balance the study solves
                            let t = BAD.with(|c| c.get()).map_or(0.0, |b| b.0);
                            let unknown = net.unknown();
                            for (i, e) in net.elems.iter().enumerate() {
                                let (ca, cb) = e.counted();
                                let matters = (ca && unknown.contains(&e.a)) || (cb && unknown.contains(&e.b));
                                if matters {
                                    check!(o.flux[i].iter().all(|x| x.is_finite()), "bad-flux-reported", "{}\n{at}the study reports flux {:?} for element {i}", net.describe(), o.flux[i]);
                                    let spoiled = [MAT, CUBIC, DIRECT, LEAK].contains(&e.kind) && o.v[e.a].iter().any(|v| *v > t);
                                    check!(!spoiled, "bad-flux-reported", "{}\n{at}the study reports potential {:?} for the input of element {i}, where its flux is not a number", net.describe(), o.v[e.a]);
                                }
                            }
                            r.probe("solved_despite_bad_region");
                        }
                        Ok(Err(_)) => {
                            r.ev("bad err");
                            r.nontrivial = true;
                        }
                    }
                }
                _ => {}
            }
            reset();
            let (again, _) = clean(r, "after the failure: ")?;
            // a study at the edge of convergence may go either way under another hash order
            check!(again == ok || want.is_none(), "aftermath", "{}\n{at}afterwards the fault-free study behaves differently", net.describe());
        }
        Ok(())
    }
}

// ---- C14 ----------------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub enum Step {
    Nodes(usize),
    Cfg(NodeCfg),
    El { name: String, a: usize, b: usize, g: Vec<F> },
    /// save here and rebuild from the text
    Save { serde: bool, carry_on: bool },
}
#[derive(Clone, Serialize, Deserialize)]
pub struct P14 {
    pub heat: bool,
    pub bad_type: Option<String>,
    pub steps: Vec<Step>,
    pub margin: F,
    pub limit: usize,
    pub hash: u64,
}
const NAMES: &[(&str, u8, bool)] = &[
    ("resistor", RES, false),
    ("voltage_source", SRC, false),
    ("current_source", CUR, false),
    ("conductor", RES, true),
    ("convection_interface", CONV, true),
    ("temperature_delta", SRC, true),
    ("heat_flux", CUR, true),
];
fn loose_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap_or(0.0), y.as_f64().unwrap_or(1.0));
            x == y || (x - y).abs() <= 4.0 * f64::EPSILON * x.abs().max(y.abs())
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| loose_eq(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).is_some_and(|b| loose_eq(a, b))),
        _ => a == b,
    }
}
/// the model file of a network
pub fn model_json(n: &Net) -> Value {
    let els = n.elems.iter().map(|e| (type_name(n.heat, e.kind).to_string(), e.a, e.b, e.gains())).collect();
    Draft { heat: n.heat, nodes: n.nodes, cfg: n.cfg.iter().map(|c| (c.node, c.clone())).collect(), els }.json()
}
struct Draft {
    heat: bool,
    nodes: usize,
    cfg: BTreeMap<usize, NodeCfg>,
    els: Vec<(String, usize, usize, Vec<f64>)>,
}
impl Draft {
    fn json(&self) -> Value {
        json!({
            "model_type": if self.heat { "heat_transfer" } else { "dc_circuit" },
            "nodes": self.nodes,
            "configuration": self.cfg.iter().map(|(k, c)| (k.to_string(), json!({
                "potential": c.v.iter().map(|x| x.0).collect::<Vec<_>>(),
                "is_locked": c.locked,
                "metadata": c.meta.as_ref().map(|m| m.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>()),
            }))).collect::<BTreeMap<_, _>>(),
            "elements": self.els.iter().map(|(n, a, b, g)| json!({"element_type": n, "input": a, "output": b, "gain": g})).collect::<Vec<_>>(),
        })
    }
    /// the network this describes; None if it is not one the reference knows
    fn net(&self) -> Option<Net> {
        let mut net = Net { heat: self.heat, dim: 1, nodes: self.nodes, cfg: self.cfg.values().cloned().collect(), elems: vec![] };
        for (n, a, b, g) in &self.els {
            let (_, k, _) = NAMES.iter().find(|x| x.0 == n && x.2 == self.heat)?;
            let k = if n == "conductor" && g.len() == 2 { COND2 } else { *k };
            if g.len() != if k == COND2 { 2 } else { 1 } {
                return None;
            }
            net.elems.push(El { kind: k, a: *a, b: *b, g: g.iter().map(|x| F(*x)).collect() });
        }
        net.sane().then_some(net)
    }
}
fn outcome(b: NodalAnalysisStudyBuilder, margin: f64, limit: usize) -> (String, Option<Value>) {
    match guard(|| b.run_study(margin, limit)) {
        Err(_) => ("panic".into(), None),
        Ok(Err(e)) => (format!("error {e}"), None),
        Ok(Ok(r)) => ("solved".into(), serde_json::to_value(r).ok()),
    }
}
impl Scenario for C14 {
    type Plan = P14;
    fn meta(&self) -> Meta {
        Meta {
            id: "C14",
            rule: "one run = one history of 3-25 building steps (accepted and rejected) with saves at seeded points, each save reloaded through both readers, studied and compared with the original, sometimes carried on from the reloaded model; counted when a model with an element was reloaded; distinct by trace hash",
            real: "neapolitan (builder, model serialisation, study) with serde_json, geqslib's Newton solver and gmatlib, built from /repo",
            stub: "the simulator keeps its own description of the model and writes the expected text from it; hash seeds come from the run seed",
            assumptions: &["decimal numbers may change by one unit in the last place when a text is read back", "values that JSON cannot express (NaN, infinities) are not used"],
            quick_runs: 160000,
            thorough_runs: 800000,
            chunk: 1000,
            step_limit: 4_000_000_000,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> P14 {
        let heat = r.chance(0.5);
        let max = if thorough { 10 } else { 6 };
        let net = { let gn = GenNet { heat, dim: 1, max_nodes: max, custom: false, grounded: r.chance(0.85) }; gen_net(r, &gn) };
        let mut steps = vec![];
        let mut left = net.nodes;
        let mut made = 0;
        let mut els: Vec<El> = net.elems.clone();
        let mut cfg: Vec<NodeCfg> = net.cfg.clone();
        while left > 0 || !els.is_empty() || !cfg.is_empty() {
            match r.below(10) {
                0 | 1 if left > 0 => {
                    let k = 1 + r.below(left);
                    left -= k;
                    made += k;
                    steps.push(Step::Nodes(k));
                }
                2 | 3 if !cfg.is_empty() => {
                    // configuring a node that is only added later is fine
                    let mut c = cfg.pop().unwrap();
                    if r.chance(0.3) {
                        c.meta = Some((0..r.below(3)).map(|i| (["a", "rho", "k\"q", "\u{e9}t"][i].to_string(), F(r.dec(-9, 9)))).collect());
                    }
                    if r.chance(0.15) {
                        // overwritten afterwards
                        let mut d = c.clone();
                        d.v = vec![F(r.dec(-9, 9))];
                        d.locked = r.chance(0.5);
                        d.meta = None;
                        steps.push(Step::Cfg(d));
                    }
                    steps.push(Step::Cfg(c));
                }
                4..=6 => {
                    if let Some(i) = els.iter().position(|e| e.a < made && e.b < made) {
                        let e = els.remove(i);
                        let mut g = e.g.clone();
                        if r.chance(0.1) {
                            g[0] = F(g[0].0 * (1.0 + r.f01()) / 3.0);
                        }
                        if r.chance(0.01) {
                            // described all the same, whatever a study makes of it
                            match r.below(3) {
                                0 => g.clear(),
                                1 => g.push(F(r.dec(-9, 9))),
                                _ => g = vec![F(2.5); 3],
                            }
                        }
                        steps.push(Step::El { name: type_name(heat, e.kind).into(), a: e.a, b: e.b, g });
                    } else if left == 0 {
                        els.clear();
                    }
                }
                7 if r.chance(0.35) => {
                    let k = r.below(3);
                    let (a, b) = (made + if k != 1 { r.below(3) } else { 0 }, if k == 0 { 0 } else { made + r.below(2) });
                    let (a, b) = if r.chance(0.5) { (a, b) } else { (b, a) };
                    steps.push(Step::El { name: "resistor".into(), a, b, g: vec![F(1.0)] });
                }
                8 if r.chance(0.03) => steps.push(Step::El { name: r.pick(&["nosuch", "Resistor", ""]).to_string(), a: 0, b: 0, g: vec![F(1.0)] }),
                9 if r.chance(0.4) => steps.push(Step::Save { serde: r.chance(0.5), carry_on: r.chance(0.5) }),
                _ => {}
            }
        }
        steps.push(Step::Save { serde: r.chance(0.5), carry_on: true });
        if r.chance(0.3) {
            steps.push(Step::Save { serde: r.chance(0.5), carry_on: false });
        }
        P14 {
            heat,
            bad_type: r.chance(0.1).then(|| r.pick(&["", "dc_circuits", "DC_CIRCUIT", "hydraulic"]).to_string()),
            steps,
            margin: F(*r.pick(&[1e-4, 1e-6])),
            limit: if r.chance(0.1) { r.below(3) } else { 100 },
            hash: r.u64() >> 16,
        }
    }
    fn run(&self, p: &P14, r: &mut Run) -> Res {
        if p.limit > 200 || !(1e-8..=1e-2).contains(&p.margin.0) {
            return Ok(());
        }
        seam::set_hash_seed(p.hash);
        let mut hist: Vec<String> = vec![];
        if let Some(t) = &p.bad_type {
            if t == "dc_circuit" || t == "heat_transfer" {
                return Ok(());
            }
            r.fault("unknown_model_type");
            match guard(|| NodalAnalysisStudyBuilder::new(t.clone(), None).map(|_| ())) {
                Ok(Err(_)) => {}
                Ok(Ok(())) => bail!("accepted", "model type {t:?} was accepted"),
                Err(e) => bail!("panic", "model type {t:?} panicked: {e}"),
            }
        }
        r.fault("duplicate_element_name");
        type Ctor = neapolitan::modelling::element::ElementConstructor;
        let (a, c): (Ctor, Ctor) = (c_leak, c_cubic);
        for regs in [vec![("x", a), ("y", c), ("x", c)], vec![("x", a), ("x", a)], vec![("y", c), ("x", a), ("z", a), ("x", a)]] {
            let names: Vec<&str> = regs.iter().map(|q| q.0).collect();
            match guard(|| regs.iter().try_fold(NodalAnalysisStudyConfigurator::new(regs.len()), |k, q| k.add_element_type(q.0, q.1)).map(|_| ())) {
                Ok(Err(_)) => {}
                Ok(Ok(())) => bail!("accepted", "a duplicate element name was accepted: {names:?}"),
                Err(e) => bail!("panic", "a duplicate element name panicked: {e}"),
            }
        }
        let ty = if p.heat { "heat_transfer" } else { "dc_circuit" };
        let mut b = match guard(|| NodalAnalysisStudyBuilder::new(ty.into(), None)) {
            Ok(Ok(b)) => b,
            x => bail!("refused", "new({ty:?}) failed: {:?}", x.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))),
        };
        hist.push(format!("new({ty:?})"));
        let mut shelf = String::new();
        let mut d = Draft { heat: p.heat, nodes: 0, cfg: BTreeMap::new(), els: vec![] };
        for s in &p.steps {
            match s {
                Step::Nodes(k) => {
                    if *k > 60 {
                        return Ok(());
                    }
                    hist.push(format!("add_nodes({k})"));
                    b = b.add_nodes(*k);
                    d.nodes += k;
                }
                Step::Cfg(c) => {
                    if c.v.len() != 1 || !c.v[0].0.is_finite() || c.meta.as_ref().is_some_and(|m| m.values().any(|x| !x.0.is_finite())) {
                        return Ok(());
                    }
                    hist.push(format!("configure_node({}, {:?}, {}, {:?})", c.node, c.v[0].0, c.locked, c.meta.as_ref().map(|m| m.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>())));
                    b = configure(b, c);
                    d.cfg.insert(c.node, c.clone());
                }
                Step::El { name, a, b: o, g } => {
                    if g.iter().any(|x| !x.0.is_finite()) {
                        return Ok(());
                    }
                    let g: Vec<f64> = g.iter().map(|x| x.0).collect();
                    hist.push(format!("add_element({name:?}, {a}, {o}, {g:?})"));
                    let fits = *a < d.nodes && *o < d.nodes;
                    let known = NAMES.iter().any(|x| x.0 == name && x.2 == p.heat);
                    let next = match guard(|| b.clone().add_element(name, *a, *o, g.clone())) {
                        Ok(x) => x,
                        Err(e) => bail!("panic", "{}\npanicked: {e}", hist.join("\n")),
                    };
                    match next {
                        Ok(n) => {
                            check!(fits, "accepted", "{}\nwas accepted although a node does not exist", hist.join("\n"));
                            b = n;
                            d.els.push((name.clone(), *a, *o, g));
                        }
                        Err(e) => {
                            check!(!fits || !known, "refused", "{}\nwas refused: {e}", hist.join("\n"));
                            r.fault("unknown_node");
                            r.ev("refused");
                        }
                    }
                }
                Step::Save { serde, carry_on } => {
                    // the text of an earlier save is replaced
                    let mut text = std::mem::take(&mut shelf);
                    hist.push("save_model".into());
                    b = match guard(|| b.clone().save_model(&mut text)) {
                        Ok(Ok(x)) => x,
                        Ok(Err(e)) => bail!("save", "{}\nfailed: {e}", hist.join("\n")),
                        Err(e) => bail!("panic", "{}\npanicked: {e}", hist.join("\n")),
                    };
                    r.probe("save");
                    let want = d.json();
                    r.ev(want.to_string());
                    let got: Value = match serde_json::from_str(&text) {
                        Ok(v) => v,
                        Err(e) => bail!("save", "{}\nsaved text is not JSON ({e}): {text}", hist.join("\n")),
                    };
                    check!(loose_eq(&got, &want), "incomplete", "{}\nsaved {got}\nthe model is {want}", hist.join("\n"));
                    let load = |serde: bool| -> Result<Result<NodalAnalysisModel, String>, String> {
                        guard(|| if serde { serde_json::from_str::<NodalAnalysisModel>(&text).map_err(|e| e.to_string()) } else { NodalAnalysisModel::from_str(&text).map_err(|e| e.to_string()) })
                    };
                    let mut models = vec![];
                    for s in [*serde, !*serde] {
                        match load(s) {
                            Ok(Ok(m)) => models.push(m),
                            Ok(Err(e)) => bail!("reload", "{}\nthe saved text cannot be read back ({e}): {text}", hist.join("\n")),
                            Err(e) => bail!("panic", "{}\nreading the saved text panicked: {e}", hist.join("\n")),
                        }
                    }
                    check!(models[0] == models[1], "reload", "{}\nthe two readers give different models for {text}", hist.join("\n"));
                    let again = NodalAnalysisStudyBuilder::from_model_with_default_config(models.remove(0));
                    shelf = text.clone();
                    let mut text2 = text.clone();
                    match guard(|| again.clone().save_model(&mut text2)) {
                        Ok(Ok(_)) => {}
                        _ => bail!("save", "{}\nsaving the reloaded model failed", hist.join("\n")),
                    }
                    let got2: Value = serde_json::from_str(&text2).unwrap_or(Value::Null);
                    check!(loose_eq(&got2, &got), "incomplete", "{}\nsaving the reloaded model gives {got2} instead of {got}", hist.join("\n"));
                    // studies of the original and of the reloaded model
                    let net = d.net();
                    let src = net.as_ref().map(|n| n.sources());
                    let safe = net.is_none() || !matches!(src, Some(Sources::Loop));
                    let unknown_type = d.els.iter().any(|e| !NAMES.iter().any(|x| x.0 == e.0 && x.2 == d.heat));
                    if safe && (net.is_some() || unknown_type && d.els.iter().all(|e| e.3.len() == 1 && !e.0.contains("source") && !e.0.contains("delta"))) {
                        let (k1, v1) = outcome(b.clone(), p.margin.0, p.limit);
                        let (k2, v2) = outcome(again.clone(), p.margin.0, p.limit);
                        r.ev(&k1);
                        if !d.els.is_empty() {
                            r.nontrivial = true;
                        }
                        let posed = p.limit >= 50 && net.as_ref().is_some_and(|n| n.grounded() && matches!(src, Some(Sources::Fine(_))) && n.reference().is_some_and(|w| w.cond < 1e5));
                        // without a well-posed network the verdict may hang on rounding; conflicts and unknown names do not
                        let sure = posed || matches!(src, Some(Sources::Conflict(_))) || net.is_none();
                        if sure {
                            check!(k1 == k2, "outcome", "{}\nthe original gives {k1}, the reloaded model {k2}; text {text}", hist.join("\n"));
                            r.probe(&format!("same_{}", k1.split(' ').next().unwrap_or("")));
                        }
                        if let (Some(v1), Some(v2), Some(n), true) = (&v1, &v2, &net, posed) {
                            let (o1, o2) = (parse_result(n, v1)?, parse_result(n, v2)?);
                            let top = o1.v.iter().flatten().fold(1.0f64, |m, x| m.max(x.abs()));
                            for i in 0..n.nodes {
                                check!((o1.v[i][0] - o2.v[i][0]).abs() <= 3.0 * p.margin.0 + 1e-4 * p.margin.0 * top, "outcome", "{}\nnode {i}: original {:?}, reloaded {:?}; text {text}", hist.join("\n"), o1.v[i], o2.v[i]);
                            }
                        }
                    }
                    if *carry_on {
                        b = again;
                        hist.push("(continued from the reloaded model)".into());
                        r.probe("carried_on");
                    }
                }
            }
        }
        Ok(())
    }
}
