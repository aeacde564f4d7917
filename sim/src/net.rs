//! Networks: description, generator, own reference solution and consistency check.
use crate::core::*;
use crate::expr::F;
use crate::s_text::inverse;
use crate::{bail, check};
use neapolitan::modelling::element::ElementConstructor;
use neapolitan::{NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// element kinds
pub const RES: u8 = 0; // one-number conductance law (resistor: R; conductor: k/l; see Net::heat)
pub const COND2: u8 = 1; // conductor given as [l, k]
pub const CONV: u8 = 2; // convection_interface [h]
pub const SRC: u8 = 3; // voltage_source / temperature_delta
pub const CUR: u8 = 4; // current_source / heat_flux
// custom kinds
pub const MAT: u8 = 5; // flux = G * delta, G dim x dim
pub const CUBIC: u8 = 6; // flux = k * (delta + c * delta^3), component by component
pub const DIRECT: u8 = 7; // conductance doubled when the direction flag is set
pub const VDELTA: u8 = 8; // source of any dimension
pub const LEAK: u8 = 9; // known to its input node only: flux = k * (Vin - ref)
pub const OHM: u8 = 10; // the library's own resistor inside a custom configuration
pub const SINK: u8 = 11; // known to its output node only: constant flux

#[derive(Clone, Serialize, Deserialize)]
pub struct El {
    pub kind: u8,
    pub a: usize,
    pub b: usize,
    pub g: Vec<F>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct NodeCfg {
    pub node: usize,
    pub v: Vec<F>,
    pub locked: bool,
    #[serde(default)]
    pub meta: Option<BTreeMap<String, F>>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Net {
    pub heat: bool,
    pub dim: usize,
    pub nodes: usize,
    pub cfg: Vec<NodeCfg>,
    pub elems: Vec<El>,
}
pub fn type_name(heat: bool, kind: u8) -> &'static str {
    match (kind, heat) {
        (RES, false) => "resistor",
        (RES, true) | (COND2, _) => "conductor",
        (CONV, _) => "convection_interface",
        (SRC, false) => "voltage_source",
        (SRC, true) => "temperature_delta",
        (CUR, false) => "current_source",
        (CUR, true) => "heat_flux",
        (MAT, _) => "coupled",
        (CUBIC, _) => "cubic",
        (DIRECT, _) => "directed",
        (VDELTA, _) => "pump",
        (LEAK, _) => "leak",
        (OHM, _) => "ohmic",
        (SINK, _) => "sink",
        _ => "nosuch",
    }
}
impl El {
    pub fn is_source(&self) -> bool {
        self.kind == SRC || self.kind == VDELTA
    }
    /// which of its nodes count this element's flux
    pub fn counted(&self) -> (bool, bool) {
        match self.kind {
            LEAK => (true, false),
            SINK => (false, true),
            _ => (true, true),
        }
    }
    pub fn gains(&self) -> Vec<f64> {
        self.g.iter().map(|x| x.0).collect()
    }
    /// conductance matrix and constant part: flux = G (va - vb) + c (leak: G (va - ref)); None for sources
    pub fn linear(&self, heat: bool, dim: usize) -> Option<(Vec<Vec<f64>>, Vec<f64>)> {
        let g = self.gains();
        let diag = |k: f64| (0..dim).map(|i| (0..dim).map(|j| if i == j { k } else { 0.0 }).collect()).collect::<Vec<Vec<f64>>>();
        let zero = vec![0.0; dim];
        Some(match self.kind {
            RES if heat => (diag(*g.first()?), zero),
            RES | OHM => (diag(1.0 / g.first()?), zero),
            COND2 => (diag(g.get(1)? / g.first()?), zero),
            CONV => (diag(*g.first()?), zero),
            CUR | SINK if g.len() == dim => (diag(0.0), g),
            MAT if g.len() == dim * dim => ((0..dim).map(|i| g[i * dim..(i + 1) * dim].to_vec()).collect(), zero),
            CUBIC if g.len() == 2 && g[1] == 0.0 => (diag(g[0]), zero),
            DIRECT if g.len() == 2 => (diag(if g[1] > 0.0 { 2.0 * g[0] } else { g[0] }), zero),
            LEAK if g.len() == 2 => (diag(g[0]), vec![-g[0] * g[1]; dim]),
            _ => return None,
        })
    }
    /// the element's law is finite for finite potentials
    pub fn finite(&self, heat: bool, dim: usize) -> bool {
        self.linear(heat, dim).is_none_or(|(g, c)| g.iter().flatten().chain(&c).all(|x| x.is_finite() && x.abs() < 1e150))
    }
    /// the flux the element's law gives at these potentials; None for sources
    pub fn law(&self, heat: bool, dim: usize, va: &[f64], vb: &[f64]) -> Option<Vec<f64>> {
        if self.kind == CUBIC {
            let g = self.gains();
            if g.len() != 2 {
                return None;
            }
            return Some((0..dim).map(|i| g[0] * ((va[i] - vb[i]) + g[1] * (va[i] - vb[i]).powi(3))).collect());
        }
        let (m, c) = self.linear(heat, dim)?;
        let d: Vec<f64> = (0..dim).map(|i| if self.kind == LEAK { va[i] } else { va[i] - vb[i] }).collect();
        Some((0..dim).map(|i| (0..dim).map(|j| if m[i][j] == 0.0 { 0.0 } else { m[i][j] * d[j] }).sum::<f64>() + c[i]).collect())
    }
}
#[derive(PartialEq, Debug, Clone)]
pub enum Sources {
    /// which end each source drives (true: its output)
    Fine(Vec<Option<bool>>),
    /// this element finds both of its ends held
    Conflict(usize),
    /// the sources close a loop
    Loop,
}
impl Net {
    pub fn fixed(&self) -> BTreeMap<usize, Vec<f64>> {
        let mut m = BTreeMap::new();
        for c in &self.cfg {
            m.insert(c.node, (c.locked, c.v.iter().map(|x| x.0).collect::<Vec<_>>()));
        }
        m.into_iter().filter(|(_, (l, _))| *l).map(|(k, (_, v))| (k, v)).collect()
    }
    pub fn sane(&self) -> bool {
        self.dim >= 1
            && self.dim <= 4
            && self.nodes <= 70_000
            && self.elems.iter().all(|e| e.a < self.nodes && e.b < self.nodes && e.linear(self.heat, self.dim).is_some() != (e.is_source() || (e.kind == CUBIC && e.g.get(1).is_none_or(|c| c.0 != 0.0))) && !(e.kind == CUBIC && e.g.len() != 2) && (!e.is_source() || e.g.len() == self.dim))
            && self.cfg.iter().all(|c| c.node < self.nodes && c.v.len() == self.dim && c.v.iter().all(|x| x.0.is_finite()))
            && self.cfg.iter().map(|c| c.node).collect::<BTreeSet<_>>().len() == self.cfg.len()
    }
    /// the rule that decides which end of a source is driven, applied in listed order
    pub fn sources(&self) -> Sources {
        let mut held: BTreeSet<usize> = self.fixed().into_keys().collect();
        let mut uf: Vec<usize> = (0..self.nodes).collect();
        fn find(u: &mut [usize], i: usize) -> usize {
            if u[i] == i {
                i
            } else {
                let r = find(u, u[i]);
                u[i] = r;
                r
            }
        }
        let mut drives = vec![None; self.elems.len()];
        for (i, e) in self.elems.iter().enumerate() {
            if !e.is_source() {
                continue;
            }
            if held.contains(&e.b) && held.contains(&e.a) {
                return Sources::Conflict(i);
            }
            let (x, y) = (find(&mut uf, e.a), find(&mut uf, e.b));
            if x == y {
                return Sources::Loop;
            }
            uf[x] = y;
            let out = !held.contains(&e.b);
            held.insert(if out { e.b } else { e.a });
            drives[i] = Some(out);
        }
        Sources::Fine(drives)
    }
    /// nodes whose potential the study has to find: neither fixed nor driven by a source
    pub fn unknown(&self) -> BTreeSet<usize> {
        let mut u: BTreeSet<usize> = (0..self.nodes).collect();
        for k in self.fixed().keys() {
            u.remove(k);
        }
        if let Sources::Fine(d) = self.sources() {
            for (e, out) in self.elems.iter().zip(d) {
                if let Some(out) = out {
                    u.remove(if out { &e.b } else { &e.a });
                }
            }
        }
        u
    }
    /// nodes connected through conducting elements or sources to a fixed node
    pub fn grounded(&self) -> bool {
        let mut seen: BTreeSet<usize> = self.fixed().into_keys().collect();
        loop {
            let n = seen.len();
            for e in &self.elems {
                match e.kind {
                    CUR | SINK => {}
                    LEAK => {
                        seen.insert(e.a);
                    }
                    _ if seen.contains(&e.a) || seen.contains(&e.b) => {
                        seen.insert(e.a);
                        seen.insert(e.b);
                    }
                    _ => {}
                }
            }
            if seen.len() == n {
                return n == self.nodes;
            }
        }
    }
    /// Own solution of a linear network: potentials and source fluxes, with a condition estimate.
    pub fn reference(&self) -> Option<Ref> {
        let d = self.dim;
        let fixed = self.fixed();
        let src: Vec<usize> = (0..self.elems.len()).filter(|i| self.elems[*i].is_source()).collect();
        let free: Vec<usize> = (0..self.nodes).filter(|i| !fixed.contains_key(i)).collect();
        let col: BTreeMap<usize, usize> = free.iter().enumerate().map(|(i, v)| (*v, i * d)).collect();
        let n = (free.len() + src.len()) * d;
        let mut a = vec![vec![0.0; n]; n];
        let mut rhs = vec![0.0; n];
        // balance of each node that is not held: sum of inputs - sum of outputs = 0
        for e in &self.elems {
            if let Some((g, c)) = e.linear(self.heat, d) {
                let (ca, cb) = e.counted();
                for (node, sign, counted) in [(e.a, -1.0, ca), (e.b, 1.0, cb)] {
                    let (Some(&row), true) = (col.get(&node), counted) else { continue };
                    for i in 0..d {
                        rhs[row + i] -= sign * c[i];
                        for j in 0..d {
                            if g[i][j] == 0.0 {
                                continue;
                            }
                            if !g[i][j].is_finite() {
                                return None;
                            }
                            let mut put = |node: usize, w: f64| match col.get(&node) {
                                Some(&k) => a[row + i][k + j] += w,
                                None => rhs[row + i] -= w * fixed[&node][j],
                            };
                            put(e.a, sign * g[i][j]);
                            if e.kind != LEAK {
                                put(e.b, -sign * g[i][j]);
                            }
                        }
                    }
                }
            } else if !e.is_source() {
                return None;
            }
        }
        for (k, s) in src.iter().enumerate() {
            let e = &self.elems[*s];
            let at = (free.len() + k) * d;
            for i in 0..d {
                if let Some(&row) = col.get(&e.a) {
                    a[row + i][at + i] -= 1.0;
                }
                if let Some(&row) = col.get(&e.b) {
                    a[row + i][at + i] += 1.0;
                }
                // V_out - V_in = delta
                rhs[at + i] = e.g[i].0;
                match col.get(&e.b) {
                    Some(&c) => a[at + i][c + i] += 1.0,
                    None => rhs[at + i] -= fixed[&e.b][i],
                }
                match col.get(&e.a) {
                    Some(&c) => a[at + i][c + i] -= 1.0,
                    None => rhs[at + i] += fixed[&e.a][i],
                }
            }
        }
        if n == 0 {
            return Some(Ref { v: (0..self.nodes).map(|i| fixed[&i].clone()).collect(), flux: BTreeMap::new(), cond: 1.0 });
        }
        // equilibrate rows so that the estimate does not depend on units
        for i in 0..n {
            let m = a[i].iter().fold(0.0f64, |m, x| m.max(x.abs()));
            if m == 0.0 || !m.is_finite() {
                return None;
            }
            a[i].iter_mut().for_each(|x| *x /= m);
            rhs[i] /= m;
        }
        let inv = inverse(&a)?;
        let norm = |x: &[Vec<f64>]| x.iter().map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(0.0, f64::max);
        let cond = norm(&a) * norm(&inv);
        let x: Vec<f64> = (0..n).map(|i| (0..n).map(|j| inv[i][j] * rhs[j]).sum()).collect();
        let v = (0..self.nodes)
            .map(|i| match col.get(&i) {
                Some(&c) => x[c..c + d].to_vec(),
                None => fixed[&i].clone(),
            })
            .collect();
        let flux = src.iter().enumerate().map(|(k, s)| (*s, x[(free.len() + k) * d..(free.len() + k + 1) * d].to_vec())).collect();
        Some(Ref { v, flux, cond })
    }
    pub fn conductance(&self) -> f64 {
        self.elems.iter().filter_map(|e| e.linear(self.heat, self.dim)).map(|(g, _)| g.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()))).sum()
    }
    pub fn build(&self, config: Option<HashMap<String, NodalAnalysisStudyConfigurator>>) -> anyhow::Result<NodalAnalysisStudyBuilder> {
        let ty = match (config.is_some(), self.heat) {
            (true, _) => "custom",
            (_, true) => "heat_transfer",
            _ => "dc_circuit",
        };
        let mut b = NodalAnalysisStudyBuilder::new(ty.into(), config)?.add_nodes(self.nodes);
        for c in &self.cfg {
            b = configure(b, c);
        }
        for e in &self.elems {
            b = b.add_element(type_name(self.heat, e.kind), e.a, e.b, e.gains())?;
        }
        Ok(b)
    }
    pub fn describe(&self) -> String {
        let mut s = format!("{} nodes ({} component{})", self.nodes, self.dim, if self.dim == 1 { "" } else { "s" });
        for c in self.cfg.iter().take(40) {
            s += &format!("\nnode {} {} {:?}", c.node, if c.locked { "fixed at" } else { "starts at" }, c.v.iter().map(|x| x.0).collect::<Vec<_>>());
        }
        if self.cfg.len() > 40 {
            s += &format!("\n... and {} more configured nodes", self.cfg.len() - 40);
        }
        for (i, e) in self.elems.iter().enumerate() {
            s += &format!("\n{}.{i}: {} -> {} {:?}", type_name(self.heat, e.kind), e.a, e.b, e.gains());
        }
        s
    }
    /// the same network among further nodes that are fixed and connected to nothing
    pub fn expanded(&self, pad: usize) -> Net {
        let mut net = self.clone();
        net.nodes += pad;
        for k in self.nodes..net.nodes {
            net.cfg.push(NodeCfg { node: k, v: vec![F(0.0); self.dim], locked: true, meta: None });
        }
        net
    }
    /// the same network under another numbering of nodes and order of elements
    pub fn permuted(&self, nodes: u64, elems: u64) -> (Net, Vec<usize>, Vec<usize>) {
        let mut np: Vec<usize> = (0..self.nodes).collect();
        let mut ep: Vec<usize> = (0..self.elems.len()).collect();
        if nodes != 0 {
            Rng::new(nodes).shuffle(&mut np);
        }
        if elems != 0 {
            Rng::new(elems).shuffle(&mut ep);
        }
        let mut net = self.clone();
        for c in &mut net.cfg {
            c.node = np[c.node];
        }
        net.elems = ep.iter().map(|i| El { a: np[self.elems[*i].a], b: np[self.elems[*i].b], ..self.elems[*i].clone() }).collect();
        (net, np, ep)
    }
}
pub fn configure(b: NodalAnalysisStudyBuilder, c: &NodeCfg) -> NodalAnalysisStudyBuilder {
    b.configure_node(c.node, c.v.iter().map(|x| x.0).collect(), c.locked, c.meta.as_ref().map(|m| m.iter().map(|(k, v)| (k.clone(), v.0)).collect()))
}
pub struct Ref {
    pub v: Vec<Vec<f64>>,
    pub flux: BTreeMap<usize, Vec<f64>>,
    pub cond: f64,
}
/// a study's result, read through its serialised form
#[derive(Debug, Clone, PartialEq)]
pub struct Out {
    pub v: Vec<Vec<f64>>,
    pub flux: Vec<Vec<f64>>,
}
fn nums(v: &Value) -> Option<Vec<f64>> {
    v.as_array()?.iter().map(|x| if x.is_null() { Some(f64::NAN) } else { x.as_f64() }).collect()
}
pub fn parse_result(net: &Net, v: &Value) -> Result<Out, Violation> {
    let (Some(nodes), Some(elems)) = (v["nodes"].as_object(), v["elements"].as_object()) else {
        bail!("result-shape", "the result has no nodes and elements: {v}")
    };
    check!(nodes.len() == net.nodes, "result-shape", "{}\nthe result has {} nodes", net.describe(), nodes.len());
    check!(elems.len() == net.elems.len(), "result-shape", "{}\nthe result has {} elements", net.describe(), elems.len());
    let mut o = Out { v: vec![], flux: vec![] };
    for i in 0..net.nodes {
        match nodes.get(&i.to_string()).and_then(nums) {
            Some(x) if x.len() == net.dim => o.v.push(x),
            x => bail!("result-shape", "{}\nnode {i} is reported as {x:?}", net.describe()),
        }
    }
    for (i, e) in net.elems.iter().enumerate() {
        let key = format!("{}.{i}", type_name(net.heat, e.kind));
        match elems.get(&key).and_then(nums) {
            Some(x) if x.len() == net.dim => o.flux.push(x),
            x => bail!("result-shape", "{}\nelement {key} is reported as {x:?}", net.describe()),
        }
    }
    Ok(o)
}
/// C11: the reported numbers are physically consistent
pub fn consistent(net: &Net, o: &Out, margin: f64) -> Res {
    let d = net.dim;
    let fixed = net.fixed();
    for (i, want) in &fixed {
        check!(&o.v[*i] == want, "fixed-node", "{}\nfixed node {i} is reported at {:?}", net.describe(), o.v[*i]);
    }
    for (i, x) in o.v.iter().enumerate() {
        check!(x.iter().all(|x| x.is_finite()), "not-a-number", "{}\nnode {i} is reported at {x:?}", net.describe());
    }
    // fluxes that are not finite are nobody's business unless they enter a balance that was solved
    let unknown = net.unknown();
    let mut net_in = vec![vec![0.0; d]; net.nodes];
    let mut scale = vec![vec![0.0f64; d]; net.nodes];
    for (i, e) in net.elems.iter().enumerate() {
        let f = &o.flux[i];
        let (va, vb) = (&o.v[e.a], &o.v[e.b]);
        let (ca, cb) = e.counted();
        let matters = (ca && unknown.contains(&e.a)) || (cb && unknown.contains(&e.b));
        match e.law(net.heat, d, va, vb) {
            Some(want) if !matters && (want.iter().chain(f).any(|x| !x.is_finite()) && !e.finite(net.heat, d)) => {}
            Some(want) => {
                let g = e.linear(net.heat, d);
                for c in 0..d {
                    let mut mag = want[c].abs();
                    if let Some((g, k)) = &g {
                        mag += k[c].abs() + (0..d).map(|j| (g[c][j] * (va[j].abs() + vb[j].abs())).abs()).sum::<f64>();
                    } else {
                        mag += e.g[0].0.abs() * (va[c].abs() + vb[c].abs()) * (1.0 + 3.0 * e.g[1].0.abs() * (va[c] - vb[c]).powi(2));
                    }
                    check!((f[c] - want[c]).abs() <= 1e-9 * mag, "flux-law", "{}\nelement {i} reports flux {f:?}, its law gives {want:?} at {va:?} -> {vb:?}", net.describe());
                }
            }
            None => {
                for c in 0..d {
                    let dv = vb[c] - va[c];
                    let mag = vb[c].abs() + va[c].abs() + e.g[c].0.abs();
                    check!((dv - e.g[c].0).abs() <= 1e-9 * mag, "source-difference", "{}\nsource {i} prescribes {:?} but its ends are at {va:?} and {vb:?}", net.describe(), e.gains());
                    check!(f[c].is_finite() || !matters, "not-a-number", "{}\nsource {i} carries {f:?}", net.describe());
                }
            }
        }
        for c in 0..d {
            if ca {
                net_in[e.a][c] -= f[c];
                scale[e.a][c] += f[c].abs();
            }
            if cb {
                net_in[e.b][c] += f[c];
                scale[e.b][c] += f[c].abs();
            }
        }
    }
    // the margin bounds the residual of all free nodes together; driven nodes take up what is left over
    let total: f64 = scale.iter().flatten().filter(|x| x.is_finite()).sum();
    for i in 0..net.nodes {
        if fixed.contains_key(&i) || (!unknown.contains(&i) && net_in[i].iter().any(|x| !x.is_finite())) {
            continue;
        }
        for c in 0..d {
            check!(
                net_in[i][c].abs() <= margin * 1.000001 + 1e-10 * total,
                "balance",
                "{}\nnode {i} receives {:e} more than it gives away (margin {margin:e}); potentials {:?}; fluxes {:?}",
                net.describe(),
                net_in[i][c],
                o.v,
                o.flux
            );
        }
    }
    Ok(())
}
/// agreement with the reference solution
pub fn agrees(net: &Net, o: &Out, want: &Ref, margin: f64) -> Res {
    let g = net.conductance();
    let top = want.v.iter().flatten().fold(1.0f64, |m, x| m.max(x.abs()));
    let tol = 2.0 * margin + 1e-9 * top * (1.0 + want.cond);
    for i in 0..net.nodes {
        for c in 0..net.dim {
            check!((o.v[i][c] - want.v[i][c]).abs() <= tol, "potential", "{}\nnode {i} is reported at {:?}, the solution is {:?} (allowance {tol:e})", net.describe(), o.v[i], want.v[i]);
        }
    }
    for (s, f) in &want.flux {
        for c in 0..net.dim {
            let t = 4.0 * g * tol + net.nodes as f64 * margin;
            check!((o.flux[*s][c] - f[c]).abs() <= t, "source-flux", "{}\nsource {s} is reported to carry {:?}, the solution is {f:?} (allowance {t:e})", net.describe(), o.flux[*s]);
        }
    }
    Ok(())
}

// ---- generation ---------------------------------------------------------------------------------
pub struct GenNet {
    pub heat: bool,
    pub dim: usize,
    pub max_nodes: usize,
    pub custom: bool,
    /// every node reaches a fixed potential
    pub grounded: bool,
}
pub fn pos(r: &mut Rng, scale: f64) -> f64 {
    let x = match r.below(3) {
        0 => r.range(1, 20) as f64,
        1 => r.range(5, 400) as f64 / 10.0,
        _ => *r.pick(&[1.0, 2.0, 0.5, 4.7, 10.0, 22.0]),
    };
    x * scale
}
pub fn gen_net(r: &mut Rng, o: &GenNet) -> Net {
    let n = if r.chance(0.08) { 1 } else { 2 + r.below(o.max_nodes - 1) };
    let d = o.dim;
    let scale = if r.chance(0.6) { 1.0 } else { *r.pick(&[1e-2, 1e2, 1e3]) };
    let vmax = *r.pick(&[12, 100, 400]);
    let mut net = Net { heat: o.heat, dim: d, nodes: n, cfg: vec![], elems: vec![] };
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let nfix = if o.grounded { 1 + r.below(n.min(3)) } else { r.below(n.min(3) + 1) };
    let nfix = if r.chance(0.04) { n } else { nfix };
    for &k in &order[..nfix] {
        net.cfg.push(NodeCfg { node: k, v: (0..d).map(|_| F(if r.chance(0.35) { 0.0 } else { r.dec(-vmax, vmax) })).collect(), locked: true, meta: None });
    }
    let fixed: BTreeSet<usize> = order[..nfix].iter().cloned().collect();
    // sources must not close a loop; all fixed nodes count as one
    let mut uf: Vec<usize> = (0..n).collect();
    fn find(u: &[usize], mut i: usize) -> usize {
        while u[i] != i {
            i = u[i];
        }
        i
    }
    for &k in &order[..nfix] {
        uf[k] = order[0];
    }
    let cond = |r: &mut Rng| -> (u8, Vec<F>) {
        if o.custom {
            match r.below(7) {
                0 | 1 => {
                    // diagonally dominant coupling
                    let mut g = vec![];
                    for i in 0..d {
                        for j in 0..d {
                            g.push(F(if i == j { pos(r, 1.0) + d as f64 } else { r.range(-8, 8) as f64 / 10.0 }));
                        }
                    }
                    (MAT, g)
                }
                2 => (CUBIC, vec![F(pos(r, 1.0)), F(0.0)]),
                3 => (CUBIC, vec![F(pos(r, 1.0)), F(if r.chance(0.5) { 0.0 } else { 0.01 })]),
                4 => (DIRECT, vec![F(pos(r, 1.0)), F(r.range(0, 1) as f64)]),
                _ => (OHM, vec![F(pos(r, 0.1))]),
            }
        } else if o.heat {
            match r.below(3) {
                0 => (RES, vec![F(pos(r, scale))]),
                1 => (COND2, vec![F(pos(r, 1.0)), F(pos(r, scale))]),
                _ => (CONV, vec![F(pos(r, scale))]),
            }
        } else {
            (RES, vec![F(pos(r, scale))])
        }
    };
    let source = |r: &mut Rng| -> (u8, Vec<F>) { (if o.custom { VDELTA } else { SRC }, (0..d).map(|_| F(r.dec(-20, 20))).collect()) };
    let psrc = if r.chance(0.45) { 0.0 } else { *r.pick(&[0.1, 0.3, 0.7]) };
    let chain = r.chance(0.3);
    for i in nfix.max(1)..n {
        let x = order[i];
        let y = order[if chain && r.chance(0.9) { i - 1 } else { r.below(i) }];
        if !o.grounded && r.chance(0.12) {
            continue;
        }
        let (fx_, fy) = (find(&uf, x), find(&uf, y));
        let (kind, g) = if r.chance(psrc) && fx_ != fy {
            uf[fx_] = fy;
            source(r)
        } else {
            cond(r)
        };
        let (a, b) = if r.chance(0.5) { (x, y) } else { (y, x) };
        net.elems.push(El { kind, a, b, g });
    }
    let extra = r.below(n + 2) * if r.chance(0.15) { 2 } else { 1 };
    for _ in 0..extra {
        let (x, y) = (r.below(n), r.below(n));
        let (kind, g) = if r.chance(0.25) {
            (CUR, (0..d).map(|_| F(r.dec(-9, 9) / scale.clamp(1.0, 100.0))).collect())
        } else if r.chance(psrc * 0.3) && find(&uf, x) != find(&uf, y) {
            let (a, b) = (find(&uf, x), find(&uf, y));
            uf[a] = b;
            source(r)
        } else if o.custom && r.chance(0.25) {
            if r.chance(0.5) {
                (LEAK, vec![F(pos(r, 1.0)), F(r.dec(-9, 9))])
            } else {
                (SINK, (0..d).map(|_| F(r.dec(-9, 9))).collect())
            }
        } else {
            cond(r)
        };
        if x == y && (!r.chance(0.3) || matches!(kind, SRC | VDELTA)) {
            continue;
        }
        net.elems.push(El { kind, a: x, b: y, g });
    }
    for k in 0..n {
        if !fixed.contains(&k) && r.chance(0.08) {
            net.cfg.push(NodeCfg { node: k, v: (0..d).map(|_| F(r.dec(-9, 30))).collect(), locked: false, meta: None });
        }
    }
    if r.chance(0.1) {
        for c in &mut net.cfg {
            c.meta = Some([("tag".to_string(), F(r.range(0, 9) as f64))].into());
        }
    }
    r.shuffle(&mut net.elems);
    r.shuffle(&mut net.cfg);
    net
}
pub type Ctor = ElementConstructor;
