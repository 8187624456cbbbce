//! Networks, their exact solution by modified nodal analysis, and runs of the real solver.

use mc_core::{catch, Stats};
use neapolitan::modelling::NodalAnalysisModel;
use neapolitan::{NodalAnalysisStudyBuilder, NodalAnalysisStudyResult};
use std::collections::BTreeMap;
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Flux proportional to the difference of the potentials; the gain is the conductance.
    Pass,
    /// Fixed difference between output and input.
    Rise,
    /// Fixed flux from input to output.
    Push,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Elem {
    pub kind: Kind,
    pub name: &'static str,
    pub a: usize,
    pub b: usize,
    /// Numbers in the model file.
    pub gain: Vec<f64>,
    /// What they mean: a conductance, a rise or a flux.
    pub value: f64,
}

pub fn resistor(a: usize, b: usize, r: f64) -> Elem {
    Elem { kind: Kind::Pass, name: "resistor", a, b, gain: vec![r], value: 1.0 / r }
}
pub fn voltage(a: usize, b: usize, v: f64) -> Elem {
    Elem { kind: Kind::Rise, name: "voltage_source", a, b, gain: vec![v], value: v }
}
pub fn current(a: usize, b: usize, i: f64) -> Elem {
    Elem { kind: Kind::Push, name: "current_source", a, b, gain: vec![i], value: i }
}
pub fn conductor(a: usize, b: usize, ratio: f64) -> Elem {
    Elem { kind: Kind::Pass, name: "conductor", a, b, gain: vec![ratio], value: ratio }
}
pub fn rod(a: usize, b: usize, length: f64, k: f64) -> Elem {
    Elem { kind: Kind::Pass, name: "conductor", a, b, gain: vec![length, k], value: k / length }
}
pub fn convection(a: usize, b: usize, h: f64) -> Elem {
    Elem { kind: Kind::Pass, name: "convection_interface", a, b, gain: vec![h], value: h }
}
pub fn delta(a: usize, b: usize, v: f64) -> Elem {
    Elem { kind: Kind::Rise, name: "temperature_delta", a, b, gain: vec![v], value: v }
}
pub fn heat(a: usize, b: usize, q: f64) -> Elem {
    Elem { kind: Kind::Push, name: "heat_flux", a, b, gain: vec![q], value: q }
}

#[derive(Clone, Debug)]
pub struct Net {
    pub model: &'static str,
    pub nodes: usize,
    /// Configured nodes: number, potential, locked.
    pub config: Vec<(usize, f64, bool)>,
    pub elems: Vec<Elem>,
}

/// A number as it is written in a model file.
pub fn num(x: f64) -> String {
    let s = format!("{x:?}");
    s.replace("inf", "1e999")
}

impl Net {
    pub fn json(&self) -> String {
        let config: Vec<String> = self
            .config
            .iter()
            .map(|(i, v, l)| format!("\"{i}\": {{\"potential\": [{}], \"is_locked\": {l}, \"metadata\": null}}", num(*v)))
            .collect();
        let elems: Vec<String> = self
            .elems
            .iter()
            .map(|e| {
                let gain: Vec<String> = e.gain.iter().map(|g| num(*g)).collect();
                format!("{{\"element_type\": \"{}\", \"input\": {}, \"output\": {}, \"gain\": [{}]}}", e.name, e.a, e.b, gain.join(", "))
            })
            .collect();
        format!("{{\"model_type\": \"{}\", \"nodes\": {}, \"configuration\": {{{}}}, \"elements\": [{}]}}", self.model, self.nodes, config.join(", "), elems.join(", "))
    }

    pub fn fixed(&self) -> Vec<Option<f64>> {
        let mut v = vec![None; self.nodes];
        for (i, p, l) in &self.config {
            v[*i] = l.then_some(*p);
        }
        v
    }

    /// Whether every source of potential finds a terminal that nothing determines yet.
    pub fn accepted(&self) -> bool {
        let mut locked: Vec<bool> = self.fixed().iter().map(|f| f.is_some()).collect();
        for e in self.elems.iter().filter(|e| e.kind == Kind::Rise) {
            if !locked[e.b] {
                locked[e.b] = true;
            } else if !locked[e.a] {
                locked[e.a] = true;
            } else {
                return false;
            }
        }
        true
    }

    pub fn short(&self) -> String {
        let e: Vec<String> = self.elems.iter().map(|e| format!("{} {}>{} {:?}", e.name, e.a, e.b, e.gain)).collect();
        format!("{} nodes, {:?}: {}", self.nodes, self.config, e.join("; "))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exact {
    /// Potentials of the nodes.
    One(Vec<f64>),
    /// No or infinitely many solutions.
    None,
    Many,
}

/// Potentials of all nodes by Gaussian elimination with full pivoting: the unknowns are
/// all potentials and the fluxes of the sources of potential.
pub fn exact(net: &Net) -> Exact {
    let n = net.nodes;
    let rises: Vec<usize> = (0..net.elems.len()).filter(|i| net.elems[*i].kind == Kind::Rise).collect();
    let m = n + rises.len();
    let mut a = vec![vec![0.0; m + 1]; m];
    let fixed = net.fixed();
    for (k, e) in net.elems.iter().enumerate() {
        match e.kind {
            Kind::Pass => {
                for (node, sign) in [(e.a, -1.0), (e.b, 1.0)] {
                    a[node][e.a] += sign * e.value;
                    a[node][e.b] -= sign * e.value;
                }
            }
            Kind::Push => {
                a[e.a][m] += e.value;
                a[e.b][m] -= e.value;
            }
            Kind::Rise => {
                let c = n + rises.iter().position(|r| *r == k).unwrap();
                a[e.a][c] -= 1.0;
                a[e.b][c] += 1.0;
                a[c][e.b] += 1.0;
                a[c][e.a] -= 1.0;
                a[c][m] += e.value;
            }
        }
    }
    for (i, f) in fixed.iter().enumerate() {
        if let Some(v) = f {
            a[i].iter_mut().for_each(|x| *x = 0.0);
            a[i][i] = 1.0;
            a[i][m] = *v;
        }
    }
    let mut col: Vec<usize> = (0..m).collect();
    let scale = a.iter().flatten().fold(1.0f64, |s, x| s.max(x.abs()));
    for k in 0..m {
        let (mut br, mut bc, mut best) = (k, k, 0.0);
        for (r, row) in a.iter().enumerate().skip(k) {
            for (c, x) in row.iter().enumerate().take(m).skip(k) {
                if x.abs() > best {
                    (br, bc, best) = (r, c, x.abs());
                }
            }
        }
        if best < 1e-9 {
            let off = a[k..].iter().any(|r| r[m].abs() > 1e-9 * scale);
            return if off { Exact::None } else { Exact::Many };
        }
        a.swap(k, br);
        col.swap(k, bc);
        a.iter_mut().for_each(|r| r.swap(k, bc));
        let pivot = a[k].clone();
        for (r, row) in a.iter_mut().enumerate() {
            if r != k && row[k] != 0.0 {
                let f = row[k] / pivot[k];
                for c in k..=m {
                    row[c] -= f * pivot[c];
                }
            }
        }
    }
    let mut v = vec![0.0; m];
    for k in 0..m {
        v[col[k]] = a[k][m] / a[k][k];
    }
    v.truncate(n);
    Exact::One(v)
}

/// Potentials and fluxes as reported.
pub type Report = (BTreeMap<String, Vec<f64>>, BTreeMap<String, Vec<f64>>);

pub fn report_of(r: &NodalAnalysisStudyResult) -> Result<Report, String> {
    let v = serde_json::to_value(r).map_err(|e| e.to_string())?;
    report_of_json(&v)
}

pub fn report_of_json(v: &serde_json::Value) -> Result<Report, String> {
    let map = |k: &str| -> Result<BTreeMap<String, Vec<f64>>, String> {
        let o = v.get(k).and_then(|o| o.as_object()).ok_or(format!("no {k} in the result"))?;
        o.iter()
            .map(|(n, x)| {
                let x = x.as_array().ok_or("not a list")?.iter().map(|f| f.as_f64().unwrap_or(f64::NAN)).collect();
                Ok((n.clone(), x))
            })
            .collect()
    };
    Ok((map("nodes")?, map("elements")?))
}

pub fn load(json: &str) -> Result<NodalAnalysisModel, String> {
    NodalAnalysisModel::from_str(json).map_err(|e| e.to_string())
}

/// Loads and solves a model; the outer error is a panic or an unreadable result.
pub fn solve(json: &str, margin: f64, limit: usize) -> Result<Result<Report, String>, String> {
    let r = catch(|| {
        let model = load(json)?;
        NodalAnalysisStudyBuilder::from_model_with_default_config(model).run_study(margin, limit).map_err(|e| e.to_string())
    })
    .map_err(|p| format!("panicked: {p}"))?;
    match r {
        Ok(r) => report_of(&r).map(Ok),
        Err(e) => Ok(Err(e)),
    }
}

/// The same through the calls that put a model together, one after the other.
pub fn solve_built(net: &Net, margin: f64, limit: usize) -> Result<Result<Report, String>, String> {
    let r = catch(|| -> Result<_, String> {
        let mut b = NodalAnalysisStudyBuilder::new(net.model.to_string(), None).map_err(|e| e.to_string())?;
        // nodes arrive in two portions, some of them after the first elements
        let first = net.nodes.div_ceil(2);
        b = b.add_nodes(first);
        let mut rest = net.nodes - first;
        for (i, v, l) in &net.config {
            b = b.configure_node(*i, vec![*v], *l, None);
        }
        for e in &net.elems {
            if e.a.max(e.b) >= first && rest > 0 {
                b = b.add_nodes(rest);
                rest = 0;
            }
            b = b.add_element(e.name, e.a, e.b, e.gain.clone()).map_err(|e| e.to_string())?;
        }
        b.add_nodes(rest).run_study(margin, limit).map_err(|e| e.to_string())
    })
    .map_err(|p| format!("panicked: {p}"))?;
    match r {
        Ok(r) => report_of(&r).map(Ok),
        Err(e) => Ok(Err(e)),
    }
}

/// The laws a reported solution has to satisfy.
pub fn laws(net: &Net, rep: &Report, margin: f64) -> Result<(), String> {
    let (nodes, fluxes) = rep;
    if nodes.len() != net.nodes || fluxes.len() != net.elems.len() {
        return Err(format!("{} nodes and {} elements reported", nodes.len(), fluxes.len()));
    }
    let get = |m: &BTreeMap<String, Vec<f64>>, k: String| match m.get(&k) {
        Some(v) if v.len() == 1 && v[0].is_finite() => Ok(v[0]),
        v => Err(format!("{k} is {v:?}")),
    };
    let v: Vec<f64> = (0..net.nodes).map(|i| get(nodes, i.to_string())).collect::<Result<_, _>>()?;
    let f: Vec<f64> = net.elems.iter().enumerate().map(|(i, e)| get(fluxes, format!("{}.{i}", e.name))).collect::<Result<_, _>>()?;
    for (i, p) in net.fixed().iter().enumerate() {
        if let Some(p) = p {
            if v[i] != *p {
                return Err(format!("node {i} is locked at {p} and reported at {}", v[i]));
            }
        }
    }
    let tol = margin + 1e-9 * v.iter().chain(&f).fold(1.0f64, |s, x| s.max(x.abs()));
    let mut sum = vec![0.0; net.nodes];
    for (i, e) in net.elems.iter().enumerate() {
        let bad = match e.kind {
            Kind::Pass => f[i] - (v[e.a] - v[e.b]) * e.value,
            Kind::Push => f[i] - e.value,
            Kind::Rise => v[e.b] - v[e.a] - e.value,
        };
        if bad.abs() > tol {
            return Err(format!("element {i} ({}) has flux {} between {} and {}, off by {bad}", e.name, f[i], v[e.a], v[e.b]));
        }
        sum[e.a] -= f[i];
        sum[e.b] += f[i];
    }
    for (i, p) in net.fixed().iter().enumerate() {
        if p.is_none() && sum[i].abs() > tol {
            return Err(format!("the fluxes into node {i} sum up to {}: potentials {v:?}, fluxes {f:?}", sum[i]));
        }
    }
    Ok(())
}

/// Solves a network and compares with the reference. Returns the potentials if solved.
pub fn check(net: &Net, margin: f64, st: &mut Stats) -> Result<Option<Vec<f64>>, String> {
    st.step();
    judge(net, solve_built(net, margin, 100), "built", margin, st)?;
    check_json(net, &net.json(), margin, st)
}

pub fn check_json(net: &Net, json: &str, margin: f64, st: &mut Stats) -> Result<Option<Vec<f64>>, String> {
    st.step();
    judge(net, solve(json, margin, 100), "loaded", margin, st)
}

fn judge(net: &Net, got: Result<Result<Report, String>, String>, how: &str, margin: f64, st: &mut Stats) -> Result<Option<Vec<f64>>, String> {
    let at = |e: String| format!("{e} [{how}: {}]", net.short());
    let got = got.map_err(at)?;
    let ok = net.accepted();
    let want = if ok { exact(net) } else { Exact::None };
    match (&got, &want) {
        (Ok(rep), Exact::One(v)) => {
            laws(net, rep, margin).map_err(at)?;
            let p: Vec<f64> = (0..net.nodes).map(|i| rep.0[&i.to_string()][0]).collect();
            if p.iter().zip(v).any(|(a, b)| !mc_core::util::close(*a, *b, 1e-6)) {
                return Err(at(format!("potentials {p:?}, expected {v:?}")));
            }
            st.outcome("the solution");
            Ok(Some(p))
        }
        (Ok(rep), Exact::Many) => {
            laws(net, rep, margin).map_err(at)?;
            st.outcome("one of many solutions");
            Ok(None)
        }
        (Ok(rep), Exact::None) => Err(at(format!("solved as {rep:?}, which is impossible (accepted: {ok})"))),
        (Err(e), Exact::One(v)) => Err(at(format!("refused with {e:?}, expected {v:?}"))),
        (Err(_), _) => {
            st.outcome(if !ok { "source between determined nodes refused" } else if want == Exact::Many { "undetermined network refused" } else { "contradiction refused" });
            Ok(None)
        }
    }
}
