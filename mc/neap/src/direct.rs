//! A07, A08: nodes and elements used directly, and studies with elements of one's own.

use crate::common::*;
use mc_core::{alloc, catch, clear_panic, hash::with_hash_seed, util, Ctx, Stats};
use neapolitan::modelling::element::{ElementConstructor, GenericElement};
use neapolitan::modelling::GenericNode;
use neapolitan::{dc_circuits, get_node_potential, heat_transfer, is_locked, lock_node, set_node_potential, Matrix, NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::{Rc, Weak};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Set(usize, f64),
    Lock(usize),
    Drop(usize),
    /// constructor, input, output
    Add(usize, usize, usize),
    /// constructor, number of values
    Bad(usize, usize),
}

type Make = fn(Weak<RefCell<GenericNode>>, Weak<RefCell<GenericNode>>, Vec<f64>) -> anyhow::Result<Rc<GenericElement>>;

/// Constructor, kind, gains for up to two components, what they mean.
const MAKE: [(Make, Kind, [f64; 2], [f64; 2]); 7] = [
    (dc_circuits::resistor, Kind::Pass, [2.0, 9.0], [0.5, 0.5]),
    (dc_circuits::voltage_source, Kind::Rise, [3.0, -1.0], [3.0, -1.0]),
    (dc_circuits::current_source, Kind::Push, [0.25, 4.0], [0.25, 4.0]),
    (heat_transfer::conductor, Kind::Pass, [1.5, 0.0], [1.5, 1.5]),
    (heat_transfer::temperature_delta, Kind::Rise, [-7.0, 0.5], [-7.0, 0.5]),
    (heat_transfer::heat_flux, Kind::Push, [-2.0, 1.0], [-2.0, 1.0]),
    (heat_transfer::convection_interface, Kind::Pass, [8.0, 0.0], [8.0, 8.0]),
];

struct El {
    kind: Kind,
    a: usize,
    b: usize,
    value: [f64; 2],
    drives_output: bool,
}

struct Model {
    dim: usize,
    alive: Vec<bool>,
    locked: Vec<bool>,
    v: Vec<[f64; 2]>,
    els: Vec<El>,
}

impl Model {
    fn driven(&self, e: &El) -> (usize, usize) {
        if e.drives_output {
            (e.b, e.a)
        } else {
            (e.a, e.b)
        }
    }
    /// A source of potential that ends up driving its own driver.
    fn circular(&self) -> bool {
        (0..self.v.len()).any(|start| {
            let mut at = start;
            for _ in 0..=self.v.len() {
                match self.els.iter().find(|e| e.kind == Kind::Rise && self.driven(e).0 == at) {
                    Some(e) => at = self.driven(e).1,
                    None => return false,
                }
            }
            true
        })
    }
    fn settle(&mut self) {
        for _ in 0..self.els.len() {
            for i in 0..self.els.len() {
                let e = &self.els[i];
                if e.kind == Kind::Rise && self.alive[e.a] && self.alive[e.b] {
                    let (to, from) = self.driven(e);
                    let sign = if e.drives_output { 1.0 } else { -1.0 };
                    let value = e.value;
                    for c in 0..2 {
                        self.v[to][c] = self.v[from][c] + sign * value[c];
                    }
                }
            }
        }
    }
    fn flux(&self, e: &El) -> Option<[f64; 2]> {
        if !self.alive[e.a] || !self.alive[e.b] {
            return None;
        }
        let each = |f: &dyn Fn(usize) -> f64| [f(0), f(1)];
        Some(match e.kind {
            Kind::Pass => each(&|c| (self.v[e.a][c] - self.v[e.b][c]) * e.value[c]),
            Kind::Push => e.value,
            Kind::Rise => {
                let d = self.balance(self.driven(e).0)?;
                each(&|c| if e.drives_output { -d[c] } else { d[c] })
            }
        })
    }
    /// What flows into a node less what flows out, without the source that drives it.
    fn balance(&self, node: usize) -> Option<[f64; 2]> {
        let mut d = [0.0; 2];
        for e in &self.els {
            if e.kind == Kind::Rise && self.driven(e).0 == node {
                continue;
            }
            if e.a != node && e.b != node {
                continue;
            }
            let f = self.flux(e)?;
            for c in 0..2 {
                d[c] += if e.b == node { f[c] } else { 0.0 } - if e.a == node { f[c] } else { 0.0 };
            }
        }
        Some(d)
    }
}

fn same(got: &anyhow::Result<Matrix<f64>>, want: &Option<[f64; 2]>, dim: usize) -> bool {
    match (got, want) {
        (Ok(m), Some(w)) => m.get_rows() == dim && m.get_cols() == 1 && (0..dim).all(|c| util::close(m[(c, 0)], w[c], 1e-9)),
        (Err(_), None) => true,
        _ => false,
    }
}

fn history(dim: usize, n: usize, ops: &[Op], st: &mut Stats) -> Result<(), String> {
    let mut states: Vec<u64> = Vec::with_capacity(ops.len());
    let mut steps = 0u64;
    let before = alloc::balance();
    let res = explore(dim, n, ops, &mut states, &mut steps);
    let outcome = res?;
    clear_panic();
    let left = alloc::balance() - before;
    st.steps(steps);
    st.outcome(outcome);
    states.iter().for_each(|s| st.state(*s));
    if left != 0 {
        return Err(format!("{left} blocks of memory are left"));
    }
    Ok(())
}

fn explore(dim: usize, n: usize, ops: &[Op], states: &mut Vec<u64>, steps: &mut u64) -> Result<&'static str, String> {
    {
        let mut nodes: Vec<Option<Rc<RefCell<GenericNode>>>> = (0..n).map(|_| Some(GenericNode::new())).collect();
        let weak: Vec<Weak<RefCell<GenericNode>>> = nodes.iter().map(|x| Rc::downgrade(x.as_ref().unwrap())).collect();
        let mut els: Vec<Rc<GenericElement>> = vec![];
        let mut m = Model { dim, alive: vec![true; n], locked: vec![false; n], v: vec![[1.0; 2]; n], els: vec![] };
        if dim == 2 {
            for (i, w) in weak.iter().enumerate() {
                m.v[i] = [1.0, -4.0];
                set_node_potential(w, m.v[i].to_vec()).map_err(|e| e.to_string())?;
            }
        }
        let mut run = || -> Result<&'static str, String> {
            for op in ops {
                *steps += 1;
                match *op {
                    Op::Set(i, x) => {
                        m.v[i] = [x, x * x];
                        let r = set_node_potential(&weak[i], m.v[i][..m.dim].to_vec());
                        if r.is_ok() != m.alive[i] {
                            return Err(format!("set_node_potential on node {i}: {:?}", r.err()));
                        }
                    }
                    Op::Lock(i) => {
                        m.locked[i] |= m.alive[i];
                        let r = lock_node(&weak[i]);
                        if r.is_ok() != m.alive[i] {
                            return Err(format!("lock_node on node {i}: {:?}", r.err()));
                        }
                    }
                    Op::Drop(i) => {
                        nodes[i] = None;
                        m.alive[i] = false;
                    }
                    Op::Add(k, a, b) => {
                        let (make, kind, gain, value) = MAKE[k];
                        let gain = if kind == Kind::Pass { gain[..1].to_vec() } else { gain[..m.dim].to_vec() };
                        let r = make(weak[a].clone(), weak[b].clone(), gain);
                        let ok = m.alive[a] && m.alive[b] && (kind != Kind::Rise || !m.locked[a] || !m.locked[b]);
                        match r {
                            Ok(e) if ok => {
                                let drives_output = kind == Kind::Rise && !m.locked[b];
                                let e2 = El { kind, a, b, value, drives_output };
                                if kind == Kind::Rise {
                                    let (to, from) = m.driven(&e2);
                                    let sign = if drives_output { 1.0 } else { -1.0 };
                                    m.locked[to] = true;
                                    for c in 0..2 {
                                        m.v[to][c] = m.v[from][c] + sign * value[c];
                                    }
                                    let p = get_node_potential(&weak[to]);
                                    if !same(&p, &Some(m.v[to]), m.dim) {
                                        return Err(format!("node {to} is at {p:?} once it is driven, expected {:?}", m.v[to]));
                                    }
                                }
                                m.els.push(e2);
                                els.push(e);
                            }
                            Err(_) if !ok => {}
                            r => return Err(format!("constructor {k} from {a} to {b}: {:?}", r.err())),
                        }
                    }
                    Op::Bad(k, len) => {
                        if make_bad(k, len, &weak).is_ok() {
                            return Err(format!("constructor {k} took {len} values"));
                        }
                    }
                }
                for i in 0..n {
                    let l = is_locked(&weak[i]);
                    if m.alive[i] && l.as_ref().ok() != Some(&m.locked[i]) || !m.alive[i] && l.is_ok() {
                        return Err(format!("is_locked of node {i} is {l:?}"));
                    }
                }
                if m.circular() {
                    // potentials that depend on themselves: reported, nothing else is known
                    for (e, r) in m.els.iter().zip(&els) {
                        let f = r.get_flux();
                        if e.kind == Kind::Rise && f.is_ok() {
                            // only a source that drives a node of the circle is certain to fail
                            let mut at = m.driven(e).1;
                            for _ in 0..n {
                                match m.els.iter().find(|x| x.kind == Kind::Rise && m.driven(x).0 == at) {
                                    Some(x) if at != m.driven(e).0 => at = m.driven(x).1,
                                    _ => break,
                                }
                            }
                            if at == m.driven(e).0 {
                                return Err(format!("a source in a circle of sources has flux {f:?}"));
                            }
                        }
                    }
                    return Ok("circle of sources refused");
                }
                // Reading a source brings what it drives up to date.
                m.settle();
                for _ in 0..m.els.len() {
                    for (e, r) in m.els.iter().zip(&els) {
                        if e.kind == Kind::Rise {
                            let _ = r.get_flux();
                        }
                    }
                }
                for i in 0..n {
                    let p = get_node_potential(&weak[i]);
                    if !same(&p, &m.alive[i].then_some(m.v[i]), m.dim) {
                        return Err(format!("node {i} is at {p:?}, expected {:?}", m.v[i]));
                    }
                }
                for (k, (e, r)) in m.els.iter().zip(&els).enumerate() {
                    let f = r.get_flux();
                    *steps += 1;
                    if !same(&f, &m.flux(e), m.dim) {
                        return Err(format!("element {k} has flux {f:?}, expected {:?}", m.flux(e)));
                    }
                }
                for i in 0..n {
                    if let Some(node) = &nodes[i] {
                        let d = node.borrow().get_flux_discrepancy();
                        *steps += 1;
                        if !same(&d, &m.balance(i), m.dim) {
                            return Err(format!("node {i} has a balance of {d:?}, expected {:?}", m.balance(i)));
                        }
                    }
                }
                let flat: Vec<f64> = m.v.iter().flatten().copied().chain(m.els.iter().map(|e| e.a as f64 * 3.0 + e.b as f64)).collect();
                states.push(util::fnv_f64(&flat));
            }
            Ok("consistent")
        };
        run()
    }
}

fn make_bad(k: usize, len: usize, weak: &[Weak<RefCell<GenericNode>>]) -> anyhow::Result<Rc<GenericElement>> {
    MAKE[k].0(weak[0].clone(), weak[1].clone(), vec![1.0; len])
}

/// d + d^3 times the gain, in every component.
fn cubic_flux(i: Rc<RefCell<GenericNode>>, o: Rc<RefCell<GenericNode>>, gain: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    let (a, b) = (get_node_potential(&Rc::downgrade(&i))?, get_node_potential(&Rc::downgrade(&o))?);
    let f: Vec<f64> = (0..a.get_rows())
        .map(|c| {
            let d = a[(c, 0)] - b[(c, 0)];
            gain[(0, 0)] * (d + d * d * d)
        })
        .collect();
    Ok(Matrix::from_col_vec(f))
}

fn cubic(a: Weak<RefCell<GenericNode>>, b: Weak<RefCell<GenericNode>>, gain: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(gain, a, b, cubic_flux, false, true, true)
}

/// An element that only its output knows, and one that only its input knows.
fn leak(a: Weak<RefCell<GenericNode>>, b: Weak<RefCell<GenericNode>>, gain: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(gain, a, b, neapolitan::flux_formulas::constant_flux, false, true, false)
}

fn broken(_: Weak<RefCell<GenericNode>>, _: Weak<RefCell<GenericNode>>, _: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    anyhow::bail!("this element is never made")
}

fn broken_flux(_: Rc<RefCell<GenericNode>>, _: Rc<RefCell<GenericNode>>, _: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    anyhow::bail!("this flux is never known")
}

fn unknown_flux(a: Weak<RefCell<GenericNode>>, b: Weak<RefCell<GenericNode>>, gain: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(gain, a, b, broken_flux, false, true, true)
}

fn config(dim: usize) -> anyhow::Result<HashMap<String, NodalAnalysisStudyConfigurator>> {
    let c = NodalAnalysisStudyConfigurator::new(dim)
        .add_element_type("pass", dc_circuits::resistor as ElementConstructor)?
        .add_element_type("rise", dc_circuits::voltage_source)?
        .add_element_type("push", heat_transfer::heat_flux)?
        .add_element_type("cubic", cubic)?
        .add_element_type("leak", leak)?
        .add_element_type("broken", broken)?
        .add_element_type("unknown", unknown_flux)?;
    Ok(HashMap::from([("mine".to_string(), c), ("other".to_string(), NodalAnalysisStudyConfigurator::new(1))]))
}

/// (element, input, output, gain scale)
type Spec = (&'static str, usize, usize, f64);

/// A different value for each component.
fn factor(first: [f64; 3], c: usize) -> f64 {
    first[c % 3] * (1 + c / 3) as f64
}

fn gains(s: &Spec, dim: usize) -> Vec<f64> {
    match s.0 {
        "rise" | "push" | "leak" => (0..dim).map(|c| s.3 * factor([1.0, -2.0, 0.5], c)).collect(),
        _ => vec![s.3],
    }
}

fn study(dim: usize, nodes: usize, ground: &[(usize, f64)], specs: &[Spec], seed: u64) -> Result<Result<Report, String>, String> {
    with_hash_seed(seed, || {
        catch(|| {
            let run = || -> anyhow::Result<_> {
                let mut b = NodalAnalysisStudyBuilder::new("mine".into(), Some(config(dim)?))?.add_nodes(nodes);
                for (i, p) in ground {
                    b = b.configure_node(*i, (0..dim).map(|c| p * factor([1.0, 3.0, -1.0], c)).collect(), true, None);
                }
                for s in specs {
                    b = b.add_element(s.0, s.1, s.2, gains(s, dim))?;
                }
                b.run_study(1e-8, 100)
            };
            match run() {
                Ok(r) => report_of(&r).map(Ok),
                Err(e) => Ok(Err(e.to_string())),
            }
        })
        .map_err(|p| format!("panicked: {p}"))?
    })
}

/// One component of a study as a network.
fn component(c: usize, nodes: usize, ground: &[(usize, f64)], specs: &[Spec]) -> Net {
    Net {
        model: "mine",
        nodes,
        config: ground.iter().map(|(i, p)| (*i, p * factor([1.0, 3.0, -1.0], c), true)).collect(),
        elems: specs
            .iter()
            .map(|s| {
                let g = gains(s, c + 1);
                let (kind, value) = match s.0 {
                    "pass" => (Kind::Pass, 1.0 / s.3),
                    "rise" => (Kind::Rise, g[c]),
                    _ => (Kind::Push, g[c]),
                };
                Elem { kind, name: s.0, a: s.1, b: s.2, gain: vec![], value }
            })
            .collect(),
    }
}

fn pick(r: &Report, c: usize) -> Report {
    let one = |m: &std::collections::BTreeMap<String, Vec<f64>>| m.iter().map(|(k, v)| (k.clone(), v.get(c).copied().into_iter().collect())).collect();
    (one(&r.0), one(&r.1))
}

fn linear(dim: usize, nodes: usize, ground: &[(usize, f64)], specs: &[Spec], seed: u64, st: &mut Stats) -> Result<(), String> {
    st.step();
    let got = study(dim, nodes, ground, specs, seed)?;
    let nets: Vec<Net> = (0..dim).map(|c| component(c, nodes, ground, specs)).collect();
    let want: Vec<Exact> = nets.iter().map(|n| if n.accepted() { exact(n) } else { Exact::None }).collect();
    let solvable = want.iter().all(|w| matches!(w, Exact::One(_)));
    match got {
        Ok(r) => {
            if r.0.values().chain(r.1.values()).any(|v| v.len() != dim) {
                return Err(format!("components of {r:?}"));
            }
            for (c, n) in nets.iter().enumerate() {
                if want[c] == Exact::None {
                    return Err(format!("solved as {r:?}"));
                }
                laws(n, &pick(&r, c), 1e-8)?;
                if let Exact::One(w) = &want[c] {
                    if (0..nodes).any(|i| !util::close(r.0[&i.to_string()][c], w[i], 1e-6)) {
                        return Err(format!("component {c} of {r:?}, expected {w:?}"));
                    }
                }
            }
            for v in r.0.values().chain(r.1.values()) {
                st.state(util::fnv_f64(v));
            }
            st.outcome("solved in every component");
            Ok(())
        }
        Err(e) if solvable => Err(format!("refused with {e:?}, expected {want:?}")),
        Err(_) => {
            st.outcome("refused");
            Ok(())
        }
    }
}

fn nonlinear(nodes: usize, ground: &[(usize, f64)], specs: &[Spec], dim: usize, seed: u64, must: bool, st: &mut Stats) -> Result<(), String> {
    st.step();
    let r = match study(dim, nodes, ground, specs, seed)? {
        Ok(r) => r,
        Err(e) if must => return Err(format!("refused with {e:?}")),
        Err(_) => {
            st.outcome("not solved");
            return Ok(());
        }
    };
    for c in 0..dim {
        let v: Vec<f64> = (0..nodes).map(|i| r.0[&i.to_string()][c]).collect();
        let mut sum = vec![0.0; nodes];
        for (i, s) in specs.iter().enumerate() {
            let f = r.1.get(&format!("{}.{i}", s.0)).ok_or(format!("no flux of element {i} in {r:?}"))?[c];
            let d = v[s.1] - v[s.2];
            let bad = match s.0 {
                "cubic" => f - s.3 * (d + d * d * d),
                "pass" => f - d / s.3,
                "rise" => -d - gains(s, dim)[c],
                _ => f - gains(s, dim)[c],
            };
            if !(bad.abs() <= 1e-6 * f.abs().max(1.0)) {
                return Err(format!("component {c} of element {i} is off by {bad}: {r:?}"));
            }
            sum[s.1] -= f;
            if s.0 != "leak" {
                sum[s.2] += f;
            }
        }
        for i in 0..nodes {
            match ground.iter().find(|g| g.0 == i) {
                Some(g) if v[i] != g.1 * factor([1.0, 3.0, -1.0], c) => return Err(format!("node {i} left its potential: {r:?}")),
                None if !(sum[i].abs() <= 1e-6) => return Err(format!("the fluxes into node {i} sum up to {}: {r:?}", sum[i])),
                _ => {}
            }
        }
    }
    st.outcome("nonlinear study solved");
    Ok(())
}

/// Many nodes and elements: a hub, a chain, a tangle; then nodes move, are locked and go.
fn large_histories(ctx: &mut Ctx) {
    for dim in 1..=2 {
        for (n, k) in [(4usize, 6usize), (9, 9), (17, 16), (17, 33), (40, 39), (66, 65), (5, 130), (5, 260)] {
            for shape in 0..4 {
                if k > 70 && shape == 1 {
                    continue;
                }
                ctx.case(
                    || format!("{dim} components, {n} nodes, {k} elements of shape {shape}"),
                    |st| {
                        let mut ops: Vec<Op> = (0..n).map(|i| Op::Set(i, i as f64 / 4.0 - 3.0)).collect();
                        let at = ops.len();
                        let pass = [0, 3, 2, 6, 5, 0];
                        for i in 0..k {
                            let (a, b) = (1 + i % (n - 1), (i * 7 + 3) % n);
                            ops.push(match shape {
                                // a hub that everything leads to and from
                                0 => Op::Add(pass[i % 6], if i % 2 == 0 { 0 } else { a }, if i % 2 == 0 { a } else { 0 }),
                                // a chain of sources with elements beside it
                                1 if i < n - 1 && i % 3 != 2 => Op::Add([1, 4][i % 2], i, i + 1),
                                1 => Op::Add(pass[i % 6], i % n, (i + 1) % n),
                                // one pair of nodes over and over
                                2 => Op::Add(pass[(i * 5) % 6], [1, 2][i % 2], [2, 1][i / 3 % 2]),
                                _ => Op::Add(pass[i % 6], a, b),
                            });
                        }
                        ops.extend([Op::Set(n / 2, 8.0), Op::Set(0, -1.0), Op::Lock(n - 1), Op::Set(n - 1, 2.5), Op::Drop(n - 2), Op::Set(1, 4.0), Op::Drop(0)]);
                        // everything is judged after every operation, so leave most of them out
                        let keep = ops.len();
                        if keep > 60 {
                            let (first, rest) = ops.split_at(at);
                            ops = first.iter().step_by(1 + first.len() / 8).chain(rest).copied().collect();
                        }
                        history(dim, n, &ops, st)
                    },
                );
            }
        }
    }
}

pub fn a07(ctx: &mut Ctx) {
    large_histories(ctx);
    // Histories on nodes and elements.
    for dim in 1..=2 {
        let mut ops = vec![];
        for i in 0..3 {
            ops.push(Op::Set(i, [5.0, -2.0, 0.5][i]));
            ops.push(Op::Lock(i));
            ops.push(Op::Drop(i));
        }
        let kinds: &[usize] = if ctx.quick() && dim == 2 { &[0, 1, 5] } else { &[0, 1, 2, 4] };
        for k in kinds {
            for (a, b) in [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)] {
                ops.push(Op::Add(*k, a, b));
            }
        }
        for k in [3, 6] {
            ops.push(Op::Add(k, 1, 0));
            ops.push(Op::Add(k, 2, 2));
        }
        for n in 0..=ctx.pick(4, 5) - (dim == 2) as usize {
            util::product(&vec![ops.len(); n], |ix| {
                // a drop at the end of a long history shows nothing that a shorter one does not
                ctx.case(
                    || format!("{dim} components: {:?}", ix.iter().map(|i| ops[*i]).collect::<Vec<_>>()),
                    |st| history(dim, 3, &ix.iter().map(|i| ops[*i]).collect::<Vec<_>>(), st),
                );
            });
        }
        // Chains of sources of potential in every direction and order.
        let rises: Vec<Op> = [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)].iter().flat_map(|(a, b)| [Op::Add(1, *a, *b), Op::Add(4, *a, *b)]).collect();
        let tails = [Op::Set(0, 7.0), Op::Set(1, 7.0), Op::Set(2, 7.0), Op::Add(0, 0, 1), Op::Add(2, 1, 2), Op::Add(3, 2, 0), Op::Lock(0), Op::Lock(2)];
        for r in &rises {
            for s in &rises {
                util::product(&vec![tails.len(); ctx.pick(3, 4)], |ix| {
                    for at in 0..=2 {
                        let mut h: Vec<Op> = ix.iter().map(|i| tails[*i]).collect();
                        h.insert(0, *r);
                        h.insert(at, *s);
                        ctx.case(|| format!("{dim} components: {h:?}"), |st| history(dim, 3, &h, st));
                    }
                });
            }
        }
        for (k, (_, kind, ..)) in MAKE.iter().enumerate() {
            for len in 0..5 {
                let fine = match (k, kind) {
                    (0, _) => len >= 1,
                    (3, _) => len == 1 || len == 2,
                    (_, Kind::Pass) => len == 1,
                    _ => len == dim,
                };
                if fine {
                    continue;
                }
                for lead in [vec![], vec![Op::Lock(1)], vec![Op::Add(0, 0, 1)], vec![Op::Add(1, 1, 2)], vec![Op::Drop(2)]] {
                    let mut h = lead;
                    h.push(Op::Bad(k, len));
                    h.push(Op::Add(2, 0, 1));
                    h.push(Op::Set(0, 4.0));
                    ctx.case(|| format!("{dim} components: {h:?}"), |st| history(dim, 3, &h, st));
                }
            }
        }
    }
}

pub fn a08(ctx: &mut Ctx) {
    // Studies with more components per node.
    let mut letters: Vec<Spec> = vec![];
    for (a, b) in [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)] {
        letters.extend([("pass", a, b, 2.0), ("rise", a, b, 3.0), ("push", a, b, 1.0)]);
    }
    for dim in 1..=3usize {
        for len in 0..=ctx.pick(3, 4) {
            util::product(&vec![letters.len(); len], |ix| {
                if len > 3 && ix.windows(2).any(|w| w[0] > w[1]) {
                    return;
                }
                let specs: Vec<Spec> = ix.iter().map(|i| letters[*i]).collect();
                ctx.case(
                    || format!("study of {dim} components: {specs:?}"),
                    |st| {
                        for ground in [&[(0, 0.0)][..], &[(1, 2.0)], &[(0, 1.0), (2, -3.0)], &[]] {
                            for seed in 1..=2 {
                                linear(dim, 3, ground, &specs, seed, st).map_err(|e| format!("{e} [{ground:?}]"))?;
                            }
                        }
                        Ok(())
                    },
                );
            });
        }
    }
    // Values of zero and below, too.
    for (a, b) in [(0, 1), (1, 2), (2, 0)] {
        letters.extend([("pass", a, b, f64::INFINITY), ("pass", a, b, -0.75), ("rise", a, b, 0.0), ("rise", a, b, -2.0), ("push", a, b, 0.0), ("push", a, b, -4.0)]);
    }
    for dim in 1..=3usize {
        for len in 1..=3 {
            util::product(&vec![letters.len(); len], |ix| {
                if ix.iter().all(|i| *i < 18) || len > 2 && ctx.quick() && ix.windows(2).any(|w| w[0] > w[1]) {
                    return;
                }
                let specs: Vec<Spec> = ix.iter().map(|i| letters[*i]).collect();
                ctx.case(
                    || format!("study of {dim} components: {specs:?}"),
                    |st| {
                        for ground in [&[(0, 0.0)][..], &[(1, 2.0)], &[(0, 1.0), (2, -3.0)]] {
                            linear(dim, 3, ground, &specs, 1, st).map_err(|e| format!("{e} [{ground:?}]"))?;
                        }
                        Ok(())
                    },
                );
            });
        }
    }
    // Many components, many nodes.
    for dim in [4usize, 5, 7, 8, 9, 15, 16, 17, 32, 33] {
        for k in 0..6 {
            ctx.case(
                || format!("study of {dim} components, network {k}"),
                |st| {
                    let specs: &[Spec] = [
                        &[("rise", 0, 1, 3.0), ("pass", 1, 2, 2.0), ("pass", 2, 0, 4.0)][..],
                        &[("push", 0, 1, 3.0), ("pass", 1, 2, 2.0), ("pass", 2, 0, 4.0), ("pass", 0, 1, 1.0)],
                        &[("pass", 0, 1, 1.0), ("rise", 2, 1, -2.0), ("pass", 0, 2, 0.5), ("push", 1, 2, 1.0)],
                        &[("pass", 2, 1, 1.0), ("pass", 1, 0, 2.0), ("pass", 2, 0, 2.0), ("push", 1, 2, 3.0)],
                        &[("rise", 2, 1, 1.0), ("rise", 1, 0, 2.0), ("pass", 2, 0, 2.0)],
                        &[("pass", 2, 1, 1.0), ("push", 1, 0, 2.0)],
                    ][k];
                    for ground in [&[(0, 0.0)][..], &[(1, 2.0)], &[(0, 1.0), (2, -3.0)]] {
                        linear(dim, 3, ground, specs, 1, st).map_err(|e| format!("{e} [{ground:?}]"))?;
                    }
                    Ok(())
                },
            );
        }
        for len in [2usize, 5, 9].into_iter().filter(|len| dim * len < 90) {
            ctx.case(
                || format!("ladder of {len} sections with {dim} components"),
                |st| {
                    let mut specs: Vec<Spec> = (0..len).map(|i| if i % 4 == 3 { ("rise", i, i + 1, 2.0) } else { ("pass", i + 1, i, 1.0 + i as f64 / 2.0) }).collect();
                    specs.push(("pass", len, 0, 3.0));
                    specs.push(("push", len / 2, 0, 1.0));
                    linear(dim, len + 1, &[(0, 1.0)], &specs, 2, st)
                },
            );
        }
    }
    // Nonlinear elements.
    let mut letters: Vec<Spec> = vec![];
    for (a, b) in [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2)] {
        letters.extend([("cubic", a, b, 2.0), ("cubic", a, b, 0.25), ("pass", a, b, 1.0), ("push", a, b, 3.0), ("leak", a, b, -2.0), ("rise", a, b, 2.0)]);
    }
    for len in 1..=ctx.pick(3, 4) {
        util::product(&vec![letters.len(); len], |ix| {
            if ix.windows(2).any(|w| w[0] >= w[1]) {
                return;
            }
            let specs: Vec<Spec> = ix.iter().map(|i| letters[*i]).collect();
            // every node is tied to the ground by something that conducts
            let mut tied = [true, false, false];
            for _ in 0..3 {
                for s in specs.iter().filter(|s| s.0 == "cubic" || s.0 == "pass") {
                    tied[s.1] |= tied[s.2];
                    tied[s.2] |= tied[s.1];
                }
            }
            let must = tied == [true; 3] && !specs.iter().any(|s| s.0 == "rise");
            ctx.case(
                || format!("nonlinear: {specs:?}"),
                |st| {
                    for dim in 1..=2 {
                        for ground in [&[(0, 0.0)][..], &[(0, 3.0)]] {
                            nonlinear(3, ground, &specs, dim, 1, must, st).map_err(|e| format!("{e} [{ground:?}, {dim}]"))?;
                        }
                    }
                    Ok(())
                },
            );
        });
    }
    // Elements that fail, names that collide, types that are not there.
    let fails: [(&str, &[Spec]); 6] = [
        ("an element that cannot be made", &[("pass", 0, 1, 1.0), ("broken", 0, 1, 1.0)]),
        ("a flux that is not known", &[("pass", 0, 1, 1.0), ("unknown", 0, 1, 1.0)]),
        ("only a flux that is not known", &[("unknown", 1, 0, 1.0)]),
        ("a default element", &[("resistor", 0, 1, 1.0)]),
        ("no element type", &[("", 0, 1, 1.0)]),
        ("a driven node with a flux that is not known", &[("rise", 0, 1, 1.0), ("unknown", 1, 0, 1.0)]),
    ];
    for (what, specs) in fails {
        for dim in 1..=2 {
            ctx.case(
                || format!("{what}, {dim} components"),
                |st| {
                    st.step();
                    st.outcome("refused");
                    match study(dim, 2, &[(0, 0.0)], specs, 1)? {
                        Err(_) => Ok(()),
                        Ok(r) => Err(format!("solved as {r:?}")),
                    }
                },
            );
        }
    }
    let names = ["a", "b", "resistor", ""];
    for n in 0..=4 {
        util::product(&vec![names.len(); n], |ix| {
            ctx.case(
                || format!("element types {:?}", ix.iter().map(|i| names[*i]).collect::<Vec<_>>()),
                |st| {
                    let mut c = NodalAnalysisStudyConfigurator::new(1);
                    for (k, i) in ix.iter().enumerate() {
                        st.step();
                        c = match c.add_element_type(names[*i], dc_circuits::resistor) {
                            Ok(c) if !ix[..k].contains(i) => c,
                            Err(_) if ix[..k].contains(i) => {
                                st.outcome("name taken");
                                return Ok(());
                            }
                            r => return Err(format!("type {k}: {:?}", r.err())),
                        };
                    }
                    st.outcome("named");
                    // every name makes an element, no other does
                    for name in names.iter().copied().chain(["c", "A"]) {
                        let b = NodalAnalysisStudyBuilder::new("x".into(), Some(HashMap::from([("x".to_string(), c.clone())]))).map_err(|e| e.to_string())?;
                        let r = b.add_nodes(2).configure_node(0, vec![1.0], true, None).add_element(name, 0, 1, vec![1.0]).and_then(|b| b.run_study(1e-6, 50));
                        if r.is_ok() != ix.iter().any(|i| names[*i] == name) {
                            return Err(format!("element {name:?}: {r:?}"));
                        }
                    }
                    Ok(())
                },
            );
        });
    }
    for t in ["mine", "other", "dc_circuit", "heat_transfer", ""] {
        ctx.case(
            || format!("study type {t:?} of one's own"),
            |st| {
                st.step();
                let c = config(1).map_err(|e| e.to_string())?;
                let known = c.contains_key(t);
                match NodalAnalysisStudyBuilder::new(t.into(), Some(c)) {
                    Ok(b) if known => {
                        let r = b.add_nodes(2).configure_node(1, vec![4.0], true, None).add_element("pass", 0, 1, vec![1.0]).and_then(|b| b.run_study(1e-6, 50));
                        if r.is_ok() != (t == "mine") {
                            return Err(format!("{r:?}"));
                        }
                        Ok(())
                    }
                    Err(_) if !known => Ok(()),
                    r => Err(format!("{:?}", r.err())),
                }
            },
        );
    }
}
