//! A09: the error of a refused model names a fault that the model has.

use crate::common::*;
use crate::models::{arity_ok, make, NAMES};
use geqslib::errors::NewtonRaphsonSolverError;
use mc_core::cli::{run, Scratch};
use mc_core::{catch, util, Ctx, Stats};
use neapolitan::dc_circuits::{current_source, resistor as make_resistor, voltage_source};
use neapolitan::errors::*;
use neapolitan::heat_transfer::{conductor as make_conductor, convection_interface, heat_flux, temperature_delta, ConductorCreationError, ConvectionInterFaceCreationError};
use neapolitan::modelling::element::ElementConstructor;
use neapolitan::modelling::{GenericElement, GenericNode, NodalAnalysisModel};
use neapolitan::{get_node_potential, is_locked, lock_node, set_node_potential, Matrix, NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::{Rc, Weak};
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Cause {
    Study,
    ElementType,
    Node,
    Dimension,
    Gain,
    Conductor,
    Convection,
    /// Both nodes of a source are determined already.
    Driven,
    Margin,
    Limit,
    /// Any error that is none of the named ones: equations without a solution.
    Unsolvable,
    DroppedNode,
    DroppedFlux,
    ElementTwice,
    Own(usize),
}
use Cause::*;

#[derive(Debug)]
struct Mine(usize);
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "mine {}", self.0)
    }
}
impl std::error::Error for Mine {}

/// What the error says is wrong, and a word its text must have.
fn named(e: &anyhow::Error) -> (Cause, &'static str) {
    if let Some(e) = e.downcast_ref::<NodalAnalysisModellingError>() {
        return match e {
            NodalAnalysisModellingError::NodeDoesNotExist => (Node, "node"),
            NodalAnalysisModellingError::ModelTypeNotFound => (Study, "model type"),
            NodalAnalysisModellingError::ElementTypeNotFound => (ElementType, "element type"),
            NodalAnalysisModellingError::WrongPotentialDimension => (Dimension, "potential"),
        };
    }
    if let Some(e) = e.downcast_ref::<NewtonRaphsonSolverError>() {
        return match e {
            NewtonRaphsonSolverError::NegativeMargin => (Margin, "margin"),
            NewtonRaphsonSolverError::ReachedIterationLimit => (Limit, "iteration"),
            NewtonRaphsonSolverError::ImproperlyConstrainedSystem => (Unsolvable, ""),
        };
    }
    if let Some(e) = e.downcast_ref::<NodalAnalysisConfigurationError>() {
        return match e {
            NodalAnalysisConfigurationError::ElementTypeNameCollision => (ElementTwice, "element type"),
            NodalAnalysisConfigurationError::ConfigurationNameCollision => (Unsolvable, ""),
        };
    }
    if e.is::<ElementGainError>() {
        return (Gain, "gain");
    }
    if e.is::<ElementCreationError>() {
        return (Driven, "locked");
    }
    if e.is::<ConductorCreationError>() {
        return (Conductor, "conductor");
    }
    if e.is::<ConvectionInterFaceCreationError>() {
        return (Convection, "convection");
    }
    if e.is::<DroppedNodeError>() {
        return (DroppedNode, "dropped");
    }
    if e.is::<FluxCalculationError>() {
        return (DroppedFlux, "dropped");
    }
    if let Some(Mine(k)) = e.downcast_ref::<Mine>() {
        return (Own(*k), "mine");
    }
    (Unsolvable, "")
}

fn judge<T>(what: &str, got: Result<anyhow::Result<T>, String>, causes: &BTreeSet<Cause>, ok: bool, st: &mut Stats) -> Result<(), String> {
    st.step();
    match got {
        Err(p) => Err(format!("{what} panicked: {p}")),
        Ok(Ok(_)) if ok => Ok(()),
        Ok(Ok(_)) => Err(format!("{what} is accepted, but {causes:?}")),
        Ok(Err(e)) => {
            let (c, word) = named(&e);
            let text = e.to_string();
            if !causes.contains(&c) {
                return Err(format!("{what} says {text:?} ({c:?}), but what is wrong is {causes:?}"));
            }
            if !text.to_lowercase().contains(word) {
                return Err(format!("{what} describes {c:?} as {text:?}"));
            }
            st.state(util::fnv(what.as_bytes()));
            st.outcome(match c {
                Study => "study type named",
                ElementType => "element type named",
                Node => "node named",
                Dimension => "dimension named",
                Gain | Conductor | Convection => "gain named",
                Driven => "source without a free node named",
                Margin | Limit => "margin or limit named",
                Unsolvable => "unsolvable",
                DroppedNode | DroppedFlux => "dropped node named",
                ElementTwice => "element defined twice named",
                Own(_) => "own error passed on",
            });
            Ok(())
        }
    }
}

fn gain_fault(t: &str, name: &str, n: usize) -> Option<Cause> {
    let known = match t {
        "dc_circuit" => ["resistor", "voltage_source", "current_source"].contains(&name),
        _ => ["conductor", "convection_interface", "temperature_delta", "heat_flux"].contains(&name),
    };
    if !known {
        return Some(ElementType);
    }
    if arity_ok(t, name, n) {
        return None;
    }
    Some(match name {
        "conductor" => Conductor,
        "convection_interface" => Convection,
        _ => Gain,
    })
}

/// Node, number of values, locked.
type Config = (usize, usize, bool);

/// A model with any number of faults, through the calls and through its text.
fn model(t: &'static str, nodes: usize, config: &[Config], elems: &[Elem], margin: f64, limit: usize, st: &mut Stats) -> Result<(), String> {
    let known = t == "dc_circuit" || t == "heat_transfer";
    let mut faults = BTreeSet::new();
    if !known {
        faults.insert(Study);
    }
    for (node, len, _) in config {
        if *node >= nodes {
            faults.insert(Node);
        }
        if *len != 1 {
            faults.insert(Dimension);
        }
    }
    for e in elems {
        if e.a >= nodes || e.b >= nodes {
            faults.insert(Node);
        }
        if known {
            faults.extend(gain_fault(t, e.name, e.gain.len()));
        }
    }
    if margin <= 0.0 {
        faults.insert(Margin);
    }
    if limit == 0 {
        faults.insert(Limit);
    }
    // what is left without the faulty parts
    let net = Net {
        model: t,
        nodes,
        config: config.iter().filter(|c| c.0 < nodes && c.1 == 1).map(|c| (c.0, 5.0, c.2)).collect(),
        elems: elems.iter().filter(|e| e.a < nodes && e.b < nodes && known && arity_ok(t, e.name, e.gain.len())).cloned().collect(),
    };
    let mut ok = false;
    if known && !net.accepted() {
        faults.insert(Driven);
    } else if faults.is_empty() {
        match exact(&net) {
            Exact::One(_) => ok = true,
            Exact::Many => {
                ok = true;
                faults.extend([Unsolvable, Limit]);
            }
            Exact::None => faults.extend([Unsolvable, Limit]),
        }
    }
    let what = || format!("{t:?} of {nodes} nodes, {config:?}, {:?}, margin {margin}, limit {limit}", elems.iter().map(|e| (e.name, e.a, e.b, e.gain.len())).collect::<Vec<_>>());
    // put together by calls: what each call can know, it refuses
    let built = catch(|| -> anyhow::Result<()> {
        let mut b = NodalAnalysisStudyBuilder::new(t.to_string(), None)?.add_nodes(nodes);
        for (node, len, lock) in config {
            b = b.configure_node(*node, [5.0, 6.0, 7.0][..*len].to_vec(), *lock, None);
        }
        for e in elems {
            b = b.add_element(e.name, e.a, e.b, e.gain.clone())?;
        }
        b.run_study(margin, limit)?;
        Ok(())
    });
    judge(&what(), built, &faults, ok, st)?;
    let json = text(t, nodes, config, elems);
    let loaded = NodalAnalysisModel::from_str(&json).map_err(|e| format!("{json} is not loaded: {e}"))?;
    let got = catch(|| NodalAnalysisStudyBuilder::from_model_with_default_config(loaded).run_study(margin, limit));
    judge(&format!("{} (loaded)", what()), got, &faults, ok, st)
}

fn text(t: &str, nodes: usize, config: &[Config], elems: &[Elem]) -> String {
    let c: Vec<String> = config
        .iter()
        .map(|(i, n, l)| format!("\"{i}\": {{\"potential\": {:?}, \"is_locked\": {l}, \"metadata\": null}}", &[5.0, 6.0, 7.0][..*n]))
        .collect();
    let e: Vec<String> = elems
        .iter()
        .map(|e| format!("{{\"element_type\": \"{}\", \"input\": {}, \"output\": {}, \"gain\": {:?}}}", e.name, e.a, e.b, e.gain))
        .collect();
    format!("{{\"model_type\": \"{t}\", \"nodes\": {nodes}, \"configuration\": {{{}}}, \"elements\": [{}]}}", c.join(", "), e.join(", "))
}

fn models(ctx: &mut Ctx) {
    let types = ["dc_circuit", "heat_transfer", "nope", "", "DC_CIRCUIT"];
    let mut configs: Vec<Vec<Config>> = vec![vec![]];
    for node in [0, 1, 2, 70000] {
        for len in 0..4 {
            configs.push(vec![(node, len, true)]);
            configs.push(vec![(0, 1, true), (node + 1, len, len == 1)]);
        }
    }
    let steps = [(1e-8, 100), (0.0, 100), (-1.0, 100), (1e-8, 0), (0.0, 0)];
    let all = ctx.pick(4, 6);
    for t in types {
        for nodes in 0..all {
            for c in &configs {
                for name in NAMES {
                    ctx.case(
                        || format!("{t:?}, {nodes} nodes, {c:?}, {name:?}"),
                        |st| {
                            model(t, nodes, c, &[], 1e-8, 100, st)?;
                            for n in 0..4 {
                                for a in 0..=nodes.max(3) {
                                    for b in 0..=nodes.max(3) {
                                        for (margin, limit) in if n == 1 { &steps[..] } else { &steps[..1] } {
                                            model(t, nodes, c, &[make(name, a, b, &[2.0, 4.0, 8.0][..n])], *margin, *limit, st)?;
                                        }
                                    }
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // two and three elements: one fault in any of them
    let letters: Vec<(&'static str, usize)> = NAMES[..8].iter().flat_map(|n| [0usize, 1, 2, 3].map(|g| (*n, g))).collect();
    for t in ["dc_circuit", "heat_transfer"] {
        for (i, x) in letters.iter().enumerate() {
            for (j, y) in letters.iter().enumerate() {
                ctx.case(
                    || format!("{t:?} with {x:?} and {y:?}"),
                    |st| {
                        let ends = [(0, 1), (1, 2), (2, 0), (1, 1), (2, 3)];
                        for (a, b) in ends {
                            for (c, d) in ends {
                                for config in [&[(0, 1, true)][..], &[(0, 1, true), (2, 1, true)], &[(1, 2, true)], &[]] {
                                    let mut elems = vec![make(x.0, a, b, &[2.0, 4.0, 8.0][..x.1]), make(y.0, c, d, &[3.0, 1.0, 8.0][..y.1])];
                                    model(t, 3, config, &elems, 1e-8, 100, st)?;
                                    let good = if t == "dc_circuit" { "resistor" } else { "convection_interface" };
                                    elems.insert((i + j) % 3, make(good, 0, 2, &[4.0]));
                                    model(t, 3, config, &elems, 1e-8, 100, st)?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // one fault at any place of a large ladder
    for n in ctx.pick(vec![4usize, 9, 17, 33], vec![4, 9, 17, 33, 65]) {
        for at in 0..n {
            for (k, fault) in ["type", "gain", "gain of a source", "node", "node far off", "source", "dimension", "configured node", "none"].into_iter().enumerate() {
                ctx.case(
                    || format!("ladder of {n}, {fault} at {at}"),
                    |st| {
                        let mut elems: Vec<Elem> = (0..n).flat_map(|i| [make("resistor", i, i + 1, &[2.0]), make("resistor", i + 1, 0, &[5.0])]).collect();
                        let mut config = vec![(0, 1, true)];
                        match k {
                            0 => elems[2 * at] = make("nope", at, at + 1, &[2.0]),
                            1 => elems[2 * at + 1] = make("resistor", at, 0, &[]),
                            2 => elems.push(make("current_source", at, 0, &[1.0, 2.0])),
                            3 => elems[2 * at] = make("resistor", at, n + 1, &[2.0]),
                            4 => elems[2 * at + 1] = make("resistor", 1 << 32, at, &[2.0]),
                            5 => {
                                elems.insert(at, make("voltage_source", 0, at + 1, &[3.0]));
                                elems.push(make("voltage_source", at + 1, 0, &[3.0]));
                            }
                            6 => config.push((at + 1, 2, false)),
                            7 => config.push((n + 1 + at, 1, false)),
                            _ => {}
                        }
                        model("dc_circuit", n + 1, &config, &elems, 1e-8, 50, st)
                    },
                );
            }
        }
    }
}

const MAKE: [(ElementConstructor, &str); 7] = [
    (make_resistor, "resistor"),
    (voltage_source, "voltage_source"),
    (current_source, "current_source"),
    (make_conductor, "conductor"),
    (convection_interface, "convection_interface"),
    (temperature_delta, "temperature_delta"),
    (heat_flux, "heat_flux"),
];

/// Elements made directly, on nodes that are locked, dropped before or after, with any number of values.
fn direct(ctx: &mut Ctx) {
    for (f, name) in MAKE {
        for dim in 1..3usize {
            util::product(&[4, 4, 4, 4, 2], |d| {
                ctx.case(
                    || format!("{name} of {} values on nodes of {dim}, dropped before {:02b}, locked {:02b}, dropped after {:02b}, onto itself {}", d[0], d[1], d[2], d[3], d[4]),
                    |st| {
                        let same = d[4] == 1;
                        let node = || {
                            let n = GenericNode::new();
                            set_node_potential(&Rc::downgrade(&n), vec![2.0; dim]).map(|_| n)
                        };
                        let mut nodes: Vec<Option<Rc<RefCell<GenericNode>>>> = vec![Some(node().map_err(|e| e.to_string())?)];
                        if !same {
                            nodes.push(Some(node().map_err(|e| e.to_string())?));
                        }
                        let weak: Vec<Weak<RefCell<GenericNode>>> = nodes.iter().map(|n| Rc::downgrade(n.as_ref().unwrap())).collect();
                        for (i, w) in weak.iter().enumerate() {
                            if d[2] >> i & 1 == 1 {
                                lock_node(w).map_err(|e| e.to_string())?;
                            }
                        }
                        let mut gone = false;
                        for (i, n) in nodes.iter_mut().enumerate() {
                            if d[1] >> i & 1 == 1 {
                                *n = None;
                                gone = true;
                            }
                        }
                        let mut causes = BTreeSet::new();
                        if gone {
                            causes.insert(DroppedNode);
                        }
                        let (a, b) = (weak[0].clone(), weak[weak.len() - 1].clone());
                        let wrong = match name {
                            "resistor" => (d[0] == 0).then_some(Gain),
                            "conductor" => (d[0] != 1 && d[0] != 2).then_some(Conductor),
                            "convection_interface" => (d[0] != 1).then_some(Convection),
                            _ => (d[0] != dim).then_some(Gain),
                        };
                        causes.extend(wrong);
                        let rise = name == "voltage_source" || name == "temperature_delta";
                        let both = d[2] & 1 == 1 && (same || d[2] & 2 == 2);
                        if rise && both {
                            causes.insert(Driven);
                        }
                        let got = catch(|| f(a.clone(), b.clone(), [2.0, 4.0, 8.0][..d[0]].to_vec()));
                        let made = matches!(&got, Ok(Ok(_)));
                        let elem = if made { got.as_ref().ok().and_then(|r| r.as_ref().ok()).cloned() } else { None };
                        judge(name, got, &causes, causes.is_empty(), st)?;
                        // what the nodes themselves say
                        for (i, w) in weak.iter().enumerate() {
                            let here = nodes[i].is_some();
                            let causes = if here { BTreeSet::new() } else { BTreeSet::from([DroppedNode]) };
                            judge("is_locked", catch(|| is_locked(w)), &causes, here, st)?;
                            judge("get_node_potential", catch(|| get_node_potential(w)), &causes, here, st)?;
                            judge("set_node_potential", catch(|| set_node_potential(w, vec![2.5; dim])), &causes, here, st)?;
                            judge("lock_node", catch(|| lock_node(w)), &causes, here, st)?;
                        }
                        let Some(elem): Option<Rc<GenericElement>> = elem else { return Ok(()) };
                        for (i, n) in nodes.iter_mut().enumerate() {
                            if d[3] >> i & 1 == 1 {
                                *n = None;
                                gone = true;
                            }
                        }
                        // a source fills its other node from this one
                        let causes = if gone { BTreeSet::from([DroppedFlux]) } else { BTreeSet::new() };
                        // a difference between a node and itself cannot be had
                        if rise && same && !gone {
                            return Ok(());
                        }
                        // a gain of one value only relates nodes of one component
                        if gone || dim == 1 {
                            judge("the flux", catch(|| elem.get_flux()), &causes, !gone, st)?;
                        }
                        Ok(())
                    },
                );
            });
        }
    }
}

fn never<const K: usize>(_: Weak<RefCell<GenericNode>>, _: Weak<RefCell<GenericNode>>, _: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    Err(Mine(K).into())
}
fn bad_flux<const K: usize>(_: Rc<RefCell<GenericNode>>, _: Rc<RefCell<GenericNode>>, _: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    Err(Mine(K).into())
}
fn unknown<const K: usize>(a: Weak<RefCell<GenericNode>>, b: Weak<RefCell<GenericNode>>, gain: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(gain, a, b, bad_flux::<K>, false, true, true)
}

const OWN: [(&str, ElementConstructor); 6] = [("pass", make_resistor), ("rise", voltage_source), ("never 1", never::<1>), ("never 2", never::<2>), ("unknown 3", unknown::<3>), ("unknown 4", unknown::<4>)];

/// Studies of one's own.
fn own(ctx: &mut Ctx) {
    let names = ["pass", "never 1", "never 2", "unknown 3", "unknown 4", "nope", "resistor"];
    for dim in 1..3usize {
        for n in 0..=ctx.pick(4, 6) {
            util::product(&vec![names.len(); n], |d| {
                for (margin, limit) in [(1e-8, 60), (-1.0, 60), (1e-8, 0)] {
                    ctx.case(
                        || format!("own study of {dim}, {:?}, margin {margin}, limit {limit}", d.iter().map(|i| names[*i]).collect::<Vec<_>>()),
                        |st| {
                            let mut c = NodalAnalysisStudyConfigurator::new(dim);
                            for (name, f) in OWN {
                                c = c.add_element_type(name, f).map_err(|e| e.to_string())?;
                            }
                            let set = HashMap::from([("mine".to_string(), c), ("empty".to_string(), NodalAnalysisStudyConfigurator::new(dim))]);
                            for other in ["dc_circuit", "heat_transfer", "Mine", ""] {
                                judge(&format!("study {other:?}"), catch(|| NodalAnalysisStudyBuilder::new(other.to_string(), Some(set.clone()))), &BTreeSet::from([Study]), false, st)?;
                            }
                            for study in ["mine", "empty"] {
                                let mut causes = BTreeSet::new();
                                for i in d {
                                    match names[*i] {
                                        _ if study == "empty" => {
                                            causes.insert(ElementType);
                                        }
                                        "never 1" => {
                                            causes.insert(Own(1));
                                        }
                                        "never 2" => {
                                            causes.insert(Own(2));
                                        }
                                        "unknown 3" => {
                                            causes.insert(Own(3));
                                        }
                                        "unknown 4" => {
                                            causes.insert(Own(4));
                                        }
                                        "nope" | "resistor" => {
                                            causes.insert(ElementType);
                                        }
                                        _ => {}
                                    }
                                }
                                if margin <= 0.0 {
                                    causes.insert(Margin);
                                }
                                if limit == 0 {
                                    causes.insert(Limit);
                                }
                                // nothing ties the second node down
                                let floating = d.is_empty() || study == "empty";
                                let ok = causes.is_empty();
                                if floating {
                                    causes.insert(Unsolvable);
                                }
                                let got = catch(|| -> anyhow::Result<()> {
                                    let mut b = NodalAnalysisStudyBuilder::new(study.to_string(), Some(set.clone()))?.add_nodes(2).configure_node(0, vec![1.5; dim], true, None);
                                    for i in d {
                                        // one conductance serves every component
                                        b = b.add_element(names[*i], 0, 1, vec![2.0])?;
                                    }
                                    b.run_study(margin, limit)?;
                                    Ok(())
                                });
                                if dim == 1 || !ok || floating {
                                    judge(study, got, &causes, ok, st)?;
                                }
                            }
                            Ok(())
                        },
                    );
                }
            });
        }
    }
    // element types defined twice
    for n in 0..=ctx.pick(4, 5) {
        util::product(&vec![4; n], |d| {
            ctx.case(
                || format!("element types {d:?} one after the other"),
                |st| {
                    let words = ["a", "b", "resistor", ""];
                    let mut seen = BTreeSet::new();
                    let mut c = NodalAnalysisStudyConfigurator::new(1);
                    for i in d {
                        let twice = !seen.insert(words[*i]);
                        let causes = if twice { BTreeSet::from([ElementTwice]) } else { BTreeSet::new() };
                        let before = c.clone();
                        let got = catch(|| c.add_element_type(words[*i], make_resistor));
                        let next = got.as_ref().ok().and_then(|r| r.as_ref().ok()).cloned();
                        judge(words[*i], got, &causes, !twice, st)?;
                        c = next.unwrap_or(before);
                    }
                    Ok(())
                },
            );
        });
    }
}

/// The program prints the library's words.
fn program(ctx: &mut Ctx) {
    let good = [make("voltage_source", 0, 1, &[3.0]), make("resistor", 1, 2, &[2.0]), make("resistor", 2, 0, &[2.0])];
    let ground: Vec<Config> = vec![(0, 1, true)];
    let mut cases: Vec<(String, Vec<&'static str>)> = vec![(text("nope", 3, &ground, &good), vec![])];
    for i in 0..3 {
        for e in [make("nope", 0, 1, &[1.0]), make("resistor", 0, 9, &[1.0]), make("resistor", 9, 0, &[1.0]), make("resistor", 0, 1, &[]), make("current_source", 1, 2, &[1.0, 2.0]), make("voltage_source", 0, 0, &[1.0])] {
            let mut elems = good.to_vec();
            elems[i] = e;
            cases.push((text("dc_circuit", 3, &ground, &elems), vec![]));
        }
    }
    for c in [vec![(0, 1, true), (3, 1, true)], vec![(0, 2, true)], vec![(0, 1, true), (1, 0, false)], vec![(0, 1, true), (1, 1, true)], vec![]] {
        cases.push((text("dc_circuit", 3, &c, &good), vec![]));
    }
    for name in ["conductor", "convection_interface", "temperature_delta", "heat_flux"] {
        for n in [0usize, 3] {
            cases.push((text("heat_transfer", 3, &ground, &[make(name, 0, 1, &[1.0, 2.0, 3.0][..n])]), vec![]));
        }
    }
    for opts in [vec!["-p", "0"], vec!["-p", "-1"], vec!["-i", "0"], vec!["--iterations", "0", "--precision", "0.5"]] {
        cases.push((text("dc_circuit", 3, &ground, &good), opts));
    }
    for (text, opts) in cases {
        ctx.case(
            || format!("the program on {text} {opts:?}"),
            |st| {
                let margin = opts.iter().position(|o| o.starts_with("-p") || *o == "--precision").map_or(1e-4, |i| opts[i + 1].parse().unwrap());
                let limit = opts.iter().position(|o| o.starts_with("-i") || *o == "--iterations").map_or(100, |i| opts[i + 1].parse().unwrap());
                let want = solve(&text, margin, limit)?;
                let dir = Scratch::new();
                std::fs::write(dir.0.join("in.json"), &text).map_err(|e| e.to_string())?;
                let mut args = vec!["in.json".to_string()];
                args.extend(opts.iter().map(|o| o.to_string()));
                st.step();
                let (code, out, err) = run(&dir.0, "neapolitan", &args)?;
                match want {
                    Ok(_) if code == 0 => Ok(()),
                    Err(e) if code != 0 && format!("{out}{err}").contains(&e) => {
                        st.outcome("printed by the program");
                        Ok(())
                    }
                    want => Err(format!("exit status {code} and {out:?}, the library says {want:?}")),
                }
            },
        );
    }
    // bad options and files
    for (args, word) in [
        (vec!["in.json", "-p", "abc"], "precision"),
        (vec!["in.json", "--precision"], "precision"),
        (vec!["in.json", "-i", "2", "-p", ""], "precision"),
        (vec!["in.json", "-i", "abc"], "iteration"),
        (vec!["in.json", "--iterations", "-1"], "iteration"),
        (vec!["in.json", "-p", "1", "-i"], "iteration"),
        (vec![], "file"),
        (vec!["missing.json"], "file"),
        (vec!["bad.json"], "json"),
    ] {
        ctx.case(
            || format!("the program with {args:?}"),
            |st| {
                let dir = Scratch::new();
                std::fs::write(dir.0.join("in.json"), text("dc_circuit", 3, &ground, &good)).map_err(|e| e.to_string())?;
                std::fs::write(dir.0.join("bad.json"), "{").map_err(|e| e.to_string())?;
                st.step();
                let args: Vec<String> = args.iter().map(|a| a.to_string()).collect();
                let (code, out, err) = run(&dir.0, "neapolitan", &args)?;
                let said: String = format!("{out}{err}").lines().filter(|l| l.contains("ERR")).collect();
                if code == 0 || !said.to_lowercase().contains(word) {
                    return Err(format!("exit status {code} and {said:?}, expected an error about the {word}"));
                }
                st.outcome("printed by the program");
                Ok(())
            },
        );
    }
}

pub fn a09(ctx: &mut Ctx) {
    program(ctx);
    own(ctx);
    direct(ctx);
    models(ctx);
}
