//! A03, A04: model files and the builder.

use crate::common::*;
use mc_core::{catch, hash::with_hash_seed, util, Ctx, Stats};
use neapolitan::modelling::NodalAnalysisModel;
use neapolitan::NodalAnalysisStudyBuilder;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

const MARGIN: f64 = 1e-8;

fn seeded(st: &mut Stats, f: impl FnOnce(&mut Stats) -> Result<(), String> + Send) -> Result<(), String> {
    let mut own = Stats::default();
    let r = with_hash_seed(1, || f(&mut own));
    st.merge(own);
    r
}

/// A change of a model file: path, new value (None removes it), whether the file stays good.
type Change = (Vec<&'static str>, Option<Value>, bool);

fn apply(v: &mut Value, c: &Change) -> bool {
    let mut at = v;
    let (last, path) = c.0.split_last().unwrap();
    for p in path {
        let next = match at {
            Value::Array(a) => p.parse::<usize>().ok().and_then(|i| a.get_mut(i)),
            o => o.get_mut(*p),
        };
        match next {
            Some(n) => at = n,
            None => return false,
        }
    }
    match (at, &c.1) {
        (Value::Object(o), Some(n)) => {
            o.insert(last.to_string(), n.clone());
            true
        }
        (Value::Object(o), None) => o.remove(*last).is_some(),
        (Value::Array(a), Some(n)) => match last.parse::<usize>().ok() {
            Some(i) if i < a.len() => {
                a[i] = n.clone();
                true
            }
            Some(i) if i == a.len() => {
                a.push(n.clone());
                true
            }
            _ => false,
        },
        _ => false,
    }
}

fn bases() -> Vec<Net> {
    vec![
        Net {
            model: "dc_circuit",
            nodes: 3,
            config: vec![(0, 0.0, true), (2, 4.0, true)],
            elems: vec![voltage(0, 1, 3.0), resistor(1, 2, 2.0), current(0, 1, 1.0)],
        },
        Net {
            model: "heat_transfer",
            nodes: 4,
            config: vec![(0, 20.0, true), (3, -5.0, false)],
            elems: vec![rod(0, 1, 0.5, 2.0), convection(1, 2, 4.0), delta(2, 3, 3.0), heat(0, 2, 6.0), conductor(3, 0, 1.5)],
        },
    ]
}

fn changes(net: &Net) -> Vec<Change> {
    let dc = net.model == "dc_circuit";
    let mut v: Vec<Change> = vec![];
    let junk = [json!(null), json!("7"), json!(true), json!([1.0]), json!({"a": 1}), json!(-1), json!(1.5), json!([[1.0]]), json!([null]), json!(["1"])];
    let mut bad = |path: &[&'static str], keep: &dyn Fn(&Value) -> bool| {
        v.push((path.to_vec(), None, false));
        for j in &junk {
            if !keep(j) {
                v.push((path.to_vec(), Some(j.clone()), false));
            }
        }
    };
    bad(&["model_type"], &|j| j.is_string());
    bad(&["nodes"], &|_| false);
    bad(&["configuration"], &|_| false);
    bad(&["elements"], &|_| false);
    bad(&["configuration", "0"], &|_| true);
    bad(&["configuration", "0", "potential"], &|j| *j == json!([1.0]));
    bad(&["configuration", "0", "is_locked"], &|j| j.is_boolean());
    for e in ["0", "1", "2"] {
        bad(&["elements", e, "element_type"], &|_| false);
        bad(&["elements", e, "input"], &|_| false);
        bad(&["elements", e, "output"], &|_| false);
        bad(&["elements", e, "gain"], &|j| *j == json!([1.0]));
    }
    // Taking the ground away is a matter of the network, see A01.
    v.retain(|c| !(c.0 == ["configuration", "0"] && c.1.is_none()));
    let mut put = |path: &[&'static str], x: Value, good: bool| v.push((path.to_vec(), Some(x), good));
    for t in ["", "nope", "DC_CIRCUIT", "dc_circuit ", if dc { "heat_transfer" } else { "dc_circuit" }] {
        put(&["model_type"], json!(t), false);
    }
    for n in [0, 1, 2] {
        put(&["nodes"], json!(n), false);
    }
    for t in ["", "nope", "Resistor", if dc { "conductor" } else { "resistor" }, if dc { "temperature_delta" } else { "voltage_source" }] {
        put(&["elements", "1", "element_type"], json!(t), false);
    }
    for n in [4usize, 9, usize::MAX] {
        put(&["elements", "0", "input"], json!(n), false);
        put(&["elements", "2", "output"], json!(n), false);
    }
    let node = json!({"potential": [1.0], "is_locked": false, "metadata": null});
    for k in ["4", "17", "-1", "1.5", "x", "", "18446744073709551615"] {
        v.push((vec!["configuration", k], Some(node.clone()), false));
    }
    let mut put = |path: &[&'static str], x: Value, good: bool| v.push((path.to_vec(), Some(x), good));
    for p in [json!([]), json!([1.0, 2.0]), json!([1.0, 2.0, 3.0])] {
        put(&["configuration", "0", "potential"], p, false);
    }
    put(&["configuration", "1"], json!({"potential": [], "is_locked": false, "metadata": null}), false);
    put(&["configuration", "1"], json!({"potential": [3.0, 1.0], "is_locked": true, "metadata": null}), false);
    put(&["configuration", "0", "metadata"], json!({"a": "b"}), false);
    put(&["configuration", "0", "metadata"], json!(3.0), false);
    for (i, e) in net.elems.iter().enumerate() {
        let i = ["0", "1", "2", "3", "4"][i];
        put(&["elements", i, "gain"], json!([]), false);
        if e.name != "resistor" {
            put(&["elements", i, "gain"], json!([1.0, 2.0, 3.0]), false);
            if e.name != "conductor" {
                put(&["elements", i, "gain"], json!([1.0, 2.0]), false);
            }
        }
    }
    // Harmless changes.
    put(&["$schema"], json!("./schema.json"), true);
    put(&["comment"], json!({"a": [1, 2]}), true);
    put(&["configuration", "0", "metadata"], json!({"x": 1.0, "y": -2.5}), true);
    put(&["configuration", "0", "metadata"], json!({}), true);
    put(&["configuration", "1"], json!({"potential": [7.0], "is_locked": false, "metadata": {"k": 2.0}}), true);
    put(&["configuration", "0", "label"], json!("ground"), true);
    put(&["elements", "0", "label"], json!("first"), true);
    v
}

/// How a model file gets into the solver.
fn run_value(v: &Value, pretty: bool) -> Result<Result<Report, String>, String> {
    let text = if pretty { serde_json::to_string_pretty(v) } else { serde_json::to_string(v) }.map_err(|e| e.to_string())?;
    solve(&text, MARGIN, 100)
}

pub fn a03(ctx: &mut Ctx) {
    for (b, net) in bases().into_iter().enumerate() {
        let Exact::One(want) = exact(&net) else { panic!("base {b}") };
        let good: Value = serde_json::from_str(&net.json()).expect("base json");
        let list = changes(&net);
        let judge = |v: &Value, ok: bool, pretty: bool, st: &mut Stats| -> Result<(), String> {
            st.step();
            match (run_value(v, pretty)?, ok) {
                (Ok(rep), true) => {
                    st.outcome("solved");
                    laws(&net, &rep, MARGIN)?;
                    match (0..net.nodes).all(|i| util::close(rep.0[&i.to_string()][0], want[i], 1e-6)) {
                        true => Ok(()),
                        false => Err(format!("{rep:?}, expected potentials {want:?}")),
                    }
                }
                (Ok(rep), false) => Err(format!("solved as {rep:?}")),
                (Err(e), true) => Err(format!("refused with {e:?}")),
                (Err(_), false) => {
                    st.outcome("refused");
                    Ok(())
                }
            }
        };
        for (i, c) in list.iter().enumerate() {
            ctx.case(
                || format!("model {b} with {:?} = {}", c.0, c.1.as_ref().map_or("nothing".into(), |v| v.to_string())),
                |st| {
                    seeded(st, |st| {
                        for pretty in [false, true] {
                            let mut v = good.clone();
                            if !apply(&mut v, c) {
                                return Err("the change does not apply".into());
                            }
                            judge(&v, c.2, pretty, st)?;
                        }
                        Ok(())
                    })
                },
            );
            for d in &list[..i] {
                if d.0 == c.0 {
                    continue;
                }
                ctx.case(
                    || format!("model {b} with {:?} = {:?} and {:?} = {:?}", d.0, d.1, c.0, c.1),
                    |st| {
                        seeded(st, |st| {
                            let mut v = good.clone();
                            if !apply(&mut v, d) || !apply(&mut v, c) {
                                // the first change removed what the second one is about
                                return judge(&v, false, false, st);
                            }
                            // more nodes make a reference to a missing one good again, so does their removal
                            judge(&v, c.2 && d.2, false, st)
                        })
                    },
                );
            }
        }
        // Every truncation of the file and every removal of a character of its structure.
        let text = net.json();
        for cut in 0..text.len() {
            ctx.case(
                || format!("model {b} cut after {cut} characters"),
                |st| {
                    seeded(st, |st| {
                        st.step();
                        st.outcome("refused");
                        match solve(&text[..cut], MARGIN, 100)? {
                            Err(_) => Ok(()),
                            Ok(r) => Err(format!("solved as {r:?}")),
                        }
                    })
                },
            );
            if matches!(&text[cut..cut + 1], "{" | "}" | "[" | "]" | "\"" | ":") {
                ctx.case(
                    || format!("model {b} without character {cut}"),
                    |st| {
                        seeded(st, |st| {
                            st.step();
                            st.outcome("refused");
                            let t = format!("{}{}", &text[..cut], &text[cut + 1..]);
                            match solve(&t, MARGIN, 100)? {
                                Err(_) => Ok(()),
                                Ok(r) => Err(format!("solved as {r:?}: {t}")),
                            }
                        })
                    },
                );
            }
        }
        for margin in [1e-8, 0.0, -0.0, -1.0, f64::NEG_INFINITY, f64::NAN] {
            for limit in [0usize, 1, 2, 100] {
                let net = net.clone();
                ctx.case(
                    || format!("model {b} with margin {margin} and limit {limit}"),
                    |st| {
                        seeded(st, |st| {
                            st.step();
                            match solve(&net.json(), margin, limit)? {
                                Ok(r) if margin <= 0.0 || limit == 0 || margin.is_nan() => {
                                    // nothing to solve for
                                    if net.accepted() && b == 0 {
                                        st.outcome("nothing to solve for");
                                        return laws(&net, &r, 1e-9);
                                    }
                                    Err(format!("solved as {r:?}"))
                                }
                                Ok(r) => {
                                    st.outcome("solved");
                                    laws(&net, &r, margin)
                                }
                                Err(e) if margin > 0.0 && limit == 100 => Err(e),
                                Err(_) => {
                                    st.outcome("refused");
                                    Ok(())
                                }
                            }
                        })
                    },
                );
            }
        }
    }
    builders(ctx);
}

/// Whether an element of this type is made from so many numbers.
pub fn arity_ok(model: &str, name: &str, n: usize) -> bool {
    match (model, name) {
        ("dc_circuit", "resistor") => n >= 1,
        ("dc_circuit", "voltage_source" | "current_source") => n == 1,
        ("heat_transfer", "conductor") => n == 1 || n == 2,
        ("heat_transfer", "convection_interface" | "temperature_delta" | "heat_flux") => n == 1,
        _ => false,
    }
}

pub const NAMES: [&str; 10] =
    ["resistor", "voltage_source", "current_source", "conductor", "convection_interface", "temperature_delta", "heat_flux", "nope", "", "Resistor"];

pub fn make(name: &'static str, a: usize, b: usize, gain: &[f64]) -> Elem {
    let kind = match name {
        "voltage_source" | "temperature_delta" => Kind::Rise,
        "current_source" | "heat_flux" => Kind::Push,
        _ => Kind::Pass,
    };
    let value = match (name, gain.len()) {
        ("resistor", 1..) => 1.0 / gain[0],
        ("conductor", 2) => gain[1] / gain[0],
        (_, 0) => f64::NAN,
        _ => gain[0],
    };
    Elem { kind, name, a, b, gain: gain.to_vec(), value }
}

fn builders(ctx: &mut Ctx) {
    let types = ["dc_circuit", "heat_transfer", "nope", ""];
    // node, number of values, locked
    let mut configs: Vec<Option<(usize, usize, bool)>> = vec![None];
    for node in [0, 1, 2, 9] {
        for len in 0..3 {
            for lock in [false, true] {
                configs.push(Some((node, len, lock)));
            }
        }
    }
    let second: Vec<Option<(usize, usize, usize, usize)>> = {
        let mut v = vec![None];
        for e in 0..7 {
            for (a, b) in [(0, 1), (1, 0), (1, 2)] {
                for n in [1, 2] {
                    v.push(Some((e, a, b, n)));
                }
            }
        }
        v
    };
    for t in types {
        for nodes in 0..4usize {
            for c in &configs {
                for e in 0..NAMES.len() {
                    ctx.case(
                        || format!("builder {t:?}, {nodes} nodes, configured {c:?}, {:?}", NAMES[e]),
                        |st| {
                            seeded(st, |st| {
                                for n in 0..4 {
                                    for a in 0..4 {
                                        for b in 0..4 {
                                            for s in &second {
                                                // the second element only for good firsts
                                                if s.is_some() && (n != 1 || a.max(b) >= nodes || nodes < 3) {
                                                    continue;
                                                }
                                                let mut elems = vec![make(NAMES[e], a, b, &[2.0, 4.0, 8.0][..n])];
                                                if let Some((e, a, b, n)) = s {
                                                    elems.push(make(NAMES[*e], *a, *b, &[3.0, 1.0][..*n]));
                                                }
                                                build(t, nodes, c, &elems, st)
                                                    .map_err(|x| format!("{x} [{elems:?}]"))?;
                                            }
                                        }
                                    }
                                }
                                Ok(())
                            })
                        },
                    );
                }
            }
        }
    }
}

fn build(t: &str, nodes: usize, config: &Option<(usize, usize, bool)>, elems: &[Elem], st: &mut Stats) -> Result<(), String> {
    let known = t == "dc_circuit" || t == "heat_transfer";
    let run = catch(|| {
        st.step();
        let mut b = match NodalAnalysisStudyBuilder::new(t.to_string(), None) {
            Ok(b) if known => b.add_nodes(nodes),
            Err(_) if !known => return Ok(None),
            r => return Err(format!("new({t:?}) gave an error: {}", r.is_err())),
        };
        if let Some((node, len, lock)) = config {
            b = b.configure_node(*node, [5.0, 6.0][..*len].to_vec(), *lock, None);
        }
        for e in elems {
            st.step();
            b = match b.add_element(e.name, e.a, e.b, e.gain.clone()) {
                Ok(b) if e.a < nodes && e.b < nodes => b,
                Err(_) if e.a >= nodes || e.b >= nodes => return Ok(None),
                r => return Err(format!("add_element gave an error: {}", r.is_err())),
            };
        }
        Ok(Some(b.run_study(MARGIN, 100).map_err(|e| e.to_string())))
    })
    .map_err(|p| format!("panicked: {p}"))??;
    let Some(run) = run else {
        st.outcome("refused while building");
        return Ok(());
    };
    let good = config.is_none_or(|c| c.0 < nodes && c.1 == 1) && elems.iter().all(|e| arity_ok(t, e.name, e.gain.len()));
    if !good {
        st.outcome("refused");
        return match run {
            Err(_) => Ok(()),
            Ok(r) => Err(format!("solved as {r:?}")),
        };
    }
    let net = Net {
        model: if t == "dc_circuit" { "dc_circuit" } else { "heat_transfer" },
        nodes,
        config: config.iter().map(|c| (c.0, 5.0, c.2)).collect(),
        elems: elems.to_vec(),
    };
    let want = if net.accepted() { exact(&net) } else { Exact::None };
    match (run, want) {
        (Ok(r), Exact::One(_) | Exact::Many) => {
            st.outcome("solved");
            laws(&net, &report_of(&r)?, MARGIN)
        }
        (Ok(r), Exact::None) => Err(format!("solved as {r:?}")),
        (Err(e), Exact::One(v)) => Err(format!("refused with {e:?}, expected {v:?}")),
        (Err(_), _) => {
            st.outcome("unsolvable");
            Ok(())
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Nodes(usize),
    Config(usize, f64, bool, Option<&'static [(&'static str, f64)]>),
    Add(usize, usize, usize, &'static [f64]),
    Save,
    Reload,
}

const OPS: &[Op] = &[
    Op::Nodes(0),
    Op::Nodes(1),
    Op::Nodes(2),
    Op::Config(0, 0.0, true, None),
    Op::Config(0, -7.25, false, Some(&[("k", 1.5), ("a \"b\"\n", -0.0)])),
    Op::Config(1, 5.0, true, Some(&[])),
    Op::Config(40, 0.1, false, None),
    Op::Add(0, 0, 1, &[2.0]),
    Op::Add(1, 1, 2, &[0.1]),
    Op::Add(2, 2, 0, &[-1e-300]),
    Op::Add(7, 0, 0, &[]),
    Op::Add(0, 1, 0, &[123456.789012345678, 1e22, 3.0]),
    Op::Add(1, 0, 5, &[1.0]),
    Op::Save,
    Op::Reload,
];

/// Every history of building, saving and loading.
pub fn a04(ctx: &mut Ctx) {
    let depth = ctx.pick(5, 6);
    for start in ["dc_circuit", "heat_transfer"] {
        for n in 0..=depth {
            util::product(&vec![OPS.len(); n], |ix| {
                ctx.case(
                    || format!("{start}: {:?}", ix.iter().map(|i| &OPS[*i]).collect::<Vec<_>>()),
                    |st| seeded(st, |st| history(start, ix, st)),
                );
            });
        }
    }
    // Large models: many nodes, configured nodes, elements, numbers of an element, entries of metadata.
    let sizes = [0usize, 1, 2, 9, 10, 11, 12, 31, 64, 100, 255, 256, 257, 300];
    let counts = ctx.pick(vec![1usize, 2, 5], vec![1, 2, 3, 5, 8]);
    for nodes in [1usize, 2, 9, 10, 11, 100, 255, 256, 257, 300, 1000, 65535, 65536, 70000, u32::MAX as usize, 1 << 40, i64::MAX as usize] {
        for elems in sizes {
            for configured in sizes {
                for each in &counts {
                    ctx.case(
                        || format!("large model: {nodes} nodes, {elems} elements of {each} numbers, {configured} configured nodes"),
                        |st| seeded(st, |st| large(nodes, elems, configured, *each, st)),
                    );
                }
            }
        }
    }
    // Models with every kind of number.
    let numbers = [
        0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3.0, 2.0f64.powi(60), 1e15, 1e16, 1e21, 1e22, 123456789.12345679, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1e-7, 4.35, 0.3,
        9007199254740993.0, 1e-5, std::f64::consts::PI, -std::f64::consts::E,
    ];
    for x in numbers {
        for y in numbers {
            ctx.case(
                || format!("numbers {x:e} and {y:e}"),
                |st| {
                    seeded(st, |st| {
                        let mut text = String::new();
                        let b = NodalAnalysisStudyBuilder::new("dc_circuit".into(), None)
                            .and_then(|b| b.add_nodes(2).configure_node(0, vec![x, y], true, Some(HashMap::from([("m".to_string(), y)]))).add_element("resistor", 0, 1, vec![y, x]))
                            .and_then(|b| b.save_model(&mut text))
                            .map_err(|e| e.to_string())?;
                        st.steps(4);
                        st.outcome("saved and loaded");
                        let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                        let get = |p: &str| v.pointer(p).and_then(|f| f.as_f64()).unwrap_or(f64::NAN);
                        for (p, w) in [("/configuration/0/potential/0", x), ("/configuration/0/potential/1", y), ("/configuration/0/metadata/m", y), ("/elements/0/gain/0", y), ("/elements/0/gain/1", x)] {
                            if !util::close(get(p), w, 4e-16) || (w != 0.0 && (get(p) / w - 1.0).abs() > 4e-16 && w.abs() > 1e-300) {
                                return Err(format!("{p} is saved as {}, it was {w}", get(p)));
                            }
                        }
                        let loaded = NodalAnalysisModel::from_str(&text).map_err(|e| format!("not loaded: {e}"))?;
                        let mut again = String::new();
                        NodalAnalysisStudyBuilder::from_model_with_default_config(loaded.clone()).save_model(&mut again).map_err(|e| e.to_string())?;
                        let twice = NodalAnalysisModel::from_str(&again).map_err(|e| format!("not loaded again: {e}"))?;
                        if serde_json::from_str::<Value>(&again).ok() != Some(v) || twice != loaded {
                            return Err(format!("saved again it is {again}, it was {text}"));
                        }
                        drop(b);
                        Ok(())
                    })
                },
            );
        }
    }
    // Saving does not change what is solved.
    for (k, net) in bases().into_iter().enumerate() {
        for seed in 1..=ctx.pick(8, 40) {
            ctx.case(
                || format!("model {k} saved and solved, hash seed {seed}"),
                |st| {
                    with_hash_seed(seed, || {
                        let model = load(&net.json())?;
                        let mut text = String::from("old contents");
                        let saved = NodalAnalysisStudyBuilder::from_model_with_default_config(model.clone()).save_model(&mut text).map_err(|e| e.to_string())?;
                        let a = report_of(&saved.run_study(MARGIN, 100).map_err(|e| e.to_string())?)?;
                        let b = report_of(&NodalAnalysisStudyBuilder::from_model_with_default_config(load(&text)?).run_study(MARGIN, 100).map_err(|e| e.to_string())?)?;
                        laws(&net, &a, MARGIN)?;
                        laws(&net, &b, MARGIN)?;
                        if load(&text)? != model {
                            return Err(format!("loaded another model from {text}"));
                        }
                        Ok(())
                    })?;
                    st.steps(4);
                    st.outcome("solved alike");
                    Ok(())
                },
            );
        }
    }
    // What the solver's own sample files hold.
    for n in 0..4usize {
        for e in 0..NAMES.len() {
            ctx.case(
                || format!("empty parts: {n} nodes, {:?}", NAMES[e]),
                |st| {
                    seeded(st, |st| {
                        let text = json!({"model_type": NAMES[e], "nodes": n, "configuration": {}, "elements": []}).to_string();
                        let m = load(&text)?;
                        let mut again = String::new();
                        NodalAnalysisStudyBuilder::from_model_with_default_config(m).save_model(&mut again).map_err(|e| e.to_string())?;
                        st.steps(2);
                        if serde_json::from_str::<Value>(&again).ok() != serde_json::from_str(&text).ok() {
                            return Err(format!("saved as {again}"));
                        }
                        Ok(())
                    })
                },
            );
        }
    }
}

fn large(nodes: usize, elems: usize, configured: usize, each: usize, st: &mut Stats) -> Result<(), String> {
    let err = |e: anyhow::Error| e.to_string();
    let spread = |i: usize| if i % 3 == 2 { nodes - 1 - i % nodes } else { (i * 7) % nodes };
    let mut b = NodalAnalysisStudyBuilder::new("heat_transfer".into(), None).map_err(err)?;
    let first = nodes / 3;
    b = b.add_nodes(first).add_nodes(nodes - first);
    let (mut config, mut list) = (serde_json::Map::new(), vec![]);
    for i in 0..elems.max(configured) {
        if i < configured {
            let k = if configured > nodes { i * 3 } else { spread(i) };
            let p: Vec<f64> = (0..each).map(|c| i as f64 - c as f64 / 8.0).collect();
            let meta = (i % 2 == 0).then(|| (0..each).map(|c| (format!("key {c} of {i}"), (c * i) as f64 + 0.5)).collect::<HashMap<_, _>>());
            b = b.configure_node(k, p.clone(), i % 5 < 2, meta.clone());
            config.insert(k.to_string(), json!({"potential": p, "is_locked": i % 5 < 2, "metadata": meta}));
        }
        if i < elems {
            let (t, x, y) = (NAMES[i % NAMES.len()], spread(i), spread(i + 1));
            let g: Vec<f64> = (0..each * (i % 3)).map(|c| (c * i) as f64 / 16.0 - 1.0).collect();
            b = b.add_element(t, x, y, g.clone()).map_err(err)?;
            list.push(json!({"element_type": t, "input": x, "output": y, "gain": g}));
            if nodes < usize::MAX && i % 50 == 0 && b.clone().add_element(t, nodes, y, g.clone()).is_ok() {
                return Err(format!("element {i} was taken between the missing node {nodes} and {y}"));
            }
        }
    }
    let want = json!({"model_type": "heat_transfer", "nodes": nodes, "configuration": config, "elements": list});
    let mut text = String::new();
    b.save_model(&mut text).map_err(err)?;
    for round in 0..2 {
        st.step();
        let got: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        if got != want {
            return Err(format!("saved (round {round}) as {got}, expected {want}"));
        }
        let loaded = load(&text)?;
        text.clear();
        NodalAnalysisStudyBuilder::from_model_with_default_config(loaded).save_model(&mut text).map_err(err)?;
    }
    st.outcome("large model saved and loaded");
    st.state(util::fnv(want.to_string().as_bytes()));
    Ok(())
}

fn history(start: &str, ix: &[usize], st: &mut Stats) -> Result<(), String> {
    let mut b = NodalAnalysisStudyBuilder::new(start.to_string(), None).map_err(|e| e.to_string())?;
    let (mut nodes, mut config, mut elems) = (0usize, BTreeMap::<usize, Value>::new(), Vec::<Value>::new());
    let mut text = String::new();
    let state = |nodes: usize, config: &BTreeMap<usize, Value>, elems: &[Value]| {
        let c: serde_json::Map<String, Value> = config.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        json!({"model_type": start, "nodes": nodes, "configuration": c, "elements": elems})
    };
    for i in ix {
        st.step();
        match &OPS[*i] {
            Op::Nodes(n) => {
                b = b.add_nodes(*n);
                nodes += n;
            }
            Op::Config(k, p, l, m) => {
                let meta = m.map(|m| m.iter().map(|(k, v)| (k.to_string(), *v)).collect::<HashMap<_, _>>());
                b = b.configure_node(*k, vec![*p], *l, meta.clone());
                config.insert(*k, json!({"potential": [p], "is_locked": l, "metadata": meta}));
            }
            Op::Add(e, i, o, g) => match b.add_element(NAMES[*e], *i, *o, g.to_vec()) {
                Ok(n) if *i < nodes && *o < nodes => {
                    b = n;
                    elems.push(json!({"element_type": NAMES[*e], "input": i, "output": o, "gain": g}));
                }
                Err(_) if *i >= nodes || *o >= nodes => {
                    st.outcome("refused");
                    return Ok(());
                }
                r => return Err(format!("add_element gave an error: {}", r.is_err())),
            },
            Op::Save => b = b.save_model(&mut text).map_err(|e| e.to_string())?,
            Op::Reload => {
                text.clear();
                b.save_model(&mut text).map_err(|e| e.to_string())?;
                b = NodalAnalysisStudyBuilder::from_model_with_default_config(load(&text)?);
            }
        }
        st.step();
        let mut now = String::from("x");
        b = b.save_model(&mut now).map_err(|e| e.to_string())?;
        let got: Value = serde_json::from_str(&now).map_err(|e| format!("{e}: {now}"))?;
        let want = state(nodes, &config, &elems);
        st.state(util::fnv(want.to_string().as_bytes()));
        if got != want {
            return Err(format!("saved as {got}, expected {want}"));
        }
    }
    st.outcome("saved as built");
    Ok(())
}
