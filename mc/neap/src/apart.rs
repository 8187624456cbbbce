//! A10: separate models, studies and nodes do not interfere.

use crate::common::*;
use mc_core::sched::{every, explore, steps, tick, Out, Steps};
use mc_core::Ctx;
use neapolitan::flux_formulas::normal_flux;
use neapolitan::modelling::element::GenericElement;
use neapolitan::modelling::GenericNode;
use neapolitan::{
    dc_circuits, get_node_potential, heat_transfer, is_locked, lock_node, set_node_potential, Matrix, NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator, NodalAnalysisStudyResult,
};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::{Rc, Weak};

fn here() -> anyhow::Result<()> {
    tick().map_err(anyhow::Error::msg)
}

/// Conducts, and something else may happen meanwhile.
fn slow(a: Weak<RefCell<GenericNode>>, b: Weak<RefCell<GenericNode>>, gain: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    here()?;
    fn flux(a: Rc<RefCell<GenericNode>>, b: Rc<RefCell<GenericNode>>, gain: &Matrix<f64>, drives: bool) -> anyhow::Result<Matrix<f64>> {
        here()?;
        normal_flux(a, b, gain, drives)
    }
    GenericElement::try_new(gain, a, b, flux, false, true, true)
}

/// Study types of one's own: the same names for other dimensions and elements.
fn with_slow(dim: usize) -> Option<HashMap<String, NodalAnalysisStudyConfigurator>> {
    let (rise, push): (Make, Make) = match dim {
        1 => (dc_circuits::voltage_source, heat_transfer::heat_flux),
        _ => (heat_transfer::heat_flux, dc_circuits::voltage_source),
    };
    let c = NodalAnalysisStudyConfigurator::new(dim).add_element_type("slow", slow).unwrap();
    let mut m = neapolitan::default_study_builder_config();
    // a known name, too
    m.insert("dc_circuit".into(), NodalAnalysisStudyConfigurator::new(1).add_element_type("resistor", slow).unwrap());
    m.insert("mine".into(), c.add_element_type("rise", rise).unwrap().add_element_type("push", push).unwrap());
    Some(m)
}

type Make = fn(Weak<RefCell<GenericNode>>, Weak<RefCell<GenericNode>>, Vec<f64>) -> anyhow::Result<Rc<GenericElement>>;

fn out(r: anyhow::Result<NodalAnalysisStudyResult>) -> Out {
    let Ok(r) = r else { return Out("refused".into(), vec![]) };
    match report_of(&r) {
        Ok((nodes, fluxes)) => {
            let names: Vec<String> = nodes.keys().chain(fluxes.keys()).cloned().collect();
            Out(names.join(" "), nodes.into_values().chain(fluxes.into_values()).flatten().collect())
        }
        Err(e) => Out(e, vec![]),
    }
}

/// Models with the default elements, built call by call.
fn building(model: &'static str, v: usize, pass: (&'static str, Vec<f64>), rise: &'static str, push: &'static str) -> Steps {
    type Parts = (Option<NodalAnalysisStudyBuilder>, Option<NodalAnalysisStudyBuilder>, String);
    fn with(b: &mut Option<NodalAnalysisStudyBuilder>, f: impl FnOnce(NodalAnalysisStudyBuilder) -> NodalAnalysisStudyBuilder) -> Out {
        let x = b.take().unwrap();
        *b = Some(f(x));
        Out("added".into(), vec![])
    }
    let (name, gain) = pass;
    let g = gain.clone();
    let h = gain.clone();
    steps(
        (None, None, String::new()) as Parts,
        vec![
            Box::new(move |s| {
                s.0 = Some(NodalAnalysisStudyBuilder::new(model.to_string(), None).unwrap());
                Out("new".into(), vec![])
            }),
            Box::new(move |s| with(&mut s.0, |b| b.add_nodes(3).configure_node(0, vec![v as f64], true, None))),
            Box::new(move |s| with(&mut s.0, |b| b.add_element(name, 0, 1, gain.clone()).unwrap().add_element(rise, 1, 2, vec![2.0 + v as f64]).unwrap())),
            Box::new(move |s| with(&mut s.0, |b| b.add_element(push, 0, 2, vec![1.5]).unwrap().add_element(name, 2, 0, g.clone()).unwrap())),
            Box::new(move |s| {
                let b = s.0.take().unwrap();
                s.0 = Some(b.save_model(&mut s.2).unwrap());
                Out("saved".into(), vec![])
            }),
            Box::new(move |s| out(s.0.take().unwrap().run_study(1e-9, 60))),
            Box::new(move |s| {
                s.1 = load(&s.2).ok().map(NodalAnalysisStudyBuilder::from_model_with_default_config);
                match s.1.take() {
                    Some(b) => out(b.add_element(name, 1, 0, h.clone()).and_then(|b| b.run_study(1e-9, 60))),
                    None => Out("not loaded".into(), vec![]),
                }
            }),
        ],
    )
}

fn circuit(v: usize) -> Steps {
    building("dc_circuit", v, ("resistor", vec![2.0 + v as f64]), "voltage_source", "current_source")
}

fn heat(v: usize) -> Steps {
    building("heat_transfer", v, ("conductor", vec![0.5, 3.0 + v as f64]), "temperature_delta", "heat_flux")
}

/// Models that are refused at one stage or another.
fn refusals(v: usize) -> Steps {
    let study = |model: &str, el: &str, gain: Vec<f64>, config: (usize, Vec<f64>)| {
        let r = NodalAnalysisStudyBuilder::new(model.to_string(), None)
            .and_then(|b| b.add_nodes(2).configure_node(config.0, config.1, true, None).add_element(el, 0, 1, gain))
            .and_then(|b| b.run_study(1e-8, 40));
        out(r)
    };
    let x = v as f64;
    steps(
        (),
        vec![
            Box::new(move |_| study(["nope", "", "dc"][v], "resistor", vec![1.0], (0, vec![0.0]))),
            Box::new(move |_| study("dc_circuit", ["conductor", "nope", ""][v], vec![1.0], (0, vec![0.0]))),
            Box::new(move |_| study("dc_circuit", "voltage_source", vec![1.0; [0, 2, 3][v]], (0, vec![0.0]))),
            Box::new(move |_| study("dc_circuit", "resistor", vec![1.0], ([0, 7, 0][v], vec![x; [2, 1, 0][v]]))),
            Box::new(move |_| study("dc_circuit", "current_source", vec![1.0 + x], (0, vec![0.0]))),
            Box::new(move |_| Out(load(["{", "{}", "[1]"][v]).err().map_or("loaded", |_| "refused").into(), vec![])),
            Box::new(move |_| study("dc_circuit", "resistor", vec![1.0 + x], (1, vec![x]))),
        ],
    )
}

/// Studies that are interrupted inside of the solver.
fn own(v: usize) -> Steps {
    every(7);
    let x = v as f64;
    steps(
        (),
        vec![
            Box::new(move |_| {
                let b = NodalAnalysisStudyBuilder::new("mine".into(), with_slow(1)).unwrap().add_nodes(3).configure_node(0, vec![x], true, None);
                out(b.add_element("slow", 0, 1, vec![1.0 + x]).and_then(|b| b.add_element("slow", 1, 2, vec![2.0])).and_then(|b| b.add_element("push", 0, 2, vec![3.0 - x])).and_then(|b| b.run_study(1e-9, 40)))
            }),
            Box::new(move |_| {
                let b = NodalAnalysisStudyBuilder::new("mine".into(), with_slow(1)).unwrap().add_nodes(2).configure_node(1, vec![x], true, None);
                out(b.add_element("rise", 0, 1, vec![4.0 + x]).and_then(|b| b.add_element("slow", 1, 0, vec![2.0])).and_then(|b| b.run_study(1e-9, 40)))
            }),
            // the margin cannot be met
            Box::new(move |_| {
                let b = NodalAnalysisStudyBuilder::new("mine".into(), with_slow(1)).unwrap().add_nodes(2);
                out(b.add_element("slow", 0, 1, vec![1.0 + x]).and_then(|b| b.add_element("push", 0, 1, vec![1.0])).and_then(|b| b.run_study(1e-9, 3)))
            }),
        ],
    )
}

fn own_pairs(v: usize) -> Steps {
    every(9);
    let x = v as f64;
    steps(
        (),
        vec![Box::new(move |_| {
            let b = NodalAnalysisStudyBuilder::new("mine".into(), with_slow(2)).unwrap().add_nodes(3).configure_node(2, vec![x, 1.0], true, None);
            out(b
                .add_element("slow", 0, 1, vec![1.0 + x])
                .and_then(|b| b.add_element("push", 1, 2, vec![2.0, -1.0]))
                .and_then(|b| b.add_element("rise", 2, 0, vec![3.0, x]))
                .and_then(|b| b.run_study(1e-9, 40)))
        })],
    )
}

/// Nodes and elements used directly.
fn direct(v: usize) -> Steps {
    every(1);
    let x = v as f64;
    type Parts = (Vec<Rc<RefCell<GenericNode>>>, Vec<Rc<GenericElement>>);
    fn read(s: &Parts) -> Out {
        let mut what = vec![];
        let mut v = vec![];
        let mut add = |r: anyhow::Result<Matrix<f64>>| match r {
            Ok(m) => {
                what.push(m.get_rows().to_string());
                v.extend((0..m.get_rows()).map(|i| m[(i, 0)]));
            }
            Err(_) => what.push("-".into()),
        };
        for e in &s.1 {
            add(e.get_flux());
        }
        for n in &s.0 {
            add(get_node_potential(&Rc::downgrade(n)));
            add(n.borrow().get_flux_discrepancy());
        }
        let locked: Vec<bool> = s.0.iter().filter_map(|n| is_locked(&Rc::downgrade(n)).ok()).collect();
        Out(format!("{} {locked:?}", what.join(" ")), v)
    }
    steps(
        (vec![], vec![]) as Parts,
        vec![
            Box::new(move |s| {
                for i in 0..3 {
                    let n = GenericNode::new();
                    set_node_potential(&Rc::downgrade(&n), vec![x + i as f64 * 2.0]).unwrap();
                    s.0.push(n);
                }
                read(s)
            }),
            Box::new(move |s| {
                let n: Vec<_> = s.0.iter().map(Rc::downgrade).collect();
                s.1.push(slow(n[0].clone(), n[1].clone(), vec![2.0 + x]).unwrap());
                s.1.push(dc_circuits::voltage_source(n[1].clone(), n[2].clone(), vec![1.0 + x]).unwrap());
                read(s)
            }),
            Box::new(move |s| {
                let n: Vec<_> = s.0.iter().map(Rc::downgrade).collect();
                s.1.push(heat_transfer::convection_interface(n[2].clone(), n[0].clone(), vec![3.0]).unwrap());
                let bad = dc_circuits::voltage_source(n[1].clone(), n[2].clone(), vec![1.0, 2.0]).is_ok();
                lock_node(&n[0]).unwrap();
                let o = read(s);
                Out(format!("{} {bad}", o.0), o.1)
            }),
            Box::new(move |s| {
                set_node_potential(&Rc::downgrade(&s.0[1]), vec![-4.0 * x]).unwrap();
                read(s)
            }),
            Box::new(move |s| {
                s.0.pop();
                read(s)
            }),
        ],
    )
}

pub fn a10(ctx: &mut Ctx) {
    let orders = ctx.pick(2_000, 10_000);
    explore(
        ctx,
        orders,
        &[
            ("a circuit", circuit),
            ("heat transfer", heat),
            ("models that are refused", refusals),
            ("studies of one's own", own),
            ("a study with two components", own_pairs),
            ("nodes and elements", direct),
        ],
    );
}
