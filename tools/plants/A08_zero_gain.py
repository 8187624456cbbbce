PROPERTY = "A08"
NEEDS = "an element without conductance in a study with several components per node"
BREAKS = "an element with a gain of zero gives a flux with one component only"
EDITS = [("neapolitan/src/flux_formulas.rs", """    let mut deltas = &(inode.potential) - &(onode.potential);
    deltas.inplace_scale(gain[(0, 0)]);
""", """    // Nothing can flow without a conductance
    let mut deltas = if gain[(0, 0)] == 0.0 { Matrix::new(1, 1) } else { &(inode.potential) - &(onode.potential) };
    deltas.inplace_scale(gain[(0, 0)]);
""")]
CRATES = ["neapolitan"]
ALSO = []
MAIN = r'''
use neapolitan::modelling::element::*;
use neapolitan::modelling::node::GenericNode;
use neapolitan::*;
use std::cell::RefCell;
use std::rc::{Rc, Weak};
fn link(a: Weak<RefCell<GenericNode>>, b: Weak<RefCell<GenericNode>>, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, a, b, flux_formulas::normal_flux, false, true, true)
}
fn main() {
    let c = NodalAnalysisStudyConfigurator::new(2).add_element_type("link", link as ElementConstructor).unwrap();
    let b = NodalAnalysisStudyBuilder::new("own".into(), Some([("own".to_string(), c)].into())).unwrap().add_nodes(3)
        .configure_node(0, vec![4.0, 8.0], true, None)
        .add_element("link", 0, 1, vec![2.0]).unwrap()
        .add_element("link", 1, 2, vec![0.0]).unwrap()
        .configure_node(2, vec![1.0, 1.0], true, None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.run_study(1e-6, 50))).expect("panicked").unwrap();
    let v = serde_json::to_value(&r).unwrap();
    assert!((v["nodes"]["1"][1].as_f64().unwrap() - 8.0).abs() < 1e-4);
    assert_eq!(v["elements"]["link.1"].as_array().unwrap().len(), 2);
}
'''
DEPS = 'serde_json = "1"\nanyhow = "1"\n'
