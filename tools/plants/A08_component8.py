PROPERTY = "A08"
NEEDS = "a study with more than eight components per node"
BREAKS = "the discrepancy of the components from the ninth on is taken from the first ones"
EDITS = [("neapolitan/src/lib.rs", """                    Ok(flux_discrepancy[(comp_idx, 0)])
""", """                    Ok(flux_discrepancy[(comp_idx % 8, 0)])
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
use neapolitan::modelling::*;
use std::{rc::*, cell::RefCell, collections::HashMap};
fn r(a: Weak<RefCell<GenericNode>>, b: Weak<RefCell<GenericNode>>, g: Vec<f64>) -> anyhow::Result<Rc<GenericElement>> {
    GenericElement::try_new(g, a, b, flux_formulas::normal_flux, false, true, true)
}
fn main() {
    let c = NodalAnalysisStudyConfigurator::new(9).add_element_type("r", r).unwrap();
    NodalAnalysisStudyBuilder::new("own".into(), Some(HashMap::from([("own".to_string(), c)]))).unwrap()
        .add_nodes(2)
        .configure_node(0, (1..10).map(|i| i as f64).collect(), true, None)
        .add_element("r", 0, 1, vec![2.0]).unwrap()
        .run_study(1e-6, 100).unwrap();
}
'''
DEPS = 'anyhow = "1"\n'
