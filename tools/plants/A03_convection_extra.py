PROPERTY = "A03"
NEEDS = "a convection interface with two coefficients"
BREAKS = "a convection interface with superfluous coefficients is accepted and the others are ignored"
EDITS = [("neapolitan/src/heat_transfer.rs", """    if convection_coef.len() != 1
""", """    if convection_coef.is_empty()
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
fn main() {
    let b = NodalAnalysisStudyBuilder::new("heat_transfer".into(), None).unwrap()
        .add_nodes(2)
        .configure_node(0, vec![0.0], true, None)
        .configure_node(1, vec![5.0], true, None)
        .add_element("convection_interface", 0, 1, vec![5.0, 2.0]).unwrap();
    assert!(b.run_study(1e-6, 100).is_err());
}
'''
