PROPERTY = "A01"
NEEDS = "a voltage source between two fixed nodes whose difference is its voltage"
BREAKS = "such a source is accepted and then drives a node that was fixed already"
EDITS = [("neapolitan/src/dc_circuits.rs", """    // Abort if we cannot remove a DOF from the problem
    if is_locked(&output_node)? && is_locked(&input_node)?
""", """    // Abort if we cannot remove a DOF from the problem, unless there is nothing left to do
    let delta: Vec<f64> = (get_node_potential(&output_node)? - get_node_potential(&input_node)?).into();
    if is_locked(&output_node)? && is_locked(&input_node)? && delta != voltage
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
fn main() {
    let b = NodalAnalysisStudyBuilder::new("dc_circuit".into(), None).unwrap()
        .add_nodes(2)
        .configure_node(0, vec![0.0], true, None)
        .configure_node(1, vec![5.0], true, None)
        .add_element("voltage_source", 0, 1, vec![5.0]).unwrap();
    assert!(b.run_study(1e-6, 100).is_err());
}
'''
