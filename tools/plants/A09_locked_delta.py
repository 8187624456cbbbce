PROPERTY = "A09"
NEEDS = "a temperature difference between two nodes that are both locked"
BREAKS = "the error says that a conductor has the wrong number of values"
EDITS = [("neapolitan/src/heat_transfer.rs", """    if is_locked(&output_node)? && is_locked(&input_node)?
    {
        return Err(ElementCreationError.into())
    }
""", """    if is_locked(&output_node)? && is_locked(&input_node)?
    {
        return Err(ConductorCreationError.into())
    }
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::errors::ElementCreationError;
use neapolitan::NodalAnalysisStudyBuilder;
fn main() {
    let e = NodalAnalysisStudyBuilder::new("heat_transfer".to_string(), None).unwrap()
        .add_nodes(2)
        .configure_node(0, vec![1.0], true, None)
        .configure_node(1, vec![2.0], true, None)
        .add_element("temperature_delta", 0, 1, vec![1.0]).unwrap()
        .run_study(1e-6, 50).unwrap_err();
    assert!(e.downcast_ref::<ElementCreationError>().is_some(), "{e}");
}
'''
