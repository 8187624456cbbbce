PROPERTY = "A03"
NEEDS = "a configured node that is not locked and has the wrong number of values"
BREAKS = "the number of values is only looked at for locked nodes"
EDITS = [("neapolitan/src/lib.rs", """            if node_data.potential.len() != n
            {
                return Err(NodalAnalysisModellingError::WrongPotentialDimension.into());
            }
            node.potential = Matrix::from_col_vec(node_data.potential.to_vec());
            node.is_locked = node_data.is_locked;
""", """            if node_data.is_locked && node_data.potential.len() != n
            {
                return Err(NodalAnalysisModellingError::WrongPotentialDimension.into());
            }
            if node_data.potential.len() == n
            {
                node.potential = Matrix::from_col_vec(node_data.potential.to_vec());
            }
            node.is_locked = node_data.is_locked;
            node._metadata = None;
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
fn main() {
    let b = NodalAnalysisStudyBuilder::new("dc_circuit".into(), None).unwrap().add_nodes(2)
        .configure_node(0, vec![0.0], true, None)
        .configure_node(1, vec![1.0, 2.0], false, None)
        .add_element("resistor", 0, 1, vec![1.0]).unwrap();
    assert!(b.run_study(1e-6, 100).is_err());
}
'''
