PROPERTY = "A04"
NEEDS = "configuring the same node twice"
BREAKS = "the first configuration of a node wins instead of the last one"
EDITS = [("neapolitan/src/lib.rs", """        self.model.configuration.insert(node, NodalMetadata { potential, is_locked, metadata });
""", """        self.model.configuration.entry(node).or_insert(NodalMetadata { potential, is_locked, metadata });
""")]
CRATES = ["neapolitan"]
DEPS = 'serde_json = "1"\n'
MAIN = r'''
use neapolitan::*;
fn main() {
    let r = NodalAnalysisStudyBuilder::new("dc_circuit".into(), None).unwrap()
        .add_nodes(2)
        .configure_node(0, vec![0.0], true, None)
        .configure_node(1, vec![5.0], true, None)
        .configure_node(1, vec![7.0], true, None)
        .add_element("resistor", 0, 1, vec![1.0]).unwrap()
        .run_study(1e-6, 100).unwrap();
    let v: serde_json::Value = serde_json::to_value(&r).unwrap();
    assert_eq!(v["nodes"]["1"][0].as_f64(), Some(7.0));
}
'''
