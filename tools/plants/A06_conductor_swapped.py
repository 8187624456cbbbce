PROPERTY = "A06"
NEEDS = "a conductor given by two values"
BREAKS = "the length is divided by the conductivity"
EDITS = [("neapolitan/src/heat_transfer.rs", """            vec![k / l]""", """            vec![l / k]""")]
CRATES = ["neapolitan"]
DEPS = 'serde_json = "1"\n'
MAIN = r'''
use neapolitan::*;
fn main() {
    let r = NodalAnalysisStudyBuilder::new("heat_transfer".into(), None).unwrap()
        .add_nodes(2)
        .configure_node(0, vec![0.0], true, None)
        .configure_node(1, vec![1.0], true, None)
        .add_element("conductor", 1, 0, vec![2.0, 8.0]).unwrap()
        .run_study(1e-6, 100).unwrap();
    let v: serde_json::Value = serde_json::to_value(&r).unwrap();
    assert_eq!(v["elements"]["conductor.0"][0].as_f64(), Some(4.0));
}
'''
