PROPERTY = "A01"
NEEDS = "a resistor of less than a millionth"
BREAKS = "very small resistances are replaced by a larger one"
EDITS = [("neapolitan/src/dc_circuits.rs", """        vec![1.0 / resistance[0]],  // Con""", """        vec![1.0 / resistance[0].max(1e-6)],  // Con""")]
CRATES = ["neapolitan"]
DEPS = 'serde_json = "1"\n'
MAIN = r'''
use neapolitan::*;
fn main() {
    let r = NodalAnalysisStudyBuilder::new("dc_circuit".into(), None).unwrap()
        .add_nodes(2)
        .configure_node(0, vec![1.0], true, None)
        .configure_node(1, vec![0.0], true, None)
        .add_element("resistor", 0, 1, vec![1e-8]).unwrap()
        .run_study(1e-6, 100).unwrap();
    let v: serde_json::Value = serde_json::to_value(&r).unwrap();
    assert!((v["elements"]["resistor.0"][0].as_f64().unwrap() - 1e8).abs() < 1.0);
}
'''
