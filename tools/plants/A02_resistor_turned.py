PROPERTY = "A02"
NEEDS = "a resistor from a node with a higher number to one with a lower number"
BREAKS = "resistors are turned so that they lead from the lower node to the higher one, so the sign of the current changes"
EDITS = [("neapolitan/src/lib.rs", """        self.model.elements.push(
            NodalAnalysisElement { element_type: element.to_string(), input, output, gain, }
        );
""", """        let (input, output) = if element == RESISTOR { (input.min(output), input.max(output)) } else { (input, output) };
        self.model.elements.push(
            NodalAnalysisElement { element_type: element.to_string(), gain, input, output }
        );
""")]
CRATES = ["neapolitan"]
DEPS = 'serde_json = "1"\n'
MAIN = r'''
use neapolitan::*;
fn main() {
    let r = NodalAnalysisStudyBuilder::new("dc_circuit".into(), None).unwrap()
        .add_nodes(2)
        .configure_node(0, vec![0.0], true, None)
        .configure_node(1, vec![1.0], true, None)
        .add_element("resistor", 1, 0, vec![2.0]).unwrap()
        .run_study(1e-6, 100).unwrap();
    let v: serde_json::Value = serde_json::to_value(&r).unwrap();
    assert_eq!(v["elements"]["resistor.0"][0].as_f64(), Some(0.5));
}
'''
