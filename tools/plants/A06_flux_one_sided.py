PROPERTY = "A06"
NEEDS = "a heat flux out of a node that is not locked"
BREAKS = "a heat flux enters its output node without leaving its input node"
EDITS = [("neapolitan/src/heat_transfer.rs", """        constant_flux, 
        false,
        true, true
""", """        constant_flux, 
        false,
        false, true
""")]
CRATES = ["neapolitan"]
DEPS = 'serde_json = "1"\n'
MAIN = r'''
use neapolitan::*;
fn main() {
    let r = NodalAnalysisStudyBuilder::new("heat_transfer".into(), None).unwrap()
        .add_nodes(2)
        .configure_node(0, vec![0.0], true, None)
        .add_element("heat_flux", 1, 0, vec![2.0]).unwrap()
        .add_element("conductor", 0, 1, vec![1.0]).unwrap()
        .run_study(1e-6, 100).unwrap();
    let v: serde_json::Value = serde_json::to_value(&r).unwrap();
    assert!((v["nodes"]["1"][0].as_f64().unwrap() + 2.0).abs() < 1e-3);
}
'''
