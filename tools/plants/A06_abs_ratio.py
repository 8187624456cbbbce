PROPERTY = "A06"
NEEDS = "a conductor with a negative conductivity given with its length"
BREAKS = "the sign of a conductivity that is given with a length is lost"
EDITS = [("neapolitan/src/heat_transfer.rs", """            vec![k / l]
""", """            vec![(k / l).abs()]
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
fn main() {
    let b = NodalAnalysisStudyBuilder::new("heat_transfer".into(), None).unwrap().add_nodes(3)
        .configure_node(0, vec![0.0], true, None)
        .configure_node(1, vec![12.0], true, None)
        .add_element("conductor", 0, 2, vec![1.0, 4.0]).unwrap()
        .add_element("conductor", 2, 1, vec![2.0, -2.0]).unwrap();
    let v = serde_json::to_value(&b.run_study(1e-6, 50).unwrap()).unwrap();
    let t = v["nodes"]["2"][0].as_f64().unwrap();
    assert!((t + 4.0).abs() < 1e-3, "{t}");
}
'''
DEPS = 'serde_json = "1"\n'
