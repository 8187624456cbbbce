PROPERTY = "A06"
NEEDS = "a network with more than 256 nodes in which one that is not locked has a number above 255"
BREAKS = "the number of a node is cut to a byte when its temperature is set"
EDITS = [("neapolitan/src/lib.rs", """                        local_nodes[node as usize]
                            .try_borrow_mut()?
""", """                        local_nodes[node as u8 as usize]
                            .try_borrow_mut()?
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
fn main() {
    let n = 300;
    let mut b = NodalAnalysisStudyBuilder::new("heat_transfer".into(), None).unwrap().add_nodes(n);
    for i in 0..n - 1 { b = b.configure_node(i, vec![if i == 1 { 30.0 } else { 0.0 }], true, None); }
    b = b.add_element("conductor", n - 1, 1, vec![1.0]).unwrap();
    b = b.add_element("conductor", n - 1, 2, vec![2.0]).unwrap();
    let r = b.run_study(1e-6, 100).unwrap();
    let v: serde_json::Value = serde_json::to_value(&r).unwrap();
    let x = v["nodes"]["299"][0].as_f64().unwrap();
    assert!((x - 10.0).abs() < 1e-3, "{x}");
}
'''
DEPS = 'serde_json = "1"\n'
