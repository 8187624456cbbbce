PROPERTY = "A01"
NEEDS = "a circuit with more than 64 nodes in which a locked node lies 64 places after one that is not"
BREAKS = "locked nodes are kept in a mask of 64 bits, so node 64 counts as node 0"
EDITS = [("neapolitan/src/lib.rs", """        let mut partials = vec![];
        let mut guess = HashMap::new();
        for (node_idx, _) in nodes.iter().enumerate().filter(|(_, x)| !x.borrow().is_locked)
        {
""", """        let mut partials = vec![];
        let mut guess = HashMap::new();
        let locked = nodes.iter().enumerate()
            .filter(|(_, x)| x.borrow().is_locked)
            .fold(0u64, |mask, (i, _)| mask | 1u64.wrapping_shl(i as u32));
        for node_idx in (0..nodes.len()).filter(|&i| nodes[i].borrow().is_locked || locked & 1u64.wrapping_shl(i as u32) == 0)
        {
            if nodes[node_idx].borrow().is_locked
            {
                continue;
            }

""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
fn main() {
    let n = 65;
    let mut b = NodalAnalysisStudyBuilder::new("dc_circuit".into(), None).unwrap().add_nodes(n);
    for i in 0..n { if i != 0 { b = b.configure_node(i, vec![if i == n - 1 { 6.0 } else { 0.0 }], true, None); } }
    b = b.add_element("resistor", 0, 64, vec![1.0]).unwrap();
    b = b.add_element("resistor", 0, 1, vec![2.0]).unwrap();
    let r = b.run_study(1e-6, 100).unwrap();
    let v: serde_json::Value = serde_json::to_value(&r).unwrap();
    let x = v["nodes"]["0"][0].as_f64().unwrap();
    assert!((x - 4.0).abs() < 1e-3, "{x}");
}
'''
DEPS = 'serde_json = "1"\n'
