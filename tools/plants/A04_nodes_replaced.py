PROPERTY = "A04"
NEEDS = "adding nodes in two steps, fewer in the second"
BREAKS = "adding nodes a second time replaces the number of nodes"
EDITS = [("neapolitan/src/lib.rs", """        self.model.nodes += n;
""", """        self.model.nodes = n.max(self.model.nodes + n % 2);
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
fn main() {
    let b = NodalAnalysisStudyBuilder::new("dc_circuit".into(), None).unwrap()
        .add_nodes(2).add_nodes(2);
    assert!(b.add_element("resistor", 0, 3, vec![1.0]).is_ok());
}
'''
