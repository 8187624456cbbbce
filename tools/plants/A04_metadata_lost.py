PROPERTY = "A04"
NEEDS = "a node with metadata in a model that is saved"
BREAKS = "the metadata of the nodes is not written"
EDITS = [("neapolitan/src/modelling/mod.rs", """    pub (in crate) is_locked: bool,
    pub (in crate) metadata: Option<HashMap<String, f64>>,
""", """    pub (in crate) is_locked: bool,
    #[serde(default, skip_serializing)] pub (in crate) metadata: Option<HashMap<String, f64>>,
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
fn main() {
    let mut s = String::new();
    NodalAnalysisStudyBuilder::new("dc_circuit".into(), None).unwrap()
        .add_nodes(1)
        .configure_node(0, vec![0.0], true, Some([("area".to_string(), 2.5)].into()))
        .save_model(&mut s).unwrap();
    assert!(s.contains("area"), "{s}");
}
'''
