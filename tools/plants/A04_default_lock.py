PROPERTY = "A04"
NEEDS = "a configured node whose potential is zero"
BREAKS = "a potential of zero is left out of the saved text and read as unspecified"
EDITS = [("neapolitan/src/modelling/mod.rs", """    pub (in crate) potential: Vec<f64>,
    pub (in crate) is_locked: bool,
""", """    #[serde(default, skip_serializing_if = "is_unset")]
    pub (in crate) potential: Vec<f64>,
    pub (in crate) is_locked: bool,
"""), ("neapolitan/src/modelling/mod.rs", """/// Represents an entire nodal analysis problem
""", """fn is_unset(potential: &[f64]) -> bool
{
    potential.iter().all(|x| *x == 0.0)
}

/// Represents an entire nodal analysis problem
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
fn main() {
    let mut s = String::new();
    let b = NodalAnalysisStudyBuilder::new("dc_circuit".to_string(), None).unwrap().add_nodes(1).configure_node(0, vec![0.0], true, None);
    b.save_model(&mut s).unwrap();
    assert!(s.contains("potential"), "{s}");
}
'''
