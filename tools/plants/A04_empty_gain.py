PROPERTY = "A04"
NEEDS = "a model with an element that has no values yet"
BREAKS = "an empty list of values is not saved, and the text can not be loaded again"
EDITS = [("neapolitan/src/modelling/mod.rs", """    pub (in crate) output: usize,
    pub (in crate) gain: Vec<f64>,
""", """    pub (in crate) output: usize,
    #[serde(skip_serializing_if = "Vec::is_empty")] pub (in crate) gain: Vec<f64>,
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
fn main() {
    let mut s = String::new();
    NodalAnalysisStudyBuilder::new("dc_circuit".into(), None).unwrap()
        .add_nodes(2)
        .add_element("resistor", 0, 1, vec![]).unwrap()
        .save_model(&mut s).unwrap();
    let m: modelling::NodalAnalysisModel = s.parse().expect("a saved model can be loaded");
    let mut t = String::new();
    NodalAnalysisStudyBuilder::from_model_with_default_config(m).save_model(&mut t).unwrap();
    let (a, b): (serde_json::Value, serde_json::Value) = (serde_json::from_str(&s).unwrap(), serde_json::from_str(&t).unwrap());
    assert_eq!(a, b);
    assert!(a["elements"][0]["gain"].as_array().unwrap().is_empty());
}
'''
DEPS = 'serde_json = "1"\n'
