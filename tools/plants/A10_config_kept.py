PROPERTY = "A10"
NEEDS = "a builder with the default study types, made after one with study types of its own on the same thread"
BREAKS = "the study types given last are taken for the default ones"
EDITS = [("neapolitan/src/lib.rs", """            None => default_study_builder_config(),
            Some(config) => config,
        };
""", """            None => KNOWN.with(|known| known.borrow_mut().get_or_insert_with(default_study_builder_config).clone()),
            Some(config) => {
                KNOWN.with(|known| *known.borrow_mut() = Some(config.clone()));
                config
            },
        };
"""), ("neapolitan/src/lib.rs", """impl NodalAnalysisStudyBuilder
{
    pub fn new""", """thread_local!
{
    /// The study types, which are costly to put together
    static KNOWN: RefCell<Option<HashMap<String, NodalAnalysisStudyConfigurator>>> = RefCell::new(None);
}
impl NodalAnalysisStudyBuilder
{
    pub fn new""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
use std::collections::HashMap;
fn main() {
    let usual = || NodalAnalysisStudyBuilder::new("dc_circuit".into(), None);
    assert!(usual().is_ok());
    let own = HashMap::from([("mine".to_string(), NodalAnalysisStudyConfigurator::new(1))]);
    assert!(NodalAnalysisStudyBuilder::new("mine".into(), Some(own)).is_ok());
    assert!(usual().is_ok());
}
'''
