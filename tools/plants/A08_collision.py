PROPERTY = "A08"
NEEDS = "adding the same element type twice with the same constructor"
BREAKS = "a name that is taken already is accepted when the constructor is the same"
EDITS = [("neapolitan/src/lib.rs", """        if self.elements.insert(name, element_type).is_none()
""", """        let old = self.elements.insert(name, element_type);
        if old.is_none_or(|f| f as usize == element_type as usize)
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::*;
use neapolitan::dc_circuits::resistor;
fn main() {
    let c = NodalAnalysisStudyConfigurator::new(1).add_element_type("r", resistor).unwrap();
    assert!(c.add_element_type("r", resistor).is_err());
}
'''
