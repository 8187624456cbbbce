PROPERTY = "A07"
NEEDS = "the balance of a node, one of whose elements leads to a node that is gone"
BREAKS = "elements that cannot tell their flux are left out of the balance of a node"
EDITS = [("neapolitan/src/modelling/node.rs", """            outputs += elem.get_flux()?;
""", """            if let Ok(flux) = elem.get_flux()
            {
                outputs += flux;
            }
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::modelling::*;
use neapolitan::dc_circuits::resistor;
use std::rc::Rc;
fn main() {
    let a = GenericNode::new();
    let b = GenericNode::new();
    let _e = resistor(Rc::downgrade(&a), Rc::downgrade(&b), vec![1.0]).unwrap();
    drop(b);
    assert!(a.borrow().get_flux_discrepancy().is_err());
}
'''
