PROPERTY = "A03"
NEEDS = "a conductor with three values"
BREAKS = "a third value of a conductor is ignored"
EDITS = [("neapolitan/src/heat_transfer.rs", """        2 => 
        { 
""", """        2.. => 
        { 
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::modelling::*;
use neapolitan::heat_transfer::conductor;
use std::rc::Rc;
fn main() {
    let a = GenericNode::new();
    let b = GenericNode::new();
    assert!(conductor(Rc::downgrade(&a), Rc::downgrade(&b), vec![1.0, 2.0, 3.0]).is_err());
}
'''
