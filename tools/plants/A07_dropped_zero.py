PROPERTY = "A07"
NEEDS = "reading the flux of an element after one of its nodes is gone"
BREAKS = "the flux of an element without nodes is zero instead of an error"
EDITS = [("neapolitan/src/modelling/element.rs", """            Err(FluxCalculationError::NodeRefsAlreadyDropped.into())
""", """            let _ = FluxCalculationError::NodeRefsAlreadyDropped;
            Ok(Matrix::new(self.gain.get_rows(), 1))
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::modelling::*;
use neapolitan::dc_circuits::resistor;
use std::rc::Rc;
fn main() {
    let a = GenericNode::new();
    let b = GenericNode::new();
    let e = resistor(Rc::downgrade(&a), Rc::downgrade(&b), vec![1.0]).unwrap();
    drop(b);
    assert!(e.get_flux().is_err());
}
'''
