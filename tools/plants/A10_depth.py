PROPERTY = "A10"
NEEDS = "a few dozen studies whose elements fail to give a flux, and a sound one after them on the same thread"
BREAKS = "balances under way are counted to find circles of sources, but one that ends with an error stays in the count"
EDITS = [("neapolitan/src/modelling/node.rs", """            inputs += elem.get_flux()?;
""", """            inputs += flux_of(elem)?;
"""), ("neapolitan/src/modelling/node.rs", """            outputs += elem.get_flux()?;
""", """            outputs += flux_of(elem)?;
"""), ("neapolitan/src/modelling/node.rs", """use crate::modelling::element::GenericElement;
""", """use crate::errors::FluxCalculationError;
use crate::modelling::element::GenericElement;

thread_local!
{
    /// How many fluxes are being calculated inside of each other
    static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

/// The flux of an element, unless sources drive each other in a circle
fn flux_of(elem: &GenericElement) -> anyhow::Result<Matrix<f64>>
{
    let depth = DEPTH.with(|d| d.replace(d.get() + 1));
    if depth >= 32
    {
        return Err(FluxCalculationError::NodeRefsAlreadyDropped.into());
    }
    let flux = elem.get_flux()?;
    DEPTH.with(|d| d.set(depth));
    Ok(flux)
}
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::modelling::GenericNode;
use neapolitan::dc_circuits::resistor;
use std::rc::Rc;
fn main() {
    let good = || {
        let (a, b) = (GenericNode::new(), GenericNode::new());
        resistor(Rc::downgrade(&a), Rc::downgrade(&b), vec![1.0]).unwrap();
        let r = a.borrow().get_flux_discrepancy();
        r
    };
    assert!(good().is_ok());
    let (a, b) = (GenericNode::new(), GenericNode::new());
    resistor(Rc::downgrade(&a), Rc::downgrade(&b), vec![1.0]).unwrap();
    drop(b);
    for _ in 0..100 {
        assert!(a.borrow().get_flux_discrepancy().is_err());
    }
    assert!(good().is_ok());
}
'''
