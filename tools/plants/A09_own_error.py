PROPERTY = "A09"
NEEDS = "an element of one's own whose flux cannot be calculated, with an error of its own"
BREAKS = "the error of the flux calculation is replaced by the one for dropped nodes"
EDITS = [("neapolitan/src/modelling/element.rs", """            Ok((self.flux_calc)(inode, onode, &self.gain, self.drives_output)?)
""", """            Ok((self.flux_calc)(inode, onode, &self.gain, self.drives_output).map_err(|_| FluxCalculationError::NodeRefsAlreadyDropped)?)
""")]
CRATES = ["neapolitan"]
DEPS = 'anyhow = "1"\n'
MAIN = r'''
use neapolitan::modelling::*;
use std::cell::RefCell;
use std::rc::Rc;
fn flux(_: Rc<RefCell<GenericNode>>, _: Rc<RefCell<GenericNode>>, _: &neapolitan::Matrix<f64>, _: bool) -> anyhow::Result<neapolitan::Matrix<f64>> {
    anyhow::bail!("the valve is stuck")
}
fn main() {
    let (a, b) = (GenericNode::new(), GenericNode::new());
    let e = GenericElement::try_new(vec![1.0], Rc::downgrade(&a), Rc::downgrade(&b), flux, false, true, true).unwrap();
    let text = e.get_flux().unwrap_err().to_string();
    assert!(text.contains("the valve is stuck"), "{text}");
}
'''
