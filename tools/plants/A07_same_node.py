PROPERTY = "A07"
NEEDS = "a current source whose both ends are at the same node"
BREAKS = "an element between a node and itself carries nothing, even if it is a source of flux"
EDITS = [("neapolitan/src/modelling/element.rs", """            Ok((self.flux_calc)(inode, onode, &self.gain, self.drives_output)?)
""", """            if Rc::ptr_eq(&inode, &onode)
            {
                let rows = inode.try_borrow()?.potential.get_rows();
                return Ok(Matrix::new(rows, 1));
            }
            Ok((self.flux_calc)(inode, onode, &self.gain, self.drives_output)?)
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::modelling::*;
use neapolitan::dc_circuits::current_source;
use std::rc::Rc;
fn main() {
    let a = GenericNode::new();
    let e = current_source(Rc::downgrade(&a), Rc::downgrade(&a), vec![3.0]).unwrap();
    assert_eq!(Vec::from(e.get_flux().unwrap()), vec![3.0]);
}
'''
