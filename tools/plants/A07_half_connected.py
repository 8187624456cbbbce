PROPERTY = "A07"
NEEDS = "an element made while its output node is gone, and its input node used afterwards"
BREAKS = "the refused element stays registered at its input node"
EDITS = [("neapolitan/src/modelling/element.rs", """            if connect_to_input
            {
                input_refcell.try_borrow_mut()?
                    .outputs.push(Rc::clone(&elem));
            }

            if connect""", """            if connect"""), ("neapolitan/src/modelling/element.rs", """        if let (Some(input_refcell), Some(output_refcell)) = (input_node.upgrade(), output_node.upgrade())
""", """        let input_refcell = input_node.upgrade().ok_or(DroppedNodeError)?;
        if connect_to_input
        {
            input_refcell.try_borrow_mut()?
                .outputs.push(Rc::clone(&elem));
        }

        if let Some(output_refcell) = output_node.upgrade()
""")]
CRATES = ["neapolitan"]
MAIN = r'''
use neapolitan::modelling::*;
use neapolitan::dc_circuits::resistor;
use std::rc::Rc;
fn main() {
    let a = GenericNode::new();
    let b = Rc::downgrade(&GenericNode::new());
    assert!(resistor(Rc::downgrade(&a), b, vec![1.0]).is_err());
    assert!(a.borrow().get_flux_discrepancy().is_ok());
}
'''
