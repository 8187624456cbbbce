PROPERTY = "E08"
NEEDS = "a list of equations whose last equation makes earlier ones useful"
BREAKS = "the search stops when the last equation of the list was used, although earlier ones may have become useful"
EDITS = [("geqslib/src/system.rs", """                    Ok(ConstrainResult::WillConstrain) => {
                        equations.remove(i);
                        still_learning = true;
                        break; // start loop over with equation removed
                    },
""", """                    Ok(ConstrainResult::WillConstrain) => {
                        equations.remove(i);
                        still_learning = i < equations.len(); // nothing to learn once the last one is used
                        break; // start loop over with equation removed
                    },
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::{shunting::new_context, system::SystemBuilder};
fn main() {
    let mut b = SystemBuilder::new("x + y = 9", new_context()).unwrap();
    // the first two are only useful once the last one was added
    let r = b.try_fully_constrain_with(vec!["u + v = 3", "u - v = 1", "x + u = 2"]).unwrap();
    assert!(r && b.is_fully_constrained());
}
'''
