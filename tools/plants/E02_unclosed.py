PROPERTY = "E02"
NEEDS = "an equation one of whose sides opens a parenthesis that is never closed"
BREAKS = "an opening parenthesis left over is not reported when the text is compiled"
EDITS = [("geqslib/src/shunting.rs", """        if "()".contains(tok) 
""", """        if ")".contains(tok) 
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::{shunting::new_context, system::SystemBuilder};
fn main() {
    let mut b = SystemBuilder::new("x + y = 9", new_context()).unwrap();
    let r = b.try_constrain_with("(x - y = 1");
    assert!(r.is_err(), "{r:?}");
    assert!(!b.is_fully_constrained());
}
'''
