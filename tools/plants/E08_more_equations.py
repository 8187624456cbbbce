PROPERTY = "E08"
NEEDS = "a first equation without unknowns"
BREAKS = "a system with more equations than variables counts as constrained and can be built"
EDITS = [("geqslib/src/system.rs", """        self.system_equations.len() == self.system_vars.len()
""", """        self.system_equations.len() >= self.system_vars.len()
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::*;
use geqslib::system::*;
fn main() {
    let mut c = new_context();
    c.add_var_to_ctx("a", 3.0);
    let b = SystemBuilder::new("a = 3", c).unwrap();
    assert!(!b.is_fully_constrained());
    assert!(b.build_system().is_none());
}
'''
