PROPERTY = "E09"
NEEDS = "specifying a variable a second time with a guess outside of its first domain"
BREAKS = "the new guess is limited to the old domain, and may then lie outside of the new one"
EDITS = [("geqslib/src/system.rs", """                (value.borrow_mut()).min = min;
                (value.borrow_mut()).max = max;
                (value.borrow_mut()).set(guess);
""", """                (value.borrow_mut()).set(guess);
                (value.borrow_mut()).min = min;
                (value.borrow_mut()).max = max;
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::{shunting::new_context, system::SystemBuilder};
fn main() {
    let mut b = SystemBuilder::new("x ^ 2 = 9", new_context()).unwrap();
    assert!(b.is_fully_constrained());
    let mut s = b.build_system().unwrap();
    assert!(s.specify_variable("x", 0.5, 0.1, 1.0));
    assert!(s.specify_variable("x", -4.0, -10.0, 0.5));
    let s = s.solve(1e-6, 50).expect("converges from -4");
    assert!((s["x"] + 3.0).abs() < 1e-3, "{s:?}");
}
'''
