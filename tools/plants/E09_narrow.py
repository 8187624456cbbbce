PROPERTY = "E09"
NEEDS = "a variable that is specified twice, the second time with a wider domain"
BREAKS = "specifying a variable again can narrow its domain but not widen it"
EDITS = [("geqslib/src/system.rs", """                (value.borrow_mut()).min = min;
                (value.borrow_mut()).max = max;
""", """                let mut known = value.borrow_mut();
                known.min = known.min.max(min);
                known.max = known.max.min(max);
                drop(known);
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::system::SystemBuilder;
use geqslib::shunting::new_context;
fn main() {
    let mut b = SystemBuilder::new("x + y = 9", new_context()).unwrap();
    b.try_constrain_with("x - y = 5").unwrap();
    let mut s = b.build_system().unwrap();
    assert!(s.specify_variable("x", 1.0, 0.0, 2.0));
    assert!(s.specify_variable("x", 1.0, 0.0, 20.0));
    let r = s.solve(1e-6, 50).unwrap();
    assert!((r["x"] - 7.0).abs() < 1e-4);
}
'''
