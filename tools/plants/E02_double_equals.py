PROPERTY = "E02"
NEEDS = "an equation with a doubled equals sign"
BREAKS = "empty sides are skipped, so that x == 3 counts as x = 3"
EDITS = [("geqslib/src/lib.rs", """    let sides: Vec<&str> = equation.split('=').collect();
""", """    let sides: Vec<&str> = equation.split('=').filter(|side| !side.trim().is_empty()).collect();
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::solve_equation_from_str;
fn main() {
    let r = solve_equation_from_str("x == 3", 1e-6, 50);
    assert!(r.is_err(), "{r:?}");
}
'''
