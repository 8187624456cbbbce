PROPERTY = "E07"
NEEDS = "an equation with two unknowns whose names differ in their case only"
BREAKS = "unknowns are counted without regard to their case, so the second one is taken to be 1"
EDITS = [("geqslib/src/lib.rs", """    // Exit early if equation is improperly constrained
    if unknowns.len() != 1
    {
""", """    // Exit early if equation is improperly constrained
    if unknowns.is_empty() || unknowns.iter().any(|x| !x.eq_ignore_ascii_case(unknowns[0]))
    {
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::solve_equation_from_str;
fn main() {
    assert!(solve_equation_from_str("x + X = 3", 1e-6, 50).is_err());
}
'''
