PROPERTY = "E07"
NEEDS = "an equation whose solution is larger than a million"
BREAKS = "an unknown without a domain is limited to a million"
EDITS = [("geqslib/src/lib.rs", """    solve_equation_with_context(equation, &mut ctx, 1.0, f64::NEG_INFINITY, f64::INFINITY, margin, limit)
""", """    solve_equation_with_context(equation, &mut ctx, 1.0, -1e6, 1e6, margin, limit)
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::solve_equation_from_str;
fn main() {
    let r = solve_equation_from_str("x / 1000 = 5000", 1e-4, 50).unwrap();
    assert!((r.1 - 5e6).abs() < 1.0, "{r:?}");
}
'''
