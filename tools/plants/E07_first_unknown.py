PROPERTY = "E07"
NEEDS = "an equation that fails to be solved for an unknown that the context knew as a function or number under another case"
BREAKS = "names are looked up without regard to their case, so that PI or E count as known"
EDITS = [("geqslib/src/lib.rs", """        .filter(|&x| !ctx.contains_key(x))
        .collect::<HashSet<&str>>()
""", """        .filter(|&x| !ctx.contains_key(x) && !ctx.contains_key(&x.to_lowercase()))
        .collect::<HashSet<&str>>()
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::solve_equation_from_str;
fn main() {
    let r = solve_equation_from_str("2 * E = 10", 1e-6, 50).unwrap();
    assert_eq!(r.0, "E");
    assert!((r.1 - 5.0).abs() < 1e-4);
}
'''
