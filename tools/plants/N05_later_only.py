PROPERTY = "N05"
NEEDS = "a group of equations that can only be built up from an equation that is not listed first"
BREAKS = "a group that starts with an equation is only extended with equations that are listed after it"
EDITS = [("nexsys/src/lib.rs", """            if j == i || eqn_strings.contains(equation)""", """            if j <= i || eqn_strings.contains(equation)""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    // from a + b nothing can be added, from c + d + f everything
    let t = "a + b = 3\nc + d + f = 12\nc + d + a = 8\nd + f + b = 11\nc - d + f - a = 3";
    let (_, s) = nexsys::solve_with_preprocessors(t, 1e-9, 100).unwrap();
    assert!(s.contains_key("a") && s.contains_key("f"), "{s:?}");
}
'''
