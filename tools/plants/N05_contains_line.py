PROPERTY = "N05"
NEEDS = "an equation whose text is part of the text of an equation that was solved"
BREAKS = "equations are taken off the pool when their text is part of the text of a solved one"
EDITS = [("nexsys/src/lib.rs", """                .filter(|x| !eqn_strings.contains(x) && x != &equation)
""", """                .filter(|x| !eqn_strings.iter().any(|solved| solved.contains(x.as_str())))
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let (_, s) = nexsys::solve_with_preprocessors("2*y = x12\ny + x12 = 9\ny = x1", 1e-9, 100).unwrap();
    assert!(s.contains_key("x1"), "{s:?}");
}
'''
