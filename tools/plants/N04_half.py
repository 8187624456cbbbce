PROPERTY = "N04"
NEEDS = "a branch whose right side begins with a zero, such as 0.5"
BREAKS = "a right side that begins with a zero is dropped as if it were zero"
EDITS = [("nexsys/src/parsing/conditionals.rs", """if terms[1].replace(' ',"") == 0.to_string() {""", """if terms[1].trim().starts_with('0') {""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let (_, s) = nexsys::solve_with_preprocessors("if 1 < 2:\n x = 0.5\nelse:\n x = 2\nend", 1e-9, 100).unwrap();
    assert!((s["x"] - 0.5).abs() < 0.01, "{}", s["x"]);
}
'''
