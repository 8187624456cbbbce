PROPERTY = "N04"
NEEDS = "a block nested more than six deep"
BREAKS = "after six rounds of replacing blocks, those that are left are refused"
EDITS = [("nexsys/src/parsing/conditionals.rs", """    loop {
        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
""", """    for _round in 0..6 {
        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
""")]
CRATES = ["nexsys"]
MAIN = r'''
use nexsys::solve_with_preprocessors;
fn main() {
    let mut t = "y = 5".to_string();
    for i in 0..8 { t = format!("if 1 < 2:\n{t}\nelse:\ny = {}\nend", i + 10); }
    let (_, s) = solve_with_preprocessors(&t, 1e-6, 100).unwrap();
    assert!((s["y"] - 5.0).abs() < 1e-3);
}
'''
