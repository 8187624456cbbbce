PROPERTY = "N02"
NEEDS = "a constant whose name has a capital letter"
BREAKS = "the names of declared constants are turned to lower case"
EDITS = [("nexsys/src/parsing/mod.rs", """            c.get(1).unwrap().as_str().to_owned(), 
            eval_str""", """            c.get(1).unwrap().as_str().to_lowercase(), 
            eval_str""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let (_, s) = nexsys::solve_with_preprocessors("const K = 4\nx = 2*K", 1e-9, 50).unwrap();
    assert!((s["x"] - 8.0).abs() < 0.01, "{}", s["x"]);
}
'''
