PROPERTY = "N05"
NEEDS = "an equation that begins with a minus sign"
BREAKS = "lines that begin with a minus sign are taken for the items of a list and ignored"
EDITS = [("nexsys/src/lib.rs", """        .filter(|x| x.contains('='))
""", """        .filter(|x| x.contains('=') && !x.trim_start().starts_with('-'))
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let (_, s) = nexsys::solve_with_preprocessors("-x + 4 = 1\ny = 2", 1e-6, 50).unwrap();
    assert!((s["x"] - 3.0).abs() < 1e-4);
}
'''
