PROPERTY = "N02"
NEEDS = "an engineering constant with digits that a single precision number does not have, and a close look"
BREAKS = "the constants that the data file gives as text are read in single precision"
EDITS = [("nexsys/src/units/mod.rs", "c1[1].as_str().expect(&err).parse::<f64>().expect(&err)", "c1[1].as_str().expect(&err).parse::<f32>().expect(&err) as f64")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let (_, s) = nexsys::solve_with_preprocessors("x = #SndSpeed\n", 1e-9, 50).unwrap();
    assert!((s["x"] - 331.36).abs() < 1e-7, "{}", s["x"]);
}
'''
