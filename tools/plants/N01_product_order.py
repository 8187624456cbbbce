PROPERTY = "N01"
NEEDS = "a torque whose length is written before its force"
BREAKS = "a product of two units is known in one order only"
EDITS = [("nexsys/src/units/mod.rs", """                temp.insert( format!("{}-{}", i.0, j.0), val);
                temp.insert( format!("{}-{}", j.0, i.0), val);
""", """                temp.insert( format!("{}-{}", i.0, j.0), val);
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let f = nexsys::units::convert("m-N", "N-m").unwrap();
    assert!((f - 1.0).abs() < 1e-6, "{f}");
}
'''
