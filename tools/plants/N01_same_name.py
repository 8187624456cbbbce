PROPERTY = "N01"
NEEDS = "a conversion of something that is not a unit to itself"
BREAKS = "a name that is no unit converts to itself"
EDITS = [("nexsys/src/units/mod.rs", """    if cf.len() != 1 {
""", """    if cf.len() != 1 && fro != to {
"""), ("nexsys/src/units/mod.rs", """    Ok(cf[0])
}
""", """    Ok(cf.first().copied().unwrap_or(1.0))
}
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    assert!(nexsys::units::convert("parrot", "parrot").is_err());
}
'''
