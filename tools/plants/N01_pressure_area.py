PROPERTY = "N01"
NEEDS = "a pressure written as a force over the square of a length"
BREAKS = "pressures are generated before the areas they are made of, so N/m^2 is unknown"
EDITS = [("nexsys/src/units/mod.rs", """    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
""", """    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
"""), ("nexsys/src/units/mod.rs", """    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
""", """    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let f = nexsys::units::convert("N/m^2", "Pa").unwrap();
    assert!((f - 1.0).abs() < 1e-6, "{f}");
}
'''
