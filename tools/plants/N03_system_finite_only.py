PROPERTY = "N03"
NEEDS = "a guess for a variable without a domain that is solved in a group of equations with two solutions"
BREAKS = "only variables with a bounded domain are specified when a group of equations is solved"
EDITS = [("nexsys/src/lib.rs", """                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
""", """                if var_info[1].is_finite() || var_info[2].is_finite()
                {
                    system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
                }
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let (_, s) = nexsys::solve_with_preprocessors("guess -4 for x\nguess -3 for y\nx*y = 12\nx - y = -1", 1e-9, 100).unwrap();
    assert!((s["x"] + 4.0).abs() < 0.01, "{}", s["x"]);
}
'''
