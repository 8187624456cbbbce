PROPERTY = "N03"
NEEDS = "a group of equations with declarations for several of its variables"
BREAKS = "only one declaration is used for the variables of a group"
EDITS = [("nexsys/src/lib.rs", """                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
""", """                if system.specify_variable(var, var_info[0], var_info[1], var_info[2])
                {
                    break;
                }
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    for _ in 0..40 {
        let t = "guess -3 for x\nguess -4 for y\nx^2 + y^2 = 25\nx * y = 12";
        let (_, s) = nexsys::solve_with_preprocessors(t, 1e-6, 200).unwrap();
        assert!((s["x"] + 3.0).abs() < 1e-3 && (s["y"] + 4.0).abs() < 1e-3, "{} {}", s["x"], s["y"]);
    }
}
'''
