PROPERTY = "N10"
NEEDS = "a group of equations that is complete while another equation has not been looked at yet"
BREAKS = "the equation that would overdetermine a group is listed, and taken off the pool, with the group"
EDITS = [("nexsys/src/lib.rs", """                ConstrainResult::WillOverConstrain => break,
""", """                ConstrainResult::WillOverConstrain => {
                    // all of its unknowns are about to be found
                    if get_equation_unknowns(equation, ctx).all(|x| builder.get_vars().iter().any(|v| v == x))
                    {
                        eqn_strings.push(equation.to_owned());
                    }
                    break
                },
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let (log, s) = nexsys::solve_with_preprocessors("x + y = 3\nx - y = 1\nx*y = 2\nz = x", 1e-9, 100).unwrap();
    assert!((s["z"] - 2.0).abs() < 1e-6);
    assert!(!log[0].contains("x*y"), "{log:?}");
}
'''
