PROPERTY = "N05"
NEEDS = "a solved value with more digits than six that another equation magnifies"
BREAKS = "solved values are rounded to six digits after the point before they are used further"
EDITS = [("nexsys/src/lib.rs", """        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
""", """        let mut soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
        soln.1 = (soln.1 * 1e6).round() / 1e6; // drop the noise of the solver
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let t = "y = 10000000 * x\nx = 0.0000004\n";
    let (_, s) = nexsys::solve_with_preprocessors(t, 1e-9, 50).unwrap();
    assert!((s["y"] - 4.0).abs() < 1e-3, "{}", s["y"]);
}
'''
