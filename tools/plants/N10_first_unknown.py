PROPERTY = "N10"
NEEDS = "an equation that names a variable before the one it is solved for"
BREAKS = "the step of an equation names its first variable instead of the one it is solved for"
EDITS = [("nexsys/src/lib.rs", """        *log_step = format!(
            "Var: {:#?} \\nEquation: {}", 
            soln.0, equation
        );
""", """        // name the variable the way it is written in the equation
        let written = equation.split(|c: char| !c.is_alphanumeric() && c != '_')
            .find(|w| w.starts_with(|c: char| c.is_alphabetic()) && !matches!(ctx.get(*w), Some(Token::Func(..))))
            .unwrap_or(&soln.0);
        *log_step = format!(
            "Var: {:#?} \\nEquation: {}", 
            written, equation
        );
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let (log, _) = nexsys::solve_with_preprocessors("x = 2\nx + y = 5", 1e-9, 100).unwrap();
    assert!(log.iter().any(|s| s.contains("Var: \"y\"")), "{log:?}");
}
'''
