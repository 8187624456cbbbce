PROPERTY = "E12"
NEEDS = "an equation with two signs of equality, so that it has an odd number of sides"
BREAKS = "the error for a text with several '=' claims that there is none"
EDITS = [("geqslib/src/lib.rs", """        1 => return Err(EquationSolverError::FoundExpression.into()),
        2 => (),
        _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
""", """        2 => (),
        n if n % 2 == 1 => return Err(EquationSolverError::FoundExpression.into()),
        _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::errors::EquationSolverError;
fn main() {
    for (t, many) in [("x + 1", false), ("x = 1 = 2", true), ("x = 1 = 2 = 3", true)] {
        let e = geqslib::solve_equation_from_str(t, 1e-6, 50).unwrap_err();
        match e.downcast_ref::<EquationSolverError>() {
            Some(EquationSolverError::FoundMultipleEquations) => assert!(many, "{t}"),
            Some(EquationSolverError::FoundExpression) => assert!(!many, "{t}"),
            _ => panic!("{t}: {e}"),
        }
    }
}
'''
