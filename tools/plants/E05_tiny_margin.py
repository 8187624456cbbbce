PROPERTY = "E05"
NEEDS = "a margin below the machine precision, which exact roots still meet"
BREAKS = "legal margins below 2e-16 are refused as if they were negative"
EDITS = [("geqslib/src/newton.rs", """    // Catch illegal margin of error
    if margin <= 0.0
    {
        return Err(NewtonRaphsonSolverError::NegativeMargin.into());
    }

    // Allow user to manually prevent stack overflow
    if limit == 0
    {
        return Err(NewtonRaphsonSolverError::ReachedIterationLimit.into());
    }

    let y = f(guess)?;
""", """    // Catch illegal margin of error
    if margin < f64::EPSILON
    {
        return Err(NewtonRaphsonSolverError::NegativeMargin.into());
    }

    // Allow user to manually prevent stack overflow
    if limit == 0
    {
        return Err(NewtonRaphsonSolverError::ReachedIterationLimit.into());
    }

    let y = f(guess)?;
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::newton::newton_raphson;
fn main() {
    let f = |x: f64| -> Result<f64, std::io::Error> { Ok(2.0 * x - 8.0) };
    let x = newton_raphson(f, 1.0, 1e-30, 100).expect("the root is exact");
    assert_eq!(x, 4.0);
}
'''
