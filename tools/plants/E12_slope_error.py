PROPERTY = "E12"
NEEDS = "a function that can be evaluated at a guess but fails a small step beside it, as 1 / (x - 1.001) does at 1"
BREAKS = "a failure beside the guess is reported as an exhausted iteration limit"
EDITS = [("geqslib/src/newton.rs", """(f(guess + _DX_)? - y) / _DX_;
""", """(f(guess + _DX_).map_err(|_| NewtonRaphsonSolverError::ReachedIterationLimit)? - y) / _DX_;
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::errors::ShuntingYardError;
fn main() {
    let mut c = geqslib::shunting::new_context();
    let e = geqslib::solve_equation_with_context("1 / (x - 0.001) = 2", &mut c, 0.0, -5.0, 5.0, 1e-6, 50).unwrap_err();
    assert!(matches!(e.downcast_ref::<ShuntingYardError>(), Some(ShuntingYardError::DivisionByZero)), "{e}");
}
'''
