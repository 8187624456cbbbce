PROPERTY = "E13"
NEEDS = "two dozen or more runs of Newton's method whose function reports an error, and a harmless one after them on the same thread"
BREAKS = "nested runs are counted to keep them from exhausting the stack, but a run that ends with an error of the function stays in the count"
EDITS = [("geqslib/src/newton.rs", """    let y = f(guess)?;
    let y_prime""", """    // Functions may use this method themselves, but not without end
    let nested = NESTED.with(|n| n.replace(n.get() + 1));
    if nested >= 24
    {
        return Err(NewtonRaphsonSolverError::ReachedIterationLimit.into());
    }
    let y = f(guess)?;
    NESTED.with(|n| n.set(nested));
    let y_prime"""), ("geqslib/src/newton.rs", """    let y_prime = (f(guess + _DX_)? - y) / _DX_;
""", """    let y_next = f(guess + _DX_)?;
    let y_prime = (y_next - y) / _DX_;
"""), ("geqslib/src/newton.rs", """/// The outcome of a single iteration""", """thread_local!
{
    /// How many functions are being evaluated inside of each other.
    static NESTED: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

/// The outcome of a single iteration""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::newton::newton_raphson;
use std::io::Error;
fn main() {
    let good = || newton_raphson(|x| Ok::<f64, Error>(x * x - 4.0), 3.0, 1e-6, 50);
    assert!((good().unwrap() - 2.0).abs() < 1e-3);
    for _ in 0..100 {
        assert!(newton_raphson(|_| Err::<f64, Error>(Error::other("no")), 3.0, 1e-6, 50).is_err());
    }
    assert!((good().unwrap() - 2.0).abs() < 1e-3);
}
'''
