PROPERTY = "E05"
NEEDS = "a function that reports an error at the neighbouring point that is used for the slope only"
BREAKS = "an error of the function next to the guess is not passed on, the slope is taken from the other side instead"
EDITS = [("geqslib/src/newton.rs", """    let y_prime = (f(guess + _DX_)? - y) / _DX_;
""", """    let y_prime = match f(guess + _DX_)
    {
        Ok(y_next) => (y_next - y) / _DX_,
        Err(_) => (y - f(guess - _DX_)?) / _DX_,
    };
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::newton::newton_raphson;
use std::cell::Cell;
fn main() {
    let calls = Cell::new(0);
    let r = newton_raphson(|x: f64| {
        calls.set(calls.get() + 1);
        if calls.get() == 4 { Err(std::io::Error::other("mine")) } else { Ok(x * x - 4.0) }
    }, 5.0, 1e-6, 50);
    assert!(r.is_err(), "{r:?}");
}
'''
