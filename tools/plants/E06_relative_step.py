PROPERTY = "E06"
NEEDS = "a starting point with a variable at zero"
BREAKS = "the finite difference step is proportional to the variable, so a variable at zero makes the Jacobian undefined"
EDITS = [("geqslib/src/newton.rs", """        if let Some(v) = guess.get_mut(var)
        {
            *v += _DX_;
        } 
        for i in 0..n
        {
            // mutate values to partial derivatives
            jacobian[(i, j)] = (f[i](guess)? - jacobian[(i, j)]) / _DX_;
        }
        if let Some(v) = guess.get_mut(var)
        {
            *v -= _DX_;
        } 
""", """        // Scale the step to the variable so that large values keep enough digits
        let dx = _DX_ * guess[var].abs();
        if let Some(v) = guess.get_mut(var)
        {
            *v += dx;
        } 
        for i in 0..n
        {
            // mutate values to partial derivatives
            jacobian[(i, j)] = (f[i](guess)? - jacobian[(i, j)]) / dx;
        }
        if let Some(v) = guess.get_mut(var)
        {
            *v -= dx;
        } 
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::newton::multivariate_newton_raphson;
use std::collections::HashMap;
type M = HashMap<String, f64>;
fn f1(x: &M) -> Result<f64, std::io::Error> { Ok(x["x"] + x["y"] - 9.0) }
fn f2(x: &M) -> Result<f64, std::io::Error> { Ok(x["x"] - x["y"] - 4.0) }
fn main() {
    let mut g = HashMap::from([("x".to_string(), 0.0), ("y".to_string(), 2.0)]);
    let f: Vec<fn(&M) -> Result<f64, std::io::Error>> = vec![f1, f2];
    let s = multivariate_newton_raphson(f, &mut g, 1e-6, 50).expect("a regular linear system is solvable");
    assert!((s["x"] - 6.5).abs() < 1e-5 && (s["y"] - 2.5).abs() < 1e-5);
}
'''
