PROPERTY = "E06"
NEEDS = "a regular system with coefficients below 1e-9"
BREAKS = "slopes below 1e-9 count as zero, so that the system is taken for a singular one"
EDITS = [("geqslib/src/newton.rs", """            jacobian[(i, j)] = (f[i](guess)? - jacobian[(i, j)]) / _DX_;
""", """            let slope = (f[i](guess)? - jacobian[(i, j)]) / _DX_;
            jacobian[(i, j)] = if slope.abs() < 1e-9 { 0.0 } else { slope }; // nothing but rounding
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::newton::multivariate_newton_raphson;
use std::collections::HashMap;
type M = HashMap<String, f64>;
fn f1(x: &M) -> Result<f64, std::io::Error> { Ok(4e-10 * x["x"] - 2e-9) }
fn f2(x: &M) -> Result<f64, std::io::Error> { Ok(x["y"] - 1.0) }
fn main() {
    let mut g = HashMap::from([("x".to_string(), 1.0), ("y".to_string(), 0.0)]);
    let f: Vec<fn(&M) -> Result<f64, std::io::Error>> = vec![f1, f2];
    let s = multivariate_newton_raphson(f, &mut g, 1e-4, 50).unwrap();
    assert!((s["x"] - 5.0).abs() < 1e-2, "{s:?}");
}
'''
