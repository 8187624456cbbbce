PROPERTY = "E06"
NEEDS = "several residuals that are each just within the margin"
BREAKS = "the largest residual instead of the magnitude of all of them is compared with the margin"
EDITS = [("geqslib/src/newton.rs", """    let error = y.iter()
        .map(|v| v.powi(2))
        .sum::<f64>()
        .sqrt();
""", """    let error = y.iter()
        .map(|v| v.abs())
        .fold(0.0, f64::max);
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::newton::multivariate_newton_raphson;
use std::collections::HashMap;
type M = HashMap<String, f64>;
fn f1(x: &M) -> Result<f64, std::io::Error> { Ok(80.0 * x["x"] - 0.08) }
fn f2(x: &M) -> Result<f64, std::io::Error> { Ok(80.0 * x["y"] - 0.08) }
fn main() {
    let mut g = HashMap::from([("x".to_string(), 0.0), ("y".to_string(), 0.0)]);
    let f: Vec<fn(&M) -> Result<f64, std::io::Error>> = vec![f1, f2];
    let s = multivariate_newton_raphson(f, &mut g, 0.1, 50).unwrap();
    let (a, b) = (f1(s).unwrap(), f2(s).unwrap());
    assert!((a * a + b * b).sqrt() <= 0.1, "{a} {b}");
}
'''
