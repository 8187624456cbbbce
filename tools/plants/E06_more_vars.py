PROPERTY = "E06"
NEEDS = "a starting point with more variables than there are functions"
BREAKS = "surplus variables are accepted and keep their values"
EDITS = [("geqslib/src/newton.rs", """    let n = f.len();
    if guess.len() != n
""", """    let n = f.len();
    if guess.len() < n || n == 0 && !guess.is_empty()
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::newton::multivariate_newton_raphson;
use std::collections::HashMap;
fn main() {
    // panics or succeeds with the change
    for _ in 0..8 {
        let mut g = HashMap::from([("x".to_string(), 1.0), ("y".to_string(), 0.0)]);
        let f = vec![|x: &HashMap<String, f64>| Ok::<f64, std::io::Error>(x["x"] + 2.0 * x["y"] - 3.0)];
        assert!(multivariate_newton_raphson(f, &mut g, 1e-4, 50).is_err());
    }
}
'''
