PROPERTY = "E05"
NEEDS = "a margin of exactly zero and a function that is exactly solved on the way"
BREAKS = "a margin of zero is no longer illegal"
EDITS = [("geqslib/src/newton.rs", """pub fn newton_raphson<E>(f: impl Fn(f64) -> Result<f64, E>, guess: f64, margin: f64, limit: usize) -> anyhow::Result<f64>
where anyhow::Error: From<E>
{
    // Catch illegal margin of error
    if margin <= 0.0
""", """pub fn newton_raphson<E>(f: impl Fn(f64) -> Result<f64, E>, guess: f64, margin: f64, limit: usize) -> anyhow::Result<f64>
where anyhow::Error: From<E>
{
    // Catch illegal margin of error
    if margin < 0.0
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::newton::newton_raphson;
fn main() {
    let r = newton_raphson(|x: f64| Ok::<f64, std::io::Error>(x - 3.0), 3.0, 0.0, 20);
    assert!(r.is_err(), "{r:?}");
}
'''
