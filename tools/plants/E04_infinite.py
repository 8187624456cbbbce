PROPERTY = "E04"
NEEDS = "a product or quotient that overflows, or an infinite value"
BREAKS = "an infinite value is ignored instead of being limited to the domain"
EDITS = [("geqslib/src/variable.rs", """        if new_value.into() > self.max
        {
            self.value = self.max;
        }
""", """        if new_value.into().is_infinite() && self.max - self.min < f64::INFINITY
        {
            // keep the last meaningful value
        }
        else if new_value.into() > self.max
        {
            self.value = self.max;
        }
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::variable::Variable;
fn main() {
    let mut v = Variable::new(2.0, 0.0, 10.0);
    v.set(f64::INFINITY);
    assert_eq!(f64::from(v), 10.0);
}
'''
