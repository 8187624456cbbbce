PROPERTY = "E04"
NEEDS = "adding a negative number that takes the variable below its domain"
BREAKS = "adding only checks the upper end of the domain"
EDITS = [("geqslib/src/variable.rs", """        self.set(self.value + rhs.into());
""", """        self.value += rhs.into();
        if self.value > self.max
        {
            self.value = self.max;
        }
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::variable::Variable;
fn main() {
    let mut v = Variable::new(2, 0, 10);
    v += -5;
    assert_eq!(f64::from(v), 0.0);
}
'''
