PROPERTY = "E01"
NEEDS = "a comparison for equality of two different numbers that are both tiny"
BREAKS = "numbers that differ by less than the machine precision count as equal"
EDITS = [("geqslib/src/context.rs", """    1 => decision(a == b),
""", """    1 => decision((a - b).abs() < f64::EPSILON),
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::eval_str;
fn main() {
    assert_eq!(eval_str("if(6 / 10^34, 1, 9 / 10^31, 5, 7)").unwrap(), 7.0);
    assert_eq!(eval_str("if(2, 1, 2, 5, 7)").unwrap(), 5.0);
}
'''
