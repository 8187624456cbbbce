PROPERTY = "E01"
NEEDS = "a power with a whole exponent beyond 32 bits"
BREAKS = "whole exponents are cut to 32 bits"
EDITS = [("geqslib/src/shunting.rs", """                    stack.push(arg1.powf(arg2));
""", """                    // Repeated multiplication is faster than a general power
                    stack.push(if arg2.fract() == 0.0 && arg2.abs() > 64.0 { arg1.powi(arg2 as i32) } else { arg1.powf(arg2) });
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::eval_str;
fn main() {
    let x = eval_str("1.000000001 ^ 4000000000").unwrap();
    assert!((x - 54.598).abs() < 0.01, "{x}");
}
'''
