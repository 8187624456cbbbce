PROPERTY = "E01"
NEEDS = "two powers in a row"
BREAKS = "powers are taken from the left to the right"
EDITS = [("geqslib/src/shunting.rs", """    let check3 = precedence(o2) == precedence(o1) && o1 != "^";
""", """    let check3 = precedence(o2) == precedence(o1);
""")]
CRATES = ["geqslib"]
MAIN = r'''
fn main() {
    assert_eq!(geqslib::shunting::eval_str("2^3^2").unwrap(), 512.0);
}
'''
