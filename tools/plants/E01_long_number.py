PROPERTY = "E01"
NEEDS = "a number written with more than twenty characters and an exponent"
BREAKS = "only the first twenty characters of a number are read"
EDITS = [("geqslib/src/shunting.rs", """                let is_name = other.starts_with(char::is_alphabetic);
                if let (false, Ok(num)) = (is_name, other.parse::<f64>())
                {
                    queue.push(Token::Num(num));
""", """                let is_name = other.starts_with(char::is_alphabetic);
                let digits = if !is_name && other.is_ascii() { &other[..other.len().min(20)] } else { other };
                if let (false, Ok(num)) = (is_name, digits.parse::<f64>())
                {
                    queue.push( Token::Num(num) );
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::eval_str;
fn main() {
    let v = eval_str("1.2345678901234567890e3").unwrap();
    assert!((v - 1234.567890123456789).abs() < 1e-9, "{v}");
}
'''
