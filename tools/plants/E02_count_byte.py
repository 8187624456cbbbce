PROPERTY = "E02"
NEEDS = "a call with 256 arguments more than the function takes"
BREAKS = "the number of arguments is counted in a byte"
EDITS = [("geqslib/src/shunting.rs", """                if args != expected_args
                {
                    return Err(ShuntingYardError::ExpectedArg.into());
                }
                unary_minus = false;
            },

            "^" | "/" | "*" | "+" | "-" => {
""", """                if args as u8 != expected_args as u8
                {
                    return Err(ShuntingYardError::ExpectedArg.into());
                }
                queue.truncate(queue.len());
                unary_minus = false;
            },

            "^" | "*" | "/" | "+" | "-" => {
"""), ("geqslib/src/shunting.rs", """    match stack.len() {
        1 => Ok(stack[0]),
        0 => Err(ShuntingYardError::NoTokens.into()),
        _ => {
            Err(ShuntingYardError::LeftoverToken.into())
        }
    }
""", """    match stack.pop() {
        Some(value) if stack.len() < 256 => if stack.is_empty() { Ok(value) } else { Err(ShuntingYardError::LeftoverToken.into()) },
        Some(value) => Ok(value),
        None => Err(ShuntingYardError::NoTokens.into()),
    }
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::eval_str;
fn main() {
    let t = format!("abs({})", vec!["1"; 257].join(","));
    assert!(eval_str(&t).is_err());
}
'''
