PROPERTY = "E03"
NEEDS = "a call of a compiled function with an infinite value"
BREAKS = "infinite values are not passed on, the variable keeps the value of the last call"
EDITS = [("geqslib/src/shunting.rs", """                Some(Token::Var(r)) => (*r.borrow_mut()).set(*value),
""", """                Some(Token::Var(_)) if value.is_infinite() => continue,
                Some(Token::Var(r)) => (*r.borrow_mut()).set(*value),
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::*;
use std::collections::HashMap;
fn main() {
    let mut c = new_context();
    c.add_var_with_domain_to_ctx("x", 1.0, 0.0, 9.0);
    let f = compile_to_fn_of_hashmap("x + 1", &c).unwrap();
    assert_eq!(f(&HashMap::from([("x".to_string(), f64::INFINITY)])).unwrap(), 10.0);
}
'''
