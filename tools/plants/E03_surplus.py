PROPERTY = "E03"
NEEDS = "a call of a compiled function with a value for a name that the context does not hold"
BREAKS = "values for unknown names are ignored instead of refused"
EDITS = [("geqslib/src/shunting.rs", """                Some(Token::Var(r)) => (*r.borrow_mut()).set(*value),
                _ => return""", """                Some(Token::Var(r)) => (*r.borrow_mut()).set(*value),
                None => continue,
                _ => return""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::*;
use std::collections::HashMap;
fn main() {
    let mut c = new_context();
    c.add_var_to_ctx("x", 1.0);
    let f = compile_to_fn_of_hashmap("x + 1", &c).unwrap();
    assert!(f(&HashMap::from([("X".to_string(), 2.0)])).is_err());
}
'''
