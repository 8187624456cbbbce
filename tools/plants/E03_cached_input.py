PROPERTY = "E03"
NEEDS = "two functions that share a variable, the first called again with the value it was given before"
BREAKS = "a value that equals the one of the previous call of the same function is not set again"
EDITS = [("geqslib/src/shunting.rs", """    // Clone the Rc's to a lookup table for closure function
    let arg_lookup_table = context.clone();

    Ok(move |x: &HashMap<String, f64>| {
        for (var, value) in x 
        {
            match arg_lookup_table.get(var)
            {
""", """    // Clone the Rc's to a lookup table for closure function
    let arg_lookup_table = context.clone();
    let previous: RefCell<HashMap<String, f64>> = RefCell::new(HashMap::new());

    Ok(move |x: &HashMap<String, f64>| {
        for (var, value) in x
        {
            if previous.borrow().get(var) == Some(value)
            {
                continue;
            }
            previous.borrow_mut().insert(var.to_owned(), *value);
            match arg_lookup_table.get(var)
            {
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::*;
use std::collections::HashMap;
fn main() {
    let mut c = new_context();
    c.add_var_to_ctx("x", 0.0);
    let f = compile_to_fn_of_hashmap("x + 1", &c).unwrap();
    let g = compile_to_fn_of_hashmap("x + 2", &c).unwrap();
    let at = |v: f64| HashMap::from([("x".to_string(), v)]);
    assert_eq!(f(&at(1.0)).unwrap(), 2.0);
    assert_eq!(g(&at(5.0)).unwrap(), 7.0);
    assert_eq!(f(&at(1.0)).unwrap(), 2.0);
}
'''
