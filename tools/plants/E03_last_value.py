PROPERTY = "E03"
NEEDS = "an expression evaluated twice with the same values, another one that shares a variable evaluated in between"
BREAKS = "the value of the previous call is reused when the given variables are the same, even if another variable has changed since"
EDITS = [("geqslib/src/shunting.rs", """    Ok(move |x: &HashMap<String, f64>| {
        for (var, value) in x 
        {
""", """    let last: RefCell<Option<(HashMap<String, f64>, f64)>> = RefCell::new(None);

    Ok(move |x: &HashMap<String, f64>| {
        if let Some((given, result)) = &*last.borrow()
        {
            if !x.is_empty() && given == x
            {
                return Ok(*result);
            }
        }

        for (var, value) in x 
        {
"""), ("geqslib/src/shunting.rs", """        eval_rpn_expression(&rpn)
    })
}


""", """        let result = eval_rpn_expression(&rpn)?;
        *last.borrow_mut() = Some((x.clone(), result));
        Ok(result)
    })
}


""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::*;
use std::collections::HashMap;
fn main() {
    let mut c = new_context();
    c.add_var_to_ctx("x", 1.0);
    c.add_var_to_ctx("y", 1.0);
    let f = compile_to_fn_of_hashmap("x + y", &c).unwrap();
    let g = compile_to_fn_of_hashmap("2*y", &c).unwrap();
    let m = |k: &str, v: f64| HashMap::from([(k.to_string(), v)]);
    assert_eq!(f(&m("x", 2.0)).unwrap(), 3.0);
    assert_eq!(g(&m("y", 5.0)).unwrap(), 10.0);
    assert_eq!(f(&m("x", 2.0)).unwrap(), 7.0);
}
'''
