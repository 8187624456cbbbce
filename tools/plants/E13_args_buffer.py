PROPERTY = "E13"
NEEDS = "a function of the context that evaluates another expression with a function itself"
BREAKS = "the arguments of functions are collected in one buffer per thread, which is in use while the outer function runs"
EDITS = [("geqslib/src/shunting.rs", """                let mut arguments: Vec<f64> = Vec::new();
                for _ in 0..*args 
                {
                    if let Some(num) = stack.pop() 
                    {
                        arguments.push(num);
                    } 
                    else 
                    {
                        return Err(ShuntingYardError::ExpectedArg.into())
                    }
                }
                stack.push(
                    func(&arguments)
                );
""", """                let value = ARGUMENTS.with(|arguments| {
                    let mut arguments = arguments.try_borrow_mut().ok()?;
                    arguments.clear();
                    for _ in 0..*args 
                    {
                        arguments.push(stack.pop()?);
                    }
                    Some(func(&arguments))
                });
                match value
                {
                    Some(value) => stack.push(value),
                    None => return Err(ShuntingYardError::ExpectedArg.into()),
                }
"""), ("geqslib/src/shunting.rs", """fn eval_rpn_expression(expr: &Vec<Token>) -> anyhow::Result<f64> 
""", """thread_local!
{
    /// Arguments of the function that is evaluated
    static ARGUMENTS: RefCell<Vec<f64>> = RefCell::new(Vec::new());
}

fn eval_rpn_expression(expr: &Vec<Token>) -> anyhow::Result<f64> 
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::*;
fn area(x: &[f64]) -> f64 {
    let mut c = new_context();
    c.add_const_to_ctx("r", x[0]);
    eval_str_with_context("abs(r) ^ 2", &c).unwrap()
}
fn main() {
    assert_eq!(area(&[3.0]), 9.0);
    let mut c = new_context();
    c.add_func_to_ctx("area", area, 1);
    assert_eq!(eval_str_with_context("area(2) + abs(1)", &c).unwrap(), 5.0);
}
'''
