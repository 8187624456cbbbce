PROPERTY = "E01"
NEEDS = "the same text evaluated twice in contexts of the same size that differ"
BREAKS = "the parsed form of a text is kept and used again for another context with as many names"
EDITS = [("geqslib/src/shunting.rs", """pub fn eval_str_with_context(expr: &str, context: &ContextHashMap) -> anyhow::Result<f64> 
{
    eval_rpn_expression(&rpnify(expr, context)?)
}
""", """pub fn eval_str_with_context(expr: &str, context: &ContextHashMap) -> anyhow::Result<f64> 
{
    thread_local!
    {
        // The last text is often evaluated again
        static LAST: RefCell<Option<(String, usize, Vec<Token>)>> = RefCell::new(None);
    }
    LAST.with(|last| {
        if let Some((text, names, rpn)) = &*last.borrow()
        {
            if text == expr && *names == context.len()
            {
                return eval_rpn_expression(rpn);
            }
        }
        let rpn = rpnify(expr, context)?;
        let res = eval_rpn_expression(&rpn);
        *last.borrow_mut() = Some((expr.to_owned(), context.len(), rpn));
        res
    })
}
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::*;
fn main() {
    let (mut a, mut b) = (new_context(), new_context());
    a.add_const_to_ctx("x", 2.0);
    b.add_const_to_ctx("x", 3.0);
    assert_eq!(eval_str_with_context("x * 2", &a).unwrap(), 4.0);
    assert_eq!(eval_str_with_context("x * 2", &b).unwrap(), 6.0);
}
'''
