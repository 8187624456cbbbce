PROPERTY = "E04"
NEEDS = "a variable of a context that is defined a second time with another domain"
BREAKS = "a variable that is defined again keeps its first domain"
EDITS = [("geqslib/src/context.rs", """        self.insert(name.to_owned(), Token::Var(Rc::new(RefCell::new(Variable::new(val, min, max)))));
""", """        match self.get(name)
        {
            Some(Token::Var(var)) => var.borrow_mut().set(val),
            _ => { self.insert(name.to_owned(), Token::Var(Rc::new(RefCell::new(Variable::new(val, min, max))))); },
        }
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::*;
fn main() {
    let mut c = new_context();
    c.add_var_with_domain_to_ctx("x", 1.0, 0.0, 9.0);
    c.add_var_with_domain_to_ctx("x", 5.0, 0.0, 2.0);
    assert_eq!(eval_str_with_context("x", &c).unwrap(), 2.0);
}
'''
