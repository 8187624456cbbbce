PROPERTY = "E08"
NEEDS = "an equation with one new unknown that can not be compiled, and equations added afterwards"
BREAKS = "the unknown of a refused equation stays in the system"
EDITS = [("geqslib/src/system.rs", """        // Add the equation to the system, updating the context with any newly-added variables
        self.system_equations.push(
            Box::new(compile_equation_to_fn_of_hashmap(equation, &mut self.context)?) 
        );

        // Add possible newly-found variable to the system
        if let Some(new_var) = unknowns.pop()
        {
            self.system_vars.push(new_var);
        }
""", """        // Add possible newly-found variable to the system
        if let Some(new_var) = unknowns.pop()
        {
            self.system_vars.push(new_var);
        }

        // Add the equation to the system, updating the context with any newly-added variables
        self.system_equations.push(
            Box::new(compile_equation_to_fn_of_hashmap(equation, &mut self.context)?) 
        );
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::shunting::new_context;
use geqslib::system::SystemBuilder;
fn main() {
    let mut b = SystemBuilder::new("x + y = 3", new_context()).unwrap();
    assert!(b.try_constrain_with("x + = z").is_err());
    assert_eq!(b.get_vars().len(), 2);
}
'''
