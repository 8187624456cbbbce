PROPERTY = "N03"
NEEDS = "a guess and a domain for the same variable"
BREAKS = "a guess replaces everything that was declared for the variable, its domain included"
EDITS = [("nexsys/src/parsing/mod.rs", """        if let Some(var_info) = declared.get_mut(&var)
        {
            var_info[0] = guess;
        }
        else 
        {
            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
        }
""", """        declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    // the root next to the guess is outside of the domain
    let r = nexsys::solve_with_preprocessors("keep x on [0, 10]\nguess 0.1 for x\n(x + 1)*(x + 2) = 0", 1e-6, 50);
    assert!(r.is_err() || r.unwrap().1["x"] >= 0.0);
}
'''
