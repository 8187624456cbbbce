PROPERTY = "N09"
NEEDS = "a text with an unknown that has two solutions, after a text in which the same name had a value on the other side"
BREAKS = "an unknown without a guess of its own starts from the last value its name had in any text, so that the other solution is found"
EDITS = [("nexsys/src/lib.rs", """            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
        }

        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
""", """            let guess = LAST.with(|last| last.borrow().get(unknowns[0]).copied());
            var_info = [guess.filter(|g| *g != 0.0).unwrap_or(1.0), f64::NEG_INFINITY, f64::INFINITY];
        }

        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
        LAST.with(|last| last.borrow_mut().insert(soln.0.clone(), soln.1));
"""), ("nexsys/src/lib.rs", """/// Solves a single equation for a single unknown value, returning""", """thread_local!
{
    /// The values that were found last, which are good guesses for the next run
    static LAST: std::cell::RefCell<HashMap<String, f64>> = std::cell::RefCell::new(HashMap::new());
}

/// Solves a single equation for a single unknown value, returning""")]
CRATES = ["nexsys"]
MAIN = r'''
use nexsys::solve_with_preprocessors as solve;
fn main() {
    let z = |t: &str| solve(t, 1e-6, 100).unwrap().1["z"];
    assert!((z("z^2 = 4") - 2.0).abs() < 1e-3);
    assert!((z("z = 0 - 3") + 3.0).abs() < 1e-3);
    assert!((z("z^2 = 4") - 2.0).abs() < 1e-3);
}
'''
