PROPERTY = "N10"
NEEDS = "a text that leaves some of its equations without a solution because they have too many unknowns"
BREAKS = "the last attempt at a group that could not be completed is reported as a step of the procedure"
EDITS = [("nexsys/src/lib.rs", """        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
        {
            log.push(log_step);
            continue;
        }
""", """        let solved = try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?;
        if !log_step.is_empty()
        {
            log.push(log_step);
        }
        if solved
        {
            continue;
        }
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let (log, s) = nexsys::solve_with_preprocessors("x = 3\ny + z = x", 1e-9, 100).unwrap();
    assert!(!s.contains_key("y"));
    assert_eq!(log.len(), 1, "{log:?}");
}
'''
