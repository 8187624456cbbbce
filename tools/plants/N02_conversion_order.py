PROPERTY = "N02"
NEEDS = "a constant that is declared by a unit conversion"
BREAKS = "constants are evaluated before the unit conversions they may contain"
EDITS = [("nexsys/src/parsing/mod.rs", """    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
    nil = conversions(&nil)?;

    // Set all constants used in the solution
    (nil, sys_consts) = const_values(&nil)?;
    for (var, val) in sys_consts
    {
        ctx.add_const_to_ctx(&var, val);
    }
""", """    // Set all constants used in the solution
    (nil, sys_consts) = const_values(&nil)?;
    for (var, val) in sys_consts
    {
        ctx.add_const_to_ctx(&var, val);
    }

    // Copy-paste any unit conversions
    nil = conversions(&nil)?;
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let (_, s) = nexsys::solve_with_preprocessors("const f = 3*[ft->in]\nx = 2*f", 1e-9, 50).unwrap();
    assert!((s["x"] - 72.0).abs() < 0.1, "{}", s["x"]);
}
'''
