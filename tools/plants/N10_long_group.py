PROPERTY = "N10"
NEEDS = "a group of more than eight equations"
BREAKS = "only the first eight equations of a group are listed in the procedure"
EDITS = [("nexsys/src/lib.rs", """        *log_step = format!("{:#?}", eqn_strings);
""", """        *log_step = format!("{:#?}", &eqn_strings[..eqn_strings.len().min(8)]);
""")]
CRATES = ["nexsys"]
MAIN = r'''
fn main() {
    let n = 9;
    let lines: Vec<String> = (0..n).map(|i| format!("3*v{i} + v{} = 4", (i + 1) % n)).collect();
    let (log, s) = nexsys::solve_with_preprocessors(&lines.join("\n"), 1e-9, 100).unwrap();
    assert!((s["v8"] - 1.0).abs() < 1e-6);
    let all = log.join("\n");
    for l in lines {
        assert!(all.contains(&l), "{l} is not in {all}");
    }
}
'''
