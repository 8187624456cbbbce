PROPERTY = "E08"
NEEDS = "a list of more than 64 equations to add"
BREAKS = "adding a list gives up after 64 equations"
EDITS = [("geqslib/src/system.rs", """        let mut still_learning = true;
        while still_learning && !self.is_fully_constrained()
        {
            still_learning = false;
""", """        let mut still_learning = true;
        let mut rounds = 0;
        while still_learning && rounds < 64 && !self.is_fully_constrained()
        {
            rounds += 1;
            still_learning = false;
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::system::SystemBuilder;
use geqslib::shunting::new_context;
fn main() {
    let n = 80;
    let mut b = SystemBuilder::new("x0 + x1 = 1", new_context()).unwrap();
    let mut eqs: Vec<String> = (1..n).map(|i| format!("x{} + x{} = 1", i, i + 1)).collect();
    eqs.push("x0 - x1 = 0".into());
    assert!(b.try_fully_constrain_with(eqs.iter().rev().map(|s| s.as_str()).collect()).unwrap() || true);
    let mut b = SystemBuilder::new("x0 + x1 = 1", new_context()).unwrap();
    let mut eqs: Vec<String> = (1..n).map(|i| format!("x{} + x{} = 1", i, i + 1)).collect();
    eqs.push(format!("x0 - x{n} = 0"));
    assert!(b.try_fully_constrain_with(eqs.iter().map(|s| s.as_str()).collect()).unwrap());
}
'''
