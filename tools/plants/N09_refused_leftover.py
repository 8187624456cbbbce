PROPERTY = "N09"
NEEDS = "a text that is refused for one of several constants, and another text after it that has an unknown of the same name as one of the others"
BREAKS = "constants read before the refusal are handed to the next text"
EDITS = [("nexsys/src/parsing/mod.rs", """    let mut res = (text.to_owned(), HashMap::new());
    let const_vals = RE.captures_iter(text);

    for c in const_vals
    {
        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
        res.1.insert(
            c.get(1).unwrap().as_str().to_owned(), 
            eval_str(c.get(2).unwrap().as_str())?
        );
    }
    Ok(res)
""", """    thread_local!
    {
        // Collected here to save an allocation per text
        static FOUND: std::cell::RefCell<Vec<(String, f64)>> = std::cell::RefCell::new(vec![]);
    }
    let mut remaining = text.to_owned();

    for c in RE.captures_iter(text)
    {
        remaining = remaining.replace(c.get(0).unwrap().as_str(), "");
        let value = eval_str(c.get(2).unwrap().as_str())?;
        FOUND.with(|found| found.borrow_mut().push((c.get(1).unwrap().as_str().to_owned(), value)));
    }
    Ok((remaining, FOUND.with(|found| found.borrow_mut().drain(..).collect())))
""")]
CRATES = ["nexsys"]
MAIN = r'''
use nexsys::solve_with_preprocessors as solve;
fn main() {
    let x = |t: &str| solve(t, 1e-6, 100).unwrap().1["x"];
    assert!((x("x = 4") - 4.0).abs() < 1e-3);
    assert!(solve("const x = 7\nconst y = 2 + nope\nz = x", 1e-6, 100).is_err());
    assert!((x("x = 4") - 4.0).abs() < 1e-3);
}
'''
