//! Shared by the explorers of nexsys.

use mc_core::{catch, hash::with_hash_seed};
use std::collections::BTreeMap;

pub type Values = BTreeMap<String, f64>;
pub type Solved = Result<(Vec<String>, Values), String>;

/// Solves a text with hash maps seeded by `seed`; the outer error is a panic.
pub fn solve_text(text: &str, margin: f64, limit: usize, seed: u64) -> Result<Solved, String> {
    with_hash_seed(seed, || {
        catch(|| nexsys::solve_with_preprocessors(text, margin, limit).map(|(l, m)| (l, m.into_iter().collect())).map_err(|e| e.to_string()))
    })
    .map_err(|p| format!("panicked: {p}"))
}

/// The values found besides the default constants pi and e.
pub fn own(v: &Values) -> Values {
    v.iter().filter(|(n, _)| n.as_str() != "pi" && n.as_str() != "e").map(|(n, v)| (n.clone(), *v)).collect()
}

/// Demands exactly these values.
pub fn demand(got: &Solved, want: &[(&str, f64)], tol: f64) -> Result<(), String> {
    let (_, v) = got.as_ref().map_err(|e| format!("refused with {e:?}, expected {want:?}"))?;
    let v = own(v);
    if v.len() != want.len() {
        return Err(format!("values {v:?}, expected {want:?}"));
    }
    for (n, w) in want {
        match v.get(*n) {
            Some(g) if mc_core::util::close(*g, *w, tol) => {}
            g => return Err(format!("{n} is {g:?}, expected {w}; all values: {v:?}")),
        }
    }
    Ok(())
}
