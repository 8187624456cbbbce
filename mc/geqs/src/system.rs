//! E08 building systems of equations, E09 solving them.

use crate::reference::{want, Env, Want};
use geqslib::shunting::{new_context, ContextHashMap, ContextLike};
use geqslib::system::{ConstrainResult, System, SystemBuilder};
use mc_core::{catch, hash::with_hash_seed, util, Ctx, Stats};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const INF: f64 = f64::INFINITY;

/// Names of an equation that are no functions.
pub fn names(text: &str) -> BTreeSet<String> {
    let env = Env::standard();
    crate::reference::lex(&text.replace('=', "+"))
        .into_iter()
        .filter_map(|t| match t {
            crate::reference::Tok::Id(n) if !env.funcs.contains_key(n.as_str()) => Some(n),
            _ => None,
        })
        .collect()
}

pub fn well_formed(text: &str) -> bool {
    let sides: Vec<&str> = text.split('=').collect();
    let mut env = Env::standard();
    for n in names(text) {
        env.names.insert(n, 1.0);
    }
    sides.len() == 2 && sides.iter().all(|s| !matches!(want(s, &env), Want::Malformed))
}

pub fn residual(text: &str, vals: &BTreeMap<String, f64>) -> Option<f64> {
    let mut env = Env::standard();
    for (n, v) in vals {
        env.names.insert(n.clone(), *v);
    }
    let mut sides = text.split('=').map(|s| match want(s, &env) {
        Want::Value(v) => Some(v),
        _ => None,
    });
    let (l, r) = (sides.next()??, sides.next()??);
    Some(l - r)
}

/// What a builder must look like from outside.
#[derive(Clone)]
pub struct Model {
    pub known: BTreeSet<String>,
    pub vars: BTreeSet<String>,
    pub eqs: Vec<String>,
}

impl Model {
    pub fn unknown(&self, text: &str) -> BTreeSet<String> {
        names(text).into_iter().filter(|n| !self.known.contains(n)).collect()
    }
    pub fn full(&self) -> bool {
        self.vars.len() == self.eqs.len()
    }
    pub fn take(&mut self, text: &str) {
        for n in self.unknown(text) {
            self.known.insert(n.clone());
            self.vars.insert(n);
        }
        self.eqs.push(text.to_string());
    }
}

fn context(kind: usize) -> (ContextHashMap, BTreeMap<String, f64>) {
    let mut c = new_context();
    let mut m = BTreeMap::new();
    m.insert("pi".to_string(), std::f64::consts::PI);
    m.insert("e".to_string(), std::f64::consts::E);
    match kind {
        0 => {}
        1 => {
            c.add_const_to_ctx("k", 2.5);
            m.insert("k".to_string(), 2.5);
        }
        _ => {
            c.add_var_to_ctx("k", -1.5);
            c.add_const_to_ctx("z", 0.5);
            m.insert("k".to_string(), -1.5);
            m.insert("z".to_string(), 0.5);
        }
    }
    (c, m)
}

fn agree(b: &SystemBuilder, m: &Model) -> Result<(), String> {
    let got: Vec<String> = b.get_vars().clone();
    let set: BTreeSet<String> = got.iter().cloned().collect();
    if set != m.vars || got.len() != set.len() {
        return Err(format!("the variables are {got:?}, expected {:?}", m.vars));
    }
    if b.is_fully_constrained() != m.full() {
        return Err(format!("fully constrained is {}, with {} equations and {} variables", !m.full(), m.eqs.len(), m.vars.len()));
    }
    Ok(())
}

const E08: [&str; 16] = [
    "x + y = 9",
    "x - y = 4",
    "y + z = k",
    "x = 2 * z + 1",
    "w + v + u = 3",
    "w - x = z",
    "x * 2 = 3",
    "1 + 1 = 2",
    "x + = 3",
    "w = (x",
    "w - sin() = 1",
    "x",
    "v = w = x",
    "k * u = pi",
    "w - w = v",
    "",
];

/// Checks the system that was built against the accepted equations.
fn built(sys: System, m: &Model, consts: &BTreeMap<String, f64>, st: &mut Stats) -> Result<(), String> {
    st.step();
    match catch(|| sys.solve(1e-7, 60).map_err(|e| e.to_string())).map_err(|p| format!("solving panicked: {p}"))? {
        Ok(sol) => {
            st.outcome("system solved");
            let keys: BTreeSet<String> = sol.keys().cloned().collect();
            if keys != m.vars {
                return Err(format!("the solution has {keys:?}, the variables are {:?}", m.vars));
            }
            let mut all = consts.clone();
            all.extend(sol);
            for e in &m.eqs {
                match residual(e, &all) {
                    Some(r) if r.abs() <= 1e-6 => {}
                    r => return Err(format!("{all:?} does not satisfy the accepted equation {e:?} ({r:?})")),
                }
            }
            Ok(())
        }
        Err(e) => {
            st.outcome("system not solved");
            if regular(m, consts) {
                return Err(format!("not solved although linear and regular: {e}"));
            }
            Ok(())
        }
    }
}

/// All accepted equations are linear; is their matrix regular?
pub fn regular(m: &Model, consts: &BTreeMap<String, f64>) -> bool {
    let vars: Vec<&String> = m.vars.iter().collect();
    let n = vars.len();
    let at = |point: &[f64], e: &str| {
        let mut all = consts.clone();
        for (v, x) in vars.iter().zip(point) {
            all.insert((*v).clone(), *x);
        }
        residual(e, &all)
    };
    let mut a = vec![vec![0.0; n]; n];
    for (i, e) in m.eqs.iter().enumerate() {
        let Some(base) = at(&vec![0.0; n], e) else { return false };
        for j in 0..n {
            let mut p = vec![0.0; n];
            p[j] = 1.0;
            let Some(v) = at(&p, e) else { return false };
            a[i][j] = v - base;
        }
    }
    // elimination on small integers and simple fractions
    for k in 0..n {
        let Some(p) = (k..n).max_by(|x, y| a[*x][k].abs().total_cmp(&a[*y][k].abs())) else { return false };
        if a[p][k].abs() < 1e-6 {
            return false;
        }
        a.swap(k, p);
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n {
                a[i][j] -= f * a[k][j];
            }
        }
    }
    n > 0
}

fn constrain(b: &mut SystemBuilder, m: &mut Model, text: &str, st: &mut Stats) -> Result<(), String> {
    st.step();
    let got = catch(|| b.try_constrain_with(text).map_err(|e| e.to_string())).map_err(|p| format!("adding {text:?} panicked: {p}"))?;
    let ok = well_formed(text);
    let full = m.full();
    let unknown = m.unknown(text).len();
    use ConstrainResult::*;
    let allowed: &[Option<ConstrainResult>] = match (full, unknown > 1, ok) {
        (true, _, true) => &[Some(WillOverConstrain)],
        (true, _, false) => &[Some(WillOverConstrain), None],
        (false, true, true) => &[Some(WillNotConstrain)],
        (false, true, false) => &[Some(WillNotConstrain), None],
        (false, false, true) => &[Some(WillConstrain)],
        (false, false, false) => &[None],
    };
    let g = got.as_ref().ok().copied();
    if !allowed.contains(&g) {
        return Err(format!("adding {text:?} to {:?} gave {got:?}, expected {allowed:?}", m.eqs));
    }
    st.outcome(match g {
        None => "malformed",
        Some(WillConstrain) => "constrains",
        Some(WillNotConstrain) => "does not constrain",
        Some(WillOverConstrain) => "over-constrains",
    });
    if g == Some(WillConstrain) {
        m.take(text);
    }
    agree(b, m).map_err(|e| format!("after adding {text:?}: {e}"))
}

fn start(first: &str, kind: usize, st: &mut Stats) -> Result<Option<(SystemBuilder, Model, BTreeMap<String, f64>)>, String> {
    let (c, consts) = context(kind);
    let mut m = Model { known: consts.keys().cloned().collect(), vars: BTreeSet::new(), eqs: vec![] };
    st.step();
    match catch(|| SystemBuilder::new(first, c).map_err(|e| e.to_string())).map_err(|p| format!("starting with {first:?} panicked: {p}"))? {
        Ok(b) if well_formed(first) => {
            m.take(first);
            agree(&b, &m).map_err(|e| format!("after starting with {first:?}: {e}"))?;
            Ok(Some((b, m, consts)))
        }
        Err(_) if !well_formed(first) => Ok(None),
        Ok(_) => Err(format!("a system could be started with {first:?}")),
        Err(e) => Err(format!("no system could be started with {first:?}: {e}")),
    }
}

pub fn e08(ctx: &mut Ctx) {
    long_systems(ctx, false);
    let depth = ctx.pick(3, 4);
    for kind in 0..3 {
        for first in E08 {
            for len in 0..=depth {
                util::product(&vec![E08.len(); len], |d| {
                    ctx.case(
                        || format!("context {kind}, start with {first:?}, add {:?}", d.iter().map(|i| E08[*i]).collect::<Vec<_>>()),
                        |st| {
                            let Some((mut b, mut m, consts)) = start(first, kind, st)? else { return Ok(()) };
                            for i in d {
                                constrain(&mut b, &mut m, E08[*i], st)?;
                            }
                            st.state(util::fnv(format!("{:?}{:?}", m.vars, m.eqs).as_bytes()));
                            let full = m.full();
                            match b.build_system() {
                                Some(s) if full => built(s, &m, &consts, st),
                                None if !full => Ok(()),
                                s => Err(format!("built: {}, fully constrained: {full}", s.is_some())),
                            }
                        },
                    );
                });
            }
        }
    }
    // adding a whole list
    let list: [&str; 9] = ["x - y = 4", "y + z = k", "x = 2 * z + 1", "w + v = 3", "w - x = z", "v + x = 1", "u + t = w", "1 + 1 = 2", "x + y + w = 5"];
    let firsts = ["x + y = 9", "x + y + z = 1", "x = 3", "w + v + u = 3", "1 = 1", "x + y + z + w = 2"];
    let max = ctx.pick(4, 5);
    for kind in 0..3 {
        for first in firsts {
            for len in 0..=max {
                util::product(&vec![list.len(); len], |d| {
                    // every list without repetition, in every order
                    if (1..len).any(|i| d[..i].contains(&d[i])) {
                        return;
                    }
                    ctx.case(
                        || format!("context {kind}, start with {first:?}, list {:?}", d.iter().map(|i| list[*i]).collect::<Vec<_>>()),
                        |st| {
                            let Some((mut b, mut m, consts)) = start(first, kind, st)? else { return Ok(()) };
                            let eqs: Vec<&str> = d.iter().map(|i| list[*i]).collect();
                            let deficit = m.vars.len() as i64 - m.eqs.len() as i64;
                            st.step();
                            let got = catch(|| b.try_fully_constrain_with(eqs.clone()).map_err(|e| e.to_string())).map_err(|p| format!("panicked: {p}"))??;
                            // saturation of the list
                            let mut rest = eqs.clone();
                            while let Some(i) = rest.iter().position(|e| m.unknown(e).len() <= 1) {
                                m.take(rest.remove(i));
                            }
                            let last = m.vars.len() as i64 - m.eqs.len() as i64;
                            let want = deficit == 0 || deficit > 0 && last <= 0;
                            st.outcome(if want { "list constrains" } else { "list does not constrain" });
                            st.state(util::fnv(format!("{:?}{eqs:?}", b.get_vars()).as_bytes()));
                            if got != want || b.is_fully_constrained() != want {
                                return Err(format!("returned {got}, fully constrained is {}, expected {want}", b.is_fully_constrained()));
                            }
                            let vars: BTreeSet<String> = b.get_vars().iter().cloned().collect();
                            if vars.len() != b.get_vars().len() || !vars.is_subset(&m.vars) || !want && vars != m.vars {
                                return Err(format!("the variables are {:?}, reachable are {:?}", b.get_vars(), m.vars));
                            }
                            match b.build_system() {
                                None if !want => Ok(()),
                                Some(s) if want => {
                                    // whichever equations were used, they are among these
                                    st.step();
                                    match catch(|| s.solve(1e-7, 60).map_err(|e| e.to_string())).map_err(|p| format!("solving panicked: {p}"))? {
                                        Ok(sol) => {
                                            if sol.keys().cloned().collect::<BTreeSet<_>>() != vars {
                                                return Err(format!("the solution is {sol:?}, the variables are {vars:?}"));
                                            }
                                            let mut all = consts.clone();
                                            all.extend(sol);
                                            let met = |e: &str| residual(e, &all).is_some_and(|r| r.abs() <= 1e-6);
                                            if !met(first) {
                                                return Err(format!("{all:?} does not satisfy {first:?}"));
                                            }
                                            if eqs.iter().filter(|e| met(e)).count() + 1 < vars.len() {
                                                return Err(format!("{all:?} satisfies too few of the equations"));
                                            }
                                            Ok(())
                                        }
                                        Err(_) => Ok(()),
                                    }
                                }
                                s => Err(format!("built: {}, expected {want}", s.is_some())),
                            }
                        },
                    );
                });
            }
        }
    }
    // a malformed equation in a list is reported unless it was not needed
    for (eqs, must) in [
        (vec!["x - = 4"], true), (vec!["x - = 4", "x - y = 4"], true), (vec!["x - y = 4", "x - = 4"], false), (vec!["x = y = 4"], true), (vec!["(x = 1", "y = 3"], true),
    ] {
        ctx.case(
            || format!("list {eqs:?}"),
            |st| {
                st.step();
                let mut b = SystemBuilder::new("x + y = 9", new_context()).map_err(|e| e.to_string())?;
                match catch(|| b.try_fully_constrain_with(eqs.clone()).is_ok()).map_err(|p| format!("panicked: {p}"))? {
                    true if must => Err("accepted".into()),
                    _ => Ok(()),
                }
            },
        );
    }
}

struct Sys {
    eqs: &'static [&'static str],
    /// A solution.
    sol: &'static [(&'static str, f64)],
    linear: bool,
    /// Converges from the default guess of 1 for every variable.
    easy: bool,
}

const SYSTEMS: &[Sys] = &[
    Sys { eqs: &["x + y = 9", "x - y = 4"], sol: &[("x", 6.5), ("y", 2.5)], linear: true, easy: true },
    Sys { eqs: &["x = 3"], sol: &[("x", 3.0)], linear: true, easy: true },
    Sys { eqs: &["2 * a - b = k", "b = 3 - a"], sol: &[("a", 5.5 / 3.0), ("b", 3.5 / 3.0)], linear: true, easy: true },
    Sys { eqs: &["x + y + z = 9", "4 * x + 5 * y + 6 * z = 7", "8 * x + 9 * y - 10 * z = 11"], sol: &[("x", 39.6), ("y", -32.2), ("z", 1.6)], linear: true, easy: true },
    Sys { eqs: &["x * y = 12", "x - y = 1"], sol: &[("x", 4.0), ("y", 3.0)], linear: false, easy: true },
    Sys { eqs: &["x ^ 2 + y ^ 2 = 25", "y = x + 1"], sol: &[("x", 3.0), ("y", 4.0)], linear: false, easy: true },
    Sys { eqs: &["p = 100 / V", "V = 2 * T", "T * p = 50"], sol: &[], linear: false, easy: false },
    Sys { eqs: &["sin(x) + y = 2", "y - x = 1"], sol: &[("x", 0.510973429388569), ("y", 1.510973429388569)], linear: false, easy: true },
    Sys { eqs: &["a + b = 3", "b + c = 5", "c + d = 7", "a - d = -3"], sol: &[("a", 1.0), ("b", 2.0), ("c", 3.0), ("d", 4.0)], linear: true, easy: false },
    Sys { eqs: &["a + b + c + d = 10", "a - b + c - d = -2", "a + b - c - d = -4", "a - b - c + d = 0"], sol: &[("a", 1.0), ("b", 2.0), ("c", 3.0), ("d", 4.0)], linear: true, easy: true },
    Sys { eqs: &["v1 + v2 + v3 + v4 + v5 = 15", "v1 = v2 - 1", "v3 = v2 + 1", "v4 = 2 * v2", "v5 + v1 = 6"], sol: &[("v1", 1.0), ("v2", 2.0), ("v3", 3.0), ("v4", 4.0), ("v5", 5.0)], linear: true, easy: true },
    Sys { eqs: &["x + y = 2", "2 * x + 2 * y = 5"], sol: &[], linear: true, easy: false },
    Sys { eqs: &["x + y = y + 1 + x", "x = 2 + y"], sol: &[], linear: true, easy: false },
];

/// A long linear system; only orders in which each equation adds at most one variable.
fn long(n: usize, shape: usize) -> (Vec<String>, Vec<f64>) {
    let sol: Vec<f64> = (0..n).map(|i| ((i * 7 + shape) % 11) as f64 - 4.0).collect();
    let mut eqs = vec![format!("v0 + v1 = {}", sol[0] + sol[1])];
    for i in 2..n {
        let j = match shape {
            0 => i - 1,
            1 => 0,
            _ => i / 2,
        };
        eqs.push(format!("v{i} + 2 * v{j} = {}", sol[i] + 2.0 * sol[j]));
    }
    eqs.push(format!("v{} - 3 * v0 = {}", n - 1, sol[n - 1] - 3.0 * sol[0]));
    (eqs, sol)
}

/// Systems of many equations, taken one by one and as a list, in several orders.
fn long_systems(ctx: &mut Ctx, solve: bool) {
    for n in [3usize, 5, 8, 9, 12, 16, 17, 20, 33, 64, 65, 100, 130] {
        for shape in 0..3 {
            // the larger ones are only built
            let short = n <= 33;
            if !short && solve {
                continue;
            }
            for order in 0..3 {
                for list in [false, true] {
                    if !list && order > 0 || solve && !list {
                        continue;
                    }
                    ctx.case(
                        || format!("{n} equations of shape {shape}, order {order}, as a list: {list}"),
                        |st| {
                            let (eqs, sol) = long(n, shape);
                            let mut rest: Vec<&str> = eqs[1..].iter().map(|e| &e[..]).collect();
                            match order {
                                0 => {}
                                1 => rest.reverse(),
                                _ => rest.rotate_left(n / 2),
                            }
                            let mut b = SystemBuilder::new(&eqs[0], new_context()).map_err(|e| e.to_string())?;
                            let m = Model { known: ["pi".to_string(), "e".to_string()].into(), vars: BTreeSet::new(), eqs: vec![] };
                            st.steps(n as u64);
                            if list {
                                if !b.try_fully_constrain_with(rest).map_err(|e| e.to_string())? {
                                    return Err("the list does not constrain the system".into());
                                }
                            } else {
                                let mut m = m;
                                m.take(&eqs[0]);
                                for e in rest {
                                    constrain(&mut b, &mut m, e, st)?;
                                }
                                // one more of everything
                                for e in ["v0 = 1", "v1 + w1 = 3", "w1 + w2 = 4"] {
                                    constrain(&mut b, &mut m, e, st)?;
                                }
                            }
                            // a list may constrain the system before all of its equations are used
                            let vars: BTreeSet<String> = b.get_vars().iter().cloned().collect();
                            if !list && vars.len() != n {
                                return Err(format!("the variables are {vars:?}"));
                            }
                            let mut s = b.build_system().ok_or("not built")?;
                            if !short {
                                st.outcome("built");
                                return Ok(());
                            }
                            if solve {
                                let i = if vars.len() == n { n / 2 } else { 0 };
                                if !s.specify_variable(&format!("v{i}"), sol[i] + 1.0, sol[i] - 2.0, sol[i] + 2.0) {
                                    return Err(format!("v{i} could not be specified"));
                                }
                            }
                            let v = s.solve(1e-6, 60).map_err(|e| format!("not solved: {e}"))?;
                            st.outcome("solved");
                            if v.keys().cloned().collect::<BTreeSet<_>>() != vars || v.iter().any(|(n, g)| !((g - sol[n[1..].parse::<usize>().unwrap()]).abs() < 1e-3)) {
                                return Err(format!("solution {v:?}, expected {sol:?}"));
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}

type Spec = Vec<(String, f64, f64, f64)>;

fn solve_once(s: &Sys, order: &[usize], specs: &Spec, margin: f64, limit: usize, seed: u64, st: &mut Stats) -> Result<(), String> {
    st.steps(s.eqs.len() as u64 + 1);
    let r = with_hash_seed(seed, || -> Result<Option<(Result<HashMap<String, f64>, String>, Vec<String>)>, String> {
        let (c, _) = context(1);
        let mut b = SystemBuilder::new(s.eqs[order[0]], c).map_err(|e| e.to_string())?;
        let rest: Vec<&str> = order[1..].iter().map(|i| s.eqs[*i]).collect();
        if !b.try_fully_constrain_with(rest).map_err(|e| e.to_string())? {
            return Ok(None);
        }
        let mut sys = b.build_system().ok_or("a fully constrained system could not be built")?;
        let mut vars: Vec<String> = vec![];
        for (v, g, lo, hi) in specs {
            if !sys.specify_variable(v, *g, *lo, *hi) {
                return Err(format!("{v} could not be specified"));
            }
        }
        for bad in ["nothing", "k", "pi", "sin", ""] {
            if sys.specify_variable(bad, 0.25, 0.0, 1.0) {
                return Err(format!("{bad:?} is no variable of the system but could be specified"));
            }
        }
        for e in s.eqs {
            vars.extend(names(e).into_iter().filter(|n| n != "k" && n != "pi" && n != "e"));
        }
        vars.sort();
        vars.dedup();
        let r = catch(|| sys.solve(margin, limit).map_err(|e| e.to_string())).map_err(|p| format!("panicked: {p}"))?;
        Ok(Some((r, vars)))
    })?;
    let Some((r, vars)) = r else {
        st.outcome("listed in an order that cannot be combined");
        return Ok(());
    };
    match r {
        Ok(sol) => {
            st.outcome("solved");
            let mut keys: Vec<String> = sol.keys().cloned().collect();
            keys.sort();
            if keys != vars {
                return Err(format!("the solution has {keys:?}, the variables are {vars:?}"));
            }
            if margin <= 0.0 || limit == 0 {
                return Err(format!("solved with margin {margin} and limit {limit}"));
            }
            for (v, _, lo, hi) in specs {
                if !(*lo <= sol[v] && sol[v] <= *hi) {
                    return Err(format!("{v} = {} is outside of [{lo}, {hi}]", sol[v]));
                }
            }
            let mut all: BTreeMap<String, f64> = sol.into_iter().collect();
            st.state(util::fnv_f64(&all.values().copied().collect::<Vec<_>>()));
            all.insert("k".into(), 2.5);
            let mut size = 0.0;
            for e in s.eqs {
                size += residual(e, &all).ok_or("no residual")?.powi(2);
            }
            let size: f64 = f64::sqrt(size);
            if !(size <= margin * (1.0 + 1e-6) + 1e-9) {
                return Err(format!("{all:?} leaves a residual of {size}, margin {margin}"));
            }
            if s.linear && s.sol.is_empty() {
                return Err(format!("a system without a single solution was solved: {all:?}"));
            }
            if s.linear && margin <= 1e-4 {
                for (n, v) in s.sol {
                    if (all[*n] - v).abs() > 0.05 {
                        return Err(format!("{n} = {}, expected {v}", all[*n]));
                    }
                }
            }
            Ok(())
        }
        Err(e) => {
            st.outcome("refused");
            let free = specs.iter().all(|(v, g, lo, hi)| {
                let Some((_, root)) = s.sol.iter().find(|(n, _)| n == v) else { return false };
                if s.linear {
                    *lo + 0.1 <= *root && root + 0.1 <= *hi && *lo <= *g && g + 0.1 <= *hi
                } else {
                    *lo == -INF && *hi == INF && (g - root).abs() <= 0.6
                }
            });
            let must = !s.sol.is_empty() && limit >= 60 && margin >= 1e-8 && (specs.is_empty() && s.easy || specs.len() == s.sol.len() && free || specs.is_empty() && s.linear);
            if must {
                return Err(format!("not solved: {e}"));
            }
            Ok(())
        }
    }
}

/// Linear systems whose equations, coefficients and solutions are of very different size.
fn scaled(ctx: &mut Ctx) {
    let sizes = [1e-6, 1e-3, 1.0, 50.0, 1e4, 1e6];
    let rows: [&[i32]; 6] = [&[1, 1], &[2, -3], &[1, 1, 1], &[1, -2, 0], &[0, 1, 4], &[3, 0, -1]];
    for (n, rows) in [(2usize, &rows[..2]), (3, &rows[2..5]), (3, &rows[3..])] {
        util::product(&vec![sizes.len(); n], |d| {
            for spec in 0..3 {
                ctx.case(
                    || format!("{n} equations {rows:?} scaled by {:?}, specified {spec}", d.iter().map(|i| sizes[*i]).collect::<Vec<_>>()),
                    |st| {
                        let sol = [2.0, -1.5, 40.0];
                        let eqs: Vec<String> = (0..n)
                            .map(|r| {
                                let k: Vec<f64> = rows[r].iter().map(|k| *k as f64 * sizes[d[r]]).collect();
                                let c: f64 = k.iter().zip(sol).map(|(k, s)| k * s).sum();
                                let t: Vec<String> = k.iter().enumerate().filter(|(_, k)| **k != 0.0).map(|(i, k)| format!("{k}*{}", ["x", "y", "z"][i])).collect();
                                format!("{} = {c}", t.join(" + "))
                            })
                            .collect();
                        st.steps(n as u64);
                        let mut b = SystemBuilder::new(&eqs[0], new_context()).map_err(|e| e.to_string())?;
                        for e in &eqs[1..] {
                            b.try_constrain_with(e).map_err(|e| e.to_string())?;
                        }
                        let mut s = b.build_system().ok_or("not built")?;
                        if spec > 0 {
                            for (i, v) in ["x", "y", "z"].iter().enumerate().take(n) {
                                let (g, w) = [(0.0, INF), (3.0, 4.0)][spec - 1];
                                if !s.specify_variable(v, sol[i] + g, sol[i] - w, sol[i] + w) {
                                    return Err(format!("{v} could not be specified"));
                                }
                            }
                        }
                        let v = s.solve(1e-3, 60).map_err(|e| format!("{eqs:?} not solved: {e}"))?;
                        st.state(util::fnv_f64(&[v["x"], v["y"]]));
                        st.outcome("solved");
                        for (i, n) in ["x", "y", "z"].iter().enumerate().take(n) {
                            if !((v[*n] - sol[i]).abs() < 2e-3) {
                                return Err(format!("{eqs:?} gives {v:?}, expected {sol:?}"));
                            }
                        }
                        Ok(())
                    },
                );
            }
        });
    }
}

pub fn e09(ctx: &mut Ctx) {
    long_systems(ctx, true);
    scaled(ctx);
    let seeds = ctx.pick(6u64, 30);
    for s in SYSTEMS {
        let n = s.eqs.len();
        for order in util::permutations(n) {
            for (margin, limit) in [(1e-8, 100), (1e-4, 60), (0.05, 60), (1.0, 60), (1e-4, 1), (1e-4, 2), (1e-4, 0), (0.0, 60), (-1.0, 60)] {
                ctx.case(
                    || format!("{:?} in the order {order:?}, margin {margin}, limit {limit}", s.eqs),
                    |st| {
                        for seed in 1..=seeds {
                            solve_once(s, &order, &vec![], margin, limit, seed, st).map_err(|e| format!("hash seed {seed}: {e}"))?;
                        }
                        Ok(())
                    },
                );
            }
        }
        if !s.sol.is_empty() && s.easy {
            for limit in [255usize, 256, 257, 512, 65535, 65536, 1 << 24, 1 << 31, 1 << 32, usize::MAX] {
                ctx.case(
                    || format!("{:?} with limit {limit}", s.eqs),
                    |st| solve_once(s, &(0..n).collect::<Vec<_>>(), &vec![], 1e-6, limit, 1, st),
                );
            }
        }
        // guesses and domains for every variable
        if s.sol.is_empty() || n > 3 {
            continue;
        }
        // (guess, lo, hi) relative to the root
        let kinds: &[(f64, f64, f64)] = &[
            (0.0, -INF, INF), (0.5, -INF, INF), (-0.5, -INF, INF), (40.0, -INF, INF), (-7.0, -INF, INF), (0.4, -1.0, 1.0), (-0.9, -1.0, 1.0),
            (0.4, -1.0, INF), (5.0, -1.0, 1.0), (-3.0, -4.0, -1.0), (2.0, 1.0, 4.0), (0.0, 0.0, 0.0), (1.0, 0.5, 0.5), (-1.0, -INF, 0.0),
        ];
        let kinds = if n == 3 && ctx.quick() { &kinds[..7] } else { kinds };
        for order in util::permutations(n) {
            util::product(&vec![kinds.len() + 1; n], |d| {
                ctx.case(
                    || format!("{:?} in the order {order:?}, variables specified as {d:?}", s.eqs),
                    |st| {
                        let mut specs: Spec = vec![];
                        for (i, (name, root)) in s.sol.iter().enumerate() {
                            if d[i] > 0 {
                                let (g, lo, hi) = kinds[d[i] - 1];
                                specs.push((name.to_string(), root + g, root + lo, root + hi));
                            }
                        }
                        for seed in 1..=2 {
                            solve_once(s, &order, &specs, 1e-6, 80, seed, st)?;
                        }
                        Ok(())
                    },
                );
            });
        }
    }
    // a search that ends beside the end of the domain
    for b in crate::solve::BENT {
        for side in 0..2 {
            let dom = if side == 0 { (b.root, b.root + 10.0) } else { (b.root - 0.9, b.root) };
            for margin in [1e-1, 1e-2, 1e-4, 1e-6, 1e-8] {
                for k in 0..ctx.pick(12, 64) {
                    let away = 2.0 * 10f64.powf(-(k as f64) / ctx.pick(2.0, 12.0));
                    let guess = b.root + if side == 0 { away } else { -away };
                    ctx.case(
                        || format!("{} and y = x + 1 from {guess} on {dom:?} with margin {margin}", b.text),
                        |st| {
                            for seed in 1..=2 {
                                st.step();
                                let r = with_hash_seed(seed, || {
                                    let mut c = SystemBuilder::new("y = x + 1", new_context()).map_err(|e| e.to_string())?;
                                    c.try_constrain_with(&b.text.replace("{}", "x")).map_err(|e| e.to_string())?;
                                    let mut s = c.build_system().ok_or("not built")?;
                                    s.specify_variable("x", guess, dom.0, dom.1);
                                    s.specify_variable("y", 1.0, -INF, INF);
                                    Ok::<_, String>(s.solve(margin, 100).ok())
                                })?;
                                let Some(m) = r else {
                                    st.outcome("refused");
                                    continue;
                                };
                                st.outcome("solved");
                                st.state(util::fnv_f64(&[m["x"]]));
                                if !(dom.0 <= m["x"] && m["x"] <= dom.1) {
                                    return Err(format!("{m:?} is outside of {dom:?}"));
                                }
                                if !((b.f)(m["x"]).abs() <= margin * 1.1 + 1e-12 && (m["y"] - m["x"] - 1.0).abs() <= margin * 1.1 + 1e-9) {
                                    return Err(format!("{m:?} does not satisfy the equations"));
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // three roots: the guess, which is 1 by default, decides
    for guess in [None, Some(1.0), Some(0.7), Some(1.3), Some(0.2), Some(2.0)] {
        for first in 0..2 {
            ctx.case(
                || format!("three roots from {guess:?}, equation {first} first"),
                |st| {
                    let eqs = ["(x - 0.7) * (x - 1) * (x - 1.3) + 0*y = 0", "y = x + 1"];
                    for seed in 1..=4 {
                        st.steps(2);
                        let m = with_hash_seed(seed, || {
                            let mut b = SystemBuilder::new(eqs[first], new_context()).map_err(|e| e.to_string())?;
                            b.try_constrain_with(eqs[1 - first]).map_err(|e| e.to_string())?;
                            let mut s = b.build_system().ok_or("not built")?;
                            if let Some(g) = guess {
                                if !s.specify_variable("x", g, -INF, INF) {
                                    return Err("x could not be specified".into());
                                }
                            }
                            s.solve(1e-8, 100).map_err(|e| e.to_string())
                        })?;
                        let root = match guess {
                            None => 1.0,
                            Some(g) if g < 0.9 => 0.7,
                            Some(g) if g > 1.1 => 1.3,
                            Some(_) => 1.0,
                        };
                        st.state(util::fnv_f64(&[m["x"]]));
                        st.outcome("solved");
                        if !((m["x"] - root).abs() < 1e-5 && (m["y"] - root - 1.0).abs() < 1e-5) {
                            return Err(format!("{m:?}, expected x = {root}"));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // specifying again replaces what was specified before
    let v = [(-3.0, -INF, INF), (2.0, 0.0, 5.0), (8.0, 7.0, 9.0), (6.0, -10.0, 10.0)];
    util::product(&[4, 4, 2], |d| {
        ctx.case(
            || format!("x specified twice: {d:?}"),
            |st| {
                st.step();
                let mut b = SystemBuilder::new("x + y = 9", new_context()).map_err(|e| e.to_string())?;
                b.try_constrain_with("x - y = 4").map_err(|e| e.to_string())?;
                let mut s = b.build_system().ok_or("not built")?;
                for i in &d[..2] {
                    let name = if d[2] == 0 { "x" } else { "y" };
                    s.specify_variable(name, v[*i].0, v[*i].1, v[*i].2);
                }
                let (root, (_, lo, hi)) = (if d[2] == 0 { 6.5 } else { 2.5 }, v[d[1]]);
                match s.solve(1e-6, 60) {
                    Ok(m) if lo <= root && root <= hi && util::close(m["x"], 6.5, 1e-5) && util::close(m["y"], 2.5, 1e-5) => Ok(()),
                    Err(_) if !(lo <= root && root <= hi) => Ok(()),
                    r => Err(format!("{:?}", r.map_err(|e| e.to_string()))),
                }
            },
        );
    });
}
