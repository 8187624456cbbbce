//! N09: separate texts do not interfere.

use geqslib::ffi::{add_const_to_ctx, free_context_hash_map, new_default_context_hash_map};
use geqslib::shunting::{new_context, ContextHashMap, ContextLike};
use mc_core::sched::{every, explore, rest, result, steps, Out, Steps};
use mc_core::Ctx;
use nexsys::parsing::{comments, compile, conditionals, const_values, consts, conversions, domains, guess_values};
use nexsys::units::convert;
use nexsys::{basic_solve, ffi, solve_with_preprocessors};
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CStr, CString};

/// A function for contexts during which something else may happen.
fn slow(x: &[f64]) -> f64 {
    rest();
    x[0]
}

fn sorted(m: &HashMap<String, f64>) -> Vec<(String, f64)> {
    let mut v: Vec<_> = m.iter().map(|(n, x)| (n.clone(), *x)).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

fn solved(r: anyhow::Result<(Vec<String>, HashMap<String, f64>)>) -> Out {
    match r {
        Ok((log, m)) => {
            let v = sorted(&m);
            Out(format!("{} in {} steps", v.iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join(" "), log.len()), v.into_iter().map(|p| p.1).collect())
        }
        Err(_) => Out("refused".into(), vec![]),
    }
}

/// Texts of the same names with other values in every variant, some of them refused.
fn texts(v: usize) -> Steps {
    let solve = |t: String| solved(solve_with_preprocessors(&t, 1e-9, 100));
    steps(
        v as f64,
        vec![
            Box::new(move |v| solve(format!("const k = {}\nkeep x on [-20, 20]\nguess 2 for y\nx + y = k // sum\nx - y = 1\ny * z = 3", 4.0 + *v))),
            Box::new(move |v| solve(format!("z^2 = {}\nguess {} for z\nif z > 0:\n i = 10 + z\nelse:\n i = z - 10\nend", 4.0 * (*v + 1.0), [1.0, -1.0, 5.0][*v as usize]))),
            Box::new(move |v| solve(format!("const k = {}\nx = k * nope(2)", v))),
            Box::new(move |v| solve(["x = 2 + = 3", "keep x on [1\nx = 3", "z^2 = -1"][*v as usize].to_string())),
            Box::new(move |v| solve(format!("x = k0 * {}\ny = x + k0\nconst k0 = {}", *v + 1.0, v))),
            Box::new(move |v| solve(["x + y = k", "k = 2\nx = k * y", "y = 3\ny = x"][*v as usize].to_string())),
            Box::new(move |v| solve(["if 1 > 2:\n x = 1\nend", "if x > 2:\n z = 1\nelse:\n z = x\nend\nx = 2", "x = 4"][*v as usize].to_string())),
            Box::new(move |_| solve("u = k".to_string())),
        ],
    )
}

/// Texts with units and engineering constants.
fn units(v: usize) -> Steps {
    let solve = |t: String| solved(solve_with_preprocessors(&t, 1e-9, 100));
    steps(
        v,
        vec![
            Box::new(move |v| solve(format!("const k = {} * [{}->m]\nx = k * [ft->inch]", 4 + *v, ["ft", "inch", "yard"][*v]))),
            Box::new(move |v| solve(["x = 2 * [ft->K]", "x = #nope", "x = 2 * [nope->m]"][*v].to_string())),
            Box::new(move |v| solve(["x = #g * 2", "x = #R + k", "x = #c - [m->m]"][*v].to_string())),
            Box::new(move |v| result(convert(["ft", "psi", "mile"][*v], ["m", "Pa", "m"][*v]), |x| vec![x])),
            Box::new(move |v| result(convert(["ft", "nope", "kg"][*v], ["kg", "m", "s"][*v]), |x| vec![x])),
        ],
    )
}

type Solver = (ContextHashMap, HashMap<String, [f64; 3]>);

fn solver(v: usize) -> Solver {
    let mut ctx = new_context();
    ctx.add_func_to_ctx("slow", slow, 1);
    ctx.add_const_to_ctx("k", 3.0 + v as f64);
    (ctx, HashMap::from([("z".to_string(), [[-3.0, 3.0, -1.0][v], -10.0, 10.0])]))
}

fn run(s: &mut Solver, text: &str) -> Out {
    let o = solved(basic_solve(text, &mut s.0, &mut s.1, 1e-8, 60));
    Out(format!("{}; {} declared", o.0, s.1.len()), o.1)
}

/// Systems that are interrupted while their equations are solved one by one.
fn singles(v: usize) -> Steps {
    every(3);
    steps(
        solver(v),
        vec![
            Box::new(|s| run(s, "slow(x) = k\ny = slow(x) + 1\nz^2 = 4")),
            Box::new(|s| run(s, "w = slow(x) * z\nv + w = slow(y)\nq + r = v")),
            Box::new(|s| run(s, "r = slow(k)")),
        ],
    )
}

/// Systems that are interrupted while a group of equations is put together and solved.
fn groups(v: usize) -> Steps {
    every(6);
    steps(
        solver(v),
        vec![
            Box::new(|s| run(s, "slow(x) + y = k\nx - y = 1")),
            Box::new(|s| run(s, "a + slow(b) = x\na - b = k")),
            Box::new(|s| run(s, "p + slow(q) = x\np + q = k\np * 0 = 1")),
            Box::new(|s| run(s, "g = a + 1")),
        ],
    )
}

/// Texts that are compiled first and solved later.
fn later(v: usize) -> Steps {
    every(2);
    steps(
        (solver(v), String::new(), v),
        vec![
            Box::new(|s| {
                let t = format!("const n = {}\nguess {} for h\nkeep h on [-9, 9]\nh^2 = n\nj = slow(h) + k\nif slow(j) > 4:\n m = 1\nelse:\n m = 2\nend", [4, 9, 16][s.2], [1, -2, 3][s.2]);
                let (ctx, declared) = &mut s.0;
                let r = compile(&t, ctx, declared);
                s.1 = r.as_deref().unwrap_or("").to_string();
                let mut d: Vec<_> = declared.iter().collect();
                d.sort_by(|a, b| a.0.cmp(b.0));
                let mut words: Vec<_> = s.1.split_whitespace().map(|w| w.to_string()).collect();
                words.sort();
                Out(format!("{} {}", r.is_ok(), words.join(" ")), d.iter().flat_map(|d| d.1.to_vec()).collect())
            }),
            Box::new(|s| run(&mut s.0, &s.1.clone())),
        ],
    )
}

/// The steps that compile a text, one by one.
fn parts(v: usize) -> Steps {
    let text = |r: Result<String, anyhow::Error>| match r {
        // numbers are compared as numbers
        Ok(t) => {
            let w: Vec<String> = t.split(|c: char| c.is_whitespace() || "+-*/=(),[]".contains(c)).map(|w| w.to_string()).collect();
            Out(
                w.iter().filter(|w| w.parse::<f64>().is_err() && !w.is_empty()).cloned().collect::<Vec<_>>().join(" "),
                w.iter().filter_map(|w| w.parse().ok()).collect(),
            )
        }
        Err(_) => Out("refused".into(), vec![]),
    };
    let values = |m: HashMap<String, f64>| {
        let v = sorted(&m);
        Out(v.iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join(" "), v.into_iter().map(|p| p.1).collect())
    };
    steps(
        v,
        vec![
            Box::new(move |v| text(conversions(&format!("x = {} * [{}->m]", *v + 1, ["ft", "inch", "yard"][*v])))),
            Box::new(move |v| text(consts(["x = #g", "x = #R + 1", "x = #c"][*v]))),
            Box::new(move |v| const_values(&format!("const a = {v}\nconst b = a + 1\nx = a")).map_or(Out("refused".into(), vec![]), |(_, m)| values(m))),
            Box::new(move |v| const_values(["const = 3", "const a = b", "const a"][*v]).map_or(Out("refused".into(), vec![]), |(_, m)| values(m))),
            Box::new(move |v| values(guess_values(&format!("guess {v} for x\nx = 3")).1)),
            Box::new(move |v| {
                let (t, m) = domains(&format!("keep x on [-{v}, {}]\nx = 3", *v + 2));
                let mut l: Vec<_> = m.into_iter().collect();
                l.sort_by(|a, b| a.0.cmp(&b.0));
                Out(format!("{:?} {}", l.iter().map(|l| &l.0).collect::<Vec<_>>(), t.trim()), l.iter().flat_map(|l| l.1.to_vec()).collect())
            }),
            Box::new(move |v| text(conditionals(&format!("if x > {v}:\n y = 1\nelse:\n y = 2\nend")))),
            Box::new(move |v| text(conditionals(["if x > 1\n y = 1\nend", "if x > 1:\n y = 1", "if x ? 1:\n y = 1\nelse:\n y = 2\nend"][*v]))),
            Box::new(move |v| text(Ok(comments(["x = 1 // a", "// b\ny = 2", "z = 3"][*v])))),
        ],
    )
}

/// The same through the C interface.
fn handles(v: usize) -> Steps {
    fn c(s: &str) -> CString {
        CString::new(s).unwrap()
    }
    fn take(p: *mut c_char) -> Out {
        if p.is_null() {
            return Out("null".into(), vec![]);
        }
        let s = unsafe { CStr::from_ptr(p) }.to_str().unwrap().to_string();
        unsafe { geqslib::ffi::free_solution_string(p) };
        let soln = s.rsplit_once("soln: \"").map_or("", |p| p.1).trim_end_matches("\" }");
        let mut v: Vec<(String, f64)> = soln.split(", ").filter_map(|i| i.split_once(": ")).map(|(n, x)| (n.to_string(), x.parse().unwrap_or(f64::NAN))).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        Out(v.iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join(" "), v.into_iter().map(|p| p.1).collect())
    }
    steps(
        (std::ptr::null_mut::<c_void>(), std::ptr::null_mut::<c_void>(), v),
        vec![
            Box::new(|s| unsafe {
                s.0 = new_default_context_hash_map();
                s.1 = ffi::new_declared_hash_map();
                add_const_to_ctx(s.0, c("k").as_ptr(), 5.0 + s.2 as f64);
                Out("declared".into(), vec![ffi::add_declared_variable(s.1, c("z").as_ptr(), [-3.0, 3.0, -1.0][s.2], -10.0, 10.0) as f64])
            }),
            Box::new(|s| take(unsafe { ffi::basic_solve(c("x + y = k\nx - y = 1\nz^2 = 4").as_ptr(), s.0, s.1, 1e-9, 60) })),
            Box::new(|s| take(unsafe { ffi::solve_with_preprocessors(c(&format!("const k = {}\nx = k", s.2)).as_ptr(), 1e-9, 60) })),
            Box::new(|s| take(unsafe { ffi::basic_solve(c("w = x + = 1").as_ptr(), s.0, s.1, 1e-9, 60) })),
            Box::new(|_| take(unsafe { ffi::solve_with_preprocessors(c("x = nope(").as_ptr(), 1e-9, 60) })),
            Box::new(|s| {
                let o = take(unsafe { ffi::basic_solve(c("w = x + z").as_ptr(), s.0, s.1, 1e-9, 60) });
                unsafe {
                    ffi::free_declared_hash_map(s.1);
                    free_context_hash_map(s.0);
                }
                o
            }),
        ],
    )
}

pub fn n09(ctx: &mut Ctx) {
    let orders = ctx.pick(500, 1_500);
    explore(
        ctx,
        orders,
        &[
            ("texts", texts),
            ("texts with units", units),
            ("single equations", singles),
            ("groups of equations", groups),
            ("a text that is solved later", later),
            ("parts of compiling", parts),
            ("handles", handles),
        ],
    );
}
