//! E13: separate expressions, equations and systems do not interfere.

use geqslib::ffi;
use geqslib::newton::{multivariate_newton_raphson, newton_raphson};
use geqslib::shunting::{
    compile_to_fn, compile_to_fn_of_hashmap, eval_str, eval_str_with_context, new_context, ContextHashMap, ContextLike,
};
use geqslib::system::SystemBuilder;
use geqslib::{solve_equation_from_str, solve_equation_with_context};
use mc_core::sched::{every, explore, rest, point, result, steps, Out, Steps};
use mc_core::Ctx;
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CStr, CString};

const INF: f64 = f64::INFINITY;

/// A function for contexts during which something else may happen.
fn slow(x: &[f64]) -> f64 {
    rest();
    x[0]
}

fn context(v: usize) -> ContextHashMap {
    let mut ctx = new_context();
    ctx.add_func_to_ctx("slow", slow, 1);
    ctx.add_const_to_ctx("k", 3.0 + v as f64);
    // the same name for other functions
    match v {
        0 => ctx.add_func_to_ctx("twist", |x| 2.0 * x[0], 1),
        1 => ctx.add_func_to_ctx("twist", |x| x[0] + x[1], 2),
        _ => ctx.add_func_to_ctx("twist", |x| 5.0 - x[0], 1),
    };
    ctx
}

fn sorted(m: &HashMap<String, f64>) -> Vec<f64> {
    let mut n: Vec<_> = m.iter().collect();
    n.sort_by(|a, b| a.0.cmp(b.0));
    n.into_iter().map(|(_, x)| *x).collect()
}

/// The same texts in contexts that give other values to the same names.
fn expressions(v: usize) -> Steps {
    every(1);
    let mut ctx = context(v);
    ctx.add_var_to_ctx("x", 2.0 + v as f64);
    let mut list: Vec<Box<dyn FnMut(&mut ContextHashMap) -> Out>> = vec![];
    for t in ["x + k", "slow(x) * k - slow(2) ^ 2", "if(slow(x), 4, k, 1, 0)", "slow(k) / (x - x)", "x +", "log(k, slow(x)) + sin(k)", "unknown + x", "twist(x) + slow(1)", "twist(slow(x), k)"] {
        list.push(Box::new(move |c| result(eval_str_with_context(t, c), |x| vec![x])));
    }
    list.push(Box::new(|c| {
        c.add_const_to_ctx("x", 9.0);
        result(eval_str_with_context("x + k", c), |x| vec![x])
    }));
    list.push(Box::new(|_| result(eval_str("2 ^ 3 ^ 2 / 4"), |x| vec![x])));
    steps(ctx, list)
}

fn compiled(v: usize) -> Steps {
    every(1);
    let mut ctx = context(v);
    ctx.add_var_with_domain_to_ctx("x", 1.0, -10.0, 10.0 + v as f64);
    let f = compile_to_fn("slow(x) ^ 2 + k", &ctx).unwrap();
    ctx.add_var_to_ctx("y", 2.0);
    let g = compile_to_fn_of_hashmap("slow(x) - y * k", &ctx).unwrap();
    let at = |l: &[(&str, f64)]| l.iter().map(|(n, x)| (n.to_string(), *x)).collect::<HashMap<_, _>>();
    steps(
        (f, g),
        vec![
            Box::new(|s| result(s.0(2.0), |x| vec![x])),
            Box::new(|s| result(s.0(100.0), |x| vec![x])),
            Box::new(move |s| result(s.1(&at(&[("y", 5.0 + v as f64)])), |x| vec![x])),
            Box::new(move |s| result(s.1(&at(&[("x", 3.0), ("z", 5.0)])), |x| vec![x])),
            Box::new(move |s| result(s.1(&at(&[("x", 3.0)])), |x| vec![x])),
            Box::new(|s| result(s.0(-2.0), |x| vec![x])),
            Box::new(move |s| result(s.1(&at(&[])), |x| vec![x])),
        ],
    )
}

fn failed(e: String) -> anyhow::Error {
    anyhow::Error::msg(e)
}

fn newton(v: usize) -> Steps {
    steps(
        v as f64,
        vec![
            Box::new(|v| {
                let k = 4.0 + *v;
                result(newton_raphson(|x| point().map(|_| x * x - k).map_err(failed), 3.0, 1e-8, 40), |x| vec![x])
            }),
            Box::new(|v| {
                let k = *v;
                result(newton_raphson(|x| point().map(|_| x * x + 1.0 + k).map_err(failed), 3.0, 1e-8, 3), |x| vec![x])
            }),
        ],
    )
}

fn newton_many(v: usize) -> Steps {
    steps(
        v as f64,
        vec![Box::new(|v| {
            let k = *v;
            let f: Vec<Box<dyn Fn(&HashMap<String, f64>) -> anyhow::Result<f64>>> = vec![
                Box::new(move |m| point().map(|_| m["x"] + m["y"] - 5.0 - k).map_err(failed)),
                Box::new(move |m| Ok(m["x"] - 2.0 * m["y"] - 2.0 * k)),
            ];
            let mut at = HashMap::from([("x".to_string(), 1.0), ("y".to_string(), 1.0)]);
            result(multivariate_newton_raphson(f, &mut at, 1e-8, 20).map(|m| m.clone()), |m| sorted(&m))
        })],
    )
}

fn equations(v: usize) -> Steps {
    every(2);
    steps(
        context(v),
        vec![
            Box::new(|c| result(solve_equation_with_context("slow(x) ^ 2 = k * 3", c, 2.0, 0.0, INF, 1e-8, 50), |(_, x)| vec![x])),
            Box::new(|c| result(solve_equation_with_context("x + y = 2 * k", c, 1.0, -INF, INF, 1e-8, 50), |(_, x)| vec![x])),
            Box::new(|c| result(solve_equation_with_context("slow(z) ^ 2 + 1 = 0", c, 1.0, -INF, INF, 1e-8, 3), |(_, x)| vec![x])),
            Box::new(|c| result(solve_equation_with_context("x + y + z = 1", c, 1.0, -INF, INF, 1e-8, 50), |(_, x)| vec![x])),
            Box::new(|c| result(solve_equation_with_context("u + w = 1", c, 1.0, -INF, INF, 1e-8, 50), |(_, x)| vec![x])),
            Box::new(|c| result(solve_equation_with_context("twist(slow(t)) = 1", c, 1.0, -INF, INF, 1e-8, 50), |(_, x)| vec![x])),
            Box::new(|_| result(solve_equation_from_str("2 * x = 7", 1e-8, 50), |(_, x)| vec![x])),
        ],
    )
}

enum Stage {
    Context(ContextHashMap),
    Builder(SystemBuilder),
    System(geqslib::system::System),
    Gone,
}

fn systems(v: usize) -> Steps {
    use Stage::*;
    every(5);
    steps(
        Context(context(v)),
        vec![
            Box::new(|s| {
                let Context(c) = std::mem::replace(s, Gone) else { panic!() };
                let b = SystemBuilder::new("slow(x) + y = k", c).unwrap();
                let vars = b.get_vars().len();
                *s = Builder(b);
                Out("started".into(), vec![vars as f64])
            }),
            Box::new(|s| {
                let Builder(b) = s else { panic!() };
                let r = [b.try_constrain_with("a + b = x"), b.try_constrain_with("z - slow(y) = 2"), b.try_constrain_with("z + = x")];
                Out(format!("{:?}", r.map(|r| r.ok())), vec![b.is_fully_constrained() as usize as f64])
            }),
            Box::new(|s| {
                let Builder(b) = s else { panic!() };
                let r = b.try_fully_constrain_with(vec!["p + q = x", "z * x = k - 1"]);
                Out(format!("{:?}", r.ok()), vec![b.get_vars().len() as f64])
            }),
            Box::new(|s| {
                let Builder(b) = std::mem::replace(s, Gone) else { panic!() };
                let Some(mut y) = b.build_system() else { return Out("not built".into(), vec![]) };
                let r = [y.specify_variable("x", 1.5, 0.0, 100.0), y.specify_variable("nope", 1.0, 0.0, 1.0)];
                *s = System(y);
                Out(format!("{r:?}"), vec![])
            }),
            Box::new(|s| {
                let System(y) = std::mem::replace(s, Gone) else { panic!() };
                result(y.solve(1e-8, 50), |m| sorted(&m))
            }),
        ],
    )
}

/// A system of several equations whose parts are all interrupted.
fn linear(v: usize) -> Steps {
    every(9);
    steps(
        context(v),
        vec![Box::new(|c| {
            let mut b = SystemBuilder::new("slow(x) + y = 2 * k", c.clone()).unwrap();
            let full = b.try_fully_constrain_with(vec!["slow(z) + x = k", "y - z + w = 1", "slow(w) + x = 2 * z"]);
            if !matches!(full, Ok(true)) {
                return Out(format!("{:?}", full.ok()), vec![]);
            }
            result(b.build_system().unwrap().solve(1e-8, 50), |m| sorted(&m))
        })],
    )
}

/// The same through the C interface.
fn handles(v: usize) -> Steps {
    fn c(s: &str) -> CString {
        CString::new(s).unwrap()
    }
    fn text(p: *const c_char) -> Out {
        if p.is_null() {
            return Out("null".into(), vec![]);
        }
        let s = unsafe { CStr::from_ptr(p) }.to_str().unwrap().to_string();
        unsafe { ffi::free_solution_string(p as *mut c_char) };
        let mut parts: Vec<String> = s.split(|c: char| c == '{' || c == '}' || c == ',' || c == '=' || c == '"' || c.is_whitespace()).filter(|p| !p.is_empty()).map(|p| p.to_string()).collect();
        // the order of unknowns is not fixed
        let mut numbers: Vec<(String, f64)> = parts.windows(2).filter_map(|w| w[1].parse().ok().map(|x| (w[0].clone(), x))).collect();
        numbers.sort_by(|a, b| a.0.cmp(&b.0));
        parts.retain(|p| p.parse::<f64>().is_err());
        parts.sort();
        Out(parts.join(" "), numbers.into_iter().map(|n| n.1).collect())
    }
    steps(
        (std::ptr::null_mut::<c_void>(), std::ptr::null_mut::<c_void>(), v as f64),
        vec![
            Box::new(|s| {
                s.0 = unsafe { ffi::new_default_context_hash_map() };
                unsafe { ffi::add_const_to_ctx(s.0, c("k").as_ptr(), 4.0 + s.2) };
                text(ffi::solve_equation(c("x ^ 2 = k").as_ptr(), s.0, 1.0, 0.0, INF, 1e-9, 60))
            }),
            Box::new(|s| {
                s.1 = ffi::new_system_builder(c("a + b = k").as_ptr(), s.0) as *mut c_void;
                Out("builder".into(), vec![s.1.is_null() as usize as f64])
            }),
            Box::new(|s| {
                let r = [ffi::try_constrain_with(s.1, c("q + r = a").as_ptr()), ffi::try_constrain_with(s.1, c("a - b = 1").as_ptr())];
                Out("constrained".into(), vec![r[0] as f64, r[1] as f64, ffi::is_fully_constrained(s.1) as f64])
            }),
            Box::new(|s| {
                s.1 = ffi::build_system(s.1) as *mut c_void;
                Out("system".into(), vec![ffi::specify_variable(s.1, c("a").as_ptr(), 2.0, -9.0, 9.0) as f64, ffi::specify_variable(s.1, c("k").as_ptr(), 2.0, -9.0, 9.0) as f64])
            }),
            Box::new(|s| text(ffi::solve_system(s.1, 1e-9, 60))),
            Box::new(|s| {
                let r = text(ffi::solve_equation(c("x + y = 3").as_ptr(), s.0, 1.0, -INF, INF, 1e-9, 60));
                unsafe { ffi::free_context_hash_map(s.0) };
                r
            }),
        ],
    )
}

pub fn e13(ctx: &mut Ctx) {
    explore(
        ctx,
        20_000,
        &[
            ("expressions", expressions),
            ("compiled functions", compiled),
            ("Newton's method", newton),
            ("Newton's method for several unknowns", newton_many),
            ("single equations", equations),
            ("a system", systems),
            ("a linear system", linear),
            ("handles", handles),
        ],
    );
}
