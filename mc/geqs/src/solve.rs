//! E07: single equations.

use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
use geqslib::{solve_equation_from_str, solve_equation_with_context};
use mc_core::{catch, hash::with_hash_seed, util, Ctx, Stats};

pub struct Eq1 {
    /// `{}` is the unknown, `k` a constant of -1.25 and `y` a known variable of 3.
    pub text: &'static str,
    pub f: fn(f64) -> f64,
    pub root: f64,
    /// Converges to `root` from guesses in this interval.
    pub basin: (f64, f64),
}

pub const EQS: &[Eq1] = &[
    Eq1 { text: "{} + 4 = 12", f: |x| x + 4.0 - 12.0, root: 8.0, basin: (-1e3, 1e3) },
    Eq1 { text: "12 = 4 + {}", f: |x| 12.0 - 4.0 - x, root: 8.0, basin: (-1e3, 1e3) },
    Eq1 { text: "1 - {} = 3 - 2 * {}", f: |x| 1.0 - x - (3.0 - 2.0 * x), root: 2.0, basin: (-1e3, 1e3) },
    Eq1 { text: "2*{} = k - y", f: |x| 2.0 * x - (-1.25 - 3.0), root: -2.125, basin: (-1e3, 1e3) },
    Eq1 { text: "{} ^ 2 = 9", f: |x| x * x - 9.0, root: 3.0, basin: (0.5, 1e3) },
    Eq1 { text: "10 / {} = 4", f: |x| 10.0 / x - 4.0, root: 2.5, basin: (0.5, 4.5) },
    Eq1 { text: "ln({}) = 1", f: |x| x.ln() - 1.0, root: std::f64::consts::E, basin: (0.5, 5.0) },
    Eq1 { text: "log(2, {}) - 3 = 0", f: |x| x.log2() - 3.0, root: 8.0, basin: (2.0, 15.0) },
    Eq1 { text: "if({}, 4, 0, 0 - {}, {}) = 5", f: |x| x.abs() - 5.0, root: 5.0, basin: (0.5, 1e3) },
    Eq1 { text: "0 - {} - {} - {} = 0 - 6 - y", f: |x| -3.0 * x + 9.0, root: 3.0, basin: (-1e3, 1e3) },
    Eq1 { text: "-{} = -(y + 1)", f: |x| -x + 4.0, root: 4.0, basin: (-1e3, 1e3) },
    Eq1 { text: "1.5E1 + {} = 1e2 / 4", f: |x| 15.0 + x - 25.0, root: 10.0, basin: (-1e3, 1e3) },
    Eq1 { text: "2e0*{} = .5e1", f: |x| 2.0 * x - 5.0, root: 2.5, basin: (-1e3, 1e3) },
    Eq1 { text: "({} - 2) * 3 = {}", f: |x| (x - 2.0) * 3.0 - x, root: 3.0, basin: (-1e3, 1e3) },
];

/// Equations whose search passes the root on one side.
pub const BENT: &[Eq1] = &[
    Eq1 { text: "ln({}) = 0", f: |x| x.ln(), root: 1.0, basin: (1.0, 1.0) },
    Eq1 { text: "{} ^ 0.5 = 2", f: |x| x.sqrt() - 2.0, root: 4.0, basin: (4.0, 4.0) },
    Eq1 { text: "9 - {}^2 = 0", f: |x| 9.0 - x * x, root: 3.0, basin: (3.0, 3.0) },
    Eq1 { text: "{}^3 = 8", f: |x| x * x * x - 8.0, root: 2.0, basin: (2.0, 2.0) },
    Eq1 { text: "1 / {} = 0.5", f: |x| 1.0 / x - 0.5, root: 2.0, basin: (2.0, 2.0) },
    Eq1 { text: "arctan({} - 2) = 0", f: |x| (x - 2.0).atan(), root: 2.0, basin: (2.0, 2.0) },
    Eq1 { text: "3 * {} = 7.5", f: |x| 3.0 * x - 7.5, root: 2.5, basin: (2.5, 2.5) },
];

pub const NAMES: [&str; 10] = ["inf", "NaN", "E2", "x", "q", "x_1", "Temp", "kk", "ee", "pi2"];
const INF: f64 = f64::INFINITY;

fn base() -> ContextHashMap {
    let mut c = new_context();
    c.add_const_to_ctx("k", -1.25);
    c.add_var_to_ctx("y", 3.0);
    c
}

fn same_but(c: &ContextHashMap, old: &ContextHashMap, except: &str) -> Result<(), String> {
    for (n, t) in old {
        let same = match (c.get(n), t) {
            (Some(Token::Num(a)), Token::Num(b)) => a == b,
            (Some(Token::Func(a, f)), Token::Func(b, g)) => a == b && std::ptr::fn_addr_eq(*f, *g),
            (Some(Token::Var(a)), Token::Var(b)) => *a.borrow() == *b.borrow(),
            _ => false,
        };
        if n != except && !same {
            return Err(format!("{n} changed from {t:?} to {:?}", c.get(n)));
        }
    }
    for n in c.keys() {
        if n != except && !old.contains_key(n) {
            return Err(format!("{n} appeared"));
        }
    }
    Ok(())
}

/// Deep copy, as variables are shared between clones.
fn copy(c: &ContextHashMap) -> ContextHashMap {
    c.iter()
        .map(|(n, t)| {
            (
                n.clone(),
                match t {
                    Token::Var(v) => Token::Var(std::rc::Rc::new(std::cell::RefCell::new(*v.borrow()))),
                    t => t.clone(),
                },
            )
        })
        .collect()
}

fn one(q: &Eq1, name: &str, guess: f64, dom: (f64, f64), margin: f64, limit: usize, st: &mut Stats) -> Result<(), String> {
    let text = q.text.replace("{}", name);
    let mut c = base();
    let before = copy(&c);
    st.step();
    let r = catch(|| solve_equation_with_context(&text, &mut c, guess, dom.0, dom.1, margin, limit).map_err(|e| e.to_string())).map_err(|p| format!("panicked: {p}"))?;
    same_but(&c, &before, name)?;
    match r {
        Ok((n, x)) => {
            st.outcome("solved");
            st.state(util::fnv_f64(&[x, guess]));
            if n != name {
                return Err(format!("the unknown is {name}, not {n}"));
            }
            if margin <= 0.0 || limit == 0 {
                return Err(format!("solved with margin {margin} and limit {limit}"));
            }
            if !(dom.0 <= x && x <= dom.1) {
                return Err(format!("{x} is outside of [{}, {}]", dom.0, dom.1));
            }
            if !((q.f)(x).abs() <= margin * (1.0 + 1e-9) + 1e-12) {
                return Err(format!("{x} does not satisfy the equation: residual {}", (q.f)(x)));
            }
            match c.get(name) {
                Some(Token::Var(v)) => {
                    let v = *v.borrow();
                    if f64::from(v) != x || v.min != dom.0 || v.max != dom.1 {
                        return Err(format!("the context has {v:?} for the solution {x}"));
                    }
                    Ok(())
                }
                t => Err(format!("the context has {t:?} for the solution {x}")),
            }
        }
        Err(e) => {
            st.outcome("refused");
            if c.contains_key(name) {
                return Err(format!("after the failure ({e}) {name} counts as known"));
            }
            let wide = dom.0 <= q.root - 2.0 && dom.1 >= q.root + 2.0 && (dom.0 == -INF && dom.1 == INF);
            if wide && guess >= q.basin.0 && guess <= q.basin.1 && margin >= 1e-9 && limit >= 60 {
                return Err(format!("not solved: {e}"));
            }
            Ok(())
        }
    }
}

pub fn e07(ctx: &mut Ctx) {
    let guesses: &[f64] = ctx.pick(&[-50.0, -1.0, 0.5, 1.0, 2.2, 4.0, 7.0, 300.0], &[-1e3, -50.0, -3.0, -1.0, 0.0, 0.5, 0.6, 1.0, 1.7, 2.2, 3.0, 4.0, 4.4, 5.0, 7.0, 9.5, 14.0, 50.0, 300.0, 1e3]);
    let doms = [(-INF, INF), (0.0, INF), (-INF, 0.0), (-100.0, 100.0), (1.0, 6.0), (2.0, 2.7), (9.0, 20.0), (-5.0, -1.0), (3.0, 3.0)];
    for q in EQS {
        for name in NAMES {
            for &g in guesses {
                for dom in doms {
                    for (margin, limit) in [(1e-9, 100), (1e-4, 60), (0.1, 60), (1e-4, 3), (1e-4, 0), (0.0, 60), (-1.0, 60)] {
                        ctx.case(|| format!("{} for {name} from {g} on {dom:?}, margin {margin}, limit {limit}", q.text), |st| one(q, name, g, dom, margin, limit, st));
                    }
                }
            }
        }
        for limit in [255usize, 256, 257, 512, 65535, 65536, 1 << 24, 1 << 31, 1 << 32, usize::MAX] {
            ctx.case(|| format!("{} with limit {limit}", q.text), |st| one(q, "x", q.basin.0.max(0.6).min(q.basin.1), (-INF, INF), 1e-6, limit, st));
        }
        // default context, default guess
        ctx.case(
            || format!("{} in the default context", q.text),
            |st| {
                st.step();
                if q.text.contains('k') || q.text.contains('y') {
                    return match solve_equation_from_str(&q.text.replace("{}", "x"), 1e-6, 100) {
                        Err(_) => Ok(()),
                        Ok(r) => Err(format!("an equation with several unknowns was solved: {r:?}")),
                    };
                }
                match solve_equation_from_str(&q.text.replace("{}", "x"), 1e-6, 100) {
                    Ok((n, x)) if n == "x" && (x - q.root).abs() < 1e-4 => Ok(()),
                    r => Err(format!("{r:?}, expected {}", q.root)),
                }
            },
        );
    }
    for b in BENT {
        for side in 0..2 {
            let dom = if side == 0 { (b.root, b.root + 10.0) } else { (b.root - 0.9, b.root) };
            for margin in [1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8] {
                for k in 0..ctx.pick(24, 96) {
                    let away = 2.0 * 10f64.powf(-(k as f64) / ctx.pick(4.0, 16.0));
                    let guess = b.root + if side == 0 { away } else { -away };
                    ctx.case(|| format!("{} from {guess} on {dom:?} with margin {margin}", b.text), |st| one(b, "x", guess, dom, margin, 100, st));
                }
            }
        }
    }
    // names of every length, also two that only differ at the end
    for n in [1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000] {
        ctx.case(
            || format!("names of {n} letters"),
            |st| {
                let stem: String = "n".repeat(n);
                let (a, b) = (format!("{stem}a"), format!("{stem}b"));
                one(&Eq1 { text: "2 * {} = 10 - {} - k", f: |x| 3.0 * x - 11.25, root: 3.75, basin: (-1e3, 1e3) }, &a, 1.0, (-INF, INF), 1e-6, 60, st)?;
                let mut c = base();
                let text = format!("{a} = 2 * {b} + 1");
                st.steps(3);
                if let Ok(r) = solve_equation_with_context(&text, &mut c, 1.0, -INF, INF, 1e-6, 60) {
                    return Err(format!("two unknowns, but solved: {r:?}"));
                }
                same_but(&c, &base(), "")?;
                c.add_const_to_ctx(&b, 4.0);
                match solve_equation_with_context(&text, &mut c, 1.0, -INF, INF, 1e-6, 60) {
                    Ok((n, x)) if n == a && (x - 9.0).abs() < 1e-5 => {}
                    r => return Err(format!("{r:?}, expected 9")),
                }
                match solve_equation_with_context(&format!("{stem} - {a} = {b}"), &mut c, 1.0, -INF, INF, 1e-6, 60) {
                    Ok((n, x)) if n == stem && (x - 13.0).abs() < 1e-5 => Ok(()),
                    r => Err(format!("{r:?}, expected 13")),
                }
            },
        );
    }
    // attempts in a context that knows nothing, or next to nothing
    for known in 0..3 {
        for (bad, limit, margin) in [("x^2 + 1 = 0", 30, 1e-6), ("x + 1 = 3", 0, 1e-6), ("x + 1 = 3", 50, 0.0), ("x + = 3", 50, 1e-6), ("x = 1/0", 50, 1e-6), ("x^3 = 30", 1, 1e-6), ("x + y = 3 +", 50, 1e-6)] {
            ctx.case(
                || format!("{bad} with limit {limit} and margin {margin} in a context of {known}"),
                |st| {
                    let mut c = ContextHashMap::new();
                    for n in &["p", "q"][..known] {
                        c.add_var_to_ctx(n, 2.0);
                    }
                    let before = copy(&c);
                    st.steps(2);
                    if let Ok(r) = catch(|| solve_equation_with_context(bad, &mut c, 1.0, -INF, INF, margin, limit)).map_err(|p| format!("panicked: {p}"))? {
                        if margin == 0.0 && r.0 == "x" && r.1 == 2.0 {
                            return Ok(());
                        }
                        return Err(format!("solved: {r:?}"));
                    }
                    same_but(&c, &before, "")?;
                    match solve_equation_with_context("2*x = 5", &mut c, 1.0, -INF, INF, 1e-6, 50) {
                        Ok((n, x)) if n == "x" && (x - 2.5).abs() < 1e-5 => Ok(()),
                        r => Err(format!("afterwards: {r:?}")),
                    }
                },
            );
        }
    }
    // numbers of every size: slope, root and offset
    let slopes = [1e-6, 1e-3, 0.125, 1.0, 70.0, 1e4, 1e6];
    for a in slopes {
        for r in [0.0, 1e-6, 0.03, 1.0, 255.0, 65536.0, 1e7] {
            for b in [0.0, 1.0, 4096.0] {
                for (sa, sr) in [(1.0, 1.0), (1.0, -1.0), (-1.0, 1.0)] {
                    let (a, r) = (a * sa, r * sr);
                    let c = a * r + b;
                    let shown = |v: f64| if v < 0.0 { format!("({v})") } else { v.to_string() };
                    for text in [format!("{}*x + {b} = {}", shown(a), shown(c)), format!("{} - x*{} = {b}", shown(c), shown(a))] {
                        for guess in [1.0, r + 3.0] {
                            ctx.case(
                                || format!("{text} from {guess}"),
                                |st| {
                                    let size = (a * r).abs().max(a.abs() * guess.abs()).max(b).max(c.abs()).max(1e-3 * a.abs());
                                    let noise = 1e-15 * size;
                                    // what rounding allows to reach
                                    let margin = (1e4 * noise).max(1e4 * noise / a.abs()).max(1e-9);
                                    let sure = noise / (a.abs() * 0.001) < 0.01;
                                    let mut c = new_context();
                                    st.step();
                                    let mut results = vec![catch(|| solve_equation_with_context(&text, &mut c, guess, -INF, INF, margin, 60).map_err(|e| e.to_string()))];
                                    if guess == 1.0 {
                                        st.step();
                                        results.push(catch(|| solve_equation_from_str(&text, margin, 60).map_err(|e| e.to_string())));
                                    }
                                    for (way, result) in results.into_iter().enumerate() {
                                        match result.map_err(|p| format!("panicked: {p}"))? {
                                            Ok((n, x)) => {
                                                st.outcome("solved");
                                                st.state(util::fnv_f64(&[x]));
                                                if n != "x" || !((x - r).abs() <= 2.0 * margin + 1e-9 * r.abs()) || !((a * (x - r)).abs() <= 1.1 * margin) {
                                                    return Err(format!("way {way}: {n} = {x}, expected {r}, margin {margin}"));
                                                }
                                            }
                                            Err(e) if sure => return Err(format!("way {way}: not solved: {e}")),
                                            Err(_) => st.outcome("refused"),
                                        }
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        }
    }
    // three roots: the guess, which is 1 by default, decides
    for text in ["x^3 - 3*x^2 + 2.91*x = 0.91", "(x - 0.7) * (x - 1) * (x - 1.3) = 0", "0 = (1.3 - x) * (1 - x) * (0.7 - x)"] {
        for (guess, root) in [(None, 1.0), (Some(1.0), 1.0), (Some(0.2), 0.7), (Some(0.7), 0.7), (Some(1.3), 1.3), (Some(2.0), 1.3), (Some(-9.0), 0.7), (Some(30.0), 1.3)] {
            ctx.case(
                || format!("{text} from {guess:?}"),
                |st| {
                    st.step();
                    let r = match guess {
                        None => solve_equation_from_str(text, 1e-8, 100),
                        Some(g) => solve_equation_with_context(text, &mut new_context(), g, -INF, INF, 1e-8, 100),
                    };
                    match r {
                        Ok((n, x)) if n == "x" && (x - root).abs() < 1e-5 => {
                            st.state(util::fnv_f64(&[x]));
                            st.outcome("solved");
                            Ok(())
                        }
                        r => Err(format!("{r:?}, expected {root}")),
                    }
                },
            );
        }
    }
    // wrong number of unknowns, whatever the hash order
    let terms = ["x", "z", "x + z", "x + x", "y", "k", "pi", "1", "x + z + w", "sin(1)", "y + k", "X", "X - x", "Y", "Pi + 1", "x1", "K"];
    for a in terms {
        for b in terms {
            ctx.case(
                || format!("unknowns of {a} = {b}"),
                |st| {
                    let text = format!("{a} = {b}");
                    let known = ["y", "k", "pi", "e", "sin"];
                    let u: std::collections::BTreeSet<String> = crate::system::names(&text).into_iter().filter(|n| !known.contains(&n.as_str())).collect();
                    for seed in 1..6 {
                        st.step();
                        with_hash_seed(seed, || {
                            let mut c = base();
                            let before = copy(&c);
                            let r = solve_equation_with_context(&text, &mut c, 1.0, -INF, INF, 1e-6, 50);
                            if u.len() != 1 {
                                if let Ok(r) = r {
                                    return Err(format!("{} unknowns, but solved: {r:?}", u.len()));
                                }
                                return same_but(&c, &before, "");
                            }
                            Ok(())
                        })?;
                    }
                    Ok(())
                },
            );
        }
    }
    // histories: each solution is a known value for the next equation
    let steps: [(&str, &str, f64); 5] = [("a + 1 = 3", "a", 2.0), ("b = a * 5", "b", 10.0), ("c - b = a", "c", 12.0), ("d ^ 2 = c + 4", "d", 4.0), ("2 * f = d - a", "f", 1.0)];
    util::product(&[5, 5, 5, 5], |d| {
        ctx.case(
            || format!("solving in the order {d:?}"),
            |st| {
                let mut c = base();
                let mut known: Vec<&str> = vec![];
                for i in d {
                    st.step();
                    let (text, var, root) = steps[*i];
                    let needs = ["a", "b", "c", "d", "f"].iter().filter(|v| text.contains(**v) && !known.contains(v)).count();
                    let before = copy(&c);
                    match solve_equation_with_context(text, &mut c, 1.0, -INF, INF, 1e-9, 100) {
                        Ok((n, x)) if needs == 1 && !known.contains(&var) => {
                            if n != var || !util::close(x, root, 1e-6) {
                                return Err(format!("{text} gave {n} = {x}"));
                            }
                            known.push(var);
                        }
                        Ok((n, _)) if needs == 1 => known.push(["a", "b", "c", "d", "f"].into_iter().find(|v| *v == n).unwrap()),
                        Ok(r) => return Err(format!("{text} with {needs} unknowns gave {r:?}")),
                        Err(e) => {
                            if needs == 1 && !known.contains(&var) {
                                return Err(format!("{text}: {e}"));
                            }
                            same_but(&c, &before, "")?;
                        }
                    }
                }
                Ok(())
            },
        );
    });
    // the same texts in contexts of the same size where other names are known, one after the other
    let texts = ["x + 3 = 2 * y", "x - y = z", "3 * x = y + z + x"];
    let contexts: [[(&str, f64, bool); 2]; 6] = [
        [("y", 1.0, false), ("z", 4.0, true)], [("y", -2.0, true), ("z", 4.0, false)], [("y", 1.0, true), ("z", 0.5, true)],
        [("x", 2.0, false), ("y", 3.0, true)], [("x", 2.5, true), ("z", -1.0, false)], [("x", 0.0, false), ("q", 1.0, false)],
    ];
    let n = texts.len() * contexts.len();
    util::product(&[n, n, n], |d| {
        ctx.case(
            || format!("{:?}", d.iter().map(|i| (texts[i / 6], &contexts[i % 6])).collect::<Vec<_>>()),
            |st| {
                for i in d {
                    st.step();
                    let text = texts[i / 6];
                    let mut c = new_context();
                    for (n, v, var) in contexts[i % 6] {
                        if var {
                            c.add_var_to_ctx(n, v);
                        } else {
                            c.add_const_to_ctx(n, v);
                        }
                    }
                    let value = |n: &str| contexts[i % 6].iter().find(|k| k.0 == n).map(|k| k.1);
                    let unknown: Vec<&str> = ["x", "y", "z"].into_iter().filter(|n| text.contains(n) && value(n).is_none()).collect();
                    let root = |u: &str| {
                        let g = |n: &str| value(n).unwrap_or(0.0);
                        let (x, y, z) = (g("x"), g("y"), g("z"));
                        match (i / 6, u) {
                            (0, "x") => 2.0 * y - 3.0,
                            (0, _) => (x + 3.0) / 2.0,
                            (1, "x") => y + z,
                            (1, "y") => x - z,
                            (1, _) => x - y,
                            (_, "x") => (y + z) / 2.0,
                            (_, "y") => 2.0 * x - z,
                            _ => 2.0 * x - y,
                        }
                    };
                    match (catch(|| solve_equation_with_context(text, &mut c, 1.0, -INF, INF, 1e-9, 100)).map_err(|p| format!("panicked: {p}"))?, &unknown[..]) {
                        (Ok((n, x)), [u]) if n == *u && util::close(x, root(u), 1e-6) => st.outcome("solved"),
                        (Err(_), [] | [_, _, ..]) => st.outcome("refused"),
                        (r, _) => return Err(format!("{text} with {:?} gives {r:?}", contexts[i % 6])),
                    }
                }
                Ok(())
            },
        );
    });
    // a failed attempt can be repeated with a better guess or more iterations
    for q in EQS {
        for bad in [(1.0, 1usize), (-400.0, 2), (f64::NAN, 50)] {
            ctx.case(
                || format!("{} after an attempt with guess {} and limit {}", q.text, bad.0, bad.1),
                |st| {
                    let text = q.text.replace("{}", "x");
                    let mut c = base();
                    st.steps(2);
                    if solve_equation_with_context(&text, &mut c, bad.0, -INF, INF, 1e-12, bad.1).is_ok() {
                        return Ok(());
                    }
                    let g = (q.basin.0.max(0.6) + q.root) / 2.0;
                    match solve_equation_with_context(&text, &mut c, g, -INF, INF, 1e-6, 100) {
                        Ok((_, x)) if (x - q.root).abs() < 1e-4 => Ok(()),
                        r => Err(format!("second attempt: {r:?}")),
                    }
                },
            );
        }
    }
}
