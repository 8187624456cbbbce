//! E01 values, E02 malformed text, E03 compiled functions.

use crate::reference::{want, Env, Want};
use geqslib::shunting::{compile_to_fn, compile_to_fn_of_hashmap, eval_str, eval_str_with_context, new_context, ContextHashMap, ContextLike, Token};
use geqslib::system::SystemBuilder;
use geqslib::{solve_equation_from_str, solve_equation_with_context};
use mc_core::{catch, util, Ctx, Stats};
use std::collections::HashMap;

fn three(a: &[f64]) -> f64 {
    a[0] * a[1] * a[2] + a[0] + a[1] + a[2]
}
fn none(_: &[f64]) -> f64 {
    4.5
}

/// The context of the enumerations and its reference counterpart.
pub fn context() -> (ContextHashMap, Env) {
    let mut c = new_context();
    c.add_var_to_ctx("x", 0.75);
    c.add_const_to_ctx("k", -1.25);
    c.add_const_to_ctx("y_2", 3.0);
    c.add_const_to_ctx("nan", 2.5);
    c.add_var_to_ctx("Infinity", -4.0);
    c.add_func_to_ctx("three", three, 3);
    c.add_func_to_ctx("none", none, 0);
    let mut e = Env::standard().with("x", 0.75).with("k", -1.25).with("y_2", 3.0).with("nan", 2.5).with("Infinity", -4.0);
    e.funcs.insert("three", (3, three));
    e.funcs.insert("none", (0, none));
    (c, e)
}

thread_local! {
    static CTX: (ContextHashMap, Env) = context();
}

/// Compares one text; `values` selects which half of the judgement is made.
fn judge(text: &str, values: bool, st: &mut Stats) -> Result<(), String> {
    CTX.with(|(c, e)| {
        let w = want(text, e);
        st.step();
        let got = match catch(|| eval_str_with_context(text, c).map_err(|e| e.to_string())) {
            Ok(g) => g,
            Err(p) => return Err(format!("{text:?} panicked: {p}")),
        };
        st.state(util::fnv(text.as_bytes()));
        if values {
            match (&w, &got) {
                (Want::Value(v), Ok(g)) if util::close(*v, *g, 1e-9) => st.outcome("value"),
                (Want::Value(v), g) => return Err(format!("{text:?} gives {g:?}, expected {v}")),
                (Want::NoValue, Err(_)) => st.outcome("division by zero reported"),
                (Want::NoValue, Ok(g)) => return Err(format!("{text:?} divides by zero but gives {g}")),
                _ => {}
            }
        } else if w == Want::Malformed {
            if let Ok(g) = got {
                return Err(format!("{text:?} is not an expression but gives {g}"));
            }
            st.outcome("rejected");
        }
        Ok(())
    })
}

const NUMS: [&str; 5] = ["2", "3", "0.5", "7", "1.5"];

/// Renders tokens; "n" stands for a number that depends on how many came before.
fn render(toks: &[&str], tight: bool) -> String {
    let mut s = String::new();
    let mut k = 0;
    for t in toks {
        let text = if *t == "n" {
            k += 1;
            NUMS[(k - 1) % 5]
        } else {
            t
        };
        let word = |c: char| c.is_ascii_alphanumeric() || c == '.' || c == '_';
        if !s.is_empty() && (!tight || s.ends_with(word) && text.starts_with(word)) {
            s.push(' ');
        }
        s.push_str(text);
    }
    s
}

fn token_sequences(ctx: &mut Ctx, alphabet: &[&str], len: usize, values: bool) {
    let n = alphabet.len();
    for l in 1..=len {
        util::product(&vec![n; l], |d| {
            ctx.case(
                || render(&d.iter().map(|i| alphabet[*i]).collect::<Vec<_>>(), true),
                |st| {
                    let toks: Vec<&str> = d.iter().map(|i| alphabet[*i]).collect();
                    judge(&render(&toks, true), values, st)?;
                    if l <= 4 {
                        judge(&render(&toks, false), values, st)?;
                        judge(&format!(" {}\t", render(&toks, false).replace(' ', "\t\n ")), values, st)?;
                    }
                    Ok(())
                },
            );
        });
    }
}

fn char_strings(ctx: &mut Ctx, chars: &[char], len: usize, values: bool) {
    for l in 0..=len {
        util::product(&vec![chars.len(); l], |d| {
            ctx.case(
                || format!("{:?}", d.iter().map(|i| chars[*i]).collect::<String>()),
                |st| judge(&d.iter().map(|i| chars[*i]).collect::<String>(), values, st),
            );
        });
    }
}

const FULL: [&str; 14] = ["n", "x", "(", ")", "+", "-", "*", "/", "^", ",", "log", "sin", "none", "three"];
const CORE: [&str; 9] = ["n", "(", ")", "+", "-", "*", "/", "^", "k"];
const CALLS: [&str; 9] = ["n", "(", ")", "-", "^", ",", "log", "abs", "three"];

/// a op b op c ... with unary minus and one pair of parentheses anywhere.
fn chains(ctx: &mut Ctx, operands: usize) {
    let ops = ["+", "-", "*", "/", "^"];
    let mut radix = vec![ops.len(); operands - 1];
    radix.extend(vec![2; operands]);
    util::product(&radix, |d| {
        let (o, neg) = d.split_at(operands - 1);
        // (start, end) of a parenthesized run, (0, 0) for none
        for s in 0..operands {
            for e in s..operands {
                if e == s && s > 0 {
                    continue;
                }
                let text = || {
                    let mut t = String::new();
                    for i in 0..operands {
                        if i > 0 {
                            t += ops[o[i - 1]];
                        }
                        if neg[i] == 1 {
                            t += "-";
                        }
                        if e > s && i == s {
                            t += "(";
                            // the sign of a parenthesis as well as of its first element
                            if neg[i] == 1 {
                                t += "-";
                            }
                        }
                        t += ["x", "2", "3", "k", "1.5", "4"][i];
                        if e > s && i == e {
                            t += ")";
                        }
                    }
                    t
                };
                ctx.case(text, |st| judge(&text(), true, st));
            }
        }
    });
}

/// Words that look a bit like numbers or a bit like names, in and out of the context.
fn words(ctx: &mut Ctx, values: bool) {
    let heads = ["", "1", "x", "e", "nan", "inf", "Infinity", "k", "_", ".", "0", "pi", "sin", "y_2", "3."];
    let tails = ["", "1", "e", "E", "e1", "e+1", "e-1", "E2", ".", ".5", "_", "x", "_1", "f", "inity", "nan", "inf", "X", "0", "e1.5", "_2"];
    for h in heads {
        for t in tails {
            for u in tails {
                for shape in ["{}", "2*{}", "-{}^2", "sin({})", "{} {}", "({})", "{}+{}", "{}({})"] {
                    let text = shape.replace("{}", &format!("{h}{t}{u}"));
                    ctx.case(|| format!("{text:?}"), |st| judge(&text, values, st));
                }
            }
        }
    }
}

/// Contexts with the same number of names, most of which stand for something else in each.
fn look_alike(kind: usize) -> (ContextHashMap, Env) {
    fn next(a: &[f64]) -> f64 {
        a[0] + 1.0
    }
    fn twice(a: &[f64]) -> f64 {
        a[0] * 2.0
    }
    fn both(a: &[f64]) -> f64 {
        a[0] * a[1] + a[0] + a[1]
    }
    let (mut c, mut e) = (new_context(), Env::standard());
    let mut name = |n: &'static str, v: f64, var: bool| {
        if var {
            c.add_var_to_ctx(n, v);
        } else {
            c.add_const_to_ctx(n, v);
        }
        e.names.insert(n.to_string(), v);
    };
    let mut funcs: Vec<(&'static str, usize, fn(&[f64]) -> f64)> = vec![];
    match kind {
        0 => {
            name("x", 1.0, true);
            name("y", 2.0, true);
            funcs.push(("f", 1, next));
        }
        1 => {
            name("x", 1.5, false);
            name("y", -3.0, true);
            funcs.push(("f", 1, twice));
        }
        2 => {
            name("x", 1.0, true);
            name("y", 7.0, false);
            funcs.push(("f", 2, both));
        }
        3 => {
            funcs.push(("x", 1, twice));
            name("y", 2.0, true);
            name("f", 4.0, false);
        }
        _ => {
            name("x", 1.0, true);
            name("y", 0.0, true);
            name("z", 0.5, false);
        }
    }
    for (n, k, f) in funcs {
        c.add_func_to_ctx(n, f, k);
        e.funcs.insert(n, (k, f));
    }
    (c, e)
}

/// Nothing of one evaluation is left for the next: every sequence of texts and contexts.
fn histories(ctx: &mut Ctx, compiled: bool) {
    let texts = ["x + y", "f(x)", "f(x, y)", "f - x", "x(2)", "y ^ 2 - x / y", "z * 2 + x"];
    let n = 5 * texts.len();
    util::product(&[n, n, n], |d| {
        ctx.case(
            || format!("{:?}", d.iter().map(|i| (texts[i / 5], i % 5)).collect::<Vec<_>>()),
            |st| {
                for i in d {
                    let (text, (c, e)) = (texts[i / 5], look_alike(i % 5));
                    st.step();
                    let got = catch(|| match compiled {
                        false => eval_str_with_context(text, &c),
                        true => compile_to_fn_of_hashmap(text, &c).and_then(|f| f(&HashMap::new())),
                    })
                    .map_err(|p| format!("{text:?} in context {} panicked: {p}", i % 5))?;
                    match (want(text, &e), got) {
                        (Want::Value(v), Ok(g)) if util::close(v, g, 1e-9) => st.outcome("value"),
                        (Want::Malformed | Want::NoValue, Err(_)) => st.outcome("no value"),
                        (Want::Unspecified, _) => {}
                        (w, g) => return Err(format!("{text:?} in context {} gives {g:?}, expected {w:?}", i % 5)),
                    }
                }
                Ok(())
            },
        );
    });
}

pub fn e01(ctx: &mut Ctx) {
    histories(ctx, false);
    words(ctx, true);
    token_sequences(ctx, &FULL, ctx.pick(5, 6), true);
    token_sequences(ctx, &CORE, ctx.pick(6, 7), true);
    token_sequences(ctx, &CALLS, ctx.pick(6, 7), true);
    chains(ctx, 3);
    chains(ctx, 4);
    if !ctx.quick() {
        chains(ctx, 5);
    }
    char_strings(ctx, &['1', '.', '0', 'x', 'e', '-', '^', ' '], ctx.pick(5, 7), true);
    // every function at every sample
    let samples = ["0", "1", "-1", "0.5", "-0.5", "2", "10", "100", "0.1", "k", "x", "pi", "e", "-pi/2", "1/3", "12345.678"];
    let (_, env) = context();
    for (name, (arity, _)) in env.funcs.iter() {
        let n = if *arity == 5 { continue } else { *arity };
        util::product(&vec![samples.len(); n], |d| {
            let args: Vec<&str> = d.iter().map(|i| samples[*i]).collect();
            for shape in ["{}", "-{}", "2 * {} ^ 2", "1 - ({} / 3)", "abs( {} ) + {}"] {
                let text = shape.replace("{}", &format!("{name}({})", args.join(", ")));
                ctx.case(|| text.clone(), |st| judge(&text, true, st));
            }
        });
    }
    let vals = ["-2", "0", "1.5", "1.5+0", "x"];
    for a in vals {
        for b in vals {
            for op in ["1", "2", "3", "4", "5", "6", "0", "7", "1.4", "0.6", "2.49", "2+3", "if(1,1,1,4,5)"] {
                for (t, e) in [("10", "20"), ("x", "-x"), ("if(1,4,2,3,4)", "if(1,5,2,3,4)"), ("sin(1)", "2^3")] {
                    let text = format!("if({a}, {op}, {b}, {t}, {e})");
                    ctx.case(|| text.clone(), |st| judge(&text, true, st));
                }
            }
        }
    }
    // the default context agrees
    for text in ["pi", "e", "2*pi", "e^2", "sin(pi/2)", "ln(e)", "log(10, 1000)", "log(2,8)", "-2^2", "2^3^2", "10-4-3", "100/10/5", "2^-1", "--2", "if(1,4,2,3,4)"] {
        ctx.case(
            || format!("default context: {text}"),
            |st| {
                st.step();
                match (want(text, &Env::standard()), eval_str(text)) {
                    (Want::Value(v), Ok(g)) if util::close(v, g, 1e-9) => Ok(()),
                    (w, g) => Err(format!("{text:?} gives {g:?}, expected {w:?}")),
                }
            },
        );
    }
    // numbers of every size under every operator, comparison and function
    let sizes = [
        "0", "1", "-1", "1e300", "-1e300", "1e-300", "123456789.123456789", "0.1", "1e17", "9007199254740993", "4294967296", "65536", "-65537", "255.5", "1e-9",
        "0.30000000000000004", "00012.50", "1e05", "4294967297", "-2147483649", "3.", ".75", "1E3", "0.000000000000000000001",
    ];
    for a in sizes {
        for b in sizes {
            for shape in ["A+B", "A-B", "A*B", "A/B", "(A)^B", "log(A,B)", "if(A,1,B,3,4)", "if(A,2,B,3,4)", "if(A,3,B,3,4)", "if(A,4,B,3,4)", "if(A,5,B,3,4)", "if(A,6,B,3,4)", "2*A-B/3"] {
                let text = shape.replace('A', a).replace('B', b);
                ctx.case(|| text.clone(), |st| judge(&text, true, st));
            }
        }
        for (name, (arity, _)) in env.funcs.iter() {
            if *arity == 1 {
                let text = format!("{name}({a})");
                ctx.case(|| text.clone(), |st| judge(&text, true, st));
            }
        }
    }
    // functions of many numbers; names that stand for something else than usual; long names
    fn norm(a: &[f64]) -> f64 {
        a.iter().map(|x| x * x).sum::<f64>() + a.len() as f64
    }
    for arity in [1usize, 2, 6, 7, 12, 40] {
        for given in [arity - 1, arity, arity + 1] {
            for shape in ["{}", "-{} ^ 2", "2 - {} * 3", "abs({}) / {}", "sin({}, 1)"] {
                let args: Vec<String> = (0..given).map(|i| if i % 3 == 1 { format!("norm({}2)", "1, ".repeat(arity - 1)) } else { format!("{i} - 1") }).collect();
                let text = shape.replace("{}", &format!("norm({})", args.join(",")));
                ctx.case(
                    || format!("norm of {arity}: {text}"),
                    |st| {
                        st.step();
                        let (mut c, mut e) = context();
                        c.add_func_to_ctx("norm", norm, arity);
                        e.funcs.insert("norm", (arity, norm));
                        match (want(&text, &e), eval_str_with_context(&text, &c)) {
                            (Want::Value(v), Ok(g)) if util::close(v, g, 1e-9) => Ok(()),
                            (Want::Malformed, Err(_)) => Ok(()),
                            (w, g) => Err(format!("gives {g:?}, expected {w:?}")),
                        }
                    },
                );
            }
        }
    }
    let long = "a_very_long_name_0123456789".repeat(12);
    for kind in 0..5 {
        for text in ["pi", "2 * pi + x", "sin(1)", "sin + 1", "e ^ 2", "abs(x)", "x", "1e1", "e1 - 1", "LONG * 2", "LONG1 + LONG", "long", "PI", "X", "Sin(1)"] {
            ctx.case(
                || format!("{text} in context {kind}"),
                |st| {
                    st.step();
                    let text = text.replace("LONG", &long);
                    let (mut c, mut e) = context();
                    let mut name = |n: &str, v: f64, var: bool| {
                        if var {
                            c.add_var_to_ctx(n, v);
                        } else {
                            c.add_const_to_ctx(n, v);
                        }
                        e.names.insert(n.to_string(), v);
                        e.funcs.remove(n);
                    };
                    match kind {
                        0 => {}
                        1 => {
                            name("pi", 3.0, false);
                            name("e", 2.0, true);
                        }
                        2 => {
                            name("sin", 0.5, false);
                            name("abs", -4.0, true);
                        }
                        3 => {
                            name("x", 9.0, false);
                            name("e1", 7.0, true);
                            name("X", 1.5, true);
                        }
                        _ => {
                            name(&long, 1.25, true);
                            name(&format!("{long}1"), 2.5, false);
                            name("PI", 8.0, false);
                        }
                    }
                    match (want(&text, &e), eval_str_with_context(&text, &c)) {
                        (Want::Value(v), Ok(g)) if util::close(v, g, 1e-9) => Ok(()),
                        (Want::Malformed, Err(_)) | (Want::Unspecified, _) => Ok(()),
                        (w, g) => Err(format!("gives {g:?}, expected {w:?}")),
                    }
                },
            );
        }
    }
    // deep nesting and long texts
    for n in ctx.pick(vec![10usize, 100, 1000], vec![10, 100, 1000, 10_000]) {
        for k in 0..5 {
            ctx.case(
                || format!("long text {k} of {n}"),
                |st| {
                    st.step();
                    let (text, v) = match k {
                        0 => (format!("{}1{}", "(".repeat(n), ")".repeat(n)), 1.0),
                        1 => (vec!["1"; n].join(" + "), n as f64),
                        2 => (format!("{}1", "-".repeat(n)), if n % 2 == 0 { 1.0 } else { -1.0 }),
                        3 => (format!("{}2{}", "abs(".repeat(n), ")".repeat(n)), 2.0),
                        _ => (vec!["1"; n].join(" - "), 2.0 - n as f64),
                    };
                    match eval_str(&text) {
                        Ok(g) if g == v => Ok(()),
                        g => Err(format!("gives {g:?}, expected {v}")),
                    }
                },
            );
        }
    }
}

pub fn e02(ctx: &mut Ctx) {
    words(ctx, false);
    token_sequences(ctx, &FULL, ctx.pick(5, 6), false);
    token_sequences(ctx, &CORE, ctx.pick(6, 7), false);
    token_sequences(ctx, &CALLS, ctx.pick(6, 7), false);
    char_strings(ctx, &['1', '.', 'x', '(', ')', '+', ',', '=', ' ', 'é', '$'], ctx.pick(4, 6), false);
    // every function with every number of arguments up to 20 and around 256 and 65536
    let (_, env) = context();
    let mut counts: Vec<usize> = (0..=20).chain(254..=263).collect();
    counts.extend([511, 512, 513, 514, 1025, 65535, 65536, 65537, 65538, 65541]);
    for (name, _) in env.funcs.iter() {
        for &n in &counts {
            for shape in ["{}", "2 - {} / 3"] {
                ctx.case(
                    || format!("{name} of {n} arguments in {shape:?}"),
                    |st| judge(&shape.replace("{}", &format!("{name}({})", vec!["1"; n].join(","))), false, st),
                );
            }
        }
    }
    for &n in counts.iter().filter(|n| **n < 2000) {
        for (open, close) in [("(", ""), ("", ")"), ("(1+", ""), ("", "+1)"), ("1+", ""), ("", "*1"), ("1 ", ""), ("sin(", ""), ("-", "x")] {
            ctx.case(
                || format!("{n} times {open:?} before and {close:?} after"),
                |st| judge(&format!("{}1{}", open.repeat(n), close.repeat(n)), false, st),
            );
        }
    }
    // equations: every token sequence on both sides, exactly one '=' is required
    let alphabet = ["x", "2", "=", "+", "-", "(", ")", "sin", ","];
    let len = ctx.pick(5, 6);
    for l in 0..=len {
        util::product(&vec![alphabet.len(); l], |d| {
            ctx.case(
                || format!("equation {:?}", d.iter().map(|i| alphabet[*i]).collect::<Vec<_>>().join(" ")),
                |st| {
                    let text = d.iter().map(|i| alphabet[*i]).collect::<Vec<_>>().join(" ");
                    equation(&text, st)
                },
            );
        });
    }
}

/// A malformed equation must be refused by every entry point.
fn equation(text: &str, st: &mut Stats) -> Result<(), String> {
    let sides: Vec<&str> = text.split('=').collect();
    let env = Env::standard().with("x", 1.0);
    let mut malformed = sides.len() != 2;
    for s in &sides {
        match want(s, &env) {
            Want::Malformed => malformed = true,
            Want::Unspecified => return Ok(()),
            _ => {}
        }
    }
    if !malformed {
        return Ok(());
    }
    st.steps(4);
    st.state(util::fnv(text.as_bytes()));
    st.outcome("malformed equation rejected");
    let run = |what: &str, f: &mut dyn FnMut() -> bool| match catch(f) {
        Ok(false) => Ok(()),
        Ok(true) => Err(format!("{what} accepted {text:?}")),
        Err(p) => Err(format!("{what} panicked on {text:?}: {p}")),
    };
    run("solve_equation_from_str", &mut || solve_equation_from_str(text, 1e-4, 20).is_ok())?;
    let mut ctx = new_context();
    run("solve_equation_with_context", &mut || solve_equation_with_context(text, &mut ctx, 1.0, -10.0, 10.0, 1e-4, 20).is_ok())?;
    run("SystemBuilder::new", &mut || SystemBuilder::new(text, new_context()).is_ok())?;
    let mut b = SystemBuilder::new("x + y + z = 1", new_context()).map_err(|e| e.to_string())?;
    run("try_constrain_with", &mut || b.try_constrain_with(text).is_ok())?;
    if b.get_vars().len() != 3 || b.is_fully_constrained() {
        return Err(format!("the refused equation {text:?} changed the system"));
    }
    Ok(())
}

/// Expressions over x, y and z for compiled functions.
const EXPRS: [&str; 15] = [
    "x", "x + y", "x - y * 2", "y ^ 2 - x", "-x", "x / y", "sin(x) + k", "if(x, 4, y, 10, 20)", "log(2, x * x + 1)", "(x + y) * (x - y)", "7", "x*x*x - z",
    "1e2*x - 2.5E1", "e + x * 3e0", "inf / 2 + x",
];

fn env3(v: &[f64; 3]) -> Env {
    Env::standard().with("x", v[0]).with("y", v[1]).with("z", v[2]).with("k", -1.25).with("inf", 0.5)
}

fn expect(what: &str, got: anyhow::Result<f64>, w: Want) -> Result<(), String> {
    match (w, got) {
        (Want::Value(v), Ok(g)) if util::close(v, g, 1e-9) => Ok(()),
        (Want::NoValue, Err(_)) => Ok(()),
        (w, g) => Err(format!("{what} gives {g:?}, expected {w:?}")),
    }
}

pub fn e03(ctx: &mut Ctx) {
    histories(ctx, true);
    let vals = [-2.0f64, 0.0, 0.5, 3.0];
    // calls: (which function, which variables are in the map, value index)
    let mut calls: Vec<(usize, usize, usize)> = vec![];
    for f in 0..2 {
        for mask in [0usize, 1, 2, 3, 4, 7] {
            for v in 0..vals.len() {
                if mask != 0 || v == 0 {
                    calls.push((f, mask, v));
                }
            }
        }
    }
    let depth = ctx.pick(2, 3);
    for (i, a) in EXPRS.iter().enumerate() {
        for (j, b) in EXPRS.iter().enumerate() {
            if ctx.quick() && (i + j) % 3 != 0 {
                continue;
            }
            for domain in 0..2 {
                util::product(&vec![calls.len(); depth], |d| {
                    // the first call comes again at the end
                    let h: Vec<_> = d.iter().chain(&d[..1]).map(|i| calls[*i]).collect();
                    ctx.case(
                        || format!("{a:?} and {b:?}, domain {domain}, calls {h:?}"),
                        |st| {
                            let (lo, hi) = if domain == 0 { (f64::NEG_INFINITY, f64::INFINITY) } else { (-1.0, 2.0) };
                            let mut state = [1.0, 1.5, 2.0];
                            let mut c = new_context();
                            for (n, v) in ["x", "y", "z"].iter().zip(state) {
                                c.add_var_with_domain_to_ctx(n, v, lo, hi);
                            }
                            c.add_const_to_ctx("k", -1.25); c.add_const_to_ctx("inf", 0.5);
                            let f = compile_to_fn_of_hashmap(a, &c).map_err(|e| e.to_string())?;
                            let g = compile_to_fn_of_hashmap(b, &c).map_err(|e| e.to_string())?;
                            for (k, (which, mask, v)) in h.iter().enumerate() {
                                let mut m = HashMap::new();
                                for q in 0..3 {
                                    if mask >> q & 1 == 1 {
                                        let val = vals[(v + q) % vals.len()];
                                        m.insert(["x", "y", "z"][q].to_string(), val);
                                        state[q] = val.clamp(lo, hi);
                                    }
                                }
                                st.step();
                                st.state(util::mix(util::fnv_f64(&state), (i * 100 + j) as u64));
                                let (text, got) = if *which == 0 { (a, f(&m)) } else { (b, g(&m)) };
                                expect(&format!("call {k} of {text:?} with {m:?} at {state:?}"), got, want(text, &env3(&state)))?;
                                // direct evaluation sees the same variables
                                expect(&format!("evaluation of {b:?} after call {k}"), eval_str_with_context(b, &c), want(b, &env3(&state)))?;
                            }
                            // a name that is no variable of the context is refused
                            for bad in ["w", "k", "sin"] {
                                if f(&HashMap::from([(bad.to_string(), 1.0)])).is_ok() {
                                    return Err(format!("the compiled function accepted a value for {bad:?}"));
                                }
                            }
                            Ok(())
                        },
                    );
                });
            }
        }
    }
    // functions of one number
    for a in EXPRS {
        if a.contains('y') || a.contains('z') {
            continue;
        }
        for domain in 0..2 {
            util::product(&[5, 5, 5, 5], |d| {
                ctx.case(
                    || format!("{a:?} as a function of one number, domain {domain}, calls {d:?}"),
                    |st| {
                        let (lo, hi) = if domain == 0 { (f64::NEG_INFINITY, f64::INFINITY) } else { (-1.0, 2.0) };
                        let mut c = new_context();
                        c.add_var_with_domain_to_ctx("x", 1.0, lo, hi);
                        c.add_const_to_ctx("k", -1.25); c.add_const_to_ctx("inf", 0.5);
                        let f = compile_to_fn(a, &c).map_err(|e| e.to_string())?;
                        for i in d {
                            st.step();
                            let v = [-2.0f64, 0.0, 0.5, 3.0, -1.0][*i];
                            expect(&format!("{a:?} at {v}"), f(v), want(a, &env3(&[v.clamp(lo, hi), 0.0, 0.0])))?;
                        }
                        Ok(())
                    },
                );
            });
        }
    }
    // values far outside the domain, also infinite ones
    for a in EXPRS {
        for (lo, hi) in [(-1.0, 2.0), (-1e3, 0.5), (0.25, 1e9), (1.5, 1.5)] {
            let far = [f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 0.75, -0.0];
            util::product(&[far.len(), 3, far.len(), 3], |d| {
                ctx.case(
                    || format!("{a:?} in [{lo}, {hi}] with {:?} for {:?}", [far[d[0]], far[d[2]]], [d[1], d[3]]),
                    |st| {
                        let mut state = [lo, hi, lo / 2.0 + hi / 2.0];
                        let mut c = new_context();
                        for (n, v) in ["x", "y", "z"].iter().zip(state) {
                            c.add_var_with_domain_to_ctx(n, v, lo, hi);
                        }
                        c.add_const_to_ctx("k", -1.25);
                        c.add_const_to_ctx("inf", 0.5);
                        let f = compile_to_fn_of_hashmap(a, &c).map_err(|e| e.to_string())?;
                        for call in d.chunks(2) {
                            st.step();
                            let name = ["x", "y", "z"][call[1]];
                            state[call[1]] = far[call[0]].clamp(lo, hi);
                            let got = f(&HashMap::from([(name.to_string(), far[call[0]])]));
                            expect(&format!("{name} = {}", far[call[0]]), got, want(a, &env3(&state)))?;
                        }
                        Ok(())
                    },
                );
            });
        }
    }
    // many variables, given in part or all at once, call after call
    for n in [4usize, 10, 26, 64, 255, 256, 257, 1000] {
        for stride in [1usize, 2, 3, 7] {
            for start in 0..3 {
                ctx.case(
                    || format!("{n} variables, every {stride}th from {start} given"),
                    |st| {
                        let mut c = new_context();
                        let mut state: Vec<f64> = (0..n).map(|i| i as f64 / 4.0 - 3.0).collect();
                        for (i, v) in state.iter().enumerate() {
                            c.add_var_with_domain_to_ctx(&format!("v{i}"), *v, -1e6, 1e6);
                        }
                        let text = (0..n).map(|i| format!("{}*v{i}", i % 5 + 1)).collect::<Vec<_>>().join(" + ");
                        let f = compile_to_fn_of_hashmap(&text, &c).map_err(|e| e.to_string())?;
                        for call in 0..4 {
                            let mut m = HashMap::new();
                            for i in (start + call..n).step_by(stride) {
                                state[i] = ((i * 13 + call * 7) % 31) as f64 - 15.0;
                                m.insert(format!("v{i}"), state[i]);
                            }
                            st.step();
                            st.state(util::fnv_f64(&state));
                            let w: f64 = state.iter().enumerate().map(|(i, v)| (i % 5 + 1) as f64 * v).sum();
                            match f(&m) {
                                Ok(g) if util::close(g, w, 1e-9) => {}
                                g => return Err(format!("call {call} gives {g:?}, expected {w}")),
                            }
                            if let Ok(g) = f(&HashMap::from([(format!("v{n}"), 1.0)])) {
                                return Err(format!("a value for a missing variable gave {g}"));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // contexts that do not fit are refused
    for (a, vars, ok) in [
        ("x + 1", vec!["x"], true), ("x + y", vec!["x"], false), ("x + y", vec!["x", "y"], false), ("1 + 2", vec![], false), ("1 + 2", vec!["x"], true),
        ("x + q", vec!["x"], false), ("x +", vec!["x"], false), ("(x", vec!["x"], false),
    ] {
        ctx.case(
            || format!("compile {a:?} with {vars:?}"),
            |st| {
                st.step();
                let mut c = new_context();
                for v in &vars {
                    c.add_var_to_ctx(v, 1.0);
                }
                if compile_to_fn(a, &c).is_ok() != ok {
                    return Err(format!("accepted: {}", !ok));
                }
                let known = !a.contains('q') && (!a.contains('y') || vars.contains(&"y")) && a != "x +" && a != "(x";
                if compile_to_fn_of_hashmap(a, &c).is_ok() != known {
                    return Err(format!("as a function of several variables accepted: {}", !known));
                }
                if !matches!(c.get("x"), Some(Token::Var(_)) | None) {
                    return Err("the context was changed".into());
                }
                Ok(())
            },
        );
    }
}
