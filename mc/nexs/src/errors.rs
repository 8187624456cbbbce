//! N08: the error of a refused text names a fault that the text has.

use geqslib::errors::{EquationSolverError, ExpressionCompilationError, NewtonRaphsonSolverError, ShuntingYardError};
use geqslib::shunting::new_context;
use mc_core::cli::{run, Scratch};
use mc_core::{catch, util, Ctx, Stats};
use nexsys::errors::{ConditionFormatError, ConstFormatError, DeclarationFormatError, UnitConversionError};
use nexsys::parsing::{compile, conditionals, const_values, consts, conversions};
use nexsys::units::convert;
use nexsys::{basic_solve, solve_with_preprocessors};
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Cause {
    Constant,
    Units,
    Declaration,
    Block,
    Comparator,
    Syntax,
    Word,
    DivZero,
    ManyEquals,
    Margin,
    Limit,
    /// Any error that is none of the named ones.
    Unsolvable,
}
use Cause::*;

/// What the error says is wrong, and a word its text must have.
fn named(e: &anyhow::Error) -> (Cause, &'static str) {
    if e.is::<ConstFormatError>() {
        return (Constant, "constant");
    }
    if e.is::<UnitConversionError>() {
        return (Units, "conversion");
    }
    if e.is::<DeclarationFormatError>() {
        return (Declaration, "declaration");
    }
    if let Some(e) = e.downcast_ref::<ConditionFormatError>() {
        return match e {
            ConditionFormatError::ConditionalSyntax => (Block, "conditional"),
            ConditionFormatError::Comparator => (Comparator, "comparison"),
        };
    }
    if let Some(e) = e.downcast_ref::<ShuntingYardError>() {
        return match e {
            ShuntingYardError::UnknownToken => (Word, "token"),
            ShuntingYardError::DivisionByZero => (DivZero, "zero"),
            ShuntingYardError::ContextMutation => (Unsolvable, ""),
            _ => (Syntax, ""),
        };
    }
    if let Some(e) = e.downcast_ref::<NewtonRaphsonSolverError>() {
        return match e {
            NewtonRaphsonSolverError::NegativeMargin => (Margin, "margin"),
            NewtonRaphsonSolverError::ReachedIterationLimit => (Limit, "iteration"),
            NewtonRaphsonSolverError::ImproperlyConstrainedSystem => (Unsolvable, ""),
        };
    }
    if let Some(e) = e.downcast_ref::<EquationSolverError>() {
        return match e {
            EquationSolverError::FoundMultipleEquations => (ManyEquals, "multiple"),
            _ => (Unsolvable, ""),
        };
    }
    if e.is::<ExpressionCompilationError>() {
        return (Word, "variable");
    }
    (Unsolvable, "")
}

fn judge<T>(what: &str, got: Result<anyhow::Result<T>, String>, causes: &BTreeSet<Cause>, st: &mut Stats) -> Result<(), String> {
    st.step();
    match got {
        Err(p) => Err(format!("{what} panicked: {p}")),
        Ok(Ok(_)) if causes.is_empty() => Ok(()),
        Ok(Ok(_)) => Err(format!("{what} is accepted, but has {causes:?}")),
        Ok(Err(e)) => {
            let (c, word) = named(&e);
            let text = e.to_string();
            if !causes.contains(&c) {
                return Err(format!("{what} says {text:?} ({c:?}), but what is wrong is {causes:?}"));
            }
            if !text.to_lowercase().contains(word) {
                return Err(format!("{what} describes {c:?} as {text:?}"));
            }
            st.state(util::fnv(what.as_bytes()));
            st.outcome(match c {
                Constant => "engineering constant named",
                Units => "units named",
                Declaration => "declaration named",
                Block | Comparator => "block or comparison named",
                Syntax | Word | ManyEquals => "malformed equation named",
                DivZero => "division by zero named",
                Margin | Limit => "margin or limit named",
                Unsolvable => "unsolvable",
            });
            Ok(())
        }
    }
}

/// Lines with one fault; `@` stands for a name of its own.
const FAULTS: &[(&str, &[Cause])] = &[
    ("@ = #nope", &[Constant]),
    ("@ = 2 * #gg + 1", &[Constant]),
    ("@ = #", &[Word]),
    ("@ = 2 * [m->kg]", &[Units]),
    ("@ = [nope->m]", &[Units]),
    ("@ = [m->nope] + [s->m]", &[Units]),
    ("const @ = [kg->m/s]", &[Units]),
    ("const @ = #nope", &[Constant]),
    ("const @ = 1 +", &[Syntax]),
    ("const @ = 1 2", &[Syntax]),
    ("const @ = 1 / 0", &[DivZero]),
    ("const @ = 1 / (2 - 2)", &[DivZero]),
    ("const @ = other", &[Word]),
    ("const @ = sin()", &[Syntax]),
    ("const @ = (1", &[Syntax]),
    ("const 2@ = 3", &[Declaration]),
    ("const @", &[Declaration]),
    ("const @ 3", &[Declaration]),
    ("keep @ on [1]", &[Declaration]),
    ("keep @ on 1, 2", &[Declaration]),
    ("keep @ on [1, 2", &[Declaration]),
    ("keep @ in [1, 2]", &[Declaration]),
    ("keep @ on [a, 2]", &[Declaration]),
    ("keep 3 on [1, 2]", &[Declaration]),
    ("guess 3 @", &[Declaration]),
    ("guess @ for 3", &[Declaration]),
    ("guess x for @", &[Declaration]),
    ("guess 3 of @", &[Declaration]),
    ("if 1 => 2:\n    @ = 1\nelse:\n    @ = 2\nend", &[Comparator]),
    ("if 1 =< 2:\n    @ = 1\nelse:\n    @ = 2\nend", &[Comparator]),
    ("if 1 = 2:\n    @ = 1\nelse:\n    @ = 2\nend", &[Comparator, Block]),
    ("if 1 < 2:\n    @ = 1\nelse:\n    @ = 2", &[Block]),
    ("if 1 < 2:\n    @ = 1\nend", &[Block]),
    ("if 1 < 2\n    @ = 1\nelse:\n    @ = 2\nend", &[Block]),
    ("if 1 < 2:\n    @ = 1 = 2\nelse:\n    @ = 2\nend", &[Block, ManyEquals]),
    ("if 1 < 2:\n    @ = \nelse:\n    @ = 2\nend", &[Block, Syntax]),
    ("if a b < 2:\n    @ = 1\nelse:\n    @ = 2\nend", &[Block, Syntax]),
    ("else:", &[Block]),
    ("end", &[Block]),
    ("if 1 < 2:", &[Block]),
    ("@ = 1 = 2", &[ManyEquals]),
    ("@ == 1", &[ManyEquals]),
    ("@ =", &[Syntax]),
    ("= @", &[Syntax]),
    ("@ = 1 +", &[Syntax]),
    ("@ = * 2", &[Syntax]),
    ("@ = (1 + 2", &[Syntax]),
    ("@ = 1 + 2)", &[Syntax]),
    ("@ = 1 2", &[Syntax]),
    ("@ = 1, 2", &[Syntax]),
    ("@ = sin()", &[Syntax]),
    ("@ = log(2)", &[Syntax]),
    ("@ = sin(1, 2)", &[Syntax]),
    ("@ + x = (1", &[Syntax]),
    ("@ = 3x", &[Word]),
    ("@ = 1 $ 2", &[Word, Syntax]),
    ("@ = $2", &[Word]),
    ("@ = 1 / 0", &[DivZero]),
    ("@ = x / (y - y)", &[DivZero]),
    ("@ = 2 / (1 - 1) * g", &[DivZero]),
    ("@ ^ 2 + 1 = 0", &[Limit]),
    ("0 * @ = 1", &[Limit]),
    ("1 / @ = 0", &[Limit]),
    ("p@ + q@ = 1\np@ + q@ = 2", &[Unsolvable, Limit]),
    ("p@ + q@ = 1 +\np@ - q@ = 2", &[Syntax]),
    ("p@ + q@ = 1 / 0\np@ - q@ = 2", &[DivZero]),
    ("p@ * q@ = 4\np@ ^ 2 + q@ ^ 2 = 0 - 1", &[Limit, Unsolvable]),
];

const GOOD: &[&str] = &[
    "g = 2 + #g",
    "const k = 3",
    "x + y = 3 // a comment",
    "x - y = k",
    "keep z on [0, 100]",
    "z * z = 16 + 0 * g",
    "guess 7 for w",
    "w = 2 * z * [m->cm]",
    "if z > x:\n    v = 1\nelse:\n    v = -1\nend",
    "u = log(2, 8) + sin(0)",
];

/// A text that is fine except for the faults put into it.
fn put(order: &[usize], faults: &[(usize, usize)]) -> (String, BTreeSet<Cause>) {
    let mut lines: Vec<String> = order.iter().map(|i| GOOD[*i].to_string()).collect();
    let mut causes = BTreeSet::new();
    for (k, (f, at)) in faults.iter().enumerate() {
        lines.insert((*at).min(lines.len()), FAULTS[*f].0.replace('@', &format!("fault{k}")));
        causes.extend(FAULTS[*f].1.iter().copied());
    }
    (lines.join("\n"), causes)
}

fn solve(text: &str, causes: &BTreeSet<Cause>, margin: f64, limit: usize, st: &mut Stats) -> Result<(), String> {
    let mut causes = causes.clone();
    if margin <= 0.0 {
        causes.insert(Margin);
    }
    if limit == 0 {
        causes.insert(Limit);
    }
    judge(&format!("{text:?} with margin {margin}, limit {limit}"), catch(|| solve_with_preprocessors(text, margin, limit)), &causes, st)?;
    // in two steps
    let got = catch(|| {
        let (mut ctx, mut declared) = (new_context(), HashMap::new());
        let text = compile(text, &mut ctx, &mut declared)?;
        basic_solve(&text, &mut ctx, &mut declared, margin, limit)
    });
    judge(&format!("{text:?} in two steps with margin {margin}, limit {limit}"), got, &causes, st)
}

pub fn n08(ctx: &mut Ctx) {
    let all: Vec<usize> = (0..GOOD.len()).collect();
    let mut orders = vec![all.clone(), all.iter().rev().copied().collect(), vec![], vec![0, 2, 3]];
    for k in 1..GOOD.len() {
        orders.push(all.iter().map(|i| (i + k) % GOOD.len()).collect());
    }
    for (o, order) in orders.iter().enumerate() {
        ctx.case(|| format!("order {o} without a fault"), |st| {
            // z needs g
            let (text, causes) = put(order, &[]);
            solve(&text, &causes, 1e-8, 100, st)
        });
        for f in 0..FAULTS.len() {
            for at in 0..=order.len() {
                ctx.case(
                    || format!("{:?} at line {at} of order {o}", FAULTS[f].0),
                    |st| {
                        // an equation may use x, y and g
                        if ["x", "y", "g"].iter().any(|n| order.len() < 4 && FAULTS[f].0.contains(n)) {
                            return Ok(());
                        }
                        let (text, causes) = put(order, &[(f, at)]);
                        for (margin, limit) in [(1e-8, 100), (0.0, 100), (-1.0, 100), (1e-8, 0), (0.0, 0)] {
                            solve(&text, &causes, margin, limit, st)?;
                        }
                        solve(&text.replace('\n', "\r\n"), &causes, 1e-8, 100, st)
                    },
                );
            }
        }
    }
    // two faults: either may be named
    let at: &[usize] = ctx.pick(&[1, 8], &[0, 1, 4, 5, 8, 10]);
    for f in 0..FAULTS.len() {
        for g in 0..FAULTS.len() {
            for a in at {
                for b in at {
                    ctx.case(
                        || format!("{:?} at line {a} and {:?} at line {b}", FAULTS[f].0, FAULTS[g].0),
                        |st| {
                            let (text, causes) = put(&all, &[(f, *a), (g, *b)]);
                            // parts of blocks that complete each other are no fault, or another one
                            let part = |i: usize| FAULTS[i].1.contains(&Block) || FAULTS[i].1.contains(&Comparator);
                            if part(f) && part(g) || (FAULTS[f].0.starts_with("const @ ") || FAULTS[g].0.starts_with("const @ ")) && a == b {
                                return Ok(());
                            }
                            solve(&text, &causes, 1e-8, 100, st)
                        },
                    );
                }
            }
        }
    }
    // one fault in long texts
    for n in ctx.pick(vec![20usize, 60], vec![20, 60, 150]) {
        for f in 0..FAULTS.len() {
            for at in [0, 1, n / 2, n - 1, n] {
                ctx.case(
                    || format!("{:?} at line {at} of {n}", FAULTS[f].0),
                    |st| {
                        let mut lines: Vec<String> = vec!["x = 1".into(), "y = 2".into(), "g = 3".into()];
                        lines.extend((3..n).map(|i| format!("long{i} = {} + {i}", if i == 3 { "x".to_string() } else { format!("long{}", i - 1) })));
                        lines.insert(at, FAULTS[f].0.replace('@', "fault"));
                        let causes = FAULTS[f].1.iter().copied().collect();
                        solve(&lines.join("\n"), &causes, 1e-8, 100, st)
                    },
                );
            }
        }
    }
    // the single steps
    for (f, (line, causes)) in FAULTS.iter().enumerate() {
        for pre in ["", "a = 1\n", "b = 3 * 4 // nothing\n\n"] {
            ctx.case(
                || format!("steps of {line:?} after {pre:?}"),
                |st| {
                    let text = format!("{pre}{}", line.replace('@', "f"));
                    let causes: BTreeSet<Cause> = causes.iter().copied().collect();
                    let none = BTreeSet::new();
                    let only = |c: Cause| if causes.contains(&c) { &causes } else { &none };
                    judge(&format!("consts of {text:?}"), catch(|| consts(&text)), only(Constant), st)?;
                    judge(&format!("conversions of {text:?}"), catch(|| conversions(&text)), only(Units), st)?;
                    if f > 7 {
                        let bad = line.starts_with("const @ =");
                        judge(&format!("const_values of {text:?}"), catch(|| const_values(&text)), if bad { &causes } else { &none }, st)?;
                        let bad = causes.contains(&Comparator) || causes == BTreeSet::from([Block]);
                        if bad || !causes.contains(&Block) {
                            judge(&format!("conditionals of {text:?}"), catch(|| conditionals(&text)), if bad { &causes } else { &none }, st)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    for a in ["m", "kg", "s", "nope", "", "N", "m/s", "1"] {
        for b in ["m", "kg", "s", "nope", "", "N", "m/s", "1"] {
            ctx.case(
                || format!("{a:?} to {b:?}"),
                |st| {
                    let known = ["m", "kg", "s", "N", "m/s"].contains(&a);
                    let causes = if a == b && known { BTreeSet::new() } else { BTreeSet::from([Units]) };
                    judge(&format!("{a:?} to {b:?}"), catch(|| convert(a, b)), &causes, st)
                },
            );
        }
    }
    // the program prints the library's words
    for (f, (line, _)) in FAULTS.iter().enumerate() {
        for extra in [&[][..], &["-v"], &["-o"], &["-tol", "0"], &["-max", "0"]] {
            ctx.case(
                || format!("the program on {line:?} with {extra:?}"),
                |st| {
                    let (text, _) = put(&all, &[(f, 5)]);
                    let margin = if extra.contains(&"-tol") { 0.0 } else { 1e-4 };
                    let limit = if extra.contains(&"-max") { 0 } else { 100 };
                    let want = catch(|| solve_with_preprocessors(&text, margin, limit).map_err(|e| e.to_string())).map_err(|p| format!("panicked: {p}"))?;
                    let dir = Scratch::new();
                    std::fs::write(dir.0.join("in.nxs"), &text).map_err(|e| e.to_string())?;
                    let mut args = vec!["in.nxs".to_string()];
                    args.extend(extra.iter().map(|o| o.to_string()));
                    st.step();
                    let (code, out, err) = run(&dir.0, "nxc", &args)?;
                    match want {
                        Ok(_) => Err("solved".into()),
                        Err(e) if code != 0 && format!("{out}{err}").contains(&e) => {
                            st.outcome("printed by the program");
                            Ok(())
                        }
                        Err(e) => Err(format!("exit status {code} and {out:?}, the library says {e:?}")),
                    }
                },
            );
        }
    }
    for (args, word) in [
        (vec!["in.nxs", "-tol", "abc"], "margin"),
        (vec!["in.nxs", "--margin"], "margin"),
        (vec!["in.nxs", "-max", "1.5"], "iteration"),
        (vec!["in.nxs", "--max-iterations", "-1"], "iteration"),
        (vec!["in.nxs", "-tol", "1", "-max"], "iteration"),
        (vec!["missing.nxs"], "file"),
    ] {
        ctx.case(
            || format!("the program with {args:?}"),
            |st| {
                let dir = Scratch::new();
                std::fs::write(dir.0.join("in.nxs"), "x = 1\n").map_err(|e| e.to_string())?;
                st.step();
                let args: Vec<String> = args.iter().map(|a| a.to_string()).collect();
                let (code, out, err) = run(&dir.0, "nxc", &args)?;
                let said: String = format!("{out}{err}").lines().filter(|l| l.contains("ERR")).collect();
                if code == 0 || !said.to_lowercase().contains(word) {
                    return Err(format!("exit status {code} and {said:?}, expected an error about the {word}"));
                }
                st.outcome("printed by the program");
                Ok(())
            },
        );
    }
}
