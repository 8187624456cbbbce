//! E12: the error of a refusal names a cause that is there.

use crate::reference::{eval, lex, parse, Env, Tok};
use geqslib::errors::{CompiledExpressionLookupError, EquationSolverError, ExpressionCompilationError, NewtonRaphsonSolverError, ShuntingYardError};
use geqslib::newton::{multivariate_newton_raphson, newton_raphson};
use geqslib::shunting::{compile_to_fn, compile_to_fn_of_hashmap, eval_str, eval_str_with_context, new_context, ContextHashMap, ContextLike, Token};
use geqslib::system::{ConstrainResult, System, SystemBuilder};
use geqslib::{solve_equation_from_str, solve_equation_with_context};
use mc_core::{catch, util, Ctx, Stats};
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Cause {
    /// No expression at all, whatever the names in it mean.
    Syntax,
    Parenthesis,
    /// A word that is neither a number nor a known name.
    Word,
    /// A name that the context does not have, where all names must be known.
    Name,
    /// A name that stands for an operator in the context.
    Reserved,
    DivZero,
    /// Not one variable in the context.
    Count,
    /// A value for something that is no variable.
    Lookup,
    NoEquals,
    ManyEquals,
    Unknowns,
    Margin,
    Limit,
    Sizes,
    /// The caller's own error.
    Caller,
    /// Equations that determine nothing.
    Singular,
}
use Cause::*;

#[derive(Debug)]
struct Mine(usize);
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "mine {}", self.0)
    }
}
impl std::error::Error for Mine {}

/// What the error says is wrong, and a word its text must have.
fn named(e: &anyhow::Error) -> (Cause, &'static str) {
    if let Some(e) = e.downcast_ref::<ShuntingYardError>() {
        return match e {
            ShuntingYardError::UnclosedParenthesis => (Parenthesis, "parenthesis"),
            ShuntingYardError::UnknownToken => (Word, "token"),
            ShuntingYardError::ContextMutation => (Reserved, "context"),
            ShuntingYardError::DivisionByZero => (DivZero, "zero"),
            ShuntingYardError::LeftoverToken => (Syntax, "token"),
            ShuntingYardError::ExpectedArg => (Syntax, "argument"),
            ShuntingYardError::NoTokens => (Syntax, "token"),
        };
    }
    if let Some(e) = e.downcast_ref::<ExpressionCompilationError>() {
        return match e {
            ExpressionCompilationError::VarNotFoundInContext => (Name, "context"),
            ExpressionCompilationError::WrongVarCount => (Count, "number"),
            ExpressionCompilationError::NoVarsFound => (Count, "variable"),
        };
    }
    if let Some(e) = e.downcast_ref::<NewtonRaphsonSolverError>() {
        return match e {
            NewtonRaphsonSolverError::NegativeMargin => (Margin, "margin"),
            NewtonRaphsonSolverError::ReachedIterationLimit => (Limit, "iterations"),
            NewtonRaphsonSolverError::ImproperlyConstrainedSystem => (Sizes, "number of"),
        };
    }
    if let Some(e) = e.downcast_ref::<EquationSolverError>() {
        return match e {
            EquationSolverError::SingleUnknownNotFound => (Unknowns, "unknown"),
            EquationSolverError::FoundExpression => (NoEquals, "none"),
            EquationSolverError::FoundMultipleEquations => (ManyEquals, "multiple"),
        };
    }
    if e.downcast_ref::<CompiledExpressionLookupError>().is_some() {
        return (Lookup, "variable");
    }
    if e.downcast_ref::<Mine>().is_some() {
        return (Caller, "mine");
    }
    (Singular, "")
}

/// The outcome must be one of the causes that are there; success only if `ok`.
fn judge<T: std::fmt::Debug>(what: &str, got: Result<anyhow::Result<T>, String>, causes: &BTreeSet<Cause>, ok: bool, st: &mut Stats) -> Result<(), String> {
    st.step();
    match got {
        Err(p) => Err(format!("{what} panicked: {p}")),
        Ok(Ok(_)) if ok => Ok(()),
        Ok(Ok(v)) => Err(format!("{what} gives {v:?}, expected an error for {causes:?}")),
        Ok(Err(e)) => {
            let (c, word) = named(&e);
            let text = e.to_string();
            if !causes.contains(&c) {
                return Err(format!("{what} says {text:?} ({c:?}), but what is wrong is {causes:?}"));
            }
            if !text.to_lowercase().contains(word) {
                return Err(format!("{what} describes {c:?} as {text:?}"));
            }
            st.state(util::mix(util::fnv(what.as_bytes()), c as u64));
            st.outcome(match c {
                Syntax | Parenthesis => "malformed text named",
                Word | Name | Lookup | Reserved => "unknown name named",
                DivZero => "division by zero named",
                NoEquals | ManyEquals => "missing or surplus '=' named",
                Unknowns | Count | Sizes => "wrong number of unknowns named",
                Margin => "margin named",
                Limit => "iteration limit named",
                Caller => "caller's error passed on",
                Singular => "singular system named",
            });
            Ok(())
        }
    }
}

/// What is wrong with a text as an expression; with `open`, names may be unknown.
fn faults(text: &str, env: &Env, open: bool) -> BTreeSet<Cause> {
    let mut out = BTreeSet::new();
    let mut toks = lex(text);
    let mut all = Env { names: env.names.clone(), funcs: env.funcs.clone() };
    for t in &mut toks {
        match t {
            Tok::Junk => {
                out.insert(Word);
                *t = Tok::Num(1.0);
            }
            Tok::Id(n) if !env.names.contains_key(n) && !env.funcs.contains_key(n.as_str()) => {
                all.names.insert(n.clone(), 1.0);
                if !open {
                    out.insert(Name);
                    out.insert(Word);
                }
            }
            _ => {}
        }
    }
    if parse(&toks, &all).is_err() {
        out.insert(Syntax);
        let mut depth = 0i64;
        for t in &toks {
            match t {
                Tok::Op('(') => depth += 1,
                Tok::Op(')') => depth -= 1,
                _ => {}
            }
            if depth < 0 {
                break;
            }
        }
        if depth != 0 {
            out.insert(Parenthesis);
        }
        // a division found before the text turned out to be none
        if toks.contains(&Tok::Op('/')) {
            out.insert(DivZero);
        }
    }
    out
}

/// A function name without parentheses, which has no specified meaning.
fn unspecified(text: &str, env: &Env) -> bool {
    text.split('=').any(|s| {
        let t = lex(s);
        (0..t.len()).any(|i| matches!(&t[i], Tok::Id(n) if env.funcs.contains_key(n.as_str())) && i + 1 < t.len() && t[i + 1] != Tok::Op('('))
    })
}

fn divides_by_zero(text: &str, env: &Env) -> bool {
    parse(&lex(text), env).is_ok_and(|a| eval(&a, env).is_err())
}

fn expression(text: &str, st: &mut Stats) -> Result<(), String> {
    let env = Env::standard().with("x", 0.0);
    if unspecified(text, &env) {
        return Ok(());
    }
    let full = faults(text, &env, false);
    // evaluation with and without a context
    for (what, env) in [("eval_str", Env::standard()), ("eval_str_with_context", Env::standard().with("x", 0.0))] {
        let mut causes = faults(text, &env, false);
        causes.remove(&Name);
        if divides_by_zero(text, &env) {
            causes.insert(DivZero);
        }
        let mut c = new_context();
        c.add_var_to_ctx("x", 0.0);
        let got = catch(|| if what == "eval_str" { eval_str(text) } else { eval_str_with_context(text, &c) });
        judge(&format!("{what} of {text:?}"), got, &causes, causes.is_empty(), st)?;
    }
    // functions: made from a context with the right, no and too many variables
    let mut c = new_context();
    c.add_var_to_ctx("x", 0.5);
    let call = divides_by_zero(text, &env);
    let mut causes = full.clone();
    let got = catch(|| compile_to_fn_of_hashmap(text, &c).map(|_| ()));
    judge(&format!("compile_to_fn_of_hashmap of {text:?}"), got, &causes, full.is_empty(), st)?;
    let got = catch(|| compile_to_fn(text, &c).map(|_| ()));
    judge(&format!("compile_to_fn of {text:?}"), got, &causes, full.is_empty(), st)?;
    causes.insert(Count);
    let mut two = c.clone();
    two.add_var_to_ctx("other", 1.0);
    let got = catch(|| compile_to_fn(text, &two).map(|_| ()));
    judge(&format!("compile_to_fn of {text:?} with two variables"), got, &causes, false, st)?;
    let mut no = c.clone();
    no.add_const_to_ctx("x", 0.5);
    let got = catch(|| compile_to_fn(text, &no).map(|_| ()));
    judge(&format!("compile_to_fn of {text:?} without variables"), got, &causes, false, st)?;
    // calls of the functions
    if full.is_empty() {
        let f = compile_to_fn_of_hashmap(text, &c).map_err(|e| e.to_string())?;
        let g = compile_to_fn(text, &c).map_err(|e| e.to_string())?;
        let mut causes = BTreeSet::new();
        if call {
            causes.insert(DivZero);
        }
        judge(&format!("{text:?} at x = 0"), catch(|| g(0.0)), &causes, !call, st)?;
        judge(&format!("{text:?} at x = 0, by name"), catch(|| f(&HashMap::from([("x".to_string(), 0.0)]))), &causes, !call, st)?;
        causes.insert(Lookup);
        for bad in ["other", "pi", "sin", ""] {
            let m = HashMap::from([("x".to_string(), 0.0), (bad.to_string(), 1.0)]);
            judge(&format!("{text:?} with a value for {bad:?}"), catch(|| f(&m)), &causes, false, st)?;
        }
    }
    // a name that stands for an operator
    for (k, t) in [Token::Plus, Token::LeftParenthesis, Token::Comma].into_iter().enumerate() {
        if text.split(|c: char| !c.is_ascii_alphanumeric()).any(|w| w == "x") {
            let mut odd = new_context();
            odd.insert("x".to_string(), t);
            let mut causes = full.clone();
            causes.remove(&Name);
            causes.insert(Reserved);
            judge(&format!("eval of {text:?} where x is operator {k}"), catch(|| eval_str_with_context(text, &odd)), &causes, false, st)?;
        }
    }
    Ok(())
}

/// Everything that can be wrong with a text as an equation, besides its unknowns.
fn equation_faults(text: &str, env: &Env) -> BTreeSet<Cause> {
    let sides: Vec<&str> = text.split('=').collect();
    let mut out = BTreeSet::new();
    match sides.len() {
        1 => out.insert(NoEquals),
        2 => false,
        _ => out.insert(ManyEquals),
    };
    for s in &sides {
        out.extend(faults(s, env, true));
    }
    out
}

fn unknowns(text: &str, env: &Env) -> BTreeSet<String> {
    text.split('=')
        .flat_map(lex)
        .filter_map(|t| match t {
            Tok::Id(n) if !env.names.contains_key(&n) && !env.funcs.contains_key(n.as_str()) => Some(n),
            _ => None,
        })
        .collect()
}

/// Whether a side divides by zero with every unknown at `v`.
fn undefined_at(text: &str, env: &Env, v: f64) -> bool {
    let mut all = Env { names: env.names.clone(), funcs: env.funcs.clone() };
    for n in unknowns(text, env) {
        all.names.insert(n, v);
    }
    text.split('=').any(|s| divides_by_zero(s, &all))
}

fn equation(text: &str, st: &mut Stats) -> Result<(), String> {
    let env = Env::standard();
    if unspecified(text, &env) {
        return Ok(());
    }
    let bad = equation_faults(text, &env);
    let names = unknowns(text, &env);
    let divides = text.contains('/');
    for (margin, limit, guess) in [(1e-6, 30, 1.0), (0.0, 30, 1.0), (-1.0, 30, 0.0), (1e-6, 0, 1.0), (0.0, 0, 2.0), (1e-6, 30, 0.0)] {
        let mut causes = bad.clone();
        if names.len() != 1 {
            causes.insert(Unknowns);
        }
        if margin <= 0.0 {
            causes.insert(Margin);
        }
        if limit == 0 {
            causes.insert(Limit);
        }
        let clean = causes.is_empty();
        let fails_at = |g: f64| causes.is_empty() && undefined_at(text, &env, g);
        let (one, other) = (fails_at(1.0), fails_at(guess));
        let all = |at_start: bool| {
            let mut c = causes.clone();
            // what a search may run into, unless it already failed at the start
            if divides {
                c.insert(DivZero);
            }
            if clean && !at_start {
                c.insert(Limit);
            }
            c
        };
        let what = format!("{text:?} with margin {margin}, limit {limit}");
        judge(&format!("solve_equation_from_str of {what}"), catch(|| solve_equation_from_str(text, margin, limit)), &all(one), clean && !one, st)?;
        let mut c = new_context();
        let got = catch(|| solve_equation_with_context(text, &mut c, guess, -1e6, 1e6, margin, limit));
        judge(&format!("solve_equation_with_context of {what} from {guess}"), got, &all(other), clean && !other, st)?;
    }
    // the same text for a system
    judge(&format!("SystemBuilder::new({text:?})"), catch(|| SystemBuilder::new(text, new_context())), &bad, bad.is_empty(), st)?;
    let make = || SystemBuilder::new("x + y = 3", new_context()).map_err(|e| e.to_string());
    let known = Env::standard().with("x", 1.0).with("y", 1.0);
    let more = unknowns(text, &known).len();
    let mut b = make()?;
    let got = catch(|| b.try_constrain_with(text));
    if more > 1 && matches!(got, Ok(Ok(ConstrainResult::WillNotConstrain))) {
        return Ok(());
    }
    let ok = matches!(got, Ok(Ok(_)));
    judge(&format!("try_constrain_with({text:?})"), got, &bad, bad.is_empty(), st)?;
    if ok && bad.is_empty() && b.is_fully_constrained() {
        for (margin, limit) in [(1e-6, 30), (0.0, 30), (-2.0, 30), (1e-6, 0)] {
            let mut causes = BTreeSet::new();
            if margin <= 0.0 {
                causes.insert(Margin);
            }
            if limit == 0 {
                causes.insert(Limit);
            }
            let clean = causes.is_empty();
            let start = clean && undefined_at(text, &env, 1.0);
            if divides {
                causes.insert(DivZero);
            }
            if clean && !start {
                causes.extend([Limit, Singular]);
            }
            let mut b = make()?;
            b.try_constrain_with(text).map_err(|e| e.to_string())?;
            let Some(s) = b.build_system() else { return Err("a full system was not built".into()) };
            judge(&format!("the system of x + y = 3 and {text:?} with margin {margin}, limit {limit}"), catch(|| System::solve(s, margin, limit)), &causes, clean && !start, st)?;
        }
    }
    let mut b = make()?;
    let got = catch(|| b.try_fully_constrain_with(vec![text]));
    judge(&format!("try_fully_constrain_with({text:?})"), got, &bad, bad.is_empty(), st)
}

fn sequences(ctx: &mut Ctx, alphabet: &[&'static str], len: usize, f: fn(&str, &mut Stats) -> Result<(), String>, name: &str) {
    for l in 0..=len {
        util::product(&vec![alphabet.len(); l], |d| {
            let text = || d.iter().map(|i| alphabet[*i]).collect::<Vec<_>>().join(" ");
            ctx.case(|| format!("{name} {:?}", text()), |st| f(&text(), st));
        });
    }
}

/// One fault in otherwise good text, everywhere, in texts of every size.
fn placed(ctx: &mut Ctx) {
    let sizes = ctx.pick(vec![1usize, 2, 5, 20, 100], vec![1, 2, 5, 20, 100, 1000]);
    for n in sizes {
        let places: Vec<usize> = if n <= 20 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
        for at in places {
            for (k, (fault, cause)) in [("1 / 0", DivZero), ("foo", Word), ("1 2", Syntax), ("sin ( )", Syntax), ("( 1", Parenthesis), ("1 )", Parenthesis), ("1 / ( x - x )", DivZero), ("2 * + 1", Syntax), ("1 , 2", Syntax), ("3x", Word)].into_iter().enumerate() {
                ctx.case(
                    || format!("{n} terms, {fault:?} as the one at {at}"),
                    |st| {
                        let terms: Vec<&str> = (0..n).map(|i| if i == at { fault } else { ["x", "2 * x", "sin ( x )", "( 1 - x )"][i % 4] }).collect();
                        let text = terms.join(" + ");
                        let mut c = new_context();
                        c.add_var_to_ctx("x", 0.25);
                        let mut causes = BTreeSet::from([cause]);
                        if cause == Parenthesis {
                            causes.insert(Syntax);
                        }
                        judge(&text, catch(|| eval_str_with_context(&text, &c)), &causes, false, st)?;
                        if fault == "foo" {
                            causes = BTreeSet::from([Name]);
                        }
                        let got = catch(|| compile_to_fn(&text, &c).and_then(|f| f(1.5)));
                        judge(&format!("function {k} of {n}"), got, &causes, false, st)?;
                        if fault == "foo" {
                            causes = BTreeSet::from([Unknowns]);
                        }
                        for eq in [format!("{text} = y"), format!("y = {text}")] {
                            let got = catch(|| {
                                let mut c = c.clone();
                                solve_equation_with_context(&eq, &mut c, 1.0, -1e9, 1e9, 1e-6, 50)
                            });
                            judge(&eq, got, &causes, false, st)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// An error of the caller's at every evaluation, under every other fault.
fn callers(ctx: &mut Ctx) {
    for at in 0..ctx.pick(40usize, 200) {
        for margin in [1e-9, 0.0, -1.0] {
            for limit in [0usize, 1, 2, 50, 1000] {
                ctx.case(
                    || format!("the caller's function fails at evaluation {at}, margin {margin}, limit {limit}"),
                    |st| {
                        let mut causes = BTreeSet::new();
                        if margin <= 0.0 {
                            causes.insert(Margin);
                        }
                        if limit == 0 {
                            causes.insert(Limit);
                        }
                        let fine = causes.is_empty();
                        // without a root, so only the limit and the failure end the search
                        let n = Cell::new(0);
                        let f = |x: f64| {
                            n.set(n.get() + 1);
                            if n.get() > at {
                                return Err(Mine(at));
                            }
                            Ok(x * x + 1.0)
                        };
                        let got = catch(|| newton_raphson(f, 0.7, margin, limit));
                        if let Ok(Err(e)) = &got {
                            if let Some(Mine(k)) = e.downcast_ref::<Mine>() {
                                if *k != at {
                                    return Err(format!("another error was passed on: {k}"));
                                }
                            }
                        }
                        let mut one = causes.clone();
                        if fine {
                            one.insert(if n.get() > at { Caller } else { Limit });
                        }
                        judge("newton_raphson", got, &one, false, st)?;
                        let sizes = [(1usize, 1usize), (2, 2), (3, 3), (1, 2), (2, 1), (0, 2), (3, 0), (4, 2)];
                        for (functions, variables) in sizes {
                            let n = Cell::new(0);
                            let n = &n;
                            let fs: Vec<_> = (0..functions)
                                .map(|i| {
                                    move |x: &HashMap<usize, f64>| {
                                        n.set(n.get() + 1);
                                        if n.get() > at {
                                            return Err(Mine(at));
                                        }
                                        let v = x.get(&i).copied().unwrap_or(0.0);
                                        Ok(v * v + 1.0)
                                    }
                                })
                                .collect();
                            let mut guess: HashMap<usize, f64> = (0..variables).map(|i| (i, 0.7 + i as f64 / 8.0)).collect();
                            let got = catch(|| multivariate_newton_raphson(fs, &mut guess, margin, limit).map(|_| ()));
                            let mut many = causes.clone();
                            if functions != variables {
                                many.insert(Sizes);
                            } else if fine {
                                many.insert(if n.get() > at { Caller } else { Limit });
                                // far away the squares may swallow the step that gives the slope
                                if n.get() <= at {
                                    many.insert(Singular);
                                }
                            }
                            judge(&format!("{functions} functions of {variables} variables"), got, &many, false, st)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// Refusals in a row: what went wrong before has no part in what goes wrong now.
fn histories(ctx: &mut Ctx) {
    let calls: [(&str, &[Cause]); 12] = [
        ("x + 1", &[NoEquals, Unknowns]),
        ("y + 1", &[NoEquals]),
        ("y = 1 = 2", &[ManyEquals]),
        ("y = z", &[Unknowns]),
        ("x = 1", &[Unknowns]),
        ("y + ( 1 = 2", &[Syntax, Parenthesis]),
        ("y + 3x = 2", &[Word]),
        ("y ^ 2 + 1 = 0", &[Limit]),
        ("y - 1 / 0 = 2", &[DivZero]),
        ("1 / ( y - 1 ) = 2", &[DivZero]),
        ("y - 2 = 5", &[]),
        ("sin ( y , 1 ) = 5", &[Syntax]),
    ];
    util::product(&vec![calls.len(); ctx.pick(3, 4)], |d| {
        ctx.case(
            || format!("{:?}", d.iter().map(|i| calls[*i].0).collect::<Vec<_>>()),
            |st| {
                let mut c: ContextHashMap = new_context();
                c.add_var_to_ctx("x", 0.0);
                for i in d {
                    let (text, causes) = calls[*i];
                    let known = c.contains_key("y");
                    let mut causes: BTreeSet<Cause> = causes.iter().copied().collect();
                    if known {
                        // solved before: now a known value, which leaves no unknown
                        causes.insert(Unknowns);
                        if text.contains('z') {
                            causes = BTreeSet::from([Limit, Unknowns]);
                        }
                    }
                    let ok = causes.is_empty() || known && text == "y = z";
                    let got = catch(|| solve_equation_with_context(text, &mut c, 1.0, -1e6, 1e6, 1e-6, 25));
                    judge(text, got, &causes, ok, st)?;
                    if c.contains_key("z") {
                        c.remove("z");
                    }
                }
                Ok(())
            },
        );
    });
}

pub fn e12(ctx: &mut Ctx) {
    histories(ctx);
    callers(ctx);
    placed(ctx);
    let words = ["1", "0", "x", "foo", "3x", "+", "/", "-", "(", ")", "sin", ","];
    let few = ["1", "0", "x", "foo", "/", "-", "(", ")"];
    sequences(ctx, &words, ctx.pick(5, 6), expression, "expression");
    sequences(ctx, &few, ctx.pick(6, 7), expression, "expression");
    let sides = ["x", "z", "2", "0", "=", "+", "/", "(", ")"];
    sequences(ctx, &sides, ctx.pick(5, 6), equation, "equation");
    sequences(ctx, &["x", "z", "0", "=", "/", "-"], ctx.pick(6, 8), equation, "equation");
    sequences(ctx, &["y", "3x", "1", "=", "/", "^", "sin", ")"], ctx.pick(5, 6), equation, "equation");
}
