//! N10: the reported procedure.

use crate::common::{own, solve_text, Values};
use crate::solver::{canonical, det, long, Lin, NAMES, TEXTS};
use geqslib::shunting::{new_context, ContextLike};
use mc_core::{catch, hash::with_hash_seed, util, Ctx, Stats};
use std::collections::{BTreeMap, BTreeSet, HashMap};

type Names = BTreeSet<String>;

/// The names in a piece of text, without those of functions and numbers.
fn names(text: &str) -> Names {
    let c: Vec<char> = text.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut found = Names::new();
    let mut i = 0;
    while i < c.len() {
        if !word(c[i]) {
            i += 1;
            continue;
        }
        let from = i;
        while i < c.len() && word(c[i]) {
            i += 1;
        }
        let called = c[i..].iter().find(|c| !c.is_whitespace()) == Some(&'(');
        if !c[from].is_numeric() && !called {
            found.insert(c[from..i].iter().collect());
        }
    }
    found
}

/// Follows a procedure step by step, telling which equations each step solves for which names.
fn follow(lines: &[String], known: &Names, log: &[String], values: &Values) -> Result<Vec<(Vec<String>, Names)>, String> {
    let all: BTreeSet<&str> = lines.iter().map(|l| l.trim()).filter(|l| l.contains('=')).collect();
    let mut known = known.clone();
    let mut used: BTreeSet<&str> = BTreeSet::new();
    let mut steps = vec![];
    for step in log {
        let mut eqs: Vec<&str> = vec![];
        let mut rest = String::new();
        for line in step.lines() {
            // groups are reported in quotes
            let line = &line.replace("\\t", " ").replace("\\r", " ");
            let line = line.trim();
            let bare = line.strip_prefix("Equation:").unwrap_or(line).trim().trim_end_matches(',').trim_matches('"').trim();
            match all.get(bare) {
                Some(e) => eqs.push(e),
                None => rest += &format!(" {} ", line.strip_prefix("Var:").unwrap_or(line)),
            }
        }
        if eqs.is_empty() {
            return Err(format!("step {step:?} names none of the equations {all:?}"));
        }
        let unknown: Names = eqs.iter().flat_map(|e| names(e)).filter(|n| !known.contains(n)).collect();
        if unknown.len() != eqs.len() {
            return Err(format!("step {step:?} has {} equations for the unknowns {unknown:?}, the procedure is {log:?}", eqs.len()));
        }
        if eqs.len() == 1 && names(&rest).intersection(&unknown).count() != 1 {
            return Err(format!("step {step:?} does not tell that it solves for {unknown:?}"));
        }
        if rest.contains('=') || names(&rest).iter().any(|n| !unknown.contains(n) && values.contains_key(n)) {
            return Err(format!("step {step:?} names more than its equations and unknowns"));
        }
        for e in &eqs {
            if !used.insert(e) {
                return Err(format!("{e:?} is used twice in the procedure {log:?}"));
            }
        }
        known.extend(unknown.iter().cloned());
        steps.push((eqs.iter().map(|e| e.to_string()).collect(), unknown));
    }
    if let Some(n) = values.keys().find(|n| !known.contains(*n)) {
        return Err(format!("no step leads to {n}, the procedure is {log:?}"));
    }
    if let Some(n) = known.iter().find(|n| !values.contains_key(*n)) {
        return Err(format!("{n} has no value after the procedure {log:?}"));
    }
    for e in all {
        if !used.contains(e) && names(e).difference(&known).count() == 1 {
            return Err(format!("the procedure {log:?} ends before {e:?}"));
        }
    }
    Ok(steps)
}

/// Follows the procedure of a text whose compiled lines are given and takes every step again on its own.
fn judge(lines: &[String], declarations: &[&str], known: &Values, got: &(Vec<String>, Values), tol: f64, seed: u64, regular: &dyn Fn(&[String], &Names) -> bool, st: &mut Stats) -> Result<(), String> {
    let (log, values) = got;
    let mut now: Values = known.clone();
    for (n, v) in values.iter().filter(|(n, _)| *n == "pi" || *n == "e") {
        now.insert(n.clone(), *v);
    }
    let steps = follow(lines, &now.keys().cloned().collect(), log, values)?;
    for (eqs, unknown) in steps {
        st.step();
        st.outcome(if eqs.len() == 1 { "single" } else { "group" });
        if !regular(&eqs, &unknown) {
            now.extend(unknown.iter().map(|n| (n.clone(), values[n])));
            continue;
        }
        let wanted: Vec<&str> = declarations.iter().copied().filter(|d| names(d).iter().any(|n| unknown.contains(n))).collect();
        let used: Names = eqs.iter().flat_map(|e| names(e)).collect();
        let consts: Vec<String> = now.iter().filter(|(n, _)| used.contains(*n) && *n != "pi" && *n != "e").map(|(n, v)| format!("const {n} = {v}")).collect();
        let text = [wanted.join("\n"), consts.join("\n"), eqs.join("\n")].join("\n");
        let (_, v) = solve_text(&text, 1e-9, 100, seed)?.map_err(|e| format!("step {eqs:?} on its own is refused: {e}, text {text:?}"))?;
        for n in &unknown {
            let (a, b) = (values[n], v.get(n).copied().unwrap_or(f64::NAN));
            if !util::close(a, b, tol) {
                return Err(format!("{n} is reported as {a}, its step on its own gives {b}, text {text:?}"));
            }
            now.insert(n.clone(), a);
        }
    }
    st.state(util::fnv(log.join("|").as_bytes()));
    Ok(())
}

/// Every set of m equations in n variables, told apart by which equation has which variable, up to
/// renaming of the variables, in every `step`-th order of the lines.
fn structures(ctx: &mut Ctx, m: usize, n: usize, step: usize) {
    let sol = &[2, -1, 3, 5, -4, 1][..n];
    let renamings = util::permutations(n);
    let orders = util::permutations(m);
    let last = (1usize << n) - 1;
    if m > last {
        return;
    }
    let mut set: Vec<usize> = (1..=m).collect();
    let mut class = 0;
    loop {
        if set.iter().fold(0, |a, b| a | b) == last && canonical(&set, &renamings) {
            class += 1;
            let coef = [1, 2, -1, 3, 1, -2, 5, -3, 1, 4, -1];
            let eqs: Vec<Lin> = set
                .iter()
                .enumerate()
                .map(|(r, s)| {
                    let k: Vec<i64> = (0..n).map(|i| if s >> i & 1 == 1 { coef[(s * 5 + i * 3 + r * r) % coef.len()] } else { 0 }).collect();
                    let c = k.iter().zip(sol).map(|(k, s)| k * s).sum();
                    Lin { k, c }
                })
                .collect();
            for (k, p) in orders.iter().enumerate().skip(class % step).step_by(step) {
                let lines = || -> Vec<String> { p.iter().enumerate().map(|(i, r)| eqs[*r].text((k + i) % 5)).collect() };
                let names = || &NAMES[..n];
                ctx.case(
                    || format!("{m} equations in {:?}: {:?}", names(), lines().join("\n")),
                    |st| {
                        let lines = lines();
                        match solve_text(&lines.join("\n"), 1e-9, 100, 1 + k as u64)? {
                            Ok(got) => judge(&lines, &[], &Values::new(), &got, 1e-5, 1 + k as u64, &|group, unknown| {
                                // surplus equations may depend on each other
                                let m: Vec<Vec<i64>> = group
                                    .iter()
                                    .map(|g| {
                                        let r = p[lines.iter().position(|l| l == g).expect("a line of the text")];
                                        (0..n).filter(|i| unknown.contains(NAMES[*i])).map(|i| eqs[r].k[i]).collect()
                                    })
                                    .collect();
                                det(&m) != 0
                            }, st),
                            // groups may be singular; N05 tells when a text has to be solved
                            Err(_) => {
                                st.step();
                                st.outcome("refused");
                                Ok(())
                            }
                        }
                    },
                );
            }
        }
        let Some(i) = (0..m).rev().find(|i| set[*i] < last + 1 - m + i) else { break };
        set[i] += 1;
        for j in i + 1..m {
            set[j] = set[j - 1] + 1;
        }
    }
}

/// Texts with everything the language offers, as pieces whose order does not matter.
const RICH: &[&[&str]] = &[
    &["const k = 4", "x + y = k", "x - y = 1", "if x > y:\nz = x\nelse:\nz = y\nend", "w = z*[ft->in]"],
    &["keep t on [0, 10]", "guess 2 for t", "t^2 = u", "u = #g // gravity", "v = sin(t)"],
    &["const x1 = 2", "x12 = x1*6", "x + x12 = x1", "x1x = x*x12"],
    &["a + b = 3", "a + b = 3", "a - b = 1", "c = a", "c = a"],
    &["Var = 2", "Equation = Var + 1", "var + equation = 3", "var - equation = Var"],
    &["p + q = 5\np - q = 1\nr = p*q", "s + t = r\ns - t = 2\nu + v = s", "u*2 = t"],
    &["pi*r^2 = area", "r = 2", "e*m = area", "n = ln(m)"],
    &["if a < 3:\nb = 1\nelse:\nb = 2\nend", "a = 2", "if b < 1.5:\nc + d = a\nelse:\nc + d = 0\nend", "c - d = b"],
    &["aa + ab = 4", "aa - ab = 2", "ab + ba = 6", "ba + bb + bc = 3", "bb - bc = 1"],
    &["x + y + z = 6", "x - y + 2*z = 5", "2*x + y - z = 1", "s = x + y", "t + u = s", "unknown + other = 3"],
];

fn rich(ctx: &mut Ctx) {
    for pieces in RICH {
        for p in util::permutations(pieces.len()).iter().step_by(ctx.pick(if pieces.len() > 5 { 5 } else { 1 }, 1)) {
            for blank in ["\n", "\n\n \n", " \n\t"] {
                for seed in 1..=ctx.pick(2, 8) {
                    if seed > 1 && blank != "\n" {
                        continue;
                    }
                    let text = p.iter().map(|i| if pieces[*i].contains("if ") { pieces[*i].to_string() } else { pieces[*i].replace('\n', blank) }).collect::<Vec<_>>().join(blank);
                    // equal lines stay equal
                    let text = if blank == " \n\t" { format!("\t{text} ") } else { text };
                    ctx.case(
                        || format!("seed {seed}, text {text:?}"),
                        |st| {
                            let (compiled, known) = with_hash_seed(seed, || {
                                catch(|| {
                                    let mut c = new_context();
                                    let mut d = HashMap::new();
                                    nexsys::parsing::compile(&text, &mut c, &mut d).map_err(|e| e.to_string())
                                })
                            })
                            .map_err(|p| format!("panicked: {p}"))?
                            .map(|l| (l, consts(&text)))
                            .map_err(|e| format!("refused: {e}"))?;
                            let got = solve_text(&text, 1e-9, 100, seed)?.map_err(|e| format!("refused: {e}"))?;
                            let lines: Vec<String> = compiled.split('\n').map(|l| l.to_string()).collect();
                            let declarations: Vec<&str> = text.lines().filter(|l| l.trim().starts_with("keep") || l.trim().starts_with("guess")).collect();
                            judge(&lines, &declarations, &known, &got, 1e-5, seed, &|_, _| true, st)
                        },
                    );
                }
            }
        }
    }
}

/// The constants declared with plain numbers.
fn consts(text: &str) -> Values {
    let mut v = BTreeMap::new();
    for l in text.lines() {
        if let Some((n, x)) = l.trim().strip_prefix("const ").and_then(|l| l.split_once('=')) {
            v.insert(n.trim().to_string(), x.trim().parse().expect("a number"));
        }
    }
    v
}

/// Texts solved one after another on one context: each procedure only tells about its own text.
fn stages(ctx: &mut Ctx) {
    let stages = ["x + y = k\nx - y = 1", "z = x*y", "v = x + z\nw + v = y", "u + t = z\nu - t = x\ns = u*t", "q + r = 4"];
    for p in util::permutations(stages.len()) {
        ctx.case(
            || format!("stages {p:?}"),
            |st| {
                with_hash_seed(1 + p[0] as u64, || {
                    let mut c = new_context();
                    c.add_const_to_ctx("k", 5.0);
                    let mut known: Values = BTreeMap::from([("k".to_string(), 5.0)]);
                    for i in &p {
                        let got = catch(|| nexsys::basic_solve(stages[*i], &mut c, &mut HashMap::new(), 1e-9, 100).map_err(|e| e.to_string())).map_err(|p| format!("panicked: {p}"))?;
                        let (log, v) = got.map_err(|e| format!("stage {i} refused: {e}"))?;
                        let got = (log, v.into_iter().collect());
                        let lines: Vec<String> = stages[*i].split('\n').map(|l| l.to_string()).collect();
                        judge(&lines, &[], &known, &got, 1e-6, 1, &|_, _| true, st)?;
                        known = own(&got.1);
                    }
                    Ok(())
                })
            },
        );
    }
}

pub fn n10(ctx: &mut Ctx) {
    rich(ctx);
    stages(ctx);
    for n in 1..=4 {
        for m in 1..=(n + 1).min(5) {
            let step = match (m, n) {
                (5, 4) => ctx.pick(4, 1),
                _ => 1,
            };
            structures(ctx, m, n, step);
        }
    }
    for (m, quick, thorough) in [(1, 1, 1), (2, 1, 1), (3, 1, 1), (4, 2, 1), (5, 30, 4), (6, 720, 72)] {
        if !ctx.quick() || quick > 0 {
            structures(ctx, m, 5, ctx.pick(quick, thorough));
        }
    }
    for t in TEXTS {
        let equations: Vec<String> = t.lines.iter().filter(|l| l.contains('=')).map(|l| l.to_string()).collect();
        let declarations: Vec<&str> = t.lines.iter().copied().filter(|l| !l.contains('=')).collect();
        let perms = util::permutations(t.lines.len());
        let step = if perms.len() > 200 { perms.len() / ctx.pick(100, 1000).min(perms.len()) } else { 1 };
        for p in perms.iter().step_by(step) {
            for seed in 1..=ctx.pick(2, 8) {
                let text = p.iter().map(|i| t.lines[*i]).collect::<Vec<_>>().join("\n");
                ctx.case(
                    || format!("seed {seed}, text {text:?}"),
                    |st| {
                        let got = solve_text(&text, 1e-9, 100, seed)?.map_err(|e| format!("refused: {e}"))?;
                        judge(&equations, &declarations, &Values::new(), &got, 1e-5, seed, &|_, _| true, st)
                    },
                );
            }
        }
    }
    for n in [7, 10, 16, 25, 40, 65, 100] {
        for shape in 0..4 {
            if shape == 3 && n > ctx.pick(10, 25) || shape == 2 && n > 25 && ctx.quick() {
                continue;
            }
            for stride in [1, n - 1] {
                ctx.case(
                    || format!("{n} lines of shape {shape} in steps of {stride}"),
                    |st| {
                        let (lines, _) = long(n, shape);
                        let lines: Vec<String> = (0..n).map(|i| lines[i * stride % n].clone()).collect();
                        let got = solve_text(&lines.join("\n"), 1e-9, 100, 1)?.map_err(|e| format!("refused: {e}"))?;
                        judge(&lines, &[], &Values::new(), &got, 1e-5, 1, &|_, _| true, st)
                    },
                );
            }
        }
    }
}
