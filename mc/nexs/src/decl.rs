//! N03: guess and keep declarations.

use crate::common::{demand, own, solve_text, Values};
use mc_core::{util, Ctx, Stats};

const MARGIN: f64 = 1e-9;

/// Spellings of numbers in declarations.
const NUMBERS: &[(&str, f64)] = &[
    ("3", 3.0), ("-3", -3.0), ("- 3", -3.0), ("3.", 3.0), ("3.1", 3.1), ("-2.9", -2.9), (".1", 0.1), ("-.1", -0.1), ("- .1", -0.1), ("0", 0.0), ("1e2", 100.0),
    ("1e+2", 100.0), ("-1E1", -10.0), ("1.21e1", 12.1), ("80e-1", 8.0), (".5e1", 5.0), ("007", 7.0), ("12.05", 12.05), ("-45.", -45.0), ("1000000", 1e6), ("0.0001e4", 1.0),
];

const GUESS: &[&str] = &["guess $ for @", "guess  $  for  @", "  guess $ for @", "GUESS $ FOR @", "Guess $ for @  ", "guess $ for @ // why", "\tguess $ for @\r"];
const KEEP: &[&str] = &["keep @ on [$, %]", "keep  @  on  [  $,  % ]", "  keep @ on [$,%]", "KEEP @ ON [$, %]", "keep @ on [$, %]  ", "keep @ on [$,   %] // why", "\tkeep @ on [$, %]\r"];

fn near(text: &str, name: &str, want: f64, seed: u64, st: &mut Stats) -> Result<(), String> {
    st.step();
    let got = solve_text(text, MARGIN, 100, seed)?;
    demand(&got, &[(name, want)], 1e-6)?;
    st.outcome("the root asked for");
    st.state(util::fnv_f64(&[want]));
    Ok(())
}

fn values(text: &str, seed: u64, st: &mut Stats) -> Result<Option<Values>, String> {
    st.step();
    Ok(solve_text(text, MARGIN, 100, seed)?.ok().map(|s| own(&s.1)))
}

fn refused(text: &str, st: &mut Stats) -> Result<(), String> {
    st.outcome("refused");
    match values(text, 1, st)? {
        None => Ok(()),
        Some(v) => Err(format!("solved as {v:?}")),
    }
}

struct Eq {
    text: &'static str,
    f: fn(f64) -> f64,
    roots: &'static [f64],
}

const EQS: &[Eq] = &[
    Eq { text: "x^2 = 4", f: |x| x * x - 4.0, roots: &[-2.0, 2.0] },
    Eq { text: "x^3 - 6*x^2 + 11*x = 6", f: |x| x * x * x - 6.0 * x * x + 11.0 * x - 6.0, roots: &[1.0, 2.0, 3.0] },
    Eq { text: "x = 4", f: |x| x - 4.0, roots: &[4.0] },
    Eq { text: "4 - 2*x = x^2 - 4*x + 1", f: |x| 4.0 - 2.0 * x - (x * x - 4.0 * x + 1.0), roots: &[-1.0, 3.0] },
    Eq { text: "abs(x) = 2.5", f: |x| x.abs() - 2.5, roots: &[-2.5, 2.5] },
    Eq { text: "x^2 + 1 = 0", f: |x| x * x + 1.0, roots: &[] },
];

pub fn n03(ctx: &mut Ctx) {
    // Numbers and spellings: the roots are the integers, the nearest one is meant.
    for (num, v) in NUMBERS {
        for form in GUESS {
            for name in ["x", "x1", "guess_1", "for_it", "keep2", "On"] {
                let decl = form.replace('$', num).replace('@', name);
                let eq = format!("sin({name}*pi) = 0");
                for text in [format!("{decl}\n{eq}"), format!("{eq}\n{decl}")] {
                    ctx.case(|| format!("text {text:?}"), |st| near(&text, name, v.round(), 1, st));
                }
            }
        }
        for form in KEEP {
            for (other, w) in NUMBERS {
                if w <= v {
                    continue;
                }
                let decl = form.replace('$', num).replace('%', other).replace('@', "x");
                for (c, inside) in [(v - 1.0, false), (w + 1.0, false), ((v + w) / 2.0, true), (v + (w - v) * 0.01, true)] {
                    let eq = format!("x = {c}");
                    for text in [format!("{decl}\n{eq}"), format!("{eq}\n{decl}")] {
                        ctx.case(|| format!("text {text:?}"), |st| if inside { near(&text, "x", c, 1, st) } else { refused(&text, st) });
                    }
                }
            }
        }
    }
    // Guesses and domains together, in every order of the lines.
    let grid = [-100.0, -3.0, -2.0, -1.95, -0.5, 0.0, 0.5, 0.95, 1.02, 1.97, 2.03, 2.96, 3.1, 10.0, 100.0];
    for e in EQS {
        for g in grid.iter().map(|g| Some(*g)).chain([None]) {
            for (i, lo) in grid.iter().enumerate() {
                for hi in &grid[i..] {
                    let mut lines = vec![e.text.to_string(), format!("keep x on [{lo}, {hi}]")];
                    lines.extend(g.map(|g| format!("guess {g} for x")));
                    let perms = util::permutations(lines.len());
                    for p in if ctx.quick() { &perms[perms.len() - 2..] } else { &perms[..] } {
                        let text = p.iter().map(|i| lines[*i].as_str()).collect::<Vec<_>>().join("\n");
                        ctx.case(
                            || format!("text {text:?}"),
                            |st| {
                                let inside: Vec<f64> = e.roots.iter().copied().filter(|r| lo <= r && r <= hi).collect();
                                let start = g.map(|g| g.clamp(*lo, *hi));
                                // Newton's method stays with a root that is this close by
                                let close = start.and_then(|s| inside.iter().find(|r| (**r - s).abs() <= 0.05 && **r - 0.1 >= *lo && **r + 0.1 <= *hi));
                                match (values(&text, 1, st)?, close) {
                                    (None, Some(r)) => Err(format!("refused, the root {r} is near the guess")),
                                    (None, None) => {
                                        st.outcome("refused");
                                        Ok(())
                                    }
                                    (Some(v), _) => {
                                        let x = *v.get("x").ok_or("no x")?;
                                        if v.len() != 1 || !(*lo <= x && x <= *hi) || (e.f)(x).abs() > 2e-9 {
                                            return Err(format!("values {v:?}"));
                                        }
                                        if let Some(r) = close {
                                            if (x - r).abs() > 1e-6 {
                                                return Err(format!("x = {x}, the root {r} is near the guess"));
                                            }
                                        }
                                        st.outcome("solved inside of the domain");
                                        st.state(util::fnv_f64(&[x]));
                                        Ok(())
                                    }
                                }
                            },
                        );
                    }
                }
            }
        }
        for g in grid {
            let text = format!("{}\nguess {g} for x", e.text);
            ctx.case(
                || format!("text {text:?}"),
                |st| match (values(&text, 1, st)?, e.roots.iter().find(|r| (**r - g).abs() <= 0.05)) {
                    (None, Some(r)) => Err(format!("refused, the root {r} is near the guess")),
                    (None, None) => Ok(()),
                    (Some(v), r) => {
                        let x = *v.get("x").ok_or("no x")?;
                        if (e.f)(x).abs() > 2e-9 || r.is_some_and(|r| (x - r).abs() > 1e-6) {
                            return Err(format!("values {v:?}"));
                        }
                        Ok(())
                    }
                },
            );
        }
    }
    // Two variables: each solution can be asked for, by guesses, domains or both, under any names.
    let circle = ["@^2 + $^2 = 25", "@ - $ = 1"];
    let swapped = ["25 - $^2 = @*@", "$ + 1 = @"];
    let kinds = ctx.pick(5, 7);
    for (a, b) in [("x", "y"), ("y", "x"), ("x", "x1"), ("x1", "x"), ("xy", "x"), ("P", "p"), ("i_2", "i")] {
        for eqs in [circle, swapped] {
            for (va, vb) in [(4.0, 3.0), (-3.0, -4.0)] {
                for ka in 0..kinds {
                    for kb in 0..kinds {
                        let mut lines: Vec<String> = eqs.iter().map(|e| e.replace('@', a).replace('$', b)).collect();
                        let mut declare = |n: &str, v: f64, k: usize| match k {
                            0 => lines.push(format!("guess {} for {n}", v * 1.1)),
                            1 => lines.push(format!("keep {n} on [{}, {}]", v - 1.5, v + 1.5)),
                            2 => {
                                lines.push(format!("keep {n} on [{}, {}]", v - 2.0, v + 1.0));
                                lines.push(format!("guess {} for {n}", v * 0.95));
                            }
                            3 => {
                                lines.push(format!("guess {} for {n}", v * 0.95));
                                lines.push(format!("keep {n} on [{}, {}]", v - 1.0, v + 2.0));
                            }
                            4 => {
                                lines.push(format!("guess {v} for {n}"));
                                lines.push(format!("keep unused{n} on [50, 60]"));
                            }
                            5 => lines.push(format!("guess {} for {n}", v * 0.9)),
                            _ => lines.push(format!("keep {n} on [{}, {}]", v - 0.5, v + 0.75)),
                        };
                        declare(a, va, ka);
                        declare(b, vb, kb);
                        let n = lines.len();
                        // every rotation and the reverse of it
                        for r in 0..n {
                            for back in [false, true] {
                                let mut l = lines.clone();
                                l.rotate_left(r);
                                if back {
                                    l.reverse();
                                }
                                let text = l.join("\n");
                                for seed in 1..=ctx.pick(2, 8) {
                                    ctx.case(
                                        || format!("seed {seed}, text {text:?}"),
                                        |st| {
                                            st.step();
                                            st.outcome("solution of two variables");
                                            demand(&solve_text(&text, MARGIN, 100, seed)?, &[(a, va), (b, vb)], 1e-6)
                                        },
                                    );
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // Declarations of variables that are found one after the other.
    let lines = ["a = 3", "b^2 = a + 1", "c^2 = 7 + b", "d^2 = c^2 + 11", "guess -1.5 for b", "keep c on [-10, -0.5]", "guess -2 for c", "keep d on [0, 50]", "keep a on [0, 10]"];
    // b = -2, c^2 = 5, c < 0, d^2 = 16
    let want = [("a", 3.0), ("b", -2.0), ("c", -(5f64.sqrt())), ("d", 4.0)];
    let n = lines.len();
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                let mut l = lines.to_vec();
                l.swap(i, j);
                l.rotate_left(k);
                let text = l.join("\n");
                for seed in 1..=ctx.pick(1, 4) {
                    ctx.case(
                        || format!("seed {seed}, text {text:?}"),
                        |st| {
                            st.step();
                            st.outcome("chain");
                            demand(&solve_text(&text, MARGIN, 100, seed)?, &want, 1e-6)
                        },
                    );
                }
            }
        }
    }
    // Many declarations at once, some of them texts that other ones begin with, in many orders.
    for n in ctx.pick(vec![2, 5, 12, 20], vec![2, 3, 4, 5, 8, 10, 11, 12, 16, 17, 20, 33, 40]) {
        for kind in 0..5 {
            for order in 0..ctx.pick(4, 8) {
                let mut lines = vec![];
                let mut want = vec![];
                for i in 1..=n {
                    let name = format!("x{i}");
                    let root = if i % 2 == 0 { 3.0 } else { -3.0 };
                    lines.push((i, format!("{name}^2 = 9")));
                    let (lo, hi) = if root > 0.0 { (2, 5) } else { (-5, -2) };
                    match kind {
                        0 => lines.push((i, format!("guess {} for {name}", root * 1.1))),
                        1 => lines.push((i, format!("keep {name} on [{lo}, {hi}]"))),
                        2 if i % 3 == 0 => lines.push((i, format!("keep {name} on [{lo}, {hi}]"))),
                        2 => lines.push((i, format!("guess {root} for {name}"))),
                        // the same declaration twice
                        3 => {
                            lines.push((i, format!("guess {root} for {name}")));
                            lines.push((i + 1, format!("guess {root} for {name}")));
                        }
                        _ => {
                            lines.push((i, format!("guess {root} for {name}")));
                            lines.push((i + 1, format!("keep {name} on [{lo}, {hi}]")));
                        }
                    }
                    want.push((name, root));
                }
                match order {
                    0 => {}
                    1 => lines.reverse(),
                    2 => lines.sort_by_key(|l| l.1.clone()),
                    3 => {
                        lines.sort_by_key(|l| l.1.clone());
                        lines.reverse();
                    }
                    k => lines.sort_by_key(|l| (l.0 * k % 7, l.1.len())),
                }
                let text = lines.iter().map(|l| l.1.as_str()).collect::<Vec<_>>().join("\n");
                let want: Vec<(&str, f64)> = want.iter().map(|w| (w.0.as_str(), w.1)).collect();
                for seed in 1..=2 {
                    ctx.case(
                        || format!("seed {seed}, {n} declared variables: {text:?}"),
                        |st| {
                            st.step();
                            st.outcome("many declarations");
                            demand(&solve_text(&text, MARGIN, 100, seed)?, &want, 1e-6)
                        },
                    );
                }
            }
        }
    }
    // White space of every kind at every place: understood or refused, never ignored.
    for (d, gaps, eq) in [("guess@-3@for@x", 3, "x^2 = 9"), ("keep@x@on@[@-5@,@-2@]", 7, "x^2 = 9"), ("guess@-@3@for@x", 4, "x^2 = 9"), ("const@k@=@-3", 3, "x = k"), ("@guess -3 for x@", 2, "x^2 = 9"), ("@keep x on [-5, -2]@", 2, "x^2 = 9"), ("@const k = -3@", 2, "x = k")] {
        for w in ["\t", " \t", "\t ", "\t\t", "   ", "\u{b}", "\u{c}", "\u{a0}", "\u{2003}", "\u{3000}", "\u{2028}", " \u{a0} "] {
            for which in 0..=gaps {
                let mut at = 0;
                let decl: String = d
                    .chars()
                    .map(|c| {
                        if c != '@' {
                            return c.to_string();
                        }
                        at += 1;
                        if which == gaps || at == which + 1 { w.to_string() } else if d.starts_with('@') || d.starts_with("guess@-@") && at == 2 { String::new() } else { " ".to_string() }
                    })
                    .collect();
                for text in [format!("{decl}\n{eq}"), format!("{eq}\n{decl}"), format!("{eq}\r\n{decl}\r\n")] {
                    ctx.case(
                        || format!("text {text:?}"),
                        |st| match values(&text, 1, st)? {
                            None => {
                                st.outcome("refused");
                                Ok(())
                            }
                            Some(v) if v.get("x").is_some_and(|x| (x + 3.0).abs() < 1e-6) => {
                                st.outcome("understood");
                                Ok(())
                            }
                            Some(v) => Err(format!("solved as {v:?}")),
                        },
                    );
                }
            }
        }
    }
    // Variables may be named like the declarations.
    for n in ["guess", "keep", "const", "guesses", "keep_x", "const1"] {
        for eq in ["@ = 3", "@ + 3 = 6", "  @ * 2 = 6", "(@) = 3", "@ ^ 2 = 6 + @", "@=3", "3 = @"] {
            let text = format!("{}\nx = 2 * {n}", eq.replace('@', n));
            ctx.case(
                || format!("text {text:?}"),
                |st| {
                    st.step();
                    st.outcome("named like a declaration");
                    demand(&solve_text(&text, MARGIN, 100, 1)?, &[("x", 6.0), (n, 3.0)], 1e-6)
                },
            );
        }
    }
    // Declarations that make no sense are refused.
    for d in [
        "guess 3 x", "guess for x", "guess abc for x", "guess 3 for 4", "guess 1.2.3 for x", "guess -- 3 for x", "guess 3", "guess 3,5 for x", "keep x on 0, 5", "keep x on [0 5]",
        "keep x on [0, 5", "keep x in [0, 5]", "keep on [0, 5]", "keep x on [a, b]", "keep 3 on [0, 5]", "keep x [0, 5]", "keep x on [0, 5, 6]", "keep x on [0]", "keep x on []",
        "keep x on (0, 5)", "keep x on [5, 0]", "keep x on [1, -1]", "guess (3) for x", "guess +3 for x", "guess [3] for x", "guess: 3 for x", "guess *3 for x", "guess '3' for x", "guess(3) for x",
        "keep(x) on [0, 5]", "keep [0, 5] for x", "keep _x on [0, 5]", "keep: x on [0, 5]", "keep (x) on [0, 5]", "keep\tx", "guess\t3", "guess \u{3bc} for x", "keep \u{3bc} on [0, 5]",
    ] {
        for text in [format!("{d}\nx = 3"), format!("x = 3\n{d}"), format!("guess 2 for x\n  {d}\nx = 3"), format!("x = 3\n{}", d.to_uppercase().replace('X', "x"))] {
            ctx.case(|| format!("text {text:?}"), |st| refused(&text, st));
        }
    }
}
