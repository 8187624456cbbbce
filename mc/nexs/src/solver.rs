//! N05: texts of many equations.

use crate::common::{own, solve_text, Solved, Values};
use geqslib::shunting::{new_context, ContextLike, Token};
use mc_core::{catch, hash::with_hash_seed, util, Ctx, Stats};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const MARGIN: f64 = 1e-8;
pub const NAMES: [&str; 6] = ["x", "y_1", "Z", "xy", "a", "w22"];

/// A linear equation: coefficients of the variables and the right side.
#[derive(Clone, Debug)]
pub struct Lin {
    pub k: Vec<i64>,
    pub c: i64,
}

impl Lin {
    fn vars(&self) -> BTreeSet<usize> {
        (0..self.k.len()).filter(|i| self.k[*i] != 0).collect()
    }
    pub fn text(&self, style: usize) -> String {
        let term = |k: i64, n: &str, first: bool| {
            let abs = k.abs();
            let body = if abs == 1 { n.to_string() } else if style % 2 == 0 { format!("{abs}*{n}") } else { format!("{n}*{abs}") };
            match (k < 0, first) {
                (true, _) => format!("-{}{body}", if first { "" } else { " " }),
                (false, true) => body,
                (false, false) => format!("+ {body}"),
            }
        };
        let side = |v: &[(i64, &str)], c: i64| {
            let mut s: Vec<String> = v.iter().enumerate().map(|(i, (k, n))| term(*k, n, i == 0)).collect();
            if c != 0 || s.is_empty() {
                s.push(if s.is_empty() { c.to_string() } else if c < 0 { format!("- {}", -c) } else { format!("+ {c}") });
            }
            s.join(" ")
        };
        let all: Vec<(i64, &str)> = (0..self.k.len()).filter(|i| self.k[*i] != 0).map(|i| (self.k[i], NAMES[i])).collect();
        let none: Vec<(i64, &str)> = vec![];
        match style {
            0 | 1 => format!("{} = {}", side(&all, 0), self.c),
            2 => format!("{} = {}", side(&none, self.c), side(&all, 0)),
            3 => {
                let right: Vec<(i64, &str)> = all[1..].iter().map(|(k, n)| (-k, *n)).collect();
                format!("{}={}", side(&all[..1], 0), side(&right, self.c))
            }
            _ => {
                let left: Vec<(i64, &str)> = all.iter().rev().copied().collect();
                format!("{} = 0", side(&left, -self.c))
            }
        }
    }
}

/// Which variables solving one equation or one square subsystem after another reaches.
fn reachable(eqs: &[BTreeSet<usize>]) -> BTreeSet<usize> {
    let mut known: BTreeSet<usize> = BTreeSet::new();
    let mut used = vec![false; eqs.len()];
    'again: loop {
        for (i, e) in eqs.iter().enumerate() {
            if !used[i] && e.difference(&known).count() == 1 {
                known.extend(e);
                used[i] = true;
                continue 'again;
            }
        }
        for start in 0..eqs.len() {
            if used[start] || eqs[start].is_subset(&known) {
                continue;
            }
            let mut sub = vec![start];
            let mut vars: BTreeSet<usize> = eqs[start].difference(&known).copied().collect();
            loop {
                if sub.len() == vars.len() {
                    for s in sub {
                        used[s] = true;
                    }
                    known.extend(vars);
                    continue 'again;
                }
                let next = (0..eqs.len()).find(|j| !used[*j] && !sub.contains(j) && !eqs[*j].is_subset(&known) && eqs[*j].iter().filter(|v| !known.contains(v) && !vars.contains(v)).count() <= 1);
                let Some(j) = next else { break };
                sub.push(j);
                vars.extend(eqs[j].difference(&known));
            }
        }
        return known;
    }
}

pub fn det(m: &[Vec<i64>]) -> i64 {
    if m.is_empty() {
        return 1;
    }
    (0..m.len())
        .filter(|j| m[0][*j] != 0)
        .map(|j| {
            let minor: Vec<Vec<i64>> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(i, _)| *i != j).map(|(_, v)| *v).collect()).collect();
            (if j % 2 == 0 { 1 } else { -1 }) * m[0][j] * det(&minor)
        })
        .sum()
}

/// Values, log and residuals of a regular linear system.
fn linear(eqs: &[Lin], lines: &[String], got: &Solved, sol: &[i64], st: &mut Stats) -> Result<(), String> {
    let reach = reachable(&eqs.iter().map(|e| e.vars()).collect::<Vec<_>>());
    let (log, v) = got.as_ref().map_err(|e| format!("refused: {e}"))?;
    let v = own(v);
    let names: BTreeSet<String> = v.keys().cloned().collect();
    let want: BTreeSet<String> = reach.iter().map(|i| NAMES[*i].to_string()).collect();
    if names != want {
        return Err(format!("values {v:?}, expected the values of {want:?}"));
    }
    for i in &reach {
        if (v[NAMES[*i]] - sol[*i] as f64).abs() > 1e-5 {
            return Err(format!("values {v:?}, expected {} = {}", NAMES[*i], sol[*i]));
        }
    }
    if reach.len() == sol.len() {
        st.outcome("solved");
        for l in lines {
            let n: usize = log.iter().map(|s| s.matches(l.as_str()).count()).sum();
            let lower: usize = lines.iter().filter(|m| m.contains(l.as_str())).count();
            if n < 1 || n > lower {
                return Err(format!("{l:?} appears {n} times in the procedure {log:?}"));
            }
        }
    } else {
        st.outcome("partly out of reach");
    }
    st.state(util::fnv(log.join("|").as_bytes()));
    Ok(())
}

/// A nonlinear text: its lines and the values asked for.
pub struct Text {
    pub lines: &'static [&'static str],
    want: &'static [(&'static str, f64)],
}

pub const TEXTS: &[Text] = &[
    Text { lines: &["x^2 + y^2 = 25", "x - y = 1", "guess 3.8 for x", "guess 3.2 for y"], want: &[("x", 4.0), ("y", 3.0)] },
    Text { lines: &["a*b = 6", "a + b = 5", "c = a - b", "guess 3.2 for a", "guess 1.9 for b"], want: &[("a", 3.0), ("b", 2.0), ("c", 1.0)] },
    Text { lines: &["p*v = n*8", "n = 3", "v = 2 + n", "t = p^2"], want: &[("n", 3.0), ("v", 5.0), ("p", 4.8), ("t", 23.04)] },
    Text { lines: &["u + v = 3", "u - v = 1", "r + s = u", "r - s = v", "q = r*s"], want: &[("u", 2.0), ("v", 1.0), ("r", 1.5), ("s", 0.5), ("q", 0.75)] },
    Text { lines: &["sin(t) = 0.5", "h = 10*sin(t)", "h + d = 8", "keep t on [0, 1.5]", "guess 0.4 for t"], want: &[("t", std::f64::consts::FRAC_PI_6), ("h", 5.0), ("d", 3.0)] },
    Text { lines: &["x = 3", "2*x = 6", "y = x + 1", "y - x = 1"], want: &[("x", 3.0), ("y", 4.0)] },
    Text { lines: &["x + y + z = 6", "x - y = 0", "z - x = 3", "k = x*y*z", "m + k = 1", "2*m - o = 4"], want: &[("x", 1.0), ("y", 1.0), ("z", 4.0), ("k", 4.0), ("m", -3.0), ("o", -10.0)] },
    Text { lines: &["alpha = 2*beta", "beta = 3*gamma", "gamma = delta + 1", "delta = 1"], want: &[("alpha", 12.0), ("beta", 6.0), ("gamma", 2.0), ("delta", 1.0)] },
    Text { lines: &["x*y = 12", "y*z = 20", "x*z = 15", "guess 2.9 for x", "guess 4.1 for y", "guess 5.1 for z"], want: &[("x", 3.0), ("y", 4.0), ("z", 5.0)] },
    Text { lines: &["2^n = 8", "m = n^2", "n + m = l"], want: &[("n", 3.0), ("m", 9.0), ("l", 12.0)] },
    Text { lines: &["1/r = 1/r1 + 1/r2", "r1 = 6", "r2 = 3", "i = 12/r"], want: &[("r", 2.0), ("r1", 6.0), ("r2", 3.0), ("i", 6.0)] },
    Text { lines: &["y + x12 = 9", "2*y = x12", "y = x1"], want: &[("y", 3.0), ("x12", 6.0), ("x1", 3.0)] },
    Text { lines: &["a + b = 1", "a - b = 3", "a + b = 1*c", "2*a + b = 1 + d"], want: &[("a", 2.0), ("b", -1.0), ("c", 1.0), ("d", 2.0)] },
    Text { lines: &["open + shut = 4", "x = 2", "y = x*2"], want: &[("x", 2.0), ("y", 4.0)] },
    Text { lines: &["inf + nan = 1e1", "inf - nan = .2E1", "E1 = 2.5e0*inf"], want: &[("inf", 6.0), ("nan", 4.0), ("E1", 15.0)] },
    Text { lines: &["x1 + x2 = 3", "x1 - x2 = 1", "x12 = x1*10 + x2", "x + x1 = x12"], want: &[("x1", 2.0), ("x2", 1.0), ("x12", 21.0), ("x", 19.0)] },
];

/// Every regular system of n equations in n variables with the given coefficients; `half`
/// leaves out equations that begin with a negative coefficient.
fn every_linear(ctx: &mut Ctx, n: usize, coef: &[i64], half: bool) {
    let sol = &[2, -1, 3, 5][..n];
    let mut all: Vec<Vec<i64>> = vec![];
    util::product(&vec![coef.len(); n], |ix| {
        let k: Vec<i64> = ix.iter().map(|i| coef[*i]).collect();
        match k.iter().find(|k| **k != 0) {
            None => {}
            Some(f) if half && *f < 0 => {}
            _ => all.push(k),
        }
    });
    util::product(&vec![all.len(); n], |ix| {
        let m: Vec<Vec<i64>> = ix.iter().map(|i| all[*i].clone()).collect();
        if det(&m) == 0 {
            return;
        }
        let eqs = || -> Vec<Lin> { m.iter().map(|k| Lin { k: k.clone(), c: k.iter().zip(sol).map(|(k, s)| k * s).sum() }).collect() };
        let lines = || -> Vec<String> { eqs().iter().enumerate().map(|(i, e)| e.text((ix[i] + i) % 5)).collect() };
        ctx.case(
            || format!("text {:?}", lines().join("\n")),
            |st| {
                st.step();
                let lines = lines();
                linear(&eqs(), &lines, &solve_text(&lines.join("\n"), MARGIN, 100, 1 + ix[0] as u64)?, sol, st)
            },
        );
    });
}

/// The set of equations (as sets of variables) named by the smallest numbers among all renamings.
pub fn canonical(set: &[usize], perms: &[Vec<usize>]) -> bool {
    perms.iter().all(|p| {
        let mut other: Vec<usize> = set.iter().map(|s| p.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|(_, t)| 1 << t).sum()).collect();
        other.sort_unstable();
        set <= &other[..]
    })
}

/// Every set of n different equations in n variables, told apart by which equation has which variable,
/// up to renaming of the variables, in every order of the lines (every `step`-th).
fn every_structure(ctx: &mut Ctx, n: usize, step: usize) {
    let sol = &[2, -1, 3, 5, -4, 1][..n];
    let perms = util::permutations(n);
    let mut set: Vec<usize> = (1..=n).collect();
    let mut classes = 0;
    loop {
        // rows that miss a variable or repeat a structure under another name are left out
        if set.iter().fold(0, |a, b| a | b) == (1 << n) - 1 && canonical(&set, &perms) {
            let row = |salt: usize| -> Vec<Vec<i64>> {
                let coef = [1, 2, -1, 3, 1, -2, 5, -3, 1, 4, -1];
                set.iter().map(|s| (0..n).map(|i| if s >> i & 1 == 1 { coef[(s * 5 + i * (salt + 2) + salt) % coef.len()] } else { 0 }).collect()).collect()
            };
            if let Some(m) = (0..12).map(row).find(|m| det(m) != 0) {
                classes += 1;
                for (k, p) in perms.iter().enumerate().skip(classes % step).step_by(step) {
                    let eqs = || -> Vec<Lin> { p.iter().map(|r| Lin { k: m[*r].clone(), c: m[*r].iter().zip(sol).map(|(k, s)| k * s).sum() }).collect() };
                    let lines = || -> Vec<String> { eqs().iter().enumerate().map(|(i, e)| e.text((k + i) % 5)).collect() };
                    ctx.case(
                        || format!("text {:?}", lines().join("\n")),
                        |st| {
                            st.step();
                            let lines = lines();
                            linear(&eqs(), &lines, &solve_text(&lines.join("\n"), MARGIN, 100, 1 + k as u64)?, sol, st)
                        },
                    );
                }
            }
        }
        // the next set in increasing order
        let Some(i) = (0..n).rev().find(|i| set[*i] < (1 << n) - n + i) else { break };
        set[i] += 1;
        for j in i + 1..n {
            set[j] = set[j - 1] + 1;
        }
    }
}

/// Long texts of a simple structure: the lines and the values of v0, v1, ...
pub fn long(n: usize, shape: usize) -> (Vec<String>, Vec<f64>) {
    let sol: Vec<f64> = (0..n).map(|i| ((i * 7 + shape) % 11) as f64 - 4.0).collect();
    let mut lines = vec![];
    match shape {
        // each variable from the one before
        0 => lines.extend((0..n).map(|i| if i == 0 { format!("v0 = {}", sol[0]) } else { format!("v{i} = v{} + {}", i - 1, sol[i] - sol[i - 1]) })),
        // all from the first one
        1 => lines.extend((0..n).map(|i| if i == 0 { format!("v0 - {} = 0", sol[0]) } else { format!("2*v0 + v{i} = {}", 2.0 * sol[0] + sol[i]) })),
        // pairs, each from the pair before
        2 => {
            for i in (0..n).step_by(2) {
                let before = if i == 0 { ("0".to_string(), 0.0) } else { (format!("v{}", i - 1), sol[i - 1]) };
                if i + 1 == n {
                    lines.push(format!("v{i} + {} = {}", before.0, sol[i] + before.1));
                } else {
                    lines.push(format!("v{i} + v{} = {} + {}", i + 1, before.0, sol[i] + sol[i + 1] - before.1));
                    lines.push(format!("v{i} - v{} = {}", i + 1, sol[i] - sol[i + 1]));
                }
            }
        }
        // one ring that can only be solved as a whole
        _ => lines.extend((0..n).map(|i| {
            let j = (i + 1) % n;
            format!("3*v{i} + v{j} = {}", 3.0 * sol[i] + sol[j])
        })),
    }
    (lines, sol)
}

fn long_texts(ctx: &mut Ctx) {
    for n in [7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 25, 32, 33, 40, 64, 65, 100] {
        for shape in 0..4 {
            if n > 33 && shape == 2 && ctx.quick() || shape == 3 && n > ctx.pick(13, 40) {
                continue;
            }
            for order in 0..ctx.pick(4, 8) {
                ctx.case(
                    || format!("{n} lines of shape {shape} in order {order}"),
                    |st| {
                        let (lines, sol) = long(n, shape);
                        // forward, backward, and with strides
                        let stride = (0..).map(|k| [1, n - 1, 3, 7, 5, n - 2, 11, 13][order] + k).find(|s| (1..=n).all(|d| d == 1 || n % d != 0 || s % d != 0)).unwrap();
                        let text: Vec<String> = (0..n).map(|i| lines[(i * stride + (order == 1) as usize * (n - 1)) % n].clone()).collect();
                        st.step();
                        st.outcome("solved");
                        let (_, v) = solve_text(&text.join("\n"), MARGIN, 100, 1 + order as u64)?.map_err(|e| format!("{e} for {text:?}"))?;
                        for (i, s) in sol.iter().enumerate() {
                            if !v.get(&format!("v{i}")).is_some_and(|g| (g - s).abs() < 1e-5) {
                                return Err(format!("values {v:?}, expected v{i} = {s}, text {text:?}"));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// Rings whose lines come in orders for which a group grows by a few equations with every look at the text.
fn slow_rings(ctx: &mut Ctx) {
    for n in [6, 8, 9, 12, 15, 17, 20, 21, 25, 29] {
        for order in 0..6 {
            if n > ctx.pick(21, 29) {
                continue;
            }
            ctx.case(
                || format!("a ring of {n} in slow order {order}"),
                |st| {
                    let (lines, sol) = long(n, 3);
                    let mut at: Vec<usize> = (0..n).collect();
                    match order {
                        // every second one, then the others
                        0 => at.sort_by_key(|i| (i % 2, *i)),
                        1 => at.sort_by_key(|i| (i % 2, n - *i)),
                        2 => at.sort_by_key(|i| (1 - i % 2, (i * 7) % n)),
                        // from both ends, from the middle
                        3 => at.sort_by_key(|i| (*i).min(n - 1 - *i)),
                        4 => at.sort_by_key(|i| n - (*i).min(n - 1 - *i)),
                        // every third one, backwards
                        _ => at.sort_by_key(|i| (i % 3, n - *i)),
                    }
                    let text: Vec<String> = at.iter().map(|i| lines[*i].clone()).collect();
                    st.step();
                    st.outcome("solved");
                    let (_, v) = solve_text(&text.join("\n"), MARGIN, 100, 1 + order as u64)?.map_err(|e| format!("{e} for {text:?}"))?;
                    for (i, s) in sol.iter().enumerate() {
                        if !v.get(&format!("v{i}")).is_some_and(|g| (g - s).abs() < 1e-5) {
                            return Err(format!("values {v:?}, expected v{i} = {s}, text {text:?}"));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

/// Linear texts whose equations are of very different size, in every order of the lines.
fn scaled(ctx: &mut Ctx) {
    let sizes = [1e-6, 1e-3, 1.0, 50.0, 1e4, 1e6];
    // one by one, a pair then one, a group of three
    let shapes: [[&[i32]; 3]; 3] = [[&[2, 0, 0], &[1, 3, 0], &[1, -1, 4]], [&[1, 1, 0], &[2, -3, 0], &[1, 1, 5]], [&[1, 1, 1], &[1, -2, 0], &[0, 1, 4]]];
    for (k, rows) in shapes.iter().enumerate() {
        util::product(&[sizes.len(); 3], |d| {
            for p in util::permutations(3) {
                ctx.case(
                    || format!("structure {k} scaled by {:?} in the order {p:?}", d.iter().map(|i| sizes[*i]).collect::<Vec<_>>()),
                    |st| {
                        let sol = [2.0, -1.5, 40.0];
                        let eqs: Vec<String> = p
                            .iter()
                            .map(|r| {
                                let k: Vec<f64> = rows[*r].iter().map(|k| *k as f64 * sizes[d[*r]]).collect();
                                let c: f64 = k.iter().zip(sol).map(|(k, s)| k * s).sum();
                                let t: Vec<String> = k.iter().enumerate().filter(|(_, k)| **k != 0.0).map(|(i, k)| format!("{k}*{}", ["x", "y", "z"][i])).collect();
                                format!("{} = {c}", t.join(" + "))
                            })
                            .collect();
                        st.step();
                        let (_, v) = solve_text(&eqs.join("\n"), 1e-3, 60, 1)?.map_err(|e| format!("{eqs:?} refused: {e}"))?;
                        st.state(util::fnv_f64(&[v["x"], v["y"], v["z"]]));
                        st.outcome("solved");
                        for (i, n) in ["x", "y", "z"].iter().enumerate() {
                            if !((v[*n] - sol[i]).abs() < 0.01) {
                                return Err(format!("{eqs:?} gives {v:?}, expected {sol:?}"));
                            }
                        }
                        Ok(())
                    },
                );
            }
        });
    }
}

pub fn n05(ctx: &mut Ctx) {
    long_texts(ctx);
    slow_rings(ctx);
    scaled(ctx);
    // Every structure of dependencies between up to five (six) variables.
    for n in 1..=5 {
        every_structure(ctx, n, if n == 5 { ctx.pick(6, 1) } else { 1 });
    }
    if !ctx.quick() {
        every_structure(ctx, 6, 60);
    }
    // Every triple of linear equations in three variables, every four in four.
    every_linear(ctx, 3, ctx.pick(&[-1, 0, 1, 2], &[-2, -1, 0, 1, 2]), false);
    every_linear(ctx, 4, ctx.pick(&[0, 1], &[-1, 0, 1]), true);
    // Systems of four to six variables: every set of blocks that depend on each other, orders, hash seeds.
    let big = [2, -1, 3, 5, -4, 1];
    let blocks: &[&[usize]] = &[&[1, 1, 1, 1], &[2, 2], &[2, 1, 1], &[1, 2, 1], &[1, 1, 2], &[3, 1], &[1, 3], &[4], &[1, 1, 1, 1, 1], &[2, 1, 2], &[3, 2], &[2, 3], &[1, 2, 2], &[2, 2, 2], &[3, 3], &[1, 1, 2, 2]];
    let inner: [&[&[i64]]; 5] = [&[], &[&[2]], &[&[1, 1], &[1, -1]], &[&[1, 1, 0], &[0, 1, 1], &[1, 0, 1]], &[&[1, 1, 0, 0], &[0, 1, 1, 0], &[0, 0, 1, 1], &[2, 0, 0, 1]]];
    for sizes in blocks {
        let n: usize = sizes.iter().sum();
        // how each equation uses the earlier variables
        for link in 0..ctx.pick(6, 24) {
            let mut eqs: Vec<Lin> = vec![];
            let mut from = 0;
            for s in sizes.iter() {
                for (r, row) in inner[*s].iter().enumerate() {
                    let mut k = vec![0; n];
                    k[from..from + s].copy_from_slice(row);
                    for j in 0..from {
                        k[j] = [0, 1, -1, 0, 2, 0, 1][(link * 3 + j * 5 + r * 2 + from) % 7];
                    }
                    let c = k.iter().zip(big).map(|(k, s)| k * s).sum();
                    eqs.push(Lin { k, c });
                }
                from += s;
            }
            let perms = util::permutations(n);
            let step = match (n, ctx.quick()) {
                (4, _) | (5, false) => 1,
                (5, true) => 3,
                (_, true) => 17,
                _ => 1,
            };
            for (pi, p) in perms.iter().enumerate().step_by(step) {
                for seed in 1..=ctx.pick(1, 3) {
                    let eqs: Vec<Lin> = p.iter().map(|i| eqs[*i].clone()).collect();
                    let lines: Vec<String> = eqs.iter().enumerate().map(|(i, e)| e.text((i + pi + link) % 5)).collect();
                    let text = lines.join("\n");
                    ctx.case(
                        || format!("seed {seed}, text {text:?}"),
                        |st| {
                            st.step();
                            linear(&eqs, &lines, &solve_text(&text, MARGIN, 100, seed)?, &big[..n], st)
                        },
                    );
                }
            }
        }
    }
    // Nonlinear texts in every order of their lines.
    for t in TEXTS {
        let perms = util::permutations(t.lines.len());
        let step = if perms.len() > 200 && ctx.quick() { perms.len() / 150 } else { 1 };
        for p in perms.iter().step_by(step) {
            for seed in 1..=ctx.pick(3, 16) {
                for blank in ["\n", "\r\n", "\n\n \n", " \n\t"] {
                    if blank != "\n" && (seed > 1 || ctx.quick() && perms.len() > 200) {
                        continue;
                    }
                    let text = p.iter().map(|i| t.lines[*i]).collect::<Vec<_>>().join(blank);
                    ctx.case(
                        || format!("seed {seed}, text {text:?}"),
                        |st| {
                            st.step();
                            st.outcome("solved");
                            let got = solve_text(&text, 1e-9, 100, seed)?;
                            if let Ok((log, _)) = &got {
                                st.state(util::fnv(log.join("|").as_bytes()));
                            }
                            crate::common::demand(&got, t.want, 1e-6)
                        },
                    );
                }
            }
        }
    }
    // A line that is there twice counts once.
    let twice = ["x + y = 3", "x + y = 3", "x - y = 1", "z = x"];
    for p in util::permutations(twice.len()) {
        let text = p.iter().map(|i| twice[*i]).collect::<Vec<_>>().join("\n");
        ctx.case(
            || format!("text {text:?}"),
            |st| {
                st.step();
                crate::common::demand(&solve_text(&text, 1e-9, 100, 1)?, &[("x", 2.0), ("y", 1.0), ("z", 2.0)], 1e-6)
            },
        );
    }
    // Margins and limits.
    for (i, t) in TEXTS.iter().enumerate() {
        for margin in [1e-2, 1e-6, 1e-10] {
            for limit in [0, 1, 2, 3, 5, 30, 255, 256, 257, 1000, 65536, 1 << 32, usize::MAX] {
                let text = t.lines.join("\n");
                ctx.case(
                    || format!("margin {margin}, limit {limit}, text {text:?}"),
                    |st| {
                        st.step();
                        match solve_text(&text, margin, limit, 1 + i as u64)? {
                            Ok((_, v)) if limit > 1 => {
                                for (n, w) in t.want {
                                    if !v.get(*n).is_some_and(|g| (g - w).abs() <= 60.0 * margin + 1e-6) {
                                        return Err(format!("values {v:?}, expected {n} = {w}"));
                                    }
                                }
                                st.outcome("solved");
                                Ok(())
                            }
                            Ok((_, v)) => Err(format!("solved within {limit} iterations as {v:?}")),
                            Err(_) if limit >= 30 => Err("refused".into()),
                            Err(_) => {
                                st.outcome("out of iterations");
                                Ok(())
                            }
                        }
                    },
                );
            }
        }
    }
    for margin in [0.0, -1.0] {
        ctx.case(
            || format!("margin {margin}"),
            |st| {
                st.step();
                match solve_text("x = 3", margin, 100, 1)? {
                    Ok(s) => Err(format!("solved as {s:?}")),
                    Err(_) => Ok(()),
                }
            },
        );
    }
    // Systems that can not be solved are refused or left unsolved, never given values that violate them.
    for lines in [
        &["x^2 + 1 = 0"] as &[&str],
        &["x + y = 3", "x + y = 4"],
        &["x + y = 3", "2*x + 2*y = 6"],
        &["x^2 + y^2 = -1", "x = y + 1"],
        &["x = 3", "y = 1/(x - x)"],
        &["x + = 3"],
        &["x = 3", "y = (x"],
        &["x = 3", "y == x"],
        &["x = 3", "y = foo(x)"],
        &["x = 3", "= y"],
        &["x = 3", "y ="],
        &["x = y = 3"],
        &["keep x on [0, 1]", "x = 3"],
        &["x = 2*", "y = 3"],
        &["x = #nope"],
    ] {
        for p in util::permutations(lines.len()) {
            let text = p.iter().map(|i| lines[*i]).collect::<Vec<_>>().join("\n");
            ctx.case(
                || format!("text {text:?}"),
                |st| {
                    st.step();
                    st.outcome("refused");
                    match solve_text(&text, MARGIN, 100, 1)? {
                        Err(_) => Ok(()),
                        Ok((_, v)) => Err(format!("solved as {:?}", own(&v))),
                    }
                },
            );
        }
    }
    for (lines, want) in [
        (&["x + y = 3"] as &[&str], &[] as &[(&str, f64)]),
        (&["x = 3", "y + z = x"], &[("x", 3.0)]),
        (&["x + y + z = 3", "x - y = 1", "w = 2"], &[("w", 2.0)]),
        (&[""], &[]),
        (&["no equation here", "x = 3"], &[("x", 3.0)]),
    ] {
        for p in util::permutations(lines.len()) {
            let text = p.iter().map(|i| lines[*i]).collect::<Vec<_>>().join("\n");
            ctx.case(
                || format!("text {text:?}"),
                |st| {
                    st.step();
                    st.outcome("unsolved");
                    crate::common::demand(&solve_text(&text, MARGIN, 100, 1)?, want, 1e-6)
                },
            );
        }
    }
    // Equations that contradict each other.
    for (a, b) in [("x = 3", "x = 4"), ("x + 1 = 3", "2*x = 7")] {
        for (a, b) in [(a, b), (b, a)] {
            let text = format!("{a}\n{b}");
            ctx.case(
                || format!("contradiction {text:?}"),
                |st| {
                    st.step();
                    match solve_text(&text, MARGIN, 100, 1)? {
                        Err(_) => Ok(()),
                        Ok((_, v)) => Err(format!("solved as {:?}", own(&v))),
                    }
                },
            );
        }
    }
    // The solver on its own: values of the caller's context are used and extended.
    basic(ctx);
}

fn basic(ctx: &mut Ctx) {
    let stages: [(&str, &[(&str, f64)]); 4] = [
        ("x + y = k\nx - y = 1", &[("x", 3.0), ("y", 2.0)]),
        ("z = x*y", &[("z", 6.0)]),
        ("w^2 = z + 3\nv = twice(w)", &[("w", -3.0), ("v", -6.0)]),
        ("u + q = 4", &[]),
    ];
    // every order of the stages: what is not known yet is not solved
    for p in util::permutations(stages.len()) {
        for seed in 1..=ctx.pick(3, 24) {
            for kv in [5.0, 7.0] {
                ctx.case(
                    || format!("stages {p:?}, k = {kv}, seed {seed}"),
                    |st| {
                        with_hash_seed(seed, || {
                            let mut c = new_context();
                            c.add_const_to_ctx("k", kv);
                            c.add_func_to_ctx("twice", |a| 2.0 * a[0], 1);
                            let mut declared: HashMap<String, [f64; 3]> = HashMap::from([("w".to_string(), [-2.5, -50.0, 0.0]), ("other".to_string(), [1.0, 0.0, 1.0])]);
                            let mut known: Values = BTreeMap::from([("k".to_string(), kv)]);
                            for i in &p {
                                st.step();
                                let got = catch(|| nexsys::basic_solve(stages[*i].0, &mut c, &mut declared, 1e-9, 100).map_err(|e| e.to_string())).map_err(|p| format!("panicked: {p}"))?;
                                let (_, v) = got.map_err(|e| format!("stage {i} refused: {e}"))?;
                                let x = (kv + 1.0) / 2.0;
                                let y = kv - x;
                                match i {
                                    0 => {
                                        known.insert("x".into(), x);
                                        known.insert("y".into(), y);
                                    }
                                    1 if known.contains_key("x") => {
                                        known.insert("z".into(), x * y);
                                    }
                                    2 if known.contains_key("z") => {
                                        known.insert("w".into(), -(x * y + 3.0).sqrt());
                                        known.insert("v".into(), -2.0 * (x * y + 3.0).sqrt());
                                    }
                                    _ => {}
                                }
                                let v = own(&v.into_iter().collect());
                                if v.len() != known.len() || known.iter().any(|(n, w)| !v.get(n).is_some_and(|g| (g - w).abs() < 1e-6)) {
                                    return Err(format!("after stage {i} the values are {v:?}, expected {known:?}"));
                                }
                                for n in known.keys() {
                                    let t = c.get(n);
                                    if !matches!(t, Some(Token::Num(_)) | Some(Token::Var(_))) {
                                        return Err(format!("after stage {i} the context has no value of {n}"));
                                    }
                                }
                                st.outcome("stage");
                                st.state(util::fnv_f64(&known.values().copied().collect::<Vec<_>>()));
                            }
                            Ok(())
                        })
                    },
                );
            }
        }
    }
}
