//! E05 one-dimensional and E06 multivariate root finding.

use geqslib::newton::{multivariate_newton_raphson, newton_raphson};
use mc_core::{catch, hash::with_hash_seed, util, Ctx, Stats};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashMap};

struct F1 {
    name: &'static str,
    f: fn(f64) -> f64,
    roots: &'static [f64],
    /// Newton's method is known to converge from this interval (to the given margin).
    basin: (f64, f64),
    simple: bool,
    /// A straight line whose root is a number with few digits.
    line: bool,
}

const F1S: &[F1] = &[
    F1 { name: "x - 3", f: |x| x - 3.0, roots: &[3.0], basin: (-1e6, 1e6), simple: true, line: true },
    F1 { name: "5 - 2x", f: |x| 5.0 - 2.0 * x, roots: &[2.5], basin: (-1e6, 1e6), simple: true, line: true },
    F1 { name: "1000x + 7", f: |x| 1000.0 * x + 7.0, roots: &[-0.007], basin: (-1e6, 1e6), simple: true, line: false },
    F1 { name: "x/50 + 1", f: |x| x / 50.0 + 1.0, roots: &[-50.0], basin: (-1e4, 1e4), simple: true, line: false },
    F1 { name: "x^2 - 4", f: |x| x * x - 4.0, roots: &[2.0, -2.0], basin: (0.5, 1e3), simple: true, line: false },
    F1 { name: "4 - x^2", f: |x| 4.0 - x * x, roots: &[2.0, -2.0], basin: (0.5, 1e3), simple: true, line: false },
    F1 { name: "x^2 - 4 (left)", f: |x| x * x - 4.0, roots: &[2.0, -2.0], basin: (-1e3, -0.5), simple: true, line: false },
    F1 { name: "x^3 - 8", f: |x| x * x * x - 8.0, roots: &[2.0], basin: (1.0, 100.0), simple: true, line: false },
    F1 { name: "exp(x) - 5", f: |x| x.exp() - 5.0, roots: &[1.6094379124341003], basin: (-1.0, 12.0), simple: true, line: false },
    F1 { name: "ln(x) - 1", f: |x| x.ln() - 1.0, roots: &[std::f64::consts::E], basin: (0.2, 5.0), simple: true, line: false },
    F1 { name: "x^3 + x - 2", f: |x| x * x * x + x - 2.0, roots: &[1.0], basin: (-50.0, 50.0), simple: true, line: false },
    F1 { name: "x^2 (double root)", f: |x| x * x, roots: &[0.0], basin: (0.0, 0.0), simple: false, line: false },
    F1 { name: "x^2 + 1 (no root)", f: |x| x * x + 1.0, roots: &[], basin: (0.0, 0.0), simple: true, line: false },
    F1 { name: "exp(x) (no root)", f: |x| x.exp(), roots: &[], basin: (0.0, 0.0), simple: false, line: false },
    F1 { name: "1 (constant)", f: |_| 1.0, roots: &[], basin: (0.0, 0.0), simple: true, line: false },
    F1 { name: "sqrt(x) - 2", f: |x| x.sqrt() - 2.0, roots: &[4.0], basin: (1.0, 9.0), simple: true, line: false },
    F1 { name: "1/x - 0.5", f: |x| 1.0 / x - 0.5, roots: &[2.0], basin: (0.2, 3.5), simple: true, line: false },
    F1 { name: "atan(x)", f: |x| x.atan(), roots: &[0.0], basin: (-1.2, 1.2), simple: true, line: false },
    F1 { name: "step", f: |x| if x < 1.0 { -1.0 } else { 1.0 }, roots: &[], basin: (0.0, 0.0), simple: true, line: false },
    F1 { name: "nan", f: |_| f64::NAN, roots: &[], basin: (0.0, 0.0), simple: true, line: false },
];

#[derive(Debug)]
struct Mine(usize);
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "mine {}", self.0)
    }
}
impl std::error::Error for Mine {}

fn one(f: &F1, guess: f64, margin: f64, limit: usize, st: &mut Stats) -> Result<(), String> {
    let calls = Cell::new(0usize);
    let res = catch(|| {
        newton_raphson(
            |x| {
                calls.set(calls.get() + 1);
                Ok::<f64, Mine>((f.f)(x))
            },
            guess,
            margin,
            limit,
        )
    })
    .map_err(|p| format!("panicked: {p}"))?;
    st.steps(calls.get() as u64);
    // two evaluations per iteration are what the method needs; anything linear in the limit is accepted
    if calls.get() > 8usize.saturating_mul(limit).saturating_add(8) {
        return Err(format!("{} evaluations for an iteration limit of {limit}", calls.get()));
    }
    match res {
        Ok(x) => {
            if margin <= 0.0 || limit == 0 {
                return Err(format!("gave {x} for margin {margin} and limit {limit}"));
            }
            let y = (f.f)(x);
            if !(y.abs() <= margin) {
                return Err(format!("gave {x} where the function is {y}, margin {margin}"));
            }
            if f.simple && margin < 0.5 {
                let d = f.roots.iter().map(|r| (r - x).abs()).fold(f64::INFINITY, f64::min);
                if !(d <= 2.0 * margin + 1e-9 * x.abs().max(1.0)) {
                    return Err(format!("gave {x}, {d} away from the nearest root, margin {margin}"));
                }
            }
            st.state(util::fnv_f64(&[x]));
            st.outcome("root");
        }
        Err(e) => {
            if guess >= f.basin.0 && guess <= f.basin.1 && f.basin.0 < f.basin.1 && (margin >= 1e-9 || f.line && margin > 0.0) && limit >= 60 {
                return Err(format!("no root found although the method converges: {e}"));
            }
            st.outcome("refused");
        }
    }
    Ok(())
}

pub fn e05(ctx: &mut Ctx) {
    let mut guesses: Vec<f64> = vec![];
    let n = ctx.pick(60, 400);
    for i in -n..=n {
        guesses.push(i as f64 * 0.25);
    }
    guesses.extend([1e3, -1e3, 1e5, -1e5, 1e6, -1e6, 0.007, -0.0071, 1e-9, 123.456, f64::INFINITY, f64::NAN]);
    for f in F1S {
        for &g in &guesses {
            for margin in [1e-9, 1e-6, 1e-4, 0.01, 0.5, 3.0, 0.0, -1.0] {
                for limit in [0usize, 1, 2, 5, 60, 300] {
                    ctx.case(|| format!("{} from {g}, margin {margin}, limit {limit}", f.name), |st| one(f, g, margin, limit, st));
                }
            }
        }
    }
    // a straight line is solved for any margin above zero, and what it gives is close enough
    for f in F1S.iter().filter(|f| f.line) {
        for &g in guesses.iter().filter(|g| g.abs() < 1e4) {
            for margin in [1e-12, 1e-17, 1e-30, 1e-300, f64::MIN_POSITIVE, 5e-324] {
                ctx.case(|| format!("{} from {g}, margin {margin}", f.name), |st| one(f, g, margin, 100, st));
            }
        }
    }
    // limits of every size, where the method converges
    for f in F1S.iter().filter(|f| f.basin.0 < f.basin.1) {
        for limit in [255usize, 256, 257, 512, 65535, 65536, 1 << 24, 1 << 31, 1 << 32, usize::MAX] {
            for g in [f.basin.0, (f.basin.0 + f.basin.1) / 2.0, f.basin.1] {
                ctx.case(|| format!("{} from {g}, limit {limit}", f.name), |st| one(f, g, 1e-6, limit, st));
            }
        }
    }
    // long searches, most of which never come close to a root
    for f in F1S {
        for limit in ctx.pick(vec![1000usize, 10_000, 100_000, 300_000], vec![1000, 10_000, 100_000, 300_000, 1_000_000, 3_000_000]) {
            for g in [-1.3, 0.3, 5.0] {
                ctx.case(|| format!("{} from {g}, limit {limit}", f.name), |st| one(f, g, 1e-6, limit, st));
            }
        }
    }
    // faults: the k-th evaluation fails
    for f in F1S.iter().take(10) {
        for k in 0..14usize {
            for g in [0.7, 1.5, 4.0] {
                ctx.case(
                    || format!("{} from {g}, evaluation {k} fails", f.name),
                    |st| {
                        let calls = Cell::new(0usize);
                        let log = RefCell::new(vec![]);
                        let run = |fail: usize| {
                            calls.set(0);
                            newton_raphson(
                                |x| {
                                    calls.set(calls.get() + 1);
                                    log.borrow_mut().push(x);
                                    if calls.get() == fail + 1 {
                                        return Err(Mine(fail));
                                    }
                                    Ok((f.f)(x))
                                },
                                g,
                                1e-6,
                                50,
                            )
                        };
                        let good = run(usize::MAX - 1).map_err(|e| e.to_string())?;
                        let needed = calls.get();
                        st.steps(2);
                        match run(k) {
                            Ok(x) if k >= needed && x == good => Ok(()),
                            Ok(x) => Err(format!("gave {x} although the function failed")),
                            Err(e) if k < needed && e.downcast_ref::<Mine>().map(|m| m.0) == Some(k) => {
                                if calls.get() != k + 1 {
                                    return Err(format!("{} evaluations after the failing one", calls.get() - k - 1));
                                }
                                Ok(())
                            }
                            Err(e) => Err(format!("error {e:?}, {needed} evaluations needed")),
                        }
                    },
                );
            }
        }
    }
}

/// Systems with known solutions; variables are named a, b, c, ...
struct Sys {
    name: String,
    n: usize,
    f: Vec<Box<dyn Fn(&[f64]) -> f64 + Send + Sync>>,
    solution: Option<Vec<f64>>,
    must_converge: bool,
    guess: Vec<f64>,
}

fn linear(n: usize, salt: usize) -> Sys {
    // rows of a regular, unsymmetric matrix
    let mut m = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            m[i * n + j] = (((i * 7 + j * 3 + i * j * 5 + salt * 11) % 5) as f64) - 2.0;
        }
    }
    for i in 0..n {
        m[i * n + (i + salt) % n] += 3.0 * n as f64 * if (i + salt) % 2 == 0 { 1.0 } else { -1.0 };
    }
    let sol: Vec<f64> = (0..n).map(|i| i as f64 * 1.5 - 2.0).collect();
    let f = (0..n)
        .map(|i| {
            let row: Vec<f64> = m[i * n..(i + 1) * n].to_vec();
            let rhs: f64 = row.iter().zip(&sol).map(|(a, b)| a * b).sum();
            Box::new(move |x: &[f64]| row.iter().zip(x).map(|(a, b)| a * b).sum::<f64>() - rhs) as Box<dyn Fn(&[f64]) -> f64 + Send + Sync>
        })
        .collect();
    Sys { name: format!("linear {n} #{salt}"), n, f, solution: Some(sol), must_converge: true, guess: (0..n).map(|i| [1.0, 7.0, -3.0][(i + salt) % 3]).collect() }
}

macro_rules! sys {
    ($name:expr, [$($f:expr),*], $sol:expr, $must:expr, $guess:expr) => {{
        let f: Vec<Box<dyn Fn(&[f64]) -> f64 + Send + Sync>> = vec![$(Box::new($f)),*];
        Sys { name: $name.into(), n: f.len(), f, solution: $sol, must_converge: $must, guess: $guess }
    }};
}

fn systems() -> Vec<Sys> {
    let mut v = vec![];
    for n in [1, 2, 3, 4, 5, 6, 8, 9, 12, 17, 20] {
        for salt in 0..if n <= 6 { 4 } else { 2 } {
            v.push(linear(n, salt));
        }
    }
    // equations and unknowns of very different size
    for n in 1..=3 {
        let sizes: &[f64] = if n < 3 { &[1e-12, 1e-9, 1e-6, 1e-2, 1.0, 1e3, 1e6] } else { &[1e-6, 1e-2, 1.0, 1e3, 1e6] };
        for k in 0..sizes.len().pow(n as u32) {
            let scale: Vec<f64> = (0..n).map(|i| sizes[k / sizes.len().pow(i as u32) % sizes.len()]).collect();
            let mut l = linear(n, k % 4);
            l.name = format!("{} with equations scaled by {scale:?}", l.name);
            l.f = l.f.into_iter().zip(scale).map(|(f, s)| Box::new(move |x: &[f64]| s * f(x)) as Box<dyn Fn(&[f64]) -> f64 + Send + Sync>).collect();
            v.push(l);
        }
    }
    v.push(sys!("circle and line", [|x: &[f64]| x[0] * x[0] + x[1] * x[1] - 25.0, |x: &[f64]| x[0] - x[1] + 1.0], Some(vec![3.0, 4.0]), true, vec![2.0, 5.0]));
    v.push(sys!("product and sum", [|x: &[f64]| x[0] * x[1] - 6.0, |x: &[f64]| x[0] + x[1] - 5.0], Some(vec![2.0, 3.0]), true, vec![1.0, 4.0]));
    v.push(sys!("exp", [|x: &[f64]| x[0].exp() - x[1], |x: &[f64]| x[1] - 2.0], Some(vec![2f64.ln(), 2.0]), true, vec![1.0, 1.0]));
    v.push(sys!("three", [|x: &[f64]| x[0] * x[1] - 2.0, |x: &[f64]| x[1] * x[2] - 6.0, |x: &[f64]| x[0] + x[1] + x[2] - 6.0], Some(vec![1.0, 2.0, 3.0]), true, vec![1.2, 1.8, 3.3]));
    v.push(sys!("uncoupled", [|x: &[f64]| x[2] * 4.0 - 8.0, |x: &[f64]| 2.0 * x[0] + 6.0, |x: &[f64]| x[1] - 9.0], Some(vec![-3.0, 9.0, 2.0]), true, vec![0.0, 0.0, 0.0]));
    v.push(sys!("contradiction", [|x: &[f64]| x[0] + x[1] - 1.0, |x: &[f64]| x[0] + x[1] - 2.0], None, false, vec![1.0, 2.0]));
    v.push(sys!("dependent", [|x: &[f64]| x[0] + x[1] - 1.0, |x: &[f64]| 2.0 * x[0] + 2.0 * x[1] - 2.0], None, false, vec![1.0, 2.0]));
    v.push(sys!("no real solution", [|x: &[f64]| x[0] * x[0] + x[1] * x[1] + 1.0, |x: &[f64]| x[0] - x[1]], None, false, vec![1.0, 2.0]));
    v.push(sys!("unused variable", [|x: &[f64]| x[0] - 1.0, |x: &[f64]| x[0] * x[0] - 1.0], None, false, vec![3.0, 2.0]));
    v.push(sys!("nan", [|x: &[f64]| x[0] - 1.0, |_: &[f64]| f64::NAN], None, false, vec![3.0, 2.0]));
    v
}

const NAMES: [&str; 21] = [
    "a", "b", "c", "d", "x1", "y_2", "x10", "x11", "x2", "aa", "ab", "A", "B", "Ab", "longer_name", "longer_name_2", "e1", "q", "r", "s", "t",
];

struct Run {
    result: Result<Vec<f64>, String>,
    order: Vec<usize>,
    calls: usize,
    kept: bool,
}

/// Runs once under a given hash seed; `perm` orders the functions.
fn run(s: &Sys, guess: &[f64], perm: &[usize], seed: u64, margin: f64, limit: usize, fail: usize) -> Run {
    with_hash_seed(seed, move || {
        let calls = Cell::new(0usize);
        let mut g: HashMap<String, f64> = HashMap::new();
        for i in 0..guess.len() {
            g.insert(NAMES[i].to_string(), guess[i]);
        }
        let order = g.keys().map(|k| NAMES.iter().position(|n| n == k).unwrap()).collect();
        let fs: Vec<_> = perm
            .iter()
            .map(|p| {
                let calls = &calls;
                let f = &s.f[*p];
                move |x: &HashMap<String, f64>| {
                    calls.set(calls.get() + 1);
                    if calls.get() == fail + 1 {
                        return Err(Mine(fail));
                    }
                    Ok(f(&(0..x.len()).map(|i| x[NAMES[i]]).collect::<Vec<_>>()))
                }
            })
            .collect();
        let mut kept = true;
        let result = match catch(|| {
            let r = multivariate_newton_raphson(fs, &mut g, margin, limit);
            match r {
                Ok(m) => {
                    kept = m.len() == guess.len();
                    Ok((0..m.len()).map(|i| m[NAMES[i]]).collect())
                }
                Err(e) => Err(match e.downcast_ref::<Mine>() {
                    Some(m) => format!("mine {}", m.0),
                    None => e.to_string(),
                }),
            }
        }) {
            Ok(r) => r,
            Err(p) => Err(format!("panicked: {p}")),
        };
        Run { result, order, calls: calls.get(), kept }
    })
}

fn judge(s: &Sys, r: &Run, margin: f64, limit: usize, st: &mut Stats) -> Result<(), String> {
    st.steps(r.calls as u64);
    if r.calls > (s.n * (s.n + 4) + 8).saturating_mul(limit.saturating_add(1)) {
        return Err(format!("{} evaluations for a limit of {limit}", r.calls));
    }
    match &r.result {
        Err(e) if e.starts_with("panicked") => Err(e.clone()),
        Ok(x) => {
            st.outcome("solved");
            st.state(util::fnv_f64(x));
            if !r.kept {
                return Err("the variables changed".into());
            }
            if !(margin > 0.0) || limit == 0 {
                return Err(format!("solved with margin {margin} and limit {limit}"));
            }
            let size = s.f.iter().map(|f| f(x).powi(2)).sum::<f64>().sqrt();
            // the solver may re-evaluate at a point that differs in the last digits
            if !(size <= margin * (1.0 + 1e-6) + 1e-9) {
                return Err(format!("solution {x:?} leaves a residual of {size}, margin {margin}"));
            }
            match &s.solution {
                None => Err(format!("a system without a single solution was solved: {x:?}")),
                Some(sol) if s.must_converge => {
                    let d = sol.iter().zip(x).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
                    // the circle and product systems have a second, mirrored solution
                    let two = s.name.starts_with("circle") || s.name.starts_with("product");
                    if d > 2.0 * margin + 1e-6 && !two {
                        return Err(format!("solution {x:?} instead of {sol:?}, margin {margin}"));
                    }
                    Ok(())
                }
                _ => Ok(()),
            }
        }
        Err(e) => {
            st.outcome("refused");
            if s.must_converge && margin >= 1e-8 && limit >= 60 {
                return Err(format!("not solved: {e}"));
            }
            Ok(())
        }
    }
}

pub fn e06(ctx: &mut Ctx) {
    let all = systems();
    for s in &all {
        let perms = if s.n <= 6 { util::permutations(s.n) } else { (0..3).map(|k| (0..s.n).map(|i| (i + k * (s.n / 3)) % s.n).collect()).collect() };
        let step = if s.n <= 3 || s.n > 6 { 1 } else { ctx.pick([5, 60, 360], [1, 4, 24])[s.n - 4] };
        for perm in perms.iter().step_by(step) {
            for (margin, limit) in [(1e-8, 60), (1e-4, 60), (0.05, 60), (1.0, 60), (1e-4, 1), (1e-4, 2), (1e-4, 0), (0.0, 60), (-1.0, 60)] {
                ctx.case(
                    || format!("{}, functions {perm:?}, margin {margin}, limit {limit}, every variable order", s.name),
                    |st| {
                        let want = if s.n <= 3 { util::permutations(s.n).len() } else { 8 };
                        let mut seen = BTreeSet::new();
                        for seed in 1..400u64 {
                            let r = run(s, &s.guess, perm, seed, margin, limit, usize::MAX - 1);
                            judge(s, &r, margin, limit, st).map_err(|e| format!("variable order {:?}: {e}", r.order))?;
                            seen.insert(r.order);
                            if seen.len() >= want {
                                return Ok(());
                            }
                        }
                        Err(format!("MODEL: only {} variable orders were reached", seen.len()))
                    },
                );
            }
        }
        if s.must_converge {
            for limit in [255usize, 256, 257, 512, 65535, 65536, 1 << 24, 1 << 31, 1 << 32, usize::MAX] {
                ctx.case(
                    || format!("{}, limit {limit}", s.name),
                    |st| {
                        let perm: Vec<usize> = (0..s.n).collect();
                        judge(s, &run(s, &s.guess, &perm, 3, 1e-6, limit, usize::MAX - 1), 1e-6, limit, st)
                    },
                );
            }
        }
        // long searches, most of which never come close to a solution
        if !s.must_converge {
            for limit in ctx.pick(vec![1000usize, 10_000, 100_000], vec![1000, 10_000, 100_000, 300_000, 1_000_000]) {
                for perm in util::permutations(s.n) {
                    ctx.case(|| format!("{}, functions {perm:?}, limit {limit}", s.name), |st| judge(s, &run(s, &s.guess, &perm, 3, 1e-6, limit, usize::MAX - 1), 1e-6, limit, st));
                }
            }
        }
        // starting points
        let grid: &[f64] = ctx.pick(&[-4.0, 0.0, 1.0, 6.0], &[-40.0, -4.0, 0.0, 0.5, 1.0, 6.0, 100.0]);
        if s.name.starts_with("linear") && s.n <= 3 {
            util::product(&vec![grid.len(); s.n], |d| {
                let g: Vec<f64> = d.iter().map(|i| grid[*i]).collect();
                let perm: Vec<usize> = (0..s.n).collect();
                ctx.case(
                    || format!("{} from {g:?}", s.name),
                    |st| {
                        for seed in 1..4 {
                            judge(s, &run(s, &g, &perm, seed, 1e-6, 60, usize::MAX - 1), 1e-6, 60, st)?;
                        }
                        Ok(())
                    },
                );
            });
        }
        // faults at every evaluation
        if s.must_converge && s.n <= 3 {
            let perm: Vec<usize> = (0..s.n).collect();
            for k in 0..ctx.pick(40, 120usize) {
                ctx.case(
                    || format!("{}, evaluation {k} fails", s.name),
                    |st| {
                        let good = run(s, &s.guess, &perm, 5, 1e-6, 60, usize::MAX - 1);
                        let r = run(s, &s.guess, &perm, 5, 1e-6, 60, k);
                        st.steps(r.calls as u64);
                        match (&r.result, k < good.calls) {
                            (Err(e), true) if *e == format!("mine {k}") => Ok(()),
                            (Ok(_), false) => Ok(()),
                            (r, _) => Err(format!("result {r:?}, {} evaluations are needed", good.calls)),
                        }
                    },
                );
            }
        }
        // one variable too few or too many
        for extra in [-1i32, 1] {
            let n = (s.n as i32 + extra) as usize;
            if n > NAMES.len() {
                continue;
            }
            ctx.case(
                || format!("{} with {n} variables", s.name),
                |st| {
                    let perm: Vec<usize> = (0..s.n).collect();
                    let r = run(s, &vec![1.0; n], &perm, 1, 1e-4, 20, usize::MAX - 1);
                    st.step();
                    match r.result {
                        Err(e) if !e.starts_with("panicked") => Ok(()),
                        r => Err(format!("{} equations in {n} variables: {r:?}", s.n)),
                    }
                },
            );
        }
    }
}
