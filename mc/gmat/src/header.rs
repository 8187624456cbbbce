//! G05: programs in C and C++ that use the library through gmatlib.h. The scripts of
//! calls are enumerated and judged here, and run by mc/cxx/matrix.cpp.

use crate::capi::F;
use mc_core::{driver, util, Ctx, Stats};

const FAR: u32 = u32::MAX;
const NAMES: [&str; 2] = ["c", "c++"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    New(usize, u32, u32),
    Ident(usize, u32),
    Copy(usize, usize),
    Assign(usize, usize),
    Drop(usize),
    RowScale(usize, u32, f64),
    Scale(usize, f64),
    RowAdd(usize, u32, u32),
    RowAddScaled(usize, u32, u32, f64),
    Mul(usize, usize, usize),
    Aug(usize, usize, usize),
    Sub(usize, usize, u32, u32, u32, u32),
    Transpose(usize, usize),
    Chain(usize, usize, usize, usize),
    Many(usize, usize),
    Trace(usize),
    Invert(usize),
    Set(usize, u32, u32, f64),
    Get(usize, u32, u32),
}

#[derive(Clone, Debug)]
enum Expect {
    Done,
    Refused,
    /// refused, with one of these words in C and in C++
    Because(&'static str, &'static str),
    Value(f64),
    Dump(F),
}

#[derive(Clone)]
struct Slot {
    m: F,
    exact: bool,
}

#[derive(Clone, Default)]
struct State {
    slots: [Option<Slot>; 3],
    script: Vec<String>,
    expect: Vec<Expect>,
}

fn near(a: f64, b: f64) -> bool {
    a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-9 * b.abs().max(1e-3)
}

fn invert(m: &F) -> F {
    let n = m.r;
    let mut a = F::build(n, 2 * n, |i, j| if j < n { m.at(i, j) } else { (j - n == i) as u8 as f64 });
    for p in 0..n {
        let q = (p..n).max_by(|x, y| a.at(*x, p).abs().total_cmp(&a.at(*y, p).abs())).unwrap();
        for j in 0..2 * n {
            a.v.swap(p * 2 * n + j, q * 2 * n + j);
        }
        let d = a.at(p, p);
        for j in 0..2 * n {
            a.v[p * 2 * n + j] /= d;
        }
        for i in 0..n {
            let f = a.at(i, p);
            if i != p && f != 0.0 {
                for j in 0..2 * n {
                    a.v[i * 2 * n + j] -= f * a.at(p, j);
                }
            }
        }
    }
    F::build(n, n, |i, j| a.at(i, n + j))
}

fn mul(a: &F, b: &F) -> Option<F> {
    (a.c == b.r).then(|| F::build(a.r, b.c, |i, j| (0..a.c).map(|k| a.at(i, k) * b.at(k, j)).sum()))
}

fn aug(a: &F, b: &F) -> Option<F> {
    (a.r == b.r).then(|| F::build(a.r, a.c + b.c, |i, j| if j < a.c { a.at(i, j) } else { b.at(i, j - a.c) }))
}

impl State {
    fn full(&self, k: usize) -> Option<&Slot> {
        self.slots[k].as_ref()
    }

    fn add(&mut self, script: String, e: Expect) {
        self.script.push(script);
        self.expect.push(e);
    }

    fn result(&mut self, k: usize, script: String, m: Option<F>, exact: bool) {
        let e = if m.is_some() { Expect::Done } else { Expect::Refused };
        if let Some(m) = m {
            let exact = exact && m.integral();
            self.slots[k] = Some(Slot { m, exact });
        }
        self.add(script, e);
    }

    fn change(&mut self, k: usize, script: String, ok: bool, f: impl Fn(&mut F)) {
        if ok {
            let s = self.slots[k].as_mut().unwrap();
            f(&mut s.m);
            s.exact &= s.m.integral();
        }
        self.add(script, if ok { Expect::Done } else { Expect::Refused });
    }

    /// The same with a matrix read into a slot.
    fn start(&mut self, k: usize, m: &F) {
        self.add(format!("new {k} {} {}", m.r, m.c), Expect::Done);
        for i in 0..m.r {
            for j in 0..m.c {
                self.add(format!("set {k} {i} {j} {}", driver::bits(m.at(i, j))), Expect::Done);
            }
        }
        self.slots[k] = Some(Slot { m: m.clone(), exact: m.integral() });
    }

    /// `None`: does not apply here.
    fn apply(&mut self, op: Op) -> Option<()> {
        match op {
            Op::New(k, r, c) => {
                let m = (r < 1000 && c < 1000).then(|| F::build(r as usize, c as usize, |_, _| 0.0));
                self.result(k, format!("new {k} {r} {c}"), m, true)
            }
            Op::Ident(k, n) => {
                let m = (n < 1000).then(|| F::build(n as usize, n as usize, |i, j| (i == j) as u8 as f64));
                self.result(k, format!("ident {k} {n}"), m, true)
            }
            Op::Copy(k, l) | Op::Assign(k, l) => {
                let s = self.full(l)?.clone();
                if op == Op::Assign(k, l) {
                    self.slots[k].as_ref()?;
                }
                self.result(k, format!("{} {k} {l}", if op == Op::Copy(k, l) { "copy" } else { "assign" }), Some(s.m), s.exact)
            }
            Op::Drop(k) => {
                self.slots[k].as_ref()?;
                self.slots[k] = None;
                self.add(format!("drop {k}"), Expect::Done)
            }
            Op::RowScale(k, i, s) => {
                let ok = (i as usize) < self.full(k)?.m.r;
                self.change(k, format!("rscale {k} {i} {}", driver::bits(s)), ok, |m| (0..m.c).for_each(|j| m.v[i as usize * m.c + j] *= s))
            }
            Op::Scale(k, s) => {
                self.full(k)?;
                self.change(k, format!("scale {k} {}", driver::bits(s)), true, |m| m.v.iter_mut().for_each(|x| *x *= s))
            }
            Op::RowAdd(k, i, j) | Op::RowAddScaled(k, i, j, _) => {
                let r = self.full(k)?.m.r;
                let ok = (i as usize) < r && (j as usize) < r;
                let (text, s) = match op {
                    Op::RowAddScaled(.., s) => (format!("rsadd {k} {i} {j} {}", driver::bits(s)), s),
                    _ => (format!("radd {k} {i} {j}"), 1.0),
                };
                self.change(k, text, ok, |m| {
                    for q in 0..m.c {
                        let x = m.at(j as usize, q);
                        m.v[i as usize * m.c + q] += s * x;
                    }
                })
            }
            Op::Mul(k, a, b) => {
                let (x, y) = (self.full(a)?, self.full(b)?);
                let (m, exact) = (mul(&x.m, &y.m), x.exact && y.exact);
                self.result(k, format!("mul {k} {a} {b}"), m, exact)
            }
            Op::Aug(k, a, b) => {
                let (x, y) = (self.full(a)?, self.full(b)?);
                let (m, exact) = (aug(&x.m, &y.m), x.exact && y.exact);
                self.result(k, format!("aug {k} {a} {b}"), m, exact)
            }
            Op::Chain(k, a, b, c) => {
                let (x, y, z) = (self.full(a)?, self.full(b)?, self.full(c)?);
                let (m, exact) = (mul(&x.m, &y.m).and_then(|p| aug(&p, &z.m)), x.exact && y.exact && z.exact);
                self.result(k, format!("chain {k} {a} {b} {c}"), m, exact)
            }
            Op::Many(k, a) => {
                let x = self.full(a)?.clone();
                self.result(k, format!("many {k} {a}"), Some(x.m), x.exact)
            }
            Op::Sub(k, a, r1, c1, r2, c2) => {
                let x = self.full(a)?;
                let ok = r1 <= r2 && c1 <= c2 && (r2 as usize) < x.m.r && (c2 as usize) < x.m.c;
                let m = ok.then(|| F::build((r2 - r1) as usize + 1, (c2 - c1) as usize + 1, |i, j| x.m.at(r1 as usize + i, c1 as usize + j)));
                let exact = x.exact;
                self.result(k, format!("sub {k} {a} {r1} {c1} {r2} {c2}"), m, exact)
            }
            Op::Transpose(k, a) => {
                let x = self.full(a)?;
                let (m, exact) = (F::build(x.m.c, x.m.r, |i, j| x.m.at(j, i)), x.exact);
                self.result(k, format!("trans {k} {a}"), Some(m), exact)
            }
            Op::Trace(k) => {
                let m = &self.full(k)?.m;
                let t = if m.r == m.c { (0..m.r).map(|i| m.at(i, i)).sum() } else { f64::NAN };
                self.add(format!("trace {k}"), Expect::Value(t))
            }
            Op::Invert(k) => {
                let s = self.full(k)?.clone();
                if !s.exact || s.m.r > 4 {
                    return None;
                }
                let e = if s.m.r != s.m.c {
                    Expect::Because("unknown", "internal")
                } else if s.m.det() != 0.0 {
                    self.slots[k] = Some(Slot { m: invert(&s.m), exact: false });
                    Expect::Done
                } else {
                    match s.m.r {
                        1 => Expect::Because("single", "1 x 1"),
                        _ => Expect::Because("determinant", "determinant of zero"),
                    }
                };
                self.add(format!("inv {k}"), e)
            }
            Op::Set(k, i, j, v) => {
                let m = &self.full(k)?.m;
                let ok = (i as usize) < m.r && (j as usize) < m.c;
                self.change(k, format!("set {k} {i} {j} {}", driver::bits(v)), ok, |m| m.v[i as usize * m.c + j as usize] = v)
            }
            Op::Get(k, i, j) => {
                let m = &self.full(k)?.m;
                let ok = (i as usize) < m.r && (j as usize) < m.c;
                let v = if ok { m.at(i as usize, j as usize) } else { f64::MIN };
                self.add(format!("get {k} {i} {j}"), Expect::Value(v))
            }
        }
        Some(())
    }

    /// Reads every matrix that is left, then the script is complete.
    fn finish(&mut self) {
        for k in 0..3 {
            if let Some(s) = self.slots[k].clone() {
                self.add(format!("dump {k} {} {}", s.m.r, s.m.c), Expect::Dump(s.m));
            }
        }
    }

    fn judge(&self, mode: usize, line: &str) -> Result<(), String> {
        let got: Vec<&str> = line.split(';').collect();
        for (i, e) in self.expect.iter().enumerate() {
            let g = *got.get(i).ok_or("a result is missing")?;
            let fail = |what: String| Err(format!("call {i} ({}) gives {:?}, expected {what}", self.script[i], util::clip(g, 300)));
            match e {
                Expect::Done if g != "ok" => return fail("success".into()),
                Expect::Refused if g != "ex" && !g.starts_with("ex ") => return fail("a failure with a message".into()),
                Expect::Because(c, cpp) => {
                    if !g.starts_with("ex ") || !g.contains([c, cpp][mode]) {
                        return fail(format!("a failure because of {:?}", [c, cpp][mode]));
                    }
                }
                Expect::Value(v) if !driver::real(g).is_some_and(|x| near(x, *v)) => return fail(format!("{v} ({})", driver::bits(*v))),
                Expect::Dump(m) => {
                    let w: Vec<&str> = g.split(' ').collect();
                    let n = m.r * m.c + m.r + m.c;
                    if w.len() < 1 + n {
                        return fail(format!("{n} elements"));
                    }
                    let mut k = 1;
                    for i in 0..=m.r {
                        for j in 0..=m.c {
                            if (i, j) == (m.r, m.c) {
                                continue;
                            }
                            let want = if i < m.r && j < m.c { m.at(i, j) } else { f64::MIN };
                            if !driver::real(w[k]).is_some_and(|x| near(x, want)) {
                                return fail(format!("{want} at ({i},{j}), got {:?}", driver::real(w[k])));
                            }
                            k += 1;
                        }
                    }
                    if mode == 1 {
                        if (w[0] == "square") != (m.r == m.c) {
                            return fail(format!("a {}x{} matrix", m.r, m.c));
                        }
                        let text = w[k..].join(" ");
                        let inner = text.strip_prefix('[').and_then(|t| t.strip_suffix(']')).unwrap_or("");
                        let rows: Vec<Vec<f64>> = inner.split('/').map(|r| r.split(',').map(|x| x.trim().parse().unwrap_or(f64::MAX)).collect()).collect();
                        let same = rows.len() == m.r && (0..m.r).all(|i| rows[i].len() == m.c && (0..m.c).all(|j| (rows[i][j] - m.at(i, j)).abs() <= 1e-5 * m.at(i, j).abs().max(1e-3)));
                        if !same {
                            return fail(format!("the text of {m:?}"));
                        }
                    }
                }
                _ => {}
            }
        }
        match got.get(self.expect.len()) {
            Some(rest) => Err(rest.to_string()),
            None => Ok(()),
        }
    }
}

/// Runs all scripts and judges their results.
fn decide(mode: usize, states: &[State], st: &mut Stats) -> Result<(), String> {
    let scripts: Vec<String> = states.iter().map(|s| s.script.join(";")).collect();
    for s in states {
        st.steps(s.expect.len() as u64);
    }
    let lines = driver::run("matrix", NAMES[mode], &scripts)
        .map_err(|(k, why)| format!("{}: {why}", scripts.get(k).map_or("", |s| s.as_str())))?;
    for (s, l) in states.iter().zip(&lines) {
        s.judge(mode, l).map_err(|e| format!("{:?}: {e}", s.script))?;
        st.state(util::fnv(l.as_bytes()));
    }
    st.outcome("scripts run");
    Ok(())
}

/// Every continuation of a state by up to `more` operations.
fn extend(s: &State, ops: &[Op], more: usize, out: &mut Vec<State>) {
    let mut done = s.clone();
    done.finish();
    out.push(done);
    if more == 0 {
        return;
    }
    for op in ops {
        let mut t = s.clone();
        if t.apply(*op).is_some() {
            extend(&t, ops, more - 1, out);
        }
    }
}

fn alphabet(small: bool) -> Vec<Op> {
    use Op::*;
    let mut v = vec![New(2, 1, 2), New(0, FAR, FAR), Ident(2, 2), Ident(0, 3), Ident(1, FAR)];
    for k in 0..3 {
        v.extend([Drop(k), Scale(k, 3.0), Transpose(k, k), Invert(k), Many(k, 0), Set(k, 0, 1, 5.0), RowAdd(k, 0, 1)]);
        if !small {
            v.extend([
                RowScale(k, 1, -2.0), RowScale(k, FAR, 2.0), RowAdd(k, 5, 0), RowAddScaled(k, 1, 0, 2.0), RowAddScaled(k, 0, 9, 2.0), Trace(k), Set(k, 0, 4, 5.0), Get(k, 1, 1),
                Get(k, 0, FAR), Sub(2, k, 0, 0, 0, 1), Sub(k, k, 0, 1, 9, 1), Sub(0, k, 1, 0, 0, 0),
            ]);
        }
    }
    for (k, a) in [(0, 1), (1, 0), (2, 0), (0, 2), (0, 0), (2, 1)] {
        v.extend([Copy(k, a), Assign(k, a), Transpose(k, a)]);
    }
    for (k, a, b) in [(2, 0, 1), (0, 0, 1), (1, 0, 1), (0, 0, 0), (2, 1, 0), (1, 2, 1), (2, 0, 2)] {
        v.extend([Mul(k, a, b), Aug(k, a, b)]);
    }
    v.extend([Chain(2, 0, 0, 1), Chain(0, 0, 1, 0), Chain(1, 0, 1, 2), Chain(2, 1, 0, 0)]);
    v
}

fn history(mode: usize, first: Op, ops: &[Op], depth: usize, st: &mut Stats) -> Result<(), String> {
    let mut s = State::default();
    s.start(0, &F::pattern(2, 2, 0));
    s.start(1, &F::pattern(2, 3, 1));
    if s.apply(first).is_none() {
        return Ok(());
    }
    let mut all = vec![];
    extend(&s, ops, depth - 1, &mut all);
    for part in all.chunks(20_000) {
        decide(mode, part, st)?;
    }
    Ok(())
}

pub fn g05(ctx: &mut Ctx) {
    // as every language the header is for
    for compiler in ["g++", "clang++"] {
        for std in ["c++11", "c++14", "c++17", "c++20"] {
            ctx.case(
                || format!("{compiler} {std}"),
                |st| {
                    st.step();
                    driver::compiles(
                        compiler,
                        &["-w", "-x", "c++", &format!("-std={std}"), "-I/repo/gmatlib"],
                        "#include \"gmatlib.h\"\n#include \"gmatlib.h\"\nint main() { ngineer::Matrix m(2, 2), n(m); n = m * ngineer::Matrix::Identity(2) | m.transpose(); n.inplace_scale(m[{ 0, 0 }]); std::stringstream s; s << n; return s.str().empty(); }\n",
                        "cpp",
                    )
                },
            );
        }
    }
    for compiler in ["gcc", "clang"] {
        for std in ["c99", "c11", "c17"] {
            ctx.case(
                || format!("{compiler} {std}"),
                |st| {
                    st.step();
                    driver::compiles(
                        compiler,
                        &["-w", "-x", "c", &format!("-std={std}"), "-I/repo/gmatlib"],
                        "#include \"gmatlib.h\"\n#include \"gmatlib.h\"\nint main(void) { void *m = new_double_matrix(2, 2); free_double_matrix(m); return 0; }\n",
                        "c",
                    )
                },
            );
        }
    }
    for mode in 0..2 {
        let ops = alphabet(false);
        for &first in &ops {
            ctx.case(|| format!("{}: {first:?} then every 2 more of {} calls", NAMES[mode], ops.len()), |st| history(mode, first, &ops, 3, st));
        }
        if !ctx.quick() {
            let ops = alphabet(true);
            for &first in &ops {
                ctx.case(|| format!("{}: {first:?} then every 3 more of {} calls", NAMES[mode], ops.len()), |st| history(mode, first, &ops, 4, st));
            }
        }
        // every shape, with every argument of every operation
        let top = ctx.pick(4, 6);
        for r in 1..=top {
            for c in 1..=top {
                ctx.case(
                    || format!("{}: every call on a {r}x{c} matrix", NAMES[mode]),
                    |st| {
                        let idx: Vec<u32> = (0..r.max(c) as u32 + 2).chain([1 << 16, 1 << 31, FAR]).collect();
                        let mut ops = vec![Op::Trace(0), Op::Transpose(0, 0), Op::Transpose(1, 0), Op::Invert(0), Op::Copy(1, 0), Op::Many(1, 0), Op::Scale(0, -0.25), Op::New(0, r as u32, c as u32), Op::Ident(0, r as u32)];
                        for &i in &idx {
                            ops.push(Op::RowScale(0, i, 0.5));
                            for &j in &idx {
                                ops.extend([Op::Get(0, i, j), Op::Set(0, i, j, 2.5), Op::RowAdd(0, i, j), Op::RowAddScaled(0, i, j, -1.5)]);
                                for &k in &idx {
                                    for &l in &idx {
                                        ops.push(Op::Sub(1, 0, i, j, k, l));
                                    }
                                }
                            }
                        }
                        let mut all = vec![];
                        for op in ops {
                            let mut s = State::default();
                            s.start(0, &F::pattern(r, c, 2));
                            if s.apply(op).is_some() {
                                s.finish();
                                all.push(s);
                            }
                        }
                        for r2 in 1..=top {
                            for c2 in 1..=top {
                                for op in [Op::Mul(2, 0, 1), Op::Aug(2, 0, 1), Op::Mul(0, 0, 1), Op::Aug(1, 0, 1), Op::Assign(0, 1), Op::Chain(2, 0, 1, 0), Op::Chain(2, 0, 1, 1)] {
                                    let mut s = State::default();
                                    s.start(0, &F::pattern(r, c, 1));
                                    s.start(1, &F::pattern(r2, c2, 2));
                                    if s.apply(op).is_some() {
                                        s.finish();
                                        all.push(s);
                                    }
                                }
                            }
                        }
                        decide(mode, &all, st)
                    },
                );
            }
        }
        // inversions that fail, for each reason
        for n in 1..=4usize {
            ctx.case(
                || format!("{}: singular {n}x{n} matrices", NAMES[mode]),
                |st| {
                    let mut all = vec![];
                    for (salt, m) in (0..6).map(|salt| (salt, F::build(n, n, |i, j| if n == 1 { 0.0 } else { (i as f64 + 1.0) * ((j + salt) % 4) as f64 }))) {
                        let mut s = State::default();
                        s.start(0, &m);
                        s.apply(Op::Copy(1, 0));
                        s.apply(Op::Invert(0));
                        s.apply(Op::Transpose(2, 0));
                        s.apply(Op::Assign(0, 1));
                        s.apply(Op::Set(0, 0, 0, salt as f64));
                        s.finish();
                        all.push(s);
                    }
                    // elements of the inverse that no double can hold
                    let mut s = State::default();
                    s.start(0, &F::build(n, n, |i, j| if i == j { 1e-310 } else { 0.0 }));
                    s.add("inv 0".into(), Expect::Refused);
                    s.finish();
                    all.push(s);
                    decide(mode, &all, st)
                },
            );
        }
    }
}
