//! E11: programs in C and C++ that use the library through geqslib.h. The scripts of
//! calls are enumerated and judged here, and run by mc/cxx/equations.cpp.

use crate::capi::{unknowns, Consts, CONSTS, MORE, SINGLE, SPECS};
use crate::system::{regular, residual, well_formed, Model};
use mc_core::{driver, util, Ctx, Stats};
use std::collections::{BTreeMap, BTreeSet};

const NAMES: [&str; 2] = ["c", "c++"];
/// pi is a constant of the standard context only.
const FIRST: [&str; 4] = ["x + y = 9", "y = 2*pi", "x + =", "y = k"];
const INF: f64 = f64::INFINITY;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Context(usize, bool),
    Const(usize, usize),
    FreeContext(usize),
    SolveEq(usize, usize),
    Builder(usize, usize, usize),
    Constrain(usize, usize),
    Debug(usize),
    Build(usize, usize),
    FreeBuilder(usize),
    Specify(usize, usize),
    Solve(usize),
    FreeSystem(usize),
    /// of C++: the context, builder or system moves to another place
    Move(&'static str, usize),
}

#[derive(Clone)]
enum Expect {
    Done,
    Refused,
    Status(&'static [&'static str]),
    /// an equation in a context
    One(&'static str, Consts),
    All(System),
    /// one value, within a distance
    Near(String, f64, f64),
    Null,
}

#[derive(Clone)]
struct System {
    m: Model,
    consts: Consts,
    doms: BTreeMap<String, (f64, f64)>,
}

/// Objects of C++ stay in their place when they are used up.
#[derive(Clone)]
enum Slot<T> {
    Empty,
    Spent,
    Live(T),
}

use Slot::*;

#[derive(Clone)]
struct State {
    mode: usize,
    contexts: [Option<Consts>; 2],
    builders: [Slot<(Model, Consts)>; 2],
    systems: [Slot<System>; 2],
    script: Vec<String>,
    expect: Vec<Expect>,
}

fn tilde(s: &str) -> String {
    s.replace(' ', "~")
}

impl State {
    fn new(mode: usize) -> State {
        State { mode, contexts: [None, None], builders: [Empty, Empty], systems: [Empty, Empty], script: vec![], expect: vec![] }
    }

    fn add(&mut self, script: String, e: Expect) {
        self.script.push(script);
        self.expect.push(e);
    }

    fn spent<T>(&self) -> Slot<T> {
        if self.mode == 1 {
            Spent
        } else {
            Empty
        }
    }

    /// `None`: does not apply here.
    fn apply(&mut self, op: Op) -> Option<()> {
        match op {
            Op::Context(k, std) => {
                let mut consts = Consts::new();
                if std {
                    consts.insert("pi".into(), std::f64::consts::PI);
                    consts.insert("e".into(), std::f64::consts::E);
                }
                self.contexts[k] = Some(consts);
                self.add(format!("context {k} {}", std as u8), Expect::Done)
            }
            Op::Const(k, c) => {
                let (name, v) = CONSTS[c];
                self.contexts[k].as_mut()?.insert(name.into(), v);
                self.add(format!("const {k} {name} {}", driver::bits(v)), Expect::Done)
            }
            Op::FreeContext(k) => {
                self.contexts[k].take()?;
                self.add(format!("fcontext {k}"), Expect::Done)
            }
            Op::SolveEq(k, e) => {
                if self.mode == 1 {
                    return None;
                }
                let consts = self.contexts[k].clone()?;
                let eq = SINGLE[e];
                let ok = well_formed(eq) && unknowns(eq, &consts).len() == 1;
                let n = |x: f64| driver::bits(x);
                self.add(
                    format!("equation {k} {} {} {} {} {} 60", tilde(eq), n(1.0), n(-INF), n(INF), n(1e-9)),
                    if ok { Expect::One(eq, consts) } else { Expect::Null },
                )
            }
            Op::Builder(k, c, e) => {
                let consts = self.contexts[c].clone()?;
                let ok = well_formed(FIRST[e]);
                if ok {
                    let mut m = Model { known: consts.keys().cloned().collect(), vars: BTreeSet::new(), eqs: vec![] };
                    m.take(FIRST[e]);
                    self.builders[k] = Live((m, consts));
                }
                self.add(format!("builder {k} {c} {}", tilde(FIRST[e])), if ok { Expect::Done } else { Expect::Refused })
            }
            Op::Constrain(k, e) => {
                let eq = MORE[e];
                let want: &[&str] = match &mut self.builders[k] {
                    Empty => return None,
                    Spent => &["error"],
                    Live((m, _)) => {
                        let ok = well_formed(eq);
                        match (m.full(), m.unknown(eq).len() > 1, ok) {
                            (true, _, true) => &["over"],
                            (true, _, false) => &["over", "error"],
                            (_, true, true) => &["no"],
                            (_, true, false) => &["no", "error"],
                            (_, _, true) => {
                                m.take(eq);
                                &["yes"]
                            }
                            _ => &["error"],
                        }
                    }
                };
                self.add(format!("constrain {k} {}", tilde(eq)), Expect::Status(want))
            }
            Op::Debug(k) => {
                if matches!(self.builders[k], Empty) {
                    return None;
                }
                self.add(format!("debug {k}"), Expect::Done)
            }
            Op::Build(s, k) => {
                let b = std::mem::replace(&mut self.builders[k], Empty);
                let e = match b {
                    Empty => return None,
                    Live((m, consts)) if m.full() => {
                        self.systems[s] = Live(System { m, consts, doms: BTreeMap::new() });
                        Expect::Done
                    }
                    _ => Expect::Refused,
                };
                self.builders[k] = self.spent();
                self.add(format!("build {s} {k}"), e)
            }
            Op::FreeBuilder(k) => {
                if matches!(self.builders[k], Empty) {
                    return None;
                }
                self.builders[k] = Empty;
                self.add(format!("fbuilder {k}"), Expect::Done)
            }
            Op::Specify(k, v) => {
                let (n, g, lo, hi) = SPECS[v];
                let ok = match &mut self.systems[k] {
                    Empty => return None,
                    Spent => false,
                    Live(s) => {
                        let ok = s.m.vars.contains(n);
                        if ok {
                            s.doms.insert(n.into(), (lo, hi));
                        }
                        ok
                    }
                };
                self.add(format!("specify {k} {n} {} {} {}", driver::bits(g), driver::bits(lo), driver::bits(hi)), if ok { Expect::Done } else { Expect::Refused })
            }
            Op::Solve(k) => {
                let e = match std::mem::replace(&mut self.systems[k], Empty) {
                    Empty => return None,
                    Spent => Expect::Null,
                    Live(s) => Expect::All(s),
                };
                self.systems[k] = self.spent();
                self.add(format!("solve {k} {} 60", driver::bits(1e-7)), e)
            }
            Op::Move(what, k) => {
                let there = match what {
                    "context" => self.contexts[k].is_some(),
                    "builder" => !matches!(self.builders[k], Empty),
                    _ => !matches!(self.systems[k], Empty),
                };
                if self.mode == 0 || !there {
                    return None;
                }
                self.add(format!("m{what} {k}"), Expect::Done)
            }
            Op::FreeSystem(k) => {
                if matches!(self.systems[k], Empty) {
                    return None;
                }
                self.systems[k] = Empty;
                self.add(format!("fsystem {k}"), Expect::Done)
            }
        }
        Some(())
    }

    fn finish(&mut self) {
        for k in 0..2 {
            let want: &[&str] = match &self.builders[k] {
                Empty => continue,
                Spent => &["error"],
                Live((m, _)) if m.full() => &["yes"],
                Live(_) => &["no"],
            };
            self.add(format!("full {k}"), Expect::Status(want));
        }
    }

    fn judge(&self, line: &str, st: &mut Stats) -> Result<(), String> {
        let got: Vec<&str> = line.split(';').collect();
        for (i, e) in self.expect.iter().enumerate() {
            let g = *got.get(i).ok_or("a result is missing")?;
            verdict(e, g, st).map_err(|m| format!("call {i} ({}) gives {:?}: {m}", self.script[i], util::clip(g, 300)))?;
        }
        match got.get(self.expect.len()) {
            Some(rest) => Err(rest.to_string()),
            None => Ok(()),
        }
    }
}

fn values(text: &str) -> Result<BTreeMap<String, f64>, String> {
    let mut all = BTreeMap::new();
    for l in text.split(' ') {
        let (n, v) = l.split_once('=').ok_or("no '='")?;
        if all.insert(n.to_string(), v.parse().map_err(|_| "no number")?).is_some() {
            return Err(format!("{n} appears twice"));
        }
    }
    Ok(all)
}

fn verdict(e: &Expect, g: &str, st: &mut Stats) -> Result<(), String> {
    let demand = |ok: bool, what: String| if ok { Ok(()) } else { Err(format!("expected {what}")) };
    match e {
        Expect::Done => demand(g == "ok", "success".into()),
        Expect::Refused => demand(g.starts_with("ex "), "a failure with a message".into()),
        Expect::Null => demand(g == "null", "no solution".into()),
        Expect::Status(s) => demand(s.contains(&g), format!("one of {s:?}")),
        Expect::One(eq, consts) => {
            let mut v = values(g)?;
            let u = unknowns(eq, consts);
            demand(v.len() == 1 && v.keys().all(|n| u.contains(n)), format!("a value of {u:?}"))?;
            v.extend(consts.clone());
            st.outcome("equation solved");
            demand(residual(eq, &v).is_some_and(|r| r.abs() <= 1e-8), "a solution".into())
        }
        Expect::Near(n, x, d) => {
            let v = values(g)?;
            demand(v.len() == 1 && v.get(n).is_some_and(|y| (x - y).abs() <= *d), format!("{n} = {x}"))
        }
        Expect::All(s) => {
            if g == "null" {
                st.outcome("system refused");
                let must = s.doms.values().all(|d| d.1 > 90.0) && regular(&s.m, &s.consts);
                return demand(!must, "the solution of a regular linear system".into());
            }
            let mut v = values(g)?;
            demand(v.keys().cloned().collect::<BTreeSet<_>>() == s.m.vars, format!("values of {:?}", s.m.vars))?;
            for (n, (lo, hi)) in &s.doms {
                demand(*lo <= v[n] && v[n] <= *hi, format!("{n} in [{lo}, {hi}]"))?;
            }
            v.extend(s.consts.clone());
            for eq in &s.m.eqs {
                demand(residual(eq, &v).is_some_and(|r| r.abs() < 1e-6), format!("a solution of {eq:?}"))?;
            }
            st.outcome("system solved");
            Ok(())
        }
    }
}

fn decide(mode: usize, states: &[State], st: &mut Stats) -> Result<(), String> {
    let scripts: Vec<String> = states.iter().map(|s| s.script.join(";")).collect();
    let lines = driver::run("equations", NAMES[mode], &scripts)
        .map_err(|(k, why)| format!("{}: {why}", scripts.get(k).map_or("", |s| s.as_str())))?;
    for (s, l) in states.iter().zip(&lines) {
        st.steps(s.expect.len() as u64);
        s.judge(l, st).map_err(|e| format!("{:?}: {e}", s.script))?;
        st.state(util::fnv(s.script.join(";").as_bytes()));
    }
    Ok(())
}

/// Every continuation of a state by up to `more` operations.
fn extend(s: &State, ops: &[Op], more: usize, out: &mut Vec<State>) {
    let mut done = s.clone();
    done.finish();
    out.push(done);
    if more == 0 {
        return;
    }
    for op in ops {
        let mut t = s.clone();
        if t.apply(*op).is_some() {
            extend(&t, ops, more - 1, out);
        }
    }
}

const STARTS: [&[Op]; 4] = [
    &[Op::Context(0, true)],
    &[Op::Context(0, true), Op::Builder(0, 0, 0), Op::Context(1, false)],
    &[Op::Context(0, true), Op::Builder(0, 0, 0), Op::Constrain(0, 0), Op::Build(0, 0), Op::Const(0, 0), Op::Builder(1, 0, 1)],
    &[Op::Context(0, true), Op::Builder(0, 0, 0), Op::Constrain(0, 0), Op::FreeContext(0), Op::Build(1, 0), Op::Solve(1)],
];

fn alphabet(small: bool) -> Vec<Op> {
    let few = |n: usize, m: usize| if small { m } else { n };
    let mut v = vec![];
    for i in 0..2 {
        v.extend([Op::Context(i, true), Op::Context(i, false), Op::FreeContext(i)]);
        v.extend((0..few(CONSTS.len(), 1)).map(|k| Op::Const(i, k)));
        v.extend((0..few(SINGLE.len(), 2)).map(|k| Op::SolveEq(i, k)));
        for j in 0..2 {
            v.extend((0..few(FIRST.len(), 2)).map(|k| Op::Builder(i, j, k)));
            v.push(Op::Build(i, j));
        }
        v.extend((0..few(MORE.len(), 3)).map(|k| Op::Constrain(i, k)));
        v.extend([Op::Debug(i), Op::FreeBuilder(i)]);
        v.extend((0..few(SPECS.len(), 2)).map(|k| Op::Specify(i, k)));
        v.extend([Op::Solve(i), Op::FreeSystem(i)]);
        v.extend(["context", "builder", "system"].map(|w| Op::Move(w, i)));
    }
    v
}

pub fn e11(ctx: &mut Ctx) {
    for compiler in ["g++", "clang++"] {
        for std in ["c++11", "c++14", "c++17", "c++20"] {
            ctx.case(
                || format!("{compiler} {std}"),
                |st| {
                    st.step();
                    driver::compiles(
                        compiler,
                        &["-w", "-x", "c++", &format!("-std={std}"), "-I/repo/geqslib"],
                        "#include \"geqslib.h\"\n#include \"geqslib.h\"\nint main() { ngineer::ContextHashMap c; c.add_const(\"k\", 1.0); ngineer::SystemBuilder b(\"x + k = 2\", c); b.try_constrain_with(\"y = x\"); return b.is_fully_constrained() == ngineer::SystemBuilderConstraintStatus::Constrained && b.build_system().specify_variable(\"x\", 1.0, 0.0, 5.0); }\n",
                        "cpp",
                    )
                },
            );
        }
        ctx.case(
            || format!("{compiler}: both headers in one program"),
            |st| {
                st.step();
                driver::compiles(compiler, &["-w", "-x", "c++", "-I/repo/geqslib", "-I/repo/gmatlib"], "#include \"geqslib.h\"\n#include \"gmatlib.h\"\nint main() { ngineer::ContextHashMap c; ngineer::Matrix m(1, 1); return 0; }\n", "cpp")
            },
        );
    }
    for compiler in ["gcc", "clang"] {
        for std in ["c99", "c11", "c17"] {
            ctx.case(
                || format!("{compiler} {std}"),
                |st| {
                    st.step();
                    driver::compiles(
                        compiler,
                        &["-w", "-x", "c", &format!("-std={std}"), "-I/repo/geqslib", "-I/repo/gmatlib"],
                        "#include \"geqslib.h\"\n#include \"geqslib.h\"\n#include \"gmatlib.h\"\nint main(void) { void *c = new_default_context_hash_map(); free_context_hash_map(c); return 0; }\n",
                        "c",
                    )
                },
            );
        }
    }
    for mode in 0..2 {
        let plans: &[(bool, usize)] = if ctx.quick() { &[(false, 3)] } else { &[(false, 3), (true, 4)] };
        for &(small, depth) in plans {
            let ops = alphabet(small);
            for (k, start) in STARTS.iter().enumerate() {
                for &first in &ops {
                    ctx.case(
                        || format!("{}: start {k}, {first:?} then every {} more of {} calls", NAMES[mode], depth - 1, ops.len()),
                        |st| {
                            let mut s = State::new(mode);
                            for op in *start {
                                s.apply(*op).ok_or("start")?;
                            }
                            if s.apply(first).is_none() {
                                return Ok(());
                            }
                            let mut all = vec![];
                            extend(&s, &ops, depth - 1, &mut all);
                            for part in all.chunks(10_000) {
                                decide(mode, part, st)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
        // numbers of every size in every place: value, guess, domain, margin and limit
        let b = driver::bits;
        for k in [3f64, -0.1, 1.0 / 3.0, 16777217.0, 4294967297.25, -2147483649.5, 0.001953125] {
            for limit in [60u64, 255, 256, 257, 512, 32768, 65536, 65537, 131072, 1 << 24, 1 << 31, (1 << 32) - 1] {
                ctx.case(
                    || format!("{}: constant {k:e}, limit {limit}", NAMES[mode]),
                    |st| {
                        let mut all = vec![];
                        let d = k.abs();
                        for (guess, lo, hi, margin) in [
                            (k, -INF, INF, d / 1e9),
                            (k + d / 64.0, k - d, k + d, d / 1e9),
                            (k - d / 2.0, k - d * 4.0, k + d / 4.0, d / 1e8),
                        ] {
                            let mut s = State::new(mode);
                            s.apply(Op::Context(0, false)).unwrap();
                            s.add(format!("const 0 k {}", b(k)), Expect::Done);
                            let near = Expect::Near("x".into(), k, margin * 4.0);
                            let numbers = format!("{} {} {}", b(guess), b(lo), b(hi));
                            if mode == 0 {
                                s.add(format!("equation 0 x~-~k~=~0 {numbers} {} {limit}", b(margin)), near.clone());
                            }
                            let mut t = State::new(mode);
                            t.apply(Op::Context(0, false)).unwrap();
                            t.add(format!("const 0 k {}", b(k)), Expect::Done);
                            t.add("builder 0 0 x~-~k~=~0".into(), Expect::Done);
                            t.add("build 1 0".into(), Expect::Done);
                            t.add(format!("specify 1 x {numbers}"), Expect::Done);
                            t.add(format!("solve 1 {} {limit}", b(margin)), near);
                            all.extend([s, t]);
                        }
                        decide(mode, &all, st)
                    },
                );
            }
        }
        // long names and texts
        for n in [1usize, 2, 7, 8, 15, 16, 22, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 5000] {
            ctx.case(
                || format!("{}: names and texts of {n} characters", NAMES[mode]),
                |st| {
                    let k = "k".repeat(n);
                    let x = "x".repeat(n);
                    let eq = format!("{}{x} - {k} = {}", " ".repeat(n), vec!["1"; n].join(" + "));
                    let near = Expect::Near(x.clone(), n as f64 + 2.5, 1e-6 * n as f64 + 1e-6);
                    let numbers = format!("{} {} {}", b(1.0), b(-1e6), b(1e6));
                    let mut s = State::new(mode);
                    s.apply(Op::Context(0, true)).unwrap();
                    s.add(format!("const 0 {k} {}", b(2.5)), Expect::Done);
                    s.add(format!("builder 0 0 {}", tilde(&eq)), Expect::Done);
                    s.add(format!("constrain 0 {}", tilde(&eq)), Expect::Status(&["over"]));
                    s.add("build 1 0".into(), Expect::Done);
                    s.add(format!("specify 1 {x}x {numbers}"), Expect::Refused);
                    s.add(format!("specify 1 {x} {numbers}"), Expect::Done);
                    s.add(format!("solve 1 {} 60", b(1e-7)), near.clone());
                    if mode == 0 {
                        s.add(format!("equation 0 {} {numbers} {} 60", tilde(&eq), b(1e-7)), near);
                    } else {
                        // the reason names the equation
                        s.add(format!("builder 0 0 {}", tilde(&format!("{eq} +"))), Expect::Refused);
                    }
                    decide(mode, &[s], st)
                },
            );
        }
        // large systems
        for n in [1usize, 2, 3, 5, 8, 9, 16, 17] {
            ctx.case(
                || format!("{}: {n} equations", NAMES[mode]),
                |st| {
                    let sol: Vec<f64> = (0..n).map(|i| ((i * 7) % 11) as f64 - 4.5).collect();
                    let eq = |i: usize| match n {
                        1 => format!("3*v0 = {}", 3.0 * sol[0]),
                        _ => format!("3*v{i} + v{} = {}", (i + 1) % n, 3.0 * sol[i] + sol[(i + 1) % n]),
                    };
                    let mut s = State::new(mode);
                    s.apply(Op::Context(0, true)).unwrap();
                    s.add(format!("builder 0 0 {}", tilde(&eq(0))), Expect::Done);
                    let mut m = Model { known: BTreeSet::new(), vars: BTreeSet::new(), eqs: vec![] };
                    m.take(&eq(0));
                    for i in 1..n {
                        s.add("full 0".into(), Expect::Status(&["no"]));
                        s.add(format!("constrain 0 {}", tilde(&eq(i))), Expect::Status(&["yes"]));
                        m.take(&eq(i));
                    }
                    s.add("full 0".into(), Expect::Status(&["yes"]));
                    s.add("build 1 0".into(), Expect::Done);
                    let mut doms = BTreeMap::new();
                    for i in (0..n).step_by(3) {
                        s.add(format!("specify 1 v{i} {} {} {}", driver::bits(sol[i] + 0.5), driver::bits(sol[i] - 1.0), driver::bits(sol[i] + 95.0)), Expect::Done);
                        doms.insert(format!("v{i}"), (sol[i] - 1.0, sol[i] + 95.0));
                    }
                    s.add(format!("solve 1 {} 60", driver::bits(1e-8)), Expect::All(System { m, consts: Consts::new(), doms }));
                    decide(mode, &[s], st)
                },
            );
        }
    }
}
