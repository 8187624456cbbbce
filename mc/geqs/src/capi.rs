//! E10: histories of calls of the C interface over contexts, builders and systems.

use crate::system::{names, regular, residual, well_formed, Model};
use geqslib::ffi::*;
use mc_core::{alloc, clear_panic, util, Ctx, Stats};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_void, CStr, CString};

const INF: f64 = f64::INFINITY;

pub const SINGLE: [&str; 5] = ["x + 4 = 12", "x + k = 3", "x + = 1", "x = pi * 2", "a + b = 1"];
const FIRST: [&str; 3] = ["x + y = 9", "y = k", "x + ="];
pub const MORE: [&str; 4] = ["x - y = 4", "y + z = k", "w = (x", "u + v = 1"];
pub const CONSTS: [(&str, f64); 2] = [("k", 2.5), ("x", 1.25)];
/// name, guess, lo, hi
pub const SPECS: [(&str, f64, f64, f64); 4] = [("x", 3.0, 0.0, 100.0), ("x", 1.0, -2.0, 0.5), ("k", 1.0, 0.0, 2.0), ("y", 50.0, -INF, INF)];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Context(bool),
    Const(usize, usize),
    FreeContext(usize),
    SolveEq(usize, usize),
    Builder(usize, usize),
    Constrain(usize, usize),
    Build(usize),
    FreeBuilder(usize),
    Specify(usize, usize),
    Solve(usize),
    FreeSystem(usize),
}

pub type Consts = BTreeMap<String, f64>;

struct Sys {
    p: *mut c_void,
    m: Model,
    consts: Consts,
    doms: BTreeMap<String, (f64, f64)>,
}

#[derive(Default)]
struct Store {
    contexts: Vec<(*mut c_void, Consts)>,
    builders: Vec<(*mut c_void, Model, Consts)>,
    systems: Vec<Sys>,
}

fn c(s: &str) -> CString {
    CString::new(s).unwrap()
}

/// Reads and frees a returned string.
fn take_string(p: *const c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = unsafe { CStr::from_ptr(p) }.to_str().expect("solution is no text").to_string();
    unsafe { free_solution_string(p as *mut c_char) };
    Some(s)
}

pub fn unknowns(text: &str, consts: &Consts) -> BTreeSet<String> {
    names(text).into_iter().filter(|n| !consts.contains_key(n)).collect()
}

impl Store {
    /// `Ok(false)`: the operation does not apply here.
    fn apply(&mut self, op: Op, st: &mut Stats) -> Result<bool, String> {
        let have = match op {
            Op::Context(_) => self.contexts.len() < 3,
            Op::Const(i, _) | Op::FreeContext(i) | Op::SolveEq(i, _) => i < self.contexts.len(),
            Op::Builder(i, _) => i < self.contexts.len() && self.builders.len() < 3,
            Op::Constrain(i, _) | Op::Build(i) | Op::FreeBuilder(i) => i < self.builders.len(),
            Op::Specify(i, _) | Op::Solve(i) | Op::FreeSystem(i) => i < self.systems.len(),
        };
        if !have {
            return Ok(false);
        }
        st.step();
        match op {
            Op::Context(std) => {
                let p = unsafe { if std { new_default_context_hash_map() } else { new_context_hash_map() } };
                if p.is_null() {
                    return Err("no context".into());
                }
                let mut consts = Consts::new();
                if std {
                    consts.insert("pi".into(), std::f64::consts::PI);
                    consts.insert("e".into(), std::f64::consts::E);
                }
                self.contexts.push((p, consts));
            }
            Op::Const(i, k) => {
                let (name, v) = CONSTS[k];
                let text = c(name);
                unsafe { add_const_to_ctx(self.contexts[i].0, text.as_ptr(), v) };
                self.contexts[i].1.insert(name.into(), v);
            }
            Op::FreeContext(i) => unsafe { free_context_hash_map(self.contexts.remove(i).0) },
            Op::SolveEq(i, k) => {
                let (p, consts) = &self.contexts[i];
                let text = c(SINGLE[k]);
                let got = take_string(solve_equation(text.as_ptr(), *p, 1.0, -INF, INF, 1e-9, 60));
                let u = unknowns(SINGLE[k], consts);
                let ok = well_formed(SINGLE[k]) && u.len() == 1;
                match (got, ok) {
                    (None, false) => st.outcome("equation refused"),
                    (Some(s), true) => {
                        let (n, v) = s.split_once('=').ok_or("no '=' in the solution")?;
                        let v: f64 = v.parse().map_err(|_| format!("solution {s:?}"))?;
                        let mut all = consts.clone();
                        all.insert(n.to_string(), v);
                        let r = residual(SINGLE[k], &all).ok_or("wrong variable")?;
                        if r.abs() > 1e-8 || !u.contains(n) {
                            return Err(format!("{:?} gives {s:?}", SINGLE[k]));
                        }
                        st.outcome("equation solved");
                    }
                    (g, _) => return Err(format!("{:?} in the context {consts:?} gives {g:?}", SINGLE[k])),
                }
            }
            Op::Builder(i, k) => {
                let (p, consts) = &self.contexts[i];
                let text = c(FIRST[k]);
                let b = new_system_builder(text.as_ptr(), *p);
                match (b.is_null(), well_formed(FIRST[k])) {
                    (true, false) => {}
                    (false, true) => {
                        let mut m = Model { known: consts.keys().cloned().collect(), vars: BTreeSet::new(), eqs: vec![] };
                        m.take(FIRST[k]);
                        self.builders.push((b as *mut c_void, m, consts.clone()));
                    }
                    (null, _) => return Err(format!("builder for {:?}: {}", FIRST[k], if null { "NULL" } else { "not NULL" })),
                }
            }
            Op::Constrain(i, k) => {
                let (p, m, _) = &mut self.builders[i];
                let text = c(MORE[k]);
                let got = try_constrain_with(*p, text.as_ptr());
                let ok = well_formed(MORE[k]);
                let many = m.unknown(MORE[k]).len() > 1;
                let want: &[i32] = match (m.full(), many, ok) {
                    (true, _, true) => &[2],
                    (true, _, false) => &[2, -1],
                    (_, true, true) => &[0],
                    (_, true, false) => &[0, -1],
                    (_, _, true) => &[1],
                    _ => &[-1],
                };
                if !want.contains(&got) {
                    return Err(format!("status {got}, expected {want:?}"));
                }
                if got == 1 {
                    m.take(MORE[k]);
                }
            }
            Op::Build(i) => {
                let (p, m, consts) = self.builders.remove(i);
                let s = build_system(p);
                match (s.is_null(), m.full()) {
                    (true, false) => {}
                    (false, true) => self.systems.push(Sys { p: s as *mut c_void, m, consts, doms: BTreeMap::new() }),
                    (null, full) => return Err(format!("NULL is {null} for a system that is fully constrained: {full}")),
                }
            }
            Op::FreeBuilder(i) => unsafe { free_system_builder(self.builders.remove(i).0) },
            Op::Specify(i, k) => {
                let s = &mut self.systems[i];
                let (n, g, lo, hi) = SPECS[k];
                let text = c(n);
                let got = specify_variable(s.p, text.as_ptr(), g, lo, hi);
                let want = if s.m.vars.contains(n) { 1 } else { -1 };
                if got != want {
                    return Err(format!("status {got}, expected {want}"));
                }
                if want == 1 {
                    s.doms.insert(n.to_string(), (lo, hi));
                }
            }
            Op::Solve(i) => {
                let s = self.systems.remove(i);
                match take_string(solve_system(s.p, 1e-7, 60)) {
                    Some(text) => {
                        let mut all = s.consts.clone();
                        let mut vars = BTreeSet::new();
                        for l in text.split('\n') {
                            let (n, v) = l.split_once('=').ok_or(format!("line {l:?} of the solution"))?;
                            let v: f64 = v.parse().map_err(|_| format!("line {l:?} of the solution"))?;
                            if let Some((lo, hi)) = s.doms.get(n) {
                                if !(*lo <= v && v <= *hi) {
                                    return Err(format!("{n} = {v} is outside of [{lo}, {hi}]"));
                                }
                            }
                            vars.insert(n.to_string());
                            all.insert(n.to_string(), v);
                        }
                        if vars != s.m.vars {
                            return Err(format!("solution {text:?} for the variables {:?}", s.m.vars));
                        }
                        for e in &s.m.eqs {
                            if !residual(e, &all).is_some_and(|r| r.abs() < 1e-6) {
                                return Err(format!("solution {text:?} does not satisfy {e:?}"));
                            }
                        }
                        st.outcome("system solved");
                    }
                    None => {
                        st.outcome("system refused");
                        if s.doms.values().all(|d| d.1 > 90.0) && regular(&s.m, &s.consts) {
                            return Err("NULL for a regular linear system".into());
                        }
                    }
                }
            }
            Op::FreeSystem(i) => unsafe { free_system(self.systems.remove(i).p) },
        }
        for (i, (p, m, _)) in self.builders.iter().enumerate() {
            let got = is_fully_constrained(*p);
            if got != m.full() as i32 {
                return Err(format!("builder {i}: fully constrained is {got}, equations {:?}", m.eqs));
            }
        }
        Ok(true)
    }

    fn free(&mut self) {
        unsafe {
            for (p, _) in self.contexts.drain(..) {
                free_context_hash_map(p);
            }
            for (p, ..) in self.builders.drain(..) {
                free_system_builder(p);
            }
            for s in self.systems.drain(..) {
                free_system(s.p);
            }
        }
    }

    fn hash(&self) -> u64 {
        let mut t = String::new();
        for (_, k) in &self.contexts {
            t += &format!("c{:?}", k.keys());
        }
        for (_, m, k) in &self.builders {
            t += &format!("b{:?}{:?}", m.eqs, k.keys());
        }
        for s in &self.systems {
            t += &format!("s{:?}{:?}", s.m.eqs, s.doms);
        }
        util::fnv(t.as_bytes())
    }
}

/// Ready-made stores to start from, as histories.
const STARTS: [&[Op]; 3] = [
    &[Op::Context(true)],
    &[Op::Context(true), Op::Builder(0, 0), Op::Context(false)],
    &[Op::Context(true), Op::Builder(0, 0), Op::Constrain(0, 0), Op::Build(0), Op::Const(0, 0), Op::Builder(0, 1)],
];

/// `small`: one or two of each kind of argument.
fn alphabet(small: bool) -> Vec<Op> {
    let few = |n: usize, m: usize| if small { m } else { n };
    let mut v = vec![Op::Context(true), Op::Context(false)];
    for i in 0..2 {
        v.extend((0..few(CONSTS.len(), 1)).map(|k| Op::Const(i, k)));
        v.push(Op::FreeContext(i));
        v.extend((0..few(SINGLE.len(), 2)).map(|k| Op::SolveEq(i, k)));
        v.extend((0..few(FIRST.len(), 2)).map(|k| Op::Builder(i, k)));
        v.extend((0..few(MORE.len(), 3)).map(|k| Op::Constrain(i, k)));
        v.extend([Op::Build(i), Op::FreeBuilder(i)]);
        v.extend((0..few(SPECS.len(), 2)).map(|k| Op::Specify(i, k)));
        v.extend([Op::Solve(i), Op::FreeSystem(i)]);
    }
    v
}

/// `Ok(Some(i))`: operation `i` does not apply.
fn history(start: &[Op], ops: &[Op], st: &mut Stats) -> Result<Option<usize>, String> {
    let mut left = 0;
    // lazily built tables of the libraries stay allocated the first time only
    for _ in 0..3 {
        clear_panic();
        let before = alloc::balance();
        let mut s = Store::default();
        for (k, op) in start.iter().chain(ops).enumerate() {
            match s.apply(*op, st) {
                Ok(true) => {}
                Ok(false) => {
                    s.free();
                    return Ok(Some(k - start.len()));
                }
                Err(e) => {
                    s.free();
                    return Err(format!("call {k} ({op:?}): {e}"));
                }
            }
        }
        let h = s.hash();
        s.free();
        drop(s);
        clear_panic();
        left = alloc::balance() - before;
        st.state(h);
        // the statistics may have grown; repeat to be sure
        if left == 0 {
            return Ok(None);
        }
    }
    Err(format!("{left} memory blocks are left after everything was freed"))
}

pub fn e10(ctx: &mut Ctx) {
    histories(ctx, &alphabet(false), 4);
    if !ctx.quick() {
        histories(ctx, &alphabet(true), 5);
    }
    other(ctx);
    sizes(ctx);
}

/// Systems of many unknowns, long names and values of every size through the interface.
fn sizes(ctx: &mut Ctx) {
    let quiet = |f: &dyn Fn() -> Result<(), String>, st: &mut Stats| -> Result<(), String> {
        let mut left = 0;
        for _ in 0..4 {
            let before = alloc::balance();
            st.step();
            f()?;
            clear_panic();
            left = alloc::balance() - before;
            if left == 0 {
                return Ok(());
            }
        }
        Err(format!("{left} memory blocks are left"))
    };
    let parse = |t: &str| -> Result<BTreeMap<String, f64>, String> {
        let mut v = BTreeMap::new();
        for l in t.split('\n') {
            let (n, x) = l.split_once('=').ok_or_else(|| format!("solution {t:?}"))?;
            if v.insert(n.to_string(), x.parse::<f64>().map_err(|_| format!("solution {t:?}"))?).is_some() {
                return Err(format!("{n} appears twice in {t:?}"));
            }
        }
        Ok(v)
    };
    for n in [1usize, 2, 3, 5, 8, 9, 12, 16, 17, 20, 33] {
        for width in [1usize, 9, 80, 260] {
            if width == 260 && n > 9 {
                continue;
            }
            ctx.case(
                || format!("{n} unknowns with names of {width} letters or more"),
                |st| {
                    let name = |i: usize| format!("{}{i}", "v".repeat(width));
                    let sol: Vec<f64> = (0..n).map(|i| ((i * 7) % 11) as f64 * 10f64.powi((i % 5) as i32 - 2) - 4.0).collect();
                    let eqs: Vec<CString> = (0..n)
                        .map(|i| {
                            let j = (i + 1) % n;
                            if n == 1 {
                                c(&format!("3*{} = {}", name(i), 3.0 * sol[i]))
                            } else {
                                c(&format!("3*{} + {} = {}", name(i), name(j), 3.0 * sol[i] + sol[j]))
                            }
                        })
                        .collect();
                    let done = std::cell::Cell::new(0u64);
                    quiet(
                        &|| unsafe {
                            let cx = new_default_context_hash_map();
                            let b = new_system_builder(eqs[0].as_ptr(), cx) as *mut c_void;
                            for (i, e) in eqs.iter().enumerate().skip(1) {
                                if is_fully_constrained(b) != 0 {
                                    return Err(format!("constrained with {i} equations"));
                                }
                                let r = try_constrain_with(b, e.as_ptr());
                                if r != 1 {
                                    return Err(format!("status {r} for equation {i}"));
                                }
                            }
                            let s = build_system(b) as *mut c_void;
                            if s.is_null() {
                                return Err("not built".into());
                            }
                            for i in (0..n).step_by(3) {
                                let t = c(&name(i));
                                if specify_variable(s, t.as_ptr(), sol[i] + 0.5, sol[i] - 1.0, sol[i] + 1.0) != 1 {
                                    return Err(format!("variable {i} could not be specified"));
                                }
                            }
                            let v = parse(&take_string(solve_system(s, 1e-8, 60)).ok_or("not solved")?)?;
                            free_context_hash_map(cx);
                            if v.len() != n || (0..n).any(|i| !v.get(&name(i)).is_some_and(|g| util::close(*g, sol[i], 1e-6))) {
                                return Err(format!("solution {v:?}, expected {sol:?}"));
                            }
                            done.set(util::fnv_f64(&sol));
                            Ok(())
                        },
                        st,
                    )?;
                    st.state(done.get());
                    st.outcome("large system solved");
                    Ok(())
                },
            );
        }
    }
    // one equation: long names, many terms, values of every size
    for width in [1usize, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4096, 65535, 65536, 70000] {
        for terms in [0usize, 1, 100, 2000] {
            if width > 1024 && terms > 1 {
                continue;
            }
            for value in [3.0, 0.1, -2.5e-3, 1.0 / 3.0, -123456.789, 1.5e7, 7.25e9, 2.512345e-9, -7.0e-12, 4.000000000001e-6] {
                ctx.case(
                    || format!("a name of {width} letters, {terms} more terms, the value {value}"),
                    |st| {
                        let name = format!("n{}", "ame_"[..].chars().cycle().take(width - 1).collect::<String>());
                        let mut t = format!("{name} = {value}");
                        for i in 0..terms {
                            t += &format!(" + {i} - {i}");
                        }
                        let t = c(&t);
                        quiet(
                            &|| unsafe {
                                let cx = new_context_hash_map();
                                let got = take_string(solve_equation(t.as_ptr(), cx, value, -INF, INF, 1e-4, 60)).ok_or("not solved")?;
                                free_context_hash_map(cx);
                                let v = parse(&got)?;
                                // the guess is the root, so the string has to show it
                                let near = |g: &f64| (g - value).abs() <= 1e-9 * value.abs();
                                if v.len() != 1 || !v.get(&name).is_some_and(near) {
                                    return Err(format!("solution {:?}, expected {value}", v.values()));
                                }
                                if terms > 1 {
                                    return Ok(());
                                }
                                let cx = new_context_hash_map();
                                let s = build_system(new_system_builder(t.as_ptr(), cx) as *mut c_void) as *mut c_void;
                                if s.is_null() {
                                    return Err("not built".into());
                                }
                                free_context_hash_map(cx);
                                let n = c(&name);
                                if specify_variable(s, n.as_ptr(), value, -INF, INF) != 1 {
                                    return Err("not specified".into());
                                }
                                let v = parse(&take_string(solve_system(s, 1e-4, 60)).ok_or("not solved as a system")?)?;
                                let near = |g: &f64| (g - value).abs() <= 1e-6 * value.abs() + 1e-18;
                                if v.len() != 1 || !v.get(&name).is_some_and(near) {
                                    return Err(format!("solution {:?} as a system, expected {value}", v.values()));
                                }
                                Ok(())
                            },
                            st,
                        )?;
                        st.outcome("equation solved");
                        Ok(())
                    },
                );
            }
        }
    }
}

fn histories(ctx: &mut Ctx, ops: &[Op], depth: usize) {
    let n = ops.len();
    for (k, start) in STARTS.iter().enumerate() {
        for a in 0..n {
            for b in 0..n {
                let prefix = [ops[a], ops[b]];
                ctx.case(
                    || format!("start {k}, history {prefix:?} then every {} more of {n} calls", depth - 2),
                    |st| {
                        alloc::strict(true);
                        let mut d = vec![0; depth - 2];
                        loop {
                            let mut seq = prefix.to_vec();
                            seq.extend(d.iter().map(|i| ops[*i]));
                            let stop = match history(start, &seq, st).map_err(|e| format!("{seq:?}: {e}"))? {
                                Some(i) if i < 2 => return Ok(()),
                                Some(i) => i - 2,
                                None => depth - 3,
                            };
                            // the next sequence that differs at or before `stop`
                            let mut i = stop + 1;
                            d[i..].fill(0);
                            loop {
                                if i == 0 {
                                    return Ok(());
                                }
                                i -= 1;
                                d[i] += 1;
                                if d[i] < n {
                                    break;
                                }
                                d[i] = 0;
                            }
                        }
                    },
                );
            }
        }
    }
}

fn other(ctx: &mut Ctx) {
    // limits of every size, margins
    for limit in [0u32, 1, 2, 3, 60, 127, 128, 255, 256, 257, 512, 1024, 32768, 65535, 65536, 65537, 1 << 24, 1 << 31, u32::MAX] {
        for margin in [1e-9, 1e-3, 0.0, -1.0] {
            ctx.case(
                || format!("limit {limit}, margin {margin}"),
                |st| {
                    st.steps(2);
                    let cx = unsafe { new_default_context_hash_map() };
                    let (one, first, second) = (c("x^2 = 9"), c("x + y^2 = 9"), c("x - y = 3"));
                    let must = limit >= 60 && margin > 0.0;
                    let never = limit == 0 || margin <= 0.0;
                    let single = take_string(solve_equation(one.as_ptr(), cx, 1.0, -INF, INF, margin, limit as _));
                    let b = new_system_builder(first.as_ptr(), cx) as *mut c_void;
                    let status = try_constrain_with(b, second.as_ptr());
                    let s = build_system(b) as *mut c_void;
                    let both = take_string(solve_system(s, margin, limit as _));
                    unsafe { free_context_hash_map(cx) };
                    if status != 1 {
                        return Err(format!("status {status}"));
                    }
                    let near = |t: &str, roots: &[(&str, f64)]| {
                        t.split('\n').count() == roots.len()
                            && t.split('\n').all(|l| l.split_once('=').is_some_and(|(n, v)| roots.iter().any(|r| r.0 == n && v.parse::<f64>().is_ok_and(|v| (v - r.1).abs() < 0.01))))
                    };
                    for (got, roots) in [(single, &[("x", 3.0)][..]), (both, &[("x", 5.0), ("y", 2.0)][..])] {
                        match got {
                            Some(t) if never || !near(&t, roots) && margin < 0.01 => return Err(format!("solved as {t:?}")),
                            None if must => return Err("NULL although the iteration converges".into()),
                            Some(_) => st.outcome("solved within the limit"),
                            None => st.outcome("out of iterations"),
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // text that is not UTF-8, empty or long
    let bad: [&[u8]; 5] = [b"\xff\xfe = x\0", b"\0", b"=\0", b"x = \xc3\0", b"\xf0\x9f\x98\x80 = 1\0"];
    for (i, t) in bad.iter().enumerate() {
        ctx.case(
            || format!("unusual text {i}"),
            |st| {
                st.steps(4);
                let p = t.as_ptr() as *const c_char;
                let mut left = 0;
                for _ in 0..3 {
                    let before = alloc::balance();
                    unsafe {
                        let cx = new_default_context_hash_map();
                        if take_string(solve_equation(p, cx, 1.0, -INF, INF, 1e-6, 20)).is_some() {
                            return Err("solved".into());
                        }
                        if !new_system_builder(p, cx).is_null() {
                            return Err("a builder was made".into());
                        }
                        let ok = c("x + y + z = 1");
                        let b = new_system_builder(ok.as_ptr(), cx) as *mut c_void;
                        if try_constrain_with(b, p) != -1 || is_fully_constrained(b) != 0 {
                            return Err("the text constrained a system".into());
                        }
                        free_system_builder(b);
                        free_context_hash_map(cx);
                    }
                    clear_panic();
                    left = alloc::balance() - before;
                    if left == 0 {
                        return Ok(());
                    }
                }
                Err(format!("{left} memory blocks are left"))
            },
        );
    }
}
