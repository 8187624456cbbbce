//! N07: histories of calls of the C interface.

use mc_core::{alloc, clear_panic, util, Ctx, Stats};
use nexsys::ffi::*;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_void, CStr, CString};

const INF: f64 = f64::INFINITY;
const CONSTS: [(&str, f64); 3] = [("k", 5.0), ("k", 8.0), ("z", 1.5)];
/// name, guess, lo, hi
const DECLS: [(&str, f64, f64, f64); 3] = [("z", -3.0, -INF, INF), ("z", 2.5, 0.5, 10.0), ("x", 1.0, -20.0, 20.0)];
const SYSTEMS: [&str; 5] = ["x + y = k\nx - y = 1", "z^2 = 4", "x + = 3", "w = z + 1\nv = 2*w", ""];
const TEXTS: [&[u8]; 6] = [
    b"keep x on [0, 10]\nguess 2.5 for x\nx^2 = 9\ny = x + 1 // more\0",
    b"x = #nope\0",
    b"\0",
    b"x = \xff\0",
    b"const k = 2 * [ft->m]\nx + y = k\nx - y = 0\nif x > 10:\n i = 1\nelse:\n i = 0 - 4\nend\0",
    b"x^2 = -1\0",
];

type Known = BTreeMap<String, f64>;
type Decl = BTreeMap<String, (f64, f64, f64)>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Context(bool),
    Const(usize, usize),
    FreeContext(usize),
    Declared,
    Declare(usize, usize),
    FreeDeclared(usize),
    Solve(usize, usize, usize),
    Text(usize),
}

#[derive(Default)]
struct Store {
    contexts: Vec<(*mut c_void, Known)>,
    declared: Vec<(*mut c_void, Decl)>,
}

fn c(s: &str) -> CString {
    CString::new(s).unwrap()
}

/// Reads, frees and parses a returned solution: its log and values.
fn take(p: *mut c_char) -> Result<Option<(String, Known)>, String> {
    if p.is_null() {
        return Ok(None);
    }
    let s = unsafe { CStr::from_ptr(p) }.to_str().map_err(|_| "the solution is no text")?.to_string();
    unsafe { free_solution_string(p) };
    let bad = || format!("solution string {s:?}");
    let rest = s.strip_prefix("{ log: \"").ok_or_else(bad)?;
    let (log, rest) = rest.rsplit_once("\", \nsoln: \"").ok_or_else(bad)?;
    let rest = rest.strip_suffix("\" }").ok_or_else(bad)?;
    let mut v = Known::new();
    for item in rest.split(", ").filter(|i| !i.is_empty()) {
        let (n, x) = item.split_once(": ").ok_or_else(bad)?;
        let x = x.parse().map_err(|_| bad())?;
        if v.insert(n.to_string(), x).is_some() {
            return Err(bad());
        }
    }
    Ok(Some((log.to_string(), v)))
}

fn same(got: &Known, want: &Known) -> bool {
    got.len() == want.len() && want.iter().all(|(n, w)| got.get(n).is_some_and(|g| (g - w).abs() < 1e-6))
}

fn standard() -> Known {
    Known::from([("pi".to_string(), std::f64::consts::PI), ("e".to_string(), std::f64::consts::E)])
}

/// What a system adds to what is known; `None`: it is refused.
fn solve(k: usize, known: &Known, decl: &Decl) -> Option<Known> {
    let mut v = known.clone();
    match k {
        0 => {
            if let Some(s) = known.get("k") {
                if !known.contains_key("x") {
                    let x = (s + 1.0) / 2.0;
                    v.insert("x".into(), x);
                    v.insert("y".into(), s - x);
                }
            }
        }
        1 => {
            if !known.contains_key("z") {
                let guess = decl.get("z").map_or(1.0, |d| d.0);
                v.insert("z".into(), if guess < 0.0 { -2.0 } else { 2.0 });
            }
        }
        2 => return None,
        3 => {
            if let (Some(z), false) = (known.get("z"), known.contains_key("w")) {
                v.insert("w".into(), z + 1.0);
                v.insert("v".into(), 2.0 * (z + 1.0));
            } else if !known.contains_key("w") {
                // w + v alone do not determine z
            }
        }
        _ => {}
    }
    Some(v)
}

fn text(k: usize) -> Option<Known> {
    let mut v = standard();
    match k {
        0 => {
            v.insert("x".into(), 3.0);
            v.insert("y".into(), 4.0);
        }
        2 => {}
        4 => {
            v.insert("k".into(), 0.6096);
            v.insert("x".into(), 0.3048);
            v.insert("y".into(), 0.3048);
            v.insert("i".into(), -4.0);
        }
        _ => return None,
    }
    Some(v)
}

impl Store {
    /// `Ok(false)`: the operation does not apply here.
    fn apply(&mut self, op: Op, st: &mut Stats) -> Result<bool, String> {
        let have = match op {
            Op::Context(_) => self.contexts.len() < 2,
            Op::Declared => self.declared.len() < 2,
            Op::Const(i, _) | Op::FreeContext(i) => i < self.contexts.len(),
            Op::Declare(i, _) | Op::FreeDeclared(i) => i < self.declared.len(),
            Op::Solve(i, j, _) => i < self.contexts.len() && j < self.declared.len(),
            Op::Text(_) => true,
        };
        if !have {
            return Ok(false);
        }
        st.step();
        match op {
            Op::Context(std) => {
                let p = unsafe { if std { new_default_context_hash_map() } else { new_context_hash_map() } };
                if p.is_null() {
                    return Err("no context".into());
                }
                self.contexts.push((p, if std { standard() } else { Known::new() }));
            }
            Op::Const(i, k) => {
                let (name, v) = CONSTS[k];
                let t = c(name);
                unsafe { add_const_to_ctx(self.contexts[i].0, t.as_ptr(), v) };
                self.contexts[i].1.insert(name.into(), v);
            }
            Op::FreeContext(i) => unsafe { free_context_hash_map(self.contexts.remove(i).0) },
            Op::Declared => {
                let p = new_declared_hash_map();
                if p.is_null() {
                    return Err("no map".into());
                }
                self.declared.push((p, Decl::new()));
            }
            Op::Declare(i, k) => {
                let (name, g, lo, hi) = DECLS[k];
                let t = c(name);
                let got = unsafe { add_declared_variable(self.declared[i].0, t.as_ptr(), g, lo, hi) };
                if got != 1 {
                    return Err(format!("status {got}"));
                }
                self.declared[i].1.insert(name.into(), (g, lo, hi));
            }
            Op::FreeDeclared(i) => unsafe { free_declared_hash_map(self.declared.remove(i).0) },
            Op::Solve(i, j, k) => {
                let t = c(SYSTEMS[k]);
                let got = take(unsafe { basic_solve(t.as_ptr(), self.contexts[i].0, self.declared[j].0, 1e-9, 100) })?;
                let want = solve(k, &self.contexts[i].1, &self.declared[j].1);
                match (got, want) {
                    (None, None) => st.outcome("system refused"),
                    (Some((log, g)), Some(w)) if same(&g, &w) => {
                        let more = w.len() > self.contexts[i].1.len();
                        if more == log.is_empty() {
                            return Err(format!("log {log:?}"));
                        }
                        st.outcome(if more { "system solved" } else { "nothing to solve" });
                        self.contexts[i].1 = w;
                    }
                    (g, w) => return Err(format!("{:?} gives {g:?}, expected {w:?}", SYSTEMS[k])),
                }
            }
            Op::Text(k) => {
                let got = take(unsafe { solve_with_preprocessors(TEXTS[k].as_ptr() as *const c_char, 1e-9, 100) })?;
                match (got, text(k)) {
                    (None, None) => st.outcome("text refused"),
                    (Some((_, g)), Some(w)) if same(&g, &w) => st.outcome("text solved"),
                    (g, w) => return Err(format!("text {k} gives {g:?}, expected {w:?}")),
                }
            }
        }
        Ok(true)
    }

    fn free(&mut self) {
        unsafe {
            for (p, _) in self.contexts.drain(..) {
                free_context_hash_map(p);
            }
            for (p, _) in self.declared.drain(..) {
                free_declared_hash_map(p);
            }
        }
    }

    fn hash(&self) -> u64 {
        let mut t = String::new();
        for (_, k) in &self.contexts {
            t += &format!("c{k:?}");
        }
        for (_, d) in &self.declared {
            t += &format!("d{d:?}");
        }
        util::fnv(t.as_bytes())
    }
}

/// Ready-made stores to start from, as histories.
const STARTS: [&[Op]; 3] = [
    &[],
    &[Op::Context(true), Op::Declared, Op::Const(0, 0)],
    &[Op::Context(true), Op::Context(false), Op::Declared, Op::Declare(0, 0), Op::Declared, Op::Const(1, 1)],
];

fn alphabet() -> Vec<Op> {
    let mut v = vec![Op::Context(true), Op::Context(false), Op::Declared];
    v.extend((0..TEXTS.len()).map(Op::Text));
    for i in 0..2 {
        v.extend((0..CONSTS.len()).map(|k| Op::Const(i, k)));
        v.extend((0..DECLS.len()).map(|k| Op::Declare(i, k)));
        v.extend([Op::FreeContext(i), Op::FreeDeclared(i)]);
        for j in 0..2 {
            v.extend((0..SYSTEMS.len()).map(|k| Op::Solve(i, j, k)));
        }
    }
    v
}

/// `Ok(Some(i))`: operation `i` does not apply.
fn history(start: &[Op], ops: &[Op], st: &mut Stats) -> Result<Option<usize>, String> {
    let mut left = 0;
    // tables and caches of the libraries stay allocated the first times only
    for _ in 0..4 {
        clear_panic();
        let before = alloc::balance();
        let mut s = Store::default();
        for (k, op) in start.iter().chain(ops).enumerate() {
            match s.apply(*op, st) {
                Ok(true) => {}
                Ok(false) => {
                    s.free();
                    return Ok(Some(k - start.len()));
                }
                Err(e) => {
                    s.free();
                    return Err(format!("call {k} ({op:?}): {e}"));
                }
            }
        }
        let h = s.hash();
        s.free();
        drop(s);
        clear_panic();
        left = alloc::balance() - before;
        st.state(h);
        if left == 0 {
            return Ok(None);
        }
    }
    Err(format!("{left} memory blocks are left after everything was freed"))
}

/// Texts with many unknowns and long names through both solving calls.
fn sizes(ctx: &mut Ctx) {
    for n in [1usize, 2, 5, 16, 17, 33, 64, 100, 128, 200] {
        for width in [1usize, 20, 300, 5000] {
            if n * width > 20000 {
                continue;
            }
            ctx.case(
                || format!("{n} unknowns with names of {width} letters or more"),
                |st| {
                    let name = |i: usize| format!("{}{i}", "v".repeat(width));
                    let sol: Vec<f64> = (0..n).map(|i| ((i * 7) % 11) as f64 * 10f64.powi((i % 5) as i32 - 2) - 4.0).collect();
                    let lines: Vec<String> = (0..n).map(|i| if i == 0 { format!("{} = {}", name(0), sol[0]) } else { format!("{} - {} = {}", name(i), name(i - 1), sol[i] - sol[i - 1]) }).collect();
                    let t = c(&lines.join("\n"));
                    let mut left = 0;
                    for _ in 0..4 {
                        let before = alloc::balance();
                        st.steps(2);
                        let (cx, d) = (unsafe { new_context_hash_map() }, new_declared_hash_map());
                        for i in (0..n).step_by(2) {
                            let t = c(&name(i));
                            if unsafe { add_declared_variable(d, t.as_ptr(), sol[i] + 2.0, sol[i] - 3.0, sol[i] + 4.0) } != 1 {
                                return Err(format!("variable {i} could not be declared"));
                            }
                        }
                        let basic = take(unsafe { basic_solve(t.as_ptr(), cx, d, 1e-9, 60) })?;
                        let whole = take(unsafe { solve_with_preprocessors(t.as_ptr(), 1e-9, 60) })?;
                        unsafe {
                            free_context_hash_map(cx);
                            free_declared_hash_map(d);
                        }
                        for (got, more) in [(basic, 0), (whole, 2)] {
                            let (log, v) = got.ok_or("refused")?;
                            if v.len() != n + more || (0..n).any(|i| !v.get(&name(i)).is_some_and(|g| (g - sol[i]).abs() < 1e-6)) {
                                return Err(format!("values {v:?}, expected {sol:?}"));
                            }
                            if let Some(l) = lines.iter().find(|l| !log.contains(l.as_str())) {
                                return Err(format!("the log has no {l:?}"));
                            }
                        }
                        left = alloc::balance() - before;
                        if left == 0 {
                            st.state(util::fnv_f64(&sol));
                            st.outcome("large system solved");
                            return Ok(());
                        }
                    }
                    Err(format!("{left} memory blocks are left"))
                },
            );
        }
    }
}

/// The string shows a value of any size as it is.
fn values(ctx: &mut Ctx) {
    for value in [0.0f64, 3.0, 0.1, -2.5e-3, 1.0 / 3.0, -123456.789, 1.5e7, 7.25e9, 2.512345e-9, -7.0e-10, 4.00000001e-6, 1e-3] {
        for form in 0..2 {
            ctx.case(
                || format!("the value {value}, form {form}"),
                |st| {
                    st.steps(2);
                    let lines = if form == 0 { format!("x = {value}") } else { format!("x + y = {value}\nx - y = {value}") };
                    let margin = 1e-12f64.max(1e-9 * value.abs());
                    let t = c(&lines);
                    let (cx, d) = (unsafe { new_context_hash_map() }, new_declared_hash_map());
                    let name = c("x");
                    if unsafe { add_declared_variable(d, name.as_ptr(), value, -INF, INF) } != 1 {
                        return Err("x could not be declared".into());
                    }
                    let basic = take(unsafe { basic_solve(t.as_ptr(), cx, d, margin, 100) })?;
                    let whole = take(unsafe { solve_with_preprocessors(t.as_ptr(), margin, 100) })?;
                    unsafe {
                        free_context_hash_map(cx);
                        free_declared_hash_map(d);
                    }
                    for got in [basic, whole] {
                        let (_, v) = got.ok_or("refused")?;
                        if !v.get("x").is_some_and(|g| (g - value).abs() <= 2e-12 + 3e-9 * value.abs()) {
                            return Err(format!("{:?}, expected {value}", v.get("x")));
                        }
                    }
                    st.state(util::fnv_f64(&[value]));
                    st.outcome("value shown");
                    Ok(())
                },
            );
        }
    }
}

pub fn n07(ctx: &mut Ctx) {
    sizes(ctx);
    values(ctx);
    for limit in [0u32, 1, 2, 60, 127, 128, 255, 256, 257, 512, 32768, 65535, 65536, 1 << 24, 1 << 31, u32::MAX] {
        for margin in [1e-9, 1e-3, 0.0, -1.0] {
            ctx.case(
                || format!("limit {limit}, margin {margin}"),
                |st| {
                    st.steps(2);
                    let (cx, d) = (unsafe { new_default_context_hash_map() }, new_declared_hash_map());
                    let t = c("x^2 = 9\ny + z^2 = x + 7\ny - z = 4");
                    let basic = take(unsafe { basic_solve(t.as_ptr(), cx, d, margin, limit as _) });
                    let whole = take(unsafe { solve_with_preprocessors(t.as_ptr(), margin, limit as _) });
                    unsafe {
                        free_context_hash_map(cx);
                        free_declared_hash_map(d);
                    }
                    for got in [basic?, whole?] {
                        match got {
                            Some((_, v)) if limit == 0 || margin <= 0.0 => return Err(format!("solved as {v:?}")),
                            Some((_, v)) => {
                                st.outcome("solved within the limit");
                                let near = |n: &str, w: f64| v.get(n).is_some_and(|g| (g - w).abs() < 0.02);
                                if !(near("x", 3.0) && near("z", 2.0) && near("y", 6.0)) {
                                    return Err(format!("solved as {v:?}"));
                                }
                            }
                            None if limit >= 60 && margin > 0.0 => return Err("NULL although the iteration converges".into()),
                            None => st.outcome("out of iterations"),
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    let ops = alphabet();
    let n = ops.len();
    let depth = ctx.pick(3, 4);
    for (k, start) in STARTS.iter().enumerate() {
        for a in 0..n {
            for b in 0..n {
                let prefix = [ops[a], ops[b]];
                ctx.case(
                    || format!("start {k}, history {prefix:?} then every {} more", depth - 2),
                    |st| {
                        alloc::strict(true);
                        let mut d = vec![0; depth - 2];
                        loop {
                            let mut seq = prefix.to_vec();
                            seq.extend(d.iter().map(|i| ops[*i]));
                            let stop = match history(start, &seq, st).map_err(|e| format!("{seq:?}: {e}"))? {
                                Some(i) if i < 2 => return Ok(()),
                                Some(i) => i - 2,
                                None => depth - 3,
                            };
                            // the next sequence that differs at or before `stop`
                            let mut i = stop + 1;
                            d[i..].fill(0);
                            loop {
                                if i == 0 {
                                    return Ok(());
                                }
                                i -= 1;
                                d[i] += 1;
                                if d[i] < n {
                                    break;
                                }
                                d[i] = 0;
                            }
                        }
                    },
                );
            }
        }
    }
}
