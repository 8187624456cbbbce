//! A01, A02, A06: networks against modified nodal analysis.

use crate::common::*;
use mc_core::{hash::with_hash_seed, util, Ctx, Stats};

const MARGIN: f64 = 1e-8;

fn seeded(seed: u64, st: &mut Stats, f: impl FnOnce(&mut Stats) -> Result<(), String> + Send) -> Result<(), String> {
    let mut own = Stats::default();
    let r = with_hash_seed(seed, || f(&mut own));
    st.merge(own);
    r
}

/// Every element of an alphabet between every pair of nodes.
fn alphabet(n: usize, make: &[(fn(usize, usize, f64) -> Elem, &[f64])], loops: bool) -> Vec<Elem> {
    let mut v = vec![];
    for (f, gains) in make {
        for a in 0..n {
            for b in 0..n {
                if a != b || loops {
                    v.extend(gains.iter().map(|g| f(a, b, *g)));
                }
            }
        }
    }
    v
}

/// Every assignment of a configuration to the nodes.
fn configs(n: usize, kinds: &[Option<(f64, bool)>]) -> Vec<Vec<(usize, f64, bool)>> {
    let mut v = vec![];
    util::product(&vec![kinds.len(); n], |ix| {
        v.push(ix.iter().enumerate().filter_map(|(i, k)| kinds[*k].map(|(p, l)| (i, p, l))).collect());
    });
    v
}

fn sweep(ctx: &mut Ctx, model: &'static str, n: usize, len: usize, letters: &[Elem], ordered: bool, cfgs: &[Vec<(usize, f64, bool)>]) {
    util::product(&vec![letters.len(); len], |ix| {
        if !ordered && ix.windows(2).any(|w| w[0] > w[1]) {
            return;
        }
        // nodes are numbered in the order in which they are used, the others are renamings
        if n > 3 {
            let mut top = 0;
            for i in ix {
                for x in [letters[*i].a, letters[*i].b] {
                    if x > top {
                        return;
                    }
                    top = top.max(x + 1);
                }
            }
        }
        let elems: Vec<Elem> = ix.iter().map(|i| letters[*i].clone()).collect();
        let show = Net { model, nodes: n, config: vec![], elems: elems.clone() };
        ctx.case(
            || show.short(),
            |st| {
                seeded(1, st, |st| {
                    for config in cfgs {
                        let net = Net { model, nodes: n, config: config.clone(), elems: elems.clone() };
                        let v = check(&net, MARGIN, st)?;
                        if let Some(v) = v {
                            st.state(util::fnv_f64(&v));
                        }
                    }
                    Ok(())
                })
            },
        );
    });
}

pub fn a01(ctx: &mut Ctx) {
    many_locked(ctx, "dc_circuit", resistor, current, voltage);
    const M: &str = "dc_circuit";
    let few: &[Option<(f64, bool)>] = &[None, Some((0.0, true)), Some((5.0, true))];
    let all: &[Option<(f64, bool)>] = &[None, Some((0.0, true)), Some((-5.0, true)), Some((3.0, false))];
    let grounded = |n: usize| -> Vec<Vec<(usize, f64, bool)>> {
        let mut v: Vec<Vec<(usize, f64, bool)>> = (0..n).map(|i| vec![(i, 0.0, true)]).collect();
        for i in 0..n {
            for j in 0..i {
                v.push(vec![(j, 1.0, true), (i, -2.0, true)]);
            }
        }
        v
    };
    let none: Vec<Elem> = vec![];
    for n in 0..4 {
        sweep(ctx, M, n, 0, &none, true, &configs(n, all));
    }
    let one = alphabet(1, &[(resistor, &[2.0]), (voltage, &[3.0, 0.0]), (current, &[1.0])], true);
    for len in 1..=3 {
        sweep(ctx, M, 1, len, &one, true, &configs(1, all));
    }
    let two = alphabet(2, &[(resistor, &[0.5, 2.0, -4.0]), (voltage, &[3.0, -1.0, 0.0]), (current, &[1.0, -0.25])], true);
    for len in 1..=ctx.pick(3, 4) {
        sweep(ctx, M, 2, len, &two, true, &configs(2, all));
    }
    let three = alphabet(3, &[(resistor, &[0.5, 2.0]), (voltage, &[3.0, -1.0]), (current, &[1.0])], false);
    for len in 1..=3 {
        sweep(ctx, M, 3, len, &three, true, &configs(3, few));
    }
    let three = alphabet(3, &[(resistor, &[2.0]), (voltage, &[3.0]), (current, &[1.0])], false);
    sweep(ctx, M, 3, 4, &three, !ctx.quick(), &configs(3, few));
    let four = alphabet(4, &[(resistor, &[2.0]), (voltage, &[3.0]), (current, &[1.0])], false);
    sweep(ctx, M, 4, 4, &four, true, &grounded(4));
    if !ctx.quick() {
        sweep(ctx, M, 3, 5, &three, true, &configs(3, few));
        let four = alphabet(4, &[(resistor, &[2.0]), (voltage, &[3.0])], false);
        sweep(ctx, M, 4, 5, &four, true, &grounded(4));
    }
    // Values of very different size, margins and limits.
    for g in [1e-3, 1.0, 47.0, 1e3] {
        for v in [1e-3, 1.0, 230.0, 1e5] {
            for i in [0.0, 1e-3, 16.0] {
                for margin in [1e-3, 1e-6, 1e-9] {
                    let net = Net {
                        model: M,
                        nodes: 4,
                        config: vec![(0, 0.0, true)],
                        elems: vec![voltage(0, 1, v), resistor(1, 2, g), resistor(2, 3, 2.0 * g), resistor(3, 0, g), current(0, 2, i), resistor(2, 0, 3.0 * g)],
                    };
                    ctx.case(
                        || format!("margin {margin}: {}", net.short()),
                        |st| {
                            seeded(2, st, |st| {
                                st.step();
                                match solve(&net.json(), margin, 200)? {
                                    Ok(rep) => {
                                        st.outcome("within the margin");
                                        laws(&net, &rep, margin)
                                    }
                                    // rounding of large fluxes may exceed a tiny margin
                                    Err(_) if margin < 1e-12 * v / g.min(1.0) => {
                                        st.outcome("margin out of reach");
                                        Ok(())
                                    }
                                    Err(e) => Err(e),
                                }
                            })
                        },
                    );
                }
            }
        }
    }
}

/// Networks whose elements can be permuted and turned around.
fn networks() -> Vec<Net> {
    let net = |nodes: usize, config: Vec<(usize, f64, bool)>, elems: Vec<Elem>| Net { model: "dc_circuit", nodes, config, elems };
    let g = vec![(0, 0.0, true)];
    vec![
        net(4, g.clone(), vec![voltage(0, 1, 3.0), resistor(1, 2, 2.0), resistor(2, 3, 1.0), resistor(3, 0, 1.0)]),
        net(3, g.clone(), vec![voltage(0, 1, 3.0), voltage(1, 2, 4.0), resistor(2, 0, 2.0), resistor(1, 0, 1.0), current(0, 2, 0.5)]),
        net(4, g.clone(), vec![voltage(1, 2, 3.0), resistor(0, 1, 2.0), resistor(2, 3, 1.0), resistor(3, 0, 4.0), resistor(2, 0, 8.0)]),
        // bridge
        net(4, g.clone(), vec![voltage(0, 1, 6.0), resistor(1, 2, 1.0), resistor(1, 3, 2.0), resistor(2, 3, 5.0), resistor(2, 0, 4.0), resistor(3, 0, 3.0)]),
        // chain of floating sources
        net(5, g.clone(), vec![resistor(0, 1, 1.0), voltage(1, 2, 2.0), voltage(2, 3, -1.0), voltage(3, 4, 4.0), resistor(4, 0, 3.0), resistor(2, 0, 2.0)]),
        // two grounds
        net(4, vec![(0, -2.0, true), (3, 7.0, true)], vec![resistor(0, 1, 1.0), resistor(1, 2, 2.0), resistor(2, 3, 4.0), current(1, 2, 2.0), current(3, 1, 1.0)]),
        // star
        net(5, g.clone(), vec![resistor(0, 1, 1.0), resistor(1, 2, 2.0), resistor(1, 3, 3.0), resistor(1, 4, 4.0), current(2, 3, 1.0), current(4, 2, 0.5)]),
        // ladder of current sources and parallel resistors
        net(3, g.clone(), vec![current(0, 1, 1.0), resistor(1, 0, 2.0), resistor(0, 1, 2.0), resistor(1, 2, 1.0), current(2, 1, 3.0), resistor(2, 0, 4.0)]),
        // two sources at one node, one against the other
        net(4, g.clone(), vec![voltage(1, 0, 5.0), voltage(2, 0, 2.0), resistor(1, 2, 1.5), resistor(2, 3, 1.0), resistor(3, 1, 1.0)]),
        // sources away from locked node into a floating island tied by a resistor
        net(5, vec![(2, 1.0, true)], vec![voltage(0, 1, 1.0), voltage(2, 3, 2.0), voltage(3, 4, 1.0), resistor(4, 1, 2.0), resistor(0, 2, 2.0), current(1, 3, 1.0)]),
    ]
}

fn turned(e: &Elem) -> Elem {
    let mut t = e.clone();
    (t.a, t.b) = (e.b, e.a);
    if e.kind != Kind::Pass {
        t.value = -t.value;
        t.gain = vec![t.value];
    }
    t
}

pub fn a02(ctx: &mut Ctx) {
    let seeds = ctx.pick(2u64, 6);
    for (k, base) in networks().iter().enumerate() {
        let Exact::One(reference) = exact(base) else { panic!("network {k} is not determined") };
        let len = base.elems.len();
        for perm in util::permutations(len) {
            let elems: Vec<Elem> = perm.iter().map(|i| base.elems[*i].clone()).collect();
            ctx.case(
                || format!("network {k} in order {perm:?}"),
                |st| {
                    for seed in 1..=seeds {
                        seeded(seed, st, |st| {
                            for flip in 0..1usize << len {
                                let elems: Vec<Elem> = elems.iter().enumerate().map(|(i, e)| if flip >> i & 1 == 1 { turned(e) } else { e.clone() }).collect();
                                let net = Net { elems, ..base.clone() };
                                if let Some(v) = check(&net, MARGIN, st)? {
                                    if v.iter().zip(&reference).any(|(a, b)| !util::close(*a, *b, 1e-6)) {
                                        return Err(format!("potentials {v:?} in another order than {reference:?}: {}", net.short()));
                                    }
                                }
                            }
                            Ok(())
                        })?;
                    }
                    st.state(util::fnv_f64(&reference));
                    Ok(())
                },
            );
        }
        for perm in util::permutations(base.nodes) {
            let net = Net {
                config: base.config.iter().map(|(i, p, l)| (perm[*i], *p, *l)).collect(),
                elems: base.elems.iter().map(|e| Elem { a: perm[e.a], b: perm[e.b], ..e.clone() }).collect(),
                ..base.clone()
            };
            ctx.case(
                || format!("network {k} with nodes {perm:?}"),
                |st| {
                    for seed in 1..=4 * seeds {
                        seeded(seed, st, |st| {
                            if let Some(v) = check(&net, MARGIN, st)? {
                                if (0..base.nodes).any(|i| !util::close(v[perm[i]], reference[i], 1e-6)) {
                                    return Err(format!("potentials {v:?}, before {reference:?}"));
                                }
                            }
                            Ok(())
                        })?;
                    }
                    Ok(())
                },
            );
        }
        // Unconnected, locked and configured nodes do not matter.
        for extra in 1..=3 {
            for lock in [None, Some((9.0, true)), Some((9.0, false))] {
                ctx.case(
                    || format!("network {k} with {extra} more nodes {lock:?}"),
                    |st| {
                        seeded(3, st, |st| {
                            let mut net = base.clone();
                            for i in 0..extra {
                                if let Some((p, l)) = lock {
                                    net.config.push((base.nodes + i, p, l));
                                }
                            }
                            net.nodes += extra;
                            // a node on its own is undetermined unless it is locked
                            check(&net, MARGIN, st)?;
                            Ok(())
                        })
                    },
                );
            }
        }
    }
    large_networks(ctx, "dc_circuit", resistor, current, voltage);
    // Long chains: a ladder of n sections has a known solution.
    for n in 2..=ctx.pick(12, 24) {
        for style in 0..4 {
            let mut elems = vec![];
            for i in 0..n {
                let (a, b) = if (i + style) % 2 == 0 { (i, i + 1) } else { (i + 1, i) };
                elems.push(if style < 2 || i % 3 != 1 { resistor(a, b, 1.0 + i as f64) } else if a < b { voltage(a, b, 1.0) } else { voltage(a, b, -1.0) });
            }
            if style % 2 == 1 {
                elems.reverse();
            }
            let net = Net { model: "dc_circuit", nodes: n + 1, config: vec![(0, 0.0, true), (n, 10.0, true)], elems };
            ctx.case(
                || format!("ladder {n} style {style}"),
                |st| seeded(5, st, |st| check(&net, MARGIN, st).map(|_| ())),
            );
        }
    }
}

/// Rings, stars, grids, parallel and tangled elements with many nodes.
fn large(model: &'static str, n: usize, shape: usize, pass: fn(usize, usize, f64) -> Elem, push: fn(usize, usize, f64) -> Elem, rise: fn(usize, usize, f64) -> Elem) -> Net {
    let g = |i: usize| [1.0, 2.0, 0.5, 4.0, 3.0][i % 5];
    let mut config = vec![(0, 0.0, true)];
    let mut elems = vec![];
    let mut nodes = n;
    match shape {
        0 => {
            elems.extend((0..n).map(|i| pass(i, (i + 1) % n, g(i))));
            elems.push(push(0, n / 2, 2.0));
            config.push((n - 1, 6.0, true));
        }
        1 => {
            elems.extend((1..n).map(|i| if i % 4 == 3 { rise(1, i, g(i)) } else { pass(1, i, g(i)) }).filter(|e| e.a != e.b));
            elems.push(pass(0, 1, 1.0));
            elems.extend((2..n).filter(|i| i % 4 != 3).map(|i| push(0, i, 0.5 * g(i))));
        }
        2 => {
            let w = (2..).find(|w| w * w >= n).unwrap();
            nodes = w * w;
            for i in 0..nodes {
                if i % w + 1 < w {
                    elems.push(pass(i, i + 1, g(i)));
                }
                if i + w < nodes {
                    elems.push(pass(i + w, i, g(i + 2)));
                }
            }
            elems.push(rise(0, nodes - 1, 5.0));
        }
        3 => {
            nodes = 3;
            elems.extend((0..n).map(|i| if i % 2 == 0 { pass(0, 1, g(i)) } else { pass(2, 1, g(i)) }));
            elems.extend((0..n).map(|i| push(i % 3, (i + 1) % 3, g(i))));
            config.push((2, 3.0, true));
        }
        // sources in a row far from the ground, last ones first
        _ => {
            elems.extend((1..n - 1).rev().map(|i| if i % 3 == 0 { pass(i, i + 1, g(i)) } else { rise(i, i + 1, g(i)) }));
            elems.push(pass(0, 1, 2.0));
            elems.push(pass(n - 1, 0, 2.0));
        }
    }
    Net { model, nodes, config, elems }
}

type Make = fn(usize, usize, f64) -> Elem;

fn large_networks(ctx: &mut Ctx, model: &'static str, pass: Make, push: Make, rise: Make) {
    for n in [5usize, 8, 10, 11, 12, 16, 17, 25, 33, 40].into_iter().filter(|n| *n <= 25 || !ctx.quick()).collect::<Vec<_>>() {
        for shape in 0..5 {
            for order in 0..3 {
                let mut net = large(model, n, shape, pass, push, rise);
                match order {
                    0 => {}
                    1 => net.elems.reverse(),
                    _ => {
                        let k = net.elems.len() / 2;
                        net.elems.rotate_left(k);
                    }
                }
                ctx.case(
                    || format!("large network, shape {shape}, order {order}: {}", net.short()),
                    |st| seeded(n as u64, st, |st| check(&net, MARGIN, st).map(|_| ())),
                );
            }
        }
    }
}

/// Many nodes, of which all but a few are locked.
fn many_locked(ctx: &mut Ctx, model: &'static str, pass: Make, push: Make, rise: Make) {
    for n in [20usize, 33, 64, 65, 66, 100, 128, 129, 200, 256, 257, 300] {
        for style in 0..4 {
            let free: Vec<usize> = match style {
                0 => vec![0, n / 2, n - 1],
                1 => vec![n - 2, n - 1],
                2 => vec![1, n / 3, n / 3 + 1, n - 3],
                _ => [5, 31, 32, 63, 64, 127, 128, 255, 256].into_iter().filter(|i| *i < n).collect(),
            };
            let config = (0..n).filter(|i| !free.contains(i)).map(|i| (i, (i % 7) as f64 - 2.0, true)).collect();
            let mut elems = vec![];
            for (k, f) in free.iter().enumerate() {
                elems.push(pass(*f, (f + 7) % n, 1.0 + k as f64));
                elems.push(pass((f + n / 2 + 1) % n, *f, 2.0));
                if k > 0 {
                    elems.push(pass(free[k - 1], *f, 0.5));
                    elems.push(push(*f, free[k - 1], 3.0));
                }
            }
            elems.retain(|e| e.a != e.b);
            if style == 2 {
                elems.push(rise((n / 3 + 5) % n, n - 3, 4.0));
            }
            let net = Net { model, nodes: n, config, elems };
            if !matches!(exact(&net), Exact::One(_)) {
                panic!("{} is not determined", net.short());
            }
            ctx.case(
                || format!("{n} nodes, all but {free:?} locked"),
                |st| seeded(n as u64, st, |st| check(&net, MARGIN, st).map(|_| ())),
            );
        }
    }
    // so many that the reference is worked out by hand
    for n in [1000usize, 65535, 65536, 65537, 70000] {
        for at in [0, 255, 256, n - 2, n - 3].into_iter().filter(|a| *a < n - 1) {
            if n > 1000 && ctx.quick() && at != n - 3 && at != 256 {
                continue;
            }
            let net = Net {
                model,
                nodes: n,
                config: (0..n).filter(|i| *i != at).map(|i| (i, (i % 7) as f64, true)).collect(),
                elems: vec![pass(at, (at + 1) % n, 2.0), pass(at, (at + 2) % n, 2.0), push((at + n / 2) % n, at, 1.0)],
            };
            ctx.case(
                || format!("{n} nodes, all but {at} locked"),
                |st| {
                    st.step();
                    let rep = solve(&net.json(), MARGIN, 100)?.map_err(|e| format!("refused: {e}"))?;
                    laws(&net, &rep, MARGIN)?;
                    st.outcome("the solution");
                    st.state(util::fnv_f64(&rep.0[&at.to_string()]));
                    Ok(())
                },
            );
        }
    }
}

pub fn a06(ctx: &mut Ctx) {
    many_locked(ctx, "heat_transfer", conductor, heat, delta);
    large_networks(ctx, "heat_transfer", conductor, heat, delta);
    large_networks(ctx, "heat_transfer", convection, heat, delta);
    const M: &str = "heat_transfer";
    let few: &[Option<(f64, bool)>] = &[None, Some((20.0, true)), Some((100.0, true))];
    fn short_rod(a: usize, b: usize, k: f64) -> Elem {
        rod(a, b, 0.5, k)
    }
    fn long_rod(a: usize, b: usize, k: f64) -> Elem {
        rod(a, b, 4.0, k)
    }
    let two = alphabet(2, &[(conductor, &[0.5, 3.0]), (short_rod, &[2.0, -2.0]), (long_rod, &[2.0, 0.25, -0.25]), (convection, &[5.0, 0.125]), (delta, &[30.0, -10.0]), (heat, &[7.0, -1.0])], true);
    for len in 0..=3 {
        sweep(ctx, M, 2, len, &two, len < 3 || !ctx.quick(), &configs(2, few));
    }
    let zeros = alphabet(2, &[(conductor, &[0.5, 0.0, -1.5]), (long_rod, &[2.0, 0.0]), (convection, &[5.0, 0.0, -2.0]), (delta, &[30.0, 0.0]), (heat, &[7.0, 0.0])], true);
    for len in 1..=ctx.pick(2, 3) {
        sweep(ctx, M, 2, len, &zeros, true, &configs(2, few));
    }
    let zeros = alphabet(3, &[(conductor, &[0.5, 0.0, -1.5]), (convection, &[5.0, 0.0]), (delta, &[30.0, 0.0]), (heat, &[7.0])], false);
    for len in 1..=ctx.pick(2, 3) {
        sweep(ctx, M, 3, len, &zeros, true, &configs(3, few));
    }
    let three = alphabet(3, &[(conductor, &[0.5]), (short_rod, &[3.0]), (long_rod, &[3.0]), (convection, &[5.0]), (delta, &[30.0]), (heat, &[7.0])], false);
    for len in 1..=3 {
        sweep(ctx, M, 3, len, &three, len < 3 || !ctx.quick(), &configs(3, few));
    }
    // Walls: layers between two fluids.
    for layers in 1..=ctx.pick(4usize, 6) {
        util::product(&vec![3; layers], |ix| {
            for turn in 0..1usize << (layers + 2).min(5) {
                for source in [None, Some(0), Some(1), Some(2)] {
                    let mut elems = vec![];
                    let mut at = 0;
                    let mut put = |f: &dyn Fn(usize, usize) -> Elem, turned: bool| {
                        let (a, b) = if turned { (at + 1, at) } else { (at, at + 1) };
                        at += 1;
                        f(a, b)
                    };
                    elems.push(put(&|a, b| convection(a, b, 8.0), turn & 1 == 1));
                    for (i, k) in ix.iter().enumerate() {
                        let t = turn >> (i + 1) & 1 == 1;
                        elems.push(match k {
                            0 => put(&|a, b| rod(a, b, 0.25, 1.5), t),
                            1 => put(&|a, b| conductor(a, b, 0.75), t),
                            _ => put(&|a, b| rod(a, b, 2.0, 40.0), t),
                        });
                    }
                    elems.push(put(&|a, b| convection(a, b, 25.0), turn >> (layers + 1) & 1 == 1));
                    let n = at + 1;
                    match source {
                        Some(0) => elems.push(heat(0, 1, 12.0)),
                        Some(1) => elems.push(heat(n - 2, 1, 3.0)),
                        Some(2) => elems.insert(0, delta(n - 1, n, 5.0)),
                        _ => {}
                    }
                    let nodes = n + (source == Some(2)) as usize;
                    if source == Some(2) {
                        elems.push(convection(n, 1, 2.0));
                    }
                    let net = Net { model: M, nodes, config: vec![(0, 21.0, true), (n - 1, -8.0, true)], elems };
                    ctx.case(|| net.short(), |st| seeded(1, st, |st| check(&net, MARGIN, st).map(|_| ())));
                }
            }
        });
    }
}
