//! G01 (arithmetic and row operations against the textbook definitions) and
//! G03 (out of range and mismatched operands).

use crate::model::M;
use gmatlib::{Element, Matrix};
use mc_core::{catch, util, Ctx, Stats};
use std::ops::SubAssign;

pub trait Num: Element<Self> + Copy + SubAssign + 'static {
    const NAME: &'static str;
    const FLOAT: bool;
    /// Largest integer magnitude that is represented exactly.
    const LIMIT: i64;
    fn of(x: i64) -> Self;
    fn to(self) -> f64;
}
macro_rules! num {
    ($($t:ty, $f:expr, $l:expr);*) => {$(impl Num for $t {
        const NAME: &'static str = stringify!($t);
        const FLOAT: bool = $f;
        const LIMIT: i64 = $l;
        fn of(x: i64) -> Self { x as $t }
        fn to(self) -> f64 { self as f64 }
    })*};
}
num!(f64, true, 1 << 50; f32, true, 1 << 22; i8, false, 127; i16, false, 32767; i32, false, 1 << 30; i64, false, 1 << 50);

pub fn real<T: Num>(m: &M) -> Matrix<T> {
    Matrix::from_vec(m.c, m.v.iter().map(|x| T::of(*x)).collect()).expect("a full matrix")
}

pub fn fits<T: Num>(m: &M) -> bool {
    m.v.iter().all(|x| x.abs() <= T::LIMIT)
}

/// Compares through every accessor.
pub fn same<T: Num>(what: &str, got: &Matrix<T>, want: &M) -> Result<(), String> {
    if (got.get_rows(), got.get_cols()) != (want.r, want.c) {
        return Err(format!("{what}: shape {}x{}, expected {}x{}", got.get_rows(), got.get_cols(), want.r, want.c));
    }
    let it: Vec<T> = got.iter().copied().collect();
    if it.len() != want.v.len() {
        return Err(format!("{what}: {} elements, expected {}", it.len(), want.v.len()));
    }
    for i in 0..want.r {
        for j in 0..want.c {
            let w = T::of(want.at(i, j));
            if got[(i, j)] != w || it[i * want.c + j] != w {
                return Err(format!("{what}: element ({i},{j}) is {}, expected {w}", got[(i, j)]));
            }
        }
    }
    Ok(())
}

macro_rules! check {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

const SCALARS: [i64; 6] = [0, 1, -1, 2, -3, 5];

fn unary<T: Num>(m: &M, st: &mut Stats) -> Result<(), String> {
    let a = real::<T>(m);
    st.state(util::fnv(format!("{}{}", T::NAME, m.show()).as_bytes()));
    same("from_vec", &a, m)?;
    let z: Matrix<T> = Matrix::new(m.r, m.c);
    same("new", &z, &M::zero(m.r, m.c))?;
    let v: Vec<T> = a.clone().into();
    check!(v.len() == m.v.len() && v.iter().zip(&m.v).all(|(x, y)| *x == T::of(*y)), "into Vec reorders elements");
    check!(a.to_string() == m.show(), "displayed as {} instead of {}", a, m.show());
    same("transpose", &a.transpose(), &m.transpose())?;
    match (a.trace(), m.trace()) {
        (Ok(x), Some(y)) => check!(x == T::of(y), "trace is {x}, expected {y}"),
        (Err(_), None) => {}
        (x, y) => return Err(format!("trace is {x:?}, expected {y:?}")),
    }
    st.steps(6);
    for r1 in 0..m.r {
        for r2 in r1..m.r {
            for c1 in 0..m.c {
                for c2 in c1..m.c {
                    st.step();
                    let want = m.subset(r1, c1, r2, c2).unwrap();
                    same(&format!("subset({r1},{c1},{r2},{c2})"), &a.subset(r1, c1, r2, c2), &want)?;
                }
            }
        }
    }
    same("the operand after reading operations", &a, m)?;
    for i in 0..m.r {
        for j in 0..m.c {
            st.step();
            let (mut b, mut w) = (a.clone(), m.clone());
            b[(i, j)] = T::of(9);
            w.set(i, j, 9);
            same(&format!("assignment to ({i},{j})"), &b, &w)?;
            check!(m.at(i, j) == 9 || b != a, "matrices that differ at ({i},{j}) compare equal");
        }
    }
    check!(a == a.clone(), "a clone is not equal");
    for r1 in 0..m.r {
        for s in SCALARS {
            st.step();
            let (mut b, mut w) = (a.clone(), m.clone());
            w.scale_row(r1, s);
            if fits::<T>(&w) {
                b.inplace_row_scale(r1, T::of(s));
                same(&format!("row {r1} scaled by {s}"), &b, &w)?;
            }
        }
        for r2 in 0..m.r {
            let (mut b, mut w) = (a.clone(), m.clone());
            b.inplace_row_swap(r1, r2);
            w.swap(r1, r2);
            same(&format!("rows {r1} and {r2} swapped"), &b, &w)?;
            let (mut b, mut w) = (a.clone(), m.clone());
            b.inplace_row_add(r1, r2);
            w.add_row(r1, r2, 1);
            same(&format!("row {r2} added to row {r1}"), &b, &w)?;
            st.steps(2);
            for s in SCALARS {
                st.step();
                let (mut b, mut w) = (a.clone(), m.clone());
                w.add_row(r1, r2, s);
                if fits::<T>(&w) {
                    b.inplace_scaled_row_add(r1, r2, T::of(s));
                    same(&format!("{s} times row {r2} added to row {r1}"), &b, &w)?;
                }
            }
        }
    }
    for s in SCALARS {
        st.steps(3);
        let (mut b, mut w) = (a.clone(), m.clone());
        w.scale(s);
        if fits::<T>(&w) {
            b.inplace_scale(T::of(s));
            same(&format!("scaled by {s}"), &b, &w)?;
            same(&format!("&matrix * {s}"), &(&a * T::of(s)), &w)?;
            same(&format!("matrix * {s}"), &(a.clone() * T::of(s)), &w)?;
        }
    }
    same("the operand after all operations on copies", &a, m)
}

fn constructors<T: Num>(len: usize, st: &mut Stats) -> Result<(), String> {
    let v: Vec<i64> = (0..len as i64).map(|k| k % 100 - 7).collect();
    let tv: Vec<T> = v.iter().map(|x| T::of(*x)).collect();
    for c in 0..len + 3 {
        st.step();
        match Matrix::from_vec(c, tv.clone()) {
            Ok(m) if c > 0 && len % c == 0 => same(&format!("from_vec({c})"), &m, &M { r: len / c, c, v: v.clone() })?,
            Err(_) if c == 0 || len % c != 0 => {}
            Ok(_) => return Err(format!("a matrix with {c} columns was made of {len} elements")),
            Err(e) => return Err(format!("from_vec({c}) of {len} elements: {e}")),
        }
    }
    if len > 0 {
        same("from_row_vec", &Matrix::from_row_vec(tv.clone()), &M { r: 1, c: len, v: v.clone() })?;
        same("from_col_vec", &Matrix::from_col_vec(tv), &M { r: len, c: 1, v })?;
        same("new_identity", &Matrix::<T>::new_identity(len), &M::ident(len))?;
        st.steps(3);
    }
    Ok(())
}

fn opt<T>(what: &str, got: Result<T, String>, want: bool) -> Result<Option<T>, String> {
    match (got, want) {
        (Ok(x), true) => Ok(Some(x)),
        (Err(_), false) => Ok(None),
        (Ok(_), false) => Err(format!("{what} of operands that do not fit gave a result")),
        (Err(e), true) => Err(format!("{what} failed: {e}")),
    }
}

/// All binary operations; operands that do not fit must fail.
fn binary<T: Num>(m: &M, o: &M, st: &mut Stats) -> Result<(), String> {
    let (a, b) = (real::<T>(m), real::<T>(o));
    st.state(util::mix(util::fnv(m.show().as_bytes()), util::fnv(o.show().as_bytes())));
    let sum = m.elementwise(o, |x, y| x + y);
    let dif = m.elementwise(o, |x, y| x - y);
    let prod = m.mul(o);
    let aug = m.augment(o);
    macro_rules! ops {
        ($want:expr, $($name:expr => $e:expr),* $(,)?) => {
            if $want.as_ref().map_or(true, |w| fits::<T>(w)) {
                $(st.step();
                if let Some(x) = opt($name, catch(|| $e), $want.is_some())? {
                    same($name, &x, $want.as_ref().unwrap())?;
                }
                same(concat!("left operand after ", $name), &a, m)?;
                same(concat!("right operand after ", $name), &b, o)?;)*
            }
        };
    }
    ops!(sum, "&a + &b" => &a + &b, "a + &b" => a.clone() + &b, "&a + b" => &a + b.clone(), "a + b" => a.clone() + b.clone());
    ops!(dif, "&a - &b" => &a - &b, "a - &b" => a.clone() - &b, "&a - b" => &a - b.clone(), "a - b" => a.clone() - b.clone());
    ops!(prod, "&a * &b" => &a * &b, "a * &b" => a.clone() * &b, "&a * b" => &a * b.clone(), "a * b" => a.clone() * b.clone(),
        "multiply_matrix" => a.multiply_matrix(&b).map_err(|e| panic!("{e}")).unwrap());
    ops!(aug, "&a | &b" => &a | &b, "augment_with" => a.augment_with(&b).map_err(|e| panic!("{e}")).unwrap());
    // checked variants report, they do not panic
    if catch(|| a.multiply_matrix(&b).is_ok()) != Ok(prod.is_some()) && prod.as_ref().map_or(true, |w| fits::<T>(w)) {
        return Err("multiply_matrix panicked on operands that do not fit".into());
    }
    if catch(|| a.augment_with(&b).is_ok()) != Ok(aug.is_some()) {
        return Err("augment_with panicked on operands that do not fit".into());
    }
    for (name, want, sub) in [("a += b", &sum, false), ("a -= b", &dif, true)] {
        if want.as_ref().map_or(false, |w| !fits::<T>(w)) {
            continue;
        }
        st.step();
        let mut x = a.clone();
        let r = catch(|| {
            if sub {
                x -= b.clone()
            } else {
                x += b.clone()
            }
        });
        opt(name, r, want.is_some())?;
        same(name, &x, want.as_ref().unwrap_or(m))?;
    }
    let equal = (m.r, m.c) == (o.r, o.c) && m.v == o.v;
    check!((a == b) == equal, "== says {} for {} and {}", a == b, m.show(), o.show());
    Ok(())
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Swap(usize, usize),
    RowScale(usize, i64),
    Scale(i64),
    Add(usize, usize),
    AddScaled(usize, usize, i64),
    Set(usize, usize, i64),
    AddSelf,
    Transpose,
}

fn alphabet(n: usize) -> Vec<Op> {
    let mut v = vec![Op::Transpose, Op::AddSelf, Op::Scale(-1)];
    for a in 0..n {
        v.push(Op::RowScale(a, -2));
        for b in 0..n {
            if a < b {
                v.push(Op::Swap(a, b));
            }
            v.push(Op::Add(a, b));
            v.push(Op::AddScaled(a, b, 3));
        }
        v.push(Op::Set(a, (a + 1) % n, 4));
    }
    v
}

fn apply<T: Num>(a: &mut Matrix<T>, m: &mut M, op: Op) {
    match op {
        Op::Swap(x, y) => {
            a.inplace_row_swap(x, y);
            m.swap(x, y)
        }
        Op::RowScale(x, s) => {
            a.inplace_row_scale(x, T::of(s));
            m.scale_row(x, s)
        }
        Op::Scale(s) => {
            a.inplace_scale(T::of(s));
            m.scale(s)
        }
        Op::Add(x, y) => {
            a.inplace_row_add(x, y);
            m.add_row(x, y, 1)
        }
        Op::AddScaled(x, y, s) => {
            a.inplace_scaled_row_add(x, y, T::of(s));
            m.add_row(x, y, s)
        }
        Op::Set(x, y, s) => {
            a[(x, y)] = T::of(s);
            m.set(x, y, s)
        }
        Op::AddSelf => {
            let c = a.clone();
            *a += c;
            *m = m.elementwise(m, |x, y| x + y).unwrap()
        }
        Op::Transpose => {
            *a = a.transpose();
            *m = m.transpose()
        }
    }
}

/// Depth first over all operation sequences.
fn histories<T: Num>(a: &Matrix<T>, m: &M, ops: &[Op], depth: usize, path: &mut Vec<Op>, st: &mut Stats) -> Result<(), String> {
    if depth == 0 {
        return Ok(());
    }
    for op in ops {
        let (mut b, mut w) = (a.clone(), m.clone());
        apply(&mut b, &mut w, *op);
        st.step();
        st.state(util::fnv(w.show().as_bytes()));
        path.push(*op);
        same(&format!("after {path:?}"), &b, &w)?;
        histories(&b, &w, ops, depth - 1, path, st)?;
        path.pop();
    }
    Ok(())
}

pub fn g01(ctx: &mut Ctx) {
    let top = ctx.pick(5, 8);
    macro_rules! each_type {
        ($f:ident, $desc:expr, $($arg:expr),*) => {
            ctx.case(|| format!("f64 {}", $desc), |st| $f::<f64>($($arg,)* st));
            ctx.case(|| format!("f32 {}", $desc), |st| $f::<f32>($($arg,)* st));
            ctx.case(|| format!("i8 {}", $desc), |st| $f::<i8>($($arg,)* st));
            ctx.case(|| format!("i16 {}", $desc), |st| $f::<i16>($($arg,)* st));
            ctx.case(|| format!("i32 {}", $desc), |st| $f::<i32>($($arg,)* st));
            ctx.case(|| format!("i64 {}", $desc), |st| $f::<i64>($($arg,)* st));
        };
    }
    // every shape, every operation, every argument
    for r in 1..=top {
        for c in 1..=top {
            for salt in 0..ctx.pick(2, 3) {
                let m = M::pattern(r, c, salt);
                each_type!(unary, format!("unary {}", m.show()), &m);
            }
        }
    }
    for len in 0..=ctx.pick(30, 80) {
        each_type!(constructors, format!("constructors {len}"), len);
    }
    // every pair of shapes (those that do not fit must fail)
    let bt = ctx.pick(4, 6);
    for r in 1..=bt {
        for c in 1..=bt {
            for r2 in 1..=bt {
                for c2 in 1..=bt {
                    for salt in 0..ctx.pick(1, 2) {
                        let (m, o) = (M::pattern(r, c, salt), M::pattern(r2, c2, salt + 1));
                        each_type!(binary, format!("binary {} {}", m.show(), o.show()), &m, &o);
                    }
                }
            }
        }
    }
    // every 2x2 pair over a small set of values
    let vals: &[i64] = ctx.pick(&[-1, 0, 2], &[-1, 0, 1, 2]);
    let k = vals.len();
    util::product(&[k, k, k, k, k, k, k, k], |d| {
        let m = M { r: 2, c: 2, v: d[..4].iter().map(|i| vals[*i]).collect() };
        let o = M { r: 2, c: 2, v: d[4..].iter().map(|i| vals[*i]).collect() };
        ctx.case(|| format!("f64 pair {} {}", m.show(), o.show()), |st| binary::<f64>(&m, &o, st));
    });
    // long, thin and large operands
    let sizes: &[usize] = ctx.pick(&[1, 7, 16, 33, 65], &[1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129]);
    for &r in sizes {
        for &k in sizes {
            for &c in sizes {
                let (m, o) = (M::pattern(r, k, 1), M::pattern(k, c, 2));
                ctx.case(
                    || format!("product {r}x{k}x{c}"),
                    |st| {
                        st.step();
                        let p = m.mul(&o).unwrap();
                        same("product f64", &(&real::<f64>(&m) * &real::<f64>(&o)), &p)?;
                        same("product i64", &(&real::<i64>(&m) * &real::<i64>(&o)), &p)
                    },
                );
            }
            let m = M::pattern(r, k, 3);
            ctx.case(
                || format!("shape {r}x{k}"),
                |st| {
                    st.steps(8);
                    let a = real::<i32>(&m);
                    same("transpose", &a.transpose(), &m.transpose())?;
                    same("sum", &(&a + &a), &m.elementwise(&m, |x, y| x + y).unwrap())?;
                    same("difference", &(&a - &a), &M::zero(r, k))?;
                    same("augment", &(&a | &a), &m.augment(&m).unwrap())?;
                    let (mut b, mut w) = (a.clone(), m.clone());
                    for op in [Op::Swap(0, r - 1), Op::Add(r - 1, 0), Op::AddScaled(0, r - 1, -2), Op::RowScale(r - 1, 3), Op::Scale(2)] {
                        apply(&mut b, &mut w, op);
                        same(&format!("{op:?}"), &b, &w)?;
                    }
                    same("subset", &b.subset(r / 2, k / 2, r - 1, k - 1), &w.subset(r / 2, k / 2, r - 1, k - 1).unwrap())
                },
            );
        }
    }
    // special values reach the result of every operation that uses them
    let sp = [0.0, 1.0, f64::INFINITY, f64::NAN];
    util::product(&[4, 4, 4, 4], |d| {
        let d: Vec<f64> = d.iter().map(|i| sp[*i]).collect();
        ctx.case(
            || format!("special values {d:?}"),
            |st| {
                st.steps(3);
                let same_f = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
                let a = Matrix::from_vec(2, vec![d[0], d[1], 1.0, 2.0]).unwrap();
                let b = Matrix::from_vec(2, vec![d[2], 3.0, d[3], 4.0]).unwrap();
                let p = &a * &b;
                check!(same_f(p[(0, 0)], d[0] * d[2] + d[1] * d[3]), "product element is {}", p[(0, 0)]);
                check!(same_f(p[(0, 1)], d[0] * 3.0 + d[1] * 4.0), "product element is {}", p[(0, 1)]);
                let mut s = a.clone();
                s.inplace_scaled_row_add(0, 1, d[2]);
                check!(same_f(s[(0, 0)], d[0] + 1.0 * d[2]) && same_f(s[(0, 1)], d[1] + 2.0 * d[2]), "scaled row addition gave {s}");
                let mut s = a.clone();
                s.inplace_row_scale(0, d[3]);
                check!(same_f(s[(0, 0)], d[0] * d[3]) && same_f(s[(0, 1)], d[1] * d[3]), "row scaling gave {s}");
                Ok(())
            },
        );
    });
    // all operation sequences
    let depth2 = ctx.pick(3, 5);
    let ops = alphabet(2);
    for first in ops.iter() {
        for second in ops.iter() {
            ctx.case(
                || format!("history 2x2 {first:?} {second:?} then {depth2} more"),
                |st| {
                    let mut m = M { r: 2, c: 2, v: vec![1, 2, 3, -1] };
                    let mut a = real::<f64>(&m);
                    apply(&mut a, &mut m, *first);
                    apply(&mut a, &mut m, *second);
                    same("two operations", &a, &m)?;
                    histories(&a, &m, &ops, depth2, &mut vec![], st)
                },
            );
        }
    }
    let depth3 = ctx.pick(2, 3);
    let ops = alphabet(3);
    for first in ops.iter() {
        for second in ops.iter() {
            ctx.case(
                || format!("history 3x3 {first:?} {second:?} then {depth3} more"),
                |st| {
                    let mut m = M { r: 3, c: 3, v: vec![1, 2, 3, -1, 0, 2, 4, 1, -2] };
                    let mut a = real::<i32>(&m);
                    apply(&mut a, &mut m, *first);
                    apply(&mut a, &mut m, *second);
                    same("two operations", &a, &m)?;
                    histories(&a, &m, &ops, depth3, &mut vec![], st)
                },
            );
        }
    }
}

fn indices(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n + 2).collect();
    v.extend([2 * n + 1, n * n + 3, u32::MAX as usize, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX]);
    v
}

fn bounds<T: Num>(m: &M, st: &mut Stats) -> Result<(), String> {
    let a = real::<T>(m);
    let (ri, ci) = (indices(m.r), indices(m.c));
    let judge = |what: String, got: Result<(), String>, ok: bool| opt(&what, got, ok).map(|_| ());
    for &i in &ri {
        for &j in &ci {
            st.steps(2);
            let ok = i < m.r && j < m.c;
            match catch(|| a[(i, j)]) {
                Ok(x) => check!(ok && x == T::of(m.at(i, j)), "reading ({i},{j}) of a {}x{} matrix gave {x}", m.r, m.c),
                Err(e) => check!(!ok, "reading ({i},{j}) of a {}x{} matrix failed: {e}", m.r, m.c),
            }
            let (mut b, mut w) = (a.clone(), m.clone());
            let r = catch(|| b[(i, j)] = T::of(7));
            if ok {
                w.set(i, j, 7);
            }
            judge(format!("writing ({i},{j}) of a {}x{} matrix", m.r, m.c), r, ok)?;
            same(&format!("after writing ({i},{j})"), &b, &w)?;
        }
    }
    for &x in &ri {
        let (mut b, mut w) = (a.clone(), m.clone());
        let ok = x < m.r;
        let r = catch(|| b.inplace_row_scale(x, T::of(2)));
        if ok {
            w.scale_row(x, 2);
        }
        judge(format!("scaling row {x}"), r, ok)?;
        same(&format!("after scaling row {x}"), &b, &w)?;
        for &y in &ri {
            st.steps(3);
            let ok = x < m.r && y < m.r;
            for k in 0..3 {
                let (mut b, mut w) = (a.clone(), m.clone());
                let r = catch(|| match k {
                    0 => b.inplace_row_swap(x, y),
                    1 => b.inplace_row_add(x, y),
                    _ => b.inplace_scaled_row_add(x, y, T::of(2)),
                });
                if ok {
                    match k {
                        0 => w.swap(x, y),
                        1 => w.add_row(x, y, 1),
                        _ => w.add_row(x, y, 2),
                    }
                }
                let what = ["swapping", "adding", "scaling and adding"][k];
                judge(format!("{what} rows {x} and {y}"), r, ok)?;
                same(&format!("after {what} rows {x} and {y}"), &b, &w)?;
            }
        }
    }
    for &r1 in &ri {
        for &r2 in &ri {
            for &c1 in &ci {
                for &c2 in &ci {
                    st.step();
                    let want = m.subset(r1, c1, r2, c2);
                    match (catch(|| a.subset(r1, c1, r2, c2)), want) {
                        (Ok(x), Some(w)) => same(&format!("subset({r1},{c1},{r2},{c2})"), &x, &w)?,
                        (Err(_), None) => {}
                        (Ok(x), None) => {
                            return Err(format!("subset({r1},{c1},{r2},{c2}) of a {}x{} matrix gave a {}x{} matrix", m.r, m.c, x.get_rows(), x.get_cols()))
                        }
                        (Err(e), Some(_)) => return Err(format!("subset({r1},{c1},{r2},{c2}) failed: {e}")),
                    }
                }
            }
        }
    }
    match (catch(|| a.trace()), m.r == m.c) {
        (Ok(Ok(_)), true) | (Ok(Err(_)), false) => {}
        _ => return Err("trace must fail with an error exactly for matrices that are not square".into()),
    }
    if m.r != m.c {
        let mut b = a.clone();
        match catch(|| b.try_inplace_invert()) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => return Err("a matrix that is not square was inverted".into()),
            Err(e) => return Err(format!("inverting a matrix that is not square panicked: {e}")),
        }
        same("after the refused inversion", &b, m)?;
    }
    same("the matrix after refused operations", &a, m)
}

pub fn g03(ctx: &mut Ctx) {
    let top = ctx.pick(4, 6);
    for r in 1..=top {
        for c in 1..=top {
            let m = M::pattern(r, c, 1);
            ctx.case(|| format!("f64 {r}x{c}"), |st| bounds::<f64>(&m, st));
            ctx.case(|| format!("i32 {r}x{c}"), |st| bounds::<i32>(&m, st));
        }
    }
    // operands that do not fit
    for r in 1..=top {
        for c in 1..=top {
            for r2 in 1..=top {
                for c2 in 1..=top {
                    if r == r2 && c == c2 && r == c {
                        continue;
                    }
                    let (m, o) = (M::pattern(r, c, 0), M::pattern(r2, c2, 1));
                    ctx.case(|| format!("operands {r}x{c} and {r2}x{c2}"), |st| binary::<f64>(&m, &o, st));
                }
            }
        }
    }
    for len in 0..=ctx.pick(40, 120) {
        ctx.case(|| format!("vector of {len}"), |st| constructors::<i64>(len, st));
    }
    // sizes that no memory can hold, also where their product would wrap around to a small number
    ctx.case(|| "sizes beyond any memory, f64".into(), |st| sizes::<f64>(st));
    ctx.case(|| "sizes beyond any memory, f32".into(), |st| sizes::<f32>(st));
    ctx.case(|| "sizes beyond any memory, i8".into(), |st| sizes::<i8>(st));
    ctx.case(|| "sizes beyond any memory, i64".into(), |st| sizes::<i64>(st));
}

fn sizes<T: Num>(st: &mut Stats) -> Result<(), String> {
    let mut list: Vec<usize> = vec![0, 1, 2, 3, 5, 6, usize::MAX];
    for k in [16, 31, 32, 33, 48, 61, 62, 63] {
        list.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + (1 << (k / 2))]);
    }
    for d in [3usize, 5, 6, 7, 9, 11] {
        // the smallest number whose product with d wraps around
        list.push(usize::MAX / d + 1);
    }
    for &r in &list {
        for &c in &list {
            let bytes = (r as u128 * c as u128).saturating_mul(std::mem::size_of::<T>() as u128);
            if bytes == 0 || bytes <= isize::MAX as u128 {
                continue; // may be held, by some machine
            }
            st.step();
            if let Ok(m) = catch(|| Matrix::<T>::new(r, c)) {
                let first = catch(|| m[(r - 1, c - 1)]);
                return Err(format!(
                    "a matrix of {r}x{c} values was made; it says it is {}x{}, holds {} values and its last value is {first:?}",
                    m.get_rows(),
                    m.get_cols(),
                    m.iter().count()
                ));
            }
        }
    }
    Ok(())
}
