//! G04: histories of calls of the C interface over a store of handles.

use gmatlib::ffi::*;
use mc_core::{alloc, clear_panic, util, Ctx, Stats};
use std::ffi::c_void;

#[derive(Clone, Debug, PartialEq)]
pub struct F {
    pub r: usize,
    pub c: usize,
    pub v: Vec<f64>,
}

impl F {
    pub fn pattern(r: usize, c: usize, salt: usize) -> F {
        F { r, c, v: (0..r * c).map(|k| ((k * 7 + k * k + salt * 5 + 3) % 11) as f64 - 4.0).collect() }
    }
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.v[i * self.c + j]
    }
    pub fn build(r: usize, c: usize, f: impl Fn(usize, usize) -> f64) -> F {
        F { r, c, v: (0..r * c).map(|k| f(k / c, k % c)).collect() }
    }
    pub fn det(&self) -> f64 {
        crate::model::M { r: self.r, c: self.c, v: self.v.iter().map(|x| *x as i64).collect() }.det() as f64
    }
    pub fn integral(&self) -> bool {
        self.v.iter().all(|x| x.fract() == 0.0 && x.abs() < 1e4)
    }
}

const FAR: u32 = u32::MAX;

/// Slots are indices into the store, in order of creation.
#[derive(Clone, Copy, Debug)]
enum Op {
    New(u32, u32),
    Ident(u32),
    Swap(usize, u32, u32),
    RowScale(usize, u32, f64),
    Scale(usize, f64),
    RowAdd(usize, u32, u32),
    RowAddScaled(usize, u32, u32, f64),
    Mul(usize, usize),
    Aug(usize, usize),
    Sub(usize, u32, u32, u32, u32),
    Trace(usize),
    Transpose(usize),
    Invert(usize),
    Set(usize, u32, u32, f64),
    Get(usize, u32, u32),
    Clone(usize),
    Free(usize),
}

struct Store {
    real: Vec<(*mut c_void, F)>,
}

fn make(f: &F) -> *mut c_void {
    let p = new_double_matrix(f.r as u32, f.c as u32);
    for i in 0..f.r {
        for j in 0..f.c {
            index_mut_double_matrix(p, i as u32, j as u32, f.at(i, j));
        }
    }
    p
}

fn compare(p: *mut c_void, f: &F) -> Result<(), String> {
    for i in 0..f.r {
        for j in 0..f.c {
            let x = index_double_matrix(p, i as u32, j as u32);
            if x != f.at(i, j) && !(x.is_nan() && f.at(i, j).is_nan()) {
                return Err(format!("element ({i},{j}) is {x}, expected {}", f.at(i, j)));
            }
        }
    }
    // the shape, seen from outside
    if index_double_matrix(p, f.r as u32, 0) != f64::MIN || index_double_matrix(p, 0, f.c as u32) != f64::MIN {
        return Err(format!("the matrix is larger than {}x{}", f.r, f.c));
    }
    Ok(())
}

impl Store {
    /// Adds the returned handle, or demands NULL.
    fn returned(&mut self, p: *mut c_void, want: Option<F>) -> Result<(), String> {
        match (p.is_null(), want) {
            (false, Some(f)) => {
                if self.real.iter().any(|(q, _)| *q == p) {
                    return Err("the returned handle is one that is already in use".into());
                }
                self.real.push((p, f));
                Ok(())
            }
            (true, None) => Ok(()),
            (true, Some(_)) => Err("NULL was returned for a valid request".into()),
            (false, None) => {
                free_double_matrix(p);
                Err("a handle was returned for an invalid request".into())
            }
        }
    }

    fn flag(&self, got: u32, ok: bool) -> Result<(), String> {
        if got == ok as u32 {
            Ok(())
        } else {
            Err(format!("status {got} returned, expected {}", ok as u32))
        }
    }

    fn apply(&mut self, op: Op, st: &mut Stats) -> Result<bool, String> {
        let n = self.real.len();
        let h = |k: usize| self.real[k].0;
        let f = |k: usize| self.real[k].1.clone();
        let arity = match op {
            Op::New(..) | Op::Ident(_) => 0,
            Op::Mul(a, b) | Op::Aug(a, b) => a.max(b) + 1,
            Op::Swap(k, ..) | Op::RowScale(k, ..) | Op::Scale(k, _) | Op::RowAdd(k, ..) | Op::RowAddScaled(k, ..) => k + 1,
            Op::Sub(k, ..) | Op::Trace(k) | Op::Transpose(k) | Op::Invert(k) | Op::Set(k, ..) | Op::Get(k, ..) | Op::Clone(k) | Op::Free(k) => k + 1,
        };
        if arity > n || n >= 5 && matches!(op, Op::New(..) | Op::Ident(_) | Op::Mul(..) | Op::Aug(..) | Op::Sub(..) | Op::Transpose(_) | Op::Clone(_)) {
            return Ok(false);
        }
        st.step();
        match op {
            Op::New(r, c) => {
                let want = (r < 1000 && c < 1000).then(|| F::build(r as usize, c as usize, |_, _| 0.0));
                self.returned(new_double_matrix(r, c), want)?
            }
            Op::Ident(k) => {
                let want = (k < 1000).then(|| F::build(k as usize, k as usize, |i, j| (i == j) as u8 as f64));
                self.returned(new_double_identity_matrix(k), want)?
            }
            Op::Swap(k, a, b) => {
                let (p, mut m) = (h(k), f(k));
                let ok = (a as usize) < m.r && (b as usize) < m.r;
                self.flag(inplace_row_swap(p, a, b), ok)?;
                if ok {
                    for j in 0..m.c {
                        m.v.swap(a as usize * m.c + j, b as usize * m.c + j);
                    }
                }
                self.real[k].1 = m;
            }
            Op::RowScale(k, a, s) => {
                let (p, m) = (h(k), f(k));
                let ok = (a as usize) < m.r;
                self.flag(inplace_row_scale(p, a, s), ok)?;
                self.real[k].1 = F::build(m.r, m.c, |i, j| if i == a as usize { m.at(i, j) * s } else { m.at(i, j) });
            }
            Op::Scale(k, s) => {
                let (p, m) = (h(k), f(k));
                self.flag(inplace_scale(p, s), true)?;
                self.real[k].1 = F::build(m.r, m.c, |i, j| m.at(i, j) * s);
            }
            Op::RowAdd(k, a, b) | Op::RowAddScaled(k, a, b, _) => {
                let (p, m) = (h(k), f(k));
                let s = if let Op::RowAddScaled(.., s) = op { s } else { 1.0 };
                let ok = (a as usize) < m.r && (b as usize) < m.r;
                let got = if let Op::RowAddScaled(..) = op { inplace_scaled_row_add(p, a, b, s) } else { inplace_row_add(p, a, b) };
                self.flag(got, ok)?;
                if ok {
                    self.real[k].1 = F::build(m.r, m.c, |i, j| if i == a as usize { m.at(i, j) + s * m.at(b as usize, j) } else { m.at(i, j) });
                }
            }
            Op::Mul(a, b) => {
                let (x, y) = (f(a), f(b));
                let want = (x.c == y.r).then(|| F::build(x.r, y.c, |i, j| (0..x.c).fold(0.0, |t, q| t + x.at(i, q) * y.at(q, j))));
                let p = multiply_matrix(h(a), h(b));
                self.returned(p, want)?
            }
            Op::Aug(a, b) => {
                let (x, y) = (f(a), f(b));
                let want = (x.r == y.r).then(|| F::build(x.r, x.c + y.c, |i, j| if j < x.c { x.at(i, j) } else { y.at(i, j - x.c) }));
                let p = augment_with(h(a), h(b));
                self.returned(p, want)?
            }
            Op::Sub(k, r1, c1, r2, c2) => {
                let m = f(k);
                let ok = r1 <= r2 && c1 <= c2 && (r2 as usize) < m.r && (c2 as usize) < m.c;
                let want = ok.then(|| F::build((r2 - r1 + 1) as usize, (c2 - c1 + 1) as usize, |i, j| m.at(i + r1 as usize, j + c1 as usize)));
                let p = subset(h(k), r1, c1, r2, c2);
                self.returned(p, want)?
            }
            Op::Trace(k) => {
                let m = f(k);
                let got = trace(h(k));
                let want = if m.r == m.c { (0..m.r).fold(0.0, |t, i| t + m.at(i, i)) } else { f64::NAN };
                if got != want && !(got.is_nan() && want.is_nan()) {
                    return Err(format!("trace returned {got}, expected {want}"));
                }
            }
            Op::Transpose(k) => {
                let m = f(k);
                let p = transpose(h(k));
                self.returned(p, Some(F::build(m.c, m.r, |i, j| m.at(j, i))))?
            }
            Op::Invert(k) => {
                let m = f(k);
                let p = h(k);
                let got = try_inplace_invert(p);
                let want = if m.r != m.c {
                    Some(3)
                } else if m.integral() && m.r <= 4 {
                    Some(match (m.det() == 0.0, m.r) {
                        (false, _) => u32::MAX,
                        (true, 1) => 1,
                        (true, _) => 0,
                    })
                } else if m.v.iter().all(|x| *x == 0.0) {
                    Some(2)
                } else {
                    None
                };
                if want.map_or(false, |w| w != got) || !matches!(got, 0..=3 | u32::MAX) {
                    return Err(format!("inversion returned status {got}, expected {want:?}"));
                }
                if got == u32::MAX {
                    let inv = F::build(m.r, m.c, |i, j| index_double_matrix(p, i as u32, j as u32));
                    for i in 0..m.r {
                        for j in 0..m.c {
                            let s: f64 = (0..m.c).map(|q| m.at(i, q) * inv.at(q, j)).sum();
                            let scale: f64 = (0..m.c).map(|q| (m.at(i, q) * inv.at(q, j)).abs()).sum();
                            if (s - (i == j) as u8 as f64).abs() > 1e-9 * scale.max(1.0) {
                                return Err(format!("product with the inverse is {s} at ({i},{j})"));
                            }
                        }
                    }
                    self.real[k].1 = inv;
                }
            }
            Op::Set(k, i, j, x) => {
                let (p, mut m) = (h(k), f(k));
                let ok = (i as usize) < m.r && (j as usize) < m.c;
                self.flag(index_mut_double_matrix(p, i, j, x), ok)?;
                if ok {
                    let c = m.c;
                    m.v[i as usize * c + j as usize] = x;
                }
                self.real[k].1 = m;
            }
            Op::Get(k, i, j) => {
                let m = f(k);
                let got = index_double_matrix(h(k), i, j);
                let want = if (i as usize) < m.r && (j as usize) < m.c { m.at(i as usize, j as usize) } else { f64::MIN };
                if got != want {
                    return Err(format!("index ({i},{j}) returned {got}, expected {want}"));
                }
            }
            Op::Clone(k) => {
                let m = f(k);
                let p = clone_double_matrix(h(k));
                self.returned(p, Some(m))?
            }
            Op::Free(k) => {
                let (p, _) = self.real.remove(k);
                free_double_matrix(p);
            }
        }
        Ok(true)
    }
}

fn run(init: &[F], ops: &[Op], st: &mut Stats) -> Result<(), String> {
    history(init, ops, st).map(|_| ())
}

/// `Ok(Some(i))`: call `i` does not apply, as it names a matrix that is not there.
fn history(init: &[F], ops: &[Op], st: &mut Stats) -> Result<Option<usize>, String> {
    let mut stop = None;
    alloc::strict(true);
    clear_panic();
    let start = alloc::balance();
    let mut s = Store { real: vec![] };
    for f in init {
        let p = make(f);
        s.returned(p, Some(f.clone()))?;
    }
    for (k, op) in ops.iter().enumerate() {
        if !s.apply(*op, st).map_err(|e| format!("call {k} ({op:?}): {e}"))? {
            stop = Some(k);
            break;
        }
        for (i, (p, f)) in s.real.iter().enumerate() {
            compare(*p, f).map_err(|e| format!("after call {k} ({op:?}), matrix {i}: {e}"))?;
        }
    }
    let reached = s.real.iter().fold(7, |h, (_, f)| util::mix(util::mix(h, util::fnv_f64(&f.v)), (f.r * 97 + f.c) as u64));
    for (p, _) in s.real.drain(..) {
        free_double_matrix(p);
    }
    drop(s);
    clear_panic();
    let left = alloc::balance() - start;
    st.state(reached);
    if left != 0 {
        return Err(format!("{left} memory blocks are left after every handle was freed"));
    }
    Ok(stop)
}

fn alphabet() -> Vec<Op> {
    use Op::*;
    let mut v = vec![New(1, 2), New(FAR, FAR), Ident(2), Ident(FAR)];
    for k in 0..3 {
        v.extend([
            Swap(k, 0, 1), Swap(k, 0, 7), RowScale(k, 1, -2.0), RowScale(k, FAR, 2.0), Scale(k, 3.0), RowAdd(k, 0, 1), RowAdd(k, 5, 0),
            RowAddScaled(k, 1, 0, 2.0), RowAddScaled(k, 0, 9, 2.0), Sub(k, 0, 0, 0, 1), Sub(k, 0, 1, 9, 1), Sub(k, 1, 0, 0, 0), Trace(k),
            Transpose(k), Invert(k), Set(k, 0, 1, 5.0), Set(k, 0, 4, 5.0), Get(k, 1, 1), Get(k, 0, FAR), Clone(k), Free(k),
        ]);
        for j in 0..3 {
            v.extend([Mul(k, j), Aug(k, j)]);
        }
    }
    v
}

pub fn g04(ctx: &mut Ctx) {
    let init = [F::pattern(2, 2, 0), F::pattern(2, 3, 1)];
    let ops = alphabet();
    let depth = ctx.pick(3, 4);
    let n = ops.len();
    // one case per prefix of two calls
    for a in 0..n {
        for b in 0..n {
            let prefix = [ops[a], ops[b]];
            ctx.case(
                || format!("history {prefix:?} then every {} more", depth - 2),
                |st| {
                    let mut seq = prefix.to_vec();
                    seq.resize(depth, Op::New(1, 1));
                    let mut d = vec![0; depth - 2];
                    loop {
                        for (i, k) in d.iter().enumerate() {
                            seq[2 + i] = ops[*k];
                        }
                        let stop = match history(&init, &seq, st).map_err(|e| format!("{seq:?}: {e}"))? {
                            Some(i) if i < 2 => return Ok(()),
                            Some(i) => i - 2,
                            None => depth - 3,
                        };
                        // the next sequence that differs at or before `stop`
                        let mut i = stop + 1;
                        d[i..].fill(0);
                        loop {
                            if i == 0 {
                                return Ok(());
                            }
                            i -= 1;
                            d[i] += 1;
                            if d[i] < n {
                                break;
                            }
                            d[i] = 0;
                        }
                    }
                },
            );
        }
    }
    // long rows and columns
    for (r, c) in [(257usize, 2usize), (2, 257), (300, 1), (1, 300), (65_537, 1), (1, 65_537), (129, 130)] {
        let (lr, lc) = (r as u32 - 1, c as u32 - 1);
        for op in [
            Op::Get(0, lr, lc), Op::Set(0, lr, lc, 2.5), Op::Get(0, lr, lc + 1), Op::Get(0, lr + 1, lc), Op::Set(0, lr + 1, 0, 1.0), Op::Set(0, 0, lc + 1, 1.0), Op::Swap(0, 0, lr),
            Op::Swap(0, lr, lr + 1), Op::RowAdd(0, 0, lr), Op::RowAddScaled(0, lr, 0, -1.5), Op::RowScale(0, lr, 0.5), Op::RowScale(0, lr + 1, 0.5), Op::Scale(0, 2.0), Op::Trace(0),
            Op::Transpose(0), Op::Clone(0), Op::Sub(0, 0, 0, lr, lc), Op::Sub(0, lr, 0, lr, lc), Op::Sub(0, 0, lc, lr, lc), Op::Sub(0, 0, 0, lr + 1, lc), Op::Invert(0), Op::Aug(0, 0), Op::Mul(0, 1),
        ] {
            ctx.case(|| format!("{r}x{c} {op:?}"), |st| run(&[F::pattern(r, c, 2), F::pattern(c, 2, 1)], &[op], st));
        }
    }
    // every shape and argument for each entry point
    let top = ctx.pick(4, 6);
    for r in 1..=top {
        for c in 1..=top {
            let idx: Vec<u32> = (0..r.max(c) as u32 + 2).chain([1 << 16, FAR]).collect();
            let m = [F::pattern(r, c, 2)];
            for &i in &idx {
                for &j in &idx {
                    for op in [
                        Op::Get(0, i, j), Op::Set(0, i, j, 2.5), Op::Swap(0, i, j), Op::RowAdd(0, i, j), Op::RowAddScaled(0, i, j, -1.5), Op::RowScale(0, i, 0.5),
                    ] {
                        ctx.case(|| format!("{r}x{c} {op:?}"), |st| run(&m, &[op, op], st));
                    }
                    for &k in &idx {
                        for &l in &idx {
                            let op = Op::Sub(0, i, j, k, l);
                            ctx.case(|| format!("{r}x{c} {op:?}"), |st| run(&m, &[op], st));
                        }
                    }
                }
            }
            for op in [Op::Trace(0), Op::Transpose(0), Op::Invert(0), Op::Clone(0), Op::Scale(0, -0.25), Op::New(r as u32, c as u32), Op::Ident(r as u32)] {
                ctx.case(|| format!("{r}x{c} {op:?}"), |st| run(&m, &[op, Op::Free(0)], st));
            }
            for r2 in 1..=top {
                for c2 in 1..=top {
                    for op in [Op::Mul(0, 1), Op::Aug(0, 1), Op::Mul(1, 0), Op::Aug(1, 0)] {
                        ctx.case(|| format!("{r}x{c} {r2}x{c2} {op:?}"), |st| run(&[F::pattern(r, c, 1), F::pattern(r2, c2, 2)], &[op, Op::Free(0)], st));
                    }
                }
            }
        }
    }
    // the four ways an inversion can fail, each followed by use of the matrix
    for n in 1..=6usize {
        for op in [Op::Invert(0), Op::Trace(0), Op::Set(0, 0, 0, 3.0)] {
            ctx.case(|| format!("zero {n}x{n} inverted, {op:?}"), |st| run(&[F::build(n, n, |_, _| 0.0)], &[Op::Invert(0), op, Op::Free(0)], st));
        }
    }
}
