//! G02: inversion.

use crate::arith::same;
use crate::model::M;
use gmatlib::Matrix;
use mc_core::{catch, util, Ctx, Stats};

/// `scale[i]` multiplies row i, `cscale[j]` column j; powers of two, so exact.
fn judge(m: &M, e_row: &[i32], e_col: &[i32], st: &mut Stats) -> Result<(), String> {
    judge_within(m, e_row, e_col, None, st)
}

fn judge_within(m: &M, e_row: &[i32], e_col: &[i32], tol: Option<f64>, st: &mut Stats) -> Result<(), String> {
    let n = m.r;
    let two = |e: i32| 2f64.powi(e);
    let vals: Vec<f64> = (0..n * n).map(|k| m.v[k] as f64 * two(e_row[k / n]) * two(e_col[k % n])).collect();
    let mut a = Matrix::from_vec(n, vals.clone()).map_err(|e| e.to_string())?;
    let det = m.det();
    st.state(util::fnv_f64(&vals));
    st.step();
    let res = match catch(|| a.try_inplace_invert()) {
        Ok(r) => r,
        Err(p) => return Err(format!("inversion panicked: {p}")),
    };
    if (a.get_rows(), a.get_cols()) != (n, n) {
        return Err(format!("the matrix became {}x{}", a.get_rows(), a.get_cols()));
    }
    let got: Vec<f64> = a.iter().copied().collect();
    match res {
        Err(e) => {
            if got != vals {
                return Err(format!("the failed inversion ({e}) changed the matrix to {a}"));
            }
            if det != 0 {
                return Err(format!("the matrix has the inverse (determinant {det} before scaling) but: {e}"));
            }
            st.outcome("singular, reported");
            Ok(())
        }
        Ok(()) => {
            if det == 0 {
                if n <= 4 || obviously_singular(m) {
                    return Err(format!("a singular matrix was 'inverted' to {a}"));
                }
                // elimination of larger singular matrices may leave a rounding residue
                st.outcome("singular, larger than 4x4, rounding residue");
                return Ok(());
            }
            // unscale: inverse of D A E is E^-1 A^-1 D^-1
            let inv: Vec<f64> = (0..n * n).map(|k| got[k] * two(e_col[k / n]) * two(e_row[k % n])).collect();
            let big = inv.iter().fold(1f64, |x, y| x.max(y.abs()));
            let amax = m.v.iter().fold(1f64, |x, y| x.max(y.abs() as f64));
            let tol = tol.unwrap_or(1e-13 * big * big * amax * amax * n as f64);
            if !(tol < 1e-3) {
                return Err(format!("the inverse has elements of {big}"));
            }
            for i in 0..n {
                for j in 0..n {
                    let id = (i == j) as i32 as f64;
                    let l: f64 = (0..n).map(|k| m.at(i, k) as f64 * inv[k * n + j]).sum();
                    let r: f64 = (0..n).map(|k| inv[i * n + k] * m.at(k, j) as f64).sum();
                    if !((l - id).abs() <= tol && (r - id).abs() <= tol) {
                        return Err(format!("the product with the inverse {a} is not the identity at ({i},{j}): {l} and {r}"));
                    }
                }
            }
            st.outcome("inverted");
            Ok(())
        }
    }
}

/// Singular in a way that elimination decides exactly: a zero row or column, or two equal rows.
fn obviously_singular(m: &M) -> bool {
    let n = m.r;
    let row = |i: usize| &m.v[i * n..(i + 1) * n];
    (0..n).any(|i| row(i).iter().all(|x| *x == 0))
        || (0..n).any(|j| (0..n).all(|i| m.at(i, j) == 0))
        || (0..n).any(|i| (0..i).any(|k| row(i) == row(k)))
}

fn all(ctx: &mut Ctx, n: usize, vals: &[i64]) {
    let z = vec![0; n];
    util::product(&vec![vals.len(); n * n], |d| {
        ctx.case(
            || format!("{:?}", d.iter().map(|i| vals[*i]).collect::<Vec<_>>()),
            |st| judge(&M { r: n, c: n, v: d.iter().map(|i| vals[*i]).collect() }, &z, &z, st),
        );
    });
}

pub fn g02(ctx: &mut Ctx) {
    // every small matrix
    let wide: Vec<i64> = (-9..=9).collect();
    all(ctx, 1, &wide);
    let v2: Vec<i64> = if ctx.quick() { (-4..=4).collect() } else { (-9..=9).collect() };
    all(ctx, 2, &v2);
    let v3: &[i64] = ctx.pick(&[-1, 0, 1, 3], &[-2, -1, 0, 1, 3]);
    all(ctx, 3, v3);
    if ctx.quick() {
        all(ctx, 4, &[0, 1]);
    } else {
        all(ctx, 4, &[-1, 0, 1]);
    }
    // every 0/1 matrix of size 5 (thorough), and structured larger ones
    if !ctx.quick() {
        all(ctx, 5, &[0, 1]);
    }
    // 4x4: every permutation of rows of full matrices, so that each cofactor is distinct
    for salt in 0..ctx.pick(40, 400) {
        for n in 2..=4usize {
            let base = M::pattern(n, n, salt);
            for p in util::permutations(n) {
                let mut m = base.clone();
                for (i, k) in p.iter().enumerate() {
                    for j in 0..n {
                        m.set(i, j, base.at(*k, j));
                    }
                }
                ctx.case(|| format!("pattern {salt} rows {p:?} {}", m.show()), |st| judge(&m, &vec![0; n], &vec![0; n], st));
            }
        }
    }
    // larger: permutation matrices times (identity + a few off-diagonal entries): forces pivoting at every step
    for n in ctx.pick(vec![5usize], vec![5, 6]) {
        for p in util::permutations(n) {
            for fill in 0..ctx.pick(6, 12) {
                let mut m = M::zero(n, n);
                for (i, k) in p.iter().enumerate() {
                    m.set(i, *k, [1, -2, 3][(i + fill) % 3]);
                }
                if fill > 0 {
                    // strictly upper entries in terms of the permuted columns keep the matrix regular
                    for i in 0..n {
                        for j in i + 1..n {
                            if (i * 3 + j * 5 + fill) % 4 < 2 {
                                m.set(i, p[j], ((i + 2 * j + fill) % 5) as i64 - 2);
                            }
                        }
                    }
                }
                ctx.case(|| format!("permuted triangle {p:?} fill {fill}"), |st| judge(&m, &vec![0; n], &vec![0; n], st));
                // the same with two equal rows, with a zero row and with a zero column
                for k in 0..3 {
                    let mut s = m.clone();
                    for j in 0..n {
                        match k {
                            0 => s.set(n - 1, j, m.at(0, j)),
                            1 => s.set(fill % n, j, 0),
                            _ => s.set(j, fill % n, 0),
                        }
                    }
                    ctx.case(|| format!("singular {k} of permuted triangle {p:?} fill {fill}"), |st| judge(&s, &vec![0; n], &vec![0; n], st));
                }
            }
        }
    }
    // larger sizes, full matrices
    for n in (5..=24usize).chain([31, 32, 33, 48, 63, 64, 65, 100]) {
        for salt in 0..if n > 24 { 3 } else if n > 12 { ctx.pick(3, 40) } else { ctx.pick(10, 40) } {
            let mut m = M::zero(n, n);
            // L * U with unit diagonals and small entries: determinant exactly one
            let (mut l, mut u) = (M::ident(n), M::ident(n));
            for i in 0..n {
                for j in 0..i {
                    l.set(i, j, ((i * 7 + j * 3 + salt) % 3) as i64 - 1);
                    u.set(j, i, ((i * 5 + j * 11 + salt) % 3) as i64 - 1);
                }
            }
            if n <= 8 {
                m = l.mul(&u).unwrap();
            } else {
                for i in 0..n {
                    for j in 0..n {
                        m.set(i, j, if i == (j + salt) % n { 9 + n as i64 } else { ((i * 7 + j * 3 + salt) % 3) as i64 - 1 });
                    }
                }
            }
            ctx.case(|| format!("full {n}x{n} salt {salt}"), |st| {
                if n <= 8 { judge(&m, &vec![0; n], &vec![0; n], st) } else { large(&m, st) }
            });
        }
    }
    // badly scaled rows and columns (exact powers of two)
    let es: &[i32] = ctx.pick(&[-30, 0, 30], &[-60, -30, -5, 0, 30]);
    for n in 1..=5usize {
        let base = M { r: n, c: n, v: M::pattern(n, n, 4).v.iter().enumerate().map(|(k, x)| if k % (n + 1) == 0 { 7 } else { *x % 3 }).collect() };
        if base.det() == 0 {
            continue;
        }
        util::product(&vec![es.len(); n], |d| {
            let e: Vec<i32> = d.iter().map(|i| es[*i]).collect();
            let sum: i32 = e.iter().sum();
            if sum.abs() > 200 {
                return;
            }
            // pivoting looks at magnitudes only, so scaled columns are harmless at any size and
            // scaled rows where no pivoting takes place
            if n <= 4 {
                ctx.case(|| format!("rows of {} scaled by 2^{e:?}", base.show()), |st| judge(&base, &e, &vec![0; n], st));
            }
            ctx.case(|| format!("columns of {} scaled by 2^{e:?}", base.show()), |st| judge(&base, &vec![0; n], &e, st));
        });
        for e in [-1000, -330, -250, -200, -120, -60, -40, -20, 20, 40, 60, 120, 200, 250, 330, 1000] {
            // the determinant and the cofactors stay representable
            if n <= 4 && e * n as i32 > 980 || n <= 4 && e * (n as i32) < -1000 || e > 1000 {
                continue;
            }
            ctx.case(|| format!("{} scaled by 2^{e}", base.show()), |st| judge(&base, &vec![e; n], &vec![0; n], st));
        }
    }
    // rows and columns of very different size where pivoting takes place: every minor of a Pascal
    // matrix is positive, so whatever rows are taken first the others can still be told apart
    for n in 5..=6usize {
        let mut m = M::zero(n, n);
        for i in 0..n {
            for j in 0..n {
                m.set(i, j, if i == 0 || j == 0 { 1 } else { m.at(i - 1, j) + m.at(i, j - 1) });
            }
        }
        let es: &[i32] = if n == 5 { ctx.pick(&[-60, -20, 0, 60][..], &[-60, -41, -20, 0, 13, 60][..]) } else { &[-60, 0, 60] };
        util::product(&vec![es.len(); n], |d| {
            let e: Vec<i32> = d.iter().map(|i| es[*i]).collect();
            for cols in 0..3 {
                let c: Vec<i32> = (0..n).map(|i| [0, -e[n - 1 - i], e[i] / 2][cols]).collect();
                ctx.case(|| format!("rows of {} scaled by 2^{e:?}, columns by 2^{c:?}", m.show()), |st| judge_within(&m, &e, &c, Some(1e-5), st));
            }
        });
    }
    // f32
    for salt in 0..ctx.pick(20, 60) {
        for n in 1..=6usize {
            let mut m = M::pattern(n, n, salt);
            for i in 0..n {
                m.set(i, (i + salt) % n, 25);
            }
            ctx.case(
                || format!("f32 {}", m.show()),
                |st| {
                    st.step();
                    let mut a = crate::arith::real::<f32>(&m);
                    a.try_inplace_invert().map_err(|e| format!("regular matrix: {e}"))?;
                    for i in 0..n {
                        for j in 0..n {
                            let s: f64 = (0..n).map(|k| m.at(i, k) as f64 * a[(k, j)] as f64).sum();
                            if !((s - (i == j) as i32 as f64).abs() < 1e-3) {
                                return Err(format!("product with the inverse is {s} at ({i},{j})"));
                            }
                        }
                    }
                    let mut z = crate::arith::real::<f32>(&M::zero(n, n));
                    if z.try_inplace_invert().is_ok() {
                        return Err("the zero matrix was inverted".into());
                    }
                    same("the zero matrix", &z, &M::zero(n, n))
                },
            );
        }
    }
    whole_numbers(ctx);
    full_whole_numbers(ctx);
    extremes(ctx);
}

/// Matrices of whole numbers: only those whose inverse consists of whole numbers can be inverted.
fn whole_numbers(ctx: &mut Ctx) {
    for n in 1..=4usize {
        let vals: Vec<i64> = match n {
            1 => (-12..=12).collect(),
            2 => (-ctx.pick(3, 6)..=ctx.pick(3, 6)).collect(),
            3 => ctx.pick(vec![-1, 0, 2], vec![-1, 0, 1, 2]),
            _ => vec![0, 1],
        };
        util::product(&vec![vals.len(); n * n], |d| {
            ctx.case(
                || format!("whole numbers {:?}", d.iter().map(|i| vals[*i]).collect::<Vec<_>>()),
                |st| each_type(&M { r: n, c: n, v: d.iter().map(|i| vals[*i]).collect() }, st),
            );
        });
    }
    // larger ones: signed permutations, triangles with a unit diagonal, and those with other diagonals
    for n in 5..=ctx.pick(6, 8usize) {
        for shift in 0..n {
            for kind in 0..6 {
                for salt in 0..ctx.pick(3, 12) {
                    let mut m = M::zero(n, n);
                    for i in 0..n {
                        let sign = if (i * (salt + 1) + salt) % 3 == 0 { -1 } else { 1 };
                        let j = (i + shift) % n;
                        m.set(i, j, sign * if kind % 3 == 1 && i == salt % n { 2 } else { 1 });
                        if kind % 3 == 2 {
                            for k in 0..n {
                                if k > i {
                                    m.set(i, (k + shift) % n, ((i * 3 + k * 5 + salt) % 4) as i64 - 1);
                                }
                            }
                        }
                    }
                    if kind >= 3 {
                        // a product of two such, so that the elimination needs every step
                        let mut t = M::zero(n, n);
                        for i in 0..n {
                            for j in 0..n {
                                t.set(j, i, m.at(i, j));
                            }
                        }
                        let mut p = M::zero(n, n);
                        for i in 0..n {
                            for j in 0..n {
                                p.set(i, j, (0..n).map(|k| m.at(i, k) * t.at(k, (j + salt) % n)).sum());
                            }
                        }
                        m = p;
                    }
                    ctx.case(|| format!("whole numbers {}", m.show()), |st| each_type(&m, st));
                }
            }
        }
    }
}

/// Full matrices of small whole numbers, where elimination comes across fractions.
fn full_whole_numbers(ctx: &mut Ctx) {
    for n in 5..=ctx.pick(6, 8usize) {
        for range in [1i64, 2, 3] {
            let w = 2 * range + 1;
            // every polynomial a*i + b*j + c*i*j + d*i*i*j + e over the rest classes
            util::product(&[w as usize; 5], |k| {
                let k: Vec<i64> = k.iter().map(|k| *k as i64).collect();
                let at = |i: i64, j: i64| (k[0] * i + k[1] * j + k[2] * i * j + k[3] * i * i * j + k[4]) % w - range;
                let m = M { r: n, c: n, v: (0..(n * n) as i64).map(|x| at(x / n as i64, x % n as i64)).collect() };
                ctx.case(|| format!("whole numbers {}", m.show()), |st| each_type(&m, st));
            });
        }
    }
}

fn each_type(m: &M, st: &mut Stats) -> Result<(), String> {
    if m.v.iter().all(|x| x.abs() <= 2) && m.r <= 3 {
        whole::<i8>(m, |x| x as i8, |x| x as i128, st).map_err(|e| format!("i8: {e}"))?;
    }
    whole::<i32>(m, |x| x as i32, |x| x as i128, st).map_err(|e| format!("i32: {e}"))?;
    whole::<i64>(m, |x| x, |x| x as i128, st).map_err(|e| format!("i64: {e}"))
}

fn whole<T: gmatlib::Element<T>>(m: &M, to: fn(i64) -> T, from: fn(T) -> i128, st: &mut Stats) -> Result<(), String> {
    st.step();
    let n = m.r;
    let det = m.det();
    let mut a = Matrix::from_vec(n, m.v.iter().map(|x| to(*x)).collect()).map_err(|e| e.to_string())?;
    let res = catch(|| a.try_inplace_invert()).map_err(|p| format!("inversion panicked: {p}"))?;
    if (a.get_rows(), a.get_cols()) != (n, n) {
        return Err(format!("the matrix became {}x{}", a.get_rows(), a.get_cols()));
    }
    let got: Vec<i128> = a.iter().map(|x| from(*x)).collect();
    match res {
        Err(e) => {
            if got.iter().zip(&m.v).any(|(x, y)| *x != *y as i128) {
                return Err(format!("the failed inversion ({e}) changed the matrix to {a}"));
            }
            // elimination of larger matrices may need fractions on the way
            let one_per_row = (0..n).all(|i| (0..n).filter(|j| m.at(i, *j) != 0).count() == 1);
            if det.abs() == 1 && (n <= 4 || one_per_row) {
                return Err(format!("the inverse consists of whole numbers but: {e}"));
            }
            st.outcome("whole numbers, no such inverse");
        }
        Ok(()) => {
            for i in 0..n {
                for j in 0..n {
                    let l: i128 = (0..n).map(|k| m.at(i, k) as i128 * got[k * n + j]).sum();
                    if l != (i == j) as i128 {
                        return Err(format!("the product with the inverse {a} is {l} at ({i},{j})"));
                    }
                }
            }
            st.outcome("whole numbers, inverted");
        }
    }
    Ok(())
}

/// Values close to the largest and smallest numbers: the inverse is right or refused.
fn extremes(ctx: &mut Ctx) {
    for n in 1..=6usize {
        for salt in 0..ctx.pick(4, 12) {
            let mut m = M::pattern(n, n, salt);
            for i in 0..n {
                m.set(i, (i + salt) % n, 25);
            }
            for (k, e) in (-1074..=1018i32).step_by(ctx.pick(6, 1)).flat_map(|e| [(0, e), (1, e), (2, e)]) {
                let (mut r, mut c) = (vec![0; n], vec![0; n]);
                match k {
                    0 => r.iter_mut().for_each(|x| *x = e),
                    1 => r[salt % n] = e,
                    _ => c[salt % n] = e,
                }
                // a determinant that is only nearly zero has no digits left
                let size = if k == 0 { n as i32 * e } else { e };
                if (-1200..=-900).contains(&size) {
                    continue;
                }
                ctx.case(|| format!("{} times 2^{r:?}, columns 2^{c:?}", m.show()), |st| extreme(&m, &r, &c, st));
            }
        }
    }
}

fn extreme(m: &M, r: &[i32], c: &[i32], st: &mut Stats) -> Result<(), String> {
    let n = m.r;
    // twice, as 2^-1074 itself is the smallest there is
    let times = |x: f64, e: i32| x * 2f64.powi(e / 2) * 2f64.powi(e - e / 2);
    let vals: Vec<f64> = (0..n * n).map(|k| times(m.v[k] as f64, r[k / n] + c[k % n])).collect();
    st.state(util::fnv_f64(&vals));
    st.step();
    let mut a = Matrix::from_vec(n, vals.clone()).map_err(|e| e.to_string())?;
    let res = catch(|| a.try_inplace_invert()).map_err(|p| format!("inversion panicked: {p}"))?;
    let got: Vec<f64> = a.iter().copied().collect();
    if let Err(e) = res {
        if got != vals {
            return Err(format!("the failed inversion ({e}) changed the matrix to {a}"));
        }
        let mild = r.iter().chain(c).all(|e| e.abs() * n as i32 <= 800);
        if mild {
            return Err(format!("the matrix has an inverse but: {e}"));
        }
        st.outcome("extreme values, refused");
        return Ok(());
    }
    for i in 0..n {
        for j in 0..n {
            let terms: Vec<f64> = (0..n).map(|k| times(vals[i * n + k], -r[i]) * times(got[k * n + j], r[j])).collect();
            let size: f64 = terms.iter().map(|x| x.abs()).sum();
            let l: f64 = terms.iter().sum();
            if !((l - (i == j) as i32 as f64).abs() <= 1e-6 * size.max(1.0)) {
                return Err(format!("the product with the inverse {a} is {l} at ({i},{j})"));
            }
        }
    }
    st.outcome("extreme values, inverted");
    Ok(())
}

/// Diagonally dominant up to a row rotation, so always regular.
fn large(m: &M, st: &mut Stats) -> Result<(), String> {
    st.step();
    let n = m.r;
    let mut a = crate::arith::real::<f64>(m);
    a.try_inplace_invert().map_err(|e| format!("regular matrix: {e}"))?;
    for i in 0..n {
        for j in 0..n {
            let id = (i == j) as i32 as f64;
            let l: f64 = (0..n).map(|k| m.at(i, k) as f64 * a[(k, j)]).sum();
            if !((l - id).abs() < 1e-10) {
                return Err(format!("product with the inverse is {l} at ({i},{j})"));
            }
        }
    }
    st.outcome("inverted");
    Ok(())
}
