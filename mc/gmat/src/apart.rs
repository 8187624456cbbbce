//! G06: work on separate matrices does not interfere.

use gmatlib::ffi;
use gmatlib::{Element, Matrix};
use mc_core::sched::{every, explore, rest, result, steps, Out, Steps};
use mc_core::Ctx;
use num_traits::{Num, One, Zero};
use std::cmp::Ordering;
use std::fmt::{Debug, Display, Formatter};
use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Rem, Sub, SubAssign};

/// A number between whose operations something else may happen.
#[derive(Clone, Copy, PartialEq)]
struct Slow(f64);

fn op(x: f64) -> Slow {
    rest();
    Slow(x)
}

impl PartialOrd for Slow {
    fn partial_cmp(&self, o: &Slow) -> Option<Ordering> {
        rest();
        self.0.partial_cmp(&o.0)
    }
}

macro_rules! ops {
    ($($t:ident $f:ident $o:tt),*) => {$(
        impl $t for Slow {
            type Output = Slow;
            fn $f(self, r: Slow) -> Slow {
                op(self.0 $o r.0)
            }
        }
    )*};
}
ops!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Neg for Slow {
    type Output = Slow;
    fn neg(self) -> Slow {
        op(-self.0)
    }
}
impl AddAssign for Slow {
    fn add_assign(&mut self, r: Slow) {
        *self = *self + r;
    }
}
impl SubAssign for Slow {
    fn sub_assign(&mut self, r: Slow) {
        *self = *self - r;
    }
}
impl MulAssign for Slow {
    fn mul_assign(&mut self, r: Slow) {
        *self = *self * r;
    }
}
impl Zero for Slow {
    fn zero() -> Slow {
        Slow(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Slow {
    fn one() -> Slow {
        Slow(1.0)
    }
}
impl Num for Slow {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Slow, ()> {
        Err(())
    }
}
impl Display for Slow {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        rest();
        write!(f, "{}", self.0)
    }
}
impl Debug for Slow {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Element<Slow> for Slow {}

type M = Matrix<Slow>;

fn vals(m: &M) -> Vec<f64> {
    let mut v = vec![m.get_rows() as f64, m.get_cols() as f64];
    v.extend(m.iter().map(|x| x.0));
    v
}

fn done(v: Vec<f64>) -> Out {
    Out("done".into(), v)
}

/// A regular matrix, other values per variant.
fn regular(n: usize, v: usize) -> M {
    let mut s = 7 + 13 * v as i64;
    let mut m = Matrix::new(n, n);
    for i in 0..n {
        for j in 0..n {
            s = (s * 37 + 11) % 101;
            m[(i, j)] = Slow((s % 9) as f64 - 4.0 + if (i + j) % n == v % n { 40.0 } else { 0.0 });
        }
    }
    m
}

fn full(r: usize, c: usize, v: usize) -> M {
    Matrix::from_vec(c, (0..r * c).map(|i| Slow(((i * 7 + v * 5 + 3) % 11) as f64 - 5.0)).collect()).unwrap()
}

fn products(v: usize) -> Steps {
    every(3);
    steps(
        (full(2, 3, v), full(3, 2, v + 1)),
        vec![
            Box::new(|s| result(s.0.multiply_matrix(&s.1), |m| vals(&m))),
            Box::new(|s| result(s.1.multiply_matrix(&s.0), |m| vals(&m))),
            Box::new(|s| done(vals(&(&s.0 * Slow(3.0))))),
            Box::new(|s| result(s.0.multiply_matrix(&s.0), |m| vals(&m))),
            Box::new(|s| done(vals(&(&s.0 * &s.1 * &s.0)))),
        ],
    )
}

fn sums(v: usize) -> Steps {
    every(2);
    steps(
        (full(2, 3, v), full(2, 3, v + 1)),
        vec![
            Box::new(|s| done(vals(&(&s.0 + &s.1)))),
            Box::new(|s| done(vals(&(&s.0 - &s.1)))),
            Box::new(|s| {
                s.0 += s.1.clone();
                done(vals(&s.0))
            }),
            Box::new(|s| {
                s.1 -= s.0.clone();
                done(vals(&s.1))
            }),
            Box::new(|s| Out(s.0.to_string(), vec![])),
        ],
    )
}

fn rows(v: usize) -> Steps {
    every(2);
    steps(
        full(3, 3, v),
        vec![
            Box::new(move |s| {
                s.inplace_row_add(0, 1 + v % 2);
                done(vals(s))
            }),
            Box::new(|s| {
                s.inplace_scaled_row_add(2, 0, Slow(-2.0));
                done(vals(s))
            }),
            Box::new(|s| {
                s.inplace_row_swap(0, 2);
                done(vals(s))
            }),
            Box::new(move |s| {
                s.inplace_row_scale(1, Slow(3.0 + v as f64));
                s.inplace_scale(Slow(0.5));
                done(vals(s))
            }),
            Box::new(|s| result(s.trace(), |t| vec![t.0])),
        ],
    )
}

fn parts(v: usize) -> Steps {
    every(1);
    steps(
        (full(2, 3, v), full(2, 2, v + 1)),
        vec![
            Box::new(|s| result(s.0.augment_with(&s.1), |m| vals(&m))),
            Box::new(|s| done(vals(&s.0.transpose()))),
            Box::new(|s| done(vals(&s.0.subset(0, 1, 1, 2)))),
            Box::new(|s| done(vals(&(&s.1 | &s.0)))),
            Box::new(|s| Out(format!("{} {}", s.0, s.1), vec![])),
            Box::new(|s| result(s.0.trace(), |t| vec![t.0])),
            Box::new(|s| result(s.0.augment_with(&s.0.transpose()), |m| vals(&m))),
        ],
    )
}

fn invert(n: usize, v: usize, pauses: usize) -> Steps {
    every(pauses);
    steps(
        regular(n, v),
        vec![
            Box::new(|s| {
                let r = s.try_inplace_invert();
                result(r, |_| vals(s))
            }),
            Box::new(|s| {
                let r = s.try_inplace_invert();
                result(r, |_| vals(s))
            }),
        ],
    )
}

fn small_inverses(v: usize) -> Steps {
    every(7);
    steps(
        (regular(2, v), regular(3, v + 1), regular(4, v)),
        vec![
            Box::new(|s| {
                let r = s.0.try_inplace_invert();
                result(r, |_| vals(&s.0))
            }),
            Box::new(|s| {
                let r = s.1.try_inplace_invert();
                result(r, |_| vals(&s.1))
            }),
            Box::new(|s| {
                let r = s.2.try_inplace_invert();
                result(r, |_| vals(&s.2))
            }),
        ],
    )
}

fn large_inverse(v: usize) -> Steps {
    invert(5, v, 31)
}

fn larger_inverse(v: usize) -> Steps {
    invert(6 + v % 2, v, 61)
}

/// A singular matrix is refused and stays as it was.
fn singular(v: usize) -> Steps {
    every(11);
    let mut m = regular(5, v);
    for j in 0..5 {
        m[(4, j)] = Slow(0.0);
    }
    steps(
        m,
        vec![
            Box::new(|s| {
                let r = s.try_inplace_invert();
                Out(format!("{}", r.is_ok()), vals(s))
            }),
            Box::new(|s| {
                s[(4, 4)] = Slow(1.0);
                let r = s.try_inplace_invert();
                result(r, |_| vals(s))
            }),
        ],
    )
}

/// The same work with plain numbers: between the calls only.
fn plain(v: usize) -> Steps {
    let m = |n, v| Matrix::<f64>::from_vec(n, regular(n, v).iter().map(|x| x.0).collect()).unwrap();
    every(usize::MAX);
    steps(
        (m(3, v), m(5, v), m(3, v + 1)),
        vec![
            Box::new(|s| result(s.0.multiply_matrix(&s.2), |m| m.iter().copied().collect())),
            Box::new(|s| {
                let r = s.1.try_inplace_invert();
                result(r, |_| s.1.iter().copied().collect())
            }),
            Box::new(|s| {
                let r = s.0.try_inplace_invert();
                result(r, |_| s.0.iter().copied().collect())
            }),
            Box::new(|s| done((&s.0 + &s.2).iter().copied().collect())),
            Box::new(|s| result(s.1.trace(), |t| vec![t])),
            Box::new(|s| Out(s.0.augment_with(&s.2).unwrap().subset(1, 1, 2, 4).transpose().to_string(), vec![])),
        ],
    )
}

/// The same through the C interface.
fn handles(v: usize) -> Steps {
    use std::ffi::c_void;
    fn look(p: *mut c_void, r: u32, c: u32) -> Out {
        if p.is_null() {
            return Out("null".into(), vec![]);
        }
        done((0..r).flat_map(|i| (0..c).map(move |j| (i, j))).map(|(i, j)| ffi::index_double_matrix(p, i, j)).collect())
    }
    every(usize::MAX);
    steps(
        Vec::<*mut c_void>::new(),
        vec![
            Box::new(move |s| {
                let p = ffi::new_double_matrix(2, 2);
                for i in 0..4u32 {
                    ffi::index_mut_double_matrix(p, i / 2, i % 2, (i as f64 + 1.0) * (v + 1) as f64);
                }
                s.push(p);
                look(p, 2, 2)
            }),
            Box::new(|s| {
                s.push(ffi::clone_double_matrix(s[0]));
                Out("inverse".into(), vec![ffi::try_inplace_invert(s[1]) as f64])
            }),
            Box::new(|s| {
                s.push(ffi::multiply_matrix(s[0], s[1]));
                look(s[2], 2, 2)
            }),
            Box::new(|s| {
                s.push(ffi::augment_with(s[0], s[1]));
                look(s[3], 2, 4)
            }),
            Box::new(|s| {
                ffi::inplace_row_swap(s[0], 0, 1);
                ffi::inplace_scaled_row_add(s[0], 0, 1, 2.0);
                ffi::inplace_scale(s[0], 3.0);
                look(s[0], 2, 2)
            }),
            Box::new(|s| Out("trace".into(), vec![ffi::trace(s[0]), ffi::trace(s[3])])),
            Box::new(|s| {
                let r = look(s[1], 2, 2);
                s.drain(..).for_each(|p| ffi::free_double_matrix(p));
                r
            }),
        ],
    )
}

/// Elements of other types, some of which cannot hold the inverse.
fn other_types(v: usize) -> Steps {
    macro_rules! step {
        ($t:ty, $conv:expr) => {
            Box::new(|s: &mut usize| {
                let k = *s as $t;
                let zero = <$t as Default>::default();
                let one = $conv(1);
                let mut good: Matrix<$t> = Matrix::from_vec(2, vec![one, k + one, zero, one]).unwrap();
                let mut bad: Matrix<$t> = Matrix::from_vec(2, vec![$conv(2), zero, zero, $conv(4)]).unwrap();
                let mut large: Matrix<$t> = Matrix::new_identity(5);
                large[(0, 4)] = k + one;
                large[(2, 1)] = $conv(3);
                let mut worse: Matrix<$t> = Matrix::new_identity(5);
                worse[(3, 3)] = $conv(2);
                let r = [good.try_inplace_invert().is_ok(), bad.try_inplace_invert().is_ok(), large.try_inplace_invert().is_ok(), worse.try_inplace_invert().is_ok()];
                Out(format!("{r:?}"), good.iter().chain(large.iter()).map(|x| *x as f64).collect())
            })
        };
    }
    every(usize::MAX);
    steps(v, vec![step!(i32, |x: i32| x), step!(f64, |x: i32| x as f64), step!(i8, |x: i32| x as i8), step!(f32, |x: i32| x as f32), step!(i64, |x: i32| x as i64), step!(i16, |x: i32| x as i16)])
}

pub fn g06(ctx: &mut Ctx) {
    explore(
        ctx,
        20_000,
        &[
            ("products", products),
            ("sums", sums),
            ("row operations", rows),
            ("parts", parts),
            ("inverses of 2 to 4 rows", small_inverses),
            ("inverse of 5 rows", large_inverse),
            ("inverse of 6 or 7 rows", larger_inverse),
            ("singular matrix", singular),
            ("plain numbers", plain),
            ("handles", handles),
            ("integers and short floats", other_types),
        ],
    );
}
