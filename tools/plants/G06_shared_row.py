PROPERTY = "G06"
NEEDS = "two inversions of matrices of five rows or more that overlap, on two threads or from within the arithmetic of the elements"
BREAKS = "the row being eliminated is kept in one place for all inversions, so that another inversion moves the first one to a row of its own"
EDITS = [("gmatlib/src/lib.rs", """                    let scalar = self[(i, j)] / self[(j, j)];
                    self.inplace_scaled_row_add(i, j, -scalar);
                    inv.inplace_scaled_row_add(i, j, -scalar);
""", """                    ROW.store(i, Ordering::Relaxed);
                    let scalar = self[(i, j)] / self[(j, j)];
                    self.inplace_scaled_row_add(ROW.load(Ordering::Relaxed), j, -scalar);
                    inv.inplace_scaled_row_add(ROW.load(Ordering::Relaxed), j, -scalar);
"""), ("gmatlib/src/lib.rs", """use std::mem::swap;
use anyhow""", """use std::mem::swap;
use std::sync::atomic::{AtomicUsize, Ordering};
use anyhow"""), ("gmatlib/src/lib.rs", """/// A helper trait to constrain the type of the elements of a `Matrix<T>`.
""", """/// The row that is being eliminated, for debuggers to look at.
static ROW: AtomicUsize = AtomicUsize::new(0);

/// A helper trait to constrain the type of the elements of a `Matrix<T>`.
""")]
CRATES = ["gmatlib"]
MAIN = r'''
use gmatlib::Matrix;
fn inverse(n: usize) -> bool {
    // every pivot is the last row but one that is left
    let mut a: Matrix<f64> = Matrix::new(n, n);
    for i in 0..n {
        for j in 0..n {
            a[(i, j)] = if i == j { 0.0 } else { 1.0 + (i * j % 3) as f64 };
        }
    }
    let b = a.clone();
    if a.try_inplace_invert().is_err() {
        return false;
    }
    let p = a.multiply_matrix(&b).unwrap();
    (0..n).all(|i| (0..n).all(|j| (p[(i, j)] - (i == j) as usize as f64).abs() < 1e-6))
}
fn main() {
    assert!(inverse(9) && inverse(40));
    let t: Vec<_> = (0..8).map(|k| std::thread::spawn(move || (0..400).all(|i| {
        std::panic::catch_unwind(|| inverse([9, 40][(i + k) % 2])).unwrap_or(false)
    }))).collect();
    assert!(t.into_iter().all(|t| t.join().unwrap()));
}
'''
