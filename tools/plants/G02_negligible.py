PROPERTY = "G02"
NEEDS = "a matrix of five or more rows with entries of very different size"
BREAKS = "a factor that is negligible beside one is not eliminated, though the row it belongs to may be as small"
EDITS = [("gmatlib/src/lib.rs", """                    let scalar = self[(i, j)] / self[(j, j)];
                    self.inplace_scaled_row_add(i, j, -scalar);
                    inv.inplace_scaled_row_add(i, j, -scalar);
""", """                    let scalar = self[(i, j)] * (T::one() / self[(j, j)]);
                    if scalar + T::one() == T::one()
                    {
                        continue;
                    }
                    self.inplace_scaled_row_add(i, j, -scalar);
                    inv.inplace_scaled_row_add(i, j, -scalar);
""")]
CRATES = ["gmatlib"]
MAIN = r'''
use gmatlib::Matrix;
fn main() {
    let mut a = Matrix::<f64>::new_identity(5);
    a[(1, 0)] = 1e-17;
    a[(1, 1)] = 1e-17;
    let b = a.clone();
    a.try_inplace_invert().unwrap();
    let p = &a * &b;
    for i in 0..5 { for j in 0..5 {
        assert!((p[(i, j)] - if i == j { 1.0 } else { 0.0 }).abs() < 1e-6, "{i} {j} {}", p[(i, j)]);
    } }
}
'''
