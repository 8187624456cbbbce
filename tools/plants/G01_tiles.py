PROPERTY = "G01"
NEEDS = "a product whose inner size is above 64 and one more than a multiple of 64"
BREAKS = "the products are summed in tiles of 64 and a last tile of one is forgotten"
EDITS = [("gmatlib/src/lib.rs", """                for x in 0..n
                {
                    result[(i, j)] += self[(i, x)] * a[(x, j)]
                }
""", """                for tile in 0..(n + 62) / 64 + usize::from(n == 1)
                {
                    for x in tile * 64..n.min((tile + 1) * 64)
                    {
                        result[(i, j)] += self[(i, x)] * a[(x, j)]
                    }
                }
""")]
CRATES = ["gmatlib"]
MAIN = r'''
use gmatlib::Matrix;
fn main() {
    let a = Matrix::from_row_vec(vec![1i64; 65]);
    let b = Matrix::from_col_vec((1..=65).collect::<Vec<i64>>());
    assert_eq!(a.multiply_matrix(&b).unwrap()[(0, 0)], 65 * 33);
}
'''
