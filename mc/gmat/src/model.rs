//! Textbook matrices over exact integers: the reference the implementation is compared with.

#[derive(Clone, PartialEq, Debug)]
pub struct M {
    pub r: usize,
    pub c: usize,
    pub v: Vec<i64>,
}

impl M {
    pub fn zero(r: usize, c: usize) -> M {
        M { r, c, v: vec![0; r * c] }
    }
    pub fn ident(n: usize) -> M {
        let mut m = M::zero(n, n);
        for i in 0..n {
            m.set(i, i, 1);
        }
        m
    }
    pub fn at(&self, i: usize, j: usize) -> i64 {
        self.v[i * self.c + j]
    }
    pub fn set(&mut self, i: usize, j: usize, x: i64) {
        self.v[i * self.c + j] = x;
    }
    /// Position dependent small entries, `salt` varies the pattern; no two rows or columns alike.
    pub fn pattern(r: usize, c: usize, salt: usize) -> M {
        let mut m = M::zero(r, c);
        for k in 0..r * c {
            m.v[k] = ((k * 7 + k * k * (3 + salt) + salt * 5 + 3) % 11) as i64 - 5;
        }
        m
    }
    pub fn swap(&mut self, a: usize, b: usize) {
        for j in 0..self.c {
            let (x, y) = (self.at(a, j), self.at(b, j));
            self.set(a, j, y);
            self.set(b, j, x);
        }
    }
    pub fn scale_row(&mut self, a: usize, s: i64) {
        for j in 0..self.c {
            self.set(a, j, self.at(a, j) * s);
        }
    }
    pub fn scale(&mut self, s: i64) {
        self.v.iter_mut().for_each(|x| *x *= s);
    }
    /// a += s * b
    pub fn add_row(&mut self, a: usize, b: usize, s: i64) {
        let src: Vec<i64> = (0..self.c).map(|j| self.at(b, j)).collect();
        for j in 0..self.c {
            self.set(a, j, self.at(a, j) + s * src[j]);
        }
    }
    pub fn mul(&self, o: &M) -> Option<M> {
        if self.c != o.r {
            return None;
        }
        let mut m = M::zero(self.r, o.c);
        for i in 0..self.r {
            for j in 0..o.c {
                m.set(i, j, (0..self.c).map(|k| self.at(i, k) * o.at(k, j)).sum());
            }
        }
        Some(m)
    }
    pub fn elementwise(&self, o: &M, f: impl Fn(i64, i64) -> i64) -> Option<M> {
        if (self.r, self.c) != (o.r, o.c) {
            return None;
        }
        Some(M { r: self.r, c: self.c, v: self.v.iter().zip(&o.v).map(|(a, b)| f(*a, *b)).collect() })
    }
    pub fn augment(&self, o: &M) -> Option<M> {
        if self.r != o.r {
            return None;
        }
        let mut m = M::zero(self.r, self.c + o.c);
        for i in 0..self.r {
            for j in 0..self.c {
                m.set(i, j, self.at(i, j));
            }
            for j in 0..o.c {
                m.set(i, self.c + j, o.at(i, j));
            }
        }
        Some(m)
    }
    pub fn subset(&self, r1: usize, c1: usize, r2: usize, c2: usize) -> Option<M> {
        if r1 > r2 || c1 > c2 || r2 >= self.r || c2 >= self.c {
            return None;
        }
        let mut m = M::zero(r2 - r1 + 1, c2 - c1 + 1);
        for i in r1..=r2 {
            for j in c1..=c2 {
                m.set(i - r1, j - c1, self.at(i, j));
            }
        }
        Some(m)
    }
    pub fn transpose(&self) -> M {
        let mut m = M::zero(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m.set(j, i, self.at(i, j));
            }
        }
        m
    }
    pub fn trace(&self) -> Option<i64> {
        (self.r == self.c).then(|| (0..self.r).map(|i| self.at(i, i)).sum())
    }
    pub fn show(&self) -> String {
        let rows: Vec<String> =
            (0..self.r).map(|i| (0..self.c).map(|j| self.at(i, j).to_string()).collect::<Vec<_>>().join(", ")).collect();
        format!("[{}]", rows.join("; "))
    }
    /// Exact determinant (fraction free elimination).
    pub fn det(&self) -> i128 {
        let n = self.r;
        let mut a: Vec<i128> = self.v.iter().map(|x| *x as i128).collect();
        let (mut sign, mut prev) = (1i128, 1i128);
        for k in 0..n {
            if a[k * n + k] == 0 {
                let Some(p) = (k + 1..n).find(|p| a[p * n + k] != 0) else { return 0 };
                for j in 0..n {
                    a.swap(k * n + j, p * n + j);
                }
                sign = -sign;
            }
            for i in k + 1..n {
                for j in k + 1..n {
                    a[i * n + j] = (a[i * n + j] * a[k * n + k] - a[i * n + k] * a[k * n + j]) / prev;
                }
            }
            prev = a[k * n + k];
        }
        sign * prev
    }
}
