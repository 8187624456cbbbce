pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn fnv_f64(xs: &[f64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in xs {
        h ^= x.to_bits();
        h = h.wrapping_mul(0x100000001b3).rotate_left(17);
    }
    h
}

pub fn mix(a: u64, b: u64) -> u64 {
    (a ^ b.wrapping_mul(0x9e3779b97f4a7c15)).rotate_left(29).wrapping_mul(0xbf58476d1ce4e5b9)
}

/// All permutations of 0..n in lexicographic order.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(rest: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if rest.is_empty() {
            out.push(cur.clone());
            return;
        }
        for i in 0..rest.len() {
            let x = rest.remove(i);
            cur.push(x);
            go(rest, cur, out);
            cur.pop();
            rest.insert(i, x);
        }
    }
    let mut out = vec![];
    go(&mut (0..n).collect(), &mut vec![], &mut out);
    out
}

/// Mixed radix counter: calls `f` with every tuple of `radix`.
pub fn product(radix: &[usize], mut f: impl FnMut(&[usize])) {
    if radix.contains(&0) {
        return;
    }
    let mut d = vec![0; radix.len()];
    loop {
        f(&d);
        let mut i = radix.len();
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            d[i] += 1;
            if d[i] < radix[i] {
                break;
            }
            d[i] = 0;
        }
    }
}

/// Relative-or-absolute closeness; both NaN count as close, infinities must match.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= tol * 1f64.max(a.abs()).max(b.abs())
}
