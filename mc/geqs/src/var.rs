//! E04: variables stay on their domain.

use geqslib::shunting::{ContextHashMap, ContextLike, Token};
use geqslib::variable::Variable;
use mc_core::{util, Ctx, Stats};

const V: [f64; 11] = [f64::NEG_INFINITY, -10.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.5, 10.0, f64::INFINITY];
const INF: f64 = f64::INFINITY;

fn clamp(x: f64, lo: f64, hi: f64) -> f64 {
    if x > hi {
        hi
    } else if x < lo {
        lo
    } else {
        x
    }
}

fn walk(v: Variable, model: f64, lo: f64, hi: f64, depth: usize, path: &mut Vec<(char, f64)>, st: &mut Stats) -> Result<(), String> {
    if depth == 0 {
        return Ok(());
    }
    for op in ['=', '+', '-', '*', '/'] {
        for a in V {
            let raw = match op {
                '=' => a,
                '+' => model + a,
                '-' => model - a,
                '*' => model * a,
                _ => model / a,
            };
            if raw.is_nan() {
                continue;
            }
            let mut w = v;
            match op {
                '=' => w.set(a),
                '+' => w += a,
                '-' => w -= a,
                '*' => w *= a,
                _ => w /= a,
            }
            path.push((op, a));
            st.step();
            let want = clamp(raw, lo, hi);
            let got = f64::from(w);
            st.state(util::fnv_f64(&[lo, hi, got]));
            if got != want || !(lo <= got && got <= hi) || w.min != lo || w.max != hi {
                return Err(format!("after {path:?} the variable on [{lo}, {hi}] is {got} on [{}, {}], expected {want}", w.min, w.max));
            }
            walk(w, want, lo, hi, depth - 1, path, st)?;
            path.pop();
        }
    }
    Ok(())
}

pub fn e04(ctx: &mut Ctx) {
    let domains = [(-INF, INF), (0.0, INF), (-INF, 0.0), (-1.0, 2.0), (1.0, 1.0), (0.5, 3.5), (-10.0, -0.5), (2.0, 10.0), (-INF, -1.0), (0.0, 0.0)];
    let depth = ctx.pick(3, 4);
    for (lo, hi) in domains {
        for init in V {
            ctx.case(
                || format!("start {init} on [{lo}, {hi}], every sequence of {depth} operations"),
                |st| {
                    let v = Variable::new(init, lo, hi);
                    let want = clamp(init, lo, hi);
                    if f64::from(v) != want || v.min != lo || v.max != hi {
                        return Err(format!("the new variable is {} on [{}, {}], expected {want}", f64::from(v), v.min, v.max));
                    }
                    let mut c = ContextHashMap::new();
                    c.add_var_with_domain_to_ctx("x", init, lo, hi);
                    match &c["x"] {
                        Token::Var(r) if *r.borrow() == v => {}
                        t => return Err(format!("the context holds {t:?}")),
                    }
                    c.add_var_to_ctx("x", init);
                    match &c["x"] {
                        Token::Var(r) if f64::from(*r.borrow()) == init && r.borrow().min == -INF && r.borrow().max == INF => {}
                        t => return Err(format!("the context holds {t:?} for a variable without a domain")),
                    }
                    walk(v, want, lo, hi, depth, &mut vec![], st)
                },
            );
        }
    }
    // other argument types
    for i in -12..=12i32 {
        ctx.case(
            || format!("integer {i}"),
            |st| {
                let mut v = Variable::new(i, -5, 7);
                let mut m = (i as f64).clamp(-5.0, 7.0);
                for (k, a) in [3i32, -4, 20, 1].iter().enumerate() {
                    st.step();
                    match k {
                        0 => v += *a,
                        1 => v -= *a,
                        2 => v.set(*a),
                        _ => v.set(*a as f32),
                    }
                    m = match k {
                        0 => m + *a as f64,
                        1 => m - *a as f64,
                        _ => *a as f64,
                    }
                    .clamp(-5.0, 7.0);
                    if f64::from(v) != m {
                        return Err(format!("is {} after step {k}, expected {m}", f64::from(v)));
                    }
                }
                Ok(())
            },
        );
    }
}
