//! N04: if blocks.

use crate::common::{demand, own, solve_text};
use mc_core::{util, Ctx, Stats};

const OPS: &[(&str, fn(f64, f64) -> bool)] = &[
    ("<", |a, b| a < b),
    ("<=", |a, b| a <= b),
    (">", |a, b| a > b),
    (">=", |a, b| a >= b),
    ("==", |a, b| a == b),
    ("!=", |a, b| a != b),
];

/// Operands with a = 2, b = 3, c = 2, t = -1 as constants.
const CONSTS: &str = "const a = 2\nconst b = 3\nconst c = 2\nconst t = -1";
const NAMED: &[(&str, f64)] = &[("a", 2.0), ("b", 3.0), ("c", 2.0), ("t", -1.0)];
const OPERANDS: &[(&str, f64)] = &[("a", 2.0), ("b", 3.0), ("c", 2.0), ("t", -1.0), ("2", 2.0), ("-1", -1.0), ("a + 1", 3.0), ("2*b - (a + 2)", 2.0), ("abs(t)", 1.0), ("log(2, 8)", 3.0)];

/// Equations for i.
const BODIES: &[(&str, f64)] = &[
    ("i = 1", 1.0),
    ("i = -7", -7.0),
    ("i = 0", 0.0),
    ("2*i = a + 4", 3.0),
    ("i - 10 = 0", 10.0),
    ("b = i + 0.5", 2.5),
    ("i = 3 - 1", 2.0),
    ("5 - i = 3 - (a - b)", 1.0),
    ("i + 4", -4.0),
    ("i = max_end", 9.0),
    ("0 = i - 20", 20.0),
    ("i = 0.25", 0.25),
    ("i = .5", 0.5),
    ("i = 0.0", 0.0),
    ("i = 1e1", 10.0),
    ("0 = 6 - 2*i", 3.0),
    ("i = a/b*3", 2.0),
    ("i = abs(t) - max_end", -8.0),
    ("i = if(a,4,b,07,8)", 7.0),
];

#[derive(Clone)]
enum Body {
    Eq(usize),
    Block(Box<Block>),
}

#[derive(Clone)]
struct Block {
    l: usize,
    op: usize,
    r: usize,
    then: Body,
    other: Body,
}

#[derive(Clone, Copy)]
struct Layout {
    indent: &'static str,
    tight: bool,
    trail: &'static str,
    end: &'static str,
}

const LAYOUTS: &[Layout] = &[
    Layout { indent: "    ", tight: false, trail: "", end: "\n" },
    Layout { indent: "", tight: false, trail: "", end: "\n" },
    Layout { indent: "\t", tight: true, trail: "", end: "\n" },
    Layout { indent: "  ", tight: false, trail: "  ", end: "\r\n" },
    Layout { indent: " ", tight: true, trail: " // then", end: "\n" },
    Layout { indent: "", tight: false, trail: "\t", end: "\n" },
];

impl Body {
    fn text(&self, depth: usize, y: &Layout, name: &str, out: &mut String) {
        match self {
            Body::Eq(e) => {
                *out += &y.indent.repeat(depth);
                *out += &named(BODIES[*e].0, name);
                *out += y.trail;
                *out += y.end;
            }
            Body::Block(b) => b.text(depth, y, name, out),
        }
    }
    fn value(&self) -> f64 {
        match self {
            Body::Eq(e) => BODIES[*e].1,
            Body::Block(b) => b.value(),
        }
    }
}

/// Replaces the unknown i by another name.
fn named(body: &str, name: &str) -> String {
    let chars: Vec<char> = body.chars().collect();
    let part = |c: char| c.is_ascii_alphanumeric() || c == '_';
    (0..chars.len())
        .map(|k| {
            let alone = chars[k] == 'i' && (k == 0 || !part(chars[k - 1])) && chars.get(k + 1).is_none_or(|c| !part(*c));
            if alone { name.to_string() } else { chars[k].to_string() }
        })
        .collect()
}

impl Block {
    fn text(&self, depth: usize, y: &Layout, name: &str, out: &mut String) {
        let ind = y.indent.repeat(depth);
        let sp = if y.tight { "" } else { " " };
        let (l, op, r) = (OPERANDS[self.l].0, OPS[self.op].0, OPERANDS[self.r].0);
        *out += &format!("{ind}if {l}{sp}{op}{sp}{r}:{}{}", y.trail, y.end);
        self.then.text(depth + 1, y, name, out);
        *out += &format!("{ind}else:{}{}", y.trail, y.end);
        self.other.text(depth + 1, y, name, out);
        *out += &format!("{ind}end{}{}", y.trail, y.end);
    }
    fn value(&self) -> f64 {
        if OPS[self.op].1(OPERANDS[self.l].1, OPERANDS[self.r].1) {
            self.then.value()
        } else {
            self.other.value()
        }
    }
}

fn solved(text: &str, extra: &[(&str, f64)], seed: u64, st: &mut Stats) -> Result<(), String> {
    st.step();
    let got = solve_text(text, 1e-9, 100, seed)?;
    let mut want = NAMED.to_vec();
    want.push(("max_end", 9.0));
    want.extend(extra);
    demand(&got, &want, 1e-6)?;
    st.outcome("right branch");
    st.state(util::fnv_f64(&extra.iter().map(|e| e.1).collect::<Vec<_>>()));
    Ok(())
}

fn whole(b: &Block, y: &Layout, name: &str) -> String {
    let mut s = String::new();
    b.text(0, y, name, &mut s);
    s
}

fn refused(text: &str, st: &mut Stats) -> Result<(), String> {
    st.step();
    st.outcome("refused");
    match solve_text(text, 1e-9, 100, 1)? {
        Err(_) => Ok(()),
        Ok((_, v)) => Err(format!("solved as {:?}", own(&v))),
    }
}

pub fn n04(ctx: &mut Ctx) {
    let head = format!("{CONSTS}\nconst max_end = 9\n");
    let (e, n) = (BODIES.len(), OPERANDS.len());
    // One block: every condition, every pair of bodies, every layout.
    for l in 0..n {
        for op in 0..OPS.len() {
            for r in 0..n {
                for (k, y) in LAYOUTS.iter().enumerate() {
                    for p in 0..ctx.pick(2, e * e) {
                        let pair = if ctx.quick() { (l * 7 + r * 3 + op + k * 5 + p * 37) % (e * e) } else { p };
                        let b = Block { l, op, r, then: Body::Eq(pair / e), other: Body::Eq(pair % e) };
                        let text = head.clone() + &whole(&b, y, "i");
                        ctx.case(|| format!("text {text:?}"), |st| solved(&text, &[("i", b.value())], 1, st));
                    }
                }
            }
        }
    }
    for then in 0..e {
        for other in 0..e {
            for op in 0..OPS.len() {
                for (l, r) in [(0, 1), (1, 0), (0, 2)] {
                    let b = Block { l, op, r, then: Body::Eq(then), other: Body::Eq(other) };
                    for y in &LAYOUTS[..ctx.pick(1, 3)] {
                        let text = whole(&b, y, "i") + &head;
                        ctx.case(|| format!("text {text:?}"), |st| solved(&text, &[("i", b.value())], 1, st));
                    }
                }
            }
        }
    }
    // Nested blocks: every shape up to depth 3 (4) with conditions that hold, do not hold or are equal.
    let conds = [(0, 1), (1, 0), (0, 2)];
    let depth = ctx.pick(3, 4);
    let shapes = shapes(depth);
    for shape in &shapes {
        let inner = count(shape);
        if inner < 2 {
            continue;
        }
        // one operator and operand order per block
        let kinds = if inner == 2 { 18 } else if inner == 3 { ctx.pick(6, 18) } else { 3 };
        if inner > ctx.pick(3, 5) {
            continue;
        }
        util::product(&vec![kinds; inner], |ks| {
            for y in LAYOUTS.iter().take(if inner == 2 { 6 } else { 1 }) {
                let mut at = 0;
                let mut leaf = 0;
                let b = build(shape, ks, kinds, &conds, &mut at, &mut leaf);
                let text = head.clone() + &whole(&b, y, "i");
                ctx.case(|| format!("text {text:?}"), |st| solved(&text, &[("i", b.value())], 1, st));
            }
        });
    }
    // Several blocks with names that contain the keywords, between equations, in every order.
    let names = ["iffy", "elsewhere", "endpoint", "gift", "if_x", "i_end", "tend", "else_2"];
    for a in 0..names.len() {
        for b in 0..names.len() {
            if a == b {
                continue;
            }
            for (k, (l, r)) in conds.iter().enumerate() {
                for op in 0..OPS.len() {
                    let first = Block { l: *l, op, r: *r, then: Body::Eq((a + k) % e), other: Body::Eq((b + 4) % e) };
                    let second = Block { l: *r, op, r: *l, then: Body::Eq((b + k + 2) % e), other: Body::Eq((a + 5) % e) };
                    let parts = [
                        head.clone(),
                        whole(&first, &LAYOUTS[0], names[a]),
                        whole(&second, &LAYOUTS[1], names[b]),
                        format!("{} + sum = 2*{}\n", names[a], names[b]),
                    ];
                    let perms = util::permutations(4);
                    for p in perms.iter().step_by(ctx.pick(5, 1)) {
                        let text: String = p.iter().map(|i| parts[*i].as_str()).collect();
                        let (x, y) = (first.value(), second.value());
                        ctx.case(|| format!("text {text:?}"), |st| solved(&text, &[(names[a], x), (names[b], y), ("sum", 2.0 * y - x)], 1, st));
                    }
                }
            }
        }
    }
    // Conditions on values that are solved for, chained blocks, blocks that look alike.
    let lines = ["x + y = 9", "x - y = 4", "if x > y:\n    p = x - y\nelse:\n    p = y - x\nend", "if p > 10:\n    q = p\nelse:\n    q = 2*p + y\nend", "if q >= p:\n    r = q - p\nelse:\n    r = p - q\nend"];
    for p in util::permutations(lines.len()) {
        for seed in 1..=ctx.pick(2, 8) {
            let text: String = p.iter().map(|i| format!("{}\n", lines[*i])).collect();
            ctx.case(
                || format!("seed {seed}, text {text:?}"),
                |st| {
                    st.step();
                    demand(&solve_text(&text, 1e-9, 100, seed)?, &[("x", 6.5), ("y", 2.5), ("p", 4.0), ("q", 10.5), ("r", 6.5)], 1e-6)
                },
            );
        }
    }
    for (l, r) in conds {
        for op in 0..OPS.len() {
            for (f, s) in [(0, 1), (1, 0), (3, 5)] {
                let b = |t, o| Block { l, op, r, then: Body::Eq(t), other: Body::Eq(o) };
                let (x, y) = (b(f, s), b(s, f));
                let text = format!("{head}{}{}{}", whole(&x, &LAYOUTS[0], "j"), whole(&y, &LAYOUTS[0], "k"), whole(&x, &LAYOUTS[0], "m"));
                ctx.case(|| format!("text {text:?}"), |st| solved(&text, &[("j", x.value()), ("k", y.value()), ("m", x.value())], 1, st));
            }
        }
    }
    // Ladders of blocks, in the branch for "no", in the one for "yes" and in turns, that end at every rung.
    for n in ctx.pick(vec![5, 9, 16], vec![5, 6, 7, 8, 9, 12, 16, 17, 24, 33]) {
        for side in 0..3 {
            for stop in 0..=n {
                for (k, y) in LAYOUTS.iter().enumerate().take(ctx.pick(2, 6)) {
                    let mut b = Body::Eq((stop + k) % e);
                    let mut want = BODIES[(stop + k) % e].1;
                    for rung in (0..n).rev() {
                        // The ladder goes on in the branch for "yes" or for "no"; all rungs before `stop` go on.
                        let yes = side == 1 || side == 2 && rung % 2 == 0;
                        let on = rung != stop;
                        let holds = yes == on;
                        let op = (rung + k) % OPS.len();
                        let (l, r) = *conds.iter().find(|(l, r)| OPS[op].1(OPERANDS[*l].1, OPERANDS[*r].1) == holds).unwrap();
                        let way = Body::Eq((rung * 5 + 1) % e);
                        if !on {
                            want = BODIES[(rung * 5 + 1) % e].1;
                        }
                        let (then, other) = if yes { (b, way) } else { (way, b) };
                        b = Body::Block(Box::new(Block { l, op, r, then, other }));
                    }
                    let Body::Block(b) = b else { unreachable!() };
                    let text = head.clone() + &whole(&b, y, "i");
                    ctx.case(|| format!("ladder of {n} blocks that ends at {stop}: {text:?}"), |st| solved(&text, &[("i", want)], 1, st));
                }
            }
        }
    }
    // Many blocks one after the other, between equations; every block on its own decides its variable.
    for n in ctx.pick(vec![3, 10, 20], vec![3, 4, 5, 8, 10, 15, 20, 33, 40]) {
        for k in 0..ctx.pick(3, 12) {
            let mut parts = vec![head.clone()];
            let mut want: Vec<(String, f64)> = vec![];
            for v in 0..n {
                let (l, r) = conds[(v + k) % 3];
                let b = Block { l, op: (v * 5 + k) % OPS.len(), r, then: Body::Eq((v * 3 + k) % e), other: Body::Eq((v + 2 * k + 7) % e) };
                parts.push(whole(&b, &LAYOUTS[(v + k) % LAYOUTS.len()], &format!("v{v}")));
                parts.push(format!("w{v} = v{v} + {v}\n"));
                want.push((format!("v{v}"), b.value()));
                want.push((format!("w{v}"), b.value() + v as f64));
            }
            for turn in 0..2 {
                if turn == 1 {
                    parts.reverse();
                }
                let text = parts.concat();
                let want: Vec<(&str, f64)> = want.iter().map(|w| (w.0.as_str(), w.1)).collect();
                ctx.case(|| format!("{n} blocks: {text:?}"), |st| solved(&text, &want, 1, st));
            }
        }
    }
    // A block whose condition stays unknown is not decided.
    for op in OPS {
        let text = format!("a = 2\nif a {} nowhere:\n    i = 1\nelse:\n    i = 2\nend", op.0);
        ctx.case(
            || format!("text {text:?}"),
            |st| {
                st.step();
                match solve_text(&text, 1e-9, 100, 1)? {
                    Ok((_, v)) if v.contains_key("i") => Err(format!("solved as {:?}", own(&v))),
                    _ => Ok(()),
                }
            },
        );
    }
    // Malformed blocks are refused, never solved as if they were something else.
    let good = ["if a < b:", "    i = 1", "else:", "    i = -1", "end"];
    let mut bad: Vec<Vec<String>> = vec![];
    for k in 0..5 {
        let mut l: Vec<String> = good.iter().map(|s| s.to_string()).collect();
        l.remove(k);
        bad.push(l);
        for j in 0..5 {
            if k != j {
                let mut l: Vec<String> = good.iter().map(|s| s.to_string()).collect();
                l[k] = good[j].to_string();
                if k == 1 && j == 3 || k == 3 && j == 1 {
                    continue;
                }
                bad.push(l);
            }
        }
    }
    for c in ["if a =< b:", "if a => b:", "if a:", "if a < b < c:", "if a <> b:", "if a < b", "if a = b:", "if < b:", "if a <:", "if a < b + :", "if :", "if a === b:", "if a <== b:", "if (a < b:", "if a ! b:", "if a << b:", "if a >> b:"] {
        bad.push([c].iter().chain(good[1..].iter()).map(|s| s.to_string()).collect());
    }
    for (k, c) in [(2, "else"), (2, "elif a < c:"), (1, "    i = "), (3, "    = 1"), (1, "    i = 1 = 2"), (1, "    i = (2"), (3, "    i 1"), (4, "en"), (4, "end end")] {
        let mut l: Vec<String> = good.iter().map(|s| s.to_string()).collect();
        l[k] = c.to_string();
        bad.push(l);
    }
    // Names and numbers that are merely beside each other do not become one name, whatever white space is between.
    for w in [" ", "  ", "\t", " \t", "\t ", "\t\t", "\u{b}", "\u{c}", "\u{a0}", "\u{2003}", "\u{3000}", " \u{a0} "] {
        for (l, r) in [("a", "b"), ("2", "3"), ("a", "2"), ("x_", "1"), ("2.", "5"), ("2", ".5"), ("A", "B"), ("ln", "2")] {
            for (k, c) in [(0, "if @ < b:"), (0, "if b >= @:"), (0, "if -(@) == b + 1:"), (1, "    i = @"), (1, "    @ = i"), (1, "  i - 2*@ = 0"), (3, "    i = 1 + @"), (3, "    i = (@)")] {
                let mut t: Vec<String> = good.iter().map(|s| s.to_string()).collect();
                t[k] = c.replace('@', &format!("{l}{w}{r}"));
                bad.push(t);
            }
        }
    }
    // Keywords in other spellings: the branches never count as plain equations.
    for (i, c) in ["if a < b:", "IF a < b:", "If a < b:", "if a < b then", "IF a < b", "if a < b", "  iF a >= b  ", "if a == b", "IF a != b then"].iter().enumerate() {
        for (j, o) in ["else:", "ELSE:", "Else:", "else", "Else :", "ELSE", "  eLSE"].iter().enumerate() {
            for (k, f) in ["end", "END", "End", "endif", "end if", "END IF", "  eNd  "].iter().enumerate() {
                if (i, j, k) != (0, 0, 0) && (i, j) != (0, 0) {
                    bad.push([c, "    i = 1", o, "    i = -1", f].map(|s| s.to_string()).to_vec());
                }
                if i > 0 && j > 0 {
                    bad.push([c, "    i = 1", o, "    j = -1", f].map(|s| s.to_string()).to_vec());
                }
            }
        }
    }
    let joined = "const ab = 9\nconst a2 = 8\nconst x_1 = 7\nconst AB = 6\nconst ln2 = 5\n";
    for l in bad {
        for post in ["", "\nz = 4"] {
            let text = format!("{head}{joined}{}{post}", l.join("\n"));
            ctx.case(|| format!("malformed text {text:?}"), |st| refused(&text, st));
        }
    }
}

/// The shape of nested blocks: which of the two bodies are blocks.
#[derive(Clone, Debug)]
struct Shape(Option<Box<Shape>>, Option<Box<Shape>>);

fn shapes(depth: usize) -> Vec<Shape> {
    if depth == 1 {
        return vec![Shape(None, None)];
    }
    let sub = shapes(depth - 1);
    let opts: Vec<Option<Box<Shape>>> = std::iter::once(None).chain(sub.into_iter().map(|s| Some(Box::new(s)))).collect();
    opts.iter().flat_map(|a| opts.iter().map(move |b| Shape(a.clone(), b.clone()))).collect()
}

fn count(s: &Shape) -> usize {
    1 + s.0.as_ref().map_or(0, |s| count(s)) + s.1.as_ref().map_or(0, |s| count(s))
}

fn build(s: &Shape, ks: &[usize], kinds: usize, conds: &[(usize, usize)], at: &mut usize, leaf: &mut usize) -> Block {
    let k = ks[*at];
    // with few kinds, use different operators at different places
    let (op, c) = match kinds {
        18 => (k / 3, k % 3),
        6 => ((k / 3) * 3 + *at % 3, k % 3),
        _ => ((*at * 2 + 1) % 6, k),
    };
    *at += 1;
    let mut body = |s: &Option<Box<Shape>>| match s {
        None => {
            *leaf += 1;
            Body::Eq((*leaf * 4 + 3) % BODIES.len())
        }
        Some(s) => Body::Block(Box::new(build(s, ks, kinds, conds, at, leaf))),
    };
    let then = body(&s.0);
    let other = body(&s.1);
    Block { l: conds[c].0, op, r: conds[c].1, then, other }
}
