//! N02: comments, engineering constants and const declarations.

use crate::common::{demand, own, solve_text};
use mc_core::{catch, util, Ctx, Stats};
use nexsys::parsing::{comments, consts};

/// Known engineering constants (SI): the value in the tables and the one accepted today.
const CONSTS: &[(&str, f64, f64)] = &[
    ("NA", 6.022169e26, 6.02214076e26), ("h_NH3", -46190.0, -46190.0), ("e", 1.6021917e-19, 1.602176634e-19), ("h_C2H4", 52280.0, 52280.0),
    ("g", 9.807, 9.80665), ("F", 96486700.0, 96485332.12), ("gc", 6.6732e-11, 6.6743e-11), ("h_CH2", 226730.0, 226730.0),
    ("r_e", 2.817939e-15, 2.8179403e-15), ("h_C6H6", 82930.0, 82930.0), ("C1", 374200000.0, 374177185.2), ("k", 1.380622e-23, 1.380649e-23),
    ("Black", 0.0, 0.0), ("White", 16777215.0, 16777215.0), ("h_C2H5OH_g", -235310.0, -235310.0), ("epsilon_o", 8.85418782e-12, 8.8541878e-12),
    ("true", 1.0, 1.0), ("false", 0.0, 0.0), ("e_Me", 175880280000.0, 175882001000.0), ("C2", 14388.0, 14387.76877),
    ("h_C2H5OH_l", -277690.0, -277690.0), ("Me", 9.109558e-31, 9.1093837e-31), ("Red", 255.0, 255.0), ("C3", 2897.7, 2897.771955),
    ("h_C8H18_l", -249950.0, -249950.0), ("h_CH3OH_l", -238660.0, -238660.0), ("h_C8H18_g", -208450.0, -208450.0), ("T_zero", 273.15, 273.15),
    ("Mn", 1.67492e-27, 1.6749275e-27), ("Po", 101.325, 101.325), ("R_inf", 10973730.0, 10973731.568), ("h_C3H6_g", -20410.0, -20410.0),
    ("Mp", 1.672614e-27, 1.67262192e-27), ("h", 6.62606957e-34, 6.62607015e-34), ("Vo", 22.4136, 22.41396954), ("Blue", 16711680.0, 16711680.0),
    ("R", 8.31434, 8.31446261815324), ("SndSpeed", 331.36, 331.3), ("sigma", 5.670373e-08, 5.670374419e-08), ("h_CH3OH_g", -200670.0, -200670.0),
    ("h_H2O2", -136310.0, -136310.0), ("G_sc", 1367.0, 1361.0), ("h_fg_water", 2441.5, 2442.0), ("U", 1.660531e-27, 1.66053907e-27),
    ("Yellow", 65535.0, 65535.0), ("C", 299792500.0, 299792458.0), ("Green", 65280.0, 65280.0), ("pi", 3.14159265359, 3.141592653589793),
    ("muo", 1.25663705e-06, 1.25663706e-06),
];

type System = (&'static [&'static str], &'static [(&'static str, f64)]);

/// Systems with their solutions; comments must not change anything about them.
const SYSTEMS: &[System] = &[
    (&["x + y = 9", "x - y = 4"], &[("x", 6.5), ("y", 2.5)]),
    (&["keep x on [0, 100]", "guess 3 for y", "const nine = 9", "x + y = nine", "x - y = 4"], &[("nine", 9.0), ("x", 6.5), ("y", 2.5)]),
    (&["a = 2", "b = 7", "if a < b:", "i = 1", "else:", "i = -1", "end"], &[("a", 2.0), ("b", 7.0), ("i", 1.0)]),
    (&["const w = 2 * [ft->m]", "x = w / 0.3048", "", "y = x^2 + #g"], &[("w", 0.6096), ("x", 2.0), ("y", 13.807)]),
    (&["guess 4 for x", "x^2 = 16", "z = 12/x"], &[("x", 4.0), ("z", 3.0)]),
];

const COMMENTS: &[&str] = &[
    "//",
    "// note",
    "//x = 70",
    "// keep x on [50, 60]",
    "// if a < b:",
    "// #nonsense [foo->bar] const x = 1",
    "//// y // y",
    "// e",
    "// x + y = 9",
    "// guess -4 for x",
    "//=",
    "// \u{00b5}m \u{20ac}",
];

fn with_comments(lines: &[&str], put: &[(usize, bool, &str)], crlf: bool) -> String {
    let mut out = String::new();
    for (i, l) in lines.iter().enumerate() {
        // A line of its own inside of an if block would be one of its equations.
        for (_, _, c) in put.iter().filter(|p| p.0 == i && p.1) {
            out += c;
            out += if crlf { "\r\n" } else { "\n" };
        }
        out += l;
        for (_, _, c) in put.iter().filter(|p| p.0 == i && !p.1) {
            out += " ";
            out += c;
        }
        out += if crlf { "\r\n" } else { "\n" };
    }
    out
}

fn solved(text: &str, want: &[(&str, f64)], seed: u64, st: &mut Stats) -> Result<(), String> {
    st.step();
    let got = solve_text(text, 1e-9, 100, seed)?;
    demand(&got, want, 1e-6)?;
    st.outcome("solved");
    if let Ok((_, v)) = got {
        st.state(util::fnv_f64(&own(&v).into_values().collect::<Vec<_>>()));
    }
    Ok(())
}

fn refused(text: &str, seed: u64, st: &mut Stats) -> Result<(), String> {
    st.step();
    st.outcome("refused");
    match solve_text(text, 1e-9, 100, seed)? {
        Err(_) => Ok(()),
        Ok((_, v)) => Err(format!("solved as {:?}", own(&v))),
    }
}

/// Value of a constant as the code has it, which must be the known one.
fn value(name: &str, known: f64, today: f64, st: &mut Stats) -> Result<f64, String> {
    st.step();
    let out = catch(|| consts(&format!("#{name}")).map_err(|e| e.to_string())).map_err(|p| format!("panicked: {p}"))??;
    let num = out.strip_prefix('(').and_then(|o| o.strip_suffix(')')).unwrap_or(&out);
    let v: f64 = num.parse().map_err(|_| format!("replaced with {out:?}"))?;
    if !((v - known).abs() <= 1e-9 * known.abs() || (v - today).abs() <= 1e-5 * today.abs()) {
        return Err(format!("is {v:e}, expected {known:e} (or {today:e})"));
    }
    Ok(v)
}

fn const_decl(text: &str, name: &str, want: f64, st: &mut Stats) -> Result<(), String> {
    st.step();
    let got = solve_text(text, 1e-9, 100, 3)?;
    let (_, v) = got.map_err(|e| format!("refused: {e}"))?;
    match v.get(name) {
        Some(g) if (g - want).abs() <= 1e-9 * want.abs() => {
            st.outcome("constant");
            st.state(util::fnv_f64(&[*g]));
            Ok(())
        }
        g => Err(format!("{name} is {g:?}, expected {want:e}")),
    }
}

/// Every use of something that lacks an operator is refused.
pub fn beside(ctx: &mut Ctx, it: &str) {
    let head = "const x = 2\nconst x1 = 3\nconst k = 4\nconst k1 = 5\nconst a_ = 6\nconst a_1 = 7\n";
    for form in [
        "const q = @", "q = @", "@ = q", "q = 3*(1 + @)", "guess @ for q\nq = 1", "keep q on [@, 1e40]\nq = 1e39", "keep q on [-1e40, @]\nq = -1e39", "if 1 < @:\n q = 1\nelse:\n q = 2\nend",
        "if 1 < 2:\n q = @\nelse:\n q = 2\nend", "if 1 < 2:\n q = 1\nelse:\n @ = q\nend",
    ] {
        let text = format!("{head}{}", form.replace('@', it));
        ctx.case(|| format!("text {text:?}"), |st| refused(&text, 1, st));
    }
}

pub fn n02(ctx: &mut Ctx) {
    // Comments: one and two of them at every position.
    for (s, (lines, want)) in SYSTEMS.iter().enumerate() {
        let spots: Vec<(usize, bool)> = (0..lines.len())
            .flat_map(|i| [(i, false), (i, true)])
            .filter(|(i, own)| !(*own && ["i = 1", "else:", "i = -1", "end"].contains(&lines[*i])))
            .collect();
        for crlf in [false, true] {
            for a in &spots {
                for c in COMMENTS {
                    let text = with_comments(lines, &[(a.0, a.1, c)], crlf);
                    ctx.case(|| format!("comment in system {s}: {text:?}"), |st| solved(&text, want, 1, st));
                    for b in &spots {
                        if ctx.quick() && (b.0 + a.0) % 2 == 1 {
                            continue;
                        }
                        for d in COMMENTS.iter().step_by(ctx.pick(3, 1)) {
                            let text = with_comments(lines, &[(a.0, a.1, c), (b.0, b.1, d)], crlf);
                            ctx.case(|| format!("comments in system {s}: {text:?}"), |st| solved(&text, want, 2, st));
                        }
                    }
                }
            }
        }
    }
    // Only comments go, and all of them: every short text over an alphabet.
    let alpha = ["/", "//", "x", " ", "\n", "=", "a/b"];
    let depth = ctx.pick(5, 7);
    for n in 1..=depth {
        util::product(&vec![alpha.len(); n], |ix| {
            let text: String = ix.iter().map(|i| alpha[*i]).collect();
            ctx.case(
                || format!("text {text:?}"),
                |st| {
                    st.step();
                    let want: Vec<&str> = text.split('\n').map(|l| l.split("//").next().unwrap()).collect();
                    let got = catch(|| comments(&text)).map_err(|p| format!("panicked: {p}"))?;
                    if got != want.join("\n") {
                        return Err(format!("became {got:?}, expected {:?}", want.join("\n")));
                    }
                    st.state(util::fnv(got.as_bytes()));
                    Ok(())
                },
            );
        });
    }
    // Engineering constants: alone, with signs, in pairs.
    for (a, ka, ta) in CONSTS {
        for (form, f) in [
            ("@", (|v| v) as fn(f64) -> f64),
            ("-@", |v| -v),
            ("3 - @", |v| 3.0 - v),
            ("3-@", |v| 3.0 - v),
            ("@*2+1", |v| v * 2.0 + 1.0),
            ("(@)", |v| v),
            ("2*@^2", |v| 2.0 * v * v),
            ("sin(@)", |v: f64| v.sin()),
            ("max(@, 1)", |v: f64| v.max(1.0)),
        ] {
            if form.contains("sin") && (ka.abs() > 1e6) || form.contains("max") {
                continue;
            }
            let text = format!("const q = {}", form.replace('@', &format!("#{a}")));
            ctx.case(
                || format!("text {text:?}"),
                |st| {
                    let v = value(a, *ka, *ta, st)?;
                    const_decl(&text, "q", f(v), st)
                },
            );
        }
        for (b, kb, tb) in CONSTS {
            for (form, f) in [("@-$", (|x, y| x - y) as fn(f64, f64) -> f64), ("@*$", |x, y| x * y), ("@ + $ - @", |x, y| x + y - x), ("$^1*@", |x, y| y * x)] {
                let text = format!("const q = {}", form.replace('@', &format!("#{a}")).replace('$', &format!("#{b}")));
                ctx.case(
                    || format!("text {text:?}"),
                    |st| {
                        let (v, w) = (value(a, *ka, *ta, st)?, value(b, *kb, *tb, st)?);
                        const_decl(&text, "q", f(v, w), st)
                    },
                );
            }
        }
        // A name that is cut short or goes on is another name.
        for wrong in [format!("{a}x"), format!("{a}_"), format!("{a}0"), a[..a.len() - 1].to_string(), format!("_{a}"), a.to_uppercase()] {
            if wrong.is_empty() || CONSTS.iter().any(|c| c.0 == wrong) {
                continue;
            }
            let text = format!("x = 1\nconst q = #{wrong}");
            ctx.case(|| format!("text {text:?}"), |st| refused(&text, 1, st));
        }
        // In equations, where the size allows to solve for them.
        if ka.abs() > 1e-3 && ka.abs() < 1e5 {
            for (form, f) in [
                ("x = @", (|v| v) as fn(f64) -> f64),
                ("@ = 2*x", |v| v / 2.0),
                ("x - @ = 1", |v| 1.0 + v),
                ("x + 5 = 3-@", |v| -2.0 - v),
                ("x/@ = 3", |v| 3.0 * v),
            ] {
                let text = form.replace('@', &format!("#{a}"));
                ctx.case(
                    || format!("text {text:?}"),
                    |st| {
                        let v = value(a, *ka, *ta, st)?;
                        st.step();
                        demand(&solve_text(&text, 1e-9, 100, 5)?, &[("x", f(v))], 1e-6)
                    },
                );
            }
        }
    }
    // Beside numbers, names and other constants without an operator, they do not become one with them.
    for (a, _, _) in CONSTS {
        for (l, r) in ["2", "2.", "0.5", "x", "a_", "k", "1e", "(2)", "#g", "#true", "[m->mm]"].map(|l| (l, "")).into_iter().chain([".5", "(2)", "#g", "#true", "#Red", "[m->mm]"].map(|r| ("", r))) {
            beside(ctx, &format!("{l}#{a}{r}"));
        }
    }
    // const declarations: names that begin with each other, in every order and spelling.
    let exprs: &[(&str, f64)] = &[
        ("9", 9.0), ("-3", -3.0), ("2.5", 2.5), (".5", 0.5), ("1 + 2*3", 7.0), ("(1 + 2)*3", 9.0), ("2^3^2", 512.0), ("16^0.5", 4.0), ("log(2, 8)", 3.0), ("pi", std::f64::consts::PI),
        ("10/4", 2.5), ("-2 - -3", 1.0), ("3 * [ft->m]", 0.9144), ("#g * 2", 19.614), ("#Black", 0.0), ("1e3", 1000.0), ("min(3, 4)", 3.0),
    ];
    let names = ["k", "k1", "k12", "k_1", "K", "speed_of_sound", "on", "for_x", "constant"];
    for n in names {
        for (x, v) in exprs {
            if x.contains("min(") {
                continue;
            }
            for form in ["const @ = $", "const  @=$", "const @ =  $ ", "  const @ = $", "const @ = $\t", "const @ = $ // c", "CONST @ = $", "\tconst @ = $\r"] {
                let decl = form.replace('@', n).replace('$', x);
                for (tail, f) in [("y = @ + 1", (|v| v + 1.0) as fn(f64) -> f64), ("2*y = @*4", |v| 2.0 * v), ("y + @ = @", |_| 0.0)] {
                    let eq = tail.replace('@', n);
                    for text in [format!("{decl}\n{eq}"), format!("{eq}\n{decl}"), format!("\n\n{decl}\n\n{eq}\n\n")] {
                        ctx.case(|| format!("text {text:?}"), |st| solved(&text, &[(n, *v), ("y", f(*v))], 1, st));
                    }
                }
            }
        }
    }
    let lines = ["const k = 2", "const k1 = 30", "const k12 = 400", "x = k + k1 + k12", "y = k12 - k1*k"];
    for p in util::permutations(5) {
        for seed in 1..=ctx.pick(2, 6) {
            let text: Vec<&str> = p.iter().map(|i| lines[*i]).collect();
            let text = text.join("\n");
            ctx.case(
                || format!("seed {seed}, text {text:?}"),
                |st| solved(&text, &[("k", 2.0), ("k1", 30.0), ("k12", 400.0), ("x", 432.0), ("y", 340.0)], seed, st),
            );
        }
    }
    // Many constants at once, long expressions, and comments between all lines.
    for n in ctx.pick(vec![6, 12, 20], vec![6, 8, 10, 12, 16, 17, 20, 33, 64, 100]) {
        for form in 0..6 {
            for order in 0..4 {
                let mut lines: Vec<String> = vec![];
                let mut want: Vec<(String, f64)> = vec![];
                let mut sum = 0.0;
                for i in 1..=n {
                    let v = (i * i % 17) as f64 - 5.0;
                    let (x, v) = match form {
                        0 => (format!("{v}"), v),
                        1 => (format!("{v} // k{i} = 7"), v),
                        2 => (format!("{}", (0..i).map(|_| "1").collect::<Vec<_>>().join(" + ")), i as f64),
                        3 => (format!("#g * {v}"), 9.807 * v),
                        4 => (format!("[ft->in]*{v} - [m->cm]"), 12.0 * v - 100.0),
                        _ => (format!("{}{v}{}", "(".repeat(i), ")".repeat(i)), v),
                    };
                    lines.push(format!("const k{i} = {x}"));
                    want.push((format!("k{i}"), v));
                    sum += v;
                }
                lines.push(format!("s = {}", (1..=n).map(|i| format!("k{i}")).collect::<Vec<_>>().join(" + ")));
                want.push(("s".to_string(), sum));
                match order {
                    0 => {}
                    1 => lines.reverse(),
                    2 => lines.sort(),
                    _ => lines = lines.iter().enumerate().flat_map(|(i, l)| [l.clone(), format!("// {i} {}", "note ".repeat(i))]).collect(),
                }
                let text = lines.join("\n");
                let want: Vec<(&str, f64)> = want.iter().map(|w| (w.0.as_str(), w.1)).collect();
                ctx.case(|| format!("{n} constants: {text:?}"), |st| solved(&text, &want, 1, st));
            }
        }
    }
    // Declarations that make no sense are refused.
    for d in ["const x = ", "const x", "const 3 = 4", "const x = 1 +", "const x = y_unknown", "const x = 1/0", "const x = (2", "const x = 1 = 2", "const x = #nonsense", "const x = [foo->m]", "const x 3", "const = 3"] {
        for text in [d.to_string(), format!("y = 2\n{d}"), format!("{d}\ny = 2")] {
            // "const" on its own is a name like any other
            if d == "const = 3" {
                continue;
            }
            ctx.case(|| format!("text {text:?}"), |st| refused(&text, 1, st));
        }
    }
}
