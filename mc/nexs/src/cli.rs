//! N06: the nxc program.

use mc_core::cli::{run, snapshot, Scratch};
use mc_core::{util, Ctx, Stats};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

const SYSTEMS: &[&str] = &[
    "keep x on [0, 100]\nguess 3 for y\nconst nine = 9\n\nx + y = nine\nx - y = 4\n\nif x > y:\n    i = 1\nelse:\n    i = -1\nend\n",
    "x^2 = 2 // comment\ny = x * [ft->m]\r\n",
    "x^3 = 10\ny = x + 1\n",
    "x + y = 3\n",
    "x^2 = -1\n",
    "x = #nope\n",
    "",
];

const ONE_BY_ONE: &str = "// one by one\n";

struct Opt {
    args: &'static [&'static str],
    set: Set,
}

#[derive(Clone, Copy, PartialEq)]
enum Set {
    Margin(f64),
    Limit(usize),
    File,
    Verbose,
    Bad,
}

const OPTS: &[Opt] = &[
    Opt { args: &["--margin", "0.25"], set: Set::Margin(0.25) },
    Opt { args: &["-tol", "1e-9"], set: Set::Margin(1e-9) },
    Opt { args: &["--max-iterations", "4"], set: Set::Limit(4) },
    Opt { args: &["-max", "500"], set: Set::Limit(500) },
    Opt { args: &["-o"], set: Set::File },
    Opt { args: &["--output-file"], set: Set::File },
    Opt { args: &["--verbose"], set: Set::Verbose },
    Opt { args: &["-v"], set: Set::Verbose },
    Opt { args: &["-max", "256"], set: Set::Limit(256) },
    Opt { args: &["--max-iterations", "65536"], set: Set::Limit(65536) },
    Opt { args: &["-max", "4294967296"], set: Set::Limit(1 << 32) },
    Opt { args: &["-max", "0"], set: Set::Limit(0) },
    Opt { args: &["-tol", "-0.5"], set: Set::Margin(-0.5) },
    Opt { args: &["--margin"], set: Set::Bad },
    Opt { args: &["-tol", "abc"], set: Set::Bad },
    Opt { args: &["--max-iterations", "-3"], set: Set::Bad },
    Opt { args: &["-max", "1.5"], set: Set::Bad },
    Opt { args: &["-max"], set: Set::Bad },
];

/// "name = value" lines of the solution section.
fn values(out: &str) -> Option<BTreeMap<String, f64>> {
    let body = out.split("Solution:").nth(1)?.split("Procedure:").next()?;
    body.lines()
        .filter(|l| l.contains(" = "))
        .map(|l| {
            let (n, v) = l.split_once(" = ")?;
            Some((n.trim().to_string(), v.trim().parse().ok()?))
        })
        .collect()
}

fn case(system: &str, file: &str, absolute: bool, opts: &[&Opt], before: &[(&str, Option<&str>)], st: &mut Stats) -> Result<(), String> {
    let dir = Scratch::new();
    let path = dir.0.join(file);
    std::fs::create_dir_all(path.parent().unwrap()).map_err(|e| e.to_string())?;
    std::fs::write(&path, system).map_err(|e| e.to_string())?;
    for (name, text) in before {
        match text {
            Some(t) => std::fs::write(dir.0.join(name), t).map_err(|e| e.to_string())?,
            None => std::fs::create_dir_all(dir.0.join(name)).map_err(|e| e.to_string())?,
        }
    }
    let first = snapshot(&dir.0);
    let mut args = vec![if absolute { path.to_string_lossy().into_owned() } else { file.to_string() }];
    args.extend(opts.iter().flat_map(|o| o.args.iter().map(|a| a.to_string())));
    st.step();
    let (code, out, _) = run(&dir.0, "nxc", &args)?;

    let (mut margin, mut limit, mut to_file, mut bad, mut verbose) = (1e-4, 100, false, false, false);
    for o in opts {
        match o.set {
            Set::Margin(m) => margin = m,
            Set::Limit(l) => limit = l,
            Set::File => to_file = true,
            Set::Bad => bad = true,
            Set::Verbose => verbose = true,
        }
    }
    let compiled = nexsys::parsing::compile(system, &mut geqslib::shunting::new_context(), &mut HashMap::new()).ok();
    bad |= verbose && compiled.is_none();
    let want = if bad { None } else { crate::common::solve_text(system, margin, limit, 1)?.ok() };
    let last = snapshot(&dir.0);
    let gone: Vec<&String> = first.keys().filter(|k| !last.contains_key(*k)).collect();
    let new: Vec<&String> = last.iter().filter(|(k, v)| first.get(*k) != Some(*v)).map(|(k, _)| k).collect();
    if !gone.is_empty() || new.contains(&&file.to_string()) {
        return Err(format!("files {gone:?} are gone and {new:?} are new or changed"));
    }
    st.state(util::fnv(format!("{code}{new:?}").as_bytes()));
    let blocked = to_file && before.iter().any(|b| b.1.is_none());
    let Some((log, want)) = want.filter(|_| !blocked) else {
        st.outcome("error");
        if code == 0 || !new.is_empty() || !out.contains("ERR") {
            return Err(format!("exit status {code}, new files {new:?}, output {out:?}, expected an error"));
        }
        return Ok(());
    };
    if code != 0 {
        return Err(format!("exit status {code} with output {out:?}"));
    }
    let report = if to_file {
        st.outcome("written");
        if new.len() != 1 || !new[0].ends_with(".txt") || Path::new(new[0]).parent() != Path::new(file).parent() {
            return Err(format!("new or changed files: {new:?}"));
        }
        if let Some(stem) = file.strip_suffix(".nxs") {
            if *new[0] != format!("{stem}.txt") {
                return Err(format!("the results are in {:?}", new[0]));
            }
        }
        String::from_utf8_lossy(&last[new[0]]).into_owned()
    } else {
        st.outcome("printed");
        if !new.is_empty() {
            return Err(format!("new or changed files: {new:?}"));
        }
        out.clone()
    };
    let got = values(&report).ok_or(format!("no solution in {report:?}"))?;
    // Where no equation has two unknowns, nothing depends on an order, and the values are shown as they are
    let floor = if system.starts_with(ONE_BY_ONE) { 0.0 } else { 1.0 };
    if got.len() != want.len() || want.iter().any(|(n, v)| !got.get(n).is_some_and(|g| (g - v).abs() <= 1e-9 * v.abs().max(floor))) {
        return Err(format!("reported {got:?}, the library gives {want:?}"));
    }
    for line in system.lines().filter(|l| l.contains(" + ") || l.contains("^3")) {
        // the equations used are part of the report
        if got.contains_key("x") && log.iter().any(|l| l.contains(line)) && !report.contains(line) {
            return Err(format!("the procedure in {report:?} does not have {line:?}"));
        }
    }
    if verbose {
        let c = compiled.unwrap_or_default();
        if !c.trim().is_empty() && !out.contains(c.trim()) {
            return Err(format!("verbose output {out:?} does not have {c:?}"));
        }
    }
    Ok(())
}

pub fn n06(ctx: &mut Ctx) {
    // Every sequence of options up to length 2 (3).
    for n in 0..=ctx.pick(2, 3) {
        util::product(&vec![OPTS.len(); n], |ix| {
            let opts: Vec<&Opt> = ix.iter().map(|i| &OPTS[*i]).collect();
            // a missing value is only missing at the end
            if opts.iter().rev().skip(1).any(|o| o.args.len() == 1 && o.set == Set::Bad) {
                return;
            }
            for (s, system) in SYSTEMS.iter().enumerate() {
                // without a solution, nothing ends a search with an endless limit
                if system.contains("-1") && opts.iter().any(|o| matches!(o.set, Set::Limit(l) if l > 1 << 20)) {
                    continue;
                }
                if n == 2 && ctx.quick() && (ix[0] + ix[1]) % 2 == s % 2 || n == 3 && (ix[0] + ix[1] + ix[2]) % SYSTEMS.len() != s {
                    continue;
                }
                let args: Vec<&str> = opts.iter().flat_map(|o| o.args.iter().copied()).collect();
                ctx.case(|| format!("system {s}, in.nxs {args:?}"), |st| case(system, "in.nxs", s % 2 == 0, &opts, &[], st));
            }
        });
    }
    // File names, files that are already there, folders in the way.
    let files = ["in.nxs", "in", "in.txt", "in.nxs.nxs", "in.NXS", "a b.nxs", "sub/in.nxs", "dir.nxs/in", "dir.nxs/in.nxs", ".nxs", "nxs", "in.nxs.txt", "in.md", "\u{e4}.nxs", "-o.nxs", "--margin.nxs"];
    let befores: [&[(&str, Option<&str>)]; 6] = [
        &[],
        &[("in.txt", Some("old contents that are much longer than what is written now, so that a remainder would show up. "))],
        &[("other.nxs", Some("x = 1")), ("other.txt", Some("y"))],
        &[("in.nxs.txt", Some("old"))],
        &[("in.txt.txt", Some("old"))],
        &[("out.txt", Some("old"))],
    ];
    for file in files {
        for before in befores {
            if before.iter().any(|b| b.0 == file) {
                continue;
            }
            for (o, opts) in [&OPTS[4..5], &OPTS[5..6], &OPTS[0..0], &OPTS[3..5], &OPTS[5..7]].iter().enumerate() {
                for s in [0, 2, 4] {
                    for absolute in [false, true] {
                        let opts: Vec<&Opt> = opts.iter().collect();
                        ctx.case(|| format!("system {s}, file {file}, options {o}, absolute {absolute}, before {before:?}"), |st| case(SYSTEMS[s], file, absolute, &opts, before, st));
                    }
                }
            }
        }
    }
    for opts in [&OPTS[4..5], &OPTS[5..6], &OPTS[0..0]] {
        ctx.case(|| format!("a folder is in the way, {} options", opts.len()), |st| case(SYSTEMS[0], "in.nxs", false, &opts.iter().collect::<Vec<_>>(), &[("in.txt", None)], st));
    }
    // Large texts, long lines, many options.
    for n in [10usize, 40, 100, 400] {
        for shape in 0..3 {
            for o in [&OPTS[4..5], &OPTS[0..0], &OPTS[6..7]] {
                if n > 100 && shape == 2 {
                    continue;
                }
                ctx.case(
                    || format!("{n} lines of shape {shape}, options {:?}", o.iter().map(|o| o.args).collect::<Vec<_>>()),
                    |st| {
                        let mut t = String::new();
                        for i in 0..n {
                            t += &match shape {
                                0 if i == 0 => "v0 + 1 = 3\n".to_string(),
                                0 => format!("v{i} + 2 = v{} + 2.5\n", i - 1),
                                1 => format!("const k{i} = {i}\nkeep w{i} on [{i}, {}]\n w{i} + {} = k{i} + 7 // {i}\n\n", i + 2, 6),
                                _ => format!("if {i} < 50:\n    u{i} + 1 = {i}\nelse:\n    u{i} - 1 = {i}\nend\n"),
                            };
                        }
                        let opts: Vec<&Opt> = o.iter().collect();
                        case(&t, "in.nxs", false, &opts, &[("in.txt", Some("old"))], st)
                    },
                );
            }
        }
    }
    // Values of every size are shown with all their digits.
    for power in -30i32..=30 {
        for digits in ["1", "2.512345678912", "-7.000000001", "9.99999999999"] {
            for o in [&OPTS[4..5], &OPTS[0..0], &OPTS[6..7]] {
                ctx.case(
                    || format!("a value of {digits} * 10^{power}, options {:?}", o.iter().map(|o| o.args).collect::<Vec<_>>()),
                    |st| {
                        let zeros = "0".repeat(power.unsigned_abs() as usize);
                        let factor = if power < 0 { format!("1{zeros}") } else { format!("(1/1{zeros})") };
                        let t = format!("{ONE_BY_ONE}const k = {digits}\n{factor} * x = {digits}\ny = x + k\n");
                        case(&t, "in.nxs", false, &o.iter().collect::<Vec<_>>(), &[], st)
                    },
                );
            }
        }
    }
    for len in [1000usize, 5000] {
        for o in [&OPTS[4..5], &OPTS[0..0], &OPTS[6..7]] {
            ctx.case(
                || format!("lines of {len} terms, {} options", o.len()),
                |st| {
                    let t = format!("x + 1{} = 3\n{} + 4 = 6\n", " + 0.25 - 0.25".repeat(len), "y".repeat(len));
                    case(&t, "in.nxs", true, &o.iter().collect::<Vec<_>>(), &[], st)
                },
            );
        }
    }
    for times in [3usize, 8, 9, 16, 17, 40] {
        for first in 0..8 {
            for second in 0..8 {
                ctx.case(
                    || format!("{times} times {:?} {:?}", OPTS[first].args, OPTS[second].args),
                    |st| {
                        let opts: Vec<&Opt> = (0..times).flat_map(|_| [&OPTS[first], &OPTS[second]]).collect();
                        case(SYSTEMS[2], "in.nxs", false, &opts, &[], st)
                    },
                );
            }
        }
    }
    // Nothing to read, and help.
    let none: [&[&str]; 8] = [&["missing.nxs"], &["missing.nxs", "-o"], &["sub"], &["binary.nxs"], &["binary.nxs", "-o", "-v"], &[""], &["-o"], &["in", "-o"]];
    for args in none {
        ctx.case(
            || format!("nothing to read: {args:?}"),
            |st| {
                let dir = Scratch::new();
                std::fs::create_dir(dir.0.join("sub")).map_err(|e| e.to_string())?;
                std::fs::write(dir.0.join("binary.nxs"), [0x78, 0x20, 0x3d, 0x20, 0xff, 0xfe, 0x0a]).map_err(|e| e.to_string())?;
                std::fs::write(dir.0.join("in.nxs"), "x = 3").map_err(|e| e.to_string())?;
                let first = snapshot(&dir.0);
                st.step();
                st.outcome("nothing to read");
                let (code, out, _) = run(&dir.0, "nxc", &args.iter().map(|a| a.to_string()).collect::<Vec<_>>())?;
                if code == 0 || !out.contains("ERR") || snapshot(&dir.0) != first {
                    return Err(format!("exit status {code}, output {out:?}, files {:?}", snapshot(&dir.0).keys()));
                }
                Ok(())
            },
        );
    }
    let help: [&[&str]; 3] = [&[], &["help"], &["-h"]];
    for args in help {
        ctx.case(
            || format!("help: {args:?}"),
            |st| {
                let dir = Scratch::new();
                st.step();
                st.outcome("help");
                let (code, out, _) = run(&dir.0, "nxc", &args.iter().map(|a| a.to_string()).collect::<Vec<_>>())?;
                for word in ["USAGE", "--margin", "-tol", "--max-iterations", "-max", "--output-file", "-o", "--verbose", "-v"] {
                    if !out.contains(word) {
                        return Err(format!("{word} is missing in {out:?}"));
                    }
                }
                if code != 0 || !snapshot(&dir.0).is_empty() {
                    return Err(format!("exit status {code}"));
                }
                Ok(())
            },
        );
    }
}
