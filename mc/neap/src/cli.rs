//! A05: the neapolitan program.

use crate::common::*;
use mc_core::cli::{run, snapshot, Scratch};
use mc_core::{util, Ctx, Stats};

fn models() -> Vec<(&'static str, Net)> {
    let net = |model, nodes, config, elems| Net { model, nodes, config, elems };
    vec![
        ("circuit", net("dc_circuit", 4, vec![(0, 0.0, true)], vec![voltage(0, 1, 3.0), resistor(1, 2, 2.0), resistor(1, 2, 2.0), resistor(2, 3, 1.0), resistor(3, 0, 1.0)])),
        ("wall", net("heat_transfer", 4, vec![(0, 21.0, true), (3, -4.0, true)], vec![convection(0, 1, 8.0), rod(1, 2, 0.25, 1.5), convection(2, 3, 25.0)])),
        ("contradiction", net("dc_circuit", 3, vec![(0, 0.0, true)], vec![resistor(0, 1, 1.0), current(1, 2, 1.0)])),
        ("overdetermined", net("dc_circuit", 2, vec![(0, 0.0, true), (1, 3.0, true)], vec![voltage(0, 1, 3.0)])),
        ("nothing to solve for", net("dc_circuit", 2, vec![(0, 0.0, true)], vec![voltage(0, 1, 3.0), resistor(1, 0, 2.0)])),
    ]
}

const BROKEN: &[&str] = &["", "{}", "[]", "null", "{\"model_type\": \"dc_circuit\"", "{\"model_type\": \"nope\", \"nodes\": 1, \"configuration\": {}, \"elements\": []}", "\u{feff}{}"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Set {
    Margin(f64),
    Limit(usize),
    Other,
    Bad,
}

const OPTS: &[(&[&str], Set)] = &[
    (&["--precision", "0.25"], Set::Margin(0.25)),
    (&["-p", "1e-9"], Set::Margin(1e-9)),
    (&["--iterations", "4"], Set::Limit(4)),
    (&["-i", "500"], Set::Limit(500)),
    (&["-i", "256"], Set::Limit(256)),
    (&["--iterations", "65536"], Set::Limit(65536)),
    (&["-i", "4294967296"], Set::Limit(1 << 32)),
    (&["-i", "0"], Set::Limit(0)),
    (&["-i", "1"], Set::Limit(1)),
    (&["-p", "-0.5"], Set::Margin(-0.5)),
    (&["-p", "0"], Set::Margin(0.0)),
    (&["more"], Set::Other),
    (&["-x"], Set::Other),
    (&["-p", "abc"], Set::Bad),
    (&["--iterations", "-3"], Set::Bad),
    (&["-i", "1.5"], Set::Bad),
    (&["--precision", "--iterations"], Set::Bad),
    (&["-i", "-p"], Set::Bad),
    (&["--precision"], Set::Bad),
    (&["-p"], Set::Bad),
    (&["--iterations"], Set::Bad),
    (&["-i"], Set::Bad),
];

type Opt = (&'static [&'static str], Set);

fn case(text: &str, net: Option<&Net>, file: &str, absolute: bool, opts: &[&Opt], before: &[(&str, Option<&str>)], st: &mut Stats) -> Result<(), String> {
    let dir = Scratch::new();
    let path = dir.0.join(file);
    std::fs::create_dir_all(path.parent().unwrap()).map_err(|e| e.to_string())?;
    std::fs::write(&path, text).map_err(|e| e.to_string())?;
    for (name, text) in before {
        match text {
            Some(t) => std::fs::write(dir.0.join(name), t).map_err(|e| e.to_string())?,
            None => std::fs::create_dir_all(dir.0.join(name)).map_err(|e| e.to_string())?,
        }
    }
    let first = snapshot(&dir.0);
    let mut args = vec![if absolute { path.to_string_lossy().into_owned() } else { file.to_string() }];
    args.extend(opts.iter().flat_map(|o| o.0.iter().map(|a| a.to_string())));
    st.step();
    let (code, out, _) = run(&dir.0, "neapolitan", &args)?;
    let last = snapshot(&dir.0);
    let gone: Vec<&String> = first.keys().filter(|k| !last.contains_key(*k)).collect();
    let new: Vec<&String> = last.iter().filter(|(k, v)| first.get(*k) != Some(*v)).map(|(k, _)| k).collect();
    if !gone.is_empty() || new.contains(&&file.to_string()) {
        return Err(format!("files {gone:?} are gone and {new:?} are new or changed"));
    }
    st.state(util::fnv(format!("{code}{new:?}").as_bytes()));
    let (mut margin, mut limit, mut bad) = (1e-4, 100, false);
    for o in opts {
        match o.1 {
            Set::Margin(m) => margin = m,
            Set::Limit(l) => limit = l,
            Set::Bad => bad = true,
            Set::Other => {}
        }
    }
    let stem = file.strip_suffix(".json").unwrap_or(file);
    let target = format!("{stem}.soln.json");
    let blocked = before.iter().any(|b| b.1.is_none() && b.0 == target);
    let want = match net {
        Some(net) if !bad && !blocked => solve(text, margin, limit)?.ok().map(|r| (net, r)),
        _ => None,
    };
    let Some((net, want)) = want else {
        st.outcome("error");
        if code == 0 || !new.is_empty() || !out.contains("ERR") {
            return Err(format!("exit status {code}, new files {new:?}, output {out:?}, expected an error"));
        }
        return Ok(());
    };
    if code != 0 {
        return Err(format!("exit status {code} with output {out:?}"));
    }
    st.outcome("written");
    // A solution that was there already may be the same
    let written = last.get(&target).ok_or(format!("no {target}; new or changed files: {new:?}"))?;
    if new.iter().any(|n| **n != target) {
        return Err(format!("new or changed files: {new:?}"));
    }
    let v: serde_json::Value = serde_json::from_slice(written).map_err(|e| format!("{e} in the solution file"))?;
    let rep = report_of_json(&v)?;
    laws(net, &rep, margin)?;
    let same = |a: &std::collections::BTreeMap<String, Vec<f64>>, b: &std::collections::BTreeMap<String, Vec<f64>>| {
        a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| y.len() == x.len() && x.iter().zip(y).all(|(p, q)| util::close(*p, *q, 2.0 * margin + 1e-9))))
    };
    if !same(&rep.0, &want.0) || !same(&rep.1, &want.1) {
        return Err(format!("wrote {rep:?}, the library gives {want:?}"));
    }
    Ok(())
}

pub fn a05(ctx: &mut Ctx) {
    let models = models();
    for n in 0..=ctx.pick(2, 3) {
        util::product(&vec![OPTS.len(); n], |ix| {
            let opts: Vec<&Opt> = ix.iter().map(|i| &OPTS[*i]).collect();
            // a missing value is only missing at the end
            if opts.iter().rev().skip(1).any(|o| o.0.len() == 1 && o.1 == Set::Bad) {
                return;
            }
            // "-i -p" swallows what follows
            for (m, (name, net)) in models.iter().enumerate() {
                if n == 2 && ctx.quick() && m > 1 && (ix[0] + ix[1]) % 3 != m - 2 || n == 3 && (ix[0] + ix[1] + ix[2]) % models.len() != m {
                    continue;
                }
                let args: Vec<&str> = opts.iter().flat_map(|o| o.0.iter().copied()).collect();
                ctx.case(|| format!("{name}, in.json {args:?}"), |st| case(&net.json(), Some(net), "in.json", m % 2 == 0, &opts, &[], st));
            }
        });
    }
    let files = [
        "in.json", "in", "in.txt", "in.json.json", "in.JSON", "a b.json", "sub/in.json", "dir.json/in", "dir.json/in.json", ".json", "json", "in.soln.json", "in.json.soln", "injson", "\u{e4}.json", "--p.json",
    ];
    let long = "old contents that are much longer than what is written now, so that a remainder would show up. ".repeat(20);
    let befores: [&[(&str, Option<&str>)]; 7] = [
        &[],
        &[("in.soln.json", Some(&long))],
        &[("other.json", Some("{}")), ("other.soln.json", Some("y"))],
        &[("in.json.soln.json", Some("old"))],
        &[("soln.json", Some("old")), ("in.json.bak", Some("older"))],
        &[("in.soln.json", None)],
        &[("in.soln.json", Some(""))],
    ];
    for file in files {
        for before in befores {
            if before.iter().any(|b| b.0 == file) {
                continue;
            }
            for opts in [&OPTS[0..0], &OPTS[1..4], &OPTS[2..3]] {
                for (name, net) in &models {
                    for absolute in [false, true] {
                        let opts: Vec<&Opt> = opts.iter().collect();
                        let before2: Vec<_> = before.iter().map(|b| b.0).collect();
                        ctx.case(
                            || format!("{name}, file {file}, {} options, absolute {absolute}, before {before2:?}", opts.len()),
                            |st| case(&net.json(), Some(net), file, absolute, &opts, before, st),
                        );
                    }
                }
            }
        }
    }
    // Large models, many options.
    for n in [8usize, 9, 12, 16, 17, 25, 33] {
        for beside in [1usize, 3, 8] {
            for heat in [false, true] {
                for opts in [&OPTS[0..0], &OPTS[1..2]] {
                    if n > 17 && beside > 1 && ctx.quick() {
                        continue;
                    }
                    ctx.case(
                        || format!("a ladder of {n} nodes with {beside} elements in each rung (heat: {heat}), {} options", opts.len()),
                        |st| {
                            let elems = (0..n - 1)
                                .flat_map(|i| (0..beside).map(move |k| (i, k)))
                                .map(|(i, k)| {
                                    let (a, b) = if (i + k) % 3 == 0 { (i + 1, i) } else { (i, i + 1) };
                                    match (heat, i) {
                                        (true, _) if k % 2 == 1 => convection(a, b, 2.0 + k as f64),
                                        (true, _) => rod(a, b, 0.5 + k as f64, 2.0),
                                        (false, _) => resistor(a, b, 1.0 + (i + k) as f64 / 4.0),
                                    }
                                })
                                .collect();
                            let net = Net { model: if heat { "heat_transfer" } else { "dc_circuit" }, nodes: n, config: vec![(0, 20.0, true), (n - 1, -5.0, true)], elems };
                            case(&net.json(), Some(&net), "in.json", true, &opts.iter().collect::<Vec<_>>(), &[("in.soln.json", Some(&long))], st)
                        },
                    );
                }
            }
        }
    }
    for times in [3usize, 8, 9, 16, 17, 40] {
        for first in 0..13 {
            for second in 0..13 {
                ctx.case(
                    || format!("{times} times {:?} {:?}", OPTS[first].0, OPTS[second].0),
                    |st| {
                        let opts: Vec<&Opt> = (0..times).flat_map(|_| [&OPTS[first], &OPTS[second]]).collect();
                        let (_, net) = &models[times % 2];
                        case(&net.json(), Some(net), "in.json", false, &opts, &[], st)
                    },
                );
            }
        }
    }
    for (i, text) in BROKEN.iter().enumerate() {
        for file in ["in.json", "in"] {
            for before in [&[][..], &[("in.soln.json", Some("old"))]] {
                ctx.case(|| format!("broken {i}, file {file}, {} before", before.len()), |st| case(text, None, file, false, &[], before, st));
            }
        }
    }
    let none: [&[&str]; 7] = [&[], &["missing.json"], &["missing.json", "-p", "1"], &["sub"], &["binary.json"], &[""], &["-p", "0.1"]];
    for args in none {
        ctx.case(
            || format!("nothing to read: {args:?}"),
            |st| {
                let dir = Scratch::new();
                std::fs::create_dir(dir.0.join("sub")).map_err(|e| e.to_string())?;
                std::fs::write(dir.0.join("binary.json"), [0x7b, 0x20, 0xff, 0xfe, 0x0a]).map_err(|e| e.to_string())?;
                let first = snapshot(&dir.0);
                st.step();
                st.outcome("nothing to read");
                let (code, out, _) = run(&dir.0, "neapolitan", &args.iter().map(|a| a.to_string()).collect::<Vec<_>>())?;
                if code == 0 || !out.contains("ERR") || snapshot(&dir.0) != first {
                    return Err(format!("exit status {code}, output {out:?}, files {:?}", snapshot(&dir.0).keys()));
                }
                Ok(())
            },
        );
    }
    // The samples that come with the program.
    for sample in ["/repo/neapolitan/neapolitan_json/circuit.json"] {
        let Ok(text) = std::fs::read_to_string(sample) else { continue };
        let net = &models[0].1;
        ctx.case(|| format!("sample {sample}"), |st| case(&text, Some(net), "circuit.json", false, &[], &[], st));
    }
}
