//! A small explicit explorer: properties enumerate *cases* (an input, an operation
//! history, a model, ...) in a fixed order, each case is executed on the real code and
//! compared with a reference model.  The enumeration is partitioned over worker
//! processes so that a crash (stack overflow, abort, memory corruption) or a hang of the
//! code under test is attributed to the case that caused it instead of ending the check.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::ffi::c_void;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub mod alloc;
pub mod cli;
pub mod driver;
pub mod hash;
pub mod sched;
pub mod util;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Property {
    pub id: &'static str,
    /// Human readable statement of what was enumerated (goes into the evidence file).
    pub space: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

enum Mode {
    /// Execute the cases of one shard.
    Shard { shard: u64, of: u64 },
    /// Execute a single case.
    Only(u64),
    /// Print the description of one case.
    Describe(u64),
    /// Only count cases.
    Count,
}

#[derive(Default)]
pub struct Stats {
    pub transitions: u64,
    states: HashSet<u64>,
    states_capped: bool,
    outcomes: BTreeMap<String, u64>,
}

const STATE_CAP: usize = 3_000_000;

impl Stats {
    /// Counts one call into the implementation (a transition of the explored system).
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    #[inline]
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Records a state (canonical hash) reached by the exploration.
    #[inline]
    pub fn state(&mut self, h: u64) {
        if self.states.len() < STATE_CAP {
            self.states.insert(h);
        } else {
            self.states_capped = true;
        }
    }
    /// Adds what another thread counted.
    pub fn merge(&mut self, o: Stats) {
        self.transitions += o.transitions;
        for s in o.states {
            self.state(s);
        }
        self.states_capped |= o.states_capped;
        for (k, n) in o.outcomes {
            *self.outcomes.entry(k).or_default() += n;
        }
    }
    /// Records which class of observable outcome a case ended in.
    pub fn outcome(&mut self, o: &str) {
        if let Some(n) = self.outcomes.get_mut(o) {
            *n += 1;
        } else {
            self.outcomes.insert(o.to_string(), 1);
        }
    }
}

pub struct Violation {
    pub idx: u64,
    pub desc: String,
    pub msg: String,
}

pub struct Ctx {
    pub tier: Tier,
    mode: Mode,
    idx: u64,
    done: u64,
    pub stats: Stats,
    violations: Vec<Violation>,
    samples: Vec<String>,
    journal: *const AtomicU64,
    started: Instant,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Panic text of a thread started with [`spawn_join`] is carried over to its parent.
pub fn note_panic(msg: String) {
    LAST_PANIC.with(|p| *p.borrow_mut() = msg);
}

/// Forgets the text of the last panic (it is heap memory, which leak checks would see).
pub fn clear_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}

fn quiet_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// `q` on the quick tier, `t` on the thorough tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }

    /// One case of the enumeration. `desc` identifies it (and is its known-finding key).
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Stats) -> Result<(), String>) {
        let idx = self.idx;
        self.idx += 1;
        match self.mode {
            Mode::Shard { shard, of } => {
                if idx % of != shard {
                    return;
                }
            }
            Mode::Only(i) => {
                if idx != i {
                    return;
                }
            }
            Mode::Describe(i) => {
                if idx == i {
                    print!("{}", desc());
                    std::process::exit(0);
                }
                return;
            }
            Mode::Count => return,
        }
        if self.violations.len() >= 40 {
            return;
        }
        unsafe { (*self.journal).store(idx + 1, Ordering::Release) };
        self.done += 1;
        let d = self.done;
        if d == 1 || (d % 2000 == 0 && self.samples.len() < 4) {
            self.samples.push(desc());
        }
        let stats = &mut self.stats;
        let res = match catch_unwind(AssertUnwindSafe(|| f(stats))) {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        };
        if let Err(msg) = res {
            self.violations.push(Violation { idx, desc: desc(), msg });
        }
    }

    /// A case whose number is not known to be relevant: cheaper than `case` as it skips
    /// whole ranges. Returns true if this process has to do anything for the next `n` cases.
    pub fn skip_block(&mut self, n: u64) -> bool {
        let skip = match self.mode {
            Mode::Only(i) | Mode::Describe(i) => i < self.idx || i >= self.idx + n,
            Mode::Count => true,
            Mode::Shard { .. } => false,
        };
        if skip {
            self.idx += n;
        }
        skip
    }
}

extern "C" {
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

fn map_journal(path: &str) -> *const AtomicU64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("journal");
    f.set_len(64).expect("journal");
    let p = unsafe { mmap(std::ptr::null_mut(), 64, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    p as *const AtomicU64
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const HANG: Duration = Duration::from_secs(45);

fn worker(p: &Property, tier: Tier, mode: Mode, dir: &str, name: &str) -> ! {
    // A runaway allocation must end this worker, not the sandbox.
    let lim: u64 = 3 << 30;
    let sanitized = std::env::var("MC_ASAN").is_ok();
    if !sanitized {
        unsafe { setrlimit(9, &[lim, lim]) };
    }
    unsafe { setrlimit(4, &[0, 0]) };
    quiet_hook();
    let _ = catch(|| panic!("warm up what std allocates on the first panic"));
    clear_panic();
    let mut ctx = Ctx {
        tier,
        mode,
        idx: 0,
        done: 0,
        stats: Stats::default(),
        violations: vec![],
        samples: vec![],
        journal: map_journal(&format!("{dir}/{name}.journal")),
        started: Instant::now(),
    };
    (p.run)(&mut ctx);
    unsafe { (*ctx.journal).store(u64::MAX, Ordering::Release) };
    let mut out = String::new();
    let esc = |s: &str| s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r");
    out += &format!("total\t{}\n", ctx.idx);
    out += &format!("done\t{}\n", ctx.done);
    out += &format!("transitions\t{}\n", ctx.stats.transitions);
    out += &format!("capped\t{}\n", ctx.stats.states_capped as u8);
    for (k, n) in &ctx.stats.outcomes {
        out += &format!("outcome\t{}\t{}\n", n, esc(k));
    }
    for s in &ctx.samples {
        out += &format!("sample\t{}\n", esc(s));
    }
    for v in &ctx.violations {
        out += &format!("violation\t{}\t{}\t{}\n", v.idx, esc(&v.desc), esc(&v.msg));
    }
    out += "end\n";
    let _ = ctx.started;
    let mut sb: Vec<u8> = Vec::with_capacity(ctx.stats.states.len() * 8);
    for s in &ctx.stats.states {
        sb.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(format!("{dir}/{name}.states"), sb).expect("write states");
    std::fs::write(format!("{dir}/{name}.out"), out).expect("write out");
    std::process::exit(0);
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

enum End {
    Finished,
    Crashed(u64, String),
    Hung(u64),
    Failed(String),
}

/// The binaries the space is explored with: this one and, if there is one, the same code
/// built with another profile (MC_ALT_EXE), as overflow behaves differently there.
fn exes() -> Vec<std::path::PathBuf> {
    let mut v = vec![std::env::current_exe().expect("exe")];
    if let Ok(a) = std::env::var("MC_ALT_EXE") {
        v.push(a.into());
    }
    v
}

fn self_cmd(exe: usize, args: &[&str]) -> Command {
    let mut c = Command::new(&exes()[exe]);
    c.args(args).env("RUST_BACKTRACE", "0").stdin(Stdio::null());
    c
}

/// Waits for workers, watching their journals.
fn watch(mut kids: Vec<(String, std::process::Child, *const AtomicU64)>, stop_on_bad: bool) -> Vec<(String, End)> {
    use std::os::unix::process::ExitStatusExt;
    let mut last: Vec<(u64, Instant)> = kids.iter().map(|_| (0, Instant::now())).collect();
    let mut ends: Vec<Option<End>> = kids.iter().map(|_| None).collect();
    loop {
        let mut open = 0;
        let mut bad = false;
        for (i, (_, kid, j)) in kids.iter_mut().enumerate() {
            if ends[i].is_some() {
                continue;
            }
            let cur = unsafe { (**j).load(Ordering::Acquire) };
            match kid.try_wait().expect("wait") {
                Some(st) if st.success() => ends[i] = Some(End::Finished),
                Some(st) => {
                    let why = match st.signal() {
                        Some(s) => format!("killed by signal {s}"),
                        None => format!("exit status {}", st.code().unwrap_or(-1)),
                    };
                    ends[i] = Some(if cur > 0 && cur != u64::MAX && st.code() != Some(70) {
                        End::Crashed(cur - 1, why)
                    } else {
                        End::Failed(why)
                    });
                    bad = true;
                }
                None => {
                    if cur != last[i].0 {
                        last[i] = (cur, Instant::now());
                    } else if cur > 0 && cur != u64::MAX && last[i].1.elapsed() > HANG {
                        let _ = kid.kill();
                        let _ = kid.wait();
                        ends[i] = Some(End::Hung(cur - 1));
                        bad = true;
                        continue;
                    }
                    open += 1;
                }
            }
        }
        if open == 0 {
            break;
        }
        if bad && stop_on_bad {
            for (i, (_, kid, _)) in kids.iter_mut().enumerate() {
                if ends[i].is_none() {
                    let _ = kid.kill();
                    let _ = kid.wait();
                    ends[i] = Some(End::Finished);
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    kids.into_iter().zip(ends).map(|((n, _, _), e)| (n, e.unwrap())).collect()
}

fn spawn(exe: usize, prop: &str, tier: &str, mode: &[&str], dir: &str, name: &str) -> (String, std::process::Child, *const AtomicU64) {
    let j = map_journal(&format!("{dir}/{name}.journal"));
    unsafe { (*j).store(0, Ordering::Release) };
    let mut args = vec![prop, tier, "--worker", dir, name];
    args.extend_from_slice(mode);
    let err = std::fs::File::create(format!("{dir}/{name}.err")).expect("err file");
    let kid = self_cmd(exe, &args).stdout(Stdio::null()).stderr(err).spawn().expect("spawn worker");
    (name.to_string(), kid, j)
}

fn describe(prop: &str, tier: &str, dir: &str, idx: u64) -> String {
    let o = self_cmd(0, &[prop, tier, "--worker", dir, "describe", "describe", &idx.to_string()]).output().expect("describe");
    String::from_utf8_lossy(&o.stdout).into_owned()
}

pub fn main(props: &[Property]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} <property> quick|thorough [--worker ... | --replay <case>]", args[0]);
        std::process::exit(2);
    }
    let Some(p) = props.iter().find(|p| p.id == args[1]) else {
        eprintln!("unknown property {}", args[1]);
        std::process::exit(2);
    };
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    if args.len() > 5 && args[3] == "--worker" {
        let (dir, name) = (&args[4], &args[5]);
        let num = |i: usize| args[i].parse::<u64>().expect("number");
        let mode = match args[6].as_str() {
            "shard" => Mode::Shard { shard: num(7), of: num(8) },
            "only" => Mode::Only(num(7)),
            "describe" => Mode::Describe(num(7)),
            _ => Mode::Count,
        };
        worker(p, tier, mode, dir, name);
    }

    if args.len() > 5 && args[3] == "--alone" {
        let _ = sched::ALONE.set((args[4].parse().expect("task"), args[5].parse().expect("variant")));
        let dir = std::env::temp_dir();
        worker(p, tier, Mode::Count, &dir.display().to_string(), &format!("mc_alone_{}", std::process::id()));
    }

    let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
    let t0 = Instant::now();
    let dir = format!("{}/mc_{}_{}", std::env::temp_dir().display(), p.id, std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let cleanup = |code: i32| -> ! {
        let _ = std::fs::remove_dir_all(&dir);
        std::process::exit(code)
    };

    if args.len() > 4 && args[3] == "--replay" {
        // Replay one case (twice: the verdict must be reproducible).
        let idx = &args[4];
        println!("case {idx}: {}", describe(p.id, &args[2], &dir, idx.parse().expect("case number")));
        for k in 0..2 * exes().len() {
            let name = format!("replay{k}");
            let ends = watch(vec![spawn(k / 2, p.id, &args[2], &["only", idx], &dir, &name)], false);
            match &ends[0].1 {
                End::Finished => {
                    let out = std::fs::read_to_string(format!("{dir}/{name}.out")).unwrap_or_default();
                    match out.lines().find(|l| l.starts_with("violation\t")) {
                        Some(v) => println!("run {k}: {}", unesc(v.split('\t').nth(3).unwrap_or(""))),
                        None => println!("run {k}: held"),
                    }
                }
                End::Crashed(_, w) => println!("run {k}: crashed, {w}"),
                End::Hung(_) => println!("run {k}: hung"),
                End::Failed(w) => println!("run {k}: worker failed, {w}"),
            }
        }
        cleanup(0);
    }

    let n: u64 = std::env::var("MC_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(2, 8)
    });
    let mut ends: Vec<(usize, String, End)> = vec![];
    for exe in 0..exes().len() {
        let kids = (0..n)
            .map(|s| spawn(exe, p.id, &args[2], &["shard", &s.to_string(), &n.to_string()], &dir, &format!("w{exe}_{s}")))
            .collect();
        ends.extend(watch(kids, true).into_iter().map(|(name, e)| (exe, name, e)));
    }

    let mut violations: Vec<Violation> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let (mut total, mut done, mut transitions, mut capped) = (0u64, 0u64, 0u64, false);
    let mut states: HashSet<u64> = HashSet::new();
    let mut incomplete = false;

    for (exe, name, end) in &ends {
        let exe = *exe;
        match end {
            End::Finished => {}
            End::Crashed(idx, why) => {
                incomplete = true;
                let err = std::fs::read_to_string(format!("{dir}/{name}.err")).unwrap_or_default();
                // Confirm: the same case on its own must end the process again.
                let again = watch(vec![spawn(exe, p.id, &args[2], &["only", &idx.to_string()], &dir, "confirm")], false);
                let err2 = std::fs::read_to_string(format!("{dir}/confirm.err")).unwrap_or_default();
                match &again[0].1 {
                    End::Crashed(_, w2) => violations.push(Violation {
                        idx: *idx,
                        desc: describe(p.id, &args[2], &dir, *idx),
                        msg: format!("the process died on this case ({w2}): {}", util::clip(if err2.is_empty() { &err } else { &err2 }, 1500)),
                    }),
                    _ => {
                        // Earlier cases of the shard may have corrupted memory: replay the shard itself.
                        let shard = name.split('_').nth(1).unwrap_or("0").to_string();
                        let again = watch(vec![spawn(exe, p.id, &args[2], &["shard", &shard, &n.to_string()], &dir, "confirm2")], false);
                        match &again[0].1 {
                            End::Crashed(i2, w2) => violations.push(Violation {
                                idx: *i2,
                                desc: describe(p.id, &args[2], &dir, *i2),
                                msg: format!("the process died while exploring up to this case ({w2}): {}", util::clip(&err, 1500)),
                            }),
                            _ => errors.push(format!("worker {name} ended once at case {idx} ({why}) and not again: {}", util::clip(&err, 600))),
                        }
                    }
                }
            }
            End::Hung(idx) => {
                incomplete = true;
                let again = watch(vec![spawn(exe, p.id, &args[2], &["only", &idx.to_string()], &dir, "confirm")], false);
                match &again[0].1 {
                    End::Hung(_) => violations.push(Violation {
                        idx: *idx,
                        desc: describe(p.id, &args[2], &dir, *idx),
                        msg: format!("no result after {} s", HANG.as_secs()),
                    }),
                    _ => errors.push(format!("worker {name} made no progress at case {idx}, but the case ends on its own")),
                }
            }
            End::Failed(why) => {
                incomplete = true;
                let err = std::fs::read_to_string(format!("{dir}/{name}.err")).unwrap_or_default();
                errors.push(format!("worker {name}: {why}: {}", util::clip(&err, 600)));
            }
        }
        let Ok(out) = std::fs::read_to_string(format!("{dir}/{name}.out")) else {
            if matches!(end, End::Finished) {
                incomplete = true;
            }
            continue;
        };
        for l in out.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let num = |i: usize| f[i].parse::<u64>().unwrap_or(0);
            match f[0] {
                "total" => total = total.max(num(1) * exes().len() as u64),
                "done" => done += num(1),
                "transitions" => transitions += num(1),
                "capped" => capped |= f[1] == "1",
                "outcome" => *outcomes.entry(unesc(f[2])).or_default() += num(1),
                "sample" => samples.push(unesc(f[1])),
                "violation" => violations.push(Violation { idx: num(1), desc: unesc(f[2]), msg: unesc(f[3]) }),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(format!("{dir}/{name}.states")) {
            for c in b.chunks_exact(8) {
                states.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    if errors.is_empty() && violations.is_empty() && (incomplete || done != total || total == 0) {
        errors.push(format!("explored {done} of {total} cases"));
    }

    violations.sort_by_key(|v| v.idx);
    violations.dedup_by(|a, b| a.idx == b.idx);
    samples.sort_by_key(|s| s.len());
    samples.truncate(12);

    // Known findings are identified by the exact case that fails.
    let known_file = std::fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
    let known: HashSet<String> = known_file
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} case=", p.id)))
        .map(unesc)
        .collect();
    let (found, fresh): (Vec<Violation>, Vec<Violation>) = violations.into_iter().partition(|v| known.contains(&v.desc));
    let one_line = |s: &str| s.replace('\n', "\\n");
    for v in &found {
        println!("KNOWN-FINDING: property={} {} -- {}", p.id, one_line(&v.desc), one_line(&util::clip(&v.msg, 200)));
    }
    let replay_dir = format!("{verif}/replay");
    let _ = std::fs::create_dir_all(&replay_dir);
    for v in fresh.iter().take(10) {
        let path = format!("{replay_dir}/{}_{}_{}.txt", p.id, args[2], v.idx);
        let text = format!(
            "property: {}\ntier: {}\ncase number: {}\ncase: {}\nviolation: {}\nreplay with: {verif}/check.sh {} replay-{} {}\n",
            p.id, args[2], v.idx, v.desc, v.msg, p.id, args[2], v.idx
        );
        let _ = std::fs::write(&path, text);
        println!("VIOLATION property={} replay={path}", p.id);
        println!("  case: {}", util::clip(&one_line(&v.desc), 400));
        println!("  what: {}", util::clip(&one_line(&v.msg), 600));
    }

    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let wall = t0.elapsed().as_secs_f64();
    let list = |v: &[String]| v.iter().map(|s| json_str(&util::clip(s, 600))).collect::<Vec<_>>().join(", ");
    let outs = outcomes.iter().map(|(k, n)| format!("{}: {n}", json_str(k))).collect::<Vec<_>>().join(", ");
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {},\n    \"states_capped\": {capped},\n    \"transitions\": {transitions},\n    \"traces_validated_against_impl\": {done},\n    \"cases_in_space\": {total},\n    \"exhaustive\": {},\n    \"space\": {},\n    \"observed_outcomes\": {{{outs}}},\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {wall:.2},\n  \"violations\": {},\n  \"known_findings_seen\": {},\n  \"errors\": {}\n}}\n",
        json_str(p.id),
        json_str(&args[2]),
        states.len(),
        done == total && errors.is_empty(),
        json_str(p.space),
        list(&samples),
        list(&assumptions),
        fresh.len(),
        found.len(),
        errors.len(),
    );
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    if std::fs::write(format!("{verif}/evidence/{}.json", p.id), ev).is_err() {
        eprintln!("could not write the evidence file");
        cleanup(2);
    }
    println!(
        "{} {}: {done}/{total} cases, {} states, {transitions} transitions, {} outcome classes, {} violations, {} known, {wall:.1} s",
        p.id, args[2], states.len(), outcomes.len(), fresh.len(), found.len()
    );
    for e in &errors {
        eprintln!("ERROR: {e}");
    }
    let _ = std::io::stdout().flush();
    cleanup(if !fresh.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    })
}
