//! Exploration of separate tasks whose work is interleaved.
//!
//! A task calls [`point`] from the functions it gives to the library, so that the choice of what
//! runs next can be made in the middle of the library's work. Four ways to mix two tasks are
//! explored exhaustively: every interleaving of their steps in one thread, one of them nested into
//! the other at every point, one of them failing at every point with the other one afterwards,
//! and every schedule of two threads up to a bound on preemptions.

use crate::hash::with_hash_seed;
use crate::{catch, Stats};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

/// What a step of a task came to.
#[derive(Clone, Debug, PartialEq)]
pub struct Out(pub String, pub Vec<f64>);

impl Out {
    pub fn same(&self, o: &Out) -> bool {
        self.0 == o.0 && self.1.len() == o.1.len() && self.1.iter().zip(&o.1).all(|(a, b)| crate::util::close(*a, *b, 1e-6))
    }
}

pub type Steps = Box<dyn FnMut() -> Option<Out>>;

/// A task: starts anew every time, and does one step per call of what it returns.
#[derive(Clone, Copy)]
pub struct Task {
    pub name: &'static str,
    pub index: usize,
    pub start: fn(usize) -> Steps,
    /// The variant: the same work with other values.
    pub variant: usize,
}

thread_local! {
    static HOOK: RefCell<Option<Box<dyn FnMut() -> Result<(), String>>>> = const { RefCell::new(None) };
}

/// A place where something else may happen. `Err` if the task is to fail here.
pub fn point() -> Result<(), String> {
    let hook = HOOK.with(|h| h.borrow_mut().take());
    let Some(mut f) = hook else { return Ok(()) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut f));
    HOOK.with(|h| *h.borrow_mut() = Some(f));
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// A [`point`] in a function that can not report an error.
pub fn pause() {
    if let Err(e) = point() {
        panic!("{e}");
    }
}

thread_local! {
    /// Calls so far, how many of them make a point, whether each is one, which of them come first.
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static EVERY: Cell<usize> = const { Cell::new(1) };
    static FINE: Cell<bool> = const { Cell::new(true) };
    static PHASE: Cell<(usize, usize)> = const { Cell::new((0, 1)) };
}

/// Demands a point at every `n`-th [`tick`] where there are threads; otherwise each one is a point.
pub fn every(n: usize) {
    let n = if FINE.get() { 1 } else { n };
    let (phase, of) = PHASE.get();
    EVERY.set(n);
    CALLS.set(n / of * phase);
}

/// A [`point`] now and then.
pub fn tick() -> Result<(), String> {
    CALLS.set(CALLS.get() + 1);
    match CALLS.get() % EVERY.get() {
        0 => point(),
        _ => Ok(()),
    }
}

/// A [`pause`] now and then.
pub fn rest() {
    if let Err(e) = tick() {
        panic!("{e}");
    }
}

fn hooked<T>(hook: impl FnMut() -> Result<(), String> + 'static, f: impl FnOnce() -> T) -> T {
    HOOK.with(|h| *h.borrow_mut() = Some(Box::new(hook)));
    let r = catch(f);
    HOOK.with(|h| *h.borrow_mut() = None);
    r.unwrap_or_else(|e| panic!("{e}"))
}

fn all(task: Task) -> Vec<Out> {
    match catch(|| {
        let mut steps = (task.start)(task.variant);
        let mut v = vec![];
        while let Some(o) = steps() {
            v.push(o);
        }
        v
    }) {
        Ok(v) => v,
        Err(e) => vec![Out(format!("panicked: {e}"), vec![])],
    }
}

fn compare(what: &str, task: Task, got: &[Out], want: &[Out]) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if !g.same(w) {
            return Err(format!("{what}: step {i} of {} ({}) gives {g:?}, alone it gives {w:?}", task.name, task.variant));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{what}: {} ({}) has {} steps, alone it has {}", task.name, task.variant, got.len(), want.len()));
    }
    Ok(())
}

struct Turns {
    running: usize,
    done: Vec<bool>,
    prefix: Vec<usize>,
    trace: Vec<(usize, usize)>,
    preemptions: usize,
    bound: usize,
    moves: u64,
}

impl Turns {
    fn choose(&mut self, me: usize, may_stay: bool) {
        let mut options: Vec<usize> = vec![];
        if may_stay {
            options.push(me);
        }
        if !may_stay || self.preemptions < self.bound {
            options.extend((0..self.done.len()).filter(|i| !self.done[*i] && !(may_stay && *i == me)));
        }
        if options.is_empty() {
            return;
        }
        let c = self.prefix.get(self.trace.len()).copied().unwrap_or(0).min(options.len() - 1);
        self.trace.push((c, options.len()));
        self.running = options[c];
        self.moves += 1;
        if may_stay && self.running != me {
            self.preemptions += 1;
        }
    }
}

type Shared = Arc<(Mutex<Turns>, Condvar)>;

/// Waits for one's turn. A thread that makes no progress because it waits for something this one
/// holds does not stop it for ever.
fn wait(shared: &Shared, me: usize, started: bool) {
    let mut t = shared.0.lock().unwrap();
    let mut seen = t.moves;
    let mut since = Instant::now();
    while t.running != me {
        t = shared.1.wait_timeout(t, Duration::from_millis(500)).unwrap().0;
        if t.moves != seen {
            seen = t.moves;
            since = Instant::now();
        } else if started && since.elapsed() > Duration::from_secs(5) {
            t.running = me;
        }
    }
}

fn schedule(tasks: &[Task], prefix: Vec<usize>, bound: usize, phase: (usize, usize)) -> (Vec<Vec<Out>>, Vec<(usize, usize)>) {
    let shared: Shared = Arc::new((
        Mutex::new(Turns { running: usize::MAX, done: vec![false; tasks.len()], prefix, trace: vec![], preemptions: 0, bound, moves: 0 }),
        Condvar::new(),
    ));
    shared.0.lock().unwrap().choose(usize::MAX, false);
    let threads: Vec<_> = tasks
        .iter()
        .enumerate()
        .map(|(me, task)| {
            let (task, shared) = (*task, shared.clone());
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    FINE.set(false);
                    PHASE.set(phase);
                    wait(&shared, me, false);
                    let s = shared.clone();
                    let v = catch(|| {
                        hooked(
                            move || {
                                let t = {
                                    let mut t = s.0.lock().unwrap();
                                    t.choose(me, true);
                                    t.running
                                };
                                if t != me {
                                    s.1.notify_all();
                                    wait(&s, me, true);
                                }
                                Ok(())
                            },
                            || all(task),
                        )
                    })
                    .unwrap_or_else(|e| vec![Out(e, vec![])]);
                    let mut t = shared.0.lock().unwrap();
                    t.done[me] = true;
                    if t.done.iter().any(|d| !d) {
                        t.choose(me, false);
                    }
                    shared.1.notify_all();
                    v
                })
                .expect("thread")
        })
        .collect();
    let v = threads.into_iter().map(|t| t.join().expect("task")).collect();
    let trace = std::mem::take(&mut shared.0.lock().unwrap().trace);
    (v, trace)
}

/// All interleavings of `a` and `b` steps, as lists of false (a) and true (b).
fn interleavings(a: usize, b: usize, limit: usize) -> Vec<Vec<bool>> {
    fn rec(a: usize, b: usize, cur: &mut Vec<bool>, switches: usize, limit: usize, out: &mut Vec<Vec<bool>>) {
        if a == 0 && b == 0 {
            out.push(cur.clone());
            return;
        }
        for (left, who) in [(a, false), (b, true)] {
            if left == 0 {
                continue;
            }
            let s = switches + cur.last().map_or(0, |l| (*l != who) as usize);
            if s > limit {
                continue;
            }
            cur.push(who);
            rec(a - !who as usize, b - who as usize, cur, s, limit, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(a, b, &mut vec![], 0, limit, &mut out);
    out
}

/// Number of points of a task.
fn points(task: Task) -> usize {
    let n = std::rc::Rc::new(std::cell::Cell::new(0));
    let m = n.clone();
    hooked(
        move || {
            m.set(m.get() + 1);
            Ok(())
        },
        || all(task),
    );
    n.get()
}

/// Set in a process that does one task and nothing else.
pub static ALONE: OnceLock<(usize, usize)> = OnceLock::new();

/// What a task gives in a process of its own, and its number of points.
fn alone(task: Task) -> Result<(Vec<Out>, usize), String> {
    static KNOWN: Mutex<BTreeMap<(usize, usize), (Vec<Out>, usize)>> = Mutex::new(BTreeMap::new());
    let key = (task.index, task.variant);
    if let Some(k) = KNOWN.lock().unwrap().get(&key) {
        return Ok(k.clone());
    }
    let args: Vec<String> = std::env::args().collect();
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe)
        .args([&args[1], &args[2], "--alone", &key.0.to_string(), &key.1.to_string()])
        .output()
        .map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout);
    let (mut v, mut n) = (vec![], None);
    for line in text.lines() {
        let mut parts = line.split('\t');
        match (parts.next(), parts.next()) {
            (Some("points"), Some(x)) => n = x.parse().ok(),
            (Some("step"), Some(what)) => {
                let values = parts.map(|x| u64::from_str_radix(x, 16).map(f64::from_bits)).collect::<Result<_, _>>().map_err(|e| e.to_string())?;
                v.push(Out(what.replace("\\n", "\n").replace("\\t", "\t"), values));
            }
            _ => {}
        }
    }
    let Some(n) = n else {
        return Err(format!("{} ({}) alone did not end: {}", task.name, task.variant, out.status));
    };
    if v.iter().any(|o| o.0.contains("panicked")) {
        return Err(format!("{} ({}) alone: {v:?}", task.name, task.variant));
    }
    KNOWN.lock().unwrap().insert(key, (v.clone(), n));
    Ok((v, n))
}

fn print_alone(task: Task) -> ! {
    let (v, n) = with_hash_seed(1, || (all(task), points(task)));
    for o in v {
        let values: String = o.1.iter().map(|x| format!("\t{:x}", x.to_bits())).collect();
        println!("step\t{}{values}", o.0.replace('\n', "\\n").replace('\t', "\\t"));
    }
    println!("points\t{n}");
    let _ = std::fs::remove_file(std::env::temp_dir().join(format!("mc_alone_{}.journal", std::process::id())));
    std::process::exit(0)
}

/// How much of the space of two tasks is explored.
pub struct Bounds {
    pub switches: usize,
    pub preemptions: usize,
    /// Between two points at which the other task is nested or a failure injected.
    pub stride: usize,
    /// Offsets of the points of threads.
    pub phases: usize,
    /// Most orders of steps of one pair; with more, there are fewer switches.
    pub orders: usize,
}

/// `a` and `b` in every interleaving of their steps with up to `switches` changes in one thread.
pub fn interleaved(a: Task, b: Task, bounds: &Bounds, st: &mut Stats) -> Result<(), String> {
    let ((wa, _), (wb, _)) = (alone(a)?, alone(b)?);
    let mut switches = bounds.switches;
    let mut orders = interleavings(wa.len() + 1, wb.len() + 1, switches);
    while orders.len() > bounds.orders {
        switches -= 1;
        orders = interleavings(wa.len() + 1, wb.len() + 1, switches);
    }
    for order in orders {
        st.steps(order.len() as u64);
        let (ga, gb) = with_hash_seed(1, || {
            let (mut sa, mut sb) = ((a.start)(a.variant), (b.start)(b.variant));
            let (mut ga, mut gb) = (vec![], vec![]);
            for who in &order {
                let (s, g) = if *who { (&mut sb, &mut gb) } else { (&mut sa, &mut ga) };
                match catch(&mut *s) {
                    Ok(Some(o)) => g.push(o),
                    Ok(None) => {}
                    Err(e) => g.push(Out(format!("panicked: {e}"), vec![])),
                }
            }
            (ga, gb)
        });
        let what = format!("in the order {}", order.iter().map(|b| if *b { 'b' } else { 'a' }).collect::<String>());
        compare(&what, a, &ga, &wa)?;
        compare(&what, b, &gb, &wb)?;
    }
    st.outcome("steps interleaved in one thread");
    Ok(())
}

/// `b` as a whole at every point of `a`, in the same thread.
pub fn nested(a: Task, b: Task, bounds: &Bounds, st: &mut Stats) -> Result<(), String> {
    let ((wa, n), (wb, _)) = (alone(a)?, alone(b)?);
    for k in (0..n).step_by(bounds.stride) {
        st.steps((wa.len() + wb.len()) as u64);
        let (ga, gb) = with_hash_seed(1, || {
            let got = std::rc::Rc::new(RefCell::new(None));
            let g = got.clone();
            let mut i = 0;
            let ga = hooked(
                move || {
                    if i == k {
                        *g.borrow_mut() = Some(all(b));
                    }
                    i += 1;
                    Ok(())
                },
                || all(a),
            );
            let gb = got.borrow_mut().take();
            (ga, gb)
        });
        let what = format!("nested at point {k}");
        compare(&what, a, &ga, &wa)?;
        // where the work takes another way because of the order of its unknowns, there may be fewer points
        if let Some(gb) = gb {
            compare(&what, b, &gb, &wb)?;
        }
    }
    st.outcome("one nested into the other");
    Ok(())
}

/// `a` fails at every point, then `b` and `a` again, in the same thread and in another one.
pub fn failing(a: Task, b: Task, bounds: &Bounds, st: &mut Stats) -> Result<(), String> {
    let ((wa, n), (wb, _)) = (alone(a)?, alone(b)?);
    for k in (0..n).step_by(bounds.stride) {
        for panics in [false, true] {
            st.steps((wa.len() + wb.len()) as u64);
            let (gb, ga) = with_hash_seed(1, || {
                let mut i = 0;
                let _ = hooked(
                    move || {
                        i += 1;
                        match i - 1 == k {
                            true if panics => panic!("stopped"),
                            true => Err("stopped".into()),
                            false => Ok(()),
                        }
                    },
                    || all(a),
                );
                (all(b), all(a))
            });
            let what = format!("after {} at point {k} of {} ({})", if panics { "a panic" } else { "an error" }, a.name, a.variant);
            compare(&what, b, &gb, &wb)?;
            compare(&what, a, &ga, &wa)?;
        }
        let (gb, ga) = with_hash_seed(1, || (all(b), all(a)));
        compare("in another thread after a failure", b, &gb, &wb)?;
        compare("in another thread after a failure", a, &ga, &wa)?;
    }
    // what failures leave behind may add up
    for panics in [false, true] {
        st.steps((n * wa.len()) as u64);
        let (gb, ga) = with_hash_seed(1, || {
            for _ in 0..1 + 40 / n.max(1) {
                for k in (0..n).step_by(bounds.stride) {
                    let mut i = 0;
                    let _ = hooked(
                        move || {
                            i += 1;
                            match i - 1 == k {
                                true if panics => panic!("stopped"),
                                true => Err("stopped".into()),
                                false => Ok(()),
                            }
                        },
                        || all(a),
                    );
                }
            }
            (all(b), all(a))
        });
        let what = format!("after {} at every point of {} ({})", if panics { "a panic" } else { "an error" }, a.name, a.variant);
        compare(&what, b, &gb, &wb)?;
        compare(&what, a, &ga, &wa)?;
    }
    st.outcome("one after a failure of the other");
    Ok(())
}

/// Every schedule of the tasks in threads of their own with up to `preemptions` preemptions.
pub fn threads(tasks: &[Task], bounds: &Bounds, st: &mut Stats) -> Result<(), String> {
    let mut want = vec![];
    for t in tasks {
        want.push(alone(*t)?.0);
    }
    for phase in 0..bounds.phases {
        let mut prefix: Vec<usize> = vec![];
        loop {
            let (got, trace) = schedule(tasks, prefix.clone(), bounds.preemptions, (phase, bounds.phases));
            st.steps(trace.len() as u64);
            st.state(crate::util::fnv(&trace.iter().map(|c| c.0 as u8).chain([phase as u8]).collect::<Vec<_>>()));
            for ((t, g), w) in tasks.iter().zip(&got).zip(&want) {
                compare(&format!("in the schedule {:?}", trace.iter().map(|c| c.0).collect::<Vec<_>>()), *t, g, w)?;
            }
            let Some(last) = trace.iter().rposition(|(c, n)| c + 1 < *n) else { break };
            prefix = trace[..last].iter().map(|c| c.0).collect();
            prefix.push(trace[last].0 + 1);
        }
    }
    st.outcome("every schedule of threads");
    Ok(())
}

/// All pairs of tasks, mixed in all four ways; triples in threads on the thorough tier.
pub fn explore(ctx: &mut crate::Ctx, orders: usize, tasks: &[(&'static str, fn(usize) -> Steps)]) {
    let bounds = ctx.pick(Bounds { switches: 5, preemptions: 1, stride: 1, phases: 2, orders }, Bounds { switches: 9, preemptions: 2, stride: 1, phases: 3, orders });
    let task = |i: usize, variant| Task { name: tasks[i].0, index: i, start: tasks[i].1, variant };
    if let Some((i, variant)) = ALONE.get() {
        print_alone(task(*i, *variant));
    }
    let show = |t: Task| format!("{} ({})", t.name, t.variant);
    for i in 0..tasks.len() {
        for j in 0..tasks.len() {
            for (v, w) in [(0, 1), (1, 0), (0, 0)] {
                if (v, w) == (0, 0) && i != j {
                    continue;
                }
                let (a, b) = (task(i, v), task(j, w));
                ctx.case(|| format!("steps of {} and {} interleaved", show(a), show(b)), |st| interleaved(a, b, &bounds, st));
                ctx.case(|| format!("{} nested into {}", show(b), show(a)), |st| nested(a, b, &bounds, st));
                ctx.case(|| format!("{} after a failure of {}", show(b), show(a)), |st| failing(a, b, &bounds, st));
                if i <= j {
                    ctx.case(|| format!("{} and {} in two threads", show(a), show(b)), |st| threads(&[a, b], &bounds, st));
                }
            }
            for k in j..tasks.len() {
                if i > j || ctx.quick() && (i, j) != (j, k) {
                    continue;
                }
                let t = [task(i, 0), task(j, 1), task(k, 2)];
                let bounds = Bounds { preemptions: 1, ..bounds };
                ctx.case(|| format!("{}, {} and {} in three threads", show(t[0]), show(t[1]), show(t[2])), |st| threads(&t, &bounds, st));
            }
        }
    }
}

/// Steps from a list of functions on a shared state.
pub fn steps<S: 'static>(mut state: S, list: Vec<Box<dyn FnMut(&mut S) -> Out>>) -> Steps {
    let mut list = list.into_iter();
    Box::new(move || list.next().map(|mut f| {
        // between two steps something else may happen, too
        pause();
        f(&mut state)
    }))
}

/// The outcome of something that may be refused.
pub fn result<T, E>(r: Result<T, E>, values: impl FnOnce(T) -> Vec<f64>) -> Out {
    match r {
        Ok(v) => Out("done".into(), values(v)),
        Err(_) => Out("refused".into(), vec![]),
    }
}
