//! Seeded search: runs, unwinding, statistics, minimisation, replay files, evidence.

use crate::tape::{mix, Src};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Violation>;

/// Payload of a deliberate unwind (crash point) raised by simulated environment code.
pub struct Cut;

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<(bool, String, u32, String)>> = const { RefCell::new(None) };
    pub static IN_RUN: Cell<bool> = const { Cell::new(false) };
}

pub struct LibGuard;
impl LibGuard {
    pub fn enter() -> Self {
        IN_LIB.with(|c| c.set(c.get() + 1));
        LibGuard
    }
}
impl Drop for LibGuard {
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(c.get() - 1));
    }
}

/// Marks a call into the code under test: an unwind out of it is a finding, not a harness error.
#[macro_export]
macro_rules! lib {
    ($e:expr) => {{
        let _g = $crate::engine::LibGuard::enter();
        let r = $e;
        drop(_g);
        r
    }};
}

/// A call that must not ask for memory: there may be no heap.
#[macro_export]
macro_rules! quiet {
    ($what:expr, $e:expr) => {{
        let n = $crate::mem::allocs();
        let r = $crate::lib!($e);
        let k = $crate::mem::allocs() - n;
        if k > 0 {
            $crate::fail!(format!("{}: allocates", $what), "{k} allocations");
        }
        r
    }};
}

#[macro_export]
macro_rules! tr {
    ($c:expr, $($a:tt)*) => {
        if $c.trace.is_some() {
            let s = format!($($a)*);
            $c.push_trace(s);
        }
    };
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($a:tt)*) => {
        return Err($crate::engine::Violation { class: $class.to_string(), msg: format!($($a)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($a:tt)*) => {
        if !($cond) { $crate::fail!($class, $($a)*) }
    };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Cut>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let (file, line) = info
            .location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or(("?".into(), 0));
        let in_lib = IN_LIB.with(|c| c.get() > 0) && !file.starts_with("src/") && !file.contains("/sim/src/");
        if !IN_RUN.with(|c| c.get()) {
            eprintln!("panic outside a run: {file}:{line}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((in_lib, file, line, msg)));
    }));
}

/// Runs `f` (environment code may unwind with `Cut`). Ok(None): it was cut.
pub fn catch_cut<T>(f: impl FnOnce() -> T) -> Option<T> {
    let depth = IN_LIB.with(|c| c.get());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(p) => {
            if p.is::<Cut>() {
                IN_LIB.with(|c| c.set(depth));
                None
            } else {
                std::panic::resume_unwind(p)
            }
        }
    }
}

/// after catching a panic of the library by hand
pub fn reset_lib() {
    IN_LIB.with(|c| c.set(0));
}

fn normalise(msg: &str) -> String {
    let mut out = String::new();
    let mut last_digit = false;
    for ch in msg.split(|c| c == '[' || c == '{').next().unwrap_or("").chars().take(60) {
        if ch.is_ascii_digit() {
            if !last_digit {
                out.push('#');
            }
            last_digit = true;
        } else {
            last_digit = false;
            out.push(if ch == '\n' { ' ' } else { ch });
        }
    }
    out
}

pub struct Ctx {
    pub s: Src,
    pub trace: Option<Vec<String>>,
    pub hash: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub now: u64,
    pub steps: u64,
    pub nontrivial: bool,
    /// a run with big messages: about how many bytes; 0: the usual sizes
    pub big: usize,
}

impl Ctx {
    /// a size limit that gives way in runs with big messages
    pub fn most(&self, usual: usize) -> usize {
        usual.max(self.big)
    }
    /// A length; in runs with big messages biased to where counters of 8 and 16 bits end.
    pub fn len(&mut self, max: usize, boundary: usize) -> usize {
        if self.big == 0 || self.s.chance(1, 3) {
            return self.s.len(max, boundary);
        }
        let v = match self.s.draw(4) {
            0 => self.s.range(0, self.big),
            1 => *self.s.pick(&[127usize, 255, 256, 257, 511, 1023, 65_535, 65_537]) + self.s.below(3),
            2 => boundary * (*self.s.pick(&[15usize, 16, 31, 63, 127, 255, 256]) + self.s.below(2)) + self.s.below(3),
            _ => self.s.range(200, 300),
        };
        v.min(self.big)
    }

    pub fn new(s: Src, tracing: bool) -> Self {
        Ctx {
            s,
            trace: if tracing { Some(Vec::new()) } else { None },
            hash: 0xcbf2_9ce4_8422_2325,
            counts: BTreeMap::new(),
            now: 0,
            steps: 0,
            nontrivial: false,
            big: 0,
        }
    }
    pub fn push_trace(&mut self, s: String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 400 {
                t.push(s);
            }
        }
    }
    /// Feed an event of the history into the interleaving measure.
    pub fn ev(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3);
        self.hash ^= self.hash >> 29;
    }
    pub fn ev_words(&mut self, w: &[u32]) {
        for x in w {
            self.ev(*x as u64);
        }
    }
    pub fn ev_bytes(&mut self, b: &[u8]) {
        for x in b {
            self.ev(*x as u64);
        }
    }
    pub fn count(&mut self, name: &'static str) {
        *self.counts.entry(name).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, name: &'static str, n: u64) {
        if n > 0 {
            *self.counts.entry(name).or_insert(0) += n;
        }
    }
    pub fn step(&mut self) {
        self.steps += 1;
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    /// named scenarios: (name, weight, function)
    pub scenarios: &'static [(&'static str, u64, fn(&mut Ctx) -> R)],
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// reach probes / fault kinds that must have fired at least once in a quick run
    /// some runs use messages far longer than usual
    pub big: bool,
    pub must_reach: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub enum Outcome {
    Ok,
    Violation(Violation),
    Harness(String),
}

/// What a run came to, in a form that crosses between builds.
#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Lived {
    pub code: u64,
    pub hash: u64,
    pub steps: u64,
    pub now: u64,
    pub draws: u64,
}

pub fn lived(o: Outcome, c: &Ctx) -> (Lived, String) {
    let mut t = c.trace.as_ref().map(|t| t.join("\n")).unwrap_or_default();
    let code = match o {
        Outcome::Ok => 0,
        Outcome::Violation(v) => {
            t += "\n";
            t += &v.class;
            1
        }
        Outcome::Harness(m) => {
            t = m;
            2
        }
    };
    (Lived { code, hash: c.hash, steps: c.steps, now: c.now, draws: c.s.rec.len() as u64 }, t)
}

pub fn run_once(p: &Property, ctx: &mut Ctx) -> Outcome {
    IN_LIB.with(|c| c.set(0));
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    IN_RUN.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let total: u64 = p.scenarios.iter().map(|s| s.1).sum();
        let mut k = ctx.s.draw(total);
        let mut chosen = &p.scenarios[0];
        for sc in p.scenarios {
            if k < sc.1 {
                chosen = sc;
                break;
            }
            k -= sc.1;
        }
        tr!(ctx, "scenario {}", chosen.0);
        ctx.count(chosen.0);
        for b in chosen.0.bytes() {
            ctx.ev(b as u64);
        }
        if p.big && ctx.s.chance(1, 1500) {
            ctx.big = if ctx.s.chance(1, 60) { 70_000 } else { ctx.s.range(300, 4_000) };
            ctx.count("run with big messages");
            tr!(ctx, "messages of up to about {} bytes", ctx.big);
        }
        (chosen.2)(ctx)
    }));
    IN_RUN.with(|c| c.set(false));
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(v)) => Outcome::Violation(v),
        Err(payload) => {
            if payload.is::<Cut>() {
                return Outcome::Harness("an injected cut escaped its catch".into());
            }
            let lp = LAST_PANIC.with(|l| l.borrow_mut().take());
            match lp {
                Some((true, file, line, msg)) => {
                    let short = match file.find("midi2/src/").or(file.find("midi2_proc/src/")) {
                        Some(i) => file[i..].to_string(),
                        None => file.rsplit('/').next().unwrap_or("?").to_string(),
                    };
                    Outcome::Violation(Violation {
                        class: format!("panic {} {}", short, normalise(&msg)),
                        msg: format!("panic in library call at {file}:{line}: {msg}"),
                    })
                }
                Some((false, file, line, msg)) => {
                    Outcome::Harness(format!("panic in harness code at {file}:{line}: {msg}"))
                }
                None => Outcome::Harness("unknown panic".into()),
            }
        }
    }
}

// ---------------------------------------------------------------- watchdog

const MAXW: usize = 64;
static SLOT_RUN: [AtomicU64; MAXW] = [const { AtomicU64::new(u64::MAX) }; MAXW];
static SLOT_T: [AtomicU64; MAXW] = [const { AtomicU64::new(0) }; MAXW];
static DONE: AtomicBool = AtomicBool::new(false);
static EPOCH: Mutex<Option<Instant>> = Mutex::new(None);
static FATAL: Mutex<Option<FatalInfo>> = Mutex::new(None);
thread_local! { pub static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }

#[derive(Clone)]
struct FatalInfo {
    prop: &'static str,
    seed: u64,
    replaying: bool,
}

fn now_ms() -> u64 {
    let g = EPOCH.lock().unwrap();
    g.as_ref().map(|e| e.elapsed().as_millis() as u64).unwrap_or(0)
}

#[derive(Clone)]
struct Shrink {
    prop: &'static str,
    seed: u64,
    run: u64,
    class: String,
    tape: Vec<u64>,
}
static SHRINK: Mutex<Option<Shrink>> = Mutex::new(None);

/// A run that hangs or asks for absurd memory cannot be unwound: report it by its seed and leave.
pub fn fatal(class: &str, slot: usize) -> ! {
    // while a violation is being minimised: a candidate schedule went astray, the violation stands
    if let Some(k) = SHRINK.lock().unwrap().clone() {
        let path = format!("{}/{}-{}-{}.replay", replay_dir(), k.prop, k.seed, k.run);
        let _ = std::fs::create_dir_all(replay_dir());
        let body = format!(
            "property={}\nclass={}\nseed={}\nrun={}\ntape={}\n# minimisation stopped by a schedule which {}\n",
            k.prop,
            k.class.replace('\n', " "),
            k.seed,
            k.run,
            k.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            class
        );
        let _ = std::fs::write(&path, body);
        println!("violation in run {} of VERIF_SEED {}: class: {}", k.run, k.seed, k.class);
        println!("VIOLATION property={} replay={}", k.prop, path);
        std::process::exit(1);
    }
    let info = FATAL.lock().unwrap().clone();
    let run = if slot < MAXW { SLOT_RUN[slot].load(Ordering::SeqCst) } else { u64::MAX };
    if let Some(i) = info {
        if run != u64::MAX {
            if i.replaying {
                println!("REPRODUCED class={class}");
                println!("VIOLATION property={} replay=(this file)", i.prop);
                std::process::exit(1);
            }
            let path = format!("{}/{}-{}-{}.replay", replay_dir(), i.prop, i.seed, run);
            let _ = std::fs::create_dir_all(replay_dir());
            let body = format!(
                "property={}\nclass={}\nseed={}\nrun={}\ntape=seed\n# a run that {}; not minimised\n",
                i.prop, class, i.seed, run, class
            );
            let _ = std::fs::write(&path, body);
            println!("violation class: {class} (seed {} run {})", i.seed, run);
            println!("VIOLATION property={} replay={}", i.prop, path);
            std::process::exit(1);
        }
    }
    eprintln!("harness: fatal {class} outside a run");
    std::process::exit(3);
}

pub fn start_watchdog(limit_ms: u64) {
    *EPOCH.lock().unwrap() = Some(Instant::now());
    let mut seen = [((u64::MAX, 0), 0); MAXW];
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if DONE.load(Ordering::SeqCst) {
            return;
        }
        let n = now_ms();
        for w in 0..MAXW {
            let run = SLOT_RUN[w].load(Ordering::SeqCst);
            let t = SLOT_T[w].load(Ordering::SeqCst);
            // time the run was given, not time that passed: the machine may be busy or asleep
            let spent = thread_ms(SLOT_CLOCK[w].load(Ordering::SeqCst));
            if seen[w].0 != (run, t) {
                seen[w] = ((run, t), spent);
            }
            if run != u64::MAX && (spent > seen[w].1 + limit_ms || n > t + 15 * limit_ms) {
                fatal("does not terminate", w);
            }
        }
    });
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
static SLOT_CLOCK: [std::sync::atomic::AtomicI32; MAXW] = [const { std::sync::atomic::AtomicI32::new(0) }; MAXW];
thread_local! { static MY_CLOCK: i32 = {
    let mut k = 0;
    // SAFETY: asks for the clock of this very thread
    unsafe { pthread_getcpuclockid(pthread_self(), &mut k) };
    k
} }
/// Processor time of the thread with this clock; 0 if it is gone.
fn thread_ms(clock: i32) -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: t is valid; a clock of an ended thread is an error
    if clock == 0 || unsafe { clock_gettime(clock, &mut t) } != 0 {
        return 0;
    }
    (t.sec * 1000 + t.nsec / 1_000_000) as u64
}

fn enter_slot(w: usize, run: u64) {
    MY_SLOT.with(|s| s.set(w));
    SLOT_CLOCK[w].store(MY_CLOCK.with(|k| *k), Ordering::SeqCst);
    SLOT_T[w].store(now_ms_fast(), Ordering::SeqCst);
    SLOT_RUN[w].store(run, Ordering::SeqCst);
}
fn leave_slot(w: usize) {
    SLOT_RUN[w].store(u64::MAX, Ordering::SeqCst);
}
thread_local! { static T0: Cell<Option<Instant>> = const { Cell::new(None) }; }
fn now_ms_fast() -> u64 {
    T0.with(|t| {
        if t.get().is_none() {
            t.set(*EPOCH.lock().unwrap());
        }
        t.get().map(|e| e.elapsed().as_millis() as u64).unwrap_or(0)
    })
}

// ---------------------------------------------------------------- batches

#[derive(Default)]
pub struct BatchStats {
    pub runs: u64,
    pub steps: u64,
    pub sim_time: u64,
    pub nontrivial: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub distinct_capped: bool,
    pub digest: u64,
    pub draws: u64,
}

pub struct Found {
    pub run: u64,
    pub tape: Vec<u64>,
    pub v: Violation,
}

pub fn run_seed(prop: &str, seed: u64, run: u64) -> u64 {
    let mut h = 0u64;
    for b in prop.bytes() {
        h = h.wrapping_mul(131).wrapping_add(b as u64);
    }
    mix(seed, h, run)
}

const DISTINCT_CAP: usize = 600_000;

pub fn batch(
    p: &'static Property,
    seed: u64,
    runs: u64,
    workers: usize,
    time_limit: Duration,
    known: &[String],
) -> (BatchStats, Vec<Found>, Option<String>, BTreeMap<String, u64>) {
    *FATAL.lock().unwrap() = Some(FatalInfo { prop: p.id, seed, replaying: false });
    let best = AtomicU64::new(u64::MAX);
    let next = AtomicU64::new(0);
    let total = Mutex::new(BatchStats::default());
    let found: Mutex<Vec<Found>> = Mutex::new(Vec::new());
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let stop = AtomicBool::new(false);
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (best, next, total, found, harness, stop, known_hits) =
                (&best, &next, &total, &found, &harness, &stop, &known_hits);
            sc.spawn(move || {
                let mut st = BatchStats::default();
                const CHUNK: u64 = 64;
                'outer: loop {
                    let start = next.fetch_add(CHUNK, Ordering::SeqCst);
                    if start >= runs {
                        break;
                    }
                    for run in start..(start + CHUNK).min(runs) {
                        if stop.load(Ordering::Relaxed) || run > best.load(Ordering::Relaxed) {
                            break 'outer;
                        }
                        if run % 16 == 0 && t0.elapsed() > time_limit {
                            break 'outer;
                        }
                        enter_slot(w, run);
                        let mut ctx = Ctx::new(Src::seeded(run_seed(p.id, seed, run)), false);
                        let o = run_once(p, &mut ctx);
                        leave_slot(w);
                        st.runs += 1;
                        st.steps += ctx.steps;
                        st.sim_time += ctx.now;
                        st.draws += ctx.s.rec.len() as u64;
                        for (k, v) in &ctx.counts {
                            *st.counts.entry(k).or_insert(0) += v;
                        }
                        if ctx.nontrivial {
                            st.nontrivial += 1;
                            if st.distinct.len() < DISTINCT_CAP {
                                st.distinct.insert(ctx.hash);
                            } else {
                                st.distinct_capped = true;
                            }
                        }
                        let code = match &o {
                            Outcome::Ok => 0,
                            Outcome::Violation(_) => 1,
                            Outcome::Harness(_) => 2,
                        };
                        st.digest = st.digest.wrapping_add(mix(ctx.hash, run, code));
                        match o {
                            Outcome::Ok => {}
                            Outcome::Violation(v) => {
                                if let Some(k) = known.iter().find(|k| v.class == **k) {
                                    *known_hits.lock().unwrap().entry(k.clone()).or_insert(0) += 1;
                                    continue;
                                }
                                best.fetch_min(run, Ordering::SeqCst);
                                found.lock().unwrap().push(Found { run, tape: ctx.s.rec, v });
                                break 'outer;
                            }
                            Outcome::Harness(m) => {
                                *harness.lock().unwrap() = Some(format!("run {run}: {m}"));
                                stop.store(true, Ordering::SeqCst);
                                break 'outer;
                            }
                        }
                    }
                }
                let mut t = total.lock().unwrap();
                t.runs += st.runs;
                t.steps += st.steps;
                t.sim_time += st.sim_time;
                t.nontrivial += st.nontrivial;
                t.draws += st.draws;
                t.digest = t.digest.wrapping_add(st.digest);
                t.distinct_capped |= st.distinct_capped;
                for (k, v) in st.counts {
                    *t.counts.entry(k).or_insert(0) += v;
                }
                t.distinct.extend(st.distinct);
            });
        }
    });
    let mut f = found.into_inner().unwrap();
    f.sort_by_key(|x| x.run);
    (
        total.into_inner().unwrap(),
        f,
        harness.into_inner().unwrap(),
        known_hits.into_inner().unwrap(),
    )
}

fn try_tape(p: &Property, tape: &[u64], class: &str) -> Option<Vec<u64>> {
    let mut ctx = Ctx::new(Src::replay(tape.to_vec()), false);
    enter_slot(0, u64::MAX - 1);
    let out = run_once(p, &mut ctx);
    leave_slot(0);
    match out {
        Outcome::Violation(v) if v.class == class => {
            let mut t = ctx.s.rec;
            while t.last() == Some(&0) {
                t.pop();
            }
            Some(t)
        }
        _ => None,
    }
}

/// Deterministic tape minimisation: delete blocks, zero blocks, lower values.
pub fn minimise(p: &Property, tape: Vec<u64>, class: &str, budget: usize) -> (Vec<u64>, usize) {
    let mut cur = match try_tape(p, &tape, class) {
        Some(t) => t,
        None => return (tape, 0),
    };
    let mut used = 0usize;
    let t0 = Instant::now();
    let keep = |t: Vec<u64>| -> Vec<u64> {
        if let Some(k) = SHRINK.lock().unwrap().as_mut() {
            k.tape = t.clone();
        }
        t
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    };
    loop {
        let before = cur.clone();
        let mut block = (cur.len() / 2).max(1);
        while block >= 1 {
            let mut i = 0;
            while i < cur.len() {
                if used >= budget || t0.elapsed() > Duration::from_secs(90) {
                    return (cur, used);
                }
                let end = (i + block).min(cur.len());
                let mut cand = cur.clone();
                cand.drain(i..end);
                used += 1;
                if let Some(t) = try_tape(p, &cand, class) {
                    if better(&t, &cur) {
                        cur = keep(t);
                        continue;
                    }
                }
                let mut cand = cur.clone();
                if cand[i..end].iter().any(|x| *x != 0) {
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    used += 1;
                    if let Some(t) = try_tape(p, &cand, class) {
                        if better(&t, &cur) {
                            cur = keep(t);
                        }
                    }
                }
                i += block;
            }
            if block == 1 {
                break;
            }
            block /= 2;
        }
        let mut i = 0;
        while i < cur.len() {
            let mut lo = 0u64;
            while i < cur.len() && lo < cur[i] {
                if used >= budget || t0.elapsed() > Duration::from_secs(90) {
                    return (cur, used);
                }
                let mid = lo + (cur[i] - lo) / 2;
                let mut cand = cur.clone();
                cand[i] = mid;
                used += 1;
                match try_tape(p, &cand, class) {
                    Some(t) if better(&t, &cur) => cur = keep(t),
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if cur == before {
            return (cur, used);
        }
    }
}

pub fn replay_dir() -> String {
    std::env::var("SIM_REPLAY_DIR").unwrap_or_else(|_| "/verif/replays".into())
}

pub fn write_replay(
    p: &Property,
    seed: u64,
    run: u64,
    v: &Violation,
    tape: &[u64],
    orig_len: usize,
) -> String {
    let dir = replay_dir();
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{}.replay", p.id, seed, run);
    let mut ctx = Ctx::new(Src::replay(tape.to_vec()), true);
    let _ = run_once(p, &mut ctx);
    let mut s = String::new();
    s += &format!("property={}\n", p.id);
    s += &format!("class={}\n", v.class.replace('\n', " "));
    s += &format!("seed={seed}\nrun={run}\n");
    s += &format!(
        "tape={}\n",
        tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    );
    s += &format!("# {} choices, minimised from {}\n", tape.len(), orig_len);
    s += &format!("# {}\n", v.msg.replace('\n', "\n# "));
    s += "# history:\n";
    for l in ctx.trace.unwrap_or_default() {
        s += &format!("#   {}\n", l.replace('\n', " "));
    }
    let _ = std::fs::write(&path, s);
    path
}

pub fn replay(props: &'static [Property], path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 3;
        }
    };
    let get = |k: &str| -> Option<String> {
        text.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|s| s.to_string()))
    };
    let (Some(prop), Some(class), Some(tape)) = (get("property"), get("class"), get("tape")) else {
        eprintln!("not a replay file");
        return 3;
    };
    let Some(p) = props.iter().find(|p| p.id == prop) else {
        eprintln!("unknown property {prop}");
        return 3;
    };
    let seed: u64 = get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let run: u64 = get("run").and_then(|s| s.parse().ok()).unwrap_or(0);
    *FATAL.lock().unwrap() = Some(FatalInfo { prop: p.id, seed, replaying: true });
    start_watchdog(20_000);
    let src = if tape == "seed" {
        Src::seeded(run_seed(p.id, seed, run))
    } else {
        Src::replay(tape.split(',').filter_map(|x| x.trim().parse().ok()).collect())
    };
    let mut ctx = Ctx::new(src, true);
    enter_slot(0, run);
    let o = run_once(p, &mut ctx);
    leave_slot(0);
    for l in ctx.trace.clone().unwrap_or_default() {
        println!("  {l}");
    }
    match o {
        Outcome::Violation(v) => {
            println!("class: {}", v.class);
            println!("{}", v.msg);
            if v.class == class {
                println!("REPRODUCED (same class as recorded), history hash {:016x}", ctx.hash);
            } else {
                println!("a violation of another class than recorded ({class})");
            }
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        Outcome::Ok => {
            println!("no violation: the property held on this history");
            0
        }
        Outcome::Harness(m) => {
            eprintln!("harness error: {m}");
            3
        }
    }
}

// ---------------------------------------------------------------- evidence

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(
    p: &'static Property,
    tier: &str,
    seed: u64,
    st: &BatchStats,
    wall: f64,
    violations: usize,
    workers: usize,
    truncated: bool,
    unreached: &[&str],
    known_hits: &BTreeMap<String, u64>,
) {
    // sample histories of this very batch, re-executed with tracing on
    let mut samples = Vec::new();
    let mut k = 0u64;
    while samples.len() < 3 && k < 40.min(st.runs) {
        let mut ctx = Ctx::new(Src::seeded(run_seed(p.id, seed, k)), true);
        let _ = run_once(p, &mut ctx);
        if ctx.nontrivial {
            let mut t = ctx.trace.unwrap_or_default();
            t.truncate(40);
            samples.push(format!(
                "{{\"run\":{},\"seed\":{},\"history\":[{}]}}",
                k,
                run_seed(p.id, seed, k),
                t.iter().map(|l| jstr(l)).collect::<Vec<_>>().join(",")
            ));
        }
        k += 1;
    }
    let mut faults = Vec::new();
    let mut probes = Vec::new();
    let mut scen = Vec::new();
    for (n, v) in &st.counts {
        let e = format!("{}:{}", jstr(n), v);
        if n.starts_with("fault:") {
            faults.push(e);
        } else if p.scenarios.iter().any(|s| s.0 == *n) {
            scen.push(e);
        } else {
            probes.push(e);
        }
    }
    let per_hour = if wall > 0.0 { (st.runs as f64 / wall * 3600.0) as u64 } else { 0 };
    let body = format!(
        concat!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{",
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
            "\"simulated_runs\":{},\"nontrivial_runs\":{},\"simulated_steps\":{},\"simulated_time_ticks\":{},",
            "\"choices_drawn\":{},\"seeds_per_hour\":{},\"workers\":{},\"stopped_by_wall_clock\":{},",
            "\"distinct_measure\":\"64-bit hash of the run's ordered history of operations, faults that fired, deliveries and outcomes{}\",",
            "\"scenarios\":{{{}}},\"faults_injected\":{{{}}},\"reach_probes\":{{{}}},\"probes_expected_but_not_reached\":[{}],",
            "\"known_findings_hit\":{{{}}},",
            "\"real_components\":{},\"stubbed_components\":{},\"batch_digest\":\"{:016x}\",",
            "\"samples\":[{}]}},",
            "\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n"
        ),
        jstr(p.id),
        jstr(tier),
        seed,
        st.runs,
        st.distinct.len(),
        jstr(p.rule),
        st.runs,
        st.nontrivial,
        st.steps,
        st.sim_time,
        st.draws,
        per_hour,
        workers,
        truncated,
        if st.distinct_capped { " (set capped per worker: a lower bound)" } else { "" },
        scen.join(","),
        faults.join(","),
        probes.join(","),
        unreached.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
        known_hits.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        jstr(p.real),
        jstr(p.stub),
        st.digest,
        samples.join(","),
        p.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
        wall,
        violations
    );
    let dir = std::env::var("SIM_EVIDENCE_DIR").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", p.id), body) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(3);
    }
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
}

/// known-findings file: `finding: property=<id> class=<exact class> :: <what fails>`; other lines are comments.
pub fn load_known(path: &str) -> Vec<Known> {
    let mut out = Vec::new();
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("finding: property=") {
                if let Some((head, text)) = rest.split_once(" :: ") {
                    if let Some((prop, class)) = head.split_once(" class=") {
                        out.push(Known {
                            property: prop.trim().into(),
                            class: class.trim().into(),
                            text: text.trim().into(),
                        });
                    }
                }
            }
        }
    }
    out
}

pub fn check(p: &'static Property, tier: &str, seed: u64, workers: usize, runs_override: Option<u64>) -> i32 {
    let runs = runs_override.unwrap_or(if tier == "thorough" { p.thorough_runs } else { p.quick_runs });
    let limit = if tier == "thorough" { Duration::from_secs(3000) } else { Duration::from_secs(240) };
    let kpath =
        std::env::var("SIM_KNOWN").unwrap_or_else(|_| "/verif/known-findings.txt".into());
    let known: Vec<Known> = load_known(&kpath).into_iter().filter(|k| k.property == p.id).collect();
    let classes: Vec<String> = known.iter().map(|k| k.class.clone()).collect();
    println!("property {} tier {tier} VERIF_SEED={seed} runs={runs} workers={workers}", p.id);
    start_watchdog(20_000);
    let t0 = Instant::now();
    let (st, found, harness, known_hits) = batch(p, seed, runs, workers, limit, &classes);
    if let Some(m) = harness {
        eprintln!("harness error: {m}");
        return 3;
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", k.property, k.text);
    }
    let mut code = 0;
    if let Some(f) = found.first() {
        *SHRINK.lock().unwrap() = Some(Shrink {
            prop: p.id,
            seed,
            run: f.run,
            class: f.v.class.clone(),
            tape: f.tape.clone(),
        });
        let (tape, used) = minimise(p, f.tape.clone(), &f.v.class, 4000);
        *SHRINK.lock().unwrap() = None;
        let mut ctx = Ctx::new(Src::replay(tape.clone()), true);
        let v = match run_once(p, &mut ctx) {
            Outcome::Violation(v) => v,
            _ => f.v.clone(),
        };
        let path = write_replay(p, seed, f.run, &v, &tape, f.tape.len());
        println!("violation in run {} of VERIF_SEED {seed}: class: {}", f.run, v.class);
        println!("{}", v.msg);
        println!(
            "minimised from {} to {} choices in {} executions; history:",
            f.tape.len(),
            tape.len(),
            used
        );
        for l in ctx.trace.unwrap_or_default() {
            println!("  {l}");
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        code = 1;
    }
    DONE.store(true, Ordering::SeqCst);
    let wall = t0.elapsed().as_secs_f64();
    let unreached: Vec<&str> = p
        .must_reach
        .iter()
        .copied()
        .filter(|m| st.counts.get(m).copied().unwrap_or(0) == 0)
        .collect();
    write_evidence(
        p, tier, seed, &st, wall, found.len().min(1), workers, st.runs < runs && code == 0, &unreached,
        &known_hits,
    );
    println!(
        "{} runs, {} non-trivial, {} distinct histories, {} steps, {:.1}s, digest {:016x}",
        st.runs,
        st.nontrivial,
        st.distinct.len(),
        st.steps,
        wall,
        st.digest
    );
    if code == 0 && !unreached.is_empty() && runs_override.is_none() {
        println!("note: probes not reached: {}", unreached.join(", "));
    }
    code
}

/// Digest of a batch: the same whatever the number of workers and in every process.
pub fn digest(p: &'static Property, seed: u64, runs: u64, workers: usize) -> i32 {
    start_watchdog(20_000);
    let kpath = std::env::var("SIM_KNOWN").unwrap_or_else(|_| "/verif/known-findings.txt".into());
    let known: Vec<String> =
        load_known(&kpath).into_iter().filter(|k| k.property == p.id).map(|k| k.class).collect();
    let (st, f, h, _) = batch(p, seed, runs, workers, Duration::from_secs(600), &known);
    println!(
        "{} seed {seed} runs {} digest {:016x} distinct {} violations {} harness {:?}",
        p.id,
        st.runs,
        st.digest,
        st.distinct.len(),
        f.len(),
        h
    );
    0
}

/// Every violation class of a batch with how often and where first: a development aid.
pub fn classes(p: &'static Property, seed: u64, runs: u64) -> i32 {
    start_watchdog(20_000);
    let mut m: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    *FATAL.lock().unwrap() = Some(FatalInfo { prop: p.id, seed, replaying: false });
    for run in 0..runs {
        enter_slot(0, run);
        let mut ctx = Ctx::new(Src::seeded(run_seed(p.id, seed, run)), false);
        let o = run_once(p, &mut ctx);
        leave_slot(0);
        let (k, t) = match o {
            Outcome::Ok => continue,
            Outcome::Violation(v) => (v.class, v.msg),
            Outcome::Harness(t) => ("HARNESS".to_string(), t),
        };
        let e = m.entry(k).or_insert((0, run, t));
        e.0 += 1;
    }
    for (k, (n, run, t)) in m {
        println!("{n:6} first {run:6} {k}\n         {}", t.chars().take(300).collect::<String>());
    }
    0
}
