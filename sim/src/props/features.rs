//! The same life under both builds of the library: with the standard library and without it.
use crate::alone;
use crate::engine::{lived, run_once, Ctx, Lived, Outcome, R};
use crate::props::{recv, PROPS};
use crate::tape::Src;
use crate::{ensure, fail, lib, tr};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

/// Properties whose histories are lived through twice.
const SHARED: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19",
];

type RunFn = unsafe extern "C" fn(usize, *const u64, usize, bool, *mut Lived, *mut u8, usize) -> usize;

extern "C" {
    fn dlopen(path: *const std::ffi::c_char, flags: i32) -> *mut std::ffi::c_void;
    fn dlsym(h: *mut std::ffi::c_void, name: *const std::ffi::c_char) -> *mut std::ffi::c_void;
    fn dlerror() -> *const std::ffi::c_char;
}

extern "C" fn over() {
    crate::mem::over()
}

fn load(path: &str) -> *mut std::ffi::c_void {
    let c = std::ffi::CString::new(path).unwrap();
    // SAFETY: the library is our own, built from the same sources with the same compiler
    unsafe {
        let h = dlopen(c.as_ptr(), 2);
        if h.is_null() {
            let e = std::ffi::CStr::from_ptr(dlerror()).to_string_lossy().into_owned();
            eprintln!("harness: another build is missing: {path}: {e}");
            std::process::exit(3);
        }
        h
    }
}

fn replica() -> RunFn {
    static F: OnceLock<RunFn> = OnceLock::new();
    *F.get_or_init(|| {
        let path = std::env::var("SIM_REPLICA").unwrap_or_else(|_| {
            concat!(env!("CARGO_MANIFEST_DIR"), "/../replica/target/release/libmidi2_replica.so").into()
        });
        let h = load(&path);
        // SAFETY: the symbols have these types
        unsafe {
            let init: extern "C" fn(extern "C" fn()) = std::mem::transmute(dlsym(h, c"replica_init".as_ptr()));
            init(over);
            std::mem::transmute::<*mut std::ffi::c_void, RunFn>(dlsym(h, c"replica_run".as_ptr()))
        }
    })
}

pub fn two_builds(c: &mut Ctx) -> R {
    let id = SHARED[c.s.below(SHARED.len())];
    let traced = c.s.chance(1, 4) || c.trace.is_some();
    let which = PROPS.iter().position(|p| p.id == id).unwrap();
    let from = c.s.rec.len();
    let mut here = Ctx::new(std::mem::replace(&mut c.s, Src::seeded(0)), traced);
    let o = run_once(&PROPS[which], &mut here);
    crate::engine::IN_RUN.with(|r| r.set(true));
    let known_bad = matches!(o, Outcome::Violation(_));
    if let Outcome::Harness(m) = &o {
        panic!("{m}");
    }
    let (mut a, ta) = lived(o, &here);
    a.draws -= from as u64;
    let mut hash = here.hash;
    c.s = std::mem::replace(&mut here.s, Src::seeded(0));
    c.steps += here.steps;
    c.now += here.now;
    for (k, n) in &here.counts {
        if k.starts_with("fault") {
            c.count_n(k, *n);
        }
    }
    c.count(id);
    c.ev(hash);
    c.nontrivial = here.nontrivial;
    let mut b = Lived::default();
    let mut tb = vec![0u8; if traced || known_bad { 1 << 16 } else { 1 << 12 }];
    let choices = &c.s.rec[from..];
    // SAFETY: the buffers are as long as said
    let k = unsafe {
        replica()(which, choices.as_ptr(), choices.len(), traced, &mut b, tb.as_mut_ptr(), tb.len())
    };
    tb.truncate(k);
    let tb = String::from_utf8_lossy(&tb).into_owned();
    let ta = String::from_utf8_lossy(&ta.as_bytes()[..ta.len().min(1 << 16)]).into_owned();
    if c.trace.is_some() {
        for l in ta.lines() {
            tr!(c, "{id}: {l}");
        }
    }
    if b.code == 2 {
        panic!("the second build: {tb}");
    }
    if traced {
        c.count("histories compared line by line");
    }
    if a == b && (!traced || ta == tb) {
        return Ok(());
    }
    let first = ta.lines().zip(tb.lines()).find(|(x, y)| x != y);
    let text = match first {
        Some((x, y)) => format!("with std: {x}\nwithout:  {y}"),
        None => format!("with std: {a:?} {}\nwithout:  {b:?} {}", ta.lines().last().unwrap_or(""), tb.lines().last().unwrap_or("")),
    };
    fail!(format!("the builds with and without std differ ({id})"), "{text}")
}

const FAMILIES: &[(&str, &str)] = &[
    ("flex-data", "FlexData"),
    ("channel-voice1", "ChannelVoice1"),
    ("channel-voice2", "ChannelVoice2"),
    ("sysex7", "Sysex7"),
    ("sysex8", "Sysex8"),
    ("system-common", "SystemCommon"),
    ("ump-stream", "UmpStream"),
    ("utility", "Utility"),
];
type FamilyFn = unsafe extern "C" fn(usize, *const u8, usize, *mut u8, usize) -> usize;

fn families() -> &'static Vec<FamilyFn> {
    static F: OnceLock<Vec<FamilyFn>> = OnceLock::new();
    F.get_or_init(|| {
        let dir = std::env::var("SIM_FAMILIES")
            .unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../families/target/built").into());
        FAMILIES
            .iter()
            .map(|(f, _)| {
                let h = load(&format!("{dir}/{f}.so"));
                // SAFETY: the symbols have these types
                unsafe {
                    let init: extern "C" fn() = std::mem::transmute(dlsym(h, c"family_init".as_ptr()));
                    init();
                    std::mem::transmute::<*mut std::ffi::c_void, FamilyFn>(dlsym(h, c"family_run".as_ptr()))
                }
            })
            .collect()
    })
}

/// Traffic received by a build with one message family: its own messages as in the build with all of
/// them, the others refused.
pub fn one_family(c: &mut Ctx) -> R {
    let what = c.s.below(3);
    let (mut w, mut b) = (vec![], vec![]);
    if what == 2 {
        b = recv::draw_byte_traffic(c, 3);
        c.ev_bytes(&b);
    } else {
        w = recv::draw_traffic(c, 3).0;
        c.ev_words(&w);
    }
    tr!(c, "received {:08x?} {:02x?}", w, b);
    let full = catch_unwind(AssertUnwindSafe(|| {
        lib!(match what {
            0 => alone::words(&w),
            1 => alone::packet(&w),
            _ => alone::bytes(&b),
        })
    }))
    .unwrap_or_else(|_| {
        crate::engine::reset_lib();
        "panic".into()
    });
    c.nontrivial = true;
    c.count(if full.is_empty() { "refused by the full build" } else { "accepted by the full build" });
    // the family concerned, or any other
    let mut k = c.s.below(FAMILIES.len());
    if c.s.chance(1, 2) {
        if let Some(own) = FAMILIES.iter().position(|f| full.starts_with(f.1)) {
            k = own;
        }
    }
    let (feature, variant) = FAMILIES[k];
    let own = full.starts_with(variant);
    if full == "panic" {
        return Ok(());
    }
    if own {
        c.count("its own family");
    }
    let want = if own { &full[..] } else { "" };
    let mut text = vec![0u8; full.len() + 256];
    let (p, n) = if what == 2 { (b.as_ptr(), b.len()) } else { (w.as_ptr() as *const u8, w.len()) };
    // SAFETY: lengths as said
    let n = unsafe { families()[k](what, p, n, text.as_mut_ptr(), text.len()) };
    let got = String::from_utf8_lossy(&text[..n]).into_owned();
    tr!(c, "build with {feature} alone: {}", if got.is_empty() { "refused" } else { &got });
    c.step();
    ensure!(
        got == want,
        format!("a build with {feature} alone differs"),
        "received {w:08x?} {b:02x?}\nall families: {full}\n{feature} alone: {got}"
    );
    Ok(())
}
