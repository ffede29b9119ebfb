#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//! The whole simulator once more, over the library built without the standard library: loaded beside
//! the first by the simulator, and given the same choices to live through.
mod agg;
mod engine;
mod heap;
mod iters;
mod kinds;
mod link;
mod mem;
mod props;
mod simbuf;
mod source;
mod sx;
mod tape;
mod tx;
mod val;
mod wire;

#[global_allocator]
static A: mem::Capped = mem::Capped;

#[no_mangle]
pub extern "C" fn replica_init(fatal: extern "C" fn()) {
    mem::on_over(fatal);
    engine::install_hook();
}

/// # Safety
/// `run` points to `n` readable choices and `out`, `text` to room for the answer.
#[no_mangle]
pub unsafe extern "C" fn replica_run(
    prop: usize,
    choices: *const u64,
    n: usize,
    tracing: bool,
    out: *mut engine::Lived,
    text: *mut u8,
    room: usize,
) -> usize {
    let tape = std::slice::from_raw_parts(choices, n).to_vec();
    let mut ctx = engine::Ctx::new(tape::Src::replay(tape), tracing);
    let o = engine::run_once(&props::PROPS[prop], &mut ctx);
    let (l, t) = engine::lived(o, &ctx);
    *out = l;
    let k = t.len().min(room);
    std::ptr::copy_nonoverlapping(t.as_ptr(), text, k);
    k
}
