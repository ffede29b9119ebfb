//! Simulated storage: the allocator seam of the library (`midi2::buffer`).
//!
//! `Fixed`  - like an array or slice: always exposes its whole capacity.
//! `Exact`  - like a vector or arena block: exposes exactly what was last granted.
//! `Grain`  - like a pool of blocks: grants at least what was asked for and never gives room back.
//! Fresh units expose whatever the memory held before (`dirty` pattern), like re-used storage does.
use crate::heap::{heap, Heap};
use midi2::buffer::*;
use midi2::error::BufferOverflow;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Fixed,
    Exact,
    /// over-grants: rounds every request up and never shrinks
    Grain,
}

/// Shared control block through which the scheduler injects allocation faults into a live message.
#[derive(Debug, Default)]
pub struct Ctl {
    /// refuse growth requests number `deny_from .. deny_from + deny_len` counted from `arm`
    pub deny_from: Cell<u64>,
    pub deny_len: Cell<u64>,
    pub growth_requests: Cell<u64>,
    pub refused_injected: Cell<u64>,
    pub refused_capacity: Cell<u64>,
    pub granted: Cell<u64>,
    pub largest_granted: Cell<usize>,
}

impl Ctl {
    pub fn arm(&self, from: u64, len: u64) {
        self.growth_requests.set(0);
        self.deny_from.set(from);
        self.deny_len.set(len);
        self.refused_injected.set(0);
        self.refused_capacity.set(0);
    }
    pub fn disarm(&self) {
        self.arm(0, 0);
    }
}

pub trait SimUnit: Unit + PartialEq + Eq + core::fmt::Debug + Default + 'static {
    fn from_u64(v: u64) -> Self;
    fn to_u64(self) -> u64;
}
impl SimUnit for u8 {
    fn from_u64(v: u64) -> Self {
        v as u8
    }
    fn to_u64(self) -> u64 {
        self as u64
    }
}
impl SimUnit for u32 {
    fn from_u64(v: u64) -> Self {
        v as u32
    }
    fn to_u64(self) -> u64 {
        self as u64
    }
}

#[derive(Clone, Debug)]
pub struct SimBuf<U> {
    mem: Vec<U>,
    len: usize,
    cap: usize,
    mode: Mode,
    dirty: u64,
    pub ctl: Rc<Ctl>,
}

impl<U: PartialEq> PartialEq for SimBuf<U> {
    fn eq(&self, o: &Self) -> bool {
        self.mem[..self.len] == o.mem[..o.len]
    }
}
impl<U: Eq> Eq for SimBuf<U> {}

fn dirt<U: SimUnit>(seed: u64, i: usize) -> U {
    match seed {
        0 => U::zero(),
        1 => U::from_u64(u64::MAX),
        2 => U::from_u64(0xF7F7_F7F7),
        s => {
            let mut x = s ^ (i as u64).wrapping_mul(0x1234_5678_9ABC_DEF1);
            U::from_u64(crate::tape::splitmix(&mut x))
        }
    }
}

impl<U: SimUnit> SimBuf<U> {
    pub fn fixed(cap: usize, dirty: u64) -> Self {
        SimBuf {
            mem: (0..cap).map(|i| dirt(dirty, i)).collect(),
            len: cap,
            cap,
            mode: Mode::Fixed,
            dirty,
            ctl: Rc::new(Ctl::default()),
        }
    }
    pub fn exact(cap: usize, dirty: u64) -> Self {
        SimBuf { mem: Vec::new(), len: 0, cap, mode: Mode::Exact, dirty, ctl: Rc::new(Ctl::default()) }
    }
    pub fn grain(cap: usize, dirty: u64) -> Self {
        SimBuf { mode: Mode::Grain, ..Self::exact(cap, dirty) }
    }
    /// An exact buffer already holding `data`.
    pub fn exact_with(cap: usize, dirty: u64, data: &[U]) -> Self {
        let mut b = Self::exact(cap.max(data.len()), dirty);
        b.mem = data.to_vec();
        b.len = data.len();
        b
    }
    pub fn fixed_with(cap: usize, dirty: u64, data: &[U]) -> Self {
        let mut b = Self::fixed(cap.max(data.len()), dirty);
        b.mem[..data.len()].copy_from_slice(data);
        b
    }
    /// the whole memory behind the buffer
    pub fn raw(self) -> Vec<U> {
        self.mem
    }
    fn grant(&mut self, size: usize) {
        while self.mem.len() < size {
            let i = self.mem.len();
            self.mem.push(dirt(self.dirty, i));
        }
        match self.mode {
            Mode::Exact => self.len = size,
            Mode::Fixed => self.len = self.len.max(size),
            Mode::Grain => {
                let want = (size + 4) / 5 * 5;
                while self.mem.len() < want {
                    let i = self.mem.len();
                    self.mem.push(dirt(self.dirty, i));
                }
                self.len = self.len.max(want.min(self.cap.max(size)));
            }
        }
        self.ctl.granted.set(self.ctl.granted.get() + 1);
        self.ctl.largest_granted.set(self.ctl.largest_granted.get().max(size));
    }
}

impl<U: SimUnit> Buffer for SimBuf<U> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.mem[..self.len]
    }
}
impl<U: SimUnit> BufferMut for SimBuf<U> {
    fn buffer_mut(&mut self) -> &mut [U] {
        &mut self.mem[..self.len]
    }
}
impl<U: SimUnit> BufferResize for SimBuf<U> {
    fn resize(&mut self, size: usize) {
        // an infallible buffer has no limit
        if size > self.cap {
            self.cap = size;
        }
        self.grant(size)
    }
}
impl<U: SimUnit> BufferTryResize for SimBuf<U> {
    fn try_resize(&mut self, size: usize) -> Result<(), BufferOverflow> {
        if size > self.len {
            let n = self.ctl.growth_requests.get();
            self.ctl.growth_requests.set(n + 1);
            let (f, l) = (self.ctl.deny_from.get(), self.ctl.deny_len.get());
            if n >= f && n < f + l {
                self.ctl.refused_injected.set(self.ctl.refused_injected.get() + 1);
                return Err(BufferOverflow);
            }
        }
        if size > self.cap {
            self.ctl.refused_capacity.set(self.ctl.refused_capacity.get() + 1);
            return Err(BufferOverflow);
        }
        self.grant(size);
        Ok(())
    }
}
impl<U: SimUnit> BufferDefault for SimBuf<U> {
    /// A fresh buffer of the simulated device: empty of data, of the shape asked for by `set_default`.
    fn default() -> Self {
        let (cap, fixed) = DEFAULT.with(|l| l.borrow_mut().take()).unwrap_or((1 << 20, false));
        if fixed {
            SimBuf::fixed(cap, 0)
        } else {
            SimBuf::exact(cap, 0)
        }
    }
}
impl<'a, U: SimUnit> FromBuffer<&'a [U]> for SimBuf<U> {
    fn from_buffer(v: &'a [U]) -> Self {
        SimBuf::exact_with(1 << 20, 3, v)
    }
}

thread_local! {
    static LANDING: std::cell::RefCell<Option<(usize, bool, u64)>> = const { std::cell::RefCell::new(None) };
    static DEFAULT: std::cell::RefCell<Option<(usize, bool)>> = const { std::cell::RefCell::new(None) };
}

/// Make the next move into a `SimBuf` land in a buffer of this shape.
pub fn set_landing(cap: usize, fixed: bool, dirty: u64) {
    LANDING.with(|l| *l.borrow_mut() = Some((cap, fixed, dirty)));
}
/// Make the next default-constructed `SimBuf` have this shape.
pub fn set_default(cap: usize, fixed: bool) {
    DEFAULT.with(|l| *l.borrow_mut() = Some((cap, fixed)));
}

thread_local! {
    static LAST_CTL: std::cell::RefCell<Option<Rc<Ctl>>> = const { std::cell::RefCell::new(None) };
}
/// Control block of the buffer the last move landed in.
pub fn last_ctl() -> Option<Rc<Ctl>> {
    LAST_CTL.with(|l| l.borrow_mut().take())
}

fn land<U: SimUnit>(v: &[U], size: usize) -> Result<SimBuf<U>, BufferOverflow> {
    let (cap, fixed, dirty) = LANDING.with(|l| l.borrow_mut().take()).unwrap_or((1 << 20, false, 3));
    let dirty = dirty & !PLAIN;
    if size > cap {
        return Err(BufferOverflow);
    }
    // whatever lies behind the message comes along only where there is room for it
    let v = if v.len() > cap { &v[..size] } else { v };
    let b = if fixed { SimBuf::fixed_with(cap, dirty, v) } else { SimBuf::exact_with(cap, dirty, v) };
    LAST_CTL.with(|l| *l.borrow_mut() = Some(b.ctl.clone()));
    Ok(b)
}
/// Set in the `dirty` of a landing: a storage which implements no more of the conversion than it has to.
pub const PLAIN: u64 = 1 << 32;
fn plain() -> bool {
    LANDING.with(|l| matches!(&*l.borrow(), Some((_, _, d)) if d & PLAIN != 0))
}
struct Plain<U: SimUnit>(SimBuf<U>);

macro_rules! lands {
    ([$($g:tt)*], $from:ty, $v:ident => $slice:expr) => {
        impl<$($g)*> TryFromBuffer<$from> for Plain<U> {
            fn try_from_buffer($v: $from) -> Result<Self, BufferOverflow> {
                let s: &[U] = $slice;
                land(s, s.len()).map(Plain)
            }
        }
        impl<$($g)*> TryFromBuffer<$from> for SimBuf<U> {
            fn try_from_buffer($v: $from) -> Result<Self, BufferOverflow> {
                let s: &[U] = $slice;
                land(s, s.len())
            }
            fn try_from_message_buffer($v: $from, n: usize) -> Result<Self, BufferOverflow> {
                if plain() {
                    return Plain::try_from_message_buffer($v, n).map(|p| p.0);
                }
                let s: &[U] = $slice;
                land(s, n)
            }
        }
    };
}
lands!(['a, U: SimUnit], &'a [U], v => v);
lands!(['a, U: SimUnit], &'a mut [U], v => v);
lands!([U: SimUnit], SimBuf<U>, v => v.buffer());
lands!([U: SimUnit], Heap<U>, v => v.buffer());
lands!([U: SimUnit, const N: usize], [U; N], v => &v);
impl<U: SimUnit, const N: usize> TryFromBuffer<SimBuf<U>> for [U; N] {
    fn try_from_buffer(v: SimBuf<U>) -> Result<Self, BufferOverflow> {
        <[U; N] as TryFromBuffer<&[U]>>::try_from_buffer(v.buffer())
    }
    fn try_from_message_buffer(v: SimBuf<U>, n: usize) -> Result<Self, BufferOverflow> {
        <[U; N] as TryFromBuffer<&[U]>>::try_from_message_buffer(v.buffer(), n)
    }
}
impl<U: SimUnit> FromBuffer<SimBuf<U>> for Heap<U> {
    fn from_buffer(v: SimBuf<U>) -> Self {
        heap(v.buffer().to_vec())
    }
}
