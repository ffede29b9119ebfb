//! Every message type of the library behind one object-safe face, with the MIDI layout tables
//! (field name, wire segments, template, identifying mask) written down independently.
use crate::heap::{heap, Heap};
use crate::engine::Ctx;
use crate::simbuf::{set_landing, SimBuf, SimUnit};
use crate::val::W;
use midi2::buffer::{Buffer, BufferMut};
use midi2::error::{BufferOverflow, InvalidData};
use midi2::ux::*;
use midi2::*;

/// (unit index, shift, width), most significant first
pub type Seg = (usize, u32, u32);

pub trait Msg<U> {
    fn kind(&self) -> &'static str;
    /// every public reading, as canonical wire bits
    fn readings(&self) -> Vec<u64>;
    fn units(&self) -> &[U];
    fn debug(&self) -> String;
    /// the packets it is cut into; empty for byte forms
    fn packs(&self) -> Vec<Vec<u32>>;
    /// reads everything without keeping anything
    fn touch(&self) -> u64;
}
#[macro_export]
macro_rules! touch_packs {
    (u32, $s:expr) => { midi2::Packets::packets($s).map(|p| $crate::iters::sip(&p)).fold(0, u64::wrapping_add) ^ $crate::iters::swirl(|| midi2::Packets::packets($s)) };
    (u8, $s:expr) => { 0u64 };
}
/// `packs` for a packet or byte form
#[macro_export]
macro_rules! packs_fn {
    (u32) => {
        fn packs(&self) -> Vec<Vec<u32>> { midi2::Packets::packets(self).map(|p| p[..].to_vec()).collect() }
    };
    (u8) => {
        fn packs(&self) -> Vec<Vec<u32>> { vec![] }
    };
}
pub trait MsgMut<U>: Msg<U> {
    fn set(&mut self, field: usize, bits: u64, syn: u64);
    /// readings of the message parsed back from its own data compare equal as messages
    fn as_msg(&self) -> &dyn Msg<U>;
}

pub struct Field {
    pub name: &'static str,
    pub segs: &'static [Seg],
    pub bsegs: &'static [Seg],
    pub draw: fn(&mut Ctx, u32) -> u64,
    pub draw_recv: fn(&mut Ctx, u32) -> u64,
    pub canon: fn(u64) -> u64,
    pub syn: u64,
}

pub trait Segs: SimUnit {
    fn segs(f: &Field) -> &'static [Seg];
    fn forms(k: &'static Kind) -> Option<&'static Forms<Self>>;
    const NAME: &'static str;
}
impl Segs for u32 {
    fn segs(f: &Field) -> &'static [Seg] {
        f.segs
    }
    fn forms(k: &'static Kind) -> Option<&'static Forms<u32>> {
        Some(&k.ump)
    }
    const NAME: &'static str = "ump";
}
impl Segs for u8 {
    fn segs(f: &Field) -> &'static [Seg] {
        f.bsegs
    }
    fn forms(k: &'static Kind) -> Option<&'static Forms<u8>> {
        k.bytes.as_ref()
    }
    const NAME: &'static str = "bytes";
}

pub fn seg_width(s: &[Seg]) -> u32 {
    s.iter().map(|x| x.2).sum()
}
pub fn get_bits<U: SimUnit>(w: &[U], segs: &[Seg]) -> u64 {
    let mut v = 0u64;
    for (i, sh, n) in segs {
        let m = if *n == 64 { u64::MAX } else { (1u64 << n) - 1 };
        v = v << n | (w[*i].to_u64() >> sh & m);
    }
    v
}
pub fn put_bits<U: SimUnit>(w: &mut [U], segs: &[Seg], v: u64) {
    let mut left = seg_width(segs);
    for (i, sh, n) in segs {
        left -= n;
        let m = (1u64 << n) - 1;
        let part = v >> left & m;
        w[*i] = U::from_u64(w[*i].to_u64() & !(m << sh) | part << sh);
    }
}

pub enum Make<'a, U> {
    Vec,
    Arr,
    ArrBig,
    TryNewArr,
    TryNewSim,
    NewSim,
    Slice(&'a mut [U]),
    ArrWith([U; 8]),
    SimTry(SimBuf<U>),
    SimNew(SimBuf<U>),
    VecWith(Heap<U>),
    VecRef(&'a mut Heap<U>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum To {
    Vec,
    Arr,
    ArrBig,
    ArrBigRe,
    /// simulated storage of this capacity
    Sim(usize, bool, u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Hop<U> {
    /// no such conversion in the API
    Skip,
    Overflow,
    /// data, readings, storage capacity of the result
    Ok(Vec<U>, Vec<u64>),
}

pub struct Forms<U: 'static> {
    pub size: usize,
    pub tmpl: &'static [U],
    pub mask: &'static [U],
    pub nf: usize,
    pub make: for<'a> fn(Make<'a, U>) -> Result<Box<dyn MsgMut<U> + 'a>, BufferOverflow>,
    pub parse: for<'a> fn(&'a [U]) -> Result<Box<dyn Msg<U> + 'a>, InvalidData>,
    /// equality of two parsed messages
    pub same: fn(&[U], &[U]) -> Result<bool, InvalidData>,
    /// received (parsed from a slice) and moved into owned storage
    pub recv: fn(&[U], To) -> Result<Box<dyn MsgMut<U>>, Option<InvalidData>>,
    pub moves: fn(&[U], &[To]) -> Result<Vec<Hop<U>>, InvalidData>,
    /// constructed in a caller's slice, then moved
    pub moves_out: fn(&mut [U], &Fill, &[To]) -> Option<MovedOut<U>>,
    /// capacities of the Arr and ArrBig storages
    pub arr: (usize, usize),
    /// a received message (if it is one) and field edits in storage without a heap
    pub quiet: fn(&[U], &mut [U], &[(usize, u64, u64)]) -> Result<(), crate::engine::Violation>,
}

pub struct Kind {
    pub name: &'static str,
    pub fields: &'static [Field],
    /// segments that must be one of these values for a received message to be of this kind
    pub hidden: &'static [(Seg, &'static [u64])],
    pub ump: Forms<u32>,
    pub bytes: Option<Forms<u8>>,
    /// conversions between forms: (source data, target shape) -> data and readings
    pub to_bytes: Option<fn(&[u32], Conv) -> Result<Hop<u8>, InvalidData>>,
    pub to_ump: Option<fn(&[u8], Conv) -> Result<Hop<u32>, InvalidData>>,
    /// conversions both ways without a heap
    pub quiet_conv: Option<fn(&[u32]) -> Result<(), crate::engine::Violation>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Conv {
    Vec,
    Arr,
    ArrBig,
    TryArr,
    TryArrBig,
    /// fallible into simulated storage with this capacity
    TrySim(usize, bool),
}

#[macro_export]
macro_rules! msg_impl {
    ($T:ident, $U:ident, $name:expr, [$($get:ident $set:ident $t:ty),*]) => {
        impl<B: Buffer<Unit = $U>> Msg<$U> for $T<B> {
            fn kind(&self) -> &'static str { $name }
            fn readings(&self) -> Vec<u64> { vec![$(<$t as W>::w(self.$get())),*] }
            fn units(&self) -> &[$U] { self.data() }
            fn debug(&self) -> String { format!("{:?}", self) }
            $crate::packs_fn!($U);
            fn touch(&self) -> u64 {
                let mut h = self.data().len() as u64;
                $(h = h.wrapping_mul(31).wrapping_add(<$t as W>::w(self.$get()));)*
                h ^ $crate::touch_packs!($U, self)
            }
        }
        impl<B: Buffer<Unit = $U> + BufferMut> MsgMut<$U> for $T<B> {
            #[allow(unused_assignments, unused_mut, unused_variables)]
            fn set(&mut self, field: usize, bits: u64, syn: u64) {
                let mut i = 0usize;
                $( if field == i { self.$set(<$t as W>::r(bits, syn)); return; } i += 1; )*
                panic!("harness: field index");
            }
            fn as_msg(&self) -> &dyn Msg<$U> { self }
        }
    };
}

#[macro_export]
macro_rules! arr_re {
    (arr, $m:expr) => { Some(Ok(H::A2($crate::lib!($m.array_rebuffer_into())))) };
    (noarr, $m:expr) => { None };
}

#[macro_export]
macro_rules! moves_impl {
    ($T:ident, $U:ident, $n1:expr, $n2:expr) => { $crate::moves_impl!($T, $U, $n1, $n2, arr); };
    ($T:ident, $U:ident, $n1:expr, $n2:expr, $arr:ident) => {
        #[allow(clippy::large_enum_variant)]
        enum H<'a> {
            S($T<&'a [$U]>),
            V($T<$crate::heap::Heap<$U>>),
            A($T<[$U; $n1]>),
            A2($T<[$U; $n2]>),
            M($T<SimBuf<$U>>),
        }
        impl<'a> H<'a> {
            fn msg(&self) -> &dyn Msg<$U> {
                match self { H::S(m) => m, H::V(m) => m, H::A(m) => m, H::A2(m) => m, H::M(m) => m }
            }
            /// None: no such move
            fn step(&self, to: To) -> Option<Result<H<'a>, BufferOverflow>> {
                if let To::Sim(cap, fixed, dirty) = to { set_landing(cap, fixed, dirty); }
                macro_rules! any_arr { ($m:expr) => {{
                    // the infallible move into an array: only where the message fits it
                    let n = $m.data().len();
                    match to {
                        To::ArrBigRe if n <= $n2 => $crate::arr_re!($arr, $m),
                        To::Sim(..) => Some($crate::lib!($m.try_rebuffer_into()).map(H::M)),
                        _ => None,
                    }
                }}; }
                match (self, to) {
                    (H::S(m), To::Vec) => Some(Ok(H::V($crate::lib!(m.clone().rebuffer_into())))),
                    (H::A(m), To::Vec) => Some(Ok(H::V($crate::lib!(m.clone().rebuffer_into())))),
                    (H::A2(m), To::Vec) => Some(Ok(H::V($crate::lib!(m.clone().rebuffer_into())))),
                    (H::M(m), To::Vec) => Some(Ok(H::V($crate::lib!(m.clone().rebuffer_into())))),
                    (H::S(m), To::Arr) => Some($crate::lib!(m.clone().try_rebuffer_into()).map(H::A)),
                    (H::S(m), To::ArrBig) => Some($crate::lib!(m.clone().try_rebuffer_into()).map(H::A2)),
                    (H::V(m), To::Arr) => Some($crate::lib!(m.clone().try_rebuffer_into()).map(H::A)),
                    (H::V(m), To::ArrBig) => Some($crate::lib!(m.clone().try_rebuffer_into()).map(H::A2)),
                    (H::M(m), To::Arr) => Some($crate::lib!(m.clone().try_rebuffer_into()).map(H::A)),
                    (H::M(m), To::ArrBig) => Some($crate::lib!(m.clone().try_rebuffer_into()).map(H::A2)),
                    (H::S(m), _) => any_arr!(m.clone()),
                    (H::V(m), _) => any_arr!(m.clone()),
                    (H::A(m), _) => any_arr!(m.clone()),
                    (H::A2(m), _) => any_arr!(m.clone()),
                    (H::M(m), _) => any_arr!(m.clone()),
                }
            }
        }
        /// A chain of moves; a skipped or refused one leaves the message where it is.
        pub fn moves(src: &[$U], steps: &[To]) -> Result<Vec<Hop<$U>>, InvalidData> {
            let h = H::S($crate::lib!($T::try_from(src))?);
            Ok(hops(h, steps))
        }
        fn hops(mut h: H<'_>, steps: &[To]) -> Vec<Hop<$U>> {
            let mut out = Vec::new();
            for s in steps {
                match h.step(*s) {
                    None => out.push(Hop::Skip),
                    Some(Err(_)) => out.push(Hop::Overflow),
                    Some(Ok(n)) => {
                        h = n;
                        out.push(hop(&h));
                    }
                }
            }
            out
        }
        fn hop(h: &H<'_>) -> Hop<$U> {
            let m = h.msg();
            Hop::Ok($crate::lib!(m.units().to_vec()), $crate::lib!(m.readings()))
        }
    };
}

/// What a message constructed in a caller's slice is given before it is moved.
#[derive(Debug, Default)]
pub struct Fill {
    pub edits: Vec<(usize, u64, u64)>,
    pub bytes: Vec<u8>,
    pub text: String,
    pub group: u8,
    pub channel: Option<u8>,
    pub other: u8,
    /// the first move is to the same memory, only read from now on
    pub lend: bool,
}

/// A message as constructed (data and readings), the outcome of its first move and of those after it.
pub type MovedOut<U> = (Vec<U>, Vec<u64>, Vec<Hop<U>>);

/// Moves out of a message constructed in a caller's mutable slice.
#[macro_export]
macro_rules! moves_out_impl {
    ($T:ident, $U:ident, $n2:expr, $fill:expr) => {
        /// None: the slice cannot hold the message
        pub fn moves_out(mem: &mut [$U], fill: &$crate::kinds::Fill, steps: &[To]) -> Option<$crate::kinds::MovedOut<$U>> {
            let mut m = $crate::lib!($T::try_new_with_buffer(mem)).ok()?;
            if !$crate::lib!($fill(&mut m, fill)) {
                return None;
            }
            let data = $crate::lib!(m.data().to_vec());
            let reads = $crate::lib!(Msg::<$U>::readings(&m));
            if let To::Sim(cap, fixed, dirty) = steps[0] { set_landing(cap, fixed, dirty); }
            let h = match steps[0] {
                _ if fill.lend => Ok(H::S($crate::lib!(m.rebuffer_into()))),
                To::Vec => Ok(H::V($crate::lib!(m.rebuffer_into()))),
                To::Arr => $crate::lib!(m.try_rebuffer_into()).map(H::A),
                To::ArrBig => $crate::lib!(m.try_rebuffer_into()).map(H::A2),
                To::ArrBigRe => Ok(H::A2($crate::lib!(m.array_rebuffer_into()))),
                To::Sim(..) => $crate::lib!(m.try_rebuffer_into()).map(H::M),
            };
            let mut out = Vec::new();
            match h {
                Err(_) => out.push(Hop::Overflow),
                Ok(h) => {
                    out.push(hop(&h));
                    out.extend(hops(h, &steps[1..]));
                }
            }
            Some((data, reads, out))
        }
    };
}

macro_rules! forms {
    ($T:ident, $U:ident, $size:expr, $tmpl:expr, $mask:expr, $nf:expr) => {
        crate::moves_impl!($T, $U, { $size }, 8);
        crate::moves_out_impl!($T, $U, 8, |m: &mut $T<&mut [$U]>, f: &crate::kinds::Fill| {
            f.edits.iter().for_each(|e| MsgMut::<$U>::set(m, e.0, e.1, e.2));
            true
        });
        fn make<'a>(h: Make<'a, $U>) -> Result<Box<dyn MsgMut<$U> + 'a>, BufferOverflow> {
            Ok(match h {
                Make::Vec => Box::new($T::<crate::heap::Heap<$U>>::new()),
                Make::Arr => Box::new($T::<[$U; 4]>::new()),
                Make::ArrBig => Box::new($T::<[$U; 8]>::new()),
                Make::TryNewArr => Box::new($T::<[$U; 5]>::try_new()?),
                Make::TryNewSim => Box::new($T::<SimBuf<$U>>::try_new()?),
                Make::NewSim => Box::new($T::<SimBuf<$U>>::new()),
                Make::Slice(s) => Box::new($T::try_new_with_buffer(s)?),
                Make::ArrWith(a) => Box::new($T::try_new_with_buffer(a)?),
                Make::SimTry(b) => Box::new($T::try_new_with_buffer(b)?),
                Make::SimNew(b) => Box::new($T::new_with_buffer(b)),
                Make::VecWith(b) => Box::new($T::new_with_buffer(b)),
                Make::VecRef(b) => Box::new($T::new_with_buffer(b)),
            })
        }
        fn parse<'a>(b: &'a [$U]) -> Result<Box<dyn Msg<$U> + 'a>, InvalidData> {
            Ok(Box::new($T::try_from(b)?))
        }
        fn same(a: &[$U], b: &[$U]) -> Result<bool, InvalidData> {
            Ok($T::try_from(a)? == $T::try_from(b)?)
        }
        fn recv(b: &[$U], to: To) -> Result<Box<dyn MsgMut<$U>>, Option<InvalidData>> {
            let m = $T::try_from(b).map_err(Some)?;
            Ok(match to {
                To::Vec => Box::new(RebufferInto::<$T<crate::heap::Heap<$U>>>::rebuffer_into(m)),
                To::Arr => Box::new(TryRebufferInto::<$T<[$U; $size]>>::try_rebuffer_into(m).map_err(|_| None)?),
                To::ArrBig => Box::new(TryRebufferInto::<$T<[$U; 8]>>::try_rebuffer_into(m).map_err(|_| None)?),
                To::ArrBigRe => Box::new(ArrayRebufferInto::<$T<[$U; 8]>>::array_rebuffer_into(m)),
                To::Sim(cap, fixed, dirty) => {
                    set_landing(cap, fixed, dirty);
                    Box::new(TryRebufferInto::<$T<SimBuf<$U>>>::try_rebuffer_into(m).map_err(|_| None)?)
                }
            })
        }
        fn quiet(src: &[$U], mem: &mut [$U], edits: &[(usize, u64, u64)]) -> Result<(), crate::engine::Violation> {
            let n = core::any::type_name::<$T<&[$U]>>();
            if let Ok(m) = crate::quiet!(format_args!("{n} parser"), $T::try_from(src)) {
                crate::quiet!(format_args!("{n} reading"), Msg::<$U>::touch(&m));
                crate::quiet!(format_args!("{n} equality"), m == m.clone());
                if let Ok(a) = crate::quiet!(format_args!("{n} move"), TryRebufferInto::<$T<[$U; $size]>>::try_rebuffer_into(m.clone())) {
                    crate::quiet!(format_args!("{n} reading"), Msg::<$U>::touch(&a));
                }
                if m.data().len() <= 8 {
                    let mut a = crate::quiet!(format_args!("{n} move"), ArrayRebufferInto::<$T<[$U; 8]>>::array_rebuffer_into(m));
                    for e in edits {
                        crate::quiet!(format_args!("{n} setter {}", e.0), MsgMut::<$U>::set(&mut a, e.0, e.1, e.2));
                        crate::quiet!(format_args!("{n} reading"), Msg::<$U>::touch(&a));
                    }
                }
            }
            crate::quiet!(format_args!("{n} new"), Msg::<$U>::touch(&$T::<[$U; 8]>::new()));
            crate::quiet!(format_args!("{n} new"), $T::<[$U; 5]>::try_new().map(|m| Msg::<$U>::touch(&m)).unwrap_or(0));
            if let Ok(mut m) = crate::quiet!(format_args!("{n} new"), $T::try_new_with_buffer(mem)) {
                for e in edits {
                    crate::quiet!(format_args!("{n} setter {}", e.0), MsgMut::<$U>::set(&mut m, e.0, e.1, e.2));
                    crate::quiet!(format_args!("{n} reading"), Msg::<$U>::touch(&m));
                }
            }
            Ok(())
        }
        pub const FORMS: Forms<$U> = Forms {
            quiet,
            size: $size, tmpl: &$tmpl, mask: &$mask, nf: $nf, make, parse, same, recv, moves, moves_out,
            arr: ($size, 8),
        };
    };
}

macro_rules! field {
    ($get:ident, $t:ty, [$($s:expr),*], [$($b:expr),*]) => {
        Field {
            name: stringify!($get), segs: &[$($s),*], bsegs: &[$($b),*],
            draw: <$t as W>::draw, draw_recv: <$t as W>::draw_recv, canon: <$t as W>::canon,
            syn: <$t as W>::SYN,
        }
    };
}

/// A fixed-size message that exists in packet form only.
macro_rules! ump_kind {
    ($m:ident = $name:expr, ($($p:tt)*), $words:expr, $tmpl:expr, $mask:expr, [$($hid:expr),*],
     { $($get:ident $set:ident $t:ty = [$($s:expr),*];)* }) => {
        mod $m {
            use super::*;
            use $($p)* as T;
            crate::msg_impl!(T, u32, $name, [$($get $set $t),*]);
            forms!(T, u32, $words, $tmpl, $mask, <[&str]>::len(&[$(stringify!($get)),*]));
            pub static KIND: Kind = Kind {
                name: $name, fields: &[$(field!($get, $t, [$($s),*], [])),*], hidden: &[$($hid),*],
                ump: FORMS, bytes: None, to_bytes: None, to_ump: None, quiet_conv: None,
            };
        }
    };
}

/// A fixed-size message with a packet form and a byte form; `group` is the last, packet-only field.
macro_rules! dual_kind {
    ($m:ident = $name:expr, ($($p:tt)*), $tmpl:expr, $mask:expr, $blen:expr, $btmpl:expr, $bmask:expr,
     { $($get:ident $set:ident $t:ty = [$($s:expr),*] [$($b:expr),*];)* }) => {
        mod $m {
            use super::*;
            use $($p)* as T;
            crate::msg_impl!(T, u32, $name, [$($get $set $t,)* group set_group u4]);
            crate::msg_impl!(T, u8, $name, [$($get $set $t),*]);
            mod u {
                use super::*;
                forms!(T, u32, 1, $tmpl, $mask, <[&str]>::len(&[$(stringify!($get)),*]) + 1);
            }
            mod b {
                use super::*;
                forms!(T, u8, $blen, $btmpl, $bmask, <[&str]>::len(&[$(stringify!($get)),*]));
            }
            fn to_bytes(src: &[u32], to: Conv) -> Result<Hop<u8>, InvalidData> {
                let m = crate::lib!(T::try_from(src))?;
                fn out<B: Buffer<Unit = u8>>(m: T<B>) -> Hop<u8> {
                    Hop::Ok(crate::lib!(m.units().to_vec()), crate::lib!(Msg::<u8>::readings(&m)))
                }
                Ok(match to {
                    Conv::Vec => out::<Heap<u8>>(crate::lib!(m.into_bytes())),
                    Conv::Arr => out::<[u8; 4]>(crate::lib!(m.into_bytes())),
                    Conv::ArrBig => out::<[u8; 6]>(crate::lib!(m.into_bytes())),
                    Conv::TryArr => match crate::lib!(m.try_into_bytes()) {
                        Ok(m) => out::<[u8; $blen]>(m), Err(_) => Hop::Overflow },
                    Conv::TryArrBig => match crate::lib!(m.try_into_bytes()) {
                        Ok(m) => out::<[u8; 6]>(m), Err(_) => Hop::Overflow },
                    Conv::TrySim(cap, fixed) => {
                        crate::simbuf::set_default(cap, fixed);
                        match crate::lib!(m.try_into_bytes()) {
                            Ok(m) => out::<SimBuf<u8>>(m), Err(_) => Hop::Overflow }
                    }
                })
            }
            fn to_ump(src: &[u8], to: Conv) -> Result<Hop<u32>, InvalidData> {
                let m = crate::lib!(T::try_from(src))?;
                fn out<B: Buffer<Unit = u32>>(m: T<B>) -> Hop<u32> {
                    Hop::Ok(crate::lib!(m.units().to_vec()), crate::lib!(Msg::<u32>::readings(&m)))
                }
                Ok(match to {
                    Conv::Vec => out::<Heap<u32>>(crate::lib!(m.into_ump())),
                    Conv::Arr => out::<[u32; 3]>(crate::lib!(m.into_ump())),
                    Conv::ArrBig => out::<[u32; 4]>(crate::lib!(m.into_ump())),
                    Conv::TryArr => match crate::lib!(m.try_into_ump()) {
                        Ok(m) => out::<[u32; 1]>(m), Err(_) => Hop::Overflow },
                    Conv::TryArrBig => match crate::lib!(m.try_into_ump()) {
                        Ok(m) => out::<[u32; 4]>(m), Err(_) => Hop::Overflow },
                    Conv::TrySim(cap, fixed) => {
                        crate::simbuf::set_default(cap, fixed);
                        match crate::lib!(m.try_into_ump()) {
                            Ok(m) => out::<SimBuf<u32>>(m), Err(_) => Hop::Overflow }
                    }
                })
            }
            fn quiet_conv(src: &[u32]) -> Result<(), crate::engine::Violation> {
                let Ok(m) = crate::lib!(T::try_from(src)) else { return Ok(()) };
                let b: T<[u8; 3]> = match crate::quiet!(format_args!("{} to bytes", $name), m.try_into_bytes()) {
                    Ok(b) => b,
                    Err(_) => return Ok(()),
                };
                crate::quiet!(format_args!("{} reading", $name), Msg::<u8>::touch(&b));
                let u: T<[u32; 1]> = match crate::quiet!(format_args!("{} to packets", $name), b.try_into_ump()) {
                    Ok(u) => u,
                    Err(_) => return Ok(()),
                };
                crate::quiet!(format_args!("{} reading", $name), Msg::<u32>::touch(&u));
                Ok(())
            }
            pub static KIND: Kind = Kind {
                name: $name,
                fields: &[$(field!($get, $t, [$($s),*], [$($b),*]),)* field!(group, u4, [(0, 24, 4)], [])],
                hidden: &[],
                ump: u::FORMS, bytes: Some(b::FORMS),
                to_bytes: Some(to_bytes), to_ump: Some(to_ump), quiet_conv: Some(quiet_conv),
            };
        }
    };
}

// ---------------------------------------------------------------- layout tables

dual_kind!(channel_pressure1 = "channel_voice1::ChannelPressure", (midi2::channel_voice1::ChannelPressure), [0x20D00000], [0xF0F00000], 2, [0xD0, 0x00], [0xF0, 0x00], {
    channel set_channel u4 = [(0, 16, 4)] [(0, 0, 4)];
    pressure set_pressure u7 = [(0, 8, 7)] [(1, 0, 7)];
});
dual_kind!(control_change1 = "channel_voice1::ControlChange", (midi2::channel_voice1::ControlChange), [0x20B00000], [0xF0F00000], 3, [0xB0, 0x00, 0x00], [0xF0, 0x00, 0x00], {
    channel set_channel u4 = [(0, 16, 4)] [(0, 0, 4)];
    control set_control u7 = [(0, 8, 7)] [(1, 0, 7)];
    control_data set_control_data u7 = [(0, 0, 7)] [(2, 0, 7)];
});
dual_kind!(key_pressure1 = "channel_voice1::KeyPressure", (midi2::channel_voice1::KeyPressure), [0x20A00000], [0xF0F00000], 3, [0xA0, 0x00, 0x00], [0xF0, 0x00, 0x00], {
    channel set_channel u4 = [(0, 16, 4)] [(0, 0, 4)];
    note_number set_note_number u7 = [(0, 8, 7)] [(1, 0, 7)];
    pressure set_pressure u7 = [(0, 0, 7)] [(2, 0, 7)];
});
dual_kind!(note_off1 = "channel_voice1::NoteOff", (midi2::channel_voice1::NoteOff), [0x20800000], [0xF0F00000], 3, [0x80, 0x00, 0x00], [0xF0, 0x00, 0x00], {
    channel set_channel u4 = [(0, 16, 4)] [(0, 0, 4)];
    note_number set_note_number u7 = [(0, 8, 7)] [(1, 0, 7)];
    velocity set_velocity u7 = [(0, 0, 7)] [(2, 0, 7)];
});
dual_kind!(note_on1 = "channel_voice1::NoteOn", (midi2::channel_voice1::NoteOn), [0x20900000], [0xF0F00000], 3, [0x90, 0x00, 0x00], [0xF0, 0x00, 0x00], {
    channel set_channel u4 = [(0, 16, 4)] [(0, 0, 4)];
    note_number set_note_number u7 = [(0, 8, 7)] [(1, 0, 7)];
    velocity set_velocity u7 = [(0, 0, 7)] [(2, 0, 7)];
});
dual_kind!(pitch_bend1 = "channel_voice1::PitchBend", (midi2::channel_voice1::PitchBend), [0x20E00000], [0xF0F00000], 3, [0xE0, 0x00, 0x00], [0xF0, 0x00, 0x00], {
    channel set_channel u4 = [(0, 16, 4)] [(0, 0, 4)];
    bend set_bend u14 = [(0, 0, 7), (0, 8, 7)] [(2, 0, 7), (1, 0, 7)];
});
dual_kind!(program_change1 = "channel_voice1::ProgramChange", (midi2::channel_voice1::ProgramChange), [0x20C00000], [0xF0F00000], 2, [0xC0, 0x00], [0xF0, 0x00], {
    channel set_channel u4 = [(0, 16, 4)] [(0, 0, 4)];
    program set_program u7 = [(0, 8, 7)] [(1, 0, 7)];
});
dual_kind!(tune_request = "system_common::TuneRequest", (midi2::system_common::TuneRequest), [0x10F60000], [0xF0FF0000], 1, [0xF6], [0xFF], {
});
dual_kind!(timing_clock = "system_common::TimingClock", (midi2::system_common::TimingClock), [0x10F80000], [0xF0FF0000], 1, [0xF8], [0xFF], {
});
dual_kind!(start_rt = "system_common::Start", (midi2::system_common::Start), [0x10FA0000], [0xF0FF0000], 1, [0xFA], [0xFF], {
});
dual_kind!(continue_rt = "system_common::Continue", (midi2::system_common::Continue), [0x10FB0000], [0xF0FF0000], 1, [0xFB], [0xFF], {
});
dual_kind!(stop_rt = "system_common::Stop", (midi2::system_common::Stop), [0x10FC0000], [0xF0FF0000], 1, [0xFC], [0xFF], {
});
dual_kind!(active_sensing = "system_common::ActiveSensing", (midi2::system_common::ActiveSensing), [0x10FE0000], [0xF0FF0000], 1, [0xFE], [0xFF], {
});
dual_kind!(reset_rt = "system_common::Reset", (midi2::system_common::Reset), [0x10FF0000], [0xF0FF0000], 1, [0xFF], [0xFF], {
});
dual_kind!(song_position = "system_common::SongPositionPointer", (midi2::system_common::SongPositionPointer), [0x10F20000], [0xF0FF0000], 3, [0xF2, 0x00, 0x00], [0xFF, 0x00, 0x00], {
    position set_position u14 = [(0, 0, 7), (0, 8, 7)] [(2, 0, 7), (1, 0, 7)];
});
dual_kind!(song_select = "system_common::SongSelect", (midi2::system_common::SongSelect), [0x10F30000], [0xF0FF0000], 2, [0xF3, 0x00], [0xFF, 0x00], {
    song set_song u7 = [(0, 8, 7)] [(1, 0, 7)];
});
dual_kind!(time_code = "system_common::TimeCode", (midi2::system_common::TimeCode), [0x10F10000], [0xF0FF0000], 2, [0xF1, 0x00], [0xFF, 0x00], {
    time_code set_time_code u7 = [(0, 8, 7)] [(1, 0, 7)];
});
ump_kind!(no_op = "utility::NoOp", (midi2::utility::NoOp), 1, [0x00000000], [0xF0F00000], [], {
    time_data set_time_data u16 = [(0, 0, 16)];
});
ump_kind!(clock_u = "utility::Clock", (midi2::utility::Clock), 1, [0x00100000], [0xF0F00000], [], {
    time_data set_time_data u16 = [(0, 0, 16)];
});
ump_kind!(timestamp = "utility::Timestamp", (midi2::utility::Timestamp), 1, [0x00200000], [0xF0F00000], [], {
    time_data set_time_data u16 = [(0, 0, 16)];
});
ump_kind!(delta_tpq = "utility::DeltaClockstampTpq", (midi2::utility::DeltaClockstampTpq), 1, [0x00300000], [0xF0F00000], [], {
    time_data set_time_data u16 = [(0, 0, 16)];
});
ump_kind!(delta_clock = "utility::DeltaClockstamp", (midi2::utility::DeltaClockstamp), 1, [0x00400000], [0xF0F00000], [], {
    time_data set_time_data u20 = [(0, 0, 20)];
});
ump_kind!(registered_per_note = "channel_voice2::RegisteredPerNoteController", (midi2::channel_voice2::RegisteredPerNoteController), 2, [0x40000000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    note_number set_note_number u7 = [(0, 8, 7)];
    controller set_controller midi2::channel_voice2::Controller = [(0, 0, 8), (1, 0, 32)];
});
ump_kind!(assignable_per_note = "channel_voice2::AssignablePerNoteController", (midi2::channel_voice2::AssignablePerNoteController), 2, [0x40100000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    note_number set_note_number u7 = [(0, 8, 7)];
    index set_index u8 = [(0, 0, 8)];
    controller_data set_controller_data u32 = [(1, 0, 32)];
});
ump_kind!(registered_ctl = "channel_voice2::RegisteredController", (midi2::channel_voice2::RegisteredController), 2, [0x40200000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    bank set_bank u7 = [(0, 8, 7)];
    index set_index u7 = [(0, 0, 7)];
    controller_data set_controller_data u32 = [(1, 0, 32)];
});
ump_kind!(assignable_ctl = "channel_voice2::AssignableController", (midi2::channel_voice2::AssignableController), 2, [0x40300000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    bank set_bank u7 = [(0, 8, 7)];
    index set_index u7 = [(0, 0, 7)];
    controller_data set_controller_data u32 = [(1, 0, 32)];
});
ump_kind!(rel_registered = "channel_voice2::RelativeRegisteredController", (midi2::channel_voice2::RelativeRegisteredController), 2, [0x40400000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    bank set_bank u7 = [(0, 8, 7)];
    index set_index u7 = [(0, 0, 7)];
    controller_data set_controller_data u32 = [(1, 0, 32)];
});
ump_kind!(rel_assignable = "channel_voice2::RelativeAssignableController", (midi2::channel_voice2::RelativeAssignableController), 2, [0x40500000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    bank set_bank u7 = [(0, 8, 7)];
    index set_index u7 = [(0, 0, 7)];
    controller_data set_controller_data u32 = [(1, 0, 32)];
});
ump_kind!(per_note_bend = "channel_voice2::PerNotePitchBend", (midi2::channel_voice2::PerNotePitchBend), 2, [0x40600000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    note_number set_note_number u7 = [(0, 8, 7)];
    pitch_bend_data set_pitch_bend_data u32 = [(1, 0, 32)];
});
ump_kind!(note_off2 = "channel_voice2::NoteOff", (midi2::channel_voice2::NoteOff), 2, [0x40800000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    note_number set_note_number u7 = [(0, 8, 7)];
    velocity set_velocity u16 = [(1, 16, 16)];
    attribute set_attribute Option<midi2::channel_voice2::NoteAttribute> = [(0, 0, 8), (1, 0, 16)];
});
ump_kind!(note_on2 = "channel_voice2::NoteOn", (midi2::channel_voice2::NoteOn), 2, [0x40900000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    note_number set_note_number u7 = [(0, 8, 7)];
    velocity set_velocity u16 = [(1, 16, 16)];
    attribute set_attribute Option<midi2::channel_voice2::NoteAttribute> = [(0, 0, 8), (1, 0, 16)];
});
ump_kind!(key_pressure2 = "channel_voice2::KeyPressure", (midi2::channel_voice2::KeyPressure), 2, [0x40A00000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    note_number set_note_number u7 = [(0, 8, 7)];
    key_pressure_data set_key_pressure_data u32 = [(1, 0, 32)];
});
ump_kind!(control_change2 = "channel_voice2::ControlChange", (midi2::channel_voice2::ControlChange), 2, [0x40B00000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    control set_control u7 = [(0, 8, 7)];
    control_change_data set_control_change_data u32 = [(1, 0, 32)];
});
ump_kind!(program_change2 = "channel_voice2::ProgramChange", (midi2::channel_voice2::ProgramChange), 2, [0x40C00000, 0x00000000], [0xF0F00000, 0x00008080], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    program set_program u7 = [(1, 24, 7)];
    bank set_bank Option<u14> = [(0, 0, 1), (1, 0, 7), (1, 8, 7)]; // as the library has it, see program_bank_probe; top bits of the bank octets are not kept
});
ump_kind!(channel_pressure2 = "channel_voice2::ChannelPressure", (midi2::channel_voice2::ChannelPressure), 2, [0x40D00000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    bank set_bank u7 = [(0, 8, 7)];
    index set_index u7 = [(0, 0, 7)];
    channel_pressure_data set_channel_pressure_data u32 = [(1, 0, 32)];
});
ump_kind!(channel_bend = "channel_voice2::ChannelPitchBend", (midi2::channel_voice2::ChannelPitchBend), 2, [0x40E00000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    pitch_bend_data set_pitch_bend_data u32 = [(1, 0, 32)];
});
ump_kind!(per_note_mgmt = "channel_voice2::PerNoteManagement", (midi2::channel_voice2::PerNoteManagement), 2, [0x40F00000, 0x00000000], [0xF0F00000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    channel set_channel u4 = [(0, 16, 4)];
    note_number set_note_number u7 = [(0, 8, 7)];
    detach set_detach bool = [(0, 1, 1)];
    reset set_reset bool = [(0, 0, 1)];
});
ump_kind!(set_tempo = "flex_data::SetTempo", (midi2::flex_data::SetTempo), 4, [0xD0100000, 0x00000000, 0x00000000, 0x00000000], [0xF0C0FFFF, 0x00000000, 0x00000000, 0x00000000], [((0, 20, 2), &[1, 2, 3])], {
    group set_group u4 = [(0, 24, 4)];
    number_of_10_nanosecond_units_per_quarter_note set_number_of_10_nanosecond_units_per_quarter_note u32 = [(1, 0, 32)];
});
ump_kind!(set_time_sig = "flex_data::SetTimeSignature", (midi2::flex_data::SetTimeSignature), 4, [0xD0100001, 0x00000000, 0x00000000, 0x00000000], [0xF0C0FFFF, 0x00000000, 0x00000000, 0x00000000], [((0, 20, 2), &[1, 2, 3])], {
    group set_group u4 = [(0, 24, 4)];
    numerator set_numerator u8 = [(1, 24, 8)];
    denominator set_denominator u8 = [(1, 16, 8)];
    number_of_32nd_notes set_number_of_32nd_notes u8 = [(1, 8, 8)];
});
ump_kind!(set_metronome = "flex_data::SetMetronome", (midi2::flex_data::SetMetronome), 4, [0xD0100002, 0x00000000, 0x00000000, 0x00000000], [0xF0C0FFFF, 0x00000000, 0x00000000, 0x00000000], [((0, 20, 2), &[1, 2, 3])], {
    group set_group u4 = [(0, 24, 4)];
    number_of_clocks_per_primary_click set_number_of_clocks_per_primary_click u8 = [(1, 24, 8)];
    bar_accent1 set_bar_accent1 u8 = [(1, 16, 8)];
    bar_accent2 set_bar_accent2 u8 = [(1, 8, 8)];
    bar_accent3 set_bar_accent3 u8 = [(1, 0, 8)];
    number_of_subdivision_clicks1 set_number_of_subdivision_clicks1 u8 = [(2, 24, 8)];
    number_of_subdivision_clicks2 set_number_of_subdivision_clicks2 u8 = [(2, 16, 8)];
});
ump_kind!(set_key_sig = "flex_data::SetKeySignature", (midi2::flex_data::SetKeySignature), 4, [0xD0000005, 0x00000000, 0x00000000, 0x00000000], [0xF0C0FFFF, 0x00000000, 0x00000000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    optional_channel set_optional_channel Option<u4> = [(0, 20, 2), (0, 16, 4)];
    tonic set_tonic midi2::flex_data::Tonic = [(1, 24, 4)];
    sharps_flats set_sharps_flats midi2::flex_data::SetKeySignatureSharpsFlats = [(1, 28, 4)];
});
ump_kind!(set_chord = "flex_data::SetChordName", (midi2::flex_data::SetChordName), 4, [0xD0000006, 0x00000000, 0x00000000, 0x00000000], [0xF0C0FFFF, 0x00000000, 0x00000000, 0x00000000], [], {
    group set_group u4 = [(0, 24, 4)];
    optional_channel set_optional_channel Option<u4> = [(0, 20, 2), (0, 16, 4)];
    tonic_sharps_flats set_tonic_sharps_flats midi2::flex_data::SetChordNameSharpsFlats = [(1, 28, 4)];
    tonic set_tonic midi2::flex_data::Tonic = [(1, 24, 4)];
    chord_type set_chord_type midi2::flex_data::ChordType = [(1, 16, 8)];
    chord_alteration1 set_chord_alteration1 Option<midi2::flex_data::Alteration> = [(1, 8, 8)];
    chord_alteration2 set_chord_alteration2 Option<midi2::flex_data::Alteration> = [(1, 0, 8)];
    chord_alteration3 set_chord_alteration3 Option<midi2::flex_data::Alteration> = [(2, 24, 8)];
    chord_alteration4 set_chord_alteration4 Option<midi2::flex_data::Alteration> = [(2, 16, 8)];
    bass_sharps_flats set_bass_sharps_flats midi2::flex_data::SetChordNameSharpsFlats = [(3, 28, 4)];
    bass_note set_bass_note midi2::flex_data::Tonic = [(3, 24, 4)];
    bass_chord_type set_bass_chord_type midi2::flex_data::ChordType = [(3, 16, 8)];
    bass_alteration1 set_bass_alteration1 Option<midi2::flex_data::Alteration> = [(3, 8, 8)];
    bass_alteration2 set_bass_alteration2 Option<midi2::flex_data::Alteration> = [(3, 0, 8)];
});
ump_kind!(endpoint_discovery = "ump_stream::EndpointDiscovery", (midi2::ump_stream::EndpointDiscovery), 4, [0xF0000000, 0x00000000, 0x00000000, 0x00000000], [0xFFFF0000, 0x00000000, 0x00000000, 0x00000000], [], {
    ump_version_major set_ump_version_major u8 = [(0, 8, 8)];
    ump_version_minor set_ump_version_minor u8 = [(0, 0, 8)];
    request_endpoint_info set_request_endpoint_info bool = [(1, 0, 1)];
    request_device_identity set_request_device_identity bool = [(1, 1, 1)];
    request_endpoint_name set_request_endpoint_name bool = [(1, 2, 1)];
    request_product_instance_id set_request_product_instance_id bool = [(1, 3, 1)];
    request_stream_configuration set_request_stream_configuration bool = [(1, 4, 1)];
});
ump_kind!(endpoint_info = "ump_stream::EndpointInfo", (midi2::ump_stream::EndpointInfo), 4, [0xF0010000, 0x00000000, 0x00000000, 0x00000000], [0xFFFF0000, 0x00000000, 0x00000000, 0x00000000], [], {
    ump_version_major set_ump_version_major u8 = [(0, 8, 8)];
    ump_version_minor set_ump_version_minor u8 = [(0, 0, 8)];
    static_function_blocks set_static_function_blocks bool = [(1, 31, 1)];
    number_of_function_blocks set_number_of_function_blocks u7 = [(1, 24, 7)];
    supports_midi2_protocol set_supports_midi2_protocol bool = [(1, 9, 1)];
    supports_midi1_protocol set_supports_midi1_protocol bool = [(1, 8, 1)];
    supports_receiving_jr_timestamps set_supports_receiving_jr_timestamps bool = [(1, 1, 1)];
    supports_sending_jr_timestamps set_supports_sending_jr_timestamps bool = [(1, 0, 1)];
});
ump_kind!(device_identity = "ump_stream::DeviceIdentity", (midi2::ump_stream::DeviceIdentity), 4, [0xF0020000, 0x00000000, 0x00000000, 0x00000000], [0xFFFF0000, 0x00000000, 0x00000000, 0x00000000], [], {
    device_manufacturer set_device_manufacturer [u7; 3] = [(1, 16, 7), (1, 8, 7), (1, 0, 7)];
    device_family set_device_family u14 = [(2, 16, 7), (2, 24, 7)];
    device_family_model_number set_device_family_model_number u14 = [(2, 0, 7), (2, 8, 7)];
    software_version set_software_version [u7; 4] = [(3, 24, 7), (3, 16, 7), (3, 8, 7), (3, 0, 7)];
});
ump_kind!(config_request = "ump_stream::StreamConfigurationRequest", (midi2::ump_stream::StreamConfigurationRequest), 4, [0xF0050000, 0x00000000, 0x00000000, 0x00000000], [0xFFFF0000, 0x00000000, 0x00000000, 0x00000000], [], {
    protocol set_protocol u8 = [(0, 8, 8)];
    receive_jr_timestamps set_receive_jr_timestamps bool = [(0, 1, 1)];
    send_jr_timestamps set_send_jr_timestamps bool = [(0, 0, 1)];
});
ump_kind!(config_notification = "ump_stream::StreamConfigurationNotification", (midi2::ump_stream::StreamConfigurationNotification), 4, [0xF0060000, 0x00000000, 0x00000000, 0x00000000], [0xFFFF0000, 0x00000000, 0x00000000, 0x00000000], [], {
    protocol set_protocol u8 = [(0, 8, 8)];
    receive_jr_timestamps set_receive_jr_timestamps bool = [(0, 1, 1)];
    send_jr_timestamps set_send_jr_timestamps bool = [(0, 0, 1)];
});
ump_kind!(fb_discovery = "ump_stream::FunctionBlockDiscovery", (midi2::ump_stream::FunctionBlockDiscovery), 4, [0xF0100000, 0x00000000, 0x00000000, 0x00000000], [0xFFFF0000, 0x00000000, 0x00000000, 0x00000000], [], {
    function_block_number set_function_block_number u8 = [(0, 8, 8)];
    requesting_function_block_info set_requesting_function_block_info bool = [(0, 1, 1)];
    requesting_function_block_name set_requesting_function_block_name bool = [(0, 0, 1)];
});
ump_kind!(fb_info = "ump_stream::FunctionBlockInfo", (midi2::ump_stream::FunctionBlockInfo), 4, [0xF0110000, 0x00000000, 0x00000000, 0x00000000], [0xFFFF0000, 0x00000000, 0x00000000, 0x00000000], [], {
    active set_active bool = [(0, 15, 1)];
    function_block_number set_function_block_number u7 = [(0, 8, 7)];
    ui_hint set_ui_hint midi2::ump_stream::UiHint = [(0, 4, 2)];
    midi1_port set_midi1_port Option<midi2::ump_stream::Midi1Port> = [(0, 2, 2)];
    direction set_direction midi2::ump_stream::Direction = [(0, 0, 2)];
    first_group set_first_group u4 = [(1, 24, 4)];
    number_of_groups_spanned set_number_of_groups_spanned u8 = [(1, 16, 8)];
    midi_ci_version set_midi_ci_version u8 = [(1, 8, 8)];
    max_number_of_midi_ci_streams set_max_number_of_midi_ci_streams u8 = [(1, 0, 8)];
});
ump_kind!(start_of_clip = "ump_stream::StartOfClip", (midi2::ump_stream::StartOfClip), 4, [0xF0200000, 0x00000000, 0x00000000, 0x00000000], [0xFFFF0000, 0x00000000, 0x00000000, 0x00000000], [], {
});
ump_kind!(end_of_clip = "ump_stream::EndOfClip", (midi2::ump_stream::EndOfClip), 4, [0xF0210000, 0x00000000, 0x00000000, 0x00000000], [0xFFFF0000, 0x00000000, 0x00000000, 0x00000000], [], {
});

/// The MIDI 2.0 layout puts the bank's most significant septet first; the repository's own tests pin
/// the other order (see known-findings.txt), so the model above follows them and a probe reports it.
pub fn program_bank_probe() -> Option<String> {
    let mut m = midi2::channel_voice2::ProgramChange::<[u32; 2]>::new();
    crate::lib!(m.set_bank(Some(u14::new(0x0101))));
    let w = crate::lib!(m.data().to_vec());
    if w == [0x40C0_0001, 0x0000_0201] { None } else { Some(format!("bank 0x0101 sent as {w:08x?}")) }
}

pub static KINDS: &[&Kind] = &[
    &channel_pressure1::KIND,
    &control_change1::KIND,
    &key_pressure1::KIND,
    &note_off1::KIND,
    &note_on1::KIND,
    &pitch_bend1::KIND,
    &program_change1::KIND,
    &tune_request::KIND,
    &timing_clock::KIND,
    &start_rt::KIND,
    &continue_rt::KIND,
    &stop_rt::KIND,
    &active_sensing::KIND,
    &reset_rt::KIND,
    &song_position::KIND,
    &song_select::KIND,
    &time_code::KIND,
    &no_op::KIND,
    &clock_u::KIND,
    &timestamp::KIND,
    &delta_tpq::KIND,
    &delta_clock::KIND,
    &registered_per_note::KIND,
    &assignable_per_note::KIND,
    &registered_ctl::KIND,
    &assignable_ctl::KIND,
    &rel_registered::KIND,
    &rel_assignable::KIND,
    &per_note_bend::KIND,
    &note_off2::KIND,
    &note_on2::KIND,
    &key_pressure2::KIND,
    &control_change2::KIND,
    &program_change2::KIND,
    &channel_pressure2::KIND,
    &channel_bend::KIND,
    &per_note_mgmt::KIND,
    &set_tempo::KIND,
    &set_time_sig::KIND,
    &set_metronome::KIND,
    &set_key_sig::KIND,
    &set_chord::KIND,
    &endpoint_discovery::KIND,
    &endpoint_info::KIND,
    &device_identity::KIND,
    &config_request::KIND,
    &config_notification::KIND,
    &fb_discovery::KIND,
    &fb_info::KIND,
    &start_of_clip::KIND,
    &end_of_clip::KIND,
];
