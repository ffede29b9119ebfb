//! System exclusive messages of every form and storage behind one driver.
use crate::heap::{heap, Heap};
use crate::engine::{Ctx, R};
use crate::kinds::Msg;
use crate::simbuf::SimBuf;
use crate::source::SourceSpec;
use crate::wire::*;
use crate::{ensure, lib, tr};
use midi2::sysex7::Sysex7;
use midi2::sysex8::Sysex8;
use midi2::ux::*;
use midi2::*;
use std::ops::Bound;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    U7,
    B7,
    U8,
}
impl Form {
    pub fn draw(c: &mut Ctx) -> Form {
        *c.s.pick(&[Form::U7, Form::U8, Form::B7])
    }
    pub fn cap(self) -> usize {
        match self {
            Form::U7 => 6,
            Form::B7 => 8,
            Form::U8 => 13,
        }
    }
    pub fn seven(self) -> bool {
        self != Form::U8
    }
    /// units the smallest message with this payload occupies
    pub fn need(self, payload: usize) -> usize {
        match self {
            Form::U7 => sysex7_words(payload),
            Form::B7 => payload + 2,
            Form::U8 => sysex8_words(payload),
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Form::U7 => "sysex7 packets",
            Form::B7 => "sysex7 bytes",
            Form::U8 => "sysex8 packets",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Units {
    W(Vec<u32>),
    B(Vec<u8>),
}
impl Units {
    pub fn len(&self) -> usize {
        match self {
            Units::W(w) => w.len(),
            Units::B(b) => b.len(),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Units::W(w) => hex32(w),
            Units::B(b) => hex8(b),
        }
    }
}
pub fn parse_units(f: Form, u: &Units) -> Result<Sx, &'static str> {
    match (f, u) {
        (Form::U7, Units::W(w)) => parse_sysex7(w),
        (Form::U8, Units::W(w)) => parse_sysex8(w),
        (Form::B7, Units::B(b)) => parse_sysex7_bytes(b),
        _ => unreachable!(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Edit {
    Set,
    Insert(usize),
    Append,
    /// range and the way it is spelled
    Splice(usize, usize, u8),
    SetByte(usize, u8),
    AppendByte(u8),
}

pub trait SxObj {
    fn form(&self) -> Form;
    fn edit(&mut self, e: Edit, src: &SourceSpec, fallible: bool) -> Result<(), ()>;
    fn bytes(&self) -> Vec<u8>;
    fn len(&self) -> usize;
    fn units(&self) -> Units;
    fn grp(&self) -> u8;
    fn stm(&self) -> u8;
    fn put_group(&mut self, g: u8);
    fn put_stream(&mut self, s: u8);
    fn can_resize(&self) -> bool;
    fn can_try(&self) -> bool;
    fn reads(&self) -> Vec<u64>;
    /// everything a consumer can do with the message without changing it
    fn consume(&self) -> usize;
    /// the packets cut from the message (packet forms only)
    fn cut(&self) -> Vec<Vec<u32>>;
    fn iters(&self, c: &mut Ctx) -> R;
    fn touch(&self) -> u64;
}

type Rng = (Bound<usize>, Bound<usize>);
pub fn spell(lo: usize, hi: usize, len: usize, style: u8) -> Rng {
    let mut a = Bound::Included(lo);
    let mut b = Bound::Excluded(hi);
    if style & 1 != 0 && hi > 0 {
        b = Bound::Included(hi - 1);
    }
    if style & 2 != 0 && lo > 0 {
        a = Bound::Excluded(lo - 1);
    }
    if style & 4 != 0 && lo == 0 {
        a = Bound::Unbounded;
    }
    if style & 8 != 0 && hi == len {
        b = Bound::Unbounded;
    }
    (a, b)
}

macro_rules! touch_payload {
    ($s:ident) => {{
        let mut p = Sysex::payload($s);
        let mut h = ($s.payload_size() + p.len() + $s.data().len()) as u64;
        h += crate::iters::swirl(|| p.clone()) + crate::iters::print($s);
        h += p.clone().count() as u64 + p.size_hint().0 as u64;
        if let Some(b) = p.nth(2) {
            h += u8::from(b) as u64;
        }
        for b in p {
            h = h.wrapping_mul(31).wrapping_add(u8::from(b) as u64);
        }
        h
    }};
}
impl<B: midi2::buffer::Buffer<Unit = u32>> Msg<u32> for Sysex7<B> {
    fn kind(&self) -> &'static str {
        "sysex7::Sysex7"
    }
    fn readings(&self) -> Vec<u64> {
        let mut v = vec![u8::from(Grouped::group(self)) as u64, self.payload_size() as u64];
        v.extend(Sysex::payload(self).map(|b| u8::from(b) as u64));
        v
    }
    fn units(&self) -> &[u32] {
        self.data()
    }
    fn debug(&self) -> String {
        format!("{self:?}")
    }
    crate::packs_fn!(u32);
    fn touch(&self) -> u64 {
        touch_payload!(self) ^ crate::touch_packs!(u32, self)
    }
}
impl<B: midi2::buffer::Buffer<Unit = u8>> Msg<u8> for Sysex7<B> {
    fn kind(&self) -> &'static str {
        "sysex7::Sysex7"
    }
    fn readings(&self) -> Vec<u64> {
        let mut v = vec![self.payload_size() as u64];
        v.extend(Sysex::payload(self).map(|b| u8::from(b) as u64));
        v
    }
    fn units(&self) -> &[u8] {
        self.data()
    }
    fn debug(&self) -> String {
        format!("{self:?}")
    }
    crate::packs_fn!(u8);
    fn touch(&self) -> u64 {
        touch_payload!(self)
    }
}
impl<B: midi2::buffer::Buffer<Unit = u32>> Msg<u32> for Sysex8<B> {
    fn kind(&self) -> &'static str {
        "sysex8::Sysex8"
    }
    fn readings(&self) -> Vec<u64> {
        let mut v = vec![
            u8::from(Grouped::group(self)) as u64,
            self.stream_id() as u64,
            self.payload_size() as u64,
        ];
        v.extend(Sysex::payload(self).map(|b| b as u64));
        v
    }
    fn units(&self) -> &[u32] {
        self.data()
    }
    fn debug(&self) -> String {
        format!("{self:?}")
    }
    crate::packs_fn!(u32);
    fn touch(&self) -> u64 {
        touch_payload!(self) ^ crate::touch_packs!(u32, self)
    }
}

macro_rules! call {
    (inf, $m:ident, $e:ident, $it:expr, $n:ident, $conv:expr) => {
        match $e {
            Edit::Set => $m.set_payload($it),
            Edit::Insert(i) => $m.insert_payload($it, i),
            Edit::Append => $m.append_payload($it),
            Edit::Splice(a, b, st) => match st {
                0 => $m.splice_payload($it, a..b),
                1 if a < b => $m.splice_payload($it, a..=b - 1),
                2 if b == $n => $m.splice_payload($it, a..),
                3 if a == 0 => $m.splice_payload($it, ..b),
                4 if a == 0 && b == $n => $m.splice_payload($it, ..),
                st => $m.splice_payload($it, spell(a, b, $n, st)),
            },
            Edit::SetByte(i, b) => $m.set_byte($conv(b), i),
            Edit::AppendByte(b) => $m.append_byte($conv(b)),
        }
    };
    (try, $m:ident, $e:ident, $it:expr, $n:ident, $conv:expr) => {
        match $e {
            Edit::Set => $m.try_set_payload($it).map_err(|_| ()),
            Edit::Insert(i) => $m.try_insert_payload($it, i).map_err(|_| ()),
            Edit::Append => $m.try_append_payload($it).map_err(|_| ()),
            Edit::Splice(a, b, st) => match st {
                0 => $m.try_splice_payload($it, a..b),
                1 if a < b => $m.try_splice_payload($it, a..=b - 1),
                2 if b == $n => $m.try_splice_payload($it, a..),
                3 if a == 0 => $m.try_splice_payload($it, ..b),
                4 if a == 0 && b == $n => $m.try_splice_payload($it, ..),
                st => $m.try_splice_payload($it, spell(a, b, $n, st)),
            }
            .map_err(|_| ()),
            Edit::SetByte(i, b) => {
                $m.set_byte($conv(b), i);
                Ok(())
            }
            Edit::AppendByte(b) => $m.try_append_byte($conv(b)).map_err(|_| ()),
        }
    };
}
macro_rules! do_edit {
    (both, $s:ident, $e:ident, $src:ident, $f:ident, $conv:expr) => {{
        let n = if let Edit::Splice(..) = $e { $s.payload_size() } else { 0 };
        let it = $src.iter($conv);
        if $f {
            call!(try, $s, $e, it, n, $conv)
        } else {
            call!(inf, $s, $e, it, n, $conv);
            Ok(())
        }
    }};
    (inf, $s:ident, $e:ident, $src:ident, $f:ident, $conv:expr) => {{
        let _ = $f;
        let n = if let Edit::Splice(..) = $e { $s.payload_size() } else { 0 };
        let it = $src.iter($conv);
        call!(inf, $s, $e, it, n, $conv);
        Ok(())
    }};
    (try, $s:ident, $e:ident, $src:ident, $f:ident, $conv:expr) => {{
        let _ = $f;
        let n = if let Edit::Splice(..) = $e { $s.payload_size() } else { 0 };
        let it = $src.iter($conv);
        call!(try, $s, $e, it, n, $conv)
    }};
}
macro_rules! cap {
    (both) => { (true, true) };
    (inf) => { (true, false) };
    (try) => { (false, true) };
}
macro_rules! sx_impl {
    ($T:ident, $S:ty, $caps:ident, $form:expr, $conv:expr, $unconv:expr, $units:path, $grp:ident, $str:ident) => {
        impl SxObj for $T<$S> {
            fn form(&self) -> Form { $form }
            fn edit(&mut self, e: Edit, src: &SourceSpec, fallible: bool) -> Result<(), ()> {
                do_edit!($caps, self, e, src, fallible, $conv)
            }
            fn bytes(&self) -> Vec<u8> { Sysex::payload(self).map($unconv).collect() }
            fn len(&self) -> usize { Sysex::payload_size(self) }
            fn units(&self) -> Units { $units(self.data().to_vec()) }
            fn can_resize(&self) -> bool { cap!($caps).0 }
            fn can_try(&self) -> bool { cap!($caps).1 }
            fn reads(&self) -> Vec<u64> { Msg::readings(self) }
            fn touch(&self) -> u64 { Msg::touch(self) }
            fn consume(&self) -> usize { sx_impl!(@consume $grp self) }
            fn cut(&self) -> Vec<Vec<u32>> { sx_impl!(@cut $grp self) }
            fn iters(&self, c: &mut Ctx) -> R {
                crate::iters::check_iter(c, concat!("payload of ", sx_impl!(@name $grp $str)), &|| Sysex::payload(self),
                    Some(|i| i.clone()), sx_impl!(@len $grp))?;
                sx_impl!(@packets $grp $str self c)
            }
            sx_impl!(@grp $grp);
            sx_impl!(@str $str);
        }
    };
    (@consume yes $s:ident) => { $s.packets().map(|p| p.len()).sum::<usize>() + $s.data().len() };
    (@consume no $s:ident) => { $s.data().len() };
    (@cut yes $s:ident) => { $s.packets().map(|p| p.to_vec()).collect() };
    (@cut no $s:ident) => { vec![] };
    (@len $g:ident) => { Some(|i| i.len()) };
    (@name yes yes) => { "sysex8" };
    (@name yes no) => { "sysex7" };
    (@name no no) => { "sysex7 bytes" };
    (@packets yes $st:ident $s:ident $c:ident) => {{
        let n = lib!($s.data().len());
        crate::iters::packets($c, concat!("packets of ", sx_impl!(@name yes $st)), &|| $s.packets(), n)
    }};
    (@packets no $st:ident $s:ident $c:ident) => { { let _ = $c; Ok(()) } };
    (@grp yes) => {
        fn grp(&self) -> u8 { u8::from(Grouped::group(self)) }
        fn put_group(&mut self, g: u8) { Grouped::set_group(self, u4::new(g)) }
    };
    (@grp no) => {
        fn grp(&self) -> u8 { 0 }
        fn put_group(&mut self, _g: u8) {}
    };
    (@str yes) => {
        fn stm(&self) -> u8 { self.stream_id() }
        fn put_stream(&mut self, s: u8) { self.set_stream_id(s) }
    };
    (@str no) => {
        fn stm(&self) -> u8 { 0 }
        fn put_stream(&mut self, _s: u8) {}
    };
}
fn to7(b: u8) -> u7 {
    u7::new(b & 0x7F)
}
fn id8(b: u8) -> u8 {
    b
}
macro_rules! sx_all {
    ($T:ident, $U:ident, $form:expr, $conv:expr, $unconv:expr, $units:path, $g:ident, $s:ident, [$($n:expr),*]) => {
        sx_impl!($T, Heap<$U>, inf, $form, $conv, $unconv, $units, $g, $s);
        sx_impl!($T, &mut Heap<$U>, inf, $form, $conv, $unconv, $units, $g, $s);
        sx_impl!($T, SimBuf<$U>, both, $form, $conv, $unconv, $units, $g, $s);
        sx_impl!($T, &mut [$U], try, $form, $conv, $unconv, $units, $g, $s);
        $(sx_impl!($T, [$U; $n], try, $form, $conv, $unconv, $units, $g, $s);)*
    };
}
sx_all!(Sysex7, u32, Form::U7, to7, u8::from, Units::W, yes, no, [2, 8, 40]);
sx_all!(Sysex7, u8, Form::B7, to7, u8::from, Units::B, no, no, [5, 16, 120]);
sx_all!(Sysex8, u32, Form::U8, id8, id8, Units::W, yes, yes, [4, 16, 64]);

/// Where a message lives.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    Vec,
    VecRef(u64),
    Exact(usize, u64),
    Fixed(usize, u64),
    Grain(usize, u64),
    Slice(usize, u64),
    /// 0, 1, 2: small, middle, large array
    Arr(u8),
}
impl Place {
    /// None: no limit
    pub fn cap(self, f: Form) -> Option<usize> {
        match self {
            Place::Vec | Place::VecRef(_) => None,
            Place::Exact(c, _) | Place::Fixed(c, _) | Place::Grain(c, _) | Place::Slice(c, _) => Some(c),
            Place::Arr(i) => Some(match f {
                Form::U7 => [2, 8, 40],
                Form::B7 => [5, 16, 120],
                Form::U8 => [4, 16, 64],
            }[i as usize]),
        }
    }
    pub fn dirty(c: &mut Ctx) -> u64 {
        match c.s.draw(4) {
            3 => 3 + c.s.draw(1 << 20),
            d => d,
        }
    }
    /// Any storage that holds at least `min` units; `room`: how much beyond what a payload of
    /// `max_payload` needs may be offered.
    pub fn draw(c: &mut Ctx, f: Form, min: usize, max: usize) -> Place {
        let d = Place::dirty(c);
        let n = c.s.range(min, max.max(min));
        match c.s.draw(8) {
            0 => Place::Vec,
            1 => Place::VecRef(d),
            2 | 3 => Place::Exact(n, d),
            4 => Place::Fixed(n, d),
            5 => Place::Grain(n, d),
            6 => Place::Slice(n, d),
            _ => {
                let i = c.s.draw(3) as u8;
                if Place::Arr(i).cap(f).unwrap() >= min {
                    Place::Arr(i)
                } else {
                    Place::Fixed(n, d)
                }
            }
        }
    }
}

/// How the message comes into being.
#[derive(Clone, Debug)]
pub enum Origin {
    New,
    /// received units, and how many junk units follow it in the receive buffer
    Recv(Units),
}

fn dirt32(d: u64, n: usize) -> Vec<u32> {
    SimBuf::<u32>::fixed(n, d).raw()
}
fn dirt8(d: u64, n: usize) -> Vec<u8> {
    SimBuf::<u8>::fixed(n, d).raw()
}

pub type Body<'b> = &'b mut dyn FnMut(&mut Ctx, &mut dyn SxObj, Option<Rc<crate::simbuf::Ctl>>) -> R;

/// Build the message in its place and run `f` on it. Err(None): the place refused the message.
pub fn with_sx(c: &mut Ctx, f: Form, place: Place, origin: &Origin, body: Body) -> R<bool> {
    macro_rules! go {
        ($T:ident, $U:ident, $dirt:ident, $src:ident, [$a0:expr, $a1:expr, $a2:expr]) => {{
            // received: parsed from the wire and moved into its place
            let recv: Option<&[$U]> = $src;
            if let Some(w) = recv {
                let m = match lib!($T::try_from(w)) {
                    Ok(m) => m,
                    Err(e) => crate::fail!("rejects a well-formed message", "{} {}: {e:?}", f.name(), hexu(w)),
                };
                macro_rules! arr { ($n:expr) => {
                    match lib!(TryRebufferInto::<$T<[$U; $n]>>::try_rebuffer_into(m)) {
                        Ok(mut m) => { body(c, &mut m, None)?; Ok(true) }
                        Err(_) => Ok(false),
                    }
                } }
                match place {
                    Place::Vec | Place::VecRef(_) => {
                        let mut m: $T<Heap<$U>> = lib!(m.rebuffer_into());
                        body(c, &mut m, None)?;
                        Ok(true)
                    }
                    Place::Exact(cap, d) | Place::Fixed(cap, d) | Place::Grain(cap, d) | Place::Slice(cap, d) => {
                        crate::simbuf::set_landing(cap, matches!(place, Place::Fixed(..) | Place::Slice(..)), d);
                        match lib!(TryRebufferInto::<$T<SimBuf<$U>>>::try_rebuffer_into(m)) {
                            Ok(mut m) => {
                                let ctl = crate::simbuf::last_ctl();
                                body(c, &mut m, ctl)?;
                                Ok(true)
                            }
                            Err(_) => Ok(false),
                        }
                    }
                    Place::Arr(0) => arr!($a0),
                    Place::Arr(1) => arr!($a1),
                    Place::Arr(_) => arr!($a2),
                }
            } else {
                match place {
                    Place::Vec => {
                        let mut m = lib!($T::<Heap<$U>>::new());
                        body(c, &mut m, None)?;
                        Ok(true)
                    }
                    Place::VecRef(d) => {
                        let mut v = heap($dirt(d, (d % 23) as usize));
                        let mut m = lib!($T::new_with_buffer(&mut v));
                        body(c, &mut m, None)?;
                        Ok(true)
                    }
                    Place::Exact(cap, d) | Place::Fixed(cap, d) | Place::Grain(cap, d) => {
                        let b = match place {
                            Place::Exact(..) => SimBuf::<$U>::exact(cap, d),
                            Place::Fixed(..) => SimBuf::fixed(cap, d),
                            _ => SimBuf::grain(cap, d),
                        };
                        let ctl = b.ctl.clone();
                        match lib!($T::try_new_with_buffer(b)) {
                            Ok(mut m) => { body(c, &mut m, Some(ctl))?; Ok(true) }
                            Err(_) => Ok(false),
                        }
                    }
                    Place::Slice(cap, d) => {
                        let mut v = $dirt(d, cap);
                        match lib!($T::try_new_with_buffer(&mut v[..])) {
                            Ok(mut m) => { body(c, &mut m, None)?; Ok(true) }
                            Err(_) => Ok(false),
                        }
                    }
                    Place::Arr(0) => { let mut m = lib!($T::<[$U; $a0]>::new()); body(c, &mut m, None)?; Ok(true) }
                    Place::Arr(1) => { let mut m = lib!($T::<[$U; $a1]>::new()); body(c, &mut m, None)?; Ok(true) }
                    Place::Arr(_) => { let mut m = lib!($T::<[$U; $a2]>::new()); body(c, &mut m, None)?; Ok(true) }
                }
            }
        }};
    }
    let (w, b) = match origin {
        Origin::New => (None, None),
        Origin::Recv(Units::W(w)) => (Some(&w[..]), None),
        Origin::Recv(Units::B(b)) => (None, Some(&b[..])),
    };
    match f {
        Form::U7 => go!(Sysex7, u32, dirt32, w, [2, 8, 40]),
        Form::U8 => go!(Sysex8, u32, dirt32, w, [4, 16, 64]),
        Form::B7 => go!(Sysex7, u8, dirt8, b, [5, 16, 120]),
    }
}
fn hexu<U: crate::simbuf::SimUnit>(u: &[U]) -> String {
    u.iter().take(40).map(|x| format!("{:x}", x.to_u64())).collect::<Vec<_>>().join(" ")
}

/// Any packing of a payload that the wire format allows.
pub fn draw_packing(c: &mut Ctx, len: usize, cap: usize) -> Vec<usize> {
    if !c.s.chance(2, 3) {
        return split(len, cap);
    }
    let mut left = len;
    let mut v = Vec::new();
    loop {
        let k = match c.s.draw(4) {
            0 => cap.min(left),
            1 => 0,
            _ => c.s.range(0, cap).min(left),
        };
        v.push(k);
        left -= k;
        if left == 0 && (v.len() > 40 || !c.s.chance(1, 4)) {
            return v;
        }
        if v.len() > 40 {
            v.extend(split(left, cap));
            return v;
        }
    }
}

/// A received message: (payload, group, stream, wire units)
pub fn draw_recv(c: &mut Ctx, f: Form, max: usize) -> (Vec<u8>, u8, u8, Units) {
    let payload = SourceSpec::draw_bytes(c, max, f.cap(), f.seven());
    let g = c.s.draw(16) as u8;
    let st = c.s.u8();
    match f {
        Form::U7 => {
            let sizes = draw_packing(c, payload.len(), 6);
            let w = build_sysex7(g, &payload, &sizes);
            (payload, g, 0, Units::W(w))
        }
        Form::U8 => {
            let sizes = draw_packing(c, payload.len(), 13);
            let w = build_sysex8(g, st, &payload, &sizes);
            (payload, g, st, Units::W(w))
        }
        Form::B7 => {
            let b = build_sysex7_bytes(&payload);
            (payload, 0, 0, Units::B(b))
        }
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub bytes: Vec<u8>,
    pub group: u8,
    pub stream: u8,
}

pub fn apply(m: &mut Vec<u8>, e: Edit, src: &[u8]) {
    match e {
        Edit::Set => *m = src.to_vec(),
        Edit::Insert(i) => {
            m.splice(i..i, src.iter().copied());
        }
        Edit::Append => m.extend_from_slice(src),
        Edit::Splice(a, b, _) => {
            m.splice(a..b, src.iter().copied());
        }
        Edit::SetByte(i, b) => m[i] = b,
        Edit::AppendByte(b) => m.push(b),
    }
}

pub fn draw_edit(c: &mut Ctx, f: Form, len: usize, max: usize) -> (Edit, SourceSpec) {
    let e = match c.s.draw(8) {
        0 => Edit::Set,
        1 => Edit::Append,
        2 => Edit::Insert(c.s.range(0, len)),
        3 | 4 | 5 => {
            let a = c.s.range(0, len);
            let b = match c.s.draw(4) {
                0 => a,
                1 => len,
                2 => (a + c.s.range(0, f.cap() + 1)).min(len),
                _ => c.s.range(a, len),
            };
            Edit::Splice(a, b, c.s.draw(16) as u8)
        }
        6 if len > 0 => {
            let b = if f.seven() { c.s.u7() } else { c.s.u8() };
            Edit::SetByte(c.s.range(0, len - 1), b)
        }
        _ => Edit::AppendByte(if f.seven() { c.s.u7() } else { c.s.u8() }),
    };
    let src = match e {
        Edit::SetByte(..) | Edit::AppendByte(_) => {
            SourceSpec { bytes: vec![], lower_slack: 0, upper_slack: Some(0), cut_at: None }
        }
        _ => SourceSpec::draw(c, max, f.cap(), f.seven()),
    };
    (e, src)
}

/// The payload reads back as the byte list.
pub fn check_payload(c: &mut Ctx, o: &dyn SxObj, m: &Model, when: &str) -> R {
    let f = o.form();
    let n = lib!(o.len());
    ensure!(
        n == m.bytes.len(),
        format!("{}: payload size differs from the byte list", f.name()),
        "{when}: payload_size() = {n}, byte list has {}",
        m.bytes.len()
    );
    let p = lib!(o.bytes());
    ensure!(
        p == m.bytes,
        format!("{}: payload differs from the byte list", f.name()),
        "{when}: payload {} expected {} data {}",
        hex8(&p),
        hex8(&m.bytes),
        lib!(o.units()).show()
    );
    c.ev(p.len() as u64);
    tr!(c, "   -> {} bytes {}", p.len(), hex8(&p));
    Ok(())
}

/// Every packet carries the current addressing and the right position marker.
pub fn check_addr(c: &mut Ctx, o: &dyn SxObj, group: u8, stream: u8, when: &str) -> R {
    let f = o.form();
    let u = lib!(o.units());
    tr!(c, "   -> {}", u.show());
    let w = match &u {
        Units::B(b) => {
            // the byte form's position markers are its first and last byte
            ensure!(
                b.len() >= 2 && b[0] == 0xF0 && b[b.len() - 1] == 0xF7 && b[1..b.len() - 1].iter().all(|x| *x < 0x80),
                "sysex7 bytes: message not delimited",
                "{when}: {}",
                u.show()
            );
            return Ok(());
        }
        Units::W(w) => w,
    };
    let stride = if f == Form::U7 { 2 } else { 4 };
    ensure!(
        !w.is_empty() && w.len() % stride == 0,
        format!("{}: not whole packets", f.name()),
        "{when}: {}",
        u.show()
    );
    let n = w.len() / stride;
    for (i, p) in w.chunks(stride).enumerate() {
        let want = if n == 1 { 0 } else if i == 0 { 1 } else if i == n - 1 { 3 } else { 2 };
        ensure!(
            nib(p[0], 0) == if f == Form::U7 { 3 } else { 5 },
            format!("{}: message type lost", f.name()),
            "{when}: packet {i} {}",
            u.show()
        );
        ensure!(
            nib(p[0], 2) == want,
            format!("{}: wrong position marker", f.name()),
            "{when}: packet {i} of {n} {}",
            u.show()
        );
        ensure!(
            nib(p[0], 1) == group,
            format!("{}: packet without the current group", f.name()),
            "{when}: packet {i} of {n} expected group {group}: {}",
            u.show()
        );
        ensure!(
            f != Form::U8 || oct(p[0], 2) == stream,
            "sysex8 packets: packet without the current stream identifier",
            "{when}: packet {i} of {n} expected stream {stream:#x}: {}",
            u.show()
        );
    }
    ensure!(
        lib!(o.grp()) == group,
        format!("{}: group reads back another value", f.name()),
        "{when}: expected {group}"
    );
    ensure!(
        f != Form::U8 || lib!(o.stm()) == stream,
        "sysex8 packets: stream identifier reads back another value",
        "{when}: expected {stream} got {}",
        o.stm()
    );
    c.ev(n as u64);
    Ok(())
}

/// Well-formedness: readable, header as expected, own data decodes and is accepted as an equal message.
pub fn check_wire(c: &mut Ctx, o: &dyn SxObj, m: Option<&Model>, group: u8, stream: u8, when: &str) -> R {
    let f = o.form();
    let u = lib!(o.units());
    let p = lib!(o.bytes());
    let _ = lib!(o.consume());
    let sx = match parse_units(f, &u) {
        Ok(s) => s,
        Err(e) => crate::fail!(
            format!("{}: message not well formed ({e})", f.name()),
            "{when}: data {}",
            u.show()
        ),
    };
    if f == Form::B7 {
        ensure!(
            u.len() == sx.payload.len() + 2,
            "sysex7 bytes: data does not end at the end byte",
            "{when}: data {}",
            u.show()
        );
    }
    ensure!(
        sx.payload == p,
        format!("{}: packets do not carry the payload", f.name()),
        "{when}: data {} payload() {}",
        u.show(),
        hex8(&p)
    );
    if let Some(m) = m {
        ensure!(
            sx.payload == m.bytes,
            format!("{}: packets do not carry the payload", f.name()),
            "{when}: data {} expected {}",
            u.show(),
            hex8(&m.bytes)
        );
    }
    if f != Form::B7 {
        ensure!(
            sx.group == group && lib!(o.grp()) == group,
            format!("{}: group changed", f.name()),
            "{when}: expected group {group}, packets {} reading {}",
            sx.group,
            o.grp()
        );
    }
    if f == Form::U8 {
        ensure!(
            sx.stream == Some(stream) && lib!(o.stm()) == stream,
            "sysex8 packets: stream identifier changed",
            "{when}: expected stream {stream}, packets {:?} reading {}",
            sx.stream,
            o.stm()
        );
    }
    let own = lib!(o.reads());
    let again: Option<Vec<u64>> = match &u {
        Units::W(w) if f == Form::U7 => lib!(Sysex7::try_from(&w[..])).ok().map(|m| lib!(Msg::readings(&m))),
        Units::W(w) => lib!(Sysex8::try_from(&w[..])).ok().map(|m| lib!(Msg::readings(&m))),
        Units::B(b) => lib!(Sysex7::try_from(&b[..])).ok().map(|m| lib!(Msg::readings(&m))),
    };
    match again {
        None => crate::fail!(
            format!("{}: own data rejected by the parser", f.name()),
            "{when}: data {}",
            u.show()
        ),
        Some(r) => ensure!(
            r == own,
            format!("{}: own data parses as another message", f.name()),
            "{when}: data {} readings {:?} expected {:?}",
            u.show(),
            &r[..r.len().min(20)],
            &own[..own.len().min(20)]
        ),
    }
    c.ev(p.len() as u64);
    c.ev(u.len() as u64);
    tr!(c, "   -> {} bytes in {} units {}", p.len(), u.len(), u.show());
    Ok(())
}

/// Moves and comparison for received sysex messages.
pub mod m7 {
    use super::*;
    use crate::kinds::{Hop, To};
    use crate::simbuf::set_landing;
    use midi2::error::{BufferOverflow, InvalidData};
    crate::moves_impl!(Sysex7, u32, 6, 40);
    crate::moves_out_impl!(Sysex7, u32, 40, |m: &mut Sysex7<&mut [u32]>, f: &crate::kinds::Fill| {
        Sysex::try_set_payload(m, f.bytes.iter().map(|b| midi2::ux::u7::new(*b))).is_ok() && {
            Grouped::set_group(m, u4::new(f.group)); true
        }
    });
}
pub mod m8 {
    use super::*;
    use crate::kinds::{Hop, To};
    use crate::simbuf::set_landing;
    use midi2::error::{BufferOverflow, InvalidData};
    crate::moves_impl!(Sysex8, u32, 8, 40);
    crate::moves_out_impl!(Sysex8, u32, 40, |m: &mut Sysex8<&mut [u32]>, f: &crate::kinds::Fill| {
        Sysex::try_set_payload(m, f.bytes.iter().copied()).is_ok() && {
            Grouped::set_group(m, u4::new(f.group)); m.set_stream_id(f.other); true
        }
    });
}
pub mod mb {
    use super::*;
    use crate::kinds::{Hop, To};
    use crate::simbuf::set_landing;
    use midi2::error::{BufferOverflow, InvalidData};
    crate::moves_impl!(Sysex7, u8, 9, 60);
    crate::moves_out_impl!(Sysex7, u8, 60, |m: &mut Sysex7<&mut [u8]>, f: &crate::kinds::Fill| {
        Sysex::try_set_payload(m, f.bytes.iter().map(|b| midi2::ux::u7::new(*b))).is_ok() && {
            true
        }
    });
}

/// Conversions of received sysex7 messages between the forms.
pub mod conv7 {
    use super::*;
    use crate::kinds::{Conv, Hop};
    use midi2::error::InvalidData;
    use midi2::buffer::Buffer;
    pub const BYTES: (usize, usize) = (9, 60);
    pub const WORDS: (usize, usize) = (5, 24);
    fn ob<B: Buffer<Unit = u8>>(m: Sysex7<B>) -> Hop<u8> {
        Hop::Ok(lib!(m.units().to_vec()), lib!(Msg::<u8>::readings(&m)))
    }
    fn ou<B: Buffer<Unit = u32>>(m: Sysex7<B>) -> Hop<u32> {
        Hop::Ok(lib!(m.units().to_vec()), lib!(Msg::<u32>::readings(&m)))
    }
    pub fn to_bytes(src: &[u32], to: Conv) -> Result<Hop<u8>, InvalidData> {
        let m = lib!(Sysex7::try_from(src))?;
        Ok(match to {
            Conv::Vec => ob::<Heap<u8>>(lib!(m.into_bytes())),
            Conv::Arr | Conv::ArrBig => Hop::Skip,
            Conv::TryArr => lib!(m.try_into_bytes()).map_or(Hop::Overflow, ob::<[u8; 9]>),
            Conv::TryArrBig => lib!(m.try_into_bytes()).map_or(Hop::Overflow, ob::<[u8; 60]>),
            Conv::TrySim(cap, fixed) => {
                crate::simbuf::set_default(cap, fixed);
                lib!(m.try_into_bytes()).map_or(Hop::Overflow, ob::<SimBuf<u8>>)
            }
        })
    }
    pub fn to_ump(src: &[u8], to: Conv) -> Result<Hop<u32>, InvalidData> {
        let m = lib!(Sysex7::try_from(src))?;
        Ok(match to {
            Conv::Vec => ou::<Heap<u32>>(lib!(m.into_ump())),
            Conv::Arr | Conv::ArrBig => Hop::Skip,
            Conv::TryArr => lib!(m.try_into_ump()).map_or(Hop::Overflow, ou::<[u32; 5]>),
            Conv::TryArrBig => lib!(m.try_into_ump()).map_or(Hop::Overflow, ou::<[u32; 24]>),
            Conv::TrySim(cap, fixed) => {
                crate::simbuf::set_default(cap, fixed);
                lib!(m.try_into_ump()).map_or(Hop::Overflow, ou::<SimBuf<u32>>)
            }
        })
    }
}
