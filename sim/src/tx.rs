//! Text messages (flex data text, stream names and identifiers) of every storage behind one driver.
use crate::heap::{heap, Heap};
use crate::engine::{Ctx, R};
use crate::kinds::Msg;
use crate::simbuf::{Ctl, SimBuf};
use crate::sx::Place;
use crate::wire::*;
use crate::{ensure, lib, tr};
use midi2::buffer::Buffer;
use midi2::error::InvalidData;
use midi2::ux::*;
use midi2::*;
use std::rc::Rc;

pub trait TxtObj {
    fn write(&mut self, t: &str, fallible: bool) -> Result<(), ()>;
    fn text(&self) -> String;
    fn tbytes(&self) -> Vec<u8>;
    fn words(&self) -> Vec<u32>;
    fn grp(&self) -> u8;
    fn put_group(&mut self, g: u8);
    /// None: not addressed to a channel
    fn chan(&self) -> Option<u8>;
    fn put_chan(&mut self, ch: Option<u8>);
    fn fb(&self) -> u8;
    fn put_fb(&mut self, fb: u8);
    fn can_resize(&self) -> bool;
    fn can_try(&self) -> bool;
    fn reads(&self) -> Vec<u64>;
    /// the packets cut from the message
    fn cut(&self) -> Vec<Vec<u32>>;
    fn iters(&self, c: &mut Ctx) -> R;
    fn touch(&self) -> u64;
}

pub type TBody<'b> = &'b mut dyn FnMut(&mut Ctx, &mut dyn TxtObj, Option<Rc<Ctl>>) -> R;

pub struct TxtKind {
    pub name: &'static str,
    pub stream: bool,
    pub fb: bool,
    pub bank: u8,
    pub status: u16,
    /// text bytes per packet
    pub cap: usize,
    pub with: fn(&mut Ctx, Place, Option<&[u32]>, TBody) -> R<bool>,
    /// parse: readings and data
    pub parse: fn(&[u32]) -> Result<(Vec<u64>, Vec<u32>), InvalidData>,
    /// received into storage without a heap
    pub quiet: fn(&[u32]) -> R,
    pub msg: for<'a> fn(&'a [u32]) -> Result<Box<dyn Msg<u32> + 'a>, InvalidData>,
    /// parse and use everything of it
    pub consume: fn(&mut Ctx, &[u32]) -> Option<R>,
    /// two received messages compare equal
    pub same: fn(&[u32], &[u32]) -> Result<bool, InvalidData>,
    pub moves: fn(&[u32], &[crate::kinds::To]) -> Result<Vec<crate::kinds::Hop<u32>>, InvalidData>,
    pub moves_out: fn(&mut [u32], &crate::kinds::Fill, &[crate::kinds::To]) -> Option<crate::kinds::MovedOut<u32>>,
}

impl TxtKind {
    pub fn words(&self, text: usize) -> usize {
        4 * split(text, self.cap).len()
    }
    pub fn build(&self, m: &TModel) -> Vec<u32> {
        if self.stream {
            build_stream_text(self.status, if self.fb { Some(m.fb) } else { None }, m.text.as_bytes())
        } else {
            build_flex_text(m.group, m.channel, self.bank, self.status as u8, m.text.as_bytes())
        }
    }
    pub fn decode(&self, w: &[u32]) -> Result<Txt, &'static str> {
        if self.stream {
            parse_stream_text(w, self.status, self.fb)
        } else {
            parse_flex_text(w, self.bank, self.status as u8)
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct TModel {
    pub text: String,
    pub group: u8,
    pub channel: Option<u8>,
    pub fb: u8,
}

/// text of `max` bytes at most, no NUL, biased to packet boundaries and multi-byte characters
pub fn draw_text(c: &mut Ctx, max: usize, boundary: usize) -> String {
    let n = c.len(max, boundary);
    let style = c.s.draw(4);
    let mut s = String::new();
    let mut i = 0u32;
    while s.len() < n {
        let left = n - s.len();
        let ch = match style {
            0 => (b'a' + (i % 26) as u8) as char,
            1 => *c.s.pick(&['x', '\u{e9}', '\u{20ac}', '\u{1f50a}', ' ']),
            2 => (1 + c.s.draw(126) as u8) as char,
            _ => *c.s.pick(&['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{1}']),
        };
        if ch.len_utf8() <= left {
            s.push(ch);
        } else {
            s.push('~');
        }
        i += 1;
    }
    s
}

pub fn draw_model(c: &mut Ctx, k: &TxtKind, max: usize) -> TModel {
    TModel {
        text: draw_text(c, max, k.cap),
        group: if k.stream { 0 } else { c.s.draw(16) as u8 },
        channel: if !k.stream && c.s.chance(1, 2) { Some(c.s.draw(16) as u8) } else { None },
        fb: if k.fb { c.s.u8() } else { 0 },
    }
}

macro_rules! w_edit {
    (inf, $s:ident, $t:ident, $f:ident, $set:ident, $try:ident) => {{ let _ = $f; $s.$set($t); Ok(()) }};
    (try, $s:ident, $t:ident, $f:ident, $set:ident, $try:ident) => {{ let _ = $f; $s.$try($t).map_err(|_| ()) }};
    (both, $s:ident, $t:ident, $f:ident, $set:ident, $try:ident) => {
        if $f { $s.$try($t).map_err(|_| ()) } else { $s.$set($t); Ok(()) }
    };
}
macro_rules! cap {
    (both) => { (true, true) };
    (inf) => { (true, false) };
    (try) => { (false, true) };
}
macro_rules! tx_impl {
    ($T:ident, $S:ty, $caps:ident, $fam:ident, $get:ident, $set:ident, $try:ident, $bytes:ident) => {
        impl TxtObj for $T<$S> {
            fn write(&mut self, t: &str, f: bool) -> Result<(), ()> { w_edit!($caps, self, t, f, $set, $try) }
            fn text(&self) -> String { text_of!(self, $get, $bytes) }
            fn tbytes(&self) -> Vec<u8> { self.$bytes().collect() }
            fn words(&self) -> Vec<u32> { self.data().to_vec() }
            fn can_resize(&self) -> bool { cap!($caps).0 }
            fn can_try(&self) -> bool { cap!($caps).1 }
            fn reads(&self) -> Vec<u64> { Msg::readings(self) }
            fn touch(&self) -> u64 { Msg::touch(self) }
            fn cut(&self) -> Vec<Vec<u32>> { self.packets().map(|p| p.to_vec()).collect() }
            fn iters(&self, c: &mut Ctx) -> R {
                let n = lib!(self.data().len());
                crate::iters::check_iter(c, concat!("text bytes of ", bytes_name!($fam)), &|| self.$bytes(), None, None)?;
                crate::iters::packets(c, concat!("packets of ", bytes_name!($fam)), &|| self.packets(), n)
            }
            tx_hdr!($fam);
        }
    };
}
/// The text as a string; where there are no strings, its octets taken for one.
#[cfg(feature = "std")]
macro_rules! text_of {
    ($s:ident, $get:ident, $bytes:ident) => { $s.$get() };
}
#[cfg(not(feature = "std"))]
macro_rules! text_of {
    ($s:ident, $get:ident, $bytes:ident) => {
        String::from_utf8_lossy(&$s.$bytes().collect::<Vec<u8>>()).into_owned()
    };
}
macro_rules! bytes_name {
    (flex) => { "flex data text" };
    (stream) => { "stream text" };
    (fb) => { "function block name" };
}
macro_rules! tx_hdr {
    (flex) => {
        fn grp(&self) -> u8 { u8::from(Grouped::group(self)) }
        fn put_group(&mut self, g: u8) { Grouped::set_group(self, u4::new(g)) }
        fn chan(&self) -> Option<u8> { self.optional_channel().map(u8::from) }
        fn put_chan(&mut self, ch: Option<u8>) { self.set_optional_channel(ch.map(u4::new)) }
        fn fb(&self) -> u8 { 0 }
        fn put_fb(&mut self, _: u8) {}
    };
    (stream) => {
        fn grp(&self) -> u8 { 0 }
        fn put_group(&mut self, _: u8) {}
        fn chan(&self) -> Option<u8> { None }
        fn put_chan(&mut self, _: Option<u8>) {}
        fn fb(&self) -> u8 { 0 }
        fn put_fb(&mut self, _: u8) {}
    };
    (fb) => {
        fn grp(&self) -> u8 { 0 }
        fn put_group(&mut self, _: u8) {}
        fn chan(&self) -> Option<u8> { None }
        fn put_chan(&mut self, _: Option<u8>) {}
        fn fb(&self) -> u8 { self.function_block() }
        fn put_fb(&mut self, v: u8) { self.set_function_block(v) }
    };
}
macro_rules! msg_hdr {
    (flex, $s:ident) => { vec![u8::from(Grouped::group($s)) as u64, $s.optional_channel().map(|x| u8::from(x) as u64).unwrap_or(0x10)] };
    (stream, $s:ident) => { vec![] };
    (fb, $s:ident) => { vec![$s.function_block() as u64] };
}

fn dirt32(d: u64, n: usize) -> Vec<u32> {
    SimBuf::<u32>::fixed(n, d).raw()
}

macro_rules! tx_kind {
    ($m:ident, $name:expr, ($($p:tt)*), $fam:ident, $bank:expr, $status:expr, $cap:expr,
     $get:ident, $set:ident, $try:ident, $bytes:ident) => {
        mod $m {
            use super::*;
            use $($p)* as T;
            impl<B: Buffer<Unit = u32>> Msg<u32> for T<B> {
                fn kind(&self) -> &'static str { $name }
                fn readings(&self) -> Vec<u64> {
                    #[allow(unused_mut)]
                    let mut v: Vec<u64> = msg_hdr!($fam, self);
                    v.extend(self.$bytes().map(|b| b as u64));
                    v.push(text_of!(self, $get, $bytes).len() as u64);
                    v
                }
                fn units(&self) -> &[u32] { self.data() }
                fn debug(&self) -> String { format!("{self:?}") }
                crate::packs_fn!(u32);
                fn touch(&self) -> u64 {
                    let i = self.$bytes();
                    let mut h = self.data().len() as u64 + i.size_hint().0 as u64;
                    h += crate::iters::swirl(|| self.$bytes()) + crate::iters::print(self);
                    for b in i { h = h.wrapping_mul(31).wrapping_add(b as u64); }
                    h ^ crate::touch_packs!(u32, self)
                }
            }
            fn quiet(src: &[u32]) -> R {
                let Ok(m) = crate::quiet!(format_args!("{} parser", $name), T::try_from(src)) else { return Ok(()) };
                crate::quiet!(format_args!("{} reading", $name), Msg::touch(&m));
                crate::quiet!(format_args!("{} equality", $name), m == m.clone());
                if let Ok(a) = crate::quiet!(format_args!("{} move", $name), TryRebufferInto::<T<[u32; 8]>>::try_rebuffer_into(m.clone())) {
                    crate::quiet!(format_args!("{} reading", $name), Msg::touch(&a));
                }
                if m.data().len() <= 40 {
                    let a: T<[u32; 40]> = crate::quiet!(format_args!("{} move", $name), m.array_rebuffer_into());
                    crate::quiet!(format_args!("{} reading", $name), Msg::touch(&a));
                }
                crate::quiet!(format_args!("{} new", $name), Msg::touch(&T::<[u32; 8]>::new()));
                Ok(())
            }
            use crate::kinds::{Hop, To};
            use crate::simbuf::set_landing;
            use midi2::error::BufferOverflow;
            crate::moves_impl!(T, u32, 8, 40);
            crate::moves_out_impl!(T, u32, 40, |m: &mut T<&mut [u32]>, f: &crate::kinds::Fill| {
                m.$try(&f.text).is_ok() && {
                    m.put_group(f.group);
                    m.put_chan(f.channel);
                    m.put_fb(f.other);
                    true
                }
            });
            tx_impl!(T, Heap<u32>, inf, $fam, $get, $set, $try, $bytes);
            tx_impl!(T, &mut Heap<u32>, inf, $fam, $get, $set, $try, $bytes);
            tx_impl!(T, SimBuf<u32>, both, $fam, $get, $set, $try, $bytes);
            tx_impl!(T, &mut [u32], try, $fam, $get, $set, $try, $bytes);
            tx_impl!(T, [u32; 8], try, $fam, $get, $set, $try, $bytes);
            tx_impl!(T, [u32; 41], try, $fam, $get, $set, $try, $bytes);
            fn with(c: &mut Ctx, place: Place, recv: Option<&[u32]>, body: TBody) -> R<bool> {
                if let Some(w) = recv {
                    let m = match lib!(T::try_from(w)) {
                        Ok(m) => m,
                        Err(e) => crate::fail!("rejects a well-formed message", "{} {}: {e:?}", $name, hex32(w)),
                    };
                    return match place {
                        Place::Vec | Place::VecRef(_) => {
                            let mut m: T<Heap<u32>> = lib!(m.rebuffer_into());
                            body(c, &mut m, None)?;
                            Ok(true)
                        }
                        Place::Exact(cap, d) | Place::Fixed(cap, d) | Place::Grain(cap, d) | Place::Slice(cap, d) => {
                            set_landing(cap, matches!(place, Place::Fixed(..) | Place::Slice(..)), d);
                            match lib!(TryRebufferInto::<T<SimBuf<u32>>>::try_rebuffer_into(m)) {
                                Ok(mut m) => {
                                    let ctl = crate::simbuf::last_ctl();
                                    body(c, &mut m, ctl)?;
                                    Ok(true)
                                }
                                Err(_) => Ok(false),
                            }
                        }
                        Place::Arr(0) => match lib!(TryRebufferInto::<T<[u32; 8]>>::try_rebuffer_into(m)) {
                            Ok(mut m) => { body(c, &mut m, None)?; Ok(true) }
                            Err(_) => Ok(false),
                        },
                        Place::Arr(_) => match lib!(TryRebufferInto::<T<[u32; 41]>>::try_rebuffer_into(m)) {
                            Ok(mut m) => { body(c, &mut m, None)?; Ok(true) }
                            Err(_) => Ok(false),
                        },
                    };
                }
                match place {
                    Place::Vec => {
                        let mut m = lib!(T::<Heap<u32>>::new());
                        body(c, &mut m, None)?;
                        Ok(true)
                    }
                    Place::VecRef(d) => {
                        let mut v = heap(dirt32(d, (d % 23) as usize));
                        let mut m = lib!(T::new_with_buffer(&mut v));
                        body(c, &mut m, None)?;
                        Ok(true)
                    }
                    Place::Exact(cap, d) | Place::Fixed(cap, d) | Place::Grain(cap, d) => {
                        let b = match place {
                            Place::Exact(..) => SimBuf::<u32>::exact(cap, d),
                            Place::Fixed(..) => SimBuf::fixed(cap, d),
                            _ => SimBuf::grain(cap, d),
                        };
                        let ctl = b.ctl.clone();
                        match lib!(T::try_new_with_buffer(b)) {
                            Ok(mut m) => { body(c, &mut m, Some(ctl))?; Ok(true) }
                            Err(_) => Ok(false),
                        }
                    }
                    Place::Slice(cap, d) => {
                        let mut v = dirt32(d, cap);
                        match lib!(T::try_new_with_buffer(&mut v[..])) {
                            Ok(mut m) => { body(c, &mut m, None)?; Ok(true) }
                            Err(_) => Ok(false),
                        }
                    }
                    Place::Arr(0) => { let mut m = lib!(T::<[u32; 8]>::new()); body(c, &mut m, None)?; Ok(true) }
                    Place::Arr(_) => { let mut m = lib!(T::<[u32; 41]>::new()); body(c, &mut m, None)?; Ok(true) }
                }
            }
            fn msg<'a>(w: &'a [u32]) -> Result<Box<dyn Msg<u32> + 'a>, InvalidData> {
                Ok(Box::new(crate::lib!(T::try_from(w))?))
            }
            fn parse(w: &[u32]) -> Result<(Vec<u64>, Vec<u32>), InvalidData> {
                let m = lib!(T::try_from(w))?;
                Ok((lib!(m.readings()), lib!(m.units().to_vec())))
            }
            fn consume(c: &mut Ctx, w: &[u32]) -> Option<R> {
                let m = lib!(T::try_from(w)).ok()?;
                let n = lib!(m.data().len());
                Some((|| {
                    crate::iters::check_iter(c, concat!("text bytes of ", bytes_name!($fam)), &|| m.$bytes(), None, None)?;
                    crate::iters::packets(c, concat!("packets of ", bytes_name!($fam)), &|| m.packets(), n)
                })())
            }
            fn same(a: &[u32], b: &[u32]) -> Result<bool, InvalidData> {
                Ok(lib!(T::try_from(a))? == lib!(T::try_from(b))?)
            }
            pub static KIND: TxtKind = TxtKind {
                name: $name,
                stream: !matches!(stringify!($fam).as_bytes(), b"flex"),
                fb: matches!(stringify!($fam).as_bytes(), b"fb"),
                bank: $bank, status: $status, cap: $cap, with, parse, quiet, msg, consume, same, moves, moves_out,
            };
        }
    };
}
macro_rules! tx_flex {
    ($m:ident, $T:ident, $bank:expr, $status:expr) => {
        tx_kind!($m, concat!("flex_data::", stringify!($T)), (midi2::flex_data::$T), flex, $bank, $status, 12,
            text, set_text, try_set_text, text_bytes);
    };
}
tx_flex!(unknown_meta, UnknownMetadataText, 1, 0);
tx_flex!(project, ProjectName, 1, 1);
tx_flex!(composition, CompositionName, 1, 2);
tx_flex!(clip, MidiClipName, 1, 3);
tx_flex!(copyright, CopyrightNotice, 1, 4);
tx_kind!(composer, "flex_data::ComposerName", (midi2::flex_data::ComposerName), flex, 1, 5, 12,
    name, set_name, try_set_name, name_bytes);
tx_flex!(lyricist, LyricistName, 1, 6);
tx_flex!(arranger, ArrangerName, 1, 7);
tx_flex!(publisher, PublisherName, 1, 8);
tx_flex!(primary, PrimaryPerformerName, 1, 9);
tx_flex!(accompanying, AccompanyingPerformerName, 1, 0xA);
tx_flex!(rec_date, RecordingDate, 1, 0xB);
tx_flex!(rec_location, RecordingLocation, 1, 0xC);
tx_flex!(unknown_perf, UnknownPerformanceText, 2, 0);
tx_flex!(lyrics, Lyrics, 2, 1);
tx_flex!(lyrics_lang, LyricsLanguage, 2, 2);
tx_flex!(ruby, Ruby, 2, 3);
tx_flex!(ruby_lang, RubyLanguage, 2, 4);
tx_kind!(endpoint_name, "ump_stream::EndpointName", (midi2::ump_stream::EndpointName), stream, 0, 3, 14,
    name, set_name, try_set_name, name_bytes);
tx_kind!(product_id, "ump_stream::ProductInstanceId", (midi2::ump_stream::ProductInstanceId), stream, 0, 4, 14,
    id, set_id, try_set_id, id_bytes);
tx_kind!(fb_name, "ump_stream::FunctionBlockName", (midi2::ump_stream::FunctionBlockName), fb, 0, 0x12, 13,
    name, set_name, try_set_name, name_bytes);

pub static TEXTS: &[&TxtKind] = &[
    &unknown_meta::KIND,
    &project::KIND,
    &composition::KIND,
    &clip::KIND,
    &copyright::KIND,
    &composer::KIND,
    &lyricist::KIND,
    &arranger::KIND,
    &publisher::KIND,
    &primary::KIND,
    &accompanying::KIND,
    &rec_date::KIND,
    &rec_location::KIND,
    &unknown_perf::KIND,
    &lyrics::KIND,
    &lyrics_lang::KIND,
    &ruby::KIND,
    &ruby_lang::KIND,
    &endpoint_name::KIND,
    &product_id::KIND,
    &fb_name::KIND,
];

pub fn draw_kind(c: &mut Ctx) -> &'static TxtKind {
    match c.s.draw(5) {
        0 => &endpoint_name::KIND,
        1 => &fb_name::KIND,
        2 => &product_id::KIND,
        _ => TEXTS[c.s.below(18)],
    }
}

impl Place {
    pub fn txt_cap(self) -> Option<usize> {
        match self {
            Place::Vec | Place::VecRef(_) => None,
            Place::Exact(c, _) | Place::Fixed(c, _) | Place::Grain(c, _) | Place::Slice(c, _) => Some(c),
            Place::Arr(0) => Some(8),
            Place::Arr(_) => Some(41),
        }
    }
    pub fn draw_txt(c: &mut Ctx, min: usize, max: usize) -> Place {
        let d = Place::dirty(c);
        let n = c.s.range(min, max.max(min));
        match c.s.draw(8) {
            0 => Place::Vec,
            1 => Place::VecRef(d),
            2 | 3 => Place::Exact(n, d),
            4 => Place::Fixed(n, d),
            5 => Place::Grain(n, d),
            6 => Place::Slice(n, d),
            _ => {
                let i = c.s.draw(2) as u8;
                if Place::Arr(i).txt_cap().unwrap() >= min {
                    Place::Arr(i)
                } else {
                    Place::Fixed(n, d)
                }
            }
        }
    }
}

/// All header fields, packet markers and addressing of the message's own data. `text`: None if unknown.
pub fn check_txt(c: &mut Ctx, k: &TxtKind, o: &dyn TxtObj, m: &TModel, text_known: bool, when: &str) -> R {
    let fam = if k.fb { "function block name" } else if k.stream { "stream text" } else { "flex data text" };
    let w = lib!(o.words());
    let t = lib!(o.text());
    let b = lib!(o.tbytes());
    let d = match k.decode(&w) {
        Ok(d) => d,
        Err(e) => crate::fail!(format!("{fam}: message not well formed ({e})"), "{when}: {} {}", k.name, hex32(&w)),
    };
    ensure!(
        d.bytes == t.as_bytes() && b == d.bytes,
        format!("{fam}: packets do not carry the text read back"),
        "{when}: {} data {} text {:?} bytes {}",
        k.name,
        hex32(&w),
        t,
        hex8(&b)
    );
    if text_known {
        ensure!(
            t == m.text,
            format!("{fam}: text differs from the last text written"),
            "{when}: {} text {:?} expected {:?} data {}",
            k.name,
            t,
            m.text,
            hex32(&w)
        );
    }
    ensure!(
        d.group == m.group && lib!(o.grp()) == m.group,
        format!("{fam}: group changed"),
        "{when}: {} expected {} data {}",
        k.name,
        m.group,
        hex32(&w)
    );
    ensure!(
        d.channel == m.channel && lib!(o.chan()) == m.channel || k.stream,
        format!("{fam}: channel changed"),
        "{when}: {} expected {:?} reading {:?} data {}",
        k.name,
        m.channel,
        o.chan(),
        hex32(&w)
    );
    ensure!(
        d.function_block == m.fb && lib!(o.fb()) == m.fb,
        format!("{fam}: function block changed"),
        "{when}: {} expected {} data {}",
        k.name,
        m.fb,
        hex32(&w)
    );
    let own = lib!(o.reads());
    match lib!((k.parse)(&w)) {
        Err(_) => crate::fail!(format!("{fam}: own data rejected by the parser"), "{when}: {} {}", k.name, hex32(&w)),
        Ok((r, dd)) => {
            ensure!(
                r == own && dd == w,
                format!("{fam}: own data parses as another message"),
                "{when}: {} {}",
                k.name,
                hex32(&w)
            );
        }
    }
    c.ev(w.len() as u64);
    c.ev_bytes(&b[..b.len().min(8)]);
    tr!(c, "   -> {} text bytes in {} words {}", b.len(), w.len(), hex32(&w));
    Ok(())
}

/// Exactly the packets the text needs, unused bytes zero.
pub fn check_txt_layout(k: &TxtKind, o: &dyn TxtObj, m: &TModel, when: &str) -> R {
    let fam = if k.fb { "function block name" } else if k.stream { "stream text" } else { "flex data text" };
    let w = lib!(o.words());
    let e = k.build(m);
    ensure!(
        w == e,
        format!("{fam}: data is not exactly the packets the text needs"),
        "{when}: {} text {:?} data {} expected {}",
        k.name,
        m.text,
        hex32(&w),
        hex32(&e)
    );
    Ok(())
}
