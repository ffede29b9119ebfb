//! C14: the general parsers and each family's aggregate against the one message type the header names.
use crate::agg;
use crate::engine::{Ctx, R};
use crate::kinds::*;
use crate::props::fields::{self, hexu, received};
use crate::props::recv;
use crate::props::transfer::chain;
use crate::simbuf::{set_landing, SimBuf};
use crate::sx::{self, draw_recv, Form, Units};
use crate::tx::{self, TxtKind, TEXTS};
use crate::wire::*;
use crate::{ensure, fail, lib, tr};
use midi2::buffer::{Buffer, BufferMut};
use midi2::channel_voice1::ChannelVoice1;
use midi2::channel_voice2::ChannelVoice2;
use midi2::error::{BufferOverflow, InvalidData};
use midi2::flex_data::{FlexData, FlexDataMessage};
use midi2::prelude::*;
use midi2::sysex7::Sysex7;
use midi2::sysex8::Sysex8;
use midi2::system_common::SystemCommon;
use midi2::ump_stream::UmpStream;
use midi2::utility::Utility;
use midi2::{BytesMessage, Data, UmpMessage};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fam {
    Utility,
    System,
    Cv1,
    Cv2,
    Sysex7,
    Sysex8,
    Flex,
    Stream,
}

/// Family by the message type nibble.
fn family(w0: u32) -> Option<Fam> {
    Some(match w0 >> 28 {
        0 => Fam::Utility,
        1 => Fam::System,
        2 => Fam::Cv1,
        3 => Fam::Sysex7,
        4 => Fam::Cv2,
        5 => Fam::Sysex8,
        0xD => Fam::Flex,
        0xF => Fam::Stream,
        _ => return None,
    })
}

const CV: [&str; 7] = ["NoteOff", "NoteOn", "KeyPressure", "ControlChange", "ProgramChange", "ChannelPressure", "PitchBend"];
const CV2: [&str; 16] = [
    "RegisteredPerNoteController",
    "AssignablePerNoteController",
    "RegisteredController",
    "AssignableController",
    "RelativeRegisteredController",
    "RelativeAssignableController",
    "PerNotePitchBend",
    "",
    "NoteOff",
    "NoteOn",
    "KeyPressure",
    "ControlChange",
    "ProgramChange",
    "ChannelPressure",
    "ChannelPitchBend",
    "PerNoteManagement",
];
const META: [&str; 13] = [
    "UnknownMetadataText",
    "ProjectName",
    "CompositionName",
    "MidiClipName",
    "CopyrightNotice",
    "ComposerName",
    "LyricistName",
    "ArrangerName",
    "PublisherName",
    "PrimaryPerformerName",
    "AccompanyingPerformerName",
    "RecordingDate",
    "RecordingLocation",
];
const PERF: [&str; 5] = ["UnknownPerformanceText", "Lyrics", "LyricsLanguage", "Ruby", "RubyLanguage"];
const UTIL: [&str; 5] = ["NoOp", "Clock", "Timestamp", "DeltaClockstampTpq", "DeltaClockstamp"];

fn system(status: u32) -> &'static str {
    match status {
        0xF1 => "TimeCode",
        0xF2 => "SongPositionPointer",
        0xF3 => "SongSelect",
        0xF6 => "TuneRequest",
        0xF8 => "TimingClock",
        0xFA => "Start",
        0xFB => "Continue",
        0xFC => "Stop",
        0xFE => "ActiveSensing",
        0xFF => "Reset",
        _ => "",
    }
}

/// The message type the header bits identify, from the UMP specification.
fn ident(w0: u32) -> String {
    let Some(f) = family(w0) else { return String::new() };
    let (p, n) = match f {
        Fam::Utility => ("utility", UTIL.get((w0 >> 20 & 0xF) as usize).copied().unwrap_or("")),
        Fam::System => ("system_common", system(w0 >> 16 & 0xFF)),
        Fam::Cv1 => ("channel_voice1", (w0 >> 20 & 0xF).checked_sub(8).and_then(|i| CV.get(i as usize)).copied().unwrap_or("")),
        Fam::Cv2 => ("channel_voice2", CV2[(w0 >> 20 & 0xF) as usize]),
        Fam::Sysex7 => ("sysex7", "Sysex7"),
        Fam::Sysex8 => ("sysex8", "Sysex8"),
        Fam::Flex => (
            "flex_data",
            match (w0 >> 8 & 0xFF, (w0 & 0xFF) as usize) {
                (0, 0) => "SetTempo",
                (0, 1) => "SetTimeSignature",
                (0, 2) => "SetMetronome",
                (0, 5) => "SetKeySignature",
                (0, 6) => "SetChordName",
                (1, s) => META.get(s).copied().unwrap_or(""),
                (2, s) => PERF.get(s).copied().unwrap_or(""),
                _ => "",
            },
        ),
        Fam::Stream => (
            "ump_stream",
            match w0 >> 16 & 0x3FF {
                0 => "EndpointDiscovery",
                1 => "EndpointInfo",
                2 => "DeviceIdentity",
                3 => "EndpointName",
                4 => "ProductInstanceId",
                5 => "StreamConfigurationRequest",
                6 => "StreamConfigurationNotification",
                0x10 => "FunctionBlockDiscovery",
                0x11 => "FunctionBlockInfo",
                0x12 => "FunctionBlockName",
                0x20 => "StartOfClip",
                0x21 => "EndOfClip",
                _ => "",
            },
        ),
    };
    if n.is_empty() {
        return String::new();
    }
    format!("{p}::{n}")
}

fn ident_bytes(b0: u8) -> (Option<Fam>, String) {
    match b0 {
        0x80..=0xEF => (Some(Fam::Cv1), format!("channel_voice1::{}", CV[(b0 >> 4) as usize - 8])),
        0xF0 => (Some(Fam::Sysex7), "sysex7::Sysex7".into()),
        0xF1..=0xFF => {
            let n = system(b0 as u32);
            (Some(Fam::System), if n.is_empty() { String::new() } else { format!("system_common::{n}") })
        }
        _ => (None, String::new()),
    }
}

/// What a parser made of it: message type, readings, data, packets.
type Seen<U> = (&'static str, Vec<u64>, Vec<U>, Vec<Vec<u32>>);

fn see<U: Clone>(m: &dyn Msg<U>) -> Seen<U> {
    (lib!(m.kind()), lib!(m.readings()), lib!(m.units().to_vec()), lib!(m.packs()))
}

/// The single message type by name.
fn single(w: &[u32], name: &str) -> Option<Seen<u32>> {
    if name == "sysex7::Sysex7" {
        return lib!(Sysex7::try_from(w)).ok().map(|m| see::<u32>(&m));
    }
    if name == "sysex8::Sysex8" {
        return lib!(Sysex8::try_from(w)).ok().map(|m| see::<u32>(&m));
    }
    if let Some(k) = KINDS.iter().find(|k| k.name == name) {
        return lib!((k.ump.parse)(w)).ok().map(|m| see(&*m));
    }
    let k = TEXTS.iter().find(|k| k.name == name).expect("harness: no such message type");
    let v = (k.msg)(w).ok()?;
    Some(see(&*v))
}

fn single_bytes(b: &[u8], name: &str) -> Option<Seen<u8>> {
    if name == "sysex7::Sysex7" {
        return lib!(Sysex7::try_from(b)).ok().map(|m| see::<u8>(&m));
    }
    let k = KINDS.iter().find(|k| k.name == name).expect("harness: no such message type");
    lib!((k.bytes.as_ref().unwrap().parse)(b)).ok().map(|m| see(&*m))
}

// ------------------------------------------------------------------ the aggregates

macro_rules! face {
    ($E:ident, $U:ident, $f:path, $packs:ident) => {
        impl<B: Buffer<Unit = $U>> Msg<$U> for $E<B> {
            fn kind(&self) -> &'static str {
                $f(self).kind()
            }
            fn readings(&self) -> Vec<u64> {
                $f(self).readings()
            }
            fn units(&self) -> &[$U] {
                Data::data(self)
            }
            fn debug(&self) -> String {
                $f(self).debug()
            }
            crate::packs_fn!($U);
            fn touch(&self) -> u64 {
                $f(self).touch() ^ crate::touch_packs!($U, self)
            }
        }
    };
}
face!(ChannelVoice1, u32, agg::cv1, yes);
face!(ChannelVoice1, u8, agg::cv1b, no);
face!(ChannelVoice2, u32, agg::cv2, yes);
face!(SystemCommon, u32, agg::sc, yes);
face!(SystemCommon, u8, agg::scb, no);
face!(Utility, u32, agg::ut, yes);
face!(FlexData, u32, agg::fd, yes);
face!(UmpStream, u32, agg::us, yes);
face!(UmpMessage, u32, agg::ump, yes);
face!(BytesMessage, u8, agg::bytes, no);

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Group(u8),
    Channel(u8),
}

/// Data, readings, group and channel after each operation.
pub type Step<U> = (Vec<U>, Vec<u64>, Option<u8>, Option<u8>);

pub struct Agg<U: 'static> {
    name: &'static str,
    fam: Option<Fam>,
    parse: fn(&[U]) -> Result<Seen<U>, InvalidData>,
    same: fn(&[U], &[U]) -> Result<bool, InvalidData>,
    moves: fn(&[U], &[To]) -> Result<Vec<Hop<U>>, InvalidData>,
    arr: (usize, usize),
    group: bool,
    channel: bool,
    edit: fn(&[U], To, &[Op]) -> Result<Option<Vec<Step<U>>>, InvalidData>,
    /// received, read, moved and edited without a heap
    quiet: fn(&[U], u8, u8) -> R,
}

macro_rules! do_group {
    (group, $m:expr, $g:expr) => { lib!(Grouped::set_group(&mut $m, ux::u4::new($g))) };
    (nogroup, $m:expr, $g:expr) => { unreachable!("harness: no group") };
}
macro_rules! do_chan {
    (channel, $m:expr, $g:expr) => { lib!(Channeled::set_channel(&mut $m, ux::u4::new($g))) };
    (nochannel, $m:expr, $g:expr) => { unreachable!("harness: no channel") };
}
macro_rules! quiet_group {
    (group, $m:expr, $g:expr, $n:expr) => { crate::quiet!(format_args!("{} group", $n), Grouped::set_group(&mut $m, ux::u4::new($g))) };
    (nogroup, $m:expr, $g:expr, $n:expr) => {};
}
macro_rules! quiet_chan {
    (channel, $m:expr, $g:expr, $n:expr) => { crate::quiet!(format_args!("{} channel", $n), Channeled::set_channel(&mut $m, ux::u4::new($g))) };
    (nochannel, $m:expr, $g:expr, $n:expr) => {};
}
macro_rules! see_group {
    (group, $m:expr) => { Some(u8::from(lib!(Grouped::group(&$m)))) };
    (nogroup, $m:expr) => { None };
}
macro_rules! see_chan {
    (channel, $m:expr) => { Some(u8::from(lib!(Channeled::channel(&$m)))) };
    (nochannel, $m:expr) => { None };
}
macro_rules! yes {
    (group) => { true };
    (nogroup) => { false };
    (channel) => { true };
    (nochannel) => { false };
}

macro_rules! agg_impl {
    ($m:ident, $T:ident, $U:ident, $n1:expr, $n2:expr, $arr:ident, $fam:expr, $g:ident, $c:ident) => {
        mod $m {
            use super::*;
            crate::moves_impl!($T, $U, $n1, $n2, $arr);
            fn parse(b: &[$U]) -> Result<Seen<$U>, InvalidData> {
                let m = lib!($T::try_from(b))?;
                Ok(see::<$U>(&m))
            }
            fn same(a: &[$U], b: &[$U]) -> Result<bool, InvalidData> {
                Ok(lib!($T::try_from(a))? == lib!($T::try_from(b))?)
            }
            #[allow(unused_mut)]
            fn run<B: Buffer<Unit = $U> + BufferMut>(mut m: $T<B>, ops: &[Op]) -> Vec<Step<$U>> {
                let mut out = vec![];
                for o in ops {
                    match o {
                        Op::Group(_g) => do_group!($g, m, *_g),
                        Op::Channel(_c) => do_chan!($c, m, *_c),
                    }
                    let (_, r, d, _) = see::<$U>(&m);
                    out.push((d, r, see_group!($g, m), see_chan!($c, m)));
                }
                out
            }
            fn edit(b: &[$U], to: To, ops: &[Op]) -> Result<Option<Vec<Step<$U>>>, InvalidData> {
                let m = lib!($T::try_from(b))?;
                Ok(match to {
                    To::Vec => Some(run::<crate::heap::Heap<$U>>(lib!(m.rebuffer_into()), ops)),
                    To::Arr => lib!(m.try_rebuffer_into()).ok().map(|m: $T<[$U; $n1]>| run(m, ops)),
                    To::ArrBig | To::ArrBigRe => lib!(m.try_rebuffer_into()).ok().map(|m: $T<[$U; $n2]>| run(m, ops)),
                    To::Sim(cap, fixed, dirty) => {
                        set_landing(cap, fixed, dirty);
                        lib!(m.try_rebuffer_into()).ok().map(|m: $T<SimBuf<$U>>| run(m, ops))
                    }
                })
            }
            #[allow(unused_variables)]
            fn quiet(b: &[$U], g: u8, ch: u8) -> R {
                let n = stringify!($T);
                let Ok(m) = crate::quiet!(format_args!("{n} parser"), $T::try_from(b)) else { return Ok(()) };
                crate::quiet!(format_args!("{n} reading"), m.touch());
                crate::quiet!(format_args!("{n} equality"), m == m.clone());
                if let Ok(a) = crate::quiet!(format_args!("{n} move"), TryRebufferInto::<$T<[$U; $n1]>>::try_rebuffer_into(m.clone())) {
                    crate::quiet!(format_args!("{n} reading"), a.touch());
                }
                if let Ok(mut a) = crate::quiet!(format_args!("{n} move"), TryRebufferInto::<$T<[$U; $n2]>>::try_rebuffer_into(m)) {
                    quiet_group!($g, a, g, n);
                    quiet_chan!($c, a, ch, n);
                    crate::quiet!(format_args!("{n} reading"), a.touch());
                }
                Ok(())
            }
            pub static AGG: Agg<$U> = Agg {
                quiet,
                name: stringify!($T), fam: $fam, parse, same, moves, arr: ($n1, $n2),
                group: yes!($g), channel: yes!($c), edit,
            };
        }
    };
}
agg_impl!(cv1, ChannelVoice1, u32, 1, 4, arr, Some(Fam::Cv1), group, channel);
agg_impl!(cv2, ChannelVoice2, u32, 2, 4, arr, Some(Fam::Cv2), group, channel);
agg_impl!(sc, SystemCommon, u32, 1, 4, arr, Some(Fam::System), group, nochannel);
agg_impl!(ut, Utility, u32, 1, 4, arr, Some(Fam::Utility), nogroup, nochannel);
agg_impl!(fd, FlexData, u32, 4, 16, noarr, Some(Fam::Flex), group, nochannel);
agg_impl!(us, UmpStream, u32, 4, 16, noarr, Some(Fam::Stream), nogroup, nochannel);
agg_impl!(ump, UmpMessage, u32, 4, 16, noarr, None, nogroup, nochannel);
agg_impl!(cv1b, ChannelVoice1, u8, 3, 5, arr, Some(Fam::Cv1), nogroup, channel);
agg_impl!(scb, SystemCommon, u8, 1, 4, arr, Some(Fam::System), nogroup, nochannel);
agg_impl!(bytes, BytesMessage, u8, 3, 12, noarr, None, nogroup, nochannel);

static WORDS: &[&Agg<u32>] = &[&ump::AGG, &cv1::AGG, &cv2::AGG, &sc::AGG, &ut::AGG, &fd::AGG, &us::AGG];
static BYTES: &[&Agg<u8>] = &[&bytes::AGG, &cv1b::AGG, &scb::AGG];

// ------------------------------------------------------------------ conversions

pub trait Conversions {
    fn words_to_bytes(src: &[u32], to: Conv) -> Result<Hop<u8>, InvalidData>;
    fn bytes_to_words(src: &[u8], to: Conv) -> Result<Hop<u32>, InvalidData>;
}
macro_rules! conv_agg {
    ($m:ident, $T:ident) => {
        mod $m {
            use super::*;
            pub fn to_bytes(src: &[u32], to: Conv) -> Result<Hop<u8>, InvalidData> {
                let m = lib!($T::try_from(src))?;
                fn out<B: Buffer<Unit = u8>>(m: $T<B>) -> Hop<u8> {
                    let (_, r, d, _) = see::<u8>(&m);
                    Hop::Ok(d, r)
                }
                fn may<B: Buffer<Unit = u8>>(m: Result<$T<B>, BufferOverflow>) -> Hop<u8> {
                    m.map_or(Hop::Overflow, out)
                }
                Ok(match to {
                    Conv::Vec => out::<crate::heap::Heap<u8>>(lib!(m.into_bytes())),
                    Conv::Arr => may::<[u8; 1]>(lib!(m.try_into_bytes())),
                    Conv::ArrBig => may::<[u8; 2]>(lib!(m.try_into_bytes())),
                    Conv::TryArr => may::<[u8; 3]>(lib!(m.try_into_bytes())),
                    Conv::TryArrBig => may::<[u8; 6]>(lib!(m.try_into_bytes())),
                    Conv::TrySim(cap, fixed) => {
                        crate::simbuf::set_default(cap, fixed);
                        may::<SimBuf<u8>>(lib!(m.try_into_bytes()))
                    }
                })
            }
            pub fn to_ump(src: &[u8], to: Conv) -> Result<Hop<u32>, InvalidData> {
                let m = lib!($T::try_from(src))?;
                fn out<B: Buffer<Unit = u32>>(m: $T<B>) -> Hop<u32> {
                    let (_, r, d, _) = see::<u32>(&m);
                    Hop::Ok(d, r)
                }
                fn may<B: Buffer<Unit = u32>>(m: Result<$T<B>, BufferOverflow>) -> Hop<u32> {
                    m.map_or(Hop::Overflow, out)
                }
                Ok(match to {
                    Conv::Vec => out::<crate::heap::Heap<u32>>(lib!(m.into_ump())),
                    Conv::Arr => may::<[u32; 1]>(lib!(m.try_into_ump())),
                    Conv::ArrBig => may::<[u32; 2]>(lib!(m.try_into_ump())),
                    Conv::TryArr => may::<[u32; 3]>(lib!(m.try_into_ump())),
                    Conv::TryArrBig => may::<[u32; 6]>(lib!(m.try_into_ump())),
                    Conv::TrySim(cap, fixed) => {
                        crate::simbuf::set_default(cap, fixed);
                        may::<SimBuf<u32>>(lib!(m.try_into_ump()))
                    }
                })
            }
        }
    };
}
/// Every aggregate, received into storage without a heap.
pub fn quiet_words(w: &[u32], g: u8, ch: u8) -> R {
    WORDS.iter().try_for_each(|a| (a.quiet)(w, g, ch))?;
    macro_rules! conv { ($T:ident) => {
        if let Ok(m) = $T::try_from(w) {
            let n = stringify!($T);
            if let Ok(b) = crate::quiet!(format_args!("{n} to bytes"), TryIntoBytes::<$T<[u8; 3]>>::try_into_bytes(m.clone())) {
                crate::quiet!(format_args!("{n} reading"), b.touch());
            }
            crate::quiet!(format_args!("{n} to bytes"), TryIntoBytes::<$T<[u8; 1]>>::try_into_bytes(m).is_ok());
        }
    } }
    conv!(ChannelVoice1);
    conv!(SystemCommon);
    Ok(())
}
pub fn quiet_bytes(b: &[u8], g: u8, ch: u8) -> R {
    BYTES.iter().try_for_each(|a| (a.quiet)(b, g, ch))?;
    macro_rules! conv { ($T:ident) => {
        if let Ok(m) = $T::try_from(b) {
            let n = stringify!($T);
            if let Ok(w) = crate::quiet!(format_args!("{n} to packets"), TryIntoUmp::<$T<[u32; 1]>>::try_into_ump(m)) {
                crate::quiet!(format_args!("{n} reading"), w.touch());
            }
        }
    } }
    conv!(ChannelVoice1);
    conv!(SystemCommon);
    Ok(())
}

conv_agg!(conv_cv1, ChannelVoice1);
conv_agg!(conv_sc, SystemCommon);

fn draw_conv(c: &mut Ctx) -> (Conv, Conv) {
    // the single type into fixed storage with the same room
    match c.s.draw(6) {
        0 => (Conv::Vec, Conv::Vec),
        1 => (Conv::Arr, Conv::TrySim(1, true)),
        2 => (Conv::ArrBig, Conv::TrySim(2, true)),
        3 => (Conv::TryArr, Conv::TrySim(3, true)),
        4 => (Conv::TryArrBig, Conv::TrySim(6, true)),
        _ => {
            let v = Conv::TrySim(c.s.below(5), c.s.chance(1, 2));
            (v, v)
        }
    }
}

// ------------------------------------------------------------------ traffic

/// A well-formed message of any type.
fn intact(c: &mut Ctx) -> Vec<u32> {
    match c.s.draw(8) {
        0..=3 => {
            let k = fields::draw_kind(c);
            received::<u32>(c, k, &k.ump)
        }
        4 | 5 => {
            let k = tx::draw_kind(c);
            let m = tx::draw_model(c, k, 60);
            k.build(&m)
        }
        6 => match draw_recv(c, Form::U7, 40).3 {
            Units::W(w) => w,
            _ => unreachable!(),
        },
        _ => match draw_recv(c, Form::U8, 40).3 {
            Units::W(w) => w,
            _ => unreachable!(),
        },
    }
}

fn intact_bytes(c: &mut Ctx) -> Vec<u8> {
    if c.s.chance(1, 6) {
        match draw_recv(c, Form::B7, 30).3 {
            Units::B(b) => return b,
            _ => unreachable!(),
        }
    }
    loop {
        let k = fields::draw_kind(c);
        if let Some(f) = &k.bytes {
            return received::<u8>(c, k, f);
        }
    }
}

/// Damage in transit, mostly where the dispatch looks.
fn hurt(c: &mut Ctx, w: &mut Vec<u32>) {
    for _ in 0..c.s.range(1, 4) {
        match c.s.draw(10) {
            9 if w.len() == 4 && matches!(w[0] >> 28, 0xD | 0xF) => {
                // what fits in one packet, spread over some
                let (mask, at) = if w[0] >> 28 == 0xF { (0x0C00_0000u32, 26) } else { (0x00C0_0000, 22) };
                let one = w.clone();
                let n = c.s.range(2, 3);
                for _ in 1..n {
                    w.extend(&one);
                }
                for i in 0..n {
                    let form = if i == 0 { 1u32 } else if i + 1 == n { 3 } else { 2 };
                    w[4 * i] = w[4 * i] & !mask | form << at;
                }
                c.count("fault: message spread over packets");
            }
            0..=2 if !w.is_empty() => {
                let b = c.s.draw(32) as u32;
                w[0] ^= 1 << b;
                c.count("fault: header bit flipped");
            }
            3 if !w.is_empty() => {
                let n = c.s.draw(8) as u32 * 4;
                w[0] = w[0] & !(0xF << n) | (c.s.draw(16) as u32) << n;
                c.count("fault: header nibble overwritten");
            }
            4 if !w.is_empty() => {
                let i = c.s.below(w.len());
                w[i] ^= 1 << c.s.draw(32);
                c.count("fault: bit flipped");
            }
            5 if !w.is_empty() => {
                let n = c.s.below(w.len());
                w.truncate(n);
                c.count("fault: message cut short");
            }
            6 => {
                let v = c.s.u32();
                w.push(v);
                c.count("fault: words added");
            }
            7 => {
                let mut o = intact(c);
                w.append(&mut o);
                c.count("fault: another message behind it");
            }
            _ => {
                if let Some(p) = w.len().checked_sub(4) {
                    let i = c.s.below(p + 1);
                    w.swap(0, i);
                    c.count("fault: words swapped");
                }
            }
        }
    }
}

fn hurt_bytes(c: &mut Ctx, w: &mut Vec<u8>) {
    for _ in 0..c.s.range(1, 3) {
        match c.s.draw(5) {
            0 | 1 if !w.is_empty() => {
                w[0] = c.s.u8();
                c.count("fault: status byte overwritten");
            }
            2 if !w.is_empty() => {
                let i = c.s.below(w.len());
                w[i] ^= 1 << c.s.draw(8);
                c.count("fault: bit flipped");
            }
            3 if !w.is_empty() => {
                let n = c.s.below(w.len());
                w.truncate(n);
                c.count("fault: message cut short");
            }
            _ => {
                let v = c.s.u8();
                w.push(v);
                c.count("fault: bytes added");
            }
        }
    }
}

// ------------------------------------------------------------------ checks

fn compare<U: Segs>(a: &Agg<U>, w: &[U], name: &str, one: &Option<Seen<U>>, got: Result<Seen<U>, InvalidData>, in_family: bool) -> R {
    let an = format!("{} ({})", a.name, U::NAME);
    match (got, one) {
        (Err(_), _) if !in_family => Ok(()),
        (Ok(s), _) if !in_family => fail!(
            format!("{an}: accepts a message of no type it contains"),
            "{} identifies {} but was taken for {}",
            hexu(w),
            if name.is_empty() { "nothing" } else { name },
            s.0
        ),
        (Err(_), None) => Ok(()),
        (Ok(s), None) => fail!(format!("{an}: accepts what {name} rejects"), "{} taken for {}", hexu(w), s.0),
        (Err(e), Some(_)) => fail!(format!("{an}: rejects what {name} accepts"), "{} {e:?}", hexu(w)),
        (Ok(s), Some(o)) => {
            ensure!(s.0 == name, format!("{an}: takes {name} for {}", s.0), "{}", hexu(w));
            ensure!(s.2 == o.2, format!("{an}: data differs from that of {name}"), "{} gives {}", hexu(&o.2), hexu(&s.2));
            ensure!(s.1 == o.1, format!("{an}: readings differ from those of {name}"), "{}: {:x?} and {:x?}", hexu(w), o.1, s.1);
            ensure!(s.3 == o.3, format!("{an}: packets differ from those of {name}"), "{}: {:x?} and {:x?}", hexu(w), o.3, s.3);
            Ok(())
        }
    }
}

pub fn dispatch(c: &mut Ctx) -> R {
    let mut w = match c.s.draw(12) {
        0 => {
            let n = c.s.below(10);
            (0..n).map(|_| c.s.u32()).collect()
        }
        1 => {
            // every header value comes up
            let h = (c.s.draw(1 << 16) as u32) << 16 | c.s.draw(1 << 8) as u32 | (c.s.draw(4) as u32) << 8;
            let mut w = vec![h];
            w.resize(4, 0);
            w
        }
        _ => intact(c),
    };
    if c.s.chance(1, 2) {
        hurt(c, &mut w);
    }
    c.ev_words(&w);
    let name = w.first().map_or(String::new(), |x| ident(*x));
    let fam = w.first().and_then(|x| family(*x));
    tr!(c, "{} identifies {name}", hexu(&w));
    let one = if name.is_empty() { None } else { single(&w, &name) };
    c.count(if one.is_some() { "message of a known type" } else { "no message" });
    c.nontrivial |= one.is_some();
    for a in WORDS {
        let inside = !name.is_empty() && (a.fam.is_none() || a.fam == fam);
        compare(a, &w, &name, &one, (a.parse)(&w), inside)?;
    }
    if let (Some(_), Some(Fam::Flex)) = (&one, fam) {
        let m = lib!(FlexData::try_from(&w[..])).map_err(|_| crate::engine::Violation { class: "FlexData: parses once only".into(), msg: hexu(&w) })?;
        let (b, s) = (lib!(m.bank()) as u32, lib!(m.status()) as u32);
        ensure!(
            b == w[0] >> 8 & 0xFF && s == w[0] & 0xFF,
            format!("FlexData: bank and status of {name} are not those of its header"),
            "{:08x}: bank {b:x} status {s:x}",
            w[0]
        );
    }
    // equality
    if one.is_some() && c.s.chance(1, 3) {
        let mut v = if c.s.chance(1, 3) { intact(c) } else { w.clone() };
        if c.s.chance(1, 2) && !v.is_empty() {
            let i = c.s.below(v.len());
            v[i] ^= 1 << c.s.draw(32);
        }
        let n2 = v.first().map_or(String::new(), |x| ident(*x));
        if !n2.is_empty() && single(&v, &n2).is_some() {
            let same = name == n2 && equal_single(&w, &v, &name);
            for a in WORDS {
                if let Ok(s) = lib!((a.same)(&w, &v)) {
                    ensure!(
                        s == same,
                        format!("{} (ump): equality of two messages differs from that of the messages inside", a.name),
                        "{} and {}: {s}",
                        hexu(&w),
                        hexu(&v)
                    );
                    c.count("two messages compared");
                }
            }
        }
    }
    Ok(())
}

fn equal_single(a: &[u32], b: &[u32], name: &str) -> bool {
    match name {
        "sysex7::Sysex7" => lib!(Sysex7::try_from(a)).unwrap() == lib!(Sysex7::try_from(b)).unwrap(),
        "sysex8::Sysex8" => lib!(Sysex8::try_from(a)).unwrap() == lib!(Sysex8::try_from(b)).unwrap(),
        _ => match KINDS.iter().find(|k| k.name == name) {
            Some(k) => lib!((k.ump.same)(a, b)).unwrap(),
            None => lib!((TEXTS.iter().find(|k| k.name == name).unwrap().same)(a, b)).unwrap(),
        },
    }
}

pub fn dispatch_bytes(c: &mut Ctx) -> R {
    let mut w = match c.s.draw(10) {
        0 => {
            let n = c.s.below(8);
            (0..n).map(|_| c.s.u8()).collect()
        }
        _ => intact_bytes(c),
    };
    if c.s.chance(1, 2) {
        hurt_bytes(c, &mut w);
    }
    c.ev_bytes(&w);
    let (fam, name) = w.first().map_or((None, String::new()), |x| ident_bytes(*x));
    tr!(c, "{} identifies {name}", hexu(&w));
    let one = if name.is_empty() { None } else { single_bytes(&w, &name) };
    c.count(if one.is_some() { "message of a known type" } else { "no message" });
    c.nontrivial |= one.is_some();
    for a in BYTES {
        let inside = !name.is_empty() && (a.fam.is_none() || a.fam == fam);
        compare(a, &w, &name, &one, (a.parse)(&w), inside)?;
    }
    Ok(())
}

/// The same operation on the bits of the message.
fn model_words(w: &mut [u32], o: Op) {
    let sizes: Vec<usize> = recv::cut(w).iter().map(|p| p.len()).collect();
    let mut i = 0;
    for n in sizes {
        match o {
            Op::Group(g) => w[i] = w[i] & !0x0F00_0000 | (g as u32) << 24,
            Op::Channel(ch) => w[i] = w[i] & !0x000F_0000 | (ch as u32) << 16,
        }
        i += n;
    }
}
fn model_bytes(w: &mut [u8], o: Op) {
    if let Op::Channel(ch) = o {
        w[0] = w[0] & 0xF0 | ch;
    }
}

fn edits<U: Segs>(
    c: &mut Ctx,
    a: &'static Agg<U>,
    w: &[U],
    name: &str,
    model: fn(&mut [U], Op),
    single: fn(&[U], &str) -> Option<Seen<U>>,
    gr: fn(&[U]) -> Option<u8>,
    ch: fn(&[U]) -> Option<u8>,
) -> R {
    let an = format!("{} ({})", a.name, U::NAME);
    let ops: Vec<Op> = (0..c.s.range(1, 5))
        .map(|_| {
            let v = c.s.draw(16) as u8;
            match (a.group, a.channel) {
                (true, true) => {
                    if c.s.chance(1, 2) {
                        Op::Group(v)
                    } else {
                        Op::Channel(v)
                    }
                }
                (true, _) => Op::Group(v),
                _ => Op::Channel(v),
            }
        })
        .collect();
    let to = fields::draw_to(c, w.len());
    tr!(c, "{an} holding {name} in {to:?}: {ops:?}");
    for o in &ops {
        c.ev(match o {
            Op::Group(g) => *g as u64,
            Op::Channel(g) => 16 + *g as u64,
        });
    }
    let got = match (a.edit)(w, to, &ops) {
        Ok(Some(g)) => g,
        // does not fit the storage drawn
        Ok(None) => return Ok(()),
        Err(e) => fail!(format!("{an}: rejects what {name} accepts"), "{} {e:?}", hexu(w)),
    };
    let mut m = w.to_vec();
    for (o, (d, r, g, chn)) in ops.iter().zip(got) {
        model(&mut m, *o);
        ensure!(d == m, format!("{an}: an operation on a contained {name} gives other data"), "{o:?}: {} instead of {}", hexu(&d), hexu(&m));
        let Some(s) = single(&m, name) else {
            fail!(format!("{an}: a contained {name} is none any more"), "after {o:?}: {}", hexu(&m))
        };
        ensure!(r == s.1, format!("{an}: readings after an operation on a contained {name}"), "after {o:?}: {r:x?} instead of {:x?}", s.1);
        ensure!(
            (!a.group || g == gr(&m)) && (!a.channel || chn == ch(&m)),
            format!("{an}: group or channel read from a contained {name}"),
            "after {o:?}: group {g:?} channel {chn:?}, data {}",
            hexu(&m)
        );
        c.count("operation on an aggregate");
        c.step();
    }
    Ok(())
}

pub fn operations(c: &mut Ctx) -> R {
    if c.s.chance(1, 5) {
        return operations_bytes(c);
    }
    let w = intact(c);
    let name = ident(w[0]);
    let Some(one) = single(&w, &name) else {
        // its own parser's business
        return Ok(());
    };
    let w = one.2.clone();
    let fam = family(w[0]);
    let a: Vec<&'static Agg<u32>> = WORDS.iter().filter(|a| a.fam.is_none() || a.fam == fam).copied().collect();
    let a = a[c.s.below(a.len())];
    c.ev_bytes(a.name.as_bytes());
    c.ev_words(&w);
    tr!(c, "{} holding {name}: {}", a.name, hexu(&w));
    match c.s.draw(3) {
        0 if a.group || a.channel => edits::<u32>(
            c,
            a,
            &w,
            &name,
            model_words,
            single,
            |w| Some((w[0] >> 24 & 0xF) as u8),
            |w| Some((w[0] >> 16 & 0xF) as u8),
        ),
        1 if matches!(fam, Some(Fam::Cv1 | Fam::System)) => {
            let (x, y) = draw_conv(c);
            tr!(c, "to bytes: {x:?}");
            let got = match fam {
                Some(Fam::Cv1) => conv_cv1::to_bytes(&w, x),
                _ => conv_sc::to_bytes(&w, x),
            };
            let k = KINDS.iter().find(|k| k.name == name).unwrap();
            let exp = (k.to_bytes.unwrap())(&w, y);
            ensure!(
                got == exp,
                format!("{} (ump): conversion of a contained {name} differs", a.name),
                "{}: {exp:?} became {got:?}",
                hexu(&w)
            );
            c.count("aggregate converted");
            c.count(if exp == Ok(Hop::Overflow) { "overflow reported" } else { "message converted" });
            Ok(())
        }
        _ => chain::<u32>(c, &format!("{} (ump) holding {name}", a.name), &w, &one.1, a.arr, a.moves, false),
    }
}

fn operations_bytes(c: &mut Ctx) -> R {
    let w = intact_bytes(c);
    let (fam, name) = ident_bytes(w[0]);
    let Some(one) = single_bytes(&w, &name) else { return Ok(()) };
    let w = one.2.clone();
    let a: Vec<&'static Agg<u8>> = BYTES.iter().filter(|a| a.fam.is_none() || a.fam == fam).copied().collect();
    let a = a[c.s.below(a.len())];
    c.ev_bytes(a.name.as_bytes());
    c.ev_bytes(&w);
    tr!(c, "{} holding {name}: {}", a.name, hexu(&w));
    match c.s.draw(3) {
        0 if a.channel => edits::<u8>(c, a, &w, &name, model_bytes, single_bytes, |_| None, |b| Some(b[0] & 0xF)),
        1 if matches!(fam, Some(Fam::Cv1 | Fam::System)) => {
            let (x, y) = draw_conv(c);
            tr!(c, "to packets: {x:?}");
            let got = match fam {
                Some(Fam::Cv1) => conv_cv1::to_ump(&w, x),
                _ => conv_sc::to_ump(&w, x),
            };
            let k = KINDS.iter().find(|k| k.name == name).unwrap();
            let exp = (k.to_ump.unwrap())(&w, y);
            ensure!(
                got == exp,
                format!("{} (bytes): conversion of a contained {name} differs", a.name),
                "{}: {exp:?} became {got:?}",
                hexu(&w)
            );
            c.count("aggregate converted");
            c.count(if exp == Ok(Hop::Overflow) { "overflow reported" } else { "message converted" });
            Ok(())
        }
        _ => chain::<u8>(c, &format!("{} (bytes) holding {name}", a.name), &w, &one.1, a.arr, a.moves, true),
    }
}
