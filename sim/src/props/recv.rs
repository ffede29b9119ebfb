//! What a receiver makes of damaged traffic: C08 (never brought down) and C09 (only whole, ordered
//! multi-packet messages are accepted).
use crate::engine::{Ctx, R};
use crate::kinds::{Msg, Segs, KINDS};
use crate::link::{self, Faults, Sender};
use crate::props::fields;
use crate::sx::*;
use crate::tx::{self, TxtKind, TEXTS};
use crate::wire::*;
use crate::{ensure, fail, lib, tr};
use midi2::channel_voice1::ChannelVoice1;
use midi2::channel_voice2::ChannelVoice2;
use midi2::error::{Error, InvalidData};
use midi2::flex_data::FlexData;
use midi2::sysex7::Sysex7;
use midi2::sysex8::Sysex8;
use midi2::system_common::SystemCommon;
use midi2::ump_stream::UmpStream;
use midi2::utility::Utility;
use midi2::*;

// ------------------------------------------------------------------ traffic

/// A well-formed message as its packets, from a conforming sender.
pub fn draw_packets(c: &mut Ctx, max: usize) -> Vec<Vec<u32>> {
    let w = match c.s.draw(8) {
        0 | 1 => match draw_recv(c, Form::U7, max).3 {
            Units::W(w) => w,
            _ => unreachable!(),
        },
        2 | 3 => match draw_recv(c, Form::U8, max).3 {
            Units::W(w) => w,
            _ => unreachable!(),
        },
        4..=6 => {
            let k = tx::draw_kind(c);
            let m = tx::draw_model(c, k, max);
            k.build(&m)
        }
        _ => {
            let k = fields::draw_kind(c);
            fields::received::<u32>(c, k, &k.ump)
        }
    };
    cut(&w)
}

pub fn cut(w: &[u32]) -> Vec<Vec<u32>> {
    let mut v = vec![];
    let mut i = 0;
    while i < w.len() {
        let n = packet_words(nib(w[i], 0)).min(w.len() - i);
        v.push(w[i..i + n].to_vec());
        i += n;
    }
    v
}

/// Another message of the same type and, most of the time, the same addressing.
fn relative(c: &mut Ctx, p: &[Vec<u32>]) -> Vec<Vec<u32>> {
    if c.s.chance(1, 4) {
        return draw_packets(c, 30);
    }
    let mut v: Vec<Vec<u32>> = p.to_vec();
    for x in v.iter_mut() {
        let n = x.len();
        for y in x.iter_mut().skip(1) {
            *y ^= 0x0101_0101 & c.s.u32();
        }
        if c.s.chance(1, 8) && n > 0 {
            x[0] ^= 1 << c.s.draw(28);
        }
    }
    v
}

/// Faults applied to a collected sequence, one by one; every one is a drawn choice.
fn damage(c: &mut Ctx, p: &mut Vec<Vec<u32>>, max: usize) -> usize {
    let n = c.s.range(0, max);
    for _ in 0..n {
        if p.is_empty() {
            break;
        }
        let i = c.s.below(p.len());
        let what = c.s.draw(12);
        c.ev(0x7000 + what);
        c.ev(i as u64);
        match what {
            0 | 1 => {
                c.count("fault: packet lost");
                tr!(c, "packet {i} lost");
                p.remove(i);
            }
            2 => {
                c.count("fault: packet duplicated");
                tr!(c, "packet {i} duplicated");
                let x = p[i].clone();
                let at = c.s.range(i + 1, p.len());
                p.insert(at, x);
            }
            3 => {
                c.count("fault: packets reordered");
                let j = c.s.below(p.len());
                tr!(c, "packets {i} and {j} exchanged");
                p.swap(i, j);
            }
            4 => {
                c.count("fault: packet of another message interleaved");
                let o = relative(c, &p.clone());
                if !o.is_empty() {
                    let x = c.s.pick(&o).clone();
                    tr!(c, "foreign packet {} before {i}", hex32(&x));
                    p.insert(i, x);
                }
            }
            5 => {
                c.count("fault: tail of another message spliced on");
                let o = relative(c, &p.clone());
                let from = c.s.range(0, o.len());
                tr!(c, "from {i} on replaced by a foreign tail of {} packets", o.len() - from);
                p.truncate(i);
                p.extend_from_slice(&o[from..]);
            }
            6 | 7 => {
                c.count("fault: header bits changed in a packet");
                let mask = match c.s.draw(6) {
                    0 => 0x0F00_0000u32,
                    1 => 0x00F0_0000,
                    2 => 0x000F_0000,
                    3 => 0x0000_FF00,
                    4 => 0x0000_00FF,
                    _ => 0x0CC0_0000,
                };
                let v = c.s.u32();
                if let Some(x) = p[i].first_mut() {
                    *x = (*x & !mask) | (v & mask);
                }
                tr!(c, "header of packet {i} now {}", hex32(&p[i]));
            }
            8 => {
                c.count("fault: bits flipped in a packet");
                for _ in 0..c.s.range(1, 3) {
                    if p[i].is_empty() {
                        break;
                    }
                    let k = c.s.below(p[i].len());
                    p[i][k] ^= 1 << c.s.draw(32);
                }
                tr!(c, "bits flipped in packet {i}: {}", hex32(&p[i]));
            }
            9 => {
                c.count("fault: packet cut short");
                let k = c.s.below(p[i].len().max(1));
                p[i].truncate(k);
                tr!(c, "packet {i} cut to {k} words");
            }
            10 => {
                c.count("fault: packet replaced by noise");
                for x in p[i].iter_mut() {
                    *x = c.s.u32();
                }
            }
            _ => {
                c.count("fault: all packets after one lost");
                p.truncate(i);
            }
        }
    }
    n
}

/// What arrives: one message damaged directly, or several senders' packets through the simulated link.
pub fn draw_traffic(c: &mut Ctx, max_faults: usize) -> (Vec<u32>, bool) {
    if c.s.chance(3, 4) {
        let mut p = draw_packets(c, 50);
        let n = damage(c, &mut p, max_faults);
        (p.concat(), n > 0)
    } else {
        let first = draw_packets(c, 40);
        let mut senders = vec![];
        for i in 0..c.s.range(1, 3) {
            let mut ps = if i == 0 { first.clone() } else { relative(c, &first) };
            if c.s.chance(1, 3) {
                ps.extend(relative(c, &first));
            }
            senders.push(Sender::draw(c, ps));
        }
        let f = Faults::draw(c);
        let mut got: Vec<u32> = vec![];
        let r: Result<(), ()> = link::run(c, &mut senders, &f, &mut |_, _, p| {
            got.extend_from_slice(&p);
            Ok(())
        });
        let _ = r;
        c.count("several senders over the simulated link");
        (got, true)
    }
}

pub fn draw_byte_traffic(c: &mut Ctx, max_faults: usize) -> Vec<u8> {
    let one = |c: &mut Ctx| -> Vec<u8> {
        if c.s.chance(2, 3) {
            let n = c.s.len(40, 6);
            let v: Vec<u8> = (0..n).map(|_| c.s.u7()).collect();
            build_sysex7_bytes(&v)
        } else {
            loop {
                let k = fields::draw_kind(c);
                if let Some(f) = &k.bytes {
                    return fields::received::<u8>(c, k, f);
                }
                if c.s.chance(1, 8) {
                    return vec![0xF8];
                }
            }
        }
    };
    let mut b = one(c);
    for _ in 0..c.s.range(0, max_faults) {
        if b.is_empty() {
            break;
        }
        let i = c.s.below(b.len());
        let what = c.s.draw(7);
        c.ev(0x7100 + what);
        c.ev(i as u64);
        match what {
            0 => {
                c.count("fault: byte lost");
                b.remove(i);
            }
            1 => {
                c.count("fault: byte duplicated");
                let x = b[i];
                b.insert(i, x);
            }
            2 => {
                c.count("fault: byte changed");
                b[i] ^= 1 << c.s.draw(8);
            }
            3 => {
                c.count("fault: byte changed");
                b[i] = *c.s.pick(&[0xF0u8, 0xF7, 0xFF, 0xF8, 0x80, 0x7F, 0x00, 0x90, 0xFE]);
            }
            4 => {
                c.count("fault: cut short");
                b.truncate(i);
            }
            5 => {
                c.count("fault: another message interleaved");
                let o = one(c);
                let tail = b.split_off(i);
                b.extend(o);
                b.extend(tail);
            }
            _ => {
                c.count("fault: bytes exchanged");
                let j = c.s.below(b.len());
                b.swap(i, j);
            }
        }
    }
    b
}

// ------------------------------------------------------------------ C08

/// Everything a user can read of an accepted message, and its data handed back to the same parser.
fn drink<U: Segs>(
    c: &mut Ctx,
    parser: &str,
    m: &dyn Msg<U>,
    again: &dyn Fn(&[U]) -> Result<(Vec<u64>, Vec<U>), InvalidData>,
) -> R {
    let (u, r) = (lib!(m.units().to_vec()), lib!(m.readings()));
    if c.s.chance(1, 8) {
        let d = lib!(m.debug());
        ensure!(!d.is_empty(), format!("{parser}: nothing to show"), "");
    }
    c.count("damaged traffic accepted as a message");
    match again(&u) {
        Ok((r2, u2)) => ensure!(
            r == r2 && u == u2,
            format!("{parser}: accepted message reads differently from its own data"),
            "data {} readings {r:x?}; parsed from that data: {} {r2:x?}",
            fields::hexu(&u),
            fields::hexu(&u2)
        ),
        Err(e) => fail!(format!("{parser}: accepted message's own data is rejected"), "{} {e:?}", fields::hexu(&u)),
    }
    Ok(())
}

fn packets_ok<B: midi2::buffer::Ump>(m: &impl Packets, data: &[u32], parser: &str, _: std::marker::PhantomData<B>) -> R {
    let mut got = vec![];
    let mut it = lib!(m.packets());
    let mut n = 0;
    while let Some(p) = lib!(it.next()) {
        got.extend_from_slice(&lib!(p.to_vec()));
        packet_use(&p)?;
        n += 1;
        ensure!(n <= data.len() + 1, format!("{parser}: packets do not end"), "");
    }
    if data.len() % 4 == 0 || nib(data[0], 0) < 0xD {
        ensure!(
            got == data,
            format!("{parser}: packets of an accepted message are not its data"),
            "{} packets {}",
            hex32(data),
            hex32(&got)
        );
    }
    Ok(())
}

/// the general packet type has no public name of its own
pub type Packet = <PacketsIterator<'static> as Iterator>::Item;

/// 0 complete, 1 start, 2 continue, 3 end, 4 and 5 unexpected end (the status types have no public name)
pub fn mark_of(debug: &str) -> u64 {
    match debug {
        "Complete" => 0,
        "Start" => 1,
        "Continue" => 2,
        "End" => 3,
        "UnexpectedEnd(Valid)" => 4,
        "UnexpectedEnd(Invalid)" => 5,
        _ => 9,
    }
}

/// Every reading of a single packet: group, stream, payload, mark.
pub fn packet_use(p: &Packet) -> R<(Option<u8>, Option<u8>, Vec<u8>, u64)> {
    Ok(match p {
        Packet::Sysex7(p) => {
            let v: Vec<u8> = lib!(p.payload().map(u8::from).collect());
            let (n, h) = (lib!(p.payload().len()), lib!(p.payload().size_hint()));
            ensure!(v.len() == n && h == (n, Some(n)), "sysex7 packet: sizes disagree", "{} bytes, len {n}, hint {h:?}", v.len());
            let s = mark_of(&lib!(format!("{:?}", p.status())));
            (Some(u8::from(lib!(p.group()))), None, v, s)
        }
        Packet::Sysex8(p) => {
            let v: Vec<u8> = lib!(p.payload().collect());
            let (n, h) = (lib!(p.payload().len()), lib!(p.payload().size_hint()));
            ensure!(v.len() == n && h == (n, Some(n)), "sysex8 packet: sizes disagree", "{} bytes, len {n}, hint {h:?}", v.len());
            let s = mark_of(&lib!(format!("{:?}", p.status())));
            (Some(u8::from(lib!(p.group()))), Some(lib!(p.stream_id())), v, s)
        }
        Packet::FlexData(p) => {
            let s = mark_of(&lib!(format!("{:?}", p.format())));
            (Some(u8::from(lib!(p.group()))), None, vec![], s)
        }
        Packet::UmpStream(p) => {
            let s = mark_of(&lib!(format!("{:?}", p.format())));
            (None, None, vec![], s)
        }
        Packet::ChannelVoice1(p) => (Some(u8::from(lib!(p.group()))), None, vec![], 0),
        Packet::ChannelVoice2(p) => (Some(u8::from(lib!(p.group()))), None, vec![], 0),
        Packet::SystemCommon(p) => (Some(u8::from(lib!(p.group()))), None, vec![], 0),
        Packet::Utility(_) => (None, None, vec![], 0),
    })
}

macro_rules! general {
    ($c:ident, $w:ident, $name:expr, $T:ident, $face:path) => {{
        if let Ok(m) = lib!($T::try_from($w)) {
            drink::<u32>($c, $name, $face(&m), &|u| {
                let m = lib!($T::try_from(u))?;
                Ok((lib!($face(&m).readings()), lib!($face(&m).units().to_vec())))
            })?;
            let d = lib!(m.data().to_vec());
            packets_ok::<&[u32]>(&m, &d, $name, std::marker::PhantomData)?;
        }
    }};
}

pub fn taste(c: &mut Ctx, w: &[u32]) -> R {
    if let Err(e) = lib!(UmpMessage::try_from(w)) {
        // a receiver can say what is wrong
        let all = lib!(Error::from(e.clone()));
        ensure!(all == Error::InvalidData(e.clone()), "error changed on its way up", "{e:?} became {all:?}");
        #[cfg(feature = "std")]
        let said = lib!(format!("{e}"));
        #[cfg(not(feature = "std"))]
        let said = lib!(format!("{e:?}"));
        ensure!(!said.is_empty(), "error says nothing", "{e:?}");
    }
    use crate::agg;
    general!(c, w, "UmpMessage", UmpMessage, agg::ump);
    general!(c, w, "FlexData", FlexData, agg::fd);
    general!(c, w, "UmpStream", UmpStream, agg::us);
    general!(c, w, "ChannelVoice1", ChannelVoice1, agg::cv1);
    general!(c, w, "ChannelVoice2", ChannelVoice2, agg::cv2);
    general!(c, w, "SystemCommon", SystemCommon, agg::sc);
    general!(c, w, "Utility", Utility, agg::ut);
    if let Ok(m) = lib!(Sysex7::try_from(w)) {
        drink::<u32>(c, "Sysex7", &m, &|u| {
            let m = lib!(Sysex7::try_from(u))?;
            Ok((lib!(Msg::<u32>::readings(&m)), lib!(m.data().to_vec())))
        })?;
    }
    if let Ok(m) = lib!(Sysex8::try_from(w)) {
        drink::<u32>(c, "Sysex8", &m, &|u| {
            let m = lib!(Sysex8::try_from(u))?;
            Ok((lib!(Msg::<u32>::readings(&m)), lib!(m.data().to_vec())))
        })?;
    }
    // single message types: those the header points to and others
    let any = c.s.chance(1, 8);
    for k in KINDS {
        if !any && w.first().map_or(true, |x| x >> 28 != k.ump.tmpl[0] >> 28) {
            continue;
        }
        if let Ok(m) = lib!((k.ump.parse)(w)) {
            drink::<u32>(c, k.name, &*m, &|u| {
                let m = lib!((k.ump.parse)(u))?;
                Ok((lib!(m.readings()), lib!(m.units().to_vec())))
            })?;
        }
    }
    for k in TEXTS {
        if !any && w.first().map_or(true, |x| x >> 28 != if k.stream { 0xF } else { 0xD }) {
            continue;
        }
        if let Ok((r, u)) = (k.parse)(w) {
            match (k.parse)(&u) {
                Ok((r2, u2)) => ensure!(
                    r == r2 && u == u2,
                    format!("{}: accepted message reads differently from its own data", k.name),
                    "data {} readings {r:x?}; parsed from that data: {} {r2:x?}",
                    hex32(&u),
                    hex32(&u2)
                ),
                Err(e) => fail!(format!("{}: accepted message's own data is rejected", k.name), "{} {e:?}", hex32(&u)),
            }
            c.count("damaged traffic accepted as a message");
            if c.s.chance(1, 4) {
                if let Some(r) = (k.consume)(c, w) {
                    r?;
                }
            }
        }
    }
    // single packets
    if let Ok(p) = lib!(Packet::try_from(w)) {
        packet_use(&p)?;
        let again = lib!(Packet::try_from(&p[..]));
        ensure!(again.as_ref() == Ok(&p), "Packet: accepted packet's own data gives another packet", "{p:?} {again:?}");
        c.count("damaged traffic accepted as a packet");
    }
    macro_rules! pk { ($($P:path, $v:path);*) => {$(
        if let Ok(p) = lib!(<$P>::try_from(w)) {
            packet_use(&$v(p))?;
        }
    )*} }
    pk!(sysex7::Packet, Packet::Sysex7; sysex8::Packet, Packet::Sysex8; flex_data::Packet, Packet::FlexData;
        ump_stream::Packet, Packet::UmpStream; channel_voice1::Packet, Packet::ChannelVoice1;
        channel_voice2::Packet, Packet::ChannelVoice2; system_common::Packet, Packet::SystemCommon; utility::Packet, Packet::Utility);
    Ok(())
}

pub fn taste_bytes(c: &mut Ctx, b: &[u8]) -> R {
    use crate::agg;
    macro_rules! g { ($name:expr, $T:ident, $face:path) => {
        if let Ok(m) = lib!($T::try_from(b)) {
            drink::<u8>(c, $name, $face(&m), &|u| {
                let m = lib!($T::try_from(u))?;
                Ok((lib!($face(&m).readings()), lib!($face(&m).units().to_vec())))
            })?;
        }
    } }
    g!("BytesMessage", BytesMessage, agg::bytes);
    g!("ChannelVoice1 (bytes)", ChannelVoice1, agg::cv1b);
    g!("SystemCommon (bytes)", SystemCommon, agg::scb);
    if let Ok(m) = lib!(Sysex7::try_from(b)) {
        drink::<u8>(c, "Sysex7 (bytes)", &m, &|u| {
            let m = lib!(Sysex7::try_from(u))?;
            Ok((lib!(Msg::<u8>::readings(&m)), lib!(m.data().to_vec())))
        })?;
    }
    for k in KINDS {
        let Some(f) = &k.bytes else { continue };
        if let Ok(m) = lib!((f.parse)(b)) {
            drink::<u8>(c, k.name, &*m, &|u| {
                let m = lib!((f.parse)(u))?;
                Ok((lib!(m.readings()), lib!(m.units().to_vec())))
            })?;
        }
    }
    Ok(())
}

pub fn damaged_ump(c: &mut Ctx) -> R {
    let w = match c.s.draw(8) {
        0 => {
            let n = c.s.range(0, 12);
            let mut w: Vec<u32> = (0..n).map(|_| c.s.u32()).collect();
            if let Some(x) = w.first_mut() {
                if c.s.chance(1, 2) {
                    // somewhere near a real message type
                    let k = fields::draw_kind(c);
                    *x = (*x & 0x0F00_FFFF & !k.ump.mask[0]) | k.ump.tmpl[0];
                }
            }
            c.count("noise instead of traffic");
            w
        }
        _ => {
            let (mut w, _) = draw_traffic(c, 4);
            if c.s.chance(1, 4) {
                let n = c.s.range(0, w.len());
                w.truncate(n);
                c.count("fault: cut short");
            }
            w
        }
    };
    tr!(c, "handed over {}", hex32(&w));
    c.ev(w.len() as u64);
    for x in w.iter().take(64) {
        c.ev(*x as u64);
    }
    c.nontrivial = !w.is_empty();
    taste(c, &w)
}

pub fn damaged_bytes(c: &mut Ctx) -> R {
    let b = if c.s.chance(1, 8) {
        let n = c.s.range(0, 12);
        c.count("noise instead of traffic");
        (0..n).map(|_| c.s.u8()).collect()
    } else {
        draw_byte_traffic(c, 4)
    };
    tr!(c, "handed over {}", hex8(&b));
    c.ev_bytes(&b);
    c.nontrivial = !b.is_empty();
    taste_bytes(c, &b)
}

// ------------------------------------------------------------------ C09

/// the packets of `w` with everything that has no meaning for a message not addressed to a channel ignored
fn lenient(w: &[u32]) -> Vec<u32> {
    let mut w = w.to_vec();
    let n = leading_run(&w, 0xD, 4).unwrap_or(0);
    for i in 0..n {
        let x = &mut w[4 * i];
        if (*x >> 20) & 3 != 0 {
            *x = (*x & !0x003F_0000) | 0x0010_0000;
        }
    }
    w
}

fn verdict<T: std::fmt::Debug>(c: &mut Ctx, name: &str, w: &str, want: Result<T, &'static str>, must_reject: bool, got: bool) -> R<Option<T>> {
    match want {
        Ok(t) => {
            c.count("whole message among the traffic");
            ensure!(got, format!("{name}: a complete, ordered message is rejected"), "{w} decodes to {t:?}");
            Ok(Some(t))
        }
        Err(why) => {
            if must_reject {
                c.count("broken message among the traffic");
                ensure!(!got, format!("{name}: accepted though {why}"), "{w}");
            }
            Ok(None)
        }
    }
}

pub fn whole_ump(c: &mut Ctx) -> R {
    let (w, _) = draw_traffic(c, 3);
    tr!(c, "handed over {}", hex32(&w));
    for x in w.iter().take(64) {
        c.ev(*x as u64);
    }
    c.nontrivial = w.len() > 4;
    let h = hex32(&w);
    // sysex7
    {
        let got = lib!(Sysex7::try_from(&w[..]));
        if let Some(x) = verdict(c, "sysex7", &h, parse_sysex7(&w), true, got.is_ok())? {
            let m = got.unwrap();
            let r = lib!(Msg::<u32>::readings(&m));
            let mut e = vec![x.group as u64, x.payload.len() as u64];
            e.extend(x.payload.iter().map(|b| *b as u64));
            ensure!(r == e, "sysex7: accepted message reads differently from what was sent", "{h}: {r:x?} expected {e:x?}");
            ensure!(lib!(m.data().len()) == 2 * x.packets, "sysex7: accepted message is not the packets collected", "{h}: {} words", lib!(m.data().len()));
        }
    }
    {
        let got = lib!(Sysex8::try_from(&w[..]));
        if let Some(x) = verdict(c, "sysex8", &h, parse_sysex8(&w), true, got.is_ok())? {
            let m = got.unwrap();
            let r = lib!(Msg::<u32>::readings(&m));
            let mut e = vec![x.group as u64, x.stream.unwrap() as u64, x.payload.len() as u64];
            e.extend(x.payload.iter().map(|b| *b as u64));
            ensure!(r == e, "sysex8: accepted message reads differently from what was sent", "{h}: {r:x?} expected {e:x?}");
            ensure!(lib!(m.data().len()) == 4 * x.packets, "sysex8: accepted message is not the packets collected", "{h}: {} words", lib!(m.data().len()));
        }
    }
    let mt = w.first().map_or(0, |x| x >> 28);
    if mt == 0xD || mt == 0xF {
        let other = c.s.below(TEXTS.len());
        for (i, k) in TEXTS.iter().enumerate() {
            let head = if k.stream {
                mt == 0xF && ((w[0] >> 16) & 0x3FF) as u16 == k.status
            } else {
                mt == 0xD && (w[0] & 0xFFFF) as u16 == ((k.bank as u16) << 8 | k.status)
            };
            if head || i == other {
                text_verdict(c, k, &w, &h)?;
            }
        }
    }
    Ok(())
}

fn text_verdict(c: &mut Ctx, k: &'static TxtKind, w: &[u32], h: &str) -> R {
    let fam = if k.stream { "stream text" } else { "flex data text" };
    let got = (k.parse)(w);
    let must_reject = k.stream || k.decode(&lenient(w)).is_err();
    if let Some(x) = verdict(c, fam, h, k.decode(w), must_reject, got.is_ok())? {
        let (r, u) = got.unwrap();
        let mut e: Vec<u64> = if !k.stream {
            vec![x.group as u64, x.channel.map_or(0x10, |c| c as u64)]
        } else if k.fb {
            vec![x.function_block as u64]
        } else {
            vec![]
        };
        e.extend(x.bytes.iter().map(|b| *b as u64));
        e.push(x.bytes.len() as u64);
        ensure!(r == e, format!("{fam}: accepted message reads differently from what was sent"), "{} {h}: {r:x?} expected {e:x?}", k.name);
        ensure!(u.len() == 4 * x.packets, format!("{fam}: accepted message is not the packets collected"), "{} {h}: {} words", k.name, u.len());
    }
    Ok(())
}

pub fn whole_bytes(c: &mut Ctx) -> R {
    let b = draw_byte_traffic(c, 2);
    tr!(c, "handed over {}", hex8(&b));
    c.ev_bytes(&b);
    c.nontrivial = b.len() > 2;
    let h = hex8(&b);
    let got = lib!(Sysex7::try_from(&b[..]));
    if let Some(x) = verdict(c, "sysex7 bytes", &h, parse_sysex7_bytes(&b), true, got.is_ok())? {
        let r = lib!(Msg::<u8>::readings(&got.unwrap()));
        let mut e = vec![x.payload.len() as u64];
        e.extend(x.payload.iter().map(|b| *b as u64));
        ensure!(r == e, "sysex7 bytes: accepted message reads differently from what was sent", "{h}: {r:x?} expected {e:x?}");
    }
    Ok(())
}

/// Flex data and stream messages of a fixed size are a single complete packet.
pub fn single(c: &mut Ctx) -> R {
    let k = loop {
        let k = fields::draw_kind(c);
        if matches!(k.ump.tmpl[0] >> 28, 0xD | 0xF) {
            break k;
        }
    };
    let one = fields::received::<u32>(c, k, &k.ump);
    let (mask, at) = if one[0] >> 28 == 0xF { (0x0C00_0000u32, 26) } else { (0x00C0_0000, 22) };
    let n = c.s.range(1, 4);
    let mut w = vec![];
    for i in 0..n {
        let form = match c.s.draw(8) {
            0 => c.s.draw(4) as u32,
            _ if n == 1 => 0,
            _ if i == 0 => 1,
            _ if i + 1 == n => 3,
            _ => 2,
        };
        // every packet of it alike, or other content in what follows
        let mut p = if i > 0 && c.s.chance(1, 3) { fields::received::<u32>(c, k, &k.ump) } else { one.clone() };
        p[0] = p[0] & !mask | form << at;
        w.append(&mut p);
    }
    tr!(c, "{} in {n} packets: {}", k.name, hex32(&w));
    c.ev_bytes(k.name.as_bytes());
    for x in &w {
        c.ev(*x as u64);
    }
    c.nontrivial = true;
    let got = lib!((k.ump.parse)(&w)).is_ok();
    let first = w[0] & mask;
    if first != 0 {
        ensure!(!got, format!("{}: accepted though its packet is not a complete one", k.name), "{}", hex32(&w));
        c.count("broken message among the traffic");
    } else if n == 1 {
        ensure!(got, format!("{}: a complete message is rejected", k.name), "{}", hex32(&w));
        c.count("whole message among the traffic");
    }
    Ok(())
}

/// Single packets: a sysex packet is one only with a status and a size its layout allows.
pub fn whole_packet(c: &mut Ctx) -> R {
    let eight = c.s.chance(1, 2);
    let n = if eight { 4 } else { 2 };
    let mut w: Vec<u32> = (0..c.s.range(0, n + 1)).map(|_| c.s.u32()).collect();
    if let Some(x) = w.first_mut() {
        if !c.s.chance(1, 16) {
            *x = (*x & 0x0FFF_FFFF) | if eight { 0x5000_0000 } else { 0x3000_0000 };
        }
        if c.s.chance(3, 4) {
            *x &= !0x00C0_0000;
        }
    }
    tr!(c, "packet {}", hex32(&w));
    for x in &w {
        c.ev(*x as u64);
    }
    c.nontrivial = true;
    let fit = w.len() >= n && nib(w[0], 0) == if eight { 5 } else { 3 } && nib(w[0], 2) < 4;
    let size = w.first().map_or(0, |x| nib(*x, 3));
    let got = if eight { lib!(sysex8::Packet::try_from(&w[..])).is_ok() } else { lib!(sysex7::Packet::try_from(&w[..])).is_ok() };
    // size 15 on a sysex8 end packet announces that the message is to be discarded
    let sized = if eight { (1..=14).contains(&size) || (size == 15 && nib(w[0], 2) == 3) } else { size <= 6 };
    let name = if eight { "sysex8 packet" } else { "sysex7 packet" };
    if fit && sized && !(eight && size == 15) {
        ensure!(got, format!("{name}: a well-formed packet is rejected"), "{}", hex32(&w));
        c.count("whole message among the traffic");
    } else if !fit || !sized {
        ensure!(!got, format!("{name}: accepted though its header is not one"), "{}", hex32(&w));
        c.count("broken message among the traffic");
    }
    Ok(())
}
