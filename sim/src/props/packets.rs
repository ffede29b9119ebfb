//! C19: single packets, taken from the wire or cut from a message.
use crate::engine::{Ctx, R};
use crate::props::recv::{self, mark_of, Packet};
use crate::wire::*;
use crate::{ensure, fail, lib, tr};
use midi2::prelude::*;

/// What the words of a packet say.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Said {
    words: Vec<u32>,
    group: Option<u8>,
    channel: Option<u8>,
    stream: Option<u8>,
    payload: Option<Vec<u8>>,
    /// position in its message
    mark: Option<u64>,
    debug: String,
}

fn debug_of(w: &[u32]) -> String {
    let v: Vec<String> = w.iter().map(|x| format!("0x{x:08X}")).collect();
    format!("Packet([{}])", v.join(", "))
}

/// None: not a packet. Err: whether it is one is left open (missing words).
fn decode(w: &[u32]) -> Result<Option<Said>, ()> {
    let Some(w0) = w.first().copied() else { return Ok(None) };
    let mt = nib(w0, 0);
    let n = match mt {
        0 | 1 | 2 => 1,
        3 | 4 => 2,
        5 | 0xD | 0xF => 4,
        _ => return Ok(None),
    };
    if w.len() < n {
        return match mt {
            3 | 5 => Ok(None),
            _ => Err(()),
        };
    }
    let w = w[..n].to_vec();
    let size = nib(w0, 3) as usize;
    let status = nib(w0, 2);
    let (mut stream, mut payload, mut mark) = (None, None, None);
    match mt {
        3 => {
            if status > 3 || size > 6 {
                return Ok(None);
            }
            payload = Some((0..size).map(|i| octet_at(&w, 2 + i) & 0x7F).collect());
            mark = Some(status as u64);
        }
        5 => {
            if status > 3 {
                return Ok(None);
            }
            let blank = w0 & 0xFF == 0 && w[1..] == [0; 3];
            mark = Some(match (status, size, blank) {
                (3, 1, true) => 4,
                (3, 15, true) => 5,
                (_, 1..=14, _) => status as u64,
                _ => return Ok(None),
            });
            stream = Some(oct(w0, 2));
            let len = if size == 15 { 0 } else { size - 1 };
            payload = Some((0..len).map(|i| octet_at(&w, 3 + i)).collect());
        }
        0xD => mark = Some((w0 >> 22 & 3) as u64),
        0xF => mark = Some((w0 >> 26 & 3) as u64),
        _ => {}
    }
    Ok(Some(Said {
        group: if mt == 0 || mt == 0xF { None } else { Some(nib(w0, 1)) },
        channel: if mt == 2 || mt == 4 { Some(nib(w0, 3)) } else { None },
        stream,
        payload,
        mark,
        debug: debug_of(&w),
        words: w,
    }))
}

fn said(p: &Packet) -> Said {
    let words = lib!(p.to_vec());
    let mut s = Said { words, group: None, channel: None, stream: None, payload: None, mark: None, debug: String::new() };
    match p {
        Packet::Utility(p) => s.debug = lib!(format!("{p:?}")),
        Packet::SystemCommon(p) => {
            s.group = Some(u8::from(lib!(p.group())));
            s.debug = lib!(format!("{p:?}"));
        }
        Packet::ChannelVoice1(p) => {
            s.group = Some(u8::from(lib!(p.group())));
            s.channel = Some(u8::from(lib!(p.channel())));
            s.debug = lib!(format!("{p:?}"));
        }
        Packet::ChannelVoice2(p) => {
            s.group = Some(u8::from(lib!(p.group())));
            s.channel = Some(u8::from(lib!(p.channel())));
            s.debug = lib!(format!("{p:?}"));
        }
        Packet::Sysex7(p) => {
            s.group = Some(u8::from(lib!(p.group())));
            s.payload = Some(lib!(p.payload().map(u8::from).collect()));
            s.mark = Some(mark_of(&lib!(format!("{:?}", p.status()))));
            s.debug = lib!(format!("{p:?}"));
        }
        Packet::Sysex8(p) => {
            s.group = Some(u8::from(lib!(p.group())));
            s.stream = Some(lib!(p.stream_id()));
            s.payload = Some(lib!(p.payload().collect()));
            s.mark = Some(mark_of(&lib!(format!("{:?}", p.status()))));
            s.debug = lib!(format!("{p:?}"));
        }
        Packet::FlexData(p) => {
            s.group = Some(u8::from(lib!(p.group())));
            s.mark = Some(mark_of(&lib!(format!("{:?}", p.format()))));
            s.debug = lib!(format!("{p:?}"));
        }
        Packet::UmpStream(p) => {
            s.mark = Some(mark_of(&lib!(format!("{:?}", p.format()))));
            s.debug = lib!(format!("{p:?}"));
        }
    }
    s
}

fn family(p: &Packet) -> (&'static str, u8) {
    match p {
        Packet::Utility(_) => ("utility packet", 0),
        Packet::SystemCommon(_) => ("system common packet", 1),
        Packet::ChannelVoice1(_) => ("channel voice 1 packet", 2),
        Packet::Sysex7(_) => ("sysex7 packet", 3),
        Packet::ChannelVoice2(_) => ("channel voice 2 packet", 4),
        Packet::Sysex8(_) => ("sysex8 packet", 5),
        Packet::FlexData(_) => ("flex data packet", 0xD),
        Packet::UmpStream(_) => ("stream packet", 0xF),
    }
}

fn put_group(p: &mut Packet, g: u4) -> bool {
    match p {
        Packet::SystemCommon(p) => lib!(p.set_group(g)),
        Packet::ChannelVoice1(p) => lib!(p.set_group(g)),
        Packet::ChannelVoice2(p) => lib!(p.set_group(g)),
        Packet::Sysex7(p) => lib!(p.set_group(g)),
        Packet::Sysex8(p) => lib!(p.set_group(g)),
        Packet::FlexData(p) => lib!(p.set_group(g)),
        _ => return false,
    }
    true
}
fn put_channel(p: &mut Packet, ch: u4) -> bool {
    match p {
        Packet::ChannelVoice1(p) => lib!(p.set_channel(ch)),
        Packet::ChannelVoice2(p) => lib!(p.set_channel(ch)),
        _ => return false,
    }
    true
}

fn same(p: &Packet, want: &Said, when: &str) -> R {
    let (name, mt) = family(p);
    ensure!(mt == nib(want.words[0], 0), format!("{name}: {when}: another family's packet"), "{}", hex32(&want.words));
    let got = said(p);
    for (what, bad) in [
        ("words", got.words != want.words),
        ("group", got.group != want.group),
        ("channel", got.channel != want.channel),
        ("stream id", got.stream != want.stream),
        ("payload", got.payload != want.payload),
        ("position", got.mark != want.mark),
        ("printed words", got.debug != want.debug),
    ] {
        ensure!(!bad, format!("{name}: {when}: {what} differ"), "expected {want:x?}\n  got {got:x?}");
    }
    Ok(())
}

macro_rules! own {
    ($w:expr, $want:expr, $mt:expr, $($n:expr, $P:path, $V:path, $mts:expr);*) => {$(
        let one = lib!(<$P>::try_from($w)).ok();
        match (&$want, one) {
            (Ok(Some(s)), Some(p)) if $mt == $mts => same(&$V(p), s, "on its own")?,
            (Ok(Some(_)), None) if $mt == $mts => fail!(format!("{}: a packet of the family is rejected", $n), "{}", hex32($w)),
            (Err(()), None) => {}
            (Err(()), Some(_)) if $mt == $mts => {}
            (_, Some(_)) => fail!(format!("{}: accepts what is none", $n), "{}", hex32($w)),
            (_, None) => {}
        }
    )*}
}

/// Packets off the wire.
pub fn arriving(c: &mut Ctx) -> R {
    let mut w: Vec<u32> = match c.s.draw(3) {
        0 => (0..c.s.range(0, 6)).map(|_| c.s.u32()).collect(),
        1 => recv::draw_traffic(c, 2).0,
        _ => recv::draw_packets(c, 40).concat(),
    };
    if let Some(x) = w.first_mut() {
        match c.s.draw(4) {
            0 => {
                c.count("fault: header bit flipped");
                *x ^= 1 << c.s.draw(32);
            }
            1 => {
                c.count("fault: header of another kind");
                *x = *x & 0x0FFF_FFFF | (*c.s.pick(&[0u32, 1, 2, 3, 4, 5, 0xD, 0xF, 6, 0xE])) << 28;
            }
            _ => {}
        }
    }
    if c.s.chance(1, 4) {
        c.count("fault: cut short");
        let n = c.s.range(0, w.len().min(5));
        w.truncate(n);
    }
    if !w.is_empty() && c.s.chance(1, 6) {
        let n = w.len();
        for x in &mut w[1..n.min(4)] {
            *x = 0;
        }
        w[0] &= !0xFF;
        if c.s.chance(1, 4) {
            // mostly what ends a sysex8 message early, or almost does
            c.count("sysex8 message ended early");
            set_nib(&mut w[0], 0, 5);
            let (st, n) = (*c.s.pick(&[3u8, 3, 3, 3, 0, 1, 2, 7]), *c.s.pick(&[15u8, 15, 15, 1, 14, 0]));
            set_nib(&mut w[0], 2, st);
            set_nib(&mut w[0], 3, n);
            w.resize(4, 0);
            if c.s.chance(1, 4) {
                let i = c.s.range(8, 127);
                w[i / 32] |= 1 << (i % 32);
            }
        }
    }
    w.truncate(12);
    tr!(c, "words {}", hex32(&w));
    c.ev_words(&w);
    c.step();
    let want = decode(&w);
    let mt = w.first().map_or(16, |x| nib(*x, 0));
    own!(&w[..], want, mt,
        "utility packet", midi2::utility::Packet, Packet::Utility, 0;
        "system common packet", system_common::Packet, Packet::SystemCommon, 1;
        "channel voice 1 packet", channel_voice1::Packet, Packet::ChannelVoice1, 2;
        "sysex7 packet", sysex7::Packet, Packet::Sysex7, 3;
        "channel voice 2 packet", channel_voice2::Packet, Packet::ChannelVoice2, 4;
        "sysex8 packet", sysex8::Packet, Packet::Sysex8, 5;
        "flex data packet", flex_data::Packet, Packet::FlexData, 0xD;
        "stream packet", ump_stream::Packet, Packet::UmpStream, 0xF);
    let p = lib!(Packet::try_from(&w[..]));
    match want {
        Ok(None) => {
            ensure!(p.is_err(), "packet: accepts what is none", "{}", hex32(&w));
            c.count("no packet");
            Ok(())
        }
        Err(()) => {
            c.count("packet with missing words");
            if let Ok(p) = p {
                // missing words read as nothing
                let mut v = w.clone();
                v.resize(if mt == 4 { 2 } else { 4 }, 0);
                if let Ok(Some(s)) = decode(&v) {
                    same(&p, &s, "cut short")?;
                }
            }
            Ok(())
        }
        Ok(Some(s)) => {
            let Ok(p) = p else { fail!("packet: a packet is rejected", "{}", hex32(&w)) };
            c.count("packet of a known family");
            same(&p, &s, "arriving")?;
            edits(c, p, s)
        }
    }
}

/// Group and channel changes.
fn edits(c: &mut Ctx, mut p: Packet, mut s: Said) -> R {
    let n = c.s.range(0, 4);
    for _ in 0..n {
        c.step();
        c.nontrivial = true;
        let v = c.s.draw(16) as u8;
        let mut w = s.words.clone();
        let when;
        if c.s.chance(1, 2) {
            tr!(c, "group {v}");
            c.ev(v as u64);
            if !put_group(&mut p, u4::new(v)) {
                continue;
            }
            set_nib(&mut w[0], 1, v);
            when = "group changed";
        } else {
            tr!(c, "channel {v}");
            c.ev(0x100 + v as u64);
            if !put_channel(&mut p, u4::new(v)) {
                continue;
            }
            set_nib(&mut w[0], 3, v);
            when = "channel changed";
        }
        c.count("packet changed");
        s = decode(&w).ok().flatten().expect("harness: an edited packet is a packet");
        same(&p, &s, when)?;
        // and it travels on unchanged
        let q = lib!(Packet::try_from(&w[..]));
        ensure!(q.as_ref() == Ok(&p), "packet: changed packet differs from one with the same words", "{}", hex32(&w));
    }
    Ok(())
}
