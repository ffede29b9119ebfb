//! C10: several senders cut messages into packets and share one link; a receiver collects packets by
//! type, group, stream or addressing (the protocol's own rule) and parses what it collected.
use crate::agg;
use crate::engine::{Ctx, R};
use crate::link::{self, Faults, Sender};
use crate::props::recv::{cut, packet_use, Packet};
use crate::props::{fields, sysex, text};
use crate::sx::*;
use crate::tx::{self, TxtKind};
use crate::wire::*;
use crate::{ensure, fail, lib, tr};
use midi2::*;
use std::collections::{BTreeMap, VecDeque};

/// what must not be interleaved with another message
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Key {
    S7(u8),
    S8(u8, u8),
    Flex(u8, u8, u8, u8, u8),
    Stream(u16),
    /// complete in one packet
    Single,
}

fn key_of(w: &[u32]) -> Key {
    match nib(w[0], 0) {
        3 => Key::S7(nib(w[0], 1)),
        5 => Key::S8(nib(w[0], 1), oct(w[0], 2)),
        0xD => Key::Flex(nib(w[0], 1), (w[0] >> 20 & 3) as u8, nib(w[0], 3), oct(w[0], 2), oct(w[0], 3)),
        0xF => Key::Stream((w[0] >> 16 & 0x3FF) as u16),
        _ => Key::Single,
    }
}

#[derive(Clone, Debug)]
struct Sent {
    kind: &'static str,
    readings: Vec<u64>,
    units: Vec<u32>,
    packets: Vec<Vec<u32>>,
}

/// Parse with the general parser; kind, readings and data.
fn parse(w: &[u32]) -> Result<(&'static str, Vec<u64>, Vec<u32>), String> {
    match lib!(UmpMessage::try_from(w)) {
        Ok(m) => {
            let x = agg::ump(&m);
            Ok((x.kind(), lib!(x.readings()), lib!(x.units().to_vec())))
        }
        Err(e) => Err(format!("{e:?}")),
    }
}

/// The message as a sender holds it: what it reads, its data and its packets, checked against each other.
fn sent(kind: &str, units: Vec<u32>, packets: Vec<Vec<u32>>, payload: Option<Vec<u8>>, reads: Option<Vec<u64>>) -> R<Sent> {
    ensure!(
        packets.concat() == units,
        format!("{kind}: packets are not its data"),
        "data {} packets {}",
        hex32(&units),
        hex32(&packets.concat())
    );
    ensure!(packets == cut(&units), format!("{kind}: packets of the wrong size"), "{packets:08x?}");
    let n = packets.len();
    let mut carried = vec![];
    for (i, p) in packets.iter().enumerate() {
        let q = match lib!(Packet::try_from(&p[..])) {
            Ok(q) => q,
            Err(e) => fail!(format!("{kind}: its packet is not accepted as a packet"), "{} {e:?}", hex32(p)),
        };
        ensure!(lib!(q.to_vec()) == *p, format!("{kind}: a packet parses to other words"), "{} {:08x?}", hex32(p), &*q);
        let (g, s, v, mark) = packet_use(&q)?;
        let empty = v.is_empty();
        carried.extend(v);
        let want = match (n, i) {
            (1, _) => 0,
            (_, 0) => 1,
            (n, i) if i + 1 == n => 3,
            _ => 2,
        };
        // an end packet of a sysex8 message without data reads as an end after which the data is valid
        let mark = if mark == 4 && empty && nib(p[0], 0) == 5 { 3 } else { mark };
        ensure!(mark == want, format!("{kind}: packet mark differs from its place"), "packet {i} of {n} has {mark}, expected {want}");
        if !matches!(nib(p[0], 0), 0 | 0xF) {
            ensure!(g == Some(nib(units[0], 1)), format!("{kind}: packet group differs from the message's"), "{g:?} {}", hex32(p));
        }
        if nib(p[0], 0) == 5 {
            ensure!(s == Some(oct(units[0], 2)), format!("{kind}: packet stream differs from the message's"), "{s:?} {}", hex32(p));
        }
    }
    if let Some(b) = payload {
        ensure!(carried == b, format!("{kind}: packet payloads are not the message's"), "{} {}", hex8(&carried), hex8(&b));
    }
    let (kind_seen, readings, data) = match parse(&units) {
        Ok(x) => x,
        Err(e) => fail!(format!("{kind}: its own data is not accepted"), "{} {e}", hex32(&units)),
    };
    ensure!(data == units, format!("{kind}: parses to other data"), "{} {}", hex32(&units), hex32(&data));
    if let Some(r) = reads {
        ensure!(r == readings, format!("{kind}: readings differ after parsing"), "{r:x?} {readings:x?}");
    }
    Ok(Sent { kind: kind_seen, readings, units, packets })
}

fn sysex_message(c: &mut Ctx, f: Form, group: u8, stream: u8) -> R<Sent> {
    let (origin, model, _) = sysex::draw_origin(c, f, 40);
    let place = if c.s.chance(1, 4) { Place::draw(c, f, f.need(0), f.need(c.most(60))) } else { sysex::draw_roomy(c, f) };
    tr!(c, "{} in {place:?}", f.name());
    let n = c.s.range(1, 3);
    let mut out = None;
    with_sx(c, f, place, &origin, &mut |c, o, ctl| {
        for _ in 0..n {
            c.step();
            let (e, src) = sysex::draw_next(c, f, lib!(o.len()));
            let fal = o.can_try();
            if let (Some(ctl), true) = (&ctl, fal && c.s.chance(1, 8)) {
                ctl.arm(0, 1);
            }
            sysex::show_edit(c, e, &src, fal);
            if lib!(o.edit(e, &src, fal)).is_err() {
                c.count("fault: edit refused");
            }
            if let Some(ctl) = &ctl {
                ctl.disarm();
            }
        }
        lib!(o.put_group(group));
        if f == Form::U8 {
            lib!(o.put_stream(stream));
        }
        let u = match lib!(o.units()) {
            Units::W(w) => w,
            _ => unreachable!(),
        };
        out = Some(sent(f.name(), u, lib!(o.cut()), Some(lib!(o.bytes())), Some(lib!(o.reads())))?);
        Ok(())
    })?;
    match out {
        Some(s) => Ok(s),
        // the storage refused the message: send a received one
        None => {
            let v: Vec<u8> = (0..c.len(30, 6)).map(|_| c.s.u7()).collect();
            let sizes = draw_packing(c, v.len(), f.cap());
            let w = if f == Form::U7 { build_sysex7(group, &v, &sizes) } else { build_sysex8(group, stream, &v, &sizes) };
            let p = own_packets(&w)?;
            sent(f.name(), w, p, Some(v), None)
        }
    }
}

fn own_packets(w: &[u32]) -> R<Vec<Vec<u32>>> {
    match lib!(UmpMessage::try_from(w)) {
        Ok(m) => Ok(lib!(m.packets().map(|p| p.to_vec()).collect())),
        Err(e) => fail!("well-formed message is not accepted", "{} {e:?}", hex32(w)),
    }
}

fn text_message(c: &mut Ctx, k: &'static TxtKind, group: u8, chan: Option<u8>) -> R<Sent> {
    let (recv, model) = text::start(c, k, 40);
    let place = if c.s.chance(1, 4) { Place::draw_txt(c, 4, 4 * (c.most(96) / 12)) } else { text::roomy(c) };
    tr!(c, "{} in {place:?}", k.name);
    let n = c.s.range(1, 3);
    let mut out = None;
    (k.with)(c, place, recv.as_deref(), &mut |c, o, ctl| {
        let mut m = model.clone();
        for _ in 0..n {
            c.step();
            let op = text::draw_op(c, k, 60, 2);
            let fal = o.can_try();
            if let (Some(ctl), true) = (&ctl, fal && c.s.chance(1, 8)) {
                ctl.arm(0, 1);
            }
            if text::apply(c, o, &mut m, &op, fal).is_err() {
                c.count("fault: edit refused");
            }
            if let Some(ctl) = &ctl {
                ctl.disarm();
            }
        }
        if !k.stream {
            lib!(o.put_group(group));
            lib!(o.put_chan(chan));
        }
        out = Some(sent(k.name, lib!(o.words()), lib!(o.cut()), None, Some(lib!(o.reads())))?);
        Ok(())
    })?;
    match out {
        Some(s) => Ok(s),
        None => {
            let mut m = tx::draw_model(c, k, 40);
            m.group = group;
            m.channel = chan;
            let w = k.build(&m);
            let p = own_packets(&w)?;
            sent(k.name, w, p, None, None)
        }
    }
}

fn fixed_message(c: &mut Ctx) -> R<Sent> {
    let k = fields::draw_kind(c);
    let w = fields::received::<u32>(c, k, &k.ump);
    let p = own_packets(&w)?;
    let name = k.name;
    match parse(&w) {
        Ok((kind, readings, units)) if units.len() < w.len() => {
            // a type whose data is shorter than its packet
            ensure!(p == cut(&w), format!("{name}: packets are not its data"), "data {} packets {p:08x?}", hex32(&w));
            Ok(Sent { kind, readings, units, packets: p })
        }
        Ok((_, readings, _)) => sent(name, w, p, None, Some(readings)),
        Err(e) => fail!(format!("{name}: its own data is not accepted"), "{} {e}", hex32(&w)),
    }
}

enum Talk {
    S7(u8),
    S8(u8, u8),
    Text(&'static TxtKind, u8, Option<u8>),
    Fixed,
}

fn compose(c: &mut Ctx, t: &Talk) -> R<Sent> {
    match t {
        Talk::S7(g) => sysex_message(c, Form::U7, *g, 0),
        Talk::S8(g, s) => sysex_message(c, Form::U8, *g, *s),
        Talk::Text(k, g, ch) => text_message(c, k, *g, *ch),
        Talk::Fixed => fixed_message(c),
    }
}

/// The receiver: one partial message per key; a start replaces it, an end or complete packet delivers.
#[derive(Default)]
struct Receiver {
    partial: BTreeMap<Key, Vec<u32>>,
}

impl Receiver {
    fn packet(&mut self, w: &[u32]) -> R<Option<Vec<u32>>> {
        let p = match lib!(Packet::try_from(w)) {
            Ok(p) => p,
            Err(_) => return Ok(None),
        };
        let (.., mark) = packet_use(&p)?;
        let words = p.to_vec();
        let key = key_of(&words);
        if key == Key::Single {
            return Ok(Some(words));
        }
        Ok(match mark {
            0 => {
                self.partial.remove(&key);
                Some(words)
            }
            1 => {
                self.partial.insert(key, words);
                None
            }
            2 => {
                if let Some(q) = self.partial.get_mut(&key) {
                    q.extend(words);
                }
                None
            }
            3 | 4 => self.partial.remove(&key).map(|mut q| {
                q.extend(words);
                q
            }),
            _ => {
                self.partial.remove(&key);
                None
            }
        })
    }
}

pub fn delivery(c: &mut Ctx) -> R {
    // distinct senders: nothing two of them send may share a key
    let n = c.s.range(1, 4);
    let mut talks: Vec<Talk> = vec![];
    let mut keys: Vec<Key> = vec![];
    for _ in 0..n {
        let g = *c.s.pick(&[0u8, 1, 2, 15]);
        let (t, k) = match c.s.draw(7) {
            0 | 1 => (Talk::S7(g), Key::S7(g)),
            2 | 3 => {
                let s = *c.s.pick(&[0u8, 1, 7, 0xFF]);
                (Talk::S8(g, s), Key::S8(g, s))
            }
            4 | 5 => {
                let k = tx::draw_kind(c);
                if k.stream {
                    (Talk::Text(k, 0, None), Key::Stream(k.status))
                } else {
                    let ch = if c.s.chance(1, 2) { None } else { Some(*c.s.pick(&[0u8, 3, 15])) };
                    let (a, x) = ch.map_or((1, 0), |x| (0, x));
                    (Talk::Text(k, g, ch), Key::Flex(g, a, x, k.bank, k.status as u8))
                }
            }
            _ => (Talk::Fixed, Key::Single),
        };
        if k == Key::Single || !keys.contains(&k) {
            c.ev(match k {
                Key::S7(g) => 0x100 + g as u64,
                Key::S8(g, s) => 0x1000 + 16 * s as u64 + g as u64,
                Key::Flex(a, b, d, e, f) => 0x10000 + ((a as u64) << 32 | (b as u64) << 24 | (d as u64) << 16 | (e as u64) << 8 | f as u64),
                Key::Stream(s) => 0x2000 + s as u64,
                Key::Single => 1,
            });
            talks.push(t);
            keys.push(k);
        }
    }
    let mut rx = Receiver::default();
    if c.s.chance(1, 2) {
        // a bad time first: whatever it leaves behind in the receiver must not matter afterwards
        let mut senders = vec![];
        for t in &talks {
            let m = compose(c, t)?;
            senders.push(Sender::draw(c, m.packets));
        }
        let f = Faults::draw(c);
        tr!(c, "-- faulty link: {f:?}");
        link::run(c, &mut senders, &f, &mut |c, _, p| {
            if let Some(w) = rx.packet(&p)? {
                match parse(&w) {
                    Ok(_) => c.count("delivered while faults were going on"),
                    Err(_) => c.count("rejected while faults were going on"),
                }
            }
            Ok(())
        })?;
        if !rx.partial.is_empty() {
            c.count("fault: link left a partial message behind");
        }
        c.count("faults stopped, link clean");
    }
    let mut expected: Vec<VecDeque<Sent>> = vec![];
    let mut senders = vec![];
    let mut total = 0;
    for t in &talks {
        let mut q = VecDeque::new();
        for _ in 0..c.s.range(1, 3) {
            q.push_back(compose(c, t)?);
        }
        total += q.len();
        let packets: Vec<Vec<u32>> = q.iter().flat_map(|m: &Sent| m.packets.clone()).collect();
        c.nontrivial |= q.iter().any(|m| m.packets.len() > 1);
        senders.push(Sender::draw(c, packets));
        expected.push(q);
    }
    if talks.len() > 1 {
        c.count("packets of several messages interleaved");
    }
    tr!(c, "-- clean link");
    let f = Faults { stall: if c.s.chance(1, 4) { 8 } else { 0 }, ..Faults::none() };
    link::run(c, &mut senders, &f, &mut |c, i, p| {
        let Some(w) = rx.packet(&p)? else { return Ok(()) };
        let Some(m) = expected[i].pop_front() else {
            fail!("a message arrived that was not sent", "from {i}: {}", hex32(&w));
        };
        match parse(&w) {
            Ok((kind, readings, units)) => {
                ensure!(kind == m.kind, format!("{}: arrived as another type", m.kind), "{kind}: {}", hex32(&w));
                ensure!(units == m.units, format!("{}: arrived with other data", m.kind), "sent {} arrived {}", hex32(&m.units), hex32(&units));
                ensure!(readings == m.readings, format!("{}: arrived with other readings", m.kind), "{:x?} {readings:x?}", m.readings);
            }
            Err(e) => fail!(format!("{}: did not arrive", m.kind), "{} {e}", hex32(&w)),
        }
        c.count("message arrived");
        Ok(())
    })?;
    let left: usize = expected.iter().map(|q| q.len()).sum();
    ensure!(left == 0, "a message never arrived", "{left} of {total}");
    Ok(())
}
