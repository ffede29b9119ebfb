//! The iterator contract on every iterator the library hands out: C13.
use crate::engine::{Ctx, R};
use crate::iters::{check_iter, packets};
use crate::props::sysex;
use crate::sx::*;
use crate::tx;
use crate::{ensure, fail, lib, tr};
use midi2::sysex7::Sysex7;
use midi2::sysex8::Sysex8;
use midi2::*;

/// Words after a message that are not of its type.
pub fn trailing(c: &mut Ctx, w: &mut Vec<u32>) {
    if !c.s.chance(1, 3) {
        return;
    }
    let mt = w[0] >> 28;
    c.count("words behind the message");
    for i in 0..c.s.range(1, 9) {
        let mut x = c.s.u32();
        if i == 0 && x >> 28 == mt {
            x ^= 0x1000_0000;
        }
        w.push(x);
    }
}

pub fn sysex_iters(c: &mut Ctx) -> R {
    let f = Form::draw(c);
    c.ev(f as u64);
    if c.s.chance(1, 2) {
        let (_, _, _, units) = draw_recv(c, f, 60);
        match units {
            Units::W(mut w) => {
                let n = w.len();
                trailing(c, &mut w);
                tr!(c, "received {} ({n} words)", crate::wire::hex32(&w));
                for x in &w {
                    c.ev(*x as u64);
                }
                if f == Form::U7 {
                    let Ok(m) = lib!(Sysex7::try_from(&w[..])) else { fail!("sysex7: well-formed message rejected", "{}", crate::wire::hex32(&w)) };
                    check_iter(c, "payload of sysex7", &|| m.payload(), Some(|i| i.clone()), Some(|i| i.len()))?;
                    packets(c, "packets of sysex7", &|| m.packets(), n)
                } else {
                    let Ok(m) = lib!(Sysex8::try_from(&w[..])) else { fail!("sysex8: well-formed message rejected", "{}", crate::wire::hex32(&w)) };
                    check_iter(c, "payload of sysex8", &|| m.payload(), Some(|i| i.clone()), Some(|i| i.len()))?;
                    packets(c, "packets of sysex8", &|| m.packets(), n)
                }
            }
            Units::B(mut b) => {
                for _ in 0..c.s.below(4) {
                    b.push(c.s.u8());
                }
                tr!(c, "received {}", crate::wire::hex8(&b));
                c.ev_bytes(&b);
                let Ok(m) = lib!(Sysex7::try_from(&b[..])) else { fail!("sysex7 bytes: well-formed message rejected", "{}", crate::wire::hex8(&b)) };
                check_iter(c, "payload of sysex7 bytes", &|| m.payload(), Some(|i| i.clone()), Some(|i| i.len()))
            }
        }
    } else {
        let place = sysex::draw_roomy(c, f);
        let (origin, _, _) = sysex::draw_origin(c, f, 40);
        let n = c.s.range(1, 3);
        let ok = with_sx(c, f, place, &origin, &mut |c, o, _| {
            o.iters(c)?;
            for _ in 0..n {
                c.step();
                let len = lib!(o.len());
                let (e, src) = sysex::draw_next(c, f, len);
                let fal = sysex::fallible(c, o);
                sysex::show_edit(c, e, &src, fal);
                let _ = lib!(o.edit(e, &src, fal));
                o.iters(c)?;
            }
            Ok(())
        })?;
        ensure!(ok, "message refused though there is room", "{place:?}");
        Ok(())
    }
}

pub fn text_iters(c: &mut Ctx) -> R {
    let k = tx::draw_kind(c);
    if c.s.chance(1, 2) {
        let m = tx::draw_model(c, k, 60);
        let mut w = k.build(&m);
        trailing(c, &mut w);
        tr!(c, "{} received {}", k.name, crate::wire::hex32(&w));
        for x in &w {
            c.ev(*x as u64);
        }
        match (k.consume)(c, &w) {
            Some(r) => r,
            None => fail!(format!("{}: well-formed message rejected", k.name), "{}", crate::wire::hex32(&w)),
        }
    } else {
        let d = Place::dirty(c);
        let cap = 80 + c.s.below(9);
        let place = match c.s.draw(6) {
            0 | 1 => Place::Vec,
            2 => Place::VecRef(d),
            3 => Place::Fixed(cap, d),
            4 => Place::Grain(cap, d),
            _ => Place::Slice(cap, d),
        };
        let n = c.s.range(1, 3);
        tr!(c, "{} new in {place:?}", k.name);
        (k.with)(c, place, None, &mut |c, o, _| {
            o.iters(c)?;
            for _ in 0..n {
                c.step();
                let t = tx::draw_text(c, 60, k.cap);
                c.ev_bytes(t.as_bytes());
                tr!(c, "set text of {} bytes", t.len());
                let fal = !o.can_resize();
                let _ = lib!(o.write(&t, fal));
                o.iters(c)?;
            }
            Ok(())
        })
        .map(|_| ())
    }
}

/// Iterators of single packets, and packets of fixed-size messages through the general parser.
pub fn packet_iters(c: &mut Ctx) -> R {
    match c.s.draw(3) {
        0 => {
            let n = c.s.draw(7) as u32;
            let mut p = [0x3000_0000 | (c.s.draw(16) as u32) << 24 | (c.s.draw(4) as u32) << 20 | n << 16, 0];
            for i in 0..6 {
                let b = c.s.u7();
                crate::wire::set_octet_at(&mut p, 2 + i, b);
            }
            c.ev(p[0] as u64);
            c.ev(p[1] as u64);
            tr!(c, "sysex7 packet {}", crate::wire::hex32(&p));
            let Ok(m) = lib!(sysex7::Packet::try_from(&p[..])) else { fail!("sysex7 packet: well-formed packet rejected", "{p:08x?}") };
            check_iter(c, "payload of a sysex7 packet", &|| m.payload(), None, Some(|i| i.len()))
        }
        1 => {
            let n = c.s.range(1, 14) as u32;
            let mut p = [0x5000_0000 | (c.s.draw(16) as u32) << 24 | (c.s.draw(4) as u32) << 20 | n << 16, 0, 0, 0];
            for i in 0..14 {
                let b = c.s.u8();
                crate::wire::set_octet_at(&mut p, 2 + i, b);
            }
            for x in p {
                c.ev(x as u64);
            }
            tr!(c, "sysex8 packet {}", crate::wire::hex32(&p));
            let Ok(m) = lib!(sysex8::Packet::try_from(&p[..])) else { fail!("sysex8 packet: well-formed packet rejected", "{p:08x?}") };
            check_iter(c, "payload of a sysex8 packet", &|| m.payload(), None, Some(|i| i.len()))
        }
        _ => {
            let k = super::fields::draw_kind(c);
            let mut w = super::fields::received::<u32>(c, k, &k.ump);
            let n = if k.name == "ump_stream::FunctionBlockDiscovery" { 1 } else { w.len() };
            trailing(c, &mut w);
            tr!(c, "{} received {}", k.name, crate::wire::hex32(&w));
            for x in &w {
                c.ev(*x as u64);
            }
            let Ok(m) = lib!(UmpMessage::try_from(&w[..])) else { fail!(format!("{}: well-formed message rejected", k.name), "{}", crate::wire::hex32(&w)) };
            if n == 1 && lib!(m.data().len()) == 1 {
                // data is one word short of a packet here (see known-findings.txt)
                return check_iter(c, "packets of a fixed-size message", &|| m.packets(), Some(|i| i.clone()), Some(|i| i.len()));
            }
            let n = if n == 1 { 4 } else { n };
            packets(c, "packets of a fixed-size message", &|| m.packets(), n)
        }
    }
}
