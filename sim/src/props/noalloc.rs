//! C18: nothing asks for memory when the storage is fixed.
use crate::engine::{Ctx, R};
use crate::kinds::*;
use crate::props::{ci, fields, recv, sysex, text};
use crate::sx::{self, Form, Origin, Place, Units};
use crate::tx;
use crate::{quiet, tr};
use midi2::prelude::*;
use midi2::sysex7::Sysex7;
use midi2::sysex8::Sysex8;
use crate::props::aggregates;
use midi2::Data;
use crate::props::recv::Packet;

fn field_edits<U: Segs>(c: &mut Ctx, k: &'static Kind, f: &'static Forms<U>) -> R {
    let mut w = fields::received(c, k, f);
    if c.s.chance(1, 4) && !w.is_empty() {
        c.count("fault: header bit flipped");
        let i = c.s.below(w.len());
        let b = c.s.draw(8 * core::mem::size_of::<U>() as u64);
        w[i] = U::from_u64(w[i].to_u64() ^ 1 << b);
        if c.s.chance(1, 2) {
            let n = c.s.range(0, w.len());
            c.count("fault: truncated");
            w.truncate(n);
        }
    }
    // one kind panics on storage of its own minimum size (see known-findings.txt)
    let least = if f.tmpl.first().map(|x| x.to_u64()) == Some(0xF010_0000) { 4 } else { 0 };
    let n = c.s.range(least, 6);
    let d = fields::dirty(c);
    let mut mem = crate::simbuf::SimBuf::<U>::fixed(n, d).raw();
    let mut edits = vec![];
    for _ in 0..c.s.range(0, 6) {
        if f.nf == 0 {
            break;
        }
        let i = c.s.below(f.nf);
        let fl = &k.fields[i];
        let v = (fl.draw)(c, seg_width(U::segs(fl)));
        let syn = if fl.syn > 0 { c.s.draw(fl.syn) } else { 0 };
        edits.push((i, v, syn));
        c.ev(i as u64);
        c.ev(v);
    }
    for x in &w {
        c.ev(x.to_u64());
    }
    tr!(c, "{} ({}): {} in {n} units of memory, edits {edits:?}", k.name, U::NAME, fields::hexu(&w));
    if edits.len() > 1 {
        c.nontrivial = true;
    }
    c.step();
    (f.quiet)(&w, &mut mem, &edits)
}

/// Fixed-size messages: read, written, moved and converted.
pub fn messages(c: &mut Ctx) -> R {
    let k = fields::draw_kind(c);
    if let Some(b) = &k.bytes {
        if c.s.chance(1, 3) {
            return field_edits(c, k, b);
        }
    }
    if let Some(q) = k.quiet_conv {
        if c.s.chance(1, 4) {
            let w = fields::received(c, k, &k.ump);
            c.count("message converted");
            tr!(c, "{}: {} converted", k.name, fields::hexu(&w));
            return q(&w);
        }
    }
    field_edits(c, k, &k.ump)
}

macro_rules! sysex_whole {
    ($c:ident, $T:ident, $U:ty, $w:expr, $n:expr) => {{
        let w: &[$U] = $w;
        let name = $n;
        if let Ok(m) = quiet!(format_args!("{name} parser"), $T::try_from(w)) {
            quiet!(format_args!("{name} reading"), Msg::<$U>::touch(&m));
            quiet!(format_args!("{name} equality"), m == m.clone());
            if let Ok(a) = quiet!(format_args!("{name} move"), TryRebufferInto::<$T<[$U; 8]>>::try_rebuffer_into(m.clone())) {
                quiet!(format_args!("{name} reading"), Msg::<$U>::touch(&a));
            }
            let n = m.data().len();
            if n <= 256 {
                let a: $T<[$U; 256]> = quiet!(format_args!("{name} move"), m.array_rebuffer_into());
                quiet!(format_args!("{name} reading"), Msg::<$U>::touch(&a));
            }
        }
    }};
}

/// System exclusive messages: read, written, moved and converted.
pub fn exclusives(c: &mut Ctx) -> R {
    let f = Form::draw(c);
    if c.s.chance(1, 3) {
        let (_, _, _, u) = sx::draw_recv(c, f, 80);
        tr!(c, "{} {}", f.name(), u.show());
        match &u {
            Units::W(w) if f == Form::U7 => {
                sysex_whole!(c, Sysex7, u32, w, "sysex7 packets");
                if let Ok(m) = Sysex7::try_from(&w[..]) {
                    c.count("message converted");
                    if let Ok(b) = quiet!("sysex7 to bytes", TryIntoBytes::<Sysex7<[u8; 24]>>::try_into_bytes(m.clone())) {
                        quiet!("sysex7 reading", Msg::<u8>::touch(&b));
                    }
                    let b = quiet!("sysex7 to bytes", TryIntoBytes::<Sysex7<[u8; 512]>>::try_into_bytes(m));
                    if let Ok(b) = b {
                        quiet!("sysex7 reading", Msg::<u8>::touch(&b));
                    }
                }
            }
            Units::W(w) => sysex_whole!(c, Sysex8, u32, w, "sysex8 packets"),
            Units::B(b) => {
                sysex_whole!(c, Sysex7, u8, b, "sysex7 bytes");
                if let Ok(m) = Sysex7::try_from(&b[..]) {
                    c.count("message converted");
                    if let Ok(w) = quiet!("sysex7 to packets", TryIntoUmp::<Sysex7<[u32; 6]>>::try_into_ump(m.clone())) {
                        quiet!("sysex7 reading", Msg::<u32>::touch(&w));
                    }
                    if let Ok(w) = quiet!("sysex7 to packets", TryIntoUmp::<Sysex7<[u32; 128]>>::try_into_ump(m)) {
                        quiet!("sysex7 reading", Msg::<u32>::touch(&w));
                    }
                }
            }
        }
        return Ok(());
    }
    let (origin, m, need) = if c.s.chance(1, 3) {
        sysex::draw_origin(c, f, 40)
    } else {
        (Origin::New, sx::Model { bytes: vec![], group: 0, stream: 0 }, f.need(0))
    };
    let place = match origin {
        Origin::New if c.s.chance(1, 2) => {
            let n = c.s.range(need, c.most(60).max(need));
            Place::Slice(n, Place::dirty(c))
        }
        _ => Place::Arr(c.s.range(if need > 4 { 1 } else { 0 }, 2) as u8),
    };
    tr!(c, "{} in {place:?} {origin:?}", f.name());
    let mut body = |c: &mut Ctx, o: &mut dyn sx::SxObj, _: Option<std::rc::Rc<crate::simbuf::Ctl>>| -> R {
        let mut len = o.len();
        let n = c.s.range(1, 8);
        if n > 2 {
            c.nontrivial = true;
        }
        let _ = &m;
        for _ in 0..n {
            c.step();
            match c.s.draw(8) {
                0 => {
                    let g = c.s.draw(16) as u8;
                    quiet!(format_args!("{} group", f.name()), o.put_group(g));
                }
                1 => {
                    let s = c.s.u8();
                    quiet!(format_args!("{} stream id", f.name()), o.put_stream(s));
                }
                _ => {
                    let (e, src) = sysex::draw_next(c, f, len);
                    sysex::show_edit(c, e, &src, true);
                    if quiet!(format_args!("{} edit", f.name()), o.edit(e, &src, true)).is_err() {
                        c.count("overflow reported");
                    }
                    len = o.len();
                }
            }
            quiet!(format_args!("{} reading", f.name()), o.touch());
        }
        Ok(())
    };
    sx::with_sx(c, f, place, &origin, &mut body)?;
    Ok(())
}

/// Text messages: read, written and moved.
pub fn texts(c: &mut Ctx) -> R {
    let k = tx::draw_kind(c);
    let m = tx::draw_model(c, k, 60);
    if c.s.chance(1, 2) {
        let mut w = k.build(&m);
        if c.s.chance(1, 4) {
            c.count("fault: header bit flipped");
            let i = c.s.below(w.len());
            w[i] ^= 1 << c.s.draw(32);
        }
        tr!(c, "{} received {}", k.name, crate::wire::hex32(&w));
        return (k.quiet)(&w);
    }
    let place = if c.s.chance(1, 2) {
        let n = c.s.range(4, c.most(44));
        Place::Slice(n, Place::dirty(c))
    } else {
        Place::Arr(c.s.draw(2) as u8)
    };
    tr!(c, "{} in {place:?}", k.name);
    let mut body = |c: &mut Ctx, o: &mut dyn tx::TxtObj, _: Option<std::rc::Rc<crate::simbuf::Ctl>>| -> R {
        let n = c.s.range(1, 5);
        if n > 2 {
            c.nontrivial = true;
        }
        for _ in 0..n {
            c.step();
            match text::draw_op(c, k, 120, 2) {
                text::Op::Text(t) => {
                    tr!(c, "text {t:?}");
                    if quiet!(format_args!("{} text", k.name), o.write(&t, true)).is_err() {
                        c.count("overflow reported");
                    }
                }
                text::Op::Group(g) => quiet!(format_args!("{} group", k.name), o.put_group(g)),
                text::Op::Chan(ch) => quiet!(format_args!("{} channel", k.name), o.put_chan(ch)),
                text::Op::Fb(b) => quiet!(format_args!("{} function block", k.name), o.put_fb(b)),
            };
            quiet!(format_args!("{} reading", k.name), o.touch());
        }
        Ok(())
    };
    (k.with)(c, place, None, &mut body)?;
    Ok(())
}

/// Whatever arrives, read by every parser.
pub fn traffic(c: &mut Ctx) -> R {
    let (g, ch) = (c.s.draw(16) as u8, c.s.draw(16) as u8);
    c.nontrivial = true;
    if c.s.chance(1, 4) {
        let b = recv::draw_byte_traffic(c, 3);
        tr!(c, "{}", crate::wire::hex8(&b));
        c.ev_bytes(&b);
        c.step();
        quiet!("sysex7 bytes parser", Sysex7::try_from(&b[..]).map(|m| Msg::<u8>::touch(&m)).unwrap_or(0));
        return aggregates::quiet_bytes(&b, g, ch);
    }
    let (w, _) = recv::draw_traffic(c, 3);
    tr!(c, "{}", crate::wire::hex32(&w));
    c.ev_words(&w);
    c.step();
    quiet!("sysex7 packets parser", Sysex7::try_from(&w[..]).map(|m| Msg::<u32>::touch(&m)).unwrap_or(0));
    quiet!("sysex8 packets parser", Sysex8::try_from(&w[..]).map(|m| Msg::<u32>::touch(&m)).unwrap_or(0));
    quiet!("packet parser", Packet::try_from(&w[..]).map(|p| crate::iters::sip(&p)).unwrap_or(0));
    aggregates::quiet_words(&w, g, ch)
}

/// Capability inquiry.
pub fn inquiry(c: &mut Ctx) -> R {
    ci::quiet(c)
}
