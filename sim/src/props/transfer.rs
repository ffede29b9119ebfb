//! C11: conversions between the packet and byte forms; C12: moves between buffers.
use crate::engine::{Ctx, R};
use crate::kinds::*;
use crate::props::fields::{self, draw_kind, draw_to, hexu, received};
use crate::simbuf::{SimUnit, PLAIN};
use crate::sx::*;
use crate::tx;
use crate::wire::*;
use crate::{ensure, fail, lib, tr};
use crate::heap::{heap, Heap};
use midi2::buffer::*;
use midi2::error::{BufferOverflow, Error, InvalidData};

// ------------------------------------------------------------------ C12

/// Words or bytes behind a message in the buffer it was received in. They cannot be taken for more of it.
fn behind<U: SimUnit>(c: &mut Ctx, n: usize, bytes: bool) -> Vec<U> {
    let other = c.s.chance(1, 2);
    (0..n)
        .map(|_| {
            let v = c.s.u32() as u64;
            U::from_u64(match (bytes, other) {
                (_, false) => 0,
                (true, _) => v & 0xFF,
                (false, _) => 0x2000_0000 | v & 0x0FFF_FFFF,
            })
        })
        .collect()
}

/// Sometimes the storage is one that knows nothing of messages within buffers.
fn plainly(c: &mut Ctx, to: To) -> To {
    match to {
        To::Sim(cap, fixed, dirty) if c.s.chance(1, 5) => To::Sim(cap + c.s.below(8), fixed, dirty | PLAIN),
        to => to,
    }
}

#[allow(clippy::too_many_arguments)]
pub fn chain<U: Segs>(
    c: &mut Ctx,
    name: &str,
    data: &[U],
    reads: &[u64],
    arr: (usize, usize),
    moves: fn(&[U], &[To]) -> Result<Vec<Hop<U>>, InvalidData>,
    bytes: bool,
) -> R {
    let extra = if c.s.chance(1, 2) { c.s.range(1, 9) } else { 0 };
    let mut src = data.to_vec();
    let junk: Vec<U> = behind(c, extra, bytes);
    src.extend(junk);
    if extra > 0 {
        c.count("unused room behind the message in its buffer");
    }
    let need = data.len();
    let steps: Vec<To> = (0..c.s.range(1, 5))
        .map(|_| {
            let room = (need + 3).saturating_sub(c.s.below(5)).max(1);
            let to = draw_to(c, room.saturating_sub(3).max(1));
            plainly(c, to)
        })
        .collect();
    tr!(c, "{name} {} with {extra} units behind it; {steps:?}", show(data));
    c.ev_bytes(name.as_bytes());
    c.ev(need as u64);
    c.ev(extra as u64);
    let hops = match moves(&src, &steps) {
        Ok(h) => h,
        Err(e) => fail!(format!("{name}: well-formed message rejected"), "{} {e:?}", show(&src)),
    };
    judge(c, name, data, reads, arr, src.len(), &steps, hops)
}

/// What each of a chain of moves did to a message that sat in a buffer of `room` units.
#[allow(clippy::too_many_arguments)]
fn judge<U: Segs>(
    c: &mut Ctx,
    name: &str,
    data: &[U],
    reads: &[u64],
    arr: (usize, usize),
    room: usize,
    steps: &[To],
    hops: Vec<Hop<U>>,
) -> R {
    let need = data.len();
    let mut room = room;
    for (to, hop) in steps.iter().zip(hops) {
        c.step();
        let (cap, fixed) = match *to {
            To::Vec => (usize::MAX, false),
            To::Arr => (arr.0, true),
            To::ArrBig | To::ArrBigRe => (arr.1, true),
            To::Sim(cap, fixed, _) => (cap, fixed),
        };
        c.ev(match to {
            To::Vec => 1,
            To::Arr => 2,
            To::ArrBig => 3,
            To::ArrBigRe => 4,
            To::Sim(n, f, _) => 5 + 16 * *n as u64 + *f as u64 * 8,
        });
        match hop {
            Hop::Skip => continue,
            Hop::Overflow => {
                c.ev(0xEE);
                c.nontrivial = true;
                let plain = matches!(to, To::Sim(_, _, d) if d & PLAIN != 0);
                if plain && need <= cap && room > cap {
                    c.count("all of the source buffer asked for by a plain storage");
                } else if need <= cap {
                    ensure!(
                        room > cap,
                        format!("{name}: move refused though everything fits"),
                        "{to:?}: message {need} units, source buffer {room}, target {cap}"
                    );
                    fail!(
                        "move refused for the unused room behind the message",
                        "{name} {to:?}: message {need} units, source buffer {room}, target {cap}"
                    );
                }
                c.count("overflow reported");
            }
            Hop::Ok(d, r) => {
                c.nontrivial = true;
                ensure!(need <= cap, format!("{name}: moved into a buffer that cannot hold it"), "{to:?} {}", show(data));
                ensure!(d == data, format!("{name}: data changed by a move"), "{to:?}: {} became {}", show(data), show(&d));
                ensure!(r == reads, format!("{name}: readings changed by a move"), "{to:?}: {reads:x?} became {r:x?}");
                c.count("message moved");
                room = if fixed { cap } else { room };
                if matches!(to, To::ArrBigRe) {
                    room = cap;
                }
            }
        }
    }
    Ok(())
}

/// A message constructed in a caller's mutable slice, with or without room to spare, then moved.
#[allow(clippy::too_many_arguments)]
fn out_of_slice<U: Segs>(
    c: &mut Ctx,
    name: &str,
    need: usize,
    fill: &mut Fill,
    arr: (usize, usize),
    moves_out: fn(&mut [U], &Fill, &[To]) -> Option<MovedOut<U>>,
) -> R {
    let room = need + if c.s.chance(2, 3) { c.s.range(1, 9) } else { 0 };
    let dirty = fields::dirty(c);
    let mut mem = crate::simbuf::SimBuf::<U>::fixed(room, dirty).raw();
    let steps: Vec<To> = (0..c.s.range(1, 4))
        .map(|_| {
            let around = (need + 3).saturating_sub(c.s.below(5)).max(1);
            let to = draw_to(c, around.saturating_sub(3).max(1));
            plainly(c, to)
        })
        .collect();
    fill.lend = c.s.chance(1, 5);
    let steps = steps_within(steps, need, arr.1);
    tr!(c, "{name} constructed in {room} units of the caller's, {fill:?}; {steps:?}");
    c.ev_bytes(name.as_bytes());
    c.ev(room as u64);
    let Some((data, reads, hops)) = moves_out(&mut mem, fill, &steps) else {
        // whether it can be constructed there is another property's business
        return Ok(());
    };
    c.count("message constructed in a caller's slice");
    for v in &data {
        c.ev(v.to_u64());
    }
    if fill.lend {
        let Hop::Ok(d, r) = &hops[0] else { unreachable!() };
        ensure!(*d == data, format!("{name}: data changed by a move"), "lent: {} became {}", show(&data), show(d));
        ensure!(*r == reads, format!("{name}: readings changed by a move"), "lent: {reads:x?} became {r:x?}");
        c.count("message lent");
        return judge(c, name, &data, &reads, arr, room, &steps[1..], hops.into_iter().skip(1).collect());
    }
    judge(c, name, &data, &reads, arr, room, &steps, hops)
}

/// The infallible move into an array is for messages that fit it.
fn steps_within(mut steps: Vec<To>, need: usize, arr: usize) -> Vec<To> {
    if need > arr && matches!(steps[0], To::ArrBigRe) {
        steps[0] = To::ArrBig;
    }
    steps
}

fn fixed_out<U: Segs>(c: &mut Ctx, k: &'static Kind, f: &'static Forms<U>) -> R {
    let mut fill = Fill::default();
    for _ in 0..c.s.range(0, 4) {
        if f.nf == 0 {
            break;
        }
        let i = c.s.below(f.nf);
        let fl = &k.fields[i];
        let v = (fl.draw)(c, seg_width(U::segs(fl)));
        let syn = if fl.syn > 0 { c.s.draw(fl.syn) } else { 0 };
        fill.edits.push((i, v, syn));
    }
    out_of_slice(c, &format!("{} ({})", k.name, U::NAME), f.size, &mut fill, f.arr, f.moves_out)
}

/// Constructed where the caller says, then moved on.
fn constructed(c: &mut Ctx) -> R {
    match c.s.draw(5) {
        0 => {
            let k = draw_kind(c);
            match &k.bytes {
                Some(b) if c.s.chance(1, 3) => fixed_out(c, k, b),
                _ => fixed_out(c, k, &k.ump),
            }
        }
        1 => {
            let k = tx::draw_kind(c);
            let m = tx::draw_model(c, k, 60);
            let need = k.words(m.text.len());
            let mut fill = Fill { text: m.text, group: m.group, channel: m.channel, other: m.fb, ..Fill::default() };
            out_of_slice(c, k.name, need, &mut fill, (8, 40), k.moves_out)
        }
        2 | 3 => {
            let n = c.len(60, 6);
            let mut fill = Fill { group: c.s.draw(16) as u8, other: c.s.u8(), ..Fill::default() };
            fill.bytes = (0..n).map(|_| c.s.u8() & 0x7F).collect();
            if c.s.chance(1, 2) {
                out_of_slice(c, "sysex7 packets", 2 * n.div_ceil(6).max(1), &mut fill, (6, 40), m7::moves_out)
            } else {
                out_of_slice(c, "sysex7 bytes", n + 2, &mut fill, (9, 60), mb::moves_out)
            }
        }
        _ => {
            let n = c.len(60, 13);
            let mut fill = Fill { group: c.s.draw(16) as u8, other: c.s.u8(), ..Fill::default() };
            fill.bytes = (0..n).map(|_| c.s.u8()).collect();
            out_of_slice(c, "sysex8 packets", 4 * n.div_ceil(13).max(1), &mut fill, (8, 40), m8::moves_out)
        }
    }
}

fn show<U: Segs>(w: &[U]) -> String {
    hexu(w)
}

fn units_of<U: Segs>(c: &mut Ctx, k: &'static Kind, f: &'static Forms<U>) -> R<(Vec<U>, Vec<U>, Vec<u64>)> {
    let w = received::<U>(c, k, f);
    let r = match lib!((f.parse)(&w)) {
        Ok(m) => (lib!(m.units().to_vec()), lib!(m.readings())),
        Err(e) => fail!(format!("{} ({}): well-formed message rejected", k.name, U::NAME), "{} {e:?}", hexu(&w)),
    };
    Ok((w, r.0, r.1))
}

/// The conversions between bare buffers which the moves are made with.
fn raw<U: Segs>(c: &mut Ctx) -> R {
    let n = c.s.below(11);
    let data: Vec<U> = (0..n).map(|_| U::from_u64(c.s.u32() as u64 & (u64::MAX >> (64 - 8 * std::mem::size_of::<U>())))).collect();
    let mut lent = data.clone();
    tr!(c, "bare buffer of {n}: {}", show(&data));
    for v in &data {
        c.ev(v.to_u64());
    }
    for _ in 0..c.s.range(1, 6) {
        c.step();
        let way = c.s.below(6);
        macro_rules! arr {
            ($n:literal) => {{
                let r: Result<[U; $n], BufferOverflow> = match way {
                    0 => lib!(TryFromBuffer::try_from_buffer(&data[..])),
                    1 => lib!((&data[..]).try_into_buffer()),
                    2 => lib!(TryFromBuffer::try_from_buffer(&mut lent[..])),
                    3 => lib!((&mut lent[..]).try_into_buffer()),
                    4 => lib!(TryFromBuffer::try_from_buffer(heap(data.clone()))),
                    _ => lib!(heap(data.clone()).try_into_buffer()),
                };
                ($n, r.map(|a| {
                    let (v, w): (Heap<U>, Heap<U>) = (lib!(FromBuffer::from_buffer(a)), lib!(a.into_buffer()));
                    (a.to_vec(), v.buffer().to_vec(), w.buffer().to_vec())
                }))
            }};
        }
        let (cap, r) = match c.s.below(5) {
            0 => arr!(1),
            1 => arr!(3),
            2 => arr!(4),
            3 => arr!(8),
            _ => arr!(9),
        };
        c.ev((cap * 8 + way) as u64);
        match r {
            Err(e) => {
                ensure!(lib!(Error::from(e.clone())) == Error::BufferOverflow, "overflow changed on its way up", "{e:?}");
                ensure!(n > cap, "bare buffer refused though it fits", "{n} units into {cap}");
                c.count("bare buffer refused");
            }
            Ok((a, v, w)) => {
                ensure!(n <= cap, "bare buffer converted into one that cannot hold it", "{n} units into {cap}");
                let mut want = data.clone();
                want.resize(cap, U::from_u64(0));
                ensure!(a == want, "bare buffer changed by a conversion", "{} became {}", show(&data), show(&a));
                ensure!(v == a && w == a, "array changed on its way into a vector", "{} became {} and {}", show(&a), show(&v), show(&w));
                c.count("bare buffer converted");
            }
        }
        let h: Heap<U> = match way {
            0 | 1 => lib!(FromBuffer::from_buffer(&data[..])),
            2 | 3 => lib!((&data[..]).into_buffer()),
            4 => lib!(FromBuffer::from_buffer(&mut lent[..])),
            _ => lib!((&mut lent[..]).into_buffer()),
        };
        ensure!(h.buffer() == &data[..], "slice changed on its way into a vector", "{} became {}", show(&data), show(h.buffer()));
        let mut other = data.clone();
        let s: &[U] = if way % 2 == 0 { lib!(FromBuffer::from_buffer(&mut other[..])) } else { lib!((&mut other[..]).into_buffer()) };
        ensure!(s == &data[..], "slice changed when lent", "{} became {}", show(&data), show(s));
        c.nontrivial = true;
    }
    ensure!(lent == data, "source buffer changed by a conversion", "{} became {}", show(&data), show(&lent));
    Ok(())
}

pub fn moves(c: &mut Ctx) -> R {
    if c.s.chance(1, 25) {
        return if c.s.chance(1, 2) { raw::<u8>(c) } else { raw::<u32>(c) };
    }
    if c.s.chance(1, 5) {
        return constructed(c);
    }
    match c.s.draw(8) {
        0 | 1 => {
            let k = draw_kind(c);
            let name = format!("{} (ump)", k.name);
            let (w, d, r) = units_of::<u32>(c, k, &k.ump)?;
            if d.len() < w.len() {
                return chain_short(c, &name, &w, &d, &r, k);
            }
            chain(c, &name, &w, &r, k.ump.arr, k.ump.moves, false)
        }
        2 => loop {
            let k = draw_kind(c);
            if let Some(f) = &k.bytes {
                let name = format!("{} (bytes)", k.name);
                let (w, _, r) = units_of::<u8>(c, k, f)?;
                return chain(c, &name, &w, &r, f.arr, f.moves, true);
            }
        },
        3 | 4 => {
            let k = tx::draw_kind(c);
            let m = tx::draw_model(c, k, 60);
            let w = k.build(&m);
            let r = match lib!((k.parse)(&w)) {
                Ok((r, _)) => r,
                Err(e) => fail!(format!("{}: well-formed message rejected", k.name), "{} {e:?}", hex32(&w)),
            };
            chain(c, k.name, &w, &r, (8, 40), k.moves, false)
        }
        5 => {
            let Units::W(w) = draw_recv(c, Form::U7, 60).3 else { unreachable!() };
            let r = sysex_reads(c, Form::U7, Units::W(w.clone()))?;
            chain(c, "sysex7 packets", &w, &r, (6, 40), m7::moves, false)
        }
        6 => {
            let Units::W(w) = draw_recv(c, Form::U8, 60).3 else { unreachable!() };
            let r = sysex_reads(c, Form::U8, Units::W(w.clone()))?;
            chain(c, "sysex8 packets", &w, &r, (8, 40), m8::moves, false)
        }
        _ => {
            let Units::B(w) = draw_recv(c, Form::B7, 40).3 else { unreachable!() };
            let r = sysex_reads(c, Form::B7, Units::B(w.clone()))?;
            chain(c, "sysex7 bytes", &w, &r, (9, 60), mb::moves, true)
        }
    }
}

/// A type whose data is shorter than what it was received in.
fn chain_short(c: &mut Ctx, name: &str, w: &[u32], d: &[u32], r: &[u64], k: &'static Kind) -> R {
    let steps = [To::ArrBigRe];
    if let Ok(h) = (k.ump.moves)(w, &steps) {
        if let Hop::Ok(_, r2) = &h[0] {
            ensure!(r2 == r, format!("{name}: readings changed by a move"), "{r:x?} became {r2:x?}");
        }
    }
    Ok(())
}

fn sysex_reads(c: &mut Ctx, f: Form, u: Units) -> R<Vec<u64>> {
    let mut out = None;
    with_sx(c, f, Place::Vec, &Origin::Recv(u.clone()), &mut |_, o, _| {
        out = Some(lib!(o.reads()));
        Ok(())
    })?;
    match out {
        Some(r) => Ok(r),
        None => fail!(format!("{}: well-formed message rejected", f.name()), "{}", u.show()),
    }
}

// ------------------------------------------------------------------ C11

fn draw_conv(c: &mut Ctx, need: usize) -> Conv {
    match c.s.draw(7) {
        0 => Conv::Vec,
        1 => Conv::Arr,
        2 => Conv::ArrBig,
        3 => Conv::TryArr,
        4 => Conv::TryArrBig,
        _ => Conv::TrySim((need + 3).saturating_sub(c.s.below(7)), c.s.chance(1, 2)),
    }
}

/// Checks one conversion; Some(data) if it was made.
fn converted<U: Segs>(
    c: &mut Ctx,
    name: &str,
    to: Conv,
    hop: Hop<U>,
    want: &[U],
    reads: Option<&[u64]>,
    arr: (usize, usize),
) -> R<Option<Vec<U>>> {
    c.step();
    let cap = match to {
        Conv::Vec | Conv::Arr | Conv::ArrBig => usize::MAX,
        Conv::TryArr => arr.0,
        Conv::TryArrBig => arr.1,
        Conv::TrySim(n, _) => n,
    };
    c.ev(match to {
        Conv::Vec => 1,
        Conv::Arr => 2,
        Conv::ArrBig => 3,
        Conv::TryArr => 4,
        Conv::TryArrBig => 5,
        Conv::TrySim(n, f) => 6 + 16 * n as u64 + 8 * f as u64,
    });
    match hop {
        Hop::Skip => Ok(None),
        Hop::Overflow => {
            ensure!(
                want.len() > cap,
                format!("{name}: conversion refused though it fits"),
                "{to:?}: {} units into {cap}",
                want.len()
            );
            c.count("overflow reported");
            c.ev(0xEE);
            c.nontrivial = true;
            Ok(None)
        }
        Hop::Ok(d, r) => {
            ensure!(want.len() <= cap, format!("{name}: converted into a buffer that cannot hold it"), "{to:?} {}", hexu(&d));
            ensure!(d == want, format!("{name}: converted to other data"), "{to:?}: expected {} got {}", hexu(want), hexu(&d));
            if let Some(x) = reads {
                ensure!(r == x, format!("{name}: readings changed by a conversion"), "{to:?}: {x:x?} became {r:x?}");
            }
            c.count("message converted");
            c.nontrivial = true;
            Ok(Some(d))
        }
    }
}

fn fixed_conversions(c: &mut Ctx) -> R {
    let (k, f) = loop {
        let k = draw_kind(c);
        if let Some(f) = &k.bytes {
            break (k, f);
        }
    };
    let (Some(to_bytes), Some(to_ump)) = (k.to_bytes, k.to_ump) else { fail!("harness: no conversion", "") };
    let group = k.fields.len() - 1;
    c.ev_bytes(k.name.as_bytes());
    // the values, the group aside, as bits
    let mut u = received::<u32>(c, k, &k.ump);
    let values: Vec<u64> = k.fields[..f.nf].iter().map(|x| get_bits(&u, x.segs)).collect();
    let mut bytes = f.tmpl.to_vec();
    let mut ump = k.ump.tmpl.to_vec();
    for (x, v) in k.fields[..f.nf].iter().zip(&values) {
        put_bits(&mut bytes, x.bsegs, *v);
        put_bits(&mut ump, x.segs, *v);
    }
    let canon: Vec<u64> = k.fields[..f.nf].iter().zip(&values).map(|(x, v)| (x.canon)(*v)).collect();
    let mut ump_reads = canon.clone();
    ump_reads.push(0);
    tr!(c, "{}: {}", k.name, hex32(&u));
    for v in &values {
        c.ev(*v);
    }
    let mut b: Option<Vec<u8>> = None;
    for i in 0..c.s.range(1, 6) {
        if b.is_none() {
            let to = draw_conv(c, bytes.len());
            // room behind the message, and another group, change nothing
            let g = c.s.draw(16);
            put_bits(&mut u, k.fields[group].segs, g);
            let mut src = u.clone();
            let n = c.s.below(3);
            src.extend(behind::<u32>(c, n, false));
            tr!(c, "packet {} to bytes {to:?}", hex32(&src));
            let hop = match to_bytes(&src, to) {
                Ok(h) => h,
                Err(e) => fail!(format!("{}: well-formed packet rejected", k.name), "{} {e:?}", hex32(&src)),
            };
            b = converted(c, &format!("{} to bytes", k.name), to, hop, &bytes, Some(&canon), (f.tmpl.len(), 6))?;
        } else {
            let to = draw_conv(c, ump.len());
            let mut src = b.clone().unwrap();
            let n = c.s.below(3);
            src.extend(behind::<u8>(c, n, true));
            tr!(c, "bytes {} to packet {to:?}", hex8(&src));
            let hop = match to_ump(&src, to) {
                Ok(h) => h,
                Err(e) => fail!(format!("{}: its own bytes rejected", k.name), "{} {e:?}", hex8(&src)),
            };
            if let Some(w) = converted(c, &format!("{} to packet", k.name), to, hop, &ump, Some(&ump_reads), (1, 4))? {
                u = w;
                b = None;
            }
        }
    }
    Ok(())
}

fn sysex_conversions(c: &mut Ctx) -> R {
    let (payload, _, _, u) = draw_recv(c, Form::U7, 60);
    let Units::W(mut u) = u else { unreachable!() };
    let bytes = build_sysex7_bytes(&payload);
    let ump = build_sysex7(0, &payload, &split(payload.len(), 6));
    c.ev(payload.len() as u64);
    c.ev(u.len() as u64);
    tr!(c, "sysex7 of {} bytes: {}", payload.len(), hex32(&u));
    let mut b: Option<Vec<u8>> = None;
    for _ in 0..c.s.range(1, 6) {
        if b.is_none() {
            let to = draw_conv(c, bytes.len());
            let mut src = u.clone();
            let n = c.s.below(3);
            src.extend(behind::<u32>(c, n, false));
            tr!(c, "packets {} to bytes {to:?}", hex32(&src));
            let hop = match conv7::to_bytes(&src, to) {
                Ok(h) => h,
                Err(e) => fail!("sysex7: well-formed packets rejected", "{} {e:?}", hex32(&src)),
            };
            b = converted(c, "sysex7 to bytes", to, hop, &bytes, None, conv7::BYTES)?;
        } else {
            let to = draw_conv(c, ump.len());
            let mut src = b.clone().unwrap();
            let n = c.s.below(3);
            src.extend(behind::<u8>(c, n, true));
            tr!(c, "bytes {} to packets {to:?}", hex8(&src));
            let hop = match conv7::to_ump(&src, to) {
                Ok(h) => h,
                Err(e) => fail!("sysex7: its own bytes rejected", "{} {e:?}", hex8(&src)),
            };
            if let Some(w) = converted(c, "sysex7 to packets", to, hop, &ump, None, conv7::WORDS)? {
                u = w;
                let g = c.s.draw(16) as u32;
                for p in u.chunks_mut(2) {
                    p[0] = p[0] & !0x0F00_0000 | g << 24;
                }
                b = None;
            }
        }
    }
    Ok(())
}

pub fn conversions(c: &mut Ctx) -> R {
    if c.s.chance(1, 3) {
        sysex_conversions(c)
    } else {
        fixed_conversions(c)
    }
}
