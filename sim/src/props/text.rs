//! Histories of edits on text messages: C06 and the text parts of C02, C04 and C07.
use crate::engine::{Ctx, R};
use crate::sx::Place;
use crate::tx::*;
use crate::wire::*;
use crate::{ensure, fail, lib, tr};

const MAX: usize = 100;

fn fam(k: &TxtKind) -> &'static str {
    if k.fb {
        "function block name"
    } else if k.stream {
        "stream text"
    } else {
        "flex data text"
    }
}

fn fallible(c: &mut Ctx, o: &dyn TxtObj) -> bool {
    match (o.can_resize(), o.can_try()) {
        (true, true) => c.s.chance(1, 2),
        (_, t) => t,
    }
}

pub fn start(c: &mut Ctx, k: &TxtKind, max: usize) -> (Option<Vec<u32>>, TModel) {
    if c.s.chance(1, 2) {
        let m = draw_model(c, k, max);
        let w = k.build(&m);
        tr!(c, "received {:?}: {}", m, hex32(&w));
        c.count("received message edited");
        c.ev(w.len() as u64);
        (Some(w), m)
    } else {
        (None, TModel::default())
    }
}

pub fn roomy(c: &mut Ctx) -> Place {
    let d = Place::dirty(c);
    let cap = 4 * (c.most(MAX) / 12 + 2) + c.s.below(9);
    match c.s.draw(8) {
        0 | 1 => Place::Vec,
        2 => Place::VecRef(d),
        3 => Place::Exact(cap, d),
        4 => Place::Fixed(cap, d),
        5 => Place::Grain(cap, d),
        6 => Place::Slice(cap, d),
        _ if c.big > 0 => Place::Vec,
        _ => Place::Arr(1),
    }
}

fn ev_place(c: &mut Ctx, p: Place) {
    c.ev(match p {
        Place::Vec => 1,
        Place::VecRef(d) => 2 + (d << 8),
        Place::Exact(n, d) => 3 + (d << 8) + ((n as u64) << 40),
        Place::Grain(n, d) => 4 + (d << 8) + ((n as u64) << 40),
        Place::Fixed(n, d) => 5 + (d << 8) + ((n as u64) << 40),
        Place::Slice(n, d) => 6 + (d << 8) + ((n as u64) << 40),
        Place::Arr(i) => 7 + i as u64,
    });
}

#[derive(Clone, Debug)]
pub enum Op {
    Text(String),
    Group(u8),
    Chan(Option<u8>),
    Fb(u8),
}

pub fn draw_op(c: &mut Ctx, k: &TxtKind, max: usize, text_share: u64) -> Op {
    if k.stream && !k.fb || c.s.chance(text_share, 4) {
        let t = draw_text(c, max, k.cap);
        c.ev(0x400 + t.len() as u64);
        c.ev_bytes(t.as_bytes());
        Op::Text(t)
    } else if k.fb {
        let v = c.s.u8();
        c.ev(0x100 + v as u64);
        Op::Fb(v)
    } else if c.s.chance(1, 2) {
        let g = c.s.draw(16) as u8;
        c.ev(0x200 + g as u64);
        Op::Group(g)
    } else {
        let ch = if c.s.chance(2, 3) { Some(c.s.draw(16) as u8) } else { None };
        c.ev(0x300 + ch.map_or(0, |x| x as u64 + 1));
        Op::Chan(ch)
    }
}

/// applies the operation; the model follows unless the text was refused
pub fn apply(c: &mut Ctx, o: &mut dyn TxtObj, m: &mut TModel, op: &Op, fal: bool) -> Result<(), ()> {
    tr!(c, "{}{:?}", if fal { "try " } else { "" }, op);
    match op {
        Op::Text(t) => {
            lib!(o.write(t, fal))?;
            m.text = t.clone();
        }
        Op::Group(g) => {
            lib!(o.put_group(*g));
            m.group = *g;
        }
        Op::Chan(ch) => {
            lib!(o.put_chan(*ch));
            m.channel = *ch;
        }
        Op::Fb(v) => {
            lib!(o.put_fb(*v));
            m.fb = *v;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

/// text bytes carried by the packets, padding included
fn carried(k: &TxtKind, w: &[u32]) -> Vec<u8> {
    let mut v = Vec::new();
    for p in w.chunks(4) {
        let b: Vec<u8> = p.iter().flat_map(|x| x.to_be_bytes()).collect();
        v.extend_from_slice(&b[(16 - k.cap).min(b.len())..]);
    }
    v
}

pub fn text_edits(c: &mut Ctx) -> R {
    let k = draw_kind(c);
    let place = roomy(c);
    tr!(c, "{} in {place:?}", k.name);
    c.ev(k.status as u64 + 64 * k.bank as u64 + 1024 * k.stream as u64);
    ev_place(c, place);
    let (recv, model) = start(c, k, 36);
    let n = c.s.range(1, 8);
    let ok = (k.with)(c, place, recv.as_deref(), &mut |c, o, _| {
        let mut m = model.clone();
        for i in 0..=n {
            c.step();
            if i > 0 {
                let op = draw_op(c, k, MAX, 3);
                let fal = fallible(c, o);
                if apply(c, o, &mut m, &op, fal).is_err() {
                    fail!(
                        format!("{}: text refused though there is room", fam(k)),
                        "{} {:?} in {place:?}",
                        k.name,
                        op
                    );
                }
                c.nontrivial |= matches!(op, Op::Text(t) if !t.is_empty());
            }
            let (t1, b) = (lib!(o.text()), lib!(o.tbytes()));
            let (t2, w) = (lib!(o.text()), lib!(o.words()));
            tr!(c, "   -> {}", hex32(&w));
            c.ev(w.len() as u64);
            ensure!(
                t1 == m.text && t2 == m.text && b == m.text.as_bytes(),
                format!("{}: text read back differs from the last text written", fam(k)),
                "{} in {place:?}: read {:?} then {:?}, bytes {}, expected {:?}, data {}",
                k.name,
                t1,
                t2,
                hex8(&b),
                m.text,
                hex32(&w)
            );
            ensure!(
                w.len() == k.words(m.text.len()),
                format!("{}: number of packets is not what the text needs", fam(k)),
                "{} in {place:?}: {} words for {} bytes of text",
                k.name,
                w.len(),
                m.text.len()
            );
            let mut e = m.text.clone().into_bytes();
            e.resize(w.len() / 4 * k.cap, 0);
            ensure!(
                carried(k, &w) == e,
                format!("{}: packets do not carry exactly the text and zeros", fam(k)),
                "{} in {place:?}: text {:?} data {}",
                k.name,
                m.text,
                hex32(&w)
            );
        }
        Ok(())
    })?;
    ensure!(ok, format!("{}: message refused though there is room", fam(k)), "{} {place:?}", k.name);
    Ok(())
}

// ------------------------------------------------------------------ C02

pub fn refusals(c: &mut Ctx) -> R {
    let k = draw_kind(c);
    let place = Place::draw_txt(c, 0, 4 * (c.most(96) / 12));
    tr!(c, "{} in {place:?}", k.name);
    c.ev(k.status as u64 + 64 * k.bank as u64 + 1024 * k.stream as u64);
    ev_place(c, place);
    let (recv, model) = start(c, k, 36);
    let cap = place.txt_cap();
    let n = c.s.range(1, 6);
    let ok = (k.with)(c, place, recv.as_deref(), &mut |c, o, ctl| {
        let mut m = model.clone();
        for i in 0..=n {
            c.step();
            let mut op = draw_op(c, k, MAX, 3);
            let fal = o.can_try();
            let mut armed = false;
            if i == n {
                let t = draw_text(c, 12, k.cap);
                let t = if cap.map_or(true, |cp| k.words(t.len()) <= cp) { t } else { String::new() };
                op = Op::Text(t);
            } else if let (Some(ctl), true) = (&ctl, c.s.chance(1, 3)) {
                ctl.arm(0, 1);
                armed = true;
                tr!(c, "   next growth request refused");
            }
            let fits = match &op {
                Op::Text(t) => cap.map_or(true, |cp| k.words(t.len()) <= cp),
                _ => true,
            };
            let r = apply(c, o, &mut m, &op, fal);
            let injected = ctl.as_ref().map_or(0, |c| c.refused_injected.get());
            if let Some(ctl) = &ctl {
                c.count_n("fault: buffer out of capacity", ctl.refused_capacity.get());
                c.count_n("fault: transient allocation refusal", injected);
                ctl.disarm();
            }
            c.ev(r.is_ok() as u64 + 2 * armed as u64);
            match r {
                Ok(()) => {
                    ensure!(
                        fits || !fal,
                        format!("{}: text accepted without room for it", fam(k)),
                        "{} {op:?} in {place:?}",
                        k.name
                    );
                    check_txt(c, k, o, &m, true, "after an edit")?;
                }
                Err(()) => {
                    c.count("overflow reported");
                    c.nontrivial = true;
                    ensure!(
                        !fits || injected > 0,
                        format!("{}: overflow reported though the room was granted", fam(k)),
                        "{} {op:?} in {place:?}",
                        k.name
                    );
                    check_txt(c, k, o, &m, false, "after a refused edit")?;
                }
            }
        }
        Ok(())
    })?;
    if !ok {
        let need = recv.map_or(4, |w| w.len());
        c.count("message refused by its storage");
        ensure!(
            cap.map_or(false, |cp| cp < need),
            format!("{}: message refused though there is room", fam(k)),
            "{} {place:?}, {need} words",
            k.name
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

pub fn addressing(c: &mut Ctx) -> R {
    let k = loop {
        let k = draw_kind(c);
        if k.fb || !k.stream || c.s.chance(1, 2) {
            break k;
        }
    };
    let place = if c.s.chance(1, 3) { Place::draw_txt(c, 4, 4 * (c.most(96) / 12)) } else { roomy(c) };
    tr!(c, "{} in {place:?}", k.name);
    c.ev(k.status as u64 + 64 * k.bank as u64 + 1024 * k.stream as u64);
    ev_place(c, place);
    let (recv, model) = start(c, k, 40);
    let n = c.s.range(2, 8);
    (k.with)(c, place, recv.as_deref(), &mut |c, o, ctl| {
        let mut m = model.clone();
        for i in 0..=n {
            c.step();
            if i > 0 {
                let op = draw_op(c, k, MAX, 2);
                let fal = o.can_try();
                if let (Some(ctl), true) = (&ctl, c.s.chance(1, 6)) {
                    ctl.arm(0, 1);
                }
                let r = apply(c, o, &mut m, &op, fal);
                if let Some(ctl) = &ctl {
                    ctl.disarm();
                }
                if r.is_err() {
                    c.count("fault: edit refused");
                }
                c.ev(r.is_ok() as u64);
                c.nontrivial |= !matches!(op, Op::Text(_)) || k.stream;
            }
            check_txt_addr(c, k, o, &m)?;
        }
        Ok(())
    })?;
    Ok(())
}

fn check_txt_addr(c: &mut Ctx, k: &TxtKind, o: &dyn TxtObj, m: &TModel) -> R {
    let w = lib!(o.words());
    tr!(c, "   -> {}", hex32(&w));
    c.ev(w.len() as u64);
    let n = w.len() / 4;
    for (i, p) in w.chunks(4).enumerate() {
        let pos: u32 = match (n, i) {
            (1, _) => 0,
            (_, 0) => 1,
            (_, i) if i + 1 == n => 3,
            _ => 2,
        };
        let e = if k.stream {
            0xF000_0000 | pos << 26 | (k.status as u32) << 16
        } else {
            let (addr, ch) = match m.channel {
                None => (1u32, 0u32),
                Some(ch) => (0, ch as u32),
            };
            0xD000_0000 | (m.group as u32) << 24 | pos << 22 | addr << 20 | ch << 16 | (k.bank as u32) << 8 | k.status as u32
        };
        let (mut mask, mut e) = if k.stream { (0xFFFF_0000u32, e) } else { (0xFFFF_FFFF, e) };
        if k.fb {
            mask |= 0xFF00;
            e |= (m.fb as u32) << 8;
        }
        ensure!(
            p.len() == 4 && p[0] & mask == e,
            format!("{}: a packet's header is not the message's", fam(k)),
            "{} packet {i} of {n}: expected {e:08x}, data {}, model {m:?}",
            k.name,
            hex32(&w)
        );
    }
    ensure!(
        lib!(o.grp()) == m.group && (k.stream || lib!(o.chan()) == m.channel) && lib!(o.fb()) == m.fb,
        format!("{}: header field reads back differently", fam(k)),
        "{} group {} channel {:?} function block {}, model {m:?}",
        k.name,
        o.grp(),
        o.chan(),
        o.fb()
    );
    Ok(())
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, PartialEq)]
struct Snap {
    words: Vec<u32>,
    reads: Vec<u64>,
    text: String,
    cut: Vec<Vec<u32>>,
}

pub fn storages(c: &mut Ctx) -> R {
    let k = draw_kind(c);
    c.ev(k.status as u64 + 64 * k.bank as u64 + 1024 * k.stream as u64);
    tr!(c, "{}", k.name);
    let (recv, model) = start(c, k, 36);
    let ops: Vec<Op> = (0..c.s.range(1, 6)).map(|_| draw_op(c, k, MAX, 3)).collect();
    let mut places = vec![Place::Vec];
    for _ in 0..c.s.range(1, 3) {
        places.push(if c.s.chance(1, 2) { roomy(c) } else { Place::draw_txt(c, 4, 4 * (c.most(120) / 12)) });
    }
    let mut base: Vec<Snap> = vec![];
    for (pi, place) in places.iter().enumerate() {
        c.step();
        tr!(c, "in {place:?}:");
        ev_place(c, *place);
        let cap = place.txt_cap();
        let mut log = vec![];
        let mut stopped = false;
        let ok = (k.with)(c, *place, recv.as_deref(), &mut |c, o, _| {
            let mut m = model.clone();
            let snap = |o: &dyn TxtObj| Snap {
                words: lib!(o.words()),
                reads: lib!(o.reads()),
                text: lib!(o.text()),
                cut: lib!(o.cut()),
            };
            log.push(snap(o));
            for op in &ops {
                let fal = o.can_try() && (pi % 2 == 1 || !o.can_resize());
                if apply(c, o, &mut m, op, fal).is_err() {
                    let fits = match op {
                        Op::Text(t) => cap.map_or(true, |cp| k.words(t.len()) <= cp),
                        _ => true,
                    };
                    ensure!(!fits, format!("{}: storage refuses text it can hold", fam(k)), "{} {place:?} {op:?}", k.name);
                    c.count("history stopped by capacity");
                    stopped = true;
                    break;
                }
                log.push(snap(o));
            }
            Ok(())
        })?;
        if !ok {
            let need = recv.as_ref().map_or(4, |w| w.len());
            ensure!(
                cap.map_or(false, |cp| cp < need),
                format!("{}: storage refuses a message it can hold", fam(k)),
                "{} {place:?}",
                k.name
            );
            continue;
        }
        if pi == 0 {
            base = log;
            continue;
        }
        c.nontrivial = true;
        for (i, (a, b)) in base.iter().zip(log.iter()).enumerate() {
            ensure!(
                a == b,
                format!("{}: another result in another storage", fam(k)),
                "after step {i} in {place:?}: {} {:?} {:?}; in a vector: {} {:?} {:?}",
                hex32(&b.words),
                b.text,
                b.reads,
                hex32(&a.words),
                a.text,
                a.reads
            );
        }
        if log.len() < base.len() && !stopped {
            fail!(format!("{}: history ended early in another storage", fam(k)), "{} {place:?}", k.name);
        }
    }
    Ok(())
}
