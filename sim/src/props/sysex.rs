//! Histories of payload edits on system exclusive messages: C01, C02, C03 and the sysex parts of C04 and C07.
use crate::engine::{catch_cut, Ctx, R};
use crate::source::SourceSpec;
use crate::sx::*;
use crate::{ensure, fail, lib, tr};
use std::rc::Rc;

const MAX: usize = 150;
const CHUNK: usize = 60;

/// New, or received from a device that packs its packets its own way.
pub fn draw_origin(c: &mut Ctx, f: Form, max: usize) -> (Origin, Model, usize) {
    if c.s.chance(1, 2) {
        let (bytes, group, stream, units) = draw_recv(c, f, max);
        tr!(c, "received {} bytes, group {group}, stream {stream:#x}: {}", bytes.len(), units.show());
        c.count("received message edited");
        c.ev(units.len() as u64);
        let n = units.len();
        (Origin::Recv(units), Model { bytes, group, stream }, n)
    } else {
        tr!(c, "new message");
        (Origin::New, Model { bytes: vec![], group: 0, stream: 0 }, f.need(0))
    }
}

/// storage that never runs out (fixed ones are far bigger than any history needs)
pub fn draw_roomy(c: &mut Ctx, f: Form) -> Place {
    let d = Place::dirty(c);
    let cap = 6 * f.need(c.most(MAX) + c.most(CHUNK)) + c.s.below(7);
    match c.s.draw(7) {
        0 | 1 => Place::Vec,
        2 => Place::VecRef(d),
        3 => Place::Exact(cap, d),
        4 => Place::Fixed(cap, d),
        5 => Place::Grain(cap, d),
        _ => Place::Slice(cap, d),
    }
}

pub fn show_edit(c: &mut Ctx, e: Edit, src: &SourceSpec, fallible: bool) {
    tr!(c, "{}{:?} {}", if fallible { "try " } else { "" }, e, src.describe());
    let k = match e {
        Edit::Set => 1,
        Edit::Insert(i) => 2 + 16 * i as u64,
        Edit::Append => 3,
        Edit::Splice(a, b, s) => 4 + 16 * a as u64 + 65536 * b as u64 + ((s as u64) << 40),
        Edit::SetByte(i, _) => 5 + 16 * i as u64,
        Edit::AppendByte(_) => 6,
    };
    c.ev(k);
    c.ev(src.bytes.len() as u64);
    c.ev(src.lower_slack as u64);
    c.ev(src.upper_slack.map(|x| (x as u64).wrapping_add(1)).unwrap_or(0));
    if !src.exact_hint() {
        c.count("fault: source hides its length");
    }
}

pub fn fallible(c: &mut Ctx, o: &dyn SxObj) -> bool {
    match (o.can_resize(), o.can_try()) {
        (true, true) => c.s.chance(1, 2),
        (_, t) => t,
    }
}

fn header_edit(c: &mut Ctx, o: &mut dyn SxObj, m: &mut Model) {
    match o.form() {
        Form::B7 => {}
        Form::U8 if c.s.chance(1, 2) => {
            m.stream = c.s.u8();
            tr!(c, "set_stream_id({:#x})", m.stream);
            lib!(o.put_stream(m.stream));
            c.ev(0x100 + m.stream as u64);
        }
        _ => {
            m.group = c.s.draw(16) as u8;
            tr!(c, "set_group({})", m.group);
            lib!(o.put_group(m.group));
            c.ev(0x200 + m.group as u64);
        }
    }
}

pub fn draw_next(c: &mut Ctx, f: Form, len: usize) -> (Edit, SourceSpec) {
    let (mut e, src) = draw_edit(c, f, len, CHUNK);
    if len > c.most(MAX) && !matches!(e, Edit::Set | Edit::SetByte(..)) {
        e = Edit::Splice(len.min(3), len, 0);
    }
    (e, src)
}

fn steps(c: &mut Ctx) -> usize {
    if c.s.chance(1, 10) {
        c.s.range(8, 30)
    } else {
        c.s.range(1, 7)
    }
}

// ------------------------------------------------------------------ C01

pub fn payload_edits(c: &mut Ctx) -> R {
    let f = Form::draw(c);
    let place = draw_roomy(c, f);
    tr!(c, "{} in {place:?}", f.name());
    c.ev(f as u64);
    let (origin, model, _) = draw_origin(c, f, MAX);
    let n = steps(c);
    let ok = with_sx(c, f, place, &origin, &mut |c, o, _| {
        let mut m = model.clone();
        check_payload(c, o, &m, "at the start")?;
        for _ in 0..n {
            c.step();
            let (e, src) = draw_next(c, f, m.bytes.len());
            let fal = fallible(c, o);
            show_edit(c, e, &src, fal);
            if lib!(o.edit(e, &src, fal)).is_err() {
                fail!(
                    format!("{}: edit refused though there is room", f.name()),
                    "{e:?} with {} on {} bytes in {place:?}",
                    src.describe(),
                    m.bytes.len()
                );
            }
            c.nontrivial |= !src.bytes.is_empty() || matches!(e, Edit::SetByte(..) | Edit::AppendByte(_));
            let before = m.bytes.len();
            apply(&mut m.bytes, e, &src.bytes);
            check_payload(c, o, &m, "after the edit")?;
            let size = lib!(o.units()).len();
            ensure!(
                size == f.need(m.bytes.len()) || matches!(e, Edit::SetByte(..)) || (src.bytes.is_empty() && m.bytes.len() == before),
                format!("{}: edited message is larger than its payload needs", f.name()),
                "after {e:?} with {} in {place:?}: {} bytes in {size} units",
                src.describe(),
                m.bytes.len()
            );
        }
        Ok(())
    })?;
    ensure!(ok, format!("{}: message refused though there is room", f.name()), "{place:?}");
    Ok(())
}

// ------------------------------------------------------------------ C02

pub fn refusals(c: &mut Ctx) -> R {
    let f = Form::draw(c);
    let (origin, model, units) = draw_origin(c, f, 50);
    let place = Place::draw(c, f, 0, f.need(c.most(90)));
    tr!(c, "{} in {place:?}", f.name());
    c.ev(f as u64);
    let n = steps(c);
    let cap = place.cap(f);
    let inject = c.s.chance(1, 2);
    let ok = with_sx(c, f, place, &origin, &mut |c, o, ctl| {
        let mut m = model.clone();
        check_wire(c, o, Some(&m), m.group, m.stream, "at the start")?;
        let mut i = 0;
        while i < n || (i == n && o.can_try()) {
            c.step();
            let last = i == n;
            i += 1;
            let (mut e, mut src) = draw_next(c, f, m.bytes.len());
            if last {
                // whatever happened, a replacement that fits succeeds
                let k = c.s.range(0, 10);
                let k = (0..=k).rev().find(|k| cap.map_or(true, |cp| f.need(*k) <= cp)).unwrap_or(0);
                e = Edit::Set;
                src = SourceSpec { bytes: (0..k as u8).collect(), lower_slack: k, upper_slack: None, cut_at: None };
            }
            let fal = o.can_try();
            show_edit(c, e, &src, fal);
            let mut armed = false;
            if let (Some(ctl), true, false) = (&ctl, inject, last) {
                if c.s.chance(1, 2) {
                    let from = c.s.draw(3);
                    let len = match c.s.draw(3) {
                        0 => 1,
                        1 => 2,
                        _ => 1 << 40,
                    };
                    ctl.arm(from, len);
                    armed = true;
                    tr!(c, "   growth requests from number {from} on refused ({len})");
                    c.ev(from + 100 * (len & 0xF));
                } else {
                    ctl.disarm();
                }
            } else if let Some(ctl) = &ctl {
                ctl.disarm();
            }
            let r = lib!(o.edit(e, &src, fal));
            let injected = ctl.as_ref().map_or(0, |c| c.refused_injected.get());
            if let Some(ctl) = &ctl {
                c.count_n("fault: buffer out of capacity", ctl.refused_capacity.get());
                c.count_n("fault: transient allocation refusal", injected);
                ctl.disarm();
            }
            let mut after = m.bytes.clone();
            apply(&mut after, e, &src.bytes);
            let fits = cap.map_or(true, |cp| f.need(after.len()) <= cp);
            c.ev(r.is_ok() as u64);
            match r {
                Ok(()) => {
                    ensure!(
                        fits || !fal,
                        format!("{}: edit succeeds without room for its outcome", f.name()),
                        "{e:?} with {} on {} bytes in {place:?}",
                        src.describe(),
                        m.bytes.len()
                    );
                    m.bytes = after;
                    c.nontrivial |= !src.bytes.is_empty();
                    if armed && injected > 0 {
                        c.count("edit succeeded despite a refusal");
                    }
                    check_payload(c, o, &m, "after a successful edit")?;
                    check_wire(c, o, Some(&m), m.group, m.stream, "after a successful edit")?;
                }
                Err(()) => {
                    tr!(c, "   overflow reported");
                    c.count("overflow reported");
                    c.nontrivial = true;
                    ensure!(
                        !fits || injected > 0,
                        format!("{}: overflow reported though the room was granted", f.name()),
                        "{e:?} with {} on {} bytes in {place:?} ({units} units received)",
                        src.describe(),
                        m.bytes.len()
                    );
                    m.bytes = lib!(o.bytes());
                    check_wire(c, o, Some(&m), m.group, m.stream, "after a refused edit")?;
                }
            }
            if c.s.chance(1, 6) {
                header_edit(c, o, &mut m);
                check_wire(c, o, Some(&m), m.group, m.stream, "after a header edit")?;
            }
        }
        Ok(())
    })?;
    if !ok {
        let need = if let Origin::New = origin { f.need(0) } else { units };
        c.count("message refused by its storage");
        ensure!(
            cap.map_or(false, |cp| cp < need),
            format!("{}: message refused though there is room", f.name()),
            "{place:?}, {need} units"
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

pub fn interrupted(c: &mut Ctx) -> R {
    let f = Form::draw(c);
    let place = draw_roomy(c, f);
    tr!(c, "{} in {place:?}", f.name());
    c.ev(f as u64);
    let (origin, model, _) = draw_origin(c, f, 90);
    let n = c.s.range(1, 5);
    with_sx(c, f, place, &origin, &mut |c, o, _| {
        let mut m = model.clone();
        for _ in 0..n {
            c.step();
            if c.s.chance(1, 4) {
                header_edit(c, o, &mut m);
            }
            let (mut e, mut src) = draw_next(c, f, m.bytes.len());
            if matches!(e, Edit::SetByte(..) | Edit::AppendByte(_)) {
                e = Edit::Append;
                src = SourceSpec::draw(c, CHUNK, f.cap(), f.seven());
            }
            // interrupted at the very end (while looking for one more byte) as well
            src.cut_at = match c.s.draw(5) {
                0 => None,
                1 => Some(src.bytes.len()),
                2 => Some(0),
                _ => Some(c.s.range(0, src.bytes.len())),
            };
            let fal = fallible(c, o);
            show_edit(c, e, &src, fal);
            c.ev(src.cut_at.map_or(0, |x| x as u64 + 1));
            let r = catch_cut(|| lib!(o.edit(e, &src, fal)));
            match r {
                None => {
                    c.count("fault: edit interrupted");
                    c.nontrivial = true;
                    tr!(c, "   interrupted");
                    m.bytes = lib!(o.bytes());
                    check_wire(c, o, Some(&m), m.group, m.stream, "after an interrupted edit")?;
                    // and the next replacement is exact
                    let next = SourceSpec::draw(c, CHUNK, f.cap(), f.seven());
                    let fal = fallible(c, o);
                    show_edit(c, Edit::Set, &next, fal);
                    let r = lib!(o.edit(Edit::Set, &next, fal));
                    ensure!(
                        r.is_ok(),
                        format!("{}: replacement after an interruption refused", f.name()),
                        "{place:?}"
                    );
                    m.bytes = next.bytes.clone();
                    check_payload(c, o, &m, "replaced after an interruption")?;
                    check_wire(c, o, Some(&m), m.group, m.stream, "replaced after an interruption")?;
                }
                Some(_) => {
                    m.bytes = lib!(o.bytes());
                }
            }
        }
        Ok(())
    })?;
    Ok(())
}

// ------------------------------------------------------------------ C04

pub fn addressing(c: &mut Ctx) -> R {
    let f = Form::draw(c);
    let tight = c.s.chance(1, 3);
    let (origin, model, _) = draw_origin(c, f, 60);
    let place = if tight { Place::draw(c, f, f.need(0), f.need(c.most(70))) } else { draw_roomy(c, f) };
    tr!(c, "{} in {place:?}", f.name());
    c.ev(f as u64);
    let n = steps(c) + 1;
    with_sx(c, f, place, &origin, &mut |c, o, ctl| {
        let mut m = model.clone();
        check_addr(c, o, m.group, m.stream, "at the start")?;
        for _ in 0..n {
            c.step();
            if c.s.chance(1, 3) {
                header_edit(c, o, &mut m);
                c.nontrivial = true;
                check_addr(c, o, m.group, m.stream, "after a header edit")?;
                continue;
            }
            let (e, mut src) = draw_next(c, f, m.bytes.len());
            let fal = o.can_try();
            if let Some(ctl) = &ctl {
                ctl.disarm();
                if c.s.chance(1, 6) {
                    ctl.arm(c.s.draw(2), 1);
                }
            }
            if c.s.chance(1, 8) && !matches!(e, Edit::SetByte(..) | Edit::AppendByte(_)) {
                src.cut_at = Some(c.s.range(0, src.bytes.len()));
            }
            show_edit(c, e, &src, fal);
            let r = catch_cut(|| lib!(o.edit(e, &src, fal)));
            match r {
                None => c.count("fault: edit interrupted"),
                Some(Err(_)) => c.count("fault: edit refused"),
                _ => {}
            }
            tr!(c, "   {r:?}");
            m.bytes = vec![0; lib!(o.len())];
            check_addr(c, o, m.group, m.stream, "after an edit")?;
        }
        Ok(())
    })?;
    Ok(())
}

// ------------------------------------------------------------------ C07

enum Op {
    Edit(Edit, SourceSpec),
    Group(u8),
    Stream(u8),
}
#[derive(Clone, Debug, PartialEq)]
struct Snap {
    ok: bool,
    units: Units,
    reads: Vec<u64>,
    cut: Vec<Vec<u32>>,
}
fn snap(o: &dyn SxObj, ok: bool) -> Snap {
    Snap { ok, units: lib!(o.units()), reads: lib!(o.reads()), cut: lib!(o.cut()) }
}

/// one history, many storages, step by step the same
pub fn storages(c: &mut Ctx) -> R {
    let f = Form::draw(c);
    let (origin, model, got) = draw_origin(c, f, 60);
    let mut len = model.bytes.len();
    let mut ops = Vec::new();
    let mut lens = vec![len];
    for _ in 0..steps(c) {
        let op = match c.s.draw(8) {
            0 if f != Form::B7 => Op::Group(c.s.draw(16) as u8),
            1 if f == Form::U8 => Op::Stream(c.s.u8()),
            _ => {
                let (e, mut src) = draw_next(c, f, len);
                // what a source reveals about its length may change how often room is asked for,
                // not the outcome; refusals are decided by C02
                if c.s.chance(2, 3) {
                    src.lower_slack = 0;
                    src.upper_slack = Some(0);
                }
                let mut b = vec![0u8; len];
                apply(&mut b, e, &src.bytes);
                len = b.len();
                Op::Edit(e, src)
            }
        };
        ops.push(op);
        lens.push(len);
    }
    let mut places = vec![Place::Vec];
    let roomy = 6 * f.need(c.most(MAX) + c.most(CHUNK));
    for _ in 0..c.s.range(1, 3) {
        let d = 1 + c.s.draw(3) + if c.s.chance(1, 3) { c.s.draw(1 << 16) } else { 0 };
        let p = match c.s.draw(8) {
            0 => Place::VecRef(d + c.s.draw(40)),
            1 => Place::Exact(roomy, d),
            2 => Place::Grain(roomy, d),
            3 => Place::Fixed(roomy + c.s.below(5), d),
            4 => Place::Slice(roomy + c.s.below(5), d),
            5 => Place::Arr(2),
            6 => Place::Slice(c.s.range(f.need(0), f.need(c.most(80))), d),
            _ => Place::Fixed(c.s.range(f.need(0), f.need(c.most(80))), d),
        };
        places.push(p);
    }
    for o in &ops {
        match o {
            Op::Edit(e, s) => show_edit(c, *e, s, false),
            Op::Group(g) => {
                tr!(c, "set_group({g})");
                c.ev(0x200 + *g as u64)
            }
            Op::Stream(s) => {
                tr!(c, "set_stream_id({s:#x})");
                c.ev(0x300 + *s as u64)
            }
        }
    }
    let mut base: Vec<Snap> = Vec::new();
    for (pi, place) in places.iter().enumerate() {
        c.step();
        tr!(c, "in {place:?}:");
        c.ev(match place {
            Place::Vec => 1,
            Place::VecRef(_) => 2,
            Place::Exact(..) => 3,
            Place::Grain(..) => 4,
            Place::Fixed(..) => 5,
            Place::Slice(..) => 6,
            Place::Arr(i) => 7 + *i as u64,
        });
        let cap = place.cap(f);
        let mut log = Vec::new();
        let fits = |n: usize| cap.map_or(true, |cp| f.need(n) <= cp);
        let all_fit = lens.iter().all(|n| fits(*n)) && cap.map_or(true, |cp| got <= cp);
        let mut stopped = false;
        let ok = with_sx(c, f, *place, &origin, &mut |c, o, _| {
            log.push(snap(o, true));
            for (i, op) in ops.iter().enumerate() {
                let ok = match op {
                    Op::Group(g) => {
                        lib!(o.put_group(*g));
                        true
                    }
                    Op::Stream(s) => {
                        lib!(o.put_stream(*s));
                        true
                    }
                    Op::Edit(e, s) => lib!(o.edit(*e, s, o.can_try() && pi % 2 == 1)).is_ok(),
                };
                if !ok && (!fits(lens[i + 1]) || matches!(op, Op::Edit(_, s) if !s.exact_hint())) {
                    c.count("history stopped by capacity");
                    stopped = true;
                    break;
                }
                log.push(snap(o, ok));
                // what an edit takes out of the message does not stay behind in its packets
                if let (Units::W(w), Op::Edit(..)) = (&log[log.len() - 1].units, op) {
                    ensure!(
                        crate::wire::unused(w, f == Form::U8).all(|b| b == 0),
                        format!("{}: something is left in the unused room of its packets", f.name()),
                        "after step {i} in {place:?}: data {}",
                        crate::wire::hex32(w)
                    );
                }
            }
            Ok(())
        })?;
        if !ok {
            ensure!(!all_fit, format!("{}: storage refuses a message it can hold", f.name()), "{place:?}");
            continue;
        }
        if pi == 0 {
            base = log;
            continue;
        }
        c.nontrivial = true;
        for (i, (a, b)) in base.iter().zip(log.iter()).enumerate() {
            tr!(c, "   step {i}: {}", b.units.show());
            ensure!(
                a == b,
                format!("{}: another result in another storage", f.name()),
                "after step {i} in {place:?}: data {} readings {:?}; in a vector: data {} readings {:?}",
                b.units.show(),
                &b.reads[..b.reads.len().min(12)],
                a.units.show(),
                &a.reads[..a.reads.len().min(12)]
            );
        }
        if log.len() < base.len() && !stopped {
            fail!(format!("{}: history ended early in another storage", f.name()), "{place:?}");
        }
    }
    Ok(())
}

/// keeps the unused import quiet when the control block type is not named
pub type _Ctl = Option<Rc<crate::simbuf::Ctl>>;
