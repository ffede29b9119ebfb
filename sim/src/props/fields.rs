//! Field edits of the fixed-size messages: C05 and the fixed-size part of C07.
use crate::heap::{heap, Heap};
use crate::engine::{Ctx, R};
use crate::kinds::*;
use crate::simbuf::{set_default, SimBuf};
use crate::{ensure, fail, lib, tr};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    Vec,
    Arr,
    ArrBig,
    TryNewArr,
    NewSim,
    TryNewSim(usize, bool),
    Slice(usize, u64),
    ArrWith(u64),
    SimTry(u8, usize, u64),
    SimNew(u8, usize, u64),
    VecWith(usize, u64),
    VecRef(usize, u64),
}

pub fn dirty(c: &mut Ctx) -> u64 {
    match c.s.draw(5) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => 3 + c.s.draw(1 << 16),
    }
}

impl Place {
    /// `least`: smallest capacity drawn for the bounded storages
    pub fn draw(c: &mut Ctx, least: usize, room: usize) -> Place {
        let d = dirty(c);
        let cap = c.s.range(least, room);
        let mode = c.s.draw(3) as u8;
        match c.s.draw(12) {
            0 => Place::Vec,
            1 => Place::Arr,
            2 => Place::ArrBig,
            3 => Place::TryNewArr,
            4 => Place::NewSim,
            5 => Place::TryNewSim(cap, c.s.chance(1, 2)),
            6 => Place::Slice(cap, d),
            7 => Place::ArrWith(d),
            8 => Place::SimTry(mode, cap, d),
            9 => Place::SimNew(mode, cap, d),
            10 => Place::VecWith(c.s.range(0, 9), d),
            _ => Place::VecRef(c.s.range(0, 9), d),
        }
    }
    pub fn cap(&self) -> Option<usize> {
        Some(match self {
            Place::Arr => 4,
            Place::TryNewArr => 5,
            Place::ArrBig | Place::ArrWith(_) => 8,
            Place::TryNewSim(n, _) | Place::Slice(n, _) | Place::SimTry(_, n, _) => *n,
            Place::Vec | Place::NewSim | Place::SimNew(..) | Place::VecWith(..) | Place::VecRef(..) => return None,
        })
    }
    pub fn ev(&self, c: &mut Ctx) {
        for b in format!("{self:?}").bytes() {
            c.ev(b as u64);
        }
    }
}

fn sim<U: Segs>(mode: u8, cap: usize, d: u64) -> SimBuf<U> {
    match mode {
        0 => SimBuf::fixed(cap, d),
        1 => SimBuf::exact(cap, d),
        _ => SimBuf::grain(cap, d),
    }
}

/// Runs `f` on a new message in the storage; Ok(false): the storage is refused.
pub fn with_new<U: Segs>(
    c: &mut Ctx,
    f: &'static Forms<U>,
    p: Place,
    run: &mut dyn FnMut(&mut Ctx, &mut dyn MsgMut<U>) -> R,
) -> R<bool> {
    let fill = |n: usize, d: u64| -> Vec<U> { SimBuf::<U>::fixed(n, d).raw() };
    if f.tmpl.first().map(|x| x.to_u64()) == Some(0xF010_0000) && !matches!(p, Place::Arr | Place::ArrBig | Place::TryNewArr | Place::ArrWith(_)) {
        // storage of its own minimum size makes this one kind panic (see known-findings.txt)
        let min = match p {
            Place::TryNewSim(n, true) | Place::Slice(n, _) | Place::SimTry(0, n, _) | Place::SimNew(0, n, _) => n < 4,
            _ => true,
        };
        if min {
            if c.s.chance(1, 16) {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib!((f.make)(Make::Vec)).map(|m| m.units().to_vec())));
                crate::engine::reset_lib();
                if !matches!(r, Ok(Ok(w)) if w.len() == 4) {
                    fail!("ump_stream::FunctionBlockDiscovery (ump): cannot be made in a vector", "new() panics or gives a short message");
                }
            }
            return Ok(true);
        }
    }
    let mut mem: Vec<U>;
    let mut hp: Heap<U>;
    let made = match p {
        Place::Vec => lib!((f.make)(Make::Vec)),
        Place::Arr => lib!((f.make)(Make::Arr)),
        Place::ArrBig => lib!((f.make)(Make::ArrBig)),
        Place::TryNewArr => lib!((f.make)(Make::TryNewArr)),
        Place::NewSim => lib!((f.make)(Make::NewSim)),
        Place::TryNewSim(cap, fixed) => {
            set_default(cap, fixed);
            lib!((f.make)(Make::TryNewSim))
        }
        Place::Slice(n, d) => {
            mem = fill(n, d);
            let r = lib!((f.make)(Make::Slice(&mut mem)));
            return match r {
                Ok(mut m) => run(c, &mut *m).map(|_| true),
                Err(_) => Ok(false),
            };
        }
        Place::ArrWith(d) => {
            let v = fill(8, d);
            lib!((f.make)(Make::ArrWith(core::array::from_fn(|i| v[i]))))
        }
        Place::SimTry(m, n, d) => lib!((f.make)(Make::SimTry(sim(m, n, d)))),
        Place::SimNew(m, n, d) => lib!((f.make)(Make::SimNew(sim(m, n, d)))),
        Place::VecWith(n, d) => lib!((f.make)(Make::VecWith(heap(fill(n, d))))),
        Place::VecRef(n, d) => {
            hp = heap(fill(n, d));
            let r = lib!((f.make)(Make::VecRef(&mut hp)));
            return match r {
                Ok(mut m) => run(c, &mut *m).map(|_| true),
                Err(_) => Ok(false),
            };
        }
    };
    match made {
        Ok(mut m) => run(c, &mut *m).map(|_| true),
        Err(_) => Ok(false),
    }
}

pub fn hexu<U: Segs>(w: &[U]) -> String {
    let v: Vec<String> = w.iter().map(|x| if U::NAME == "ump" { format!("{:08x}", x.to_u64()) } else { format!("{:02x}", x.to_u64()) }).collect();
    format!("[{}]", v.join(" "))
}

/// What a conforming sender may have put on the wire for this kind.
pub fn received<U: Segs>(c: &mut Ctx, k: &'static Kind, f: &'static Forms<U>) -> Vec<U> {
    let mut w = f.tmpl.to_vec();
    // reserved bits: a receiver does not rely on them
    if U::NAME == "ump" && c.s.chance(1, 4) {
        for (i, x) in w.iter_mut().enumerate() {
            let r = c.s.u32() as u64 & !f.mask[i].to_u64();
            *x = U::from_u64(x.to_u64() | r);
        }
        c.count("received message with reserved bits set");
    }
    for fl in &k.fields[..f.nf] {
        let segs = U::segs(fl);
        let v = (fl.draw_recv)(c, seg_width(segs));
        put_bits(&mut w, segs, v);
    }
    if U::NAME == "ump" {
        for (s, vals) in k.hidden {
            let v = *c.s.pick(vals);
            put_bits(&mut w, &[*s], v);
        }
    }
    w
}

pub fn draw_to(c: &mut Ctx, room: usize) -> To {
    match c.s.draw(5) {
        0 => To::Vec,
        1 => To::Arr,
        2 => To::ArrBig,
        3 => To::ArrBigRe,
        _ => To::Sim(room + c.s.below(4), c.s.chance(1, 2), dirty(c)),
    }
}

pub fn expect_readings<U: Segs>(k: &Kind, f: &Forms<U>, w: &[U]) -> Vec<u64> {
    k.fields[..f.nf].iter().map(|fl| (fl.canon)(get_bits(w, U::segs(fl)))).collect()
}

/// Everything a message must be when its data should be `exp`.
fn check<U: Segs>(k: &'static Kind, f: &'static Forms<U>, m: &dyn Msg<U>, exp: &[U], place: &str, when: &str) -> R {
    let name = format!("{} ({})", k.name, U::NAME);
    let (w, r) = (lib!(m.units().to_vec()), lib!(m.readings()));
    let want = expect_readings(k, f, exp);
    for (i, (a, b)) in want.iter().zip(r.iter()).enumerate() {
        ensure!(
            a == b,
            format!("{name}: {} reads back differently", k.fields[i].name),
            "{when} in {place}: {} reads {b:#x}, expected {a:#x}; data {}",
            k.fields[i].name,
            hexu(&w)
        );
    }
    let n = w.len().min(exp.len());
    ensure!(
        w[..n] == exp[..n],
        format!("{name}: data is not what the layout prescribes"),
        "{when} in {place}: {} expected {}",
        hexu(&w),
        hexu(exp)
    );
    // across the wire
    match lib!((f.parse)(&w)) {
        Err(e) => fail!(format!("{name}: own data rejected"), "{when} in {place}: {} {e:?}", hexu(&w)),
        Ok(p) => {
            let (pr, pw) = (lib!(p.readings()), lib!(p.units().to_vec()));
            ensure!(
                pr == r && pw == w && p.kind() == m.kind(),
                format!("{name}: data parses as something else"),
                "{when} in {place}: {} parsed {} {} {pr:x?}, was {r:x?}",
                hexu(&w),
                p.kind(),
                hexu(&pw)
            );
        }
    }
    ensure!(
        lib!((f.same)(&w, &w.clone())) == Ok(true),
        format!("{name}: parsed twice, not equal"),
        "{}",
        hexu(&w)
    );
    Ok(())
}

fn check_len<U: Segs>(k: &Kind, f: &Forms<U>, m: &dyn Msg<U>) -> R {
    let n = lib!(m.units().len());
    ensure!(
        n == f.size,
        format!("{} ({}): data is {n} units, the wire format has {}", k.name, U::NAME, f.size),
        "{}",
        hexu(&lib!(m.units().to_vec()))
    );
    Ok(())
}

#[derive(Clone, Debug)]
struct Op {
    field: usize,
    bits: u64,
    syn: u64,
}

fn draw_ops<U: Segs>(c: &mut Ctx, k: &Kind, f: &Forms<U>, max: usize) -> Vec<Op> {
    if f.nf == 0 {
        return vec![];
    }
    (0..c.s.range(1, max))
        .map(|_| {
            let field = c.s.below(f.nf);
            let fl = &k.fields[field];
            let bits = (fl.draw)(c, seg_width(U::segs(fl)));
            let syn = c.s.draw(fl.syn);
            c.ev(field as u64);
            c.ev(bits);
            c.ev(syn);
            Op { field, bits, syn }
        })
        .collect()
}

fn edit<U: Segs>(c: &mut Ctx, k: &Kind, m: &mut dyn MsgMut<U>, exp: &mut [U], op: &Op) {
    tr!(c, "set {} = {:#x}{}", k.fields[op.field].name, op.bits, if op.syn > 0 { " (other name)" } else { "" });
    lib!(m.set(op.field, op.bits, op.syn));
    put_bits(exp, U::segs(&k.fields[op.field]), op.bits);
}

pub fn draw_kind(c: &mut Ctx) -> &'static Kind {
    let k = *c.s.pick(KINDS);
    for b in k.name.bytes() {
        c.ev(b as u64);
    }
    k
}

pub fn field_edits(c: &mut Ctx) -> R {
    let k = draw_kind(c);
    if k.bytes.is_some() && c.s.chance(1, 2) {
        edits::<u8>(c, k, k.bytes.as_ref().unwrap())
    } else {
        edits::<u32>(c, k, &k.ump)
    }
}

fn edits<U: Segs>(c: &mut Ctx, k: &'static Kind, f: &'static Forms<U>) -> R {
    c.ev(f.size as u64);
    let run = |c: &mut Ctx, m: &mut dyn MsgMut<U>, exp: &mut [U], place: &str| -> R {
        check(k, f, m.as_msg(), exp, place, "at the start")?;
        for op in draw_ops(c, k, f, 10) {
            c.step();
            edit(c, k, m, exp, &op);
            check(k, f, m.as_msg(), exp, place, "after an edit")?;
            c.nontrivial = true;
        }
        if c.s.chance(1, 16) {
            check_len(k, f, m.as_msg())?;
            if k.name == "channel_voice2::ProgramChange" {
                if let Some(x) = program_bank_probe() {
                    fail!("channel_voice2::ProgramChange (ump): bank septets not in the specified order", "{x}");
                }
            }
        }
        Ok(())
    };
    if c.s.chance(1, 2) {
        let w = received(c, k, f);
        for x in &w {
            c.ev(x.to_u64());
        }
        let to = draw_to(c, f.size);
        tr!(c, "{} ({}) received {} into {to:?}", k.name, U::NAME, hexu(&w));
        c.count("received message edited");
        {
            let m = lib!((f.parse)(&w));
            match m {
                Ok(m) => check(k, f, &*m, &w, "the slice received", "as received")?,
                Err(e) => fail!(format!("{} ({}): well-formed message rejected", k.name, U::NAME), "{} {e:?}", hexu(&w)),
            }
        }
        match lib!((f.recv)(&w, to)) {
            Ok(mut m) => run(c, &mut *m, &mut w.clone(), &format!("{to:?}"))?,
            Err(e) => fail!(format!("{} ({}): cannot be moved into roomy storage", k.name, U::NAME), "{to:?} {} {e:?}", hexu(&w)),
        }
    } else {
        let p = Place::draw(c, f.size, f.size + 6);
        p.ev(c);
        tr!(c, "{} ({}) new in {p:?}", k.name, U::NAME);
        let ok = with_new(c, f, p, &mut |c, m| {
            // what a new message's fields start as is the library's choice: the data has to agree
            let mut exp = f.tmpl.to_vec();
            let r = lib!(m.readings());
            for (i, fl) in k.fields[..f.nf].iter().enumerate() {
                put_bits(&mut exp, U::segs(fl), r[i]);
            }
            run(c, m, &mut exp, &format!("{p:?}"))
        })?;
        ensure!(ok, format!("{} ({}): storage refused though it has room", k.name, U::NAME), "{p:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

pub fn storages(c: &mut Ctx) -> R {
    let k = draw_kind(c);
    if k.bytes.is_some() && c.s.chance(1, 2) {
        stores::<u8>(c, k, k.bytes.as_ref().unwrap())
    } else {
        stores::<u32>(c, k, &k.ump)
    }
}

fn stores<U: Segs>(c: &mut Ctx, k: &'static Kind, f: &'static Forms<U>) -> R {
    let name = format!("{} ({})", k.name, U::NAME);
    let ops = draw_ops(c, k, f, 6);
    let mut base: Vec<(Vec<U>, Vec<u64>)> = vec![];
    let n = c.s.range(1, 4);
    for i in 0..=n {
        c.step();
        let p = if i == 0 && k.name == "ump_stream::FunctionBlockDiscovery" { Place::ArrBig } else if i == 0 { Place::Vec } else { Place::draw(c, 0, f.size + 5) };
        p.ev(c);
        tr!(c, "in {p:?}");
        let mut log = vec![];
        let ok = with_new(c, f, p, &mut |c, m| {
            let mut exp = f.tmpl.to_vec();
            log.push((lib!(m.units().to_vec()), lib!(m.readings())));
            for op in &ops {
                edit(c, k, m, &mut exp, op);
                log.push((lib!(m.units().to_vec()), lib!(m.readings())));
            }
            Ok(())
        })?;
        if ok && log.is_empty() {
            continue;
        }
        // the library's own minimum is what counts here
        let need = if i == 0 { log[0].0.len() } else { base[0].0.len() };
        let fits = p.cap().map_or(true, |x| x >= need);
        if !fits {
            c.count("fault: storage too small");
        }
        ensure!(
            ok == fits,
            format!("{name}: {}", if ok { "made in storage too small for it" } else { "storage refused though it has room" }),
            "{p:?}, {need} units"
        );
        if i == 0 {
            base = log;
        } else if ok {
            c.nontrivial = true;
            for (j, (a, b)) in base.iter().zip(log.iter()).enumerate() {
                ensure!(
                    a == b,
                    format!("{name}: another result in another storage"),
                    "after step {j} in {p:?}: {} {:x?}; in a vector {} {:x?}",
                    hexu(&b.0),
                    b.1,
                    hexu(&a.0),
                    a.1
                );
            }
        }
    }
    // a received message at the front of longer memory: what follows it has no say
    let w = received(c, k, f);
    let mut long = w.clone();
    for _ in 0..c.s.range(1, 9) {
        long.push(U::from_u64(c.s.u32() as u64));
    }
    if U::NAME == "ump" && f.size == 4 && long.len() > 4 && (long[4].to_u64() >> 28) == (w[0].to_u64() >> 28) {
        // a further packet of the same multi-packet type is part of what was received
        return Ok(());
    }
    let (a, b) = (lib!((f.parse)(&w)), lib!((f.parse)(&long)));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let (x, y) = (lib!((a.units().to_vec(), a.readings())), lib!((b.units().to_vec(), b.readings())));
            ensure!(x == y, format!("{name}: words after the message change it"), "{} alone {x:x?}, followed by more {} {y:x?}", hexu(&w), hexu(&long));
        }
        (a, b) => fail!(
            format!("{name}: received message refused"),
            "{} alone: {}, followed by more {}: {}",
            hexu(&w),
            a.is_ok(),
            hexu(&long),
            b.is_ok()
        ),
    }
    Ok(())
}
