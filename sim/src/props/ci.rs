//! C15: capability inquiry discovery messages.
use crate::heap::{heap, Heap};
use crate::engine::{Ctx, R};
use crate::kinds::{Conv, Hop, Msg};
use crate::link::{self, Faults, Sender};
use crate::props::recv;
use crate::simbuf::{last_ctl, set_default, set_landing, SimBuf};
use crate::sx::{self, conv7};
use crate::wire::*;
use crate::{ensure, fail, lib, tr};
use midi2::buffer::{BufferMut, Bytes};
use midi2::ci::{Ci, DeviceId, DiscoveryQuery};
use midi2::error::{BufferOverflow, InvalidData};
use midi2::prelude::*;
use midi2::sysex7::Sysex7;
use midi2::Data;

/// Values of every field, in the order of the readings.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Model {
    source: u32,
    maker: [u8; 3],
    family: u16,
    model: u16,
    version: [u8; 4],
    /// bits 1..5 of the support octet
    support: u8,
    /// the rest of the support octet: kept from what was received
    spare: u8,
    max: u32,
    path: u8,
    /// payload behind the fields, in received messages
    more: Vec<u8>,
}

fn septets(v: u32, n: usize) -> impl Iterator<Item = u8> {
    (0..n).map(move |i| (v >> (7 * i) & 0x7F) as u8)
}

impl Model {
    fn draw(c: &mut Ctx) -> Model {
        let mut m = Model::default();
        for f in 0..FIELDS {
            let v = draw_value(c, f);
            m.set(f, v);
        }
        m
    }
    fn set(&mut self, f: usize, v: u64) {
        match f {
            0 => self.source = v as u32,
            1 => self.maker = [(v & 0x7F) as u8, (v >> 7 & 0x7F) as u8, (v >> 14 & 0x7F) as u8],
            2 => self.family = v as u16,
            3 => self.model = v as u16,
            4 => self.version = core::array::from_fn(|i| (v >> (7 * i) & 0x7F) as u8),
            5..=8 => {
                let b = 1 << (f - 4);
                self.support = self.support & !b | if v != 0 { b } else { 0 };
            }
            9 => self.max = v as u32,
            _ => self.path = v as u8,
        }
    }
    /// The message on the wire, from the MIDI-CI specification.
    fn bytes(&self, ver: u8) -> Vec<u8> {
        let mut b = vec![0xF0, 0x7E, 0x7F, 0x0D, 0x70, ver];
        b.extend(septets(self.source, 4));
        b.extend([0x7F; 4]);
        b.extend(self.maker);
        b.extend(septets(self.family as u32, 2));
        b.extend(septets(self.model as u32, 2));
        b.extend(self.version);
        b.push(self.support | self.spare);
        b.extend(septets(self.max, 4));
        if ver >= 2 {
            b.push(self.path);
        }
        b.extend(&self.more);
        b.push(0xF7);
        b
    }
    fn reads(&self, ver: u8) -> Vec<u64> {
        let bit = |n: u32| (self.support >> n & 1) as u64;
        let mut r = vec![0x7F, self.source as u64, 0x0FFF_FFFF];
        r.extend(self.maker.iter().map(|x| *x as u64));
        r.push(self.family as u64);
        r.push(self.model as u64);
        r.extend(self.version.iter().map(|x| *x as u64));
        r.extend([bit(1), bit(2), bit(3), bit(4), self.max as u64]);
        if ver >= 2 {
            r.push(self.path as u64);
        }
        r
    }
    /// What a well-formed message says.
    fn of(b: &[u8], ver: u8) -> Result<Model, &'static str> {
        let sx = parse_sysex7_bytes(b)?;
        let p = sx.payload;
        if p.len() + 2 < min(ver) {
            return Err("too short");
        }
        if p[0] != 0x7E || p[1] != 0x7F || p[2] != 0x0D || p[3] != 0x70 {
            return Err("not a discovery query");
        }
        if p[4] != ver {
            return Err("another version");
        }
        if p[9..13] != [0x7F; 4] {
            return Err("not a broadcast");
        }
        let num = |i: usize, n: usize| (0..n).map(|k| (p[i + k] as u32) << (7 * k)).sum::<u32>();
        let end = if ver >= 2 { 30 } else { 29 };
        Ok(Model {
            source: num(5, 4),
            maker: [p[13], p[14], p[15]],
            family: num(16, 2) as u16,
            model: num(18, 2) as u16,
            version: [p[20], p[21], p[22], p[23]],
            support: p[24] & 0x1E,
            spare: p[24] & 0x61,
            max: num(25, 4),
            path: if ver >= 2 { p[29] } else { 0 },
            more: p[end..].to_vec(),
        })
    }
}

fn min(ver: u8) -> usize {
    if ver >= 2 {
        32
    } else {
        31
    }
}

const FIELDS: usize = 11;
const NAMES: [&str; FIELDS] = [
    "source",
    "device_manufacturer",
    "device_family",
    "model_number",
    "software_version",
    "protocol_negotiation_supported",
    "profile_configuration_supported",
    "property_exchange_supported",
    "process_inquiry_supported",
    "max_sysex_size",
    "output_path_id",
];

fn draw_value(c: &mut Ctx, f: usize) -> u64 {
    let bits = match f {
        0 | 4 | 9 => 28,
        1 => 21,
        2 | 3 => 14,
        5..=8 => 1,
        _ => 7,
    };
    let top = (1u64 << bits) - 1;
    match c.s.draw(4) {
        0 => 0,
        1 => top,
        2 => 1 << c.s.draw(bits),
        _ => c.s.u32() as u64 & top,
    }
}

pub trait CiObj {
    fn set(&mut self, f: usize, v: u64);
    fn see(&self) -> Seen;
}
pub trait CiSee {
    fn see(&self) -> Seen;
}

/// Readings, data, payload, payload size.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Seen {
    reads: Vec<u64>,
    data: Vec<u8>,
    payload: Vec<u8>,
    size: usize,
}

fn u28(v: u64) -> ux::u28 {
    ux::u28::new(v as u32)
}
fn s7(v: u64, i: u32) -> ux::u7 {
    ux::u7::new((v >> (7 * i) & 0x7F) as u8)
}

macro_rules! ci_ver {
    ($m:ident, $V:literal, $path:tt) => {
        pub mod $m {
            use super::*;
            pub const VER: u8 = $V;
            type D<B> = DiscoveryQuery<$V, B>;
            macro_rules! path_of { (yes, $s:expr, $r:expr) => { $r.push(u8::from($s.output_path_id()) as u64) }; (no, $s:expr, $r:expr) => {} }
            macro_rules! set_path { (yes, $s:expr, $v:expr) => { $s.set_output_path_id(s7($v, 0)) }; (no, $s:expr, $v:expr) => { unreachable!("harness: field") } }
            fn look<B: Bytes>(m: &D<B>) -> Seen {
                let _g = crate::engine::LibGuard::enter();
                let dev = match m.device_id() {
                    DeviceId::Channel(c) => u8::from(c) as u64,
                    DeviceId::Group => 0x7E,
                    DeviceId::FunctionBlock => 0x7F,
                };
                let mut reads = vec![dev, u32::from(m.source()) as u64, u32::from(m.destination()) as u64];
                reads.extend(m.device_manufacturer().iter().map(|x| u8::from(*x) as u64));
                reads.push(u16::from(m.device_family()) as u64);
                reads.push(u16::from(m.model_number()) as u64);
                reads.extend(m.software_version().iter().map(|x| u8::from(*x) as u64));
                reads.push(m.protocol_negotiation_supported() as u64);
                reads.push(m.profile_configuration_supported() as u64);
                reads.push(m.property_exchange_supported() as u64);
                reads.push(m.process_inquiry_supported() as u64);
                reads.push(u32::from(m.max_sysex_size()) as u64);
                path_of!($path, m, reads);
                Seen {
                    reads,
                    data: m.data().to_vec(),
                    payload: m.payload().map(u8::from).collect(),
                    size: m.payload_size(),
                }
            }
            impl<B: Bytes + BufferMut> CiObj for D<B> {
                fn set(&mut self, f: usize, v: u64) {
                    let _g = crate::engine::LibGuard::enter();
                    match f {
                        0 => self.set_source(u28(v)),
                        1 => self.set_device_manufacturer([s7(v, 0), s7(v, 1), s7(v, 2)]),
                        2 => self.set_device_family(ux::u14::new(v as u16)),
                        3 => self.set_model_number(ux::u14::new(v as u16)),
                        4 => self.set_software_version([s7(v, 0), s7(v, 1), s7(v, 2), s7(v, 3)]),
                        5 => self.set_protocol_negotiation_supported(v != 0),
                        6 => self.set_profile_configuration_supported(v != 0),
                        7 => self.set_property_exchange_supported(v != 0),
                        8 => self.set_process_inquiry_supported(v != 0),
                        9 => self.set_max_sysex_size(u28(v)),
                        _ => set_path!($path, self, v),
                    }
                }
                fn see(&self) -> Seen {
                    look(self)
                }
            }
            pub fn parse(b: &[u8]) -> Result<Seen, InvalidData> {
                let m = lib!(D::try_from(b))?;
                Ok(look(&m))
            }
            fn touch<B: Bytes>(m: &D<B>) -> u64 {
                let mut s = matches!(m.device_id(), DeviceId::Channel(_)) as u64;
                s += u32::from(m.source()) as u64 + u32::from(m.destination()) as u64;
                s += u8::from(m.device_manufacturer()[0]) as u64 + u16::from(m.device_family()) as u64 + u16::from(m.model_number()) as u64;
                s += u8::from(m.software_version()[0]) as u64 + m.protocol_negotiation_supported() as u64;
                s += m.profile_configuration_supported() as u64 + m.property_exchange_supported() as u64;
                s += m.process_inquiry_supported() as u64 + u32::from(m.max_sysex_size()) as u64;
                s + m.payload().map(|x| u8::from(x) as u64).sum::<u64>() + m.payload_size() as u64 + m.data().len() as u64
            }
            fn quiet_edits<B: Bytes + BufferMut>(m: &mut D<B>, edits: &[(usize, u64)]) -> R {
                crate::quiet!("discovery query: reading", touch(m));
                for e in edits {
                    crate::quiet!(format_args!("discovery query: set {}", NAMES[e.0]), CiObj::set(m, e.0, e.1));
                }
                crate::quiet!("discovery query: reading", touch(m));
                Ok(())
            }
            /// Made, received, moved and edited without a heap.
            pub fn quiet(b: &[u8], mem: &mut [u8], edits: &[(usize, u64)]) -> R {
                if let Ok(mut m) = crate::quiet!("discovery query: new", D::<[u8; 32]>::try_new()) {
                    quiet_edits(&mut m, edits)?;
                }
                crate::quiet!("discovery query: new", D::<[u8; 30]>::try_new().is_ok());
                if let Ok(mut m) = crate::quiet!("discovery query: new", D::try_new_with_buffer(mem)) {
                    quiet_edits(&mut m, edits)?;
                }
                if let Ok(m) = crate::quiet!("discovery query: parser", D::try_from(b)) {
                    crate::quiet!("discovery query: reading", touch(&m));
                    if let Ok(mut a) = crate::quiet!("discovery query: move", TryRebufferInto::<D<[u8; 64]>>::try_rebuffer_into(m)) {
                        quiet_edits(&mut a, edits)?;
                    }
                }
                Ok(())
            }
            pub fn same(a: &[u8], b: &[u8]) -> Option<bool> {
                Some(lib!(D::try_from(a)).ok()? == lib!(D::try_from(b)).ok()?)
            }
            /// Received, then moved into storage of its own.
            pub fn with_received(c: &mut Ctx, b: &[u8], how: usize, cap: usize, run: Body) -> R<bool> {
                let Ok(m) = lib!(D::try_from(b)) else { return Ok(false) };
                match how {
                    0 => run(c, &mut lib!(RebufferInto::<D<Heap<u8>>>::rebuffer_into(m)))?,
                    1 => match lib!(TryRebufferInto::<D<[u8; 34]>>::try_rebuffer_into(m)) {
                        Ok(mut m) => run(c, &mut m)?,
                        Err(_) => return Ok(false),
                    },
                    2 => match lib!(TryRebufferInto::<D<[u8; 64]>>::try_rebuffer_into(m)) {
                        Ok(mut m) => run(c, &mut m)?,
                        Err(_) => return Ok(false),
                    },
                    3 => {
                        // through a vector
                        let m: D<Heap<u8>> = lib!(m.rebuffer_into());
                        match lib!(TryRebufferInto::<D<[u8; 33]>>::try_rebuffer_into(m)) {
                            Ok(mut m) => run(c, &mut m)?,
                            Err(_) => return Ok(false),
                        }
                    }
                    _ => {
                        set_landing(cap, how == 5, 2);
                        match lib!(TryRebufferInto::<D<SimBuf<u8>>>::try_rebuffer_into(m)) {
                            Ok(mut m) => run(c, &mut m)?,
                            Err(_) => return Ok(false),
                        }
                    }
                }
                Ok(true)
            }
            pub fn with_new(c: &mut Ctx, how: usize, cap: usize, dirty: u64, run: Body) -> R<bool> {
                let mut mem: Vec<u8>;
                let mut hp: Heap<u8>;
                let fill = |n: usize| SimBuf::<u8>::fixed(n, dirty).raw();
                macro_rules! may { ($e:expr) => { match lib!($e) { Ok(mut m) => { run(c, &mut m)?; true } Err(_) => false } } }
                Ok(match how {
                    0 => { run(c, &mut lib!(D::<Heap<u8>>::new()))?; true }
                    1 => may!(D::<[u8; 31]>::try_new()),
                    2 => may!(D::<[u8; 32]>::try_new()),
                    3 => may!(D::<[u8; 40]>::try_new()),
                    4 => { set_default(cap, true); may!(D::<SimBuf<u8>>::try_new()) }
                    5 => { set_default(cap, false); may!(D::<SimBuf<u8>>::try_new()) }
                    6 => { run(c, &mut lib!(D::<SimBuf<u8>>::new()))?; true }
                    7 => { run(c, &mut lib!(D::new_with_buffer(heap(fill(cap)))))?; true }
                    8 => { mem = fill(cap); may!(D::try_new_with_buffer(&mut mem[..])) }
                    9 => may!(D::try_new_with_buffer(SimBuf::<u8>::fixed(cap, dirty))),
                    10 => may!(D::try_new_with_buffer(SimBuf::<u8>::exact(cap, dirty))),
                    11 => { run(c, &mut lib!(D::new_with_buffer(SimBuf::<u8>::grain(cap, dirty))))?; true }
                    12 => { hp = heap(fill(cap)); run(c, &mut lib!(D::new_with_buffer(&mut hp)))?; true }
                    _ => {
                        let v = fill(48);
                        may!(D::try_new_with_buffer::<>(core::array::from_fn::<u8, 48, _>(|i| v[i])))
                    }
                })
            }
            /// Sent in packets: the system exclusive message it is, converted.
            pub fn send(b: &[u8], to: Conv) -> Result<Hop<u32>, InvalidData> {
                let m = lib!(D::try_from(b))?;
                let sx: Sysex7<&[u8]> = (*m).clone();
                Ok(match to {
                    Conv::Vec => {
                        let u: Sysex7<Heap<u32>> = lib!(sx.into_ump());
                        Hop::Ok(lib!(u.data().to_vec()), lib!(Msg::<u32>::readings(&u)))
                    }
                    Conv::TrySim(cap, fixed) => {
                        set_default(cap, fixed);
                        match lib!(TryIntoUmp::<Sysex7<SimBuf<u32>>>::try_into_ump(sx)) {
                            Ok(u) => Hop::Ok(lib!(u.data().to_vec()), lib!(Msg::<u32>::readings(&u))),
                            Err(_) => Hop::Overflow,
                        }
                    }
                    _ => match lib!(TryIntoUmp::<Sysex7<[u32; 24]>>::try_into_ump(sx)) {
                        Ok(u) => Hop::Ok(lib!(u.data().to_vec()), lib!(Msg::<u32>::readings(&u))),
                        Err(_) => Hop::Overflow,
                    },
                })
            }
        }
    };
}
pub type Body<'b> = &'b mut dyn FnMut(&mut Ctx, &mut dyn CiObj) -> R;
ci_ver!(v1, 1, no);
ci_ver!(v2, 2, yes);

fn parse(b: &[u8], ver: u8) -> Result<Seen, InvalidData> {
    if ver == 1 {
        v1::parse(b)
    } else {
        v2::parse(b)
    }
}

fn expect(s: &Seen, m: &Model, ver: u8, when: &str) -> R {
    let b = m.bytes(ver);
    ensure!(s.data == b, format!("discovery query v{ver}: wrong data {when}"), "{} instead of {}", hex8(&s.data), hex8(&b));
    let r = m.reads(ver);
    ensure!(s.reads == r, format!("discovery query v{ver}: wrong readings {when}"), "{:x?} instead of {r:x?} ({})", s.reads, hex8(&b));
    ensure!(
        s.payload == b[1..b.len() - 1] && s.size == s.payload.len(),
        format!("discovery query v{ver}: wrong payload {when}"),
        "{} (size {}) of {}",
        hex8(&s.payload),
        s.size,
        hex8(&b)
    );
    Ok(())
}

pub fn edits(c: &mut Ctx) -> R {
    let ver = c.s.range(1, 2) as u8;
    c.ev(ver as u64);
    let mut n = 0;
    let mut history = |c: &mut Ctx, o: &mut dyn CiObj, m: &mut Model| -> R {
        expect(&o.see(), m, ver, "when made")?;
        for _ in 0..c.s.range(1, 12) {
            let f = c.s.below(if ver >= 2 { FIELDS } else { FIELDS - 1 });
            let v = draw_value(c, f);
            tr!(c, "set {} to {v:#x}", NAMES[f]);
            c.ev(f as u64);
            c.ev(v);
            c.step();
            o.set(f, v);
            m.set(f, v);
            expect(&o.see(), m, ver, "after an edit")?;
            n += 1;
        }
        // it arrives as what it is
        match parse(&o.see().data, ver) {
            Ok(s) => expect(&s, m, ver, "parsed from its own data"),
            Err(e) => fail!(format!("discovery query v{ver}: own data rejected"), "{} {e:?}", hex8(&o.see().data)),
        }
    };
    if c.s.chance(1, 3) {
        let mut m = Model::draw(c);
        if ver == 1 {
            m.path = 0;
        }
        if c.s.chance(1, 3) {
            m.spare = c.s.u8() & 0x61;
        }
        if c.s.chance(1, 4) {
            m.more = (0..c.s.range(1, 5)).map(|_| c.s.u8() & 0x7F).collect();
            c.count("received message with more than the known fields");
        }
        let mut b = m.bytes(ver);
        let need = b.len();
        if c.s.chance(1, 3) {
            let k = c.s.range(1, 12);
            b.extend((0..k).map(|_| c.s.u8()));
            c.count("unused room behind the message in its buffer");
        }
        let how = c.s.below(6);
        let cap = (need + 3).saturating_sub(c.s.below(6));
        tr!(c, "received {} moved {how} (room {cap})", hex8(&b));
        c.ev_bytes(&b);
        c.ev(how as u64);
        let fits = match how {
            0 => true,
            1 => need <= 34,
            2 => true,
            3 => need <= 33,
            _ => need <= cap,
        };
        if parse(&b, ver).is_err() {
            fail!(format!("discovery query v{ver}: well-formed message rejected"), "{}", hex8(&b));
        }
        let mut run = |c: &mut Ctx, o: &mut dyn CiObj| history(c, o, &mut m);
        let done = if ver == 1 { v1::with_received(c, &b, how, cap, &mut run)? } else { v2::with_received(c, &b, how, cap, &mut run)? };
        c.count(if done { "received message edited" } else { "overflow reported" });
        ensure!(done == fits, format!("discovery query v{ver}: move {}", if done { "not refused without room" } else { "refused with room" }), "needs {need}, {how} room {cap}");
    } else {
        let mut m = Model::default();
        let how = c.s.below(14);
        let cap = if c.s.chance(1, 2) { min(ver) + 2 - c.s.below(5) } else { c.s.below(60) };
        let dirty = c.s.draw(1 << 16);
        tr!(c, "new {how} room {cap}");
        c.ev(how as u64 * 100 + cap as u64);
        let fits = match how {
            1 => 31 >= min(ver),
            4 | 5 | 8 | 9 | 10 => cap >= min(ver),
            _ => true,
        };
        let mut run = |c: &mut Ctx, o: &mut dyn CiObj| history(c, o, &mut m);
        let done = if ver == 1 { v1::with_new(c, how, cap, dirty, &mut run)? } else { v2::with_new(c, how, cap, dirty, &mut run)? };
        c.count(if done { "new message edited" } else { "overflow reported" });
        ensure!(
            done == fits,
            format!("discovery query v{ver}: {}", if done { "made without room" } else { "refused with room" }),
            "needs {}, {how} room {cap}",
            min(ver)
        );
    }
    c.nontrivial = n > 0;
    Ok(())
}

/// Everything a parser of either version does with these bytes.
fn arrival(c: &mut Ctx, b: &[u8], what: &str) -> R<bool> {
    let mut any = false;
    for ver in [1u8, 2] {
        let exp = Model::of(b, ver);
        match (parse(b, ver), &exp) {
            (Err(_), Err(_)) => {}
            (Ok(s), Ok(m)) => {
                expect(&s, m, ver, what)?;
                match parse(&s.data, ver) {
                    Ok(t) => ensure!(t == s, format!("discovery query v{ver}: reads differently from its own data"), "{}", hex8(b)),
                    Err(e) => fail!(format!("discovery query v{ver}: own data rejected"), "{} {e:?}", hex8(b)),
                }
                any = true;
                c.count("discovery query accepted");
            }
            (Ok(_), Err(e)) => fail!(format!("discovery query v{ver}: accepted though it is {e}"), "{}", hex8(b)),
            (Err(e), Ok(_)) => fail!(format!("discovery query v{ver}: well-formed message rejected"), "{} {e:?}", hex8(b)),
        }
    }
    if !any {
        c.count("discovery query rejected");
    }
    Ok(any)
}

pub fn damaged(c: &mut Ctx) -> R {
    let ver = c.s.range(1, 2) as u8;
    let m = Model::draw(c);
    let mut b = m.bytes(ver);
    for _ in 0..c.s.range(1, 4) {
        match c.s.draw(8) {
            0 if !b.is_empty() => {
                let i = c.s.below(b.len());
                b[i] = c.s.u8();
                c.count("fault: byte overwritten");
            }
            1 if !b.is_empty() => {
                let i = c.s.below(b.len());
                b[i] ^= 1 << c.s.draw(8);
                c.count("fault: bit flipped");
            }
            2 if !b.is_empty() => {
                let i = c.s.below(b.len());
                b.truncate(i);
                c.count("fault: message cut short");
            }
            3 if !b.is_empty() => {
                let i = c.s.below(b.len());
                b[i] = 0xF7;
                c.count("fault: end byte too early");
            }
            4 if !b.is_empty() => {
                let i = c.s.below(b.len());
                let k = c.s.range(1, 5).min(b.len() - i);
                b.drain(i..i + k);
                c.count("fault: bytes lost");
            }
            5 => {
                let i = c.s.below(b.len() + 1);
                let v = c.s.u8() & if c.s.chance(1, 4) { 0xFF } else { 0x7F };
                b.insert(i, v);
                c.count("fault: byte inserted");
            }
            6 => {
                let k = c.s.range(1, 40);
                b.extend((0..k).map(|_| c.s.u8()));
                c.count("fault: bytes added");
            }
            _ => {
                if let Some(x) = b.get_mut(5) {
                    *x = c.s.draw(4) as u8;
                    c.count("fault: version overwritten");
                }
            }
        }
    }
    c.ev_bytes(&b);
    tr!(c, "handed over {}", hex8(&b));
    c.nontrivial = !b.is_empty();
    arrival(c, &b, "received")?;
    // equality
    if c.s.chance(1, 4) {
        let d = m.bytes(ver);
        let same = if ver == 1 { v1::same(&d, &b) } else { v2::same(&d, &b) };
        if let Some(s) = same {
            ensure!(s == (d == b), format!("discovery query v{ver}: equality"), "{} and {}: {s}", hex8(&d), hex8(&b));
        }
    }
    Ok(())
}

/// Sent over the link as system exclusive in packets, collected, turned back into bytes and read.
pub fn transport(c: &mut Ctx) -> R {
    let ver = c.s.range(1, 2) as u8;
    let m = Model::draw(c);
    let b = m.bytes(ver);
    c.ev_bytes(&b);
    let to = match c.s.draw(3) {
        0 => Conv::Vec,
        1 => Conv::TrySim(12 + c.s.below(3), c.s.chance(1, 2)),
        _ => Conv::TryArr,
    };
    let sent = match if ver == 1 { v1::send(&b, to) } else { v2::send(&b, to) } {
        Ok(Hop::Ok(w, _)) => w,
        Ok(_) => fail!(format!("discovery query v{ver}: conversion to packets refused with room"), "{to:?} {}", hex8(&b)),
        Err(e) => fail!(format!("discovery query v{ver}: well-formed message rejected"), "{} {e:?}", hex8(&b)),
    };
    let faults = if c.s.chance(1, 2) { Faults::none() } else { Faults::draw(c) };
    let group = c.s.draw(16) as u32;
    let mut packets: Vec<Vec<u32>> = match lib!(Sysex7::try_from(&sent[..])) {
        Ok(s) => lib!(s.packets().map(|p| p[..].to_vec()).collect()),
        Err(e) => fail!("discovery query: its packets are no system exclusive message", "{} {e:?}", hex32(&sent)),
    };
    for p in &mut packets {
        p[0] = p[0] & !0x0F00_0000 | group << 24;
    }
    let other: Vec<Vec<u32>> = (0..c.s.below(6)).map(|i| vec![0x1000_0000 | (group ^ 1) << 24 | 0xF8_0000 | i as u32]).collect();
    let mut senders = [Sender::draw(c, packets), Sender::draw(c, other)];
    let mut got: Vec<u32> = vec![];
    link::run(c, &mut senders, &faults, &mut |_, _, p: Vec<u32>| -> R {
        if p.first().map_or(false, |x| x >> 28 == 3) {
            got.extend(p);
        }
        Ok(())
    })?;
    c.nontrivial = true;
    let back = match conv7::to_bytes(&got, if c.s.chance(1, 2) { Conv::Vec } else { Conv::TrySim(80, true) }) {
        Ok(Hop::Ok(b, _)) => b,
        Ok(_) => return Ok(()),
        Err(_) => {
            ensure!(got != sent_in(&sent, group), format!("discovery query v{ver}: not delivered"), "{} arrived and was rejected", hex32(&got));
            c.count("damaged on the way and rejected");
            return Ok(());
        }
    };
    if got == sent_in(&sent, group) {
        ensure!(back == b, format!("discovery query v{ver}: not delivered"), "sent {} arrived {}", hex8(&b), hex8(&back));
        c.count("message arrived");
    }
    arrival(c, &back, "after transport")?;
    Ok(())
}

fn sent_in(w: &[u32], group: u32) -> Vec<u32> {
    w.chunks(2).flat_map(|p| [p[0] & !0x0F00_0000 | group << 24, p[1]]).collect()
}

// ------------------------------------------------------------------ C18

pub fn quiet(c: &mut Ctx) -> R {
    let ver = 1 + c.s.draw(2) as u8;
    let mut m = Model::draw(c);
    if c.s.chance(1, 3) {
        let n = c.s.range(1, 8);
        m.more = (0..n).map(|_| c.s.u7()).collect();
    }
    let mut b = m.bytes(ver);
    if c.s.chance(1, 4) {
        c.count("fault: byte changed");
        let i = c.s.below(b.len());
        b[i] ^= 1 << c.s.draw(8);
    }
    let n = c.s.range(26, 48);
    let mut mem = SimBuf::<u8>::fixed(n, 1 + c.s.draw(1 << 16)).raw();
    let mut edits = vec![];
    for _ in 0..c.s.range(0, 5) {
        let f = c.s.below(if ver == 1 { FIELDS - 1 } else { FIELDS });
        edits.push((f, draw_value(c, f)));
    }
    if edits.len() > 1 {
        c.nontrivial = true;
    }
    c.step();
    c.ev_bytes(&b);
    tr!(c, "discovery query version {ver} {} edits {edits:?} in {n} bytes", hex8(&b));
    if ver == 1 {
        v1::quiet(&b, &mut mem, &edits)
    } else {
        v2::quiet(&b, &mut mem, &edits)
    }
}
