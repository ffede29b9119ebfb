//! Field values as canonical wire bits, so that one model covers every field of every message.
use crate::engine::Ctx;
use midi2::channel_voice2::{Controller, NoteAttribute};
use midi2::flex_data::{
    Alteration, ChordType, SetChordNameSharpsFlats, SetKeySignatureSharpsFlats, Tonic,
};
use midi2::num::{Fixed7_25, Fixed7_9};
use midi2::ump_stream::{Direction, Midi1Port, UiHint};
use midi2::ux::*;

pub trait W: Sized {
    /// number of different API values that stand for the same wire bits
    const SYN: u64 = 1;
    /// canonical wire bits of an API value
    fn w(self) -> u64;
    /// API value for canonical wire bits; `syn` picks among synonyms
    fn r(bits: u64, syn: u64) -> Self;
    /// wire bits a sender may set through the API
    fn draw(c: &mut Ctx, width: u32) -> u64 {
        any_bits(c, width)
    }
    /// wire bits a received message may carry
    fn draw_recv(c: &mut Ctx, width: u32) -> u64 {
        Self::draw(c, width)
    }
    /// reading of raw wire bits
    fn canon(bits: u64) -> u64 {
        bits
    }
}

pub fn any_bits(c: &mut Ctx, width: u32) -> u64 {
    let m = if width >= 64 { u64::MAX } else { (1u64 << width) - 1 };
    match c.s.draw(4) {
        0 => c.s.draw(4) & m,
        1 => m - (c.s.draw(4) & m),
        2 => (1u64 << c.s.draw(width as u64)) & m,
        _ => c.s.draw(1u64 << width.min(40)) & m,
    }
}

macro_rules! w_ux {
    ($($t:ident $p:ident),*) => {$(
        impl W for $t {
            fn w(self) -> u64 { u64::from($p::from(self)) }
            fn r(b: u64, _: u64) -> Self { $t::new(b as $p) }
        }
    )*};
}
w_ux!(u4 u8, u7 u8, u14 u16, u20 u32, u28 u32);
macro_rules! w_prim {
    ($($t:ident),*) => {$(
        impl W for $t {
            fn w(self) -> u64 { self as u64 }
            fn r(b: u64, _: u64) -> Self { b as $t }
        }
    )*};
}
w_prim!(u8, u16, u32);
impl W for bool {
    fn w(self) -> u64 {
        self as u64
    }
    fn r(b: u64, _: u64) -> Self {
        b != 0
    }
}
impl<const N: usize> W for [u7; N] {
    fn w(self) -> u64 {
        self.iter().fold(0, |a, x| a << 7 | u64::from(u8::from(*x)))
    }
    fn r(b: u64, _: u64) -> Self {
        core::array::from_fn(|i| u7::new(((b >> (7 * (N - 1 - i))) & 0x7F) as u8))
    }
}
/// Address crumb and channel nibble of a flex data message.
impl W for Option<u4> {
    fn w(self) -> u64 {
        match self {
            Some(c) => u64::from(u8::from(c)),
            None => 0x10,
        }
    }
    fn r(b: u64, _: u64) -> Self {
        if b >> 4 == 0 {
            Some(u4::new(b as u8 & 0xF))
        } else {
            None
        }
    }
    fn draw(c: &mut Ctx, _: u32) -> u64 {
        if c.s.chance(1, 3) {
            0x10
        } else {
            c.s.draw(16)
        }
    }
    fn draw_recv(c: &mut Ctx, _: u32) -> u64 {
        c.s.draw(64)
    }
    fn canon(b: u64) -> u64 {
        if b >> 4 == 0 {
            b
        } else {
            0x10
        }
    }
}
/// Bank-valid flag and the two bank septets of a program change.
impl W for Option<u14> {
    fn w(self) -> u64 {
        match self {
            Some(b) => 1 << 14 | u64::from(u16::from(b)),
            None => 0,
        }
    }
    fn r(b: u64, _: u64) -> Self {
        if b >> 14 != 0 {
            Some(u14::new(b as u16 & 0x3FFF))
        } else {
            None
        }
    }
    fn draw(c: &mut Ctx, _: u32) -> u64 {
        if c.s.chance(1, 3) {
            0
        } else {
            1 << 14 | any_bits(c, 14)
        }
    }
    fn draw_recv(c: &mut Ctx, _: u32) -> u64 {
        any_bits(c, 15)
    }
    fn canon(b: u64) -> u64 {
        if b >> 14 == 0 {
            0
        } else {
            b
        }
    }
}
impl W for Option<NoteAttribute> {
    fn w(self) -> u64 {
        match self {
            None => 0,
            Some(NoteAttribute::ManufacturerSpecific(d)) => 1 << 16 | d as u64,
            Some(NoteAttribute::ProfileSpecific(d)) => 2 << 16 | d as u64,
            Some(NoteAttribute::Pitch7_9(d)) => 3 << 16 | d.to_bits() as u64,
            Some(_) => 0xFF_0000,
        }
    }
    fn r(b: u64, _: u64) -> Self {
        match b >> 16 {
            0 => None,
            1 => Some(NoteAttribute::ManufacturerSpecific(b as u16)),
            2 => Some(NoteAttribute::ProfileSpecific(b as u16)),
            _ => Some(NoteAttribute::Pitch7_9(Fixed7_9::from_bits(b as u16))),
        }
    }
    fn draw(c: &mut Ctx, _: u32) -> u64 {
        match c.s.draw(4) {
            0 => 0,
            t => t << 16 | any_bits(c, 16),
        }
    }
    fn draw_recv(c: &mut Ctx, _: u32) -> u64 {
        c.s.draw(4) << 16 | any_bits(c, 16)
    }
    fn canon(b: u64) -> u64 {
        if b >> 16 == 0 {
            0
        } else {
            b
        }
    }
}
pub const CONTROLLERS: [u64; 22] =
    [1, 2, 3, 7, 8, 10, 11, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 91, 92, 93, 94, 95];
impl W for Controller {
    const SYN: u64 = 2;
    fn w(self) -> u64 {
        use Controller::*;
        let (i, d) = match self {
            Modulation(d) => (1, d),
            Breath(d) => (2, d),
            Pitch7_25(d) => (3, d.to_bits()),
            Volume(d) => (7, d),
            Balance(d) => (8, d),
            Pan(d) => (10, d),
            Expression(d) => (11, d),
            SoundVariation(d) => (70, d),
            Timbre(d) => (71, d),
            ReleaseTime(d) => (72, d),
            AttackTime(d) => (73, d),
            Brightness(d) => (74, d),
            DecayTime(d) => (75, d),
            VebratoRate(d) => (76, d),
            VebratoDepth(d) => (77, d),
            VebratoDelay(d) => (78, d),
            Undefined(d) => (79, d),
            ReverbSendLevel(d) => (91, d),
            ChorusSendLevel(d) => (93, d),
            SoundController { index, data } => (69 + index as u64, data),
            EffectDepth { index, data } => (90 + index as u64, data),
            _ => (0xFF, 0),
        };
        i << 32 | d as u64
    }
    fn r(b: u64, syn: u64) -> Self {
        use Controller::*;
        let d = b as u32;
        match (b >> 32, syn) {
            (1, _) => Modulation(d),
            (2, _) => Breath(d),
            (3, _) => Pitch7_25(Fixed7_25::from_bits(d)),
            (7, _) => Volume(d),
            (8, _) => Balance(d),
            (10, _) => Pan(d),
            (11, _) => Expression(d),
            (70, 1) => SoundVariation(d),
            (71, 1) => Timbre(d),
            (72, 1) => ReleaseTime(d),
            (73, 1) => AttackTime(d),
            (74, 1) => Brightness(d),
            (75, 1) => DecayTime(d),
            (76, 1) => VebratoRate(d),
            (77, 1) => VebratoDepth(d),
            (78, 1) => VebratoDelay(d),
            (79, 1) => Undefined(d),
            (91, 1) => ReverbSendLevel(d),
            (93, 1) => ChorusSendLevel(d),
            (i @ 70..=79, _) => SoundController { index: (i - 69) as u8, data: d },
            (i, _) => EffectDepth { index: (i - 90) as u8, data: d },
        }
    }
    fn draw(c: &mut Ctx, _: u32) -> u64 {
        let i = *c.s.pick(&CONTROLLERS);
        i << 32 | any_bits(c, 32)
    }
}
impl W for SetKeySignatureSharpsFlats {
    const SYN: u64 = 2;
    fn w(self) -> u64 {
        use SetKeySignatureSharpsFlats::*;
        match self {
            Sharps(n) => u64::from(u8::from(n)),
            Flats(n) => (16 - u64::from(u8::from(n))) & 0xF,
            NonStandard => 8,
        }
    }
    fn r(b: u64, syn: u64) -> Self {
        use SetKeySignatureSharpsFlats::*;
        match b {
            0 if syn == 1 => Flats(u3::new(0)),
            0..=7 => Sharps(u3::new(b as u8)),
            8 => NonStandard,
            _ => Flats(u3::new((16 - b) as u8)),
        }
    }
}
macro_rules! w_enum {
    ($t:ty, $($v:expr => $p:pat => $e:expr),* $(,)?) => {
        impl W for $t {
            fn w(self) -> u64 { match self { $($p => $v,)* #[allow(unreachable_patterns)] _ => 0xFF } }
            fn r(b: u64, _: u64) -> Self { match b { $(x if x == $v => $e,)* _ => unreachable!() } }
            fn draw(c: &mut Ctx, _: u32) -> u64 { *c.s.pick(&[$($v),*]) }
        }
    };
}
w_enum!(SetChordNameSharpsFlats,
    0 => SetChordNameSharpsFlats::Natural => SetChordNameSharpsFlats::Natural,
    1 => SetChordNameSharpsFlats::Sharp => SetChordNameSharpsFlats::Sharp,
    2 => SetChordNameSharpsFlats::DoubleSharp => SetChordNameSharpsFlats::DoubleSharp,
    0xF => SetChordNameSharpsFlats::Flat => SetChordNameSharpsFlats::Flat,
    0xE => SetChordNameSharpsFlats::DoubleFlat => SetChordNameSharpsFlats::DoubleFlat);
w_enum!(Tonic,
    0 => Tonic::NonStandard => Tonic::NonStandard, 1 => Tonic::A => Tonic::A, 2 => Tonic::B => Tonic::B,
    3 => Tonic::C => Tonic::C, 4 => Tonic::D => Tonic::D, 5 => Tonic::E => Tonic::E,
    6 => Tonic::F => Tonic::F, 7 => Tonic::G => Tonic::G);
macro_rules! w_seq { ($t:ident: $($i:expr, $v:ident);*) => { w_enum!($t, $($i => $t::$v => $t::$v),*); } }
w_seq!(ChordType: 0, ClearChord; 1, Major; 2, Major6th; 3, Major7th; 4, Major9th; 5, Major11th; 6, Major13th;
    7, Minor; 8, Minor6th; 9, Minor7th; 10, Minor9th; 11, Minor11th; 12, Minor13th; 13, Dominant; 14, Dominant9th;
    15, Dominant11th; 16, Dominant13th; 17, Augmented; 18, Augmented7th; 19, Diminished; 20, Diminished7th;
    21, HalfDiminished; 22, MajorMinor; 23, Pedal; 24, Power; 25, Suspended2nd; 26, Suspended4th);
w_seq!(UiHint: 0, Undeclared; 1, Receiver; 2, Sender; 3, SenderReciever);
w_seq!(Direction: 1, Input; 2, Output; 3, Bidirectional);
w_enum!(Option<Midi1Port>, 0 => None => None,
    1 => Some(Midi1Port::DontRestrictBandwidth) => Some(Midi1Port::DontRestrictBandwidth),
    2 => Some(Midi1Port::RestrictBandwidth) => Some(Midi1Port::RestrictBandwidth));
impl W for Option<Alteration> {
    fn w(self) -> u64 {
        let (t, d) = match self {
            None => return 0,
            Some(Alteration::Add(d)) => (1, d),
            Some(Alteration::Subtract(d)) => (2, d),
            Some(Alteration::Raise(d)) => (3, d),
            Some(Alteration::Lower(d)) => (4, d),
        };
        t << 4 | u64::from(u8::from(d))
    }
    fn r(b: u64, _: u64) -> Self {
        let d = u4::new(b as u8 & 0xF);
        match b >> 4 {
            0 => None,
            1 => Some(Alteration::Add(d)),
            2 => Some(Alteration::Subtract(d)),
            3 => Some(Alteration::Raise(d)),
            _ => Some(Alteration::Lower(d)),
        }
    }
    fn draw(c: &mut Ctx, _: u32) -> u64 {
        match c.s.draw(5) {
            0 => 0,
            t => t << 4 | c.s.draw(16),
        }
    }
    fn draw_recv(c: &mut Ctx, _: u32) -> u64 {
        c.s.draw(5) << 4 | c.s.draw(16)
    }
    fn canon(b: u64) -> u64 {
        if b >> 4 == 0 {
            0
        } else {
            b
        }
    }
}
