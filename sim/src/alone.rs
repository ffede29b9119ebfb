//! What a build of the library makes of traffic, written out as text. Compiled into the simulator with
//! every message family, and into each of the builds that have one family only.
use midi2::buffer::Ump;
use midi2::error::BufferOverflow;
use midi2::prelude::*;
use std::fmt::Write;

type Packet = <PacketsIterator<'static> as Iterator>::Item;

fn held<B: Ump>(out: &mut String, m: &UmpMessage<B>) {
    let _ = write!(out, " {:08x?}", m.data());
    for p in m.packets() {
        let _ = write!(out, " {p:?}");
    }
}

/// A message; empty if refused.
pub fn words(w: &[u32]) -> String {
    let mut out = String::new();
    let Ok(m) = UmpMessage::try_from(w) else { return out };
    let _ = write!(out, "{m:?}");
    held(&mut out, &m);
    // moved to fixed storage of its own, where it fits
    let moved: Result<UmpMessage<[u32; 8]>, BufferOverflow> = m.try_rebuffer_into();
    match moved {
        Ok(m) => held(&mut out, &m),
        Err(_) => out += " no room",
    }
    out
}

/// A packet; empty if refused.
pub fn packet(w: &[u32]) -> String {
    match Packet::try_from(w) {
        Ok(p) => format!("{p:?} {:08x?}", &p[..]),
        Err(_) => String::new(),
    }
}

/// A message of the byte stream; empty if refused.
#[cfg(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common"))]
pub fn bytes(b: &[u8]) -> String {
    let mut out = String::new();
    let Ok(m) = BytesMessage::try_from(b) else { return out };
    let _ = write!(out, "{m:?} {:02x?}", m.data());
    let moved: Result<BytesMessage<[u8; 12]>, BufferOverflow> = m.try_rebuffer_into();
    match moved {
        Ok(m) => {
            let _ = write!(out, " {:02x?}", m.data());
        }
        Err(_) => out += " no room",
    }
    out
}
#[cfg(not(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common")))]
pub fn bytes(_: &[u8]) -> String {
    String::new()
}
