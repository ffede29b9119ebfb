//! Independent reference codecs for multi-packet messages, written from the MIDI 2.0 packet layout
//! tables (not from the library): decode, encode and structural verdicts.

pub fn nib(w: u32, i: u32) -> u8 {
    ((w >> (28 - 4 * i)) & 0xF) as u8
}
pub fn oct(w: u32, i: u32) -> u8 {
    ((w >> (24 - 8 * i)) & 0xFF) as u8
}
pub fn set_nib(w: &mut u32, i: u32, v: u8) {
    let s = 28 - 4 * i;
    *w = (*w & !(0xF << s)) | (((v & 0xF) as u32) << s);
}
pub fn set_oct(w: &mut u32, i: u32, v: u8) {
    let s = 24 - 8 * i;
    *w = (*w & !(0xFF << s)) | ((v as u32) << s);
}
pub fn octet_at(words: &[u32], i: usize) -> u8 {
    oct(words[i / 4], (i % 4) as u32)
}
pub fn set_octet_at(words: &mut [u32], i: usize, v: u8) {
    set_oct(&mut words[i / 4], (i % 4) as u32, v)
}

/// Words per packet of a message type, by its first nibble.
pub fn packet_words(mt: u8) -> usize {
    match mt {
        0 | 1 | 2 | 6 | 7 => 1,
        3 | 4 | 8 | 9 | 0xA => 2,
        0xB | 0xC => 3,
        _ => 4,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sx {
    pub group: u8,
    pub stream: Option<u8>,
    pub payload: Vec<u8>,
    pub packets: usize,
    /// payload bytes per packet
    pub sizes: Vec<usize>,
}

/// The leading run of packets of type `mt`; Err if its last packet is cut short.
pub fn leading_run(words: &[u32], mt: u8, stride: usize) -> Result<usize, &'static str> {
    let mut n = 0;
    while n * stride < words.len() && nib(words[n * stride], 0) == mt {
        if words.len() < (n + 1) * stride {
            return Err("last packet cut short");
        }
        n += 1;
    }
    Ok(n)
}

fn check_order(marks: &[u8]) -> Result<(), &'static str> {
    match marks {
        [] => Err("no packet"),
        [0] => Ok(()),
        [_] => Err("single packet not complete"),
        [1, mid @ .., 3] if mid.iter().all(|m| *m == 2) => Ok(()),
        _ => Err("packets out of order"),
    }
}

pub fn parse_sysex7(words: &[u32]) -> Result<Sx, &'static str> {
    let n = leading_run(words, 3, 2)?;
    let marks: Vec<u8> = (0..n).map(|i| nib(words[2 * i], 2)).collect();
    check_order(&marks)?;
    let group = nib(words[0], 1);
    let mut payload = Vec::new();
    let mut sizes = Vec::new();
    for i in 0..n {
        let p = &words[2 * i..2 * i + 2];
        if nib(p[0], 1) != group {
            return Err("mixed groups");
        }
        let sz = nib(p[0], 3) as usize;
        if sz > 6 {
            return Err("packet size field");
        }
        for k in 0..sz {
            payload.push(octet_at(p, 2 + k) & 0x7F);
        }
        sizes.push(sz);
    }
    Ok(Sx { group, stream: None, payload, packets: n, sizes })
}

pub fn parse_sysex8(words: &[u32]) -> Result<Sx, &'static str> {
    let n = leading_run(words, 5, 4)?;
    let marks: Vec<u8> = (0..n).map(|i| nib(words[4 * i], 2)).collect();
    check_order(&marks)?;
    let group = nib(words[0], 1);
    let stream = oct(words[0], 2);
    let mut payload = Vec::new();
    let mut sizes = Vec::new();
    for i in 0..n {
        let p = &words[4 * i..4 * i + 4];
        if nib(p[0], 1) != group {
            return Err("mixed groups");
        }
        if oct(p[0], 2) != stream {
            return Err("mixed stream ids");
        }
        let sz = nib(p[0], 3) as usize;
        if !(1..=14).contains(&sz) {
            return Err("packet size field");
        }
        for k in 0..sz - 1 {
            payload.push(octet_at(p, 3 + k));
        }
        sizes.push(sz - 1);
    }
    Ok(Sx { group, stream: Some(stream), payload, packets: n, sizes })
}

/// Byte-stream system exclusive: F0, data bytes, F7. What follows the F7 does not matter.
pub fn parse_sysex7_bytes(bytes: &[u8]) -> Result<Sx, &'static str> {
    if bytes.first() != Some(&0xF0) {
        return Err("no start byte");
    }
    let end = bytes.iter().position(|b| *b == 0xF7).ok_or("no end byte")?;
    if bytes[1..end].iter().any(|b| *b > 0x7F) {
        return Err("status byte inside the data");
    }
    Ok(Sx { group: 0, stream: None, payload: bytes[1..end].to_vec(), packets: 1, sizes: vec![end - 1] })
}

pub fn split(len: usize, cap: usize) -> Vec<usize> {
    if len == 0 {
        return vec![0];
    }
    let mut v = vec![cap; len / cap];
    if len % cap != 0 {
        v.push(len % cap);
    }
    v
}

fn mark(i: usize, n: usize) -> u8 {
    if n == 1 {
        0
    } else if i == 0 {
        1
    } else if i == n - 1 {
        3
    } else {
        2
    }
}

/// Sender's encoder with an arbitrary packing.
pub fn build_sysex7(group: u8, payload: &[u8], sizes: &[usize]) -> Vec<u32> {
    let mut out = Vec::new();
    let mut pos = 0;
    for (i, sz) in sizes.iter().enumerate() {
        let mut p = [0u32; 2];
        set_nib(&mut p[0], 0, 3);
        set_nib(&mut p[0], 1, group);
        set_nib(&mut p[0], 2, mark(i, sizes.len()));
        set_nib(&mut p[0], 3, *sz as u8);
        for k in 0..*sz {
            set_octet_at(&mut p, 2 + k, payload[pos]);
            pos += 1;
        }
        out.extend_from_slice(&p);
    }
    assert_eq!(pos, payload.len());
    out
}

pub fn build_sysex8(group: u8, stream: u8, payload: &[u8], sizes: &[usize]) -> Vec<u32> {
    let mut out = Vec::new();
    let mut pos = 0;
    for (i, sz) in sizes.iter().enumerate() {
        let mut p = [0u32; 4];
        set_nib(&mut p[0], 0, 5);
        set_nib(&mut p[0], 1, group);
        set_nib(&mut p[0], 2, mark(i, sizes.len()));
        set_nib(&mut p[0], 3, *sz as u8 + 1);
        set_oct(&mut p[0], 2, stream);
        for k in 0..*sz {
            set_octet_at(&mut p, 3 + k, payload[pos]);
            pos += 1;
        }
        out.extend_from_slice(&p);
    }
    assert_eq!(pos, payload.len());
    out
}

/// the bytes of system exclusive packets which carry no payload
pub fn unused(words: &[u32], eight: bool) -> impl Iterator<Item = u8> + '_ {
    let (stride, first) = if eight { (4, 2) } else { (2, 2) };
    words.chunks_exact(stride).flat_map(move |p| (first + nib(p[0], 3) as usize..4 * stride).map(move |i| octet_at(p, i)))
}

pub fn build_sysex7_bytes(payload: &[u8]) -> Vec<u8> {
    let mut v = vec![0xF0];
    v.extend_from_slice(payload);
    v.push(0xF7);
    v
}

/// Units a system exclusive message of this payload needs.
pub fn sysex7_words(payload: usize) -> usize {
    2 * split(payload, 6).len()
}
pub fn sysex8_words(payload: usize) -> usize {
    4 * split(payload, 13).len()
}

// ------------------------------------------------------------------ text

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Txt {
    pub group: u8,
    /// None: not addressed to a channel
    pub channel: Option<u8>,
    pub function_block: u8,
    pub bytes: Vec<u8>,
    pub packets: usize,
}

pub fn parse_flex_text(words: &[u32], bank: u8, status: u8) -> Result<Txt, &'static str> {
    let n = leading_run(words, 0xD, 4)?;
    let marks: Vec<u8> = (0..n).map(|i| ((words[4 * i] >> 22) & 3) as u8).collect();
    check_order(&marks)?;
    let mut bytes = Vec::new();
    let key = |w: u32| (nib(w, 1), (w >> 20) & 3, nib(w, 3), oct(w, 2), oct(w, 3));
    let k0 = key(words[0]);
    if (k0.3, k0.4) != (bank, status) {
        return Err("bank or status");
    }
    for i in 0..n {
        let p = &words[4 * i..4 * i + 4];
        let k = key(p[0]);
        if k.0 != k0.0 {
            return Err("mixed groups");
        }
        if k.1 != k0.1 || k.2 != k0.2 {
            return Err("mixed address or channel");
        }
        if (k.3, k.4) != (bank, status) {
            return Err("mixed bank or status");
        }
        for j in 4..16 {
            let b = octet_at(p, j);
            if b != 0 {
                bytes.push(b);
            }
        }
    }
    if std::str::from_utf8(&bytes).is_err() {
        return Err("not text");
    }
    Ok(Txt {
        group: k0.0,
        channel: if k0.1 == 0 { Some(k0.2) } else { None },
        function_block: 0,
        bytes,
        packets: n,
    })
}

pub fn build_flex_text(group: u8, channel: Option<u8>, bank: u8, status: u8, text: &[u8]) -> Vec<u32> {
    let n = split(text.len(), 12).len();
    let mut out = vec![0u32; 4 * n];
    for i in 0..n {
        let p = &mut out[4 * i..4 * i + 4];
        set_nib(&mut p[0], 0, 0xD);
        set_nib(&mut p[0], 1, group);
        p[0] |= (mark(i, n) as u32) << 22;
        match channel {
            Some(c) => set_nib(&mut p[0], 3, c),
            None => p[0] |= 1 << 20,
        }
        set_oct(&mut p[0], 2, bank);
        set_oct(&mut p[0], 3, status);
        for (j, b) in text[12 * i..].iter().take(12).enumerate() {
            set_octet_at(p, 4 + j, *b);
        }
    }
    out
}

pub fn parse_stream_text(words: &[u32], status: u16, has_fb: bool) -> Result<Txt, &'static str> {
    let n = leading_run(words, 0xF, 4)?;
    let marks: Vec<u8> = (0..n).map(|i| ((words[4 * i] >> 26) & 3) as u8).collect();
    check_order(&marks)?;
    let fb = if has_fb { oct(words[0], 2) } else { 0 };
    let mut bytes = Vec::new();
    for i in 0..n {
        let p = &words[4 * i..4 * i + 4];
        if ((p[0] >> 16) & 0x3FF) as u16 != status {
            return Err("mixed status");
        }
        if has_fb && oct(p[0], 2) != fb {
            return Err("mixed function block");
        }
        for j in (if has_fb { 3 } else { 2 })..16 {
            let b = octet_at(p, j);
            if b != 0 {
                bytes.push(b);
            }
        }
    }
    if std::str::from_utf8(&bytes).is_err() {
        return Err("not text");
    }
    Ok(Txt { group: 0, channel: None, function_block: fb, bytes, packets: n })
}

pub fn build_stream_text(status: u16, fb: Option<u8>, text: &[u8]) -> Vec<u32> {
    let (first, cap) = if fb.is_some() { (3, 13) } else { (2, 14) };
    let n = split(text.len(), cap).len();
    let mut out = vec![0u32; 4 * n];
    for i in 0..n {
        let p = &mut out[4 * i..4 * i + 4];
        p[0] = 0xF000_0000 | (mark(i, n) as u32) << 26 | (status as u32) << 16;
        if let Some(fb) = fb {
            set_oct(&mut p[0], 2, fb);
        }
        for (j, b) in text[cap * i..].iter().take(cap).enumerate() {
            set_octet_at(p, first + j, *b);
        }
    }
    out
}

pub fn hex32(w: &[u32]) -> String {
    let mut s = String::from("[");
    for (i, x) in w.iter().enumerate().take(24) {
        if i > 0 {
            s.push(' ');
        }
        s += &format!("{x:08x}");
    }
    if w.len() > 24 {
        s += &format!(" ..+{}", w.len() - 24);
    }
    s + "]"
}
pub fn hex8(w: &[u8]) -> String {
    let mut s = String::from("[");
    for (i, x) in w.iter().enumerate().take(64) {
        if i > 0 {
            s.push(' ');
        }
        s += &format!("{x:02x}");
    }
    if w.len() > 64 {
        s += &format!(" ..+{}", w.len() - 64);
    }
    s + "]"
}
