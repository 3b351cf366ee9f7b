//! Independent encoders of the wire format, and generators of well-formed and hostile data.
use crate::core::{mask, Rng};
use crate::kind::*;

pub fn sx7_ump(group: u64, chunks: &[&[u8]]) -> Vec<u32> {
    let mut v = vec![];
    let n = chunks.len();
    for (i, c) in chunks.iter().enumerate() {
        let st: u32 = if n == 1 { 0 } else if i == 0 { 1 } else if i == n - 1 { 3 } else { 2 };
        let mut p = [0u8; 6];
        p[..c.len()].copy_from_slice(c);
        v.push(0x3000_0000 | (group as u32) << 24 | st << 20 | (c.len() as u32) << 16 | (p[0] as u32) << 8 | p[1] as u32);
        v.push(u32::from_be_bytes([p[2], p[3], p[4], p[5]]));
    }
    v
}
pub fn sx8_ump(group: u64, id: u64, chunks: &[&[u8]]) -> Vec<u32> {
    let mut v = vec![];
    let n = chunks.len();
    for (i, c) in chunks.iter().enumerate() {
        let st: u32 = if n == 1 { 0 } else if i == 0 { 1 } else if i == n - 1 { 3 } else { 2 };
        let mut p = [0u8; 13];
        p[..c.len()].copy_from_slice(c);
        v.push(0x5000_0000 | (group as u32) << 24 | st << 20 | (c.len() as u32 + 1) << 16 | (id as u32) << 8 | p[0] as u32);
        for k in 0..3 {
            v.push(u32::from_be_bytes([p[1 + 4 * k], p[2 + 4 * k], p[3 + 4 * k], p[4 + 4 * k]]));
        }
    }
    v
}
pub fn canon_chunks(p: &[u8], per: usize) -> Vec<&[u8]> {
    if p.is_empty() {
        vec![&[]]
    } else {
        p.chunks(per).collect()
    }
}
/// Canonical encoding of a system exclusive message of the kind.
pub fn sx_canon<U: Un>(spec: &Spec, fields: &[u64], p: &[u8]) -> Vec<U> {
    match spec.sx {
        Sx::S7Ump => conv(&sx7_ump(fields[0], &canon_chunks(p, 6))),
        Sx::S8 => conv(&sx8_ump(fields[0], fields[1], &canon_chunks(p, 13))),
        Sx::S7Bytes => {
            let mut v = vec![U::from64(0xF0)];
            v.extend(p.iter().map(|b| U::from64(*b as u64)));
            v.push(U::from64(0xF7));
            v
        }
        Sx::No => unreachable!(),
    }
}
pub fn conv<U: Un>(v: &[u32]) -> Vec<U> {
    v.iter().map(|x| U::from64(*x as u64)).collect()
}
/// Canonical encoding of a text message; `fields` are raw values in the spec's order.
pub fn text_canon(spec: &Spec, fields: &[u64], t: &[u8]) -> Vec<u32> {
    let per = spec.text.as_ref().unwrap().per;
    let chunks = canon_chunks(t, per);
    text_chunks(spec, fields, &chunks)
}
pub fn text_chunks(spec: &Spec, fields: &[u64], chunks: &[&[u8]]) -> Vec<u32> {
    let per = spec.text.as_ref().unwrap().per;
    let n = chunks.len();
    let mut v = vec![];
    for (i, c) in chunks.iter().enumerate() {
        let st: u32 = if n == 1 { 0 } else if i == 0 { 1 } else if i == n - 1 { 3 } else { 2 };
        let mut d = [0u32; 4];
        spec.put_hdr(&mut d);
        for (f, x) in spec.fields.iter().zip(fields) {
            f.put(&mut d, *x);
        }
        let sh = if spec.family == "FlexData" { 22 } else { 26 };
        d[0] = (d[0] & !(3 << sh)) | st << sh;
        for (k, b) in c.iter().enumerate() {
            let pos = 16 - per + k;
            d[pos / 4] |= (*b as u32) << (24 - 8 * (pos % 4));
        }
        v.extend(d);
    }
    v
}
/// Canonical encoding for a multi-packet kind of either sort.
pub fn multi_canon<U: Un>(spec: &Spec, fields: &[u64], content: &[u8]) -> Vec<U> {
    if spec.text.is_some() {
        conv(&text_canon(spec, fields, content))
    } else {
        sx_canon(spec, fields, content)
    }
}

/// Set when the cases are compared with an interpreter's: no very long messages.
pub static SMALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Content bound for one case: `max`, and now and then enough for several hundred packets.
pub fn reach(r: &mut Rng, max: usize) -> usize {
    if r.chance(1, 250) && !cfg!(miri) && !SMALL.load(std::sync::atomic::Ordering::Relaxed) {
        4200
    } else {
        max
    }
}
/// Lengths beyond `n` worth visiting: around counter widths, in packets of `per` and in units.
fn far_lengths(per: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in [255, 256, 257, 1023, 1024, 4096] {
        v.extend([k * per - 1, k * per, k * per + 1]);
    }
    for k in [4096, 8192, 32768, 65536] {
        v.extend([k - 1, k, k + 1]);
    }
    v
}
/// The `i`th length to visit: 0, 1, 2 and so on, with the far lengths after the first 100.
pub fn nth_length(i: usize, per: usize) -> usize {
    let far = far_lengths(per);
    match i {
        _ if i < 100 => i,
        _ if i - 100 < far.len() => far[i - 100],
        _ => i - far.len(),
    }
}
/// A length near interesting boundaries of `per`.
pub fn rand_len(r: &mut Rng, per: usize, max: usize) -> usize {
    let n = match r.below(8) {
        0 => r.below(3),
        1..=4 => {
            let k = r.below(max / per + 1) * per;
            (k + r.below(3)).saturating_sub(1)
        }
        _ => r.below(max + 1),
    };
    n.min(max)
}
/// Text without NUL of about `n` bytes.
pub fn rand_text(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    let style = r.below(4);
    while s.len() < n {
        let left = n - s.len();
        let w = match style {
            0 => 1,
            1 => 1 + r.below(4),
            2 => 3,
            _ => 1 + r.below(2),
        }
        .min(left);
        // characters at the edges of the encoding, and the ones a text routine may treat specially
        const SPECIAL: [char; 20] = [
            '\u{1}', '\t', '\n', '\r', ' ', '\u{7f}', '\u{80}', '\u{a0}', '\u{ff}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{feff}',
            '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{301}',
        ];
        if r.chance(1, 24) {
            let c = *r.pick(&SPECIAL);
            if c.len_utf8() <= left {
                s.push(c);
                continue;
            }
        }
        let c = match w {
            1 => char::from_u32(1 + r.below(0x7F) as u32),
            2 => char::from_u32(0x80 + r.below(0x780) as u32),
            3 => {
                let x = 0x800 + r.below(0xF800) as u32;
                char::from_u32(x).or(char::from_u32(0x20AC))
            }
            _ => char::from_u32(0x1_0000 + r.below(0x10_0000) as u32),
        };
        s.push(c.unwrap_or('x'));
    }
    s
}
pub fn rand_payload(r: &mut Rng, n: usize, seven: bool) -> Vec<u8> {
    let m = if seven { 0x7F } else { 0xFF };
    match r.below(6) {
        0 => (0..n).map(|i| (i + 1) as u8 & m).collect(),
        1 => vec![m; n],
        2 => vec![0; n],
        _ => (0..n).map(|_| r.u8() & m).collect(),
    }
}
pub struct Wf<U> {
    pub data: Vec<U>,
    /// payload or text bytes
    pub content: Vec<u8>,
    /// raw field values
    pub fields: Vec<u64>,
}
fn uneven<'a>(r: &mut Rng, p: &'a [u8], per: usize) -> Vec<&'a [u8]> {
    // empty packets anywhere, short packets anywhere
    let mut v: Vec<&[u8]> = vec![];
    let mut i = 0;
    while i < p.len() {
        if r.chance(1, 8) {
            v.push(&p[i..i]);
        }
        let k = if r.chance(1, 3) { per } else { 1 + r.below(per) }.min(p.len() - i);
        v.push(&p[i..i + k]);
        i += k;
    }
    if v.is_empty() || r.chance(1, 5) {
        v.push(&[]);
    }
    if v.len() > 1 && r.chance(1, 6) {
        v.insert(0, &[]);
    }
    v
}
/// A random well-formed message of the kind (one complete message, nothing after it).
pub fn wf<U: Un>(spec: &Spec, r: &mut Rng, max: usize, compact: bool) -> Wf<U> {
    if !spec.is_multi() {
        let data = spec.rand_fixed::<U>(r);
        let fields = spec.fields.iter().map(|f| f.raw(&data)).collect();
        return Wf { data, content: vec![], fields };
    }
    let mut fields: Vec<u64> = spec.fields.iter().map(|f| f.rand_raw(r)).collect();
    for (f, x) in spec.fields.iter().zip(&mut fields) {
        // channel bits are reserved when the message addresses the group
        *x = f.canon(*x);
    }
    if let Some(t) = &spec.text {
        let n = rand_len(r, t.per, max);
        let content = rand_text(r, n).into_bytes();
        let data = conv(&text_canon(spec, &fields, &content));
        return Wf { data, content, fields };
    }
    let per = match spec.sx {
        Sx::S7Ump => 6,
        Sx::S8 => 13,
        _ => 4,
    };
    let n = rand_len(r, per, max);
    let content = rand_payload(r, n, spec.sx != Sx::S8);
    let data = match spec.sx {
        _ if compact || spec.sx == Sx::S7Bytes => sx_canon(spec, &fields, &content),
        Sx::S7Ump => conv(&sx7_ump(fields[0], &uneven(r, &content, 6))),
        _ => conv(&sx8_ump(fields[0], fields[1], &uneven(r, &content, 13))),
    };
    Wf { data, content, fields }
}
/// A slice a peer could send: noise, noise with plausible headers, damaged messages,
/// sequences of packets of one type with arbitrary statuses and sizes.
pub fn hostile<U: Un>(spec: &Spec, r: &mut Rng) -> Vec<U> {
    let noise = |r: &mut Rng| -> U {
        if U::BITS == 8 {
            U::from64(match r.below(6) {
                0 => 0xF7,
                1 => r.u8() as u64,
                2 => 0x80 | r.u8() as u64,
                _ => r.u8() as u64 & 0x7F,
            })
        } else {
            U::from64(r.word() as u64)
        }
    };
    match r.below(10) {
        0 => {
            let n = r.below(3 * spec.pkt + 3);
            (0..n).map(|_| noise(r)).collect()
        }
        1 | 2 => {
            // right header, noise elsewhere, any length
            let n = r.below(3 * spec.pkt + 3);
            let mut d: Vec<U> = (0..n.max(1)).map(|_| noise(r)).collect();
            if d.len() >= spec.min {
                spec.put_hdr(&mut d);
            } else {
                let mut h: Vec<U> = vec![U::from64(0); spec.min];
                spec.put_hdr(&mut h);
                let k = d.len();
                d[0] = h[0];
                if r.chance(1, 4) {
                    d = h[..k].to_vec();
                }
            }
            d.truncate(n);
            d
        }
        3 | 4 if spec.is_multi() && U::BITS == 32 => {
            // a run of packets of this type with arbitrary statuses, sizes, ids
            let k = 1 + r.below(5);
            let mut v: Vec<U> = vec![];
            let base = r.word() as u64;
            for i in 0..k {
                let mut d: Vec<U> = (0..spec.pkt).map(|_| noise(r)).collect();
                let mut w0: u64 = d[0].into();
                if r.chance(7, 8) {
                    w0 = (base & !0x00FF_0000) | (w0 & 0x00FF_0000);
                }
                d[0] = U::from64(w0);
                spec.put_hdr(&mut d);
                let st = match r.below(6) {
                    0 => r.below(16) as u64,
                    _ => {
                        if k == 1 {
                            0
                        } else if i == 0 {
                            1
                        } else if i == k - 1 {
                            3
                        } else {
                            2
                        }
                    }
                };
                let mut w0: u64 = d[0].into();
                let (sh, w) = match (spec.sx, spec.family) {
                    (Sx::S7Ump, _) | (Sx::S8, _) => (20, 4),
                    (_, "FlexData") => (22, 2),
                    _ => (26, 2),
                };
                w0 = (w0 & !(mask(w) << sh)) | (st & mask(w)) << sh;
                d[0] = U::from64(w0);
                v.extend(d);
            }
            if r.chance(1, 3) {
                let n = r.below(v.len() + 1);
                v.truncate(n);
            }
            v
        }
        5 => {
            // trailing noise
            let mut d = wf::<U>(spec, r, 40, false).data;
            for _ in 0..r.below(6) {
                d.push(noise(r));
            }
            d
        }
        6 => {
            // two messages back to back
            let mut d = wf::<U>(spec, r, 30, false).data;
            d.extend(wf::<U>(spec, r, 30, false).data);
            if r.chance(1, 3) {
                let n = r.below(d.len() + 1);
                d.truncate(n);
            }
            d
        }
        7 => {
            let mut d = wf::<U>(spec, r, 60, false).data;
            let n = r.below(d.len() + 1);
            d.truncate(n);
            d
        }
        _ => {
            // damaged message: a few bits flipped, biased to the headers
            let mut d = wf::<U>(spec, r, 60, false).data;
            for _ in 0..1 + r.below(3) {
                let i = if r.chance(2, 3) { r.below(d.len() / spec.pkt + 1) * spec.pkt } else { r.below(d.len()) };
                let i = i.min(d.len() - 1);
                let x: u64 = d[i].into();
                d[i] = U::from64(match r.below(4) {
                    0 => {
                        let nib = r.below(U::BITS as usize / 4) as u32 * 4;
                        (x & !(0xF << nib)) | (r.below(16) as u64) << nib
                    }
                    _ => x ^ (1u64 << r.below(U::BITS as usize)),
                });
            }
            d
        }
    }
}
/// Dirty memory of a given length.
pub fn dirt<U: Un>(spec: &Spec, r: &mut Rng, n: usize) -> Vec<U> {
    match r.below(5) {
        0 => vec![U::from64(0); n],
        1 => vec![U::from64(u64::MAX >> (64 - U::BITS)); n],
        2 => {
            // an old, longer message of the same type
            let mut v: Vec<U> = vec![];
            while v.len() < n {
                v.extend(wf::<U>(spec, r, n * 4, true).data);
            }
            v.truncate(n);
            v
        }
        _ => (0..n).map(|_| U::from64(r.word() as u64)).collect(),
    }
}
