//! P01 totality, P02 acceptance, P03 getters, P04 setters, P05 built messages, P06 dispatch.
use crate::core::*;
use crate::each_kind;
use crate::gen;
use crate::kind::*;
use crate::tables;
use crate::view::{Agg, View};
use std::ops::Bound;

/// Every read-only operation of a message, each under the panic monitor.
pub fn read_all<U: Un>(c: &mut Case, spec: &Spec, m: &dyn DynMsg<U>) {
    if let Some(d) = c.lib("data", || m.data()) {
        c.ev("reads");
        for x in &d {
            let x: u64 = (*x).into();
            c.dig.add(x);
        }
    }
    for (i, f) in spec.fields.iter().enumerate() {
        if let Some(v) = c.lib(&format!("get:{}", f.name), || m.get(i)) {
            c.dig.add(v);
        }
        c.ev("reads");
    }
    c.lib("debug", || m.dbg());
    if U::BITS == 32 {
        if let Some(p) = c.lib("packets", || m.packets()) {
            c.dig.add(p.len() as u64);
        }
    }
    if spec.text.is_some() {
        if let Some(t) = c.lib("text", || m.text()) {
            c.dig.str(t.as_deref().unwrap_or(""));
        }
        if let Some(t) = c.lib("text_bytes", || m.text_bytes()) {
            for b in t {
                c.dig.add(b as u64);
            }
        }
        c.lib("text_bytes.size_hint", || m.with_text_bytes(&mut |it| {
            let _ = it.size_hint();
        }));
        c.evn("reads", 3);
    }
    if spec.sx != Sx::No {
        if let Some(p) = c.lib("payload", || m.payload()) {
            for b in p {
                c.dig.add(b as u64);
            }
        }
        if let Some(n) = c.lib("payload_size", || m.payload_size()) {
            c.dig.add(n as u64);
        }
        let script: Vec<usize> = (0..6).map(|_| skip(&mut c.rng)).collect();
        c.lib("payload.nth", || {
            m.with_payload(&mut |it| {
                for n in &script {
                    let _ = it.p_nth(*n);
                    let _ = it.p_size_hint();
                    let _ = it.p_len();
                    let _ = it.p_count();
                    let _ = it.p_next();
                }
            })
        });
        c.evn("reads", 3);
    }
}
pub fn skip(r: &mut Rng) -> usize {
    match r.below(12) {
        0..=3 => 0,
        4..=6 => r.below(8),
        7..=9 => r.below(40),
        10 => r.below(4000),
        _ => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, (u32::MAX as usize).saturating_add(1), u32::MAX as usize]),
    }
}
fn shape<U: Un>(ok: bool, s: &[U]) -> u64 {
    let mut h = Hash64::new();
    h.add(ok as u64).add(s.len().min(64) as u64);
    for x in s.iter().take(16) {
        let x: u64 = (*x).into();
        h.add(if U::BITS == 32 { x >> 16 } else { x });
    }
    h.0
}

// ------------------------------------------------------------------ P01
fn p01_kind<U: Un>(k: &dyn KindObj<U>, c: &mut Case) {
    let spec = k.spec();
    let s = gen::hostile::<U>(spec, &mut c.rng);
    input(|| U::hex(&s));
    let r = c.lib("interpret", || k.parse(&s));
    let ok = matches!(r, Some(Some(_)));
    c.dig.add(ok as u64);
    c.seen(shape(ok, &s));
    c.ev(if ok { "slices accepted" } else { "slices refused" });
    c.sample(|| format!("{} -> {}", U::hex(&s), if ok { "accepted" } else { "refused" }));
    if let Some(Some(m)) = r {
        read_all(c, spec, &*m);
        c.lib("clone/compare", || k.same(&s));
    }
}
fn any_hostile<U: Agg>(kinds: &[Box<dyn KindObj<U>>], r: &mut Rng) -> Vec<U> {
    if kinds.is_empty() || r.chance(1, 6) {
        let n = r.below(10);
        return (0..n).map(|_| U::from64(r.word() as u64 >> if U::BITS == 8 && r.chance(1, 2) { 24 } else { 0 })).collect();
    }
    let i = r.below(kinds.len());
    let spec = kinds[i].spec();
    if r.chance(1, 4) {
        {
        let max = gen::reach(r, 60);
        gen::wf::<U>(spec, r, max, false).data
    }
    } else {
        gen::hostile::<U>(spec, r)
    }
}
fn p01_agg<U: Agg>(kinds: &[Box<dyn KindObj<U>>], c: &mut Case) {
    let mut s = any_hostile(kinds, &mut c.rng);
    if U::BITS == 32 && !s.is_empty() && c.rng.chance(1, 3) {
        // any header at all
        s[0] = U::from64(c.rng.u32() as u64);
    }
    input(|| U::hex(&s));
    let mut any = false;
    if let Some(v) = c.lib("general", || U::parse_general(&s)) {
        any |= v.is_some();
        c.dig.add(v.is_some() as u64);
    }
    for f in U::families() {
        if let Some(v) = c.lib(&format!("family {f}"), || U::parse_family(f, &s)) {
            any |= v.is_some();
            c.dig.add(v.is_some() as u64);
        }
    }
    c.seen(shape(any, &s));
    c.ev(if any { "slices accepted" } else { "slices refused" });
    c.sample(|| format!("{} -> {}", U::hex(&s), any));
}
pub fn p01(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P01", 700, 60_000, p01_kind);
    let k = tables::ump_kinds();
    v.push(unit("P01/aggregate.ump", 6_000, 600_000, move |c| p01_agg::<u32>(&k, c)));
    let k = tables::bytes_kinds();
    v.push(unit("P01/aggregate.bytes", 4_000, 300_000, move |c| p01_agg::<u8>(&k, c)));
}

// ------------------------------------------------------------------ P02
/// Does the slice hold exactly one well-formed multi-packet message?  None: not judged.
pub fn accepts_multi<U: Un>(spec: &Spec, s: &[U]) -> Option<bool> {
    if spec.sx == Sx::S7Bytes {
        let b = U::as_bytes(s)?;
        let Some(e) = b.iter().position(|x| *x == 0xF7) else { return Some(false) };
        if b.first() != Some(&0xF0) {
            return Some(false);
        }
        return Some(e >= 1 && b[1..e].iter().all(|x| *x < 0x80));
    }
    let mut w = U::as_words(s)?;
    // the packets up to the first one which ends a message
    let status = |p: &[u32]| match (spec.sx, spec.family) {
        (Sx::S7Ump | Sx::S8, _) => (p[0] >> 20) & 15,
        (_, "FlexData") => (p[0] >> 22) & 3,
        _ => (p[0] >> 26) & 3,
    };
    let Some(e) = w.chunks_exact(spec.pkt).position(|p| matches!(status(p), 0 | 3)) else { return Some(false) };
    let full = (e + 1) * spec.pkt;
    // a well-formed message followed by other data is not judged
    let trailing = w.len() > full;
    w = &w[..full];
    let pk: Vec<&[u32]> = w.chunks(spec.pkt).collect();
    let n = pk.len();
    let mut reserved = false;
    for (i, p) in pk.iter().enumerate() {
        if !spec.hdr_ok(p) {
            return Some(false);
        }
        let (st, per) = match (spec.sx, spec.family) {
            (Sx::S7Ump, _) => ((p[0] >> 20) & 15, Some(((p[0] >> 16) & 15, 0, 6))),
            (Sx::S8, _) => ((p[0] >> 20) & 15, Some(((p[0] >> 16) & 15, 1, 14))),
            (_, "FlexData") => ((p[0] >> 22) & 3, None),
            _ => ((p[0] >> 26) & 3, None),
        };
        let want = if n == 1 { 0 } else if i == 0 { 1 } else if i == n - 1 { 3 } else { 2 };
        if st != want {
            return Some(false);
        }
        if let Some((sz, lo, hi)) = per {
            if sz < lo || sz > hi {
                return Some(false);
            }
        }
        match spec.sx {
            Sx::S7Ump => {
                if (p[0] ^ pk[0][0]) & 0x0F00_0000 != 0 {
                    return Some(false);
                }
                // the top bit of a data byte is reserved
                let sz = (p[0] >> 16) & 15;
                for j in 0..sz as usize {
                    let b = j + 2;
                    reserved |= (p[b / 4] >> (31 - 8 * (b % 4))) & 1 != 0;
                }
            }
            Sx::S8 => {
                if (p[0] ^ pk[0][0]) & 0x0F00_FF00 != 0 {
                    return Some(false);
                }
            }
            _ => {
                // group, addressing and block number of later packets, and UTF-8 are not judged here
                if (p[0] ^ pk[0][0]) & 0x0F3F_FF00 != 0 && spec.family == "FlexData" {
                    reserved = true;
                }
                if !spec.fields.is_empty() && spec.family != "FlexData" && (p[0] ^ pk[0][0]) & 0xFF00 != 0 {
                    reserved = true;
                }
            }
        }
    }
    if let Some(t) = &spec.text {
        let mut tx = vec![];
        for p in &pk {
            for j in 16 - t.per..16 {
                let b = (p[j / 4] >> (24 - 8 * (j % 4))) as u8;
                if b != 0 {
                    tx.push(b);
                }
            }
        }
        if std::str::from_utf8(&tx).is_err() {
            return None;
        }
    }
    if reserved || trailing {
        None
    } else {
        Some(true)
    }
}
fn p02_kind<U: Un>(k: &dyn KindObj<U>, c: &mut Case) {
    let spec = k.spec();
    let r = &mut c.rng;
    let (s, want): (Vec<U>, Option<bool>) = if spec.is_multi() {
        let max = gen::reach(r, 60);
        let w = gen::wf::<U>(spec, r, max, false);
        let s = match r.below(7) {
            0 => {
                let mut d = w.data;
                let n = r.below(d.len() + 1);
                d.truncate(n);
                d
            }
            1 | 2 => gen::hostile::<U>(spec, r),
            3 | 4 if U::BITS == 32 => {
                // packets dropped, repeated, swapped
                let mut p: Vec<Vec<U>> = w.data.chunks(spec.pkt).map(|x| x.to_vec()).collect();
                match r.below(3) {
                    0 if p.len() > 1 => {
                        p.remove(r.below(p.len()));
                    }
                    1 => {
                        let i = r.below(p.len());
                        let x = p[i].clone();
                        p.insert(r.below(p.len() + 1), x);
                    }
                    _ => {
                        let (i, j) = (r.below(p.len()), r.below(p.len()));
                        p.swap(i, j);
                    }
                }
                p.concat()
            }
            3 | 4 => {
                let mut d = w.data;
                let i = r.below(d.len());
                let v = *r.pick(&[0xF7u64, 0xF0, 0x80, 0xFF, 0x7F, 0]);
                if r.chance(1, 2) {
                    d[i] = U::from64(v);
                } else {
                    d.insert(i, U::from64(v));
                }
                d
            }
            5 if U::BITS == 32 => {
                // one header field of one packet
                let mut d = w.data;
                let i = r.below(d.len() / spec.pkt) * spec.pkt;
                let nib = r.below(8) as u32 * 4;
                let x: u64 = d[i].into();
                d[i] = U::from64((x & !(0xF << nib)) | (r.below(16) as u64) << nib);
                d
            }
            _ => w.data,
        };
        let want = accepts_multi(spec, &s);
        (s, want)
    } else {
        let mut s = spec.rand_fixed::<U>(r);
        match r.below(8) {
            0 => {
                let n = r.below(s.len() + 1);
                s.truncate(n);
            }
            1 => {
                for _ in 0..r.below(6) {
                    s.push(U::from64(r.word() as u64 >> if U::BITS == 8 { 24 } else { 0 }));
                }
            }
            2 | 3 => {
                // an undefined code
                for f in &spec.fields {
                    if r.chance(1, 2) {
                        if let Some(x) = f.rand_bad_raw(r) {
                            f.put(&mut s, x);
                        }
                    }
                }
            }
            4 | 5 => {
                // another header, one nibble or bit away
                let x: u64 = s[0].into();
                let nib = r.below(U::BITS as usize / 4) as u32 * 4;
                s[0] = U::from64(if r.chance(1, 2) { (x & !(0xF << nib)) | (r.below(16) as u64) << nib } else { x ^ 1 << r.below(U::BITS as usize) });
            }
            6 => {
                s[0] = U::from64(r.word() as u64);
            }
            _ => {}
        }
        let want = spec.accepts_fixed(&s);
        (s, Some(want))
    };
    input(|| U::hex(&s));
    let got = c.lib("interpret", || k.accepts(&s));
    let Some(got) = got else { return };
    c.dig.add(got as u64);
    c.seen(shape(got, &s));
    c.ev(match want {
        Some(true) => "well-formed slices",
        Some(false) => "ill-formed slices",
        None => "unjudged slices",
    });
    c.sample(|| format!("{} -> {got}", U::hex(&s)));
    if let Some(w) = want {
        c.check(got == w, if w { "refused a well-formed message" } else { "accepted an ill-formed message" }, || {
            format!("{}: accepted={got}, specification says {w}", U::hex(&s))
        });
    }
    if !spec.is_multi() && s.len() >= spec.min && s.len() < spec.true_min() && want == Some(true) {
        c.check(!got, "accepted a truncated message", || format!("{} is {} of {} units", U::hex(&s), s.len(), spec.true_min()));
    }
    // trailing data never affects a fixed-size type
    if !spec.is_multi() && s.len() >= spec.min {
        let mut t = s[..spec.min].to_vec();
        for _ in 0..c.rng.below(6) {
            let x = c.rng.u64();
            t.push(U::from64(x & mask(U::BITS)));
        }
        let g2 = c.lib("interpret", || k.accepts(&t));
        c.check(g2.is_none() || g2 == Some(got), "trailing data changes acceptance", || format!("{} vs {}: {got} {g2:?}", U::hex(&s), U::hex(&t)));
    }
}
pub fn p02(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P02", 2500, 250_000, p02_kind);
    // every header value of the first octets, exhaustively in slices of 256
    for k in tables::ump_kinds() {
        if k.spec().is_multi() {
            continue;
        }
        let name = format!("P02/headers.{}.{}.ump", k.spec().family, k.spec().name);
        v.push(unit(name, 256, 256, move |c| {
            let spec = k.spec();
            let base = spec.rand_fixed::<u32>(&mut c.rng);
            for x in 0..256u32 {
                let mut s = base.clone();
                // low and high half of the first 16 bits
                s[0] = (c.idx as u32) << 24 | x << 16 | (s[0] & 0xFFFF);
                let got = k.accepts(&s);
                let w = spec.accepts_fixed(&s);
                c.check(got == w, "header", || format!("{}: accepted={got}, specification says {w}", hexw(&s)));
                let mut s = base.clone();
                s[0] = (s[0] & 0xFFFF_0000) | (c.idx as u32) << 8 | x;
                let got = k.accepts(&s);
                let w = spec.accepts_fixed(&s);
                c.check(got == w, "header low half", || format!("{}: accepted={got}, specification says {w}", hexw(&s)));
            }
            c.evn("headers tried", 512);
            c.seen(c.idx);
        }));
    }
}

// ------------------------------------------------------------------ P03
fn p03_kind<U: Un>(k: &dyn KindObj<U>, c: &mut Case) {
    let spec = k.spec();
    let max = if c.rng.chance(1, 6) { 120 } else { gen::reach(&mut c.rng, 30) };
    let w = gen::wf::<U>(spec, &mut c.rng, max, false);
    let mut s = w.data.clone();
    if c.rng.chance(1, 2) {
        for _ in 0..1 + c.rng.below(6) {
            let x = c.rng.word() as u64;
            s.push(U::from64(x & mask(U::BITS)));
        }
        if spec.is_multi() && !k.accepts(&s) {
            s = w.data.clone();
        }
    }
    input(|| U::hex(&s));
    let Some(Some(m)) = c.lib("interpret", || k.parse(&s)) else {
        c.fail("well-formed message refused", U::hex(&s));
        return;
    };
    let mut h = Hash64::new();
    for (i, f) in spec.fields.iter().enumerate() {
        let want = f.canon(f.raw(&s));
        let Some(got) = c.lib(&format!("get:{}", f.name), || m.get(i)) else { continue };
        c.ev("fields read");
        h.add(got);
        c.dig.add(got);
        c.check(got == want, &format!("get:{}", f.name), || format!("{} of {}: {got:#x}, wire says {want:#x}", f.name, U::hex(&s)));
    }
    c.seen(h.0);
    c.sample(|| format!("{} -> {:?}", U::hex(&s), spec.fields.iter().enumerate().map(|(i, f)| format!("{}={:#x}", f.name, m.get(i))).collect::<Vec<_>>()));
    if c.rng.chance(1, 4) {
        // through copies in other buffers
        let bk = *c.rng.pick(&Bk::all());
        if let Some(Some(Ok(m))) = c.lib("copy", || k.copy(bk, &s, LIMN)) {
            for (i, f) in spec.fields.iter().enumerate() {
                let want = f.canon(f.raw(&s));
                let Some(got) = c.lib(&format!("get:{}", f.name), || m.get(i)) else { continue };
                c.ev("fields read");
                c.check(got == want, &format!("copy get:{}", f.name), || format!("{} of {} in {bk:?}: {got:#x}, wire says {want:#x}", f.name, U::hex(&s)));
            }
        }
    }
}
pub fn p03(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P03", 1500, 200_000, p03_kind, |s| !s.fields.is_empty());
}

// ------------------------------------------------------------------ P04
/// Apply a setter to the model of the raw data.
pub fn model_set<U: Un>(spec: &Spec, d: &mut [U], f: usize, code: u64) {
    let fd = &spec.fields[f];
    let n = if spec.is_multi() { d.len() } else { spec.min };
    for p in d[..n].chunks_mut(spec.pkt) {
        fd.put(p, fd.enc(code));
    }
}
/// Take over the bits the setter may choose freely.
pub fn model_free<U: Un>(spec: &Spec, d: &mut [U], real: &[U], f: usize, code: u64) {
    let fd = &spec.fields[f];
    let free = fd.free(code);
    if free != 0 {
        let raw = (fd.raw(d) & !free) | (fd.raw(real) & free);
        fd.put(d, raw);
    }
    if fd.cls == Cls::Bank && real.len() > 1 && d.len() > 1 {
        let (x, y): (u64, u64) = (d[1].into(), real[1].into());
        d[1] = U::from64((x & !0x8080) | (y & 0x8080));
    }
}
fn p04_kind<U: Un>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    let mut store: Vec<U>;
    let accepted = c.rng.chance(3, 5);
    let max = gen::reach(&mut c.rng, 40);
    let w = gen::wf::<U>(spec, &mut c.rng, max, false);
    let bk = *c.rng.pick(&Bk::all());
    let m = if accepted {
        input(|| format!("{bk:?} copy of {}", U::hex(&w.data)));
        let b = if matches!(bk, Bk::Fixed | Bk::Slice) { Bk::CVec } else { bk };
        match c.lib("copy", || k.copy(b, &w.data, LIMN)) {
            Some(Some(Ok(m))) => Some(m),
            _ => c.lib("copy", || k.copy(Bk::CVec, &w.data, LIMN)).flatten().and_then(|r| r.ok()),
        }
    } else {
        let mut n = spec.min + c.rng.below(3) * spec.pkt;
        if bk == Bk::Array {
            n = n.max(*k.arrays().iter().min().unwrap());
        }
        store = vec![U::from64(0); n];
        input(|| format!("new in {bk:?} of {n}"));
        c.lib("new", || k.make(bk, &mut store)).and_then(|r| r.ok())
    };
    let Some(mut m) = m else {
        c.fail("no message to start from", format!("{bk:?} accepted={accepted} {}", U::hex(&w.data)));
        return;
    };
    let Some(mut d) = c.lib("data", || m.data()) else { return };
    if accepted {
        let want = &w.data[..if spec.is_multi() { w.data.len() } else { spec.min }];
        c.check(d == want, "copy", || format!("copy of {} has {}", U::hex(want), U::hex(&d)));
    }
    let steps = 1 + c.rng.below(8);
    let mut trace = String::new();
    let mut h = Hash64::new();
    for _ in 0..steps {
        let f = c.rng.below(spec.fields.len());
        let fd = &spec.fields[f];
        let code = fd.rand_code(&mut c.rng);
        h.add(f as u64).add(code);
        if c.verbose {
            trace.push_str(&format!("{}={code:#x}; ", fd.name));
            let (t, s0) = (trace.clone(), U::hex(&w.data));
            input(|| format!("{} accepted={accepted} {bk:?}: {t}", s0));
        }
        if c.lib(&format!("set:{}", fd.name), || m.set(f, code)).is_none() {
            return;
        }
        c.ev("setter calls");
        model_set(spec, &mut d, f, code);
        let Some(real) = c.lib("data", || m.data()) else { return };
        model_free(spec, &mut d, &real, f, code);
        let ok = c.check(real == d, &format!("set:{}", fd.name), || {
            format!("after {} := {code:#x} data is {}, expected {}", fd.name, U::hex(&real), U::hex(&d))
        });
        if !ok {
            return;
        }
        for (i, g) in spec.fields.iter().enumerate() {
            let want = g.canon(g.raw(&d));
            if let Some(got) = c.lib(&format!("get:{}", g.name), || m.get(i)) {
                c.dig.add(got);
                c.check(got == want, &format!("set:{} get:{}", fd.name, g.name), || {
                    format!("after {} := {code:#x}, {} reads {got:#x}, expected {want:#x}; data {}", fd.name, g.name, U::hex(&real))
                });
            }
        }
    }
    c.seen(h.0);
    c.sample(|| format!("{trace} -> {}", U::hex(&d)));
}
pub fn p04(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P04", 600, 60_000, p04_kind, |s| !s.fields.is_empty());
}

// ------------------------------------------------------------------ P05
/// A random successful or failing edit of content; None when the kind has none.
pub fn rand_edit<U: Un>(spec: &Spec, r: &mut Rng, cur: usize, max: usize) -> Edit {
    if let Some(t) = &spec.text {
        let n = gen::rand_len(r, t.per, max);
        return Edit::Text(gen::rand_text(r, n));
    }
    let seven = spec.sx != Sx::S8;
    let per = match spec.sx {
        Sx::S7Ump => 6,
        Sx::S8 => 13,
        _ => 8,
    };
    if cur > 0 && r.chance(1, 6) {
        return Edit::Byte(r.below(cur), r.u8() & if seven { 0x7F } else { 0xFF });
    }
    let src = match r.below(6) {
        0 => Src::Lower(0),
        1 => Src::Lower(r.below(20)),
        2 => Src::Lower(usize::MAX),
        3 => Src::Upper(r.below(20)),
        _ => Src::Exact,
    };
    let n = match r.below(4) {
        0 => r.below(4),
        _ => gen::rand_len(r, per, max / 2),
    };
    let d = gen::rand_payload(r, n, seven);
    Edit::Op(match r.below(8) {
        0 => {
            let n = gen::rand_len(r, per, max);
            SxOp::Set(gen::rand_payload(r, n, seven), src)
        }
        1 => SxOp::Append(d, src),
        2 => SxOp::Insert(d, src, r.below(cur + 1)),
        3 => SxOp::AppendByte(r.u8() & if seven { 0x7F } else { 0xFF }),
        _ => {
            let a = r.below(cur + 1);
            let b = a + r.below(cur - a + 1);
            let lo = match r.below(4) {
                0 if a == 0 => Bound::Unbounded,
                1 if a > 0 => Bound::Excluded(a - 1),
                _ => Bound::Included(a),
            };
            let hi = match r.below(4) {
                0 if b == cur => Bound::Unbounded,
                1 if b > a => Bound::Included(b - 1),
                _ => Bound::Excluded(b),
            };
            let d = if r.chance(1, 4) { vec![] } else { d };
            SxOp::Splice(d, src, lo, hi)
        }
    })
}
#[derive(Clone, Debug)]
pub enum Edit {
    Text(String),
    Byte(usize, u8),
    Op(SxOp),
}
pub fn bounds(lo: Bound<usize>, hi: Bound<usize>, len: usize) -> (usize, usize) {
    let a = match lo {
        Bound::Included(a) => a,
        Bound::Excluded(a) => a + 1,
        Bound::Unbounded => 0,
    };
    let b = match hi {
        Bound::Included(b) => b + 1,
        Bound::Excluded(b) => b,
        Bound::Unbounded => len,
    };
    (a, b)
}
impl Edit {
    pub fn model(&self, p: &mut Vec<u8>) {
        match self {
            Edit::Text(t) => *p = t.as_bytes().to_vec(),
            Edit::Byte(i, b) => p[*i] = *b,
            Edit::Op(SxOp::Set(d, _)) => *p = d.clone(),
            Edit::Op(SxOp::Append(d, _)) => p.extend(d),
            Edit::Op(SxOp::AppendByte(b)) => p.push(*b),
            Edit::Op(SxOp::Insert(d, _, i)) => {
                p.splice(*i..*i, d.iter().copied());
            }
            Edit::Op(SxOp::Splice(d, _, a, b)) => {
                let (a, b) = bounds(*a, *b, p.len());
                p.splice(a..b, d.iter().copied());
            }
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            Edit::Text(_) => "set_text",
            Edit::Byte(..) => "set_byte",
            Edit::Op(SxOp::Set(..)) => "set_payload",
            Edit::Op(SxOp::Append(..)) => "append_payload",
            Edit::Op(SxOp::AppendByte(..)) => "append_byte",
            Edit::Op(SxOp::Insert(..)) => "insert_payload",
            Edit::Op(SxOp::Splice(..)) => "splice_payload",
        }
    }
    pub fn apply<U>(&self, m: &mut dyn DynMsg<U>) -> Result<(), ()> {
        match self {
            Edit::Text(t) => m.set_text(t),
            Edit::Byte(i, b) => {
                m.set_byte(*i, *b);
                Ok(())
            }
            Edit::Op(o) => m.edit(o),
        }
    }
}
pub fn content<U: Un>(c: &mut Case, spec: &Spec, m: &dyn DynMsg<U>) -> Option<Vec<u8>> {
    if spec.text.is_some() {
        c.lib("text_bytes", || m.text_bytes())
    } else if spec.sx != Sx::No {
        c.lib("payload", || m.payload())
    } else {
        Some(vec![])
    }
}
fn p05_kind<U: Agg>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    let bk = *c.rng.pick(&Bk::all());
    let n = if spec.is_multi() { 160 } else { spec.min + c.rng.below(3) * spec.pkt };
    let dirty = c.rng.chance(1, 3);
    let mut store = if dirty { gen::dirt(spec, &mut c.rng, n) } else { vec![U::from64(0); n] };
    if bk == Bk::Array {
        store = vec![U::from64(0); *k.arrays().iter().max().unwrap()];
    }
    let Some(Ok(mut m)) = c.lib("new", || k.make(bk, &mut store)) else {
        c.fail("cannot build", format!("{bk:?} of {n}"));
        return;
    };
    let mut cont: Vec<u8> = vec![];
    let mut set: Vec<Option<u64>> = vec![None; spec.fields.len()];
    let max = gen::reach(&mut c.rng, 90);
    let steps = c.rng.below(7);
    let mut trace = String::new();
    for _ in 0..steps {
        if spec.is_multi() && (spec.fields.is_empty() || c.rng.chance(1, 2)) {
            let e = rand_edit::<U>(spec, &mut c.rng, cont.len(), max);
            if c.verbose {
                trace.push_str(&format!("{e:?}; "));
                let t = trace.clone();
                input(|| format!("{bk:?}: {t}"));
            }
            let Some(r) = c.lib(e.label(), || e.apply(&mut *m)) else { return };
            if r.is_ok() {
                e.model(&mut cont);
                c.ev("edits");
            } else {
                // the state after a failed edit is P09's subject
                match content(c, spec, &*m) {
                    Some(x) => cont = x,
                    None => return,
                }
            }
        } else if !spec.fields.is_empty() {
            let f = c.rng.below(spec.fields.len());
            let code = spec.fields[f].rand_code(&mut c.rng);
            if c.verbose {
                trace.push_str(&format!("{}={code:#x}; ", spec.fields[f].name));
                let t = trace.clone();
                input(|| format!("{bk:?}: {t}"));
            }
            if c.lib(&format!("set:{}", spec.fields[f].name), || m.set(f, code)).is_none() {
                return;
            }
            set[f] = Some(spec.fields[f].canon(spec.fields[f].enc(code)));
            c.ev("edits");
        }
    }
    let Some(d) = c.lib("data", || m.data()) else { return };
    let mut h = Hash64::new();
    for x in &d {
        let x: u64 = (*x).into();
        h.add(x);
        c.dig.add(x);
    }
    c.seen(h.0);
    c.sample(|| format!("{bk:?}: {trace} -> {}", U::hex(&d)));
    let got: Vec<Option<u64>> = (0..spec.fields.len()).map(|i| c.lib(&format!("get:{}", spec.fields[i].name), || m.get(i))).collect();
    // as the concrete type
    match c.lib("interpret", || k.parse(&d)) {
        Some(Some(p)) => {
            let pd = c.lib("data", || p.data());
            c.check(pd.as_ref() == Some(&d), "reinterpreted data", || format!("{} became {:?}", U::hex(&d), pd.as_ref().map(|d| U::hex(d))));
            for (i, f) in spec.fields.iter().enumerate() {
                let v = c.lib(&format!("get:{}", f.name), || p.get(i));
                c.check(v == got[i] && (set[i].is_none() || v == set[i]), &format!("reinterpreted {}", f.name), || {
                    format!("{}: built {:?}, set {:?}, reread {v:?}; data {}", f.name, got[i], set[i], U::hex(&d))
                });
            }
            let x = content(c, spec, &*p);
            c.check(x.as_ref() == Some(&cont), "reinterpreted content", || format!("built {}, reread {:?}", hexb(&cont), x.as_ref().map(|x| hexb(x))));
        }
        Some(None) => c.fail("refused as its own type", U::hex(&d)),
        None => {}
    }
    if U::families().contains(&spec.family) {
        if let Some(v) = c.lib("family", || U::parse_family(spec.family, &d)) {
            judge_member(c, "family", spec, &d, v);
        }
    }
    if let Some(v) = c.lib("general", || U::parse_general(&d)) {
        judge_member(c, "general", spec, &d, v);
    }
}
fn judge_member<U: Un>(c: &mut Case, who: &str, spec: &Spec, d: &[U], v: Option<View<U>>) {
    match v {
        None => c.fail(&format!("refused by {who}"), U::hex(d)),
        Some(v) => {
            c.check(v.fam == spec.family && v.var == spec.variant && v.inner == d && v.data == d, &format!("{who} type"), || {
                format!("{} read by {who} as {} {} {}", U::hex(d), v.fam, v.var, U::hex(&v.inner))
            });
        }
    }
}
pub fn p05(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P05", 700, 60_000, p05_kind);
}

// ------------------------------------------------------------------ P06
fn member<'a, U: Un>(c: &mut Case, kinds: &'a [Box<dyn KindObj<U>>], s: &[U]) -> Vec<&'a dyn KindObj<U>> {
    kinds.iter().filter(|k| c.lib(&format!("interpret {}", k.spec().name), || k.accepts(s)).unwrap_or(false)).map(|k| &**k).collect()
}
fn judge_view<U: Un>(c: &mut Case, who: &str, k: &dyn KindObj<U>, s: &[U], v: &View<U>) {
    let spec = k.spec();
    let Some(Some(m)) = c.lib("interpret", || k.parse(s)) else { return };
    let Some(d) = c.lib("data", || m.data()) else { return };
    let sig = |x: &str| format!("{who} {}.{}: {x}", spec.family, spec.name);
    c.check(v.fam == spec.family && v.var == spec.variant, &sig("type"), || format!("{} selected {} {}", U::hex(s), v.fam, v.var));
    c.check(v.inner == d && v.data == d, &sig("data"), || format!("{}: inner {}, data {}, member {}", U::hex(s), U::hex(&v.inner), U::hex(&v.data), U::hex(&d)));
    for (name, got) in [("group", v.group), ("channel", v.channel)] {
        if let (Some(g), Some(f)) = (got, spec.field(name)) {
            let want = c.lib(name, || m.get(f));
            c.check(want == Some(g), &sig(name), || format!("{}: {name} {g}, member {want:?}", U::hex(s)));
        }
    }
    if spec.family == "FlexData" {
        let w: u64 = s[0].into();
        c.check(v.bank == Some((w >> 8) & 0xFF) && v.status == Some(w & 0xFF), &sig("bank/status"), || format!("{}: bank {:?} status {:?}", U::hex(s), v.bank, v.status));
    }
    if let Some(p) = &v.packets {
        let want = c.lib("packets", || m.packets());
        c.check(want.as_ref() == Some(p), &sig("packets"), || format!("{}: {p:x?} vs member {want:x?}", U::hex(s)));
    }
}
fn p06_case<U: Agg>(kinds: &[Box<dyn KindObj<U>>], fam: Option<&'static str>, c: &mut Case) {
    c.dirty_growth();
    let who = fam.unwrap_or("general");
    let mut s: Vec<U> = match c.rng.below(4) {
        0 => any_hostile(kinds, &mut c.rng),
        _ => {
            let i = c.rng.below(kinds.len());
            let max = gen::reach(&mut c.rng, 40);
            let mut d = gen::wf::<U>(kinds[i].spec(), &mut c.rng, max, false).data;
            if c.rng.chance(1, 4) {
                for _ in 0..c.rng.below(4) {
                    d.push(U::from64(c.rng.u32() as u64 & mask(U::BITS)));
                }
            }
            d
        }
    };
    if !s.is_empty() && c.rng.chance(1, 4) {
        // any header
        let x: u64 = s[0].into();
        s[0] = U::from64(match c.rng.below(3) {
            0 => c.rng.u32() as u64,
            1 if U::BITS == 32 => (x & !0xFFFF) | c.rng.bits(16),
            _ => x ^ (c.rng.bits(8) << (U::BITS - 8)) ^ (c.rng.bits(U::BITS) & 0x00FF_0000),
        });
    }
    input(|| U::hex(&s));
    let ms = member(c, kinds, &s);
    let v = c.lib(who, || match fam {
        Some(f) => U::parse_family(f, &s),
        None => U::parse_general(&s),
    });
    let Some(v) = v else { return };
    c.seen(Hash64::new().str(v.as_ref().map(|v| v.var).unwrap_or("-")).add(shape(v.is_some(), &s[..s.len().min(2)])).0);
    c.dig.add(v.is_some() as u64).str(v.as_ref().map(|v| v.var).unwrap_or("-"));
    c.ev(if v.is_some() { "dispatched" } else { "refused" });
    c.sample(|| format!("{} -> {:?}", U::hex(&s), v.as_ref().map(|v| (v.fam, v.var))));
    match (&v, ms.is_empty()) {
        (Some(v), true) => c.fail(&format!("{who} accepts what no member accepts"), format!("{} as {} {}", U::hex(&s), v.fam, v.var)),
        (None, false) => {
            c.fail(&format!("{who} refuses a {}", ms[0].spec().name), U::hex(&s));
        }
        (None, true) => {}
        (Some(v), false) => {
            let k = ms.iter().find(|k| k.spec().variant == v.var && k.spec().family == v.fam).copied().unwrap_or(ms[0]);
            judge_view(c, who, k, &s, v);
            let spec = k.spec();
            let fam_name = spec.family;
            if U::families().contains(&fam_name) && c.rng.chance(1, 3) {
                let (g, ch) = (c.rng.u8() & 15, c.rng.u8() & 15);
                if let Some(Some((v2, sg, sc))) = c.lib(&format!("{fam_name} set_group/set_channel"), || U::family_set(fam_name, &s, Some(g), Some(ch))) {
                    if let Some(Some(Ok(mut m))) = c.lib("copy", || k.copy(Bk::CVec, &s, 0)) {
                        for (on, name, val) in [(sg, "group", g), (sc, "channel", ch)] {
                            if let (true, Some(f)) = (on, spec.field(name)) {
                                c.lib(&format!("set:{name}"), || m.set(f, val as u64));
                            }
                        }
                        let d = c.lib("data", || m.data());
                        c.check(d.as_ref() == Some(&v2.inner), &format!("{who} {fam_name}.{}: set", spec.name), || {
                            format!("{}: group {g} channel {ch} through the family {}, through the member {:?}", U::hex(&s), U::hex(&v2.inner), d.as_ref().map(|d| U::hex(d)))
                        });
                    }
                }
            }
            if c.rng.chance(1, 6) {
                let mut outs: Vec<(String, Result<View<U>, ()>)> = vec![];
                c.lib(&format!("{who} rebuffer"), || match fam {
                    Some(f) => U::family_rebuffers(f, &s, &mut |l, _, r| outs.push((l.to_string(), r))),
                    None => U::general_rebuffers(&s, &mut |l, _, r| outs.push((l.to_string(), r))),
                });
                for (l, r) in outs {
                    if let Ok(r) = r {
                        c.ev("buffer conversions");
                        c.check(r == *v, &format!("{who} rebuffered {l} {}", spec.name), || format!("{}: {r:x?} vs {v:x?}", U::hex(&s)));
                    }
                }
            }
        }
    }
}
pub fn p06(v: &mut Vec<UnitDef>) {
    for f in <u32 as Agg>::families() {
        let ks: Vec<_> = tables::ump_kinds().into_iter().filter(|k| k.spec().family == f).collect();
        v.push(unit(format!("P06/{f}.ump"), 6000, 500_000, move |c| p06_case::<u32>(&ks, Some(f), c)));
    }
    for f in <u8 as Agg>::families() {
        let ks: Vec<_> = tables::bytes_kinds().into_iter().filter(|k| k.spec().family == f).collect();
        v.push(unit(format!("P06/{f}.bytes"), 4000, 300_000, move |c| p06_case::<u8>(&ks, Some(f), c)));
    }
    let ks = tables::ump_kinds();
    if !ks.is_empty() {
        v.push(unit("P06/general.ump", 10000, 800_000, move |c| p06_case::<u32>(&ks, None, c)));
    }
    let ks = tables::bytes_kinds();
    if !ks.is_empty() {
        v.push(unit("P06/general.bytes", 6000, 500_000, move |c| p06_case::<u8>(&ks, None, c)));
    }
}
