//! P07 payload model, P08 canonical packets, P09 overflow.
use super::read::*;
use std::sync::Arc;
use crate::conv;
use crate::core::*;
use crate::each_kind;
use crate::gen;
use crate::kind::*;
use crate::view::Agg;

/// A message to edit: (message, content, raw field values), or None when the buffer kind
/// cannot start that way.
pub struct Start<'a, U: Un> {
    pub m: Box<dyn DynMsg<U> + 'a>,
    pub content: Vec<u8>,
    pub raw: Vec<u64>,
    pub what: String,
}
pub fn raw_fields<U: Un>(c: &mut Case, spec: &Spec, m: &dyn DynMsg<U>) -> Option<Vec<u64>> {
    let mut v = vec![];
    for (i, f) in spec.fields.iter().enumerate() {
        let g = c.lib(&format!("get:{}", f.name), || m.get(i))?;
        v.push(f.enc(g));
    }
    Some(v)
}
/// New message over `store`, or a copy of an accepted (perhaps unevenly filled) one.
pub fn start<'a, U: Un>(k: &dyn KindObj<U>, c: &mut Case, bk: Bk, store: &'a mut Vec<U>, uneven: bool, max: usize) -> Option<Start<'a, U>> {
    let spec = k.spec();
    if c.rng.chance(1, 2) && !matches!(bk, Bk::Fixed | Bk::Slice) {
        let w = gen::wf::<U>(spec, &mut c.rng, max, !uneven);
        let cap = store.len().max(w.data.len());
        if let Some(Some(Ok(m))) = c.lib("copy", || k.copy(bk, &w.data, cap)) {
            let what = format!("{bk:?} copy of {}", U::hex(&w.data));
            return Some(Start { m, content: w.content, raw: w.fields, what });
        }
    }
    let what = format!("new {bk:?} over {}", U::hex(store));
    let m = c.lib("new", || k.make(bk, store))?.ok()?;
    let raw = raw_fields(c, spec, &*m)?;
    Some(Start { m, content: vec![], raw, what })
}
fn p07_kind<U: Un>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    let bk = *c.rng.pick(&Bk::all());
    let max = if c.rng.chance(1, 8) { 400 } else { gen::reach(&mut c.rng, 90) };
    let n = if bk == Bk::Array { *c.rng.pick(k.arrays()) } else { spec.min + c.rng.below(LIMN - spec.min) };
    let mut store = gen::dirt(spec, &mut c.rng, n);
    let Some(Start { mut m, content: mut p, mut raw, what }) = start(k, c, bk, &mut store, true, max) else {
        c.fail("no message to edit", format!("{bk:?} {n}"));
        return;
    };
    let mut trace = String::new();
    let mut h = Hash64::new();
    let steps = 1 + c.rng.below(10);
    for _ in 0..steps {
        let label;
        if !spec.fields.is_empty() && c.rng.chance(1, 4) {
            let f = c.rng.below(spec.fields.len());
            let code = spec.fields[f].rand_code(&mut c.rng);
            if c.verbose {
                trace.push_str(&format!("{}={code:#x}; ", spec.fields[f].name));
                let t = format!("{what}: {trace}");
                input(|| t);
            }
            label = format!("set:{}", spec.fields[f].name);
            if c.lib(&label, || m.set(f, code)).is_none() {
                return;
            }
            raw[f] = spec.fields[f].enc(code);
            h.add(f as u64).add(code);
        } else {
            let e = rand_edit::<U>(spec, &mut c.rng, p.len(), max);
            label = e.label().to_string();
            h.str(&label);
            if c.verbose {
                trace.push_str(&format!("{e:?}; "));
                let t = format!("{what}: {trace}");
                input(|| t);
            }
            let Some(r) = c.lib(&label, || e.apply(&mut *m)) else { return };
            if r.is_err() {
                c.ev("edits refused");
                if !bk.limited() {
                    c.fail("overflow of a growable buffer", format!("{label} in {bk:?}"));
                }
                match content(c, spec, &*m) {
                    Some(x) => p = x,
                    None => return,
                }
                continue;
            }
            e.model(&mut p);
            c.ev("payload edits");
        }
        h.add(p.len() as u64);
        let Some(got) = content(c, spec, &*m) else { return };
        let ok = c.check(got == p, &label, || format!("payload is {}, expected {}", hexb(&got), hexb(&p)));
        let n = c.lib("payload_size", || m.payload_size());
        c.check(n == Some(p.len()), "payload_size", || format!("{n:?} for {} bytes", p.len()));
        let rf = raw_fields(c, spec, &*m);
        let ok2 = c.check(rf.as_ref() == Some(&raw), "group/stream id", || format!("after {label}: {rf:?}, expected {raw:?}"));
        // the packets themselves carry the payload and the ids
        if let Some(d) = c.lib("data", || m.data()) {
            let dec = decode(spec, &d);
            c.check(dec.as_ref() == Some(&(raw.clone(), p.clone())), "encoded payload", || format!("after {label}: {} encodes {dec:x?}, expected {raw:x?} {}", U::hex(&d), hexb(&p)));
        }
        if !ok || !ok2 {
            return;
        }
    }
    for b in &p {
        c.dig.add(*b as u64);
    }
    c.seen(h.0);
    c.sample(|| format!("{what}: {trace} -> {}", hexb(&p)));
}
/// Independent decoder: (raw fields, payload) of one complete message.
fn decode<U: Un>(spec: &Spec, d: &[U]) -> Option<(Vec<u64>, Vec<u8>)> {
    if spec.sx == Sx::S7Bytes {
        let b = U::as_bytes(d)?;
        if b.len() < 2 || b[0] != 0xF0 || b[b.len() - 1] != 0xF7 {
            return None;
        }
        return Some((vec![], b[1..b.len() - 1].to_vec()));
    }
    let w = U::as_words(d)?;
    let mut out = vec![];
    let n = w.len() / spec.pkt;
    let off = if spec.sx == Sx::S8 { 3 } else { 2 };
    let first: Vec<u64> = spec.fields.iter().map(|f| f.raw(&w[..spec.pkt])).collect();
    for (i, p) in w.chunks(spec.pkt).enumerate() {
        let st = (p[0] >> 20) & 15;
        let want = if n == 1 { 0 } else if i == 0 { 1 } else if i == n - 1 { 3 } else { 2 };
        if st != want || !spec.hdr_ok(p) || spec.fields.iter().zip(&first).any(|(f, x)| f.raw(p) != *x) {
            return None;
        }
        let sz = ((p[0] >> 16) & 15) as usize - (spec.sx == Sx::S8) as usize;
        for j in off..off + sz {
            out.push((p[j / 4] >> (24 - 8 * (j % 4))) as u8);
        }
    }
    Some((first, out))
}
fn big_payload<U: Un>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    // long messages: lengths far beyond the other workloads
    let spec = k.spec();
    let bk = if c.rng.chance(1, 2) { Bk::CVec } else { Bk::Sticky };
    let mut store = gen::dirt(spec, &mut c.rng, spec.min);
    let Some(Ok(mut m)) = c.lib("new", || k.make(bk, &mut store)) else { return };
    let mut p: Vec<u8> = vec![];
    for _ in 0..3 {
        let n = c.rng.below(3000);
        let d = gen::rand_payload(&mut c.rng, n, spec.sx != Sx::S8);
        let a = c.rng.below(p.len() + 1);
        let b = a + c.rng.below(p.len() - a + 1);
        let src = *c.rng.pick(&[Src::Exact, Src::Lower(usize::MAX), Src::Upper(50), Src::Lower(7)]);
        let e = Edit::Op(SxOp::Splice(d, src, std::ops::Bound::Included(a), std::ops::Bound::Excluded(b)));
        if c.lib(e.label(), || e.apply(&mut *m)).is_none() {
            return;
        }
        e.model(&mut p);
        c.ev("payload edits");
    }
    let got = content(c, spec, &*m);
    c.check(got.as_ref() == Some(&p), "long payload", || format!("{} bytes, expected {}", got.as_ref().map(|g| g.len()).unwrap_or(0), p.len()));
    c.dig.add(p.len() as u64);
    c.seen(p.len() as u64);
}
pub fn p07(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P07", 20_000, 1_500_000, p07_kind, |s| s.sx != Sx::No);
    each_kind!(v, "P07/long", 60, 10_000, big_payload, |s| s.sx != Sx::No);
}

// ------------------------------------------------------------------ P08
fn p08_kind<U: Un>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    let bk = *c.rng.pick(&Bk::all());
    let max = if c.rng.chance(1, 8) { 300 } else { gen::reach(&mut c.rng, 60) };
    let n = if bk == Bk::Array { *c.rng.pick(k.arrays()) } else { spec.min + c.rng.below(LIMN - spec.min) };
    let mut store = gen::dirt(spec, &mut c.rng, n);
    let Some(Start { mut m, content: mut p, mut raw, what }) = start(k, c, bk, &mut store, false, max) else {
        c.fail("no message to edit", format!("{bk:?} {n}"));
        return;
    };
    let mut trace = String::new();
    let mut h = Hash64::new();
    let steps = 1 + c.rng.below(7);
    for _ in 0..steps {
        let label;
        if !spec.fields.is_empty() && c.rng.chance(1, 4) {
            let f = c.rng.below(spec.fields.len());
            let code = spec.fields[f].rand_code(&mut c.rng);
            label = format!("set:{}", spec.fields[f].name);
            if c.verbose {
                trace.push_str(&format!("{}={code:#x}; ", spec.fields[f].name));
                let t = format!("{what}: {trace}");
                input(|| t);
            }
            if c.lib(&label, || m.set(f, code)).is_none() {
                return;
            }
            raw[f] = spec.fields[f].enc(code);
        } else {
            let e = rand_edit::<U>(spec, &mut c.rng, p.len(), max);
            label = e.label().to_string();
            if c.verbose {
                trace.push_str(&format!("{e:?}; "));
                let t = format!("{what}: {trace}");
                input(|| t);
            }
            let Some(r) = c.lib(&label, || e.apply(&mut *m)) else { return };
            if r.is_err() {
                match content(c, spec, &*m) {
                    Some(x) => p = x,
                    None => return,
                }
                continue;
            }
            e.model(&mut p);
            c.ev("payload edits");
        }
        h.str(&label).add(p.len() as u64);
        let Some(d) = c.lib("data", || m.data()) else { return };
        let want = gen::sx_canon::<U>(spec, &raw, &p);
        c.ev("packet images compared");
        if !c.check(d == want, &label, || format!("data is {}, expected {}", U::hex(&d), U::hex(&want))) {
            return;
        }
    }
    c.seen(h.0);
    c.sample(|| format!("{what}: {trace} -> {}", hexb(&p)));
}
/// Every payload length in turn, written in one go, and grown and shrunk by one byte.
fn p08_lengths<U: Un>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    let n = gen::nth_length(c.idx as usize, if spec.sx == Sx::S8 { 13 } else { 6 });
    let mut store = gen::dirt(spec, &mut c.rng, LIMN.max(n * 2 + 32));
    let bk = *c.rng.pick(&[Bk::CVec, Bk::Sticky, Bk::Fixed, Bk::Slice]);
    let Some(Ok(mut m)) = c.lib("new", || k.make(bk, &mut store)) else { return };
    let Some(raw) = raw_fields(c, spec, &*m) else { return };
    let mut p = gen::rand_payload(&mut c.rng, n, spec.sx != Sx::S8);
    use std::ops::Bound::*;
    for op in [
        SxOp::Set(p.clone(), Src::Exact),
        SxOp::AppendByte(0x55),
        SxOp::Splice(vec![], Src::Exact, Excluded(n.saturating_sub(1)), Unbounded),
        SxOp::Splice(vec![], Src::Exact, Unbounded, Excluded(n / 2)),
    ] {
        let e = Edit::Op(op);
        if n == 0 && matches!(e, Edit::Op(SxOp::Splice(..))) {
            continue;
        }
        input(|| format!("{bk:?} length {n}: {e:?}"));
        let Some(Ok(())) = c.lib(e.label(), || e.apply(&mut *m)) else {
            c.fail("edit refused", format!("{bk:?} length {n} {}", e.label()));
            return;
        };
        if !matches!(e, Edit::Op(SxOp::Set(..))) {
            e.model(&mut p);
        }
        let d = c.lib("data", || m.data());
        let want = gen::sx_canon::<U>(spec, &raw, &p);
        c.ev("packet images compared");
        c.check(d.as_ref() == Some(&want), e.label(), || format!("length {n}: data is {:?}, expected {}", d.as_ref().map(|d| U::hex(d)), U::hex(&want)));
    }
    c.seen(n as u64);
}
pub fn p08(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P08", 20_000, 1_500_000, p08_kind, |s| s.sx != Sx::No);
    each_kind!(v, "P08/lengths", 730, 3030, p08_lengths, |s| s.sx != Sx::No);
}

// ------------------------------------------------------------------ P09
fn p09_kind<U: Agg>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    let bk = *c.rng.pick(&[Bk::Fixed, Bk::Slice, Bk::Lim, Bk::Array]);
    let n = if bk == Bk::Array {
        *c.rng.pick(k.arrays())
    } else {
        match c.rng.below(5) {
            0 => c.rng.below(spec.min + 2),
            1..=3 => c.rng.below(8 * spec.pkt.max(3)),
            _ => c.rng.below(LIMN),
        }
    };
    let mut store = gen::dirt(spec, &mut c.rng, n);
    input(|| format!("{bk:?} of {n} units"));
    let Some(r) = c.lib("new", || k.make(bk, &mut store)) else { return };
    c.check(r.is_ok() == (n >= spec.min), "constructor", || format!("{bk:?} of {n} units: ok={}, message needs {}", r.is_ok(), spec.min));
    c.ev(if r.is_ok() { "fits" } else { "overflows" });
    c.dig.add(r.is_ok() as u64);
    let Ok(mut m) = r else {
        c.seen(n as u64);
        return;
    };
    if !spec.is_multi() {
        c.seen(n as u64);
        return;
    }
    let per = match (&spec.text, spec.sx) {
        (Some(t), _) => t.per,
        (_, Sx::S7Ump) => 6,
        (_, Sx::S8) => 13,
        _ => 1,
    };
    // bytes of content the buffer has room for
    let room = if spec.sx == Sx::S7Bytes { n - 2 } else { n / spec.pkt * per };
    let mut p: Vec<u8> = vec![];
    let mut trace = String::new();
    let mut h = Hash64::new();
    h.add(n as u64);
    for _ in 0..1 + c.rng.below(8) {
        // sized around the room left
        let tgt = match c.rng.below(6) {
            0 => 0,
            1 => room,
            2 => room + 1,
            3 => c.rng.below(room + 2),
            4 => room.saturating_sub(1),
            _ => c.rng.below(2 * room + 20),
        };
        let e = if spec.text.is_some() {
            Edit::Text(gen::rand_text(&mut c.rng, tgt))
        } else {
            let e = rand_edit::<U>(spec, &mut c.rng, p.len(), 40);
            match e {
                // make the result as long as the target
                Edit::Op(SxOp::Set(_, s)) => Edit::Op(SxOp::Set(gen::rand_payload(&mut c.rng, tgt, spec.sx != Sx::S8), s)),
                Edit::Op(SxOp::Append(_, s)) if c.rng.chance(1, 2) => {
                    Edit::Op(SxOp::Append(gen::rand_payload(&mut c.rng, tgt.saturating_sub(p.len()), spec.sx != Sx::S8), s))
                }
                Edit::Op(SxOp::Insert(_, s, i)) if c.rng.chance(1, 2) => {
                    Edit::Op(SxOp::Insert(gen::rand_payload(&mut c.rng, tgt.saturating_sub(p.len()), spec.sx != Sx::S8), s, i))
                }
                Edit::Op(SxOp::Splice(_, s, a, b)) if c.rng.chance(1, 2) => {
                    let (x, y) = bounds(a, b, p.len());
                    let left = p.len() - (y - x);
                    Edit::Op(SxOp::Splice(gen::rand_payload(&mut c.rng, tgt.saturating_sub(left), spec.sx != Sx::S8), s, a, b))
                }
                e => e,
            }
        };
        let mut want = p.clone();
        e.model(&mut want);
        if c.verbose {
            trace.push_str(&format!("{e:?}; "));
            let t = format!("{bk:?} of {n} units: {trace}");
            input(|| t);
        }
        let fits = want.len() <= room;
        let Some(r) = c.lib(e.label(), || e.apply(&mut *m)) else { return };
        c.dig.add(r.is_ok() as u64);
        c.ev(if fits { "fits" } else { "overflows" });
        h.str(e.label()).add(want.len() as u64);
        c.check(r.is_ok() == fits, &format!("{}: {}", e.label(), if fits { "refused what fits" } else { "accepted what does not fit" }), || {
            format!("{bk:?} of {n} units has room for {room} bytes; the result has {}: ok={}", want.len(), r.is_ok())
        });
        // still readable and interpretable
        let Some(got) = content(c, spec, &*m) else { return };
        if r.is_ok() {
            c.check(got == want, &format!("{}: content", e.label()), || format!("{} instead of {}", hexb(&got), hexb(&want)));
        }
        read_all(c, spec, &*m);
        let Some(d) = c.lib("data", || m.data()) else { return };
        c.check(d.len() <= n, "overrun", || format!("{} units in a buffer of {n}", d.len()));
        match c.lib("interpret", || k.parse(&d)) {
            Some(Some(q)) => {
                let again = content(c, spec, &*q);
                c.check(again.as_ref() == Some(&got), "reinterpreted content", || format!("{} became {again:?}", hexb(&got)));
            }
            Some(None) => c.fail(&format!("refused after {}", if r.is_ok() { "an edit" } else { "an overflow" }), U::hex(&d)),
            None => return,
        }
        p = got;
    }
    c.seen(h.0);
    c.sample(|| format!("{bk:?} of {n} units: {trace}"));
}
pub fn p09(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P09", 1500, 200_000, p09_kind);
    let all_b: Vec<Arc<dyn KindObj<u8>>> = crate::tables::bytes_kinds().into_iter().map(Arc::from).collect();
    let all_u: Vec<Arc<dyn KindObj<u32>>> = crate::tables::ump_kinds().into_iter().map(Arc::from).collect();
    for h in conv::hybrids() {
        let kb = all_b.iter().find(|k| k.spec().variant == h.name || k.spec().name.trim_end_matches("Bytes") == h.name).unwrap().clone();
        let ku = all_u.iter().find(|k| k.spec().name == h.name && k.spec().family == kb.spec().family).unwrap().clone();
        v.push(unit(format!("P09/convert.{}.{}", kb.spec().family, h.name), 1500, 150_000, move |c| {
            use conv::How;
            // bytes -> packets
            let max = gen::reach(&mut c.rng, 40);
            let w = gen::wf::<u8>(kb.spec(), &mut c.rng, max, false);
            let need = if kb.spec().sx == Sx::S7Bytes { 2 * w.content.len().div_ceil(6).max(1) } else { 1 };
            let how = match c.rng.below(3) {
                0 => How::Arr(*c.rng.pick(&conv::UMP_ARR)),
                1 => How::Lim((need + c.rng.below(3)).saturating_sub(1).min(LIMN)),
                _ => How::Lim(c.rng.below(24)),
            };
            input(|| format!("{} -> {how:?}", hexb(&w.data)));
            let cap = match how {
                How::Arr(n) | How::Lim(n) => n,
                _ => usize::MAX,
            };
            let check = |c: &mut Case, who: &str, ok: Option<bool>, need: usize, src: String| {
                if let Some(ok) = ok {
                    c.ev(if ok { "fits" } else { "overflows" });
                    c.dig.add(ok as u64);
                    c.check(ok == (cap >= need), who, || format!("{src} -> {how:?} needs {need} units: ok={ok}"));
                }
            };
            let r = c.lib("try_from_bytes", || (h.b2u)(&w.data, how).map(|r| r.is_ok())).flatten();
            check(c, "try_from_bytes", r, need, hexb(&w.data));
            if let Some((f, _)) = h.fam {
                let r = c.lib("family try_from_bytes", || f(&w.data, how).map(|r| r.is_ok())).flatten();
                check(c, "family try_from_bytes", r, need, hexb(&w.data));
            }
            c.seen(Hash64::new().add(cap as u64).add(need as u64).0);
        }));
        let kb2 = all_b.iter().find(|k| k.spec().family == ku.spec().family && k.spec().name.trim_end_matches("Bytes") == ku.spec().name.trim_end_matches("Ump")).unwrap().clone();
        v.push(unit(format!("P09/convert.{}.{}.to-bytes", ku.spec().family, h.name), 1500, 150_000, move |c| {
            use conv::How;
            let max = gen::reach(&mut c.rng, 40);
            let w = gen::wf::<u32>(ku.spec(), &mut c.rng, max, false);
            let need = if ku.spec().sx == Sx::S7Ump { w.content.len() + 2 } else { kb2.spec().min };
            let how = match c.rng.below(3) {
                0 => How::Arr(*c.rng.pick(&conv::BYTE_ARR)),
                1 => How::Lim((need + c.rng.below(3)).saturating_sub(1).min(LIMN)),
                _ => How::Lim(c.rng.below(48)),
            };
            let cap = match how {
                How::Arr(n) | How::Lim(n) => n,
                _ => usize::MAX,
            };
            input(|| format!("{} -> {how:?}", hexw(&w.data)));
            let mut rs = vec![("try_from_ump", c.lib("try_from_ump", || (h.u2b)(&w.data, how).map(|r| r.is_ok())).flatten())];
            if let Some((_, f)) = h.fam {
                rs.push(("family try_from_ump", c.lib("family try_from_ump", || f(&w.data, how).map(|r| r.is_ok())).flatten()));
            }
            for (who, ok) in rs {
                if let Some(ok) = ok {
                    c.ev(if ok { "fits" } else { "overflows" });
                    c.dig.add(ok as u64);
                    c.check(ok == (cap >= need), who, || format!("{} -> {how:?} needs {need} units: ok={ok}", hexw(&w.data)));
                }
            }
            c.seen(Hash64::new().add(cap as u64).add(need as u64).0);
        }));
    }
}
