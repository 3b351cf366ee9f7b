//! P10 conversions between representations, P11 conversions between buffers.
use super::read::*;
use crate::conv::{self, How};
use crate::core::*;
use crate::each_kind;
use crate::gen;
use crate::kind::*;
use crate::tables;
use crate::view::Agg;
use std::sync::Arc;

/// Exact image of a message of `dst` with the named fields' values; everything else zero.
fn image<A: Un, B: Un>(src: &Spec, s: &[A], content: &[u8], dst: &Spec) -> Vec<B> {
    let vals: Vec<u64> = dst.fields.iter().map(|f| src.field(f.name).map(|i| src.fields[i].raw(s)).unwrap_or(0)).collect();
    if dst.sx != Sx::No {
        return gen::sx_canon(dst, &vals, content);
    }
    let mut d = vec![B::from64(0); dst.min];
    dst.put_hdr(&mut d);
    for (f, v) in dst.fields.iter().zip(&vals) {
        f.put(&mut d, *v);
    }
    d
}
fn hows(r: &mut Rng, arr: &[usize]) -> How {
    match r.below(10) {
        7 => How::OwnVec,
        8 => How::OwnArr(r.below(40)),
        9 => How::OwnArr(LIMN),
        0 => How::Sticky,
        1 => How::Vec,
        2 => How::Lim(r.below(40)),
        3 => How::Arr(*r.pick(arr)),
        4 => How::ArrInf(*r.pick(arr)),
        5 => How::Lim(LIMN),
        _ => How::Grow,
    }
}
fn cap_of(h: How) -> usize {
    match h {
        How::Lim(n) | How::Arr(n) | How::OwnArr(n) => n,
        _ => usize::MAX,
    }
}
struct Way<A: Un, B: Un> {
    src: Arc<dyn KindObj<A>>,
    dst: Arc<dyn KindObj<B>>,
    go: fn(&[A], How) -> conv::R<B>,
    fam: Option<fn(&[A], How) -> conv::RV<B>>,
    arr: &'static [usize],
}
fn p10_case<A: Un, B: Agg>(w: &Way<A, B>, c: &mut Case) -> Option<(Vec<A>, Vec<B>)> {
    c.dirty_growth();
    let (ss, ds) = (w.src.spec(), w.dst.spec());
    let max = if c.rng.chance(1, 8) { 140 } else { gen::reach(&mut c.rng, 40) };
    let m = gen::wf::<A>(ss, &mut c.rng, max, false);
    let mut s = m.data.clone();
    // data following the message is not part of it
    if c.rng.chance(1, 3) {
        for _ in 0..1 + c.rng.below(4) {
            s.push(A::from64(c.rng.word() as u64 & mask(A::BITS)));
        }
        if !w.src.accepts(&s) {
            s = m.data.clone();
        }
    }
    let how = hows(&mut c.rng, w.arr);
    input(|| format!("{} -> {how:?}", A::hex(&s)));
    let want: Vec<B> = image(ss, &s, &m.content, ds);
    let fits = cap_of(how) >= want.len();
    let r = c.lib("convert", || (w.go)(&s, how))?;
    let Some(r) = r else {
        let beyond = matches!(how, How::OwnArr(_)) && s.len() > conv::OWN;
        if !matches!(how, How::ArrInf(_)) && !beyond {
            c.fail("source refused", A::hex(&s));
        }
        return None;
    };
    c.dig.add(r.is_ok() as u64);
    c.check(r.is_ok() == fits, "overflow", || format!("{} -> {how:?}, needs {}: ok={}", A::hex(&s), want.len(), r.is_ok()));
    c.seen(Hash64::new().add(c.idx).add(want.len() as u64).0);
    let Ok(d) = r else {
        c.ev("conversions refused");
        return None;
    };
    c.ev("conversions");
    let got = c.lib("data", || d.data())?;
    c.sample(|| format!("{} -> {how:?} {}", A::hex(&s), B::hex(&got)));
    for x in &got {
        let x: u64 = (*x).into();
        c.dig.add(x);
    }
    c.check(got == want, "image", || format!("{} -> {how:?} gives {}, expected {}", A::hex(&s), B::hex(&got), B::hex(&want)));
    let src = c.lib("interpret", || w.src.parse(&s)).flatten()?;
    for (i, f) in ds.fields.iter().enumerate() {
        let v = c.lib(&format!("get:{}", f.name), || d.get(i));
        let o = match ss.field(f.name) {
            Some(j) => c.lib(&format!("source get:{}", f.name), || src.get(j)),
            None => Some(0),
        };
        c.check(v == o && v.is_some(), &format!("field {}", f.name), || format!("{} -> {how:?}: {v:?}, source {o:?}", A::hex(&s)));
    }
    if ds.sx != Sx::No {
        let p = content(c, ds, &*d);
        c.check(p.as_ref() == Some(&m.content), "payload", || format!("{} -> {how:?}: {p:x?}, expected {}", A::hex(&s), hexb(&m.content)));
    }
    c.check(w.dst.accepts(&got), "result refused", || B::hex(&got));
    if let Some(f) = w.fam {
        if let Some(Some(r)) = c.lib("family convert", || f(&s, how)) {
            c.check(r.is_ok() == fits, "family overflow", || format!("{} -> {how:?}, needs {}: ok={}", A::hex(&s), want.len(), r.is_ok()));
            if let Ok(v) = r {
                c.check(v.var == ds.variant && v.inner == want && v.data == want, "family image", || format!("{} -> {how:?}: {v:x?}, expected {}", A::hex(&s), B::hex(&want)));
            }
        }
    }
    Some((s[..m.data.len()].to_vec(), got))
}
pub fn p10(v: &mut Vec<UnitDef>) {
    let all_b: Vec<Arc<dyn KindObj<u8>>> = tables::bytes_kinds().into_iter().map(Arc::from).collect();
    let all_u: Vec<Arc<dyn KindObj<u32>>> = tables::ump_kinds().into_iter().map(Arc::from).collect();
    for h in conv::hybrids() {
        for kb in all_b.iter().filter(|k| k.spec().variant == h.name) {
            let Some(ku) = all_u.iter().find(|k| k.spec().variant == h.name && k.spec().family == kb.spec().family) else { continue };
            let (kb, ku) = (kb.clone(), ku.clone());
            let (kb2, ku2) = (kb.clone(), ku.clone());
            let fam = kb.spec().family;
            let b2u = Way { src: kb, dst: ku, go: h.b2u, fam: h.fam.map(|f| f.0), arr: &conv::UMP_ARR };
            let back = h.u2b;
            v.push(unit(format!("P10/{fam}.{}.to-packets", h.name), 6000, 600_000, move |c| {
                if let Some((s, u)) = p10_case(&b2u, c) {
                    // there and back
                    if let Some(Some(Ok(m))) = c.lib("convert back", || back(&u, How::Grow)) {
                        let d = c.lib("data", || m.data());
                        c.check(d.as_ref() == Some(&s), "there and back", || format!("{} became {:?}", hexb(&s), d.as_ref().map(|d| hexb(d))));
                    } else {
                        c.fail("cannot convert back", hexw(&u));
                    }
                }
            }));
            let u2b = Way { src: ku2, dst: kb2, go: h.u2b, fam: h.fam.map(|f| f.1), arr: &conv::BYTE_ARR };
            let back = h.b2u;
            v.push(unit(format!("P10/{fam}.{}.to-bytes", h.name), 6000, 600_000, move |c| {
                if let Some((s, b)) = p10_case(&u2b, c) {
                    // and back: everything but the group survives
                    if let Some(Some(Ok(m))) = c.lib("convert back", || back(&b, How::Grow)) {
                        for (i, f) in u2b.src.spec().fields.iter().enumerate() {
                            let got = c.lib(&format!("get:{}", f.name), || m.get(i));
                            let want = if f.name == "group" { 0 } else { f.raw(&s) };
                            c.check(got == Some(want), &format!("there and back {}", f.name), || format!("{}: {got:?}, expected {want}", hexw(&s)));
                        }
                    } else {
                        c.fail("cannot convert back", hexb(&b));
                    }
                }
            }));
        }
    }
}

// ------------------------------------------------------------------ P11
fn p11_kind<U: Agg>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    let max = if c.rng.chance(1, 8) { 150 } else { gen::reach(&mut c.rng, 40) };
    let w = gen::wf::<U>(spec, &mut c.rng, max, false);
    let s = w.data;
    input(|| U::hex(&s));
    let Some(Some(m)) = c.lib("interpret", || k.parse(&s)) else {
        c.fail("well-formed message refused", U::hex(&s));
        return;
    };
    let Some(d) = c.lib("data", || m.data()) else { return };
    let vals: Vec<Option<u64>> = (0..spec.fields.len()).map(|i| c.lib("get", || m.get(i))).collect();
    let cont = content(c, spec, &*m);
    let mut outs = vec![];
    c.lib("rebuffer", || k.rebuffers(&s, &mut |l, cap, r| outs.push((l.to_string(), cap, r))));
    for (l, cap, r) in outs {
        c.check(r.is_ok() == (cap >= d.len()), &format!("{l}: overflow"), || format!("{} into {cap}: ok={}", U::hex(&s), r.is_ok()));
        if let Ok(m2) = r {
            same_message(c, spec, &l, &*m2, &d, &vals, &cont);
        }
    }
    c.check(c_same(k, &s), "clone", || U::hex(&s));
    let mut h = Hash64::new();
    for x in &d {
        let x: u64 = (*x).into();
        h.add(x);
        c.dig.add(x);
    }
    c.seen(h.0);
    c.sample(|| U::hex(&s));
}
fn c_same<U: Un>(k: &dyn KindObj<U>, s: &[U]) -> bool {
    k.same(s)
}
fn same_message<U: Un>(c: &mut Case, spec: &Spec, l: &str, m2: &dyn DynMsg<U>, d: &[U], vals: &[Option<u64>], cont: &Option<Vec<u8>>) {
    c.ev("buffer conversions");
    let d2 = c.lib("data", || m2.data());
    c.check(d2.as_deref() == Some(d), &format!("{l}: data"), || format!("{} became {:?}", U::hex(d), d2.as_ref().map(|d| U::hex(d))));
    for (i, f) in spec.fields.iter().enumerate() {
        let v = c.lib(&format!("get:{}", f.name), || m2.get(i));
        c.check(v == vals[i], &format!("{l}: {}", f.name), || format!("{}: {v:?}, original {:?}", U::hex(d), vals[i]));
    }
    let x = content(c, spec, m2);
    c.check(x == *cont, &format!("{l}: content"), || format!("{}: {x:x?}, original {cont:x?}", U::hex(d)));
}
/// Data after the message in a borrowed buffer.
fn p11_trailing<U: Agg>(kinds: &[Box<dyn KindObj<U>>], c: &mut Case) {
    let k = &*kinds[c.rng.below(kinds.len())];
    let spec = k.spec();
    let max = gen::reach(&mut c.rng, 40);
    let w = gen::wf::<U>(spec, &mut c.rng, max, false);
    let mut s = w.data.clone();
    for _ in 0..1 + c.rng.below(6) {
        s.push(U::from64(c.rng.word() as u64 & mask(U::BITS)));
    }
    if !k.accepts(&s) {
        return;
    }
    input(|| format!("{} {}", spec.name, U::hex(&s)));
    let Some(Some(m)) = c.lib("interpret", || k.parse(&s)) else { return };
    let Some(d) = c.lib("data", || m.data()) else { return };
    let vals: Vec<Option<u64>> = (0..spec.fields.len()).map(|i| c.lib("get", || m.get(i))).collect();
    let cont = content(c, spec, &*m);
    let mut outs = vec![];
    c.lib("rebuffer", || k.rebuffers(&s, &mut |l, cap, r| outs.push((l.to_string(), cap, r))));
    for (l, cap, r) in outs {
        match (r.is_ok(), cap >= d.len()) {
            (false, true) if cap < s.len() => {
                // fits the message but not the slice it was read from
                c.check(false, "fallible rebuffer counts data after the message", || {
                    format!("{} ({} units of message) into a buffer of {cap}: refused", U::hex(&s), d.len())
                });
            }
            (ok, want) => {
                c.check(ok == want, &format!("{l}: overflow"), || format!("{} into {cap}: ok={ok}", U::hex(&s)));
            }
        }
        if let Ok(m2) = r {
            same_message(c, spec, &l, &*m2, &d, &vals, &cont);
        }
    }
    c.seen(Hash64::new().str(spec.name).add(s.len() as u64).add(d.len() as u64).0);
}
/// Messages built in arrays and mutable slices, moved elsewhere.
struct Moves<'a, 'b> {
    c: &'a mut Case,
    spec: &'b Spec,
    fields: Vec<(usize, u64)>,
    edit: Option<Edit>,
    backing: usize,
}
struct Moved<U> {
    d: Vec<U>,
    vals: Vec<Option<u64>>,
    cont: Option<Vec<u8>>,
}
struct MovesOf<'a, 'b, U> {
    m: Moves<'a, 'b>,
    orig: Moved<U>,
}
impl<U: Un> Mover<U> for MovesOf<'_, '_, U> {
    fn fill(&mut self, m: &mut dyn DynMsg<U>, backing: usize) {
        let x = &mut self.m;
        x.backing = backing;
        if let Some(e) = &x.edit {
            let _ = e.apply(m);
        }
        for (f, v) in &x.fields {
            m.set(*f, *v);
        }
        x.c.ev("messages built");
        self.orig = Moved {
            d: m.data(),
            vals: (0..x.spec.fields.len()).map(|i| x.c.lib("get", || m.get(i))).collect(),
            cont: content(x.c, x.spec, m),
        };
    }
    fn moved(&mut self, l: &str, cap: usize, r: Option<&dyn DynMsg<U>>) {
        let d = &self.orig.d;
        let b = self.m.backing;
        // what is held by neither the message nor the destination is the subject of another unit
        if cap >= b || cap < d.len() {
            self.m.c.check(r.is_some() == (cap >= d.len()), &format!("{l}: overflow"), || {
                format!("{} {} in {b} into {cap}: ok={}", self.m.spec.name, U::hex(d), r.is_some())
            });
        }
        if let Some(r) = r {
            same_message(self.m.c, self.m.spec, l, r, d, &self.orig.vals, &self.orig.cont);
        }
    }
    fn len(&self) -> usize {
        self.orig.d.len()
    }
}
fn p11_sources<U: Agg>(kinds: &[Box<dyn KindObj<U>>], c: &mut Case) {
    let k = &*kinds[c.rng.below(kinds.len())];
    let spec = k.spec();
    let n = if c.rng.chance(2, 3) { *c.rng.pick(k.arrays()) } else { spec.min + c.rng.below(40) };
    let fields: Vec<(usize, u64)> = (0..spec.fields.len())
        .filter_map(|i| c.rng.chance(3, 4).then(|| (i, spec.fields[i].rand_code(&mut c.rng))))
        .collect();
    let edit = (spec.is_multi() && c.rng.chance(4, 5)).then(|| rand_edit::<U>(spec, &mut c.rng, 0, 40));
    if c.verbose {
        let s = format!("{} in {n}: {edit:?} {fields:x?}", spec.name);
        input(|| s);
    }
    c.seen(Hash64::new().str(spec.name).add(n as u64).add(c.idx).0);
    let mut caught = None;
    {
        let mut j = MovesOf {
            m: Moves { c, spec, fields, edit, backing: 0 },
            orig: Moved::<U> { d: vec![], vals: vec![], cont: None },
        };
        if let Err(e) = catch(|| k.sources(n, &mut j)) {
            caught = Some(e);
        }
    }
    if let Some(e) = caught {
        c.fail("moving a message: panic", format!("{} in {n}: {e}", spec.name));
    }
}
fn p11_agg<U: Agg>(kinds: &[Box<dyn KindObj<U>>], c: &mut Case) {
    let k = &*kinds[c.rng.below(kinds.len())];
    let max = gen::reach(&mut c.rng, 40);
    let s = gen::wf::<U>(k.spec(), &mut c.rng, max, false).data;
    input(|| U::hex(&s));
    for fam in [Some(k.spec().family), None] {
        if let Some(f) = fam {
            if !U::families().contains(&f) {
                continue;
            }
        }
        let who = fam.unwrap_or("general");
        let v = c.lib(who, || match fam {
            Some(f) => U::parse_family(f, &s),
            None => U::parse_general(&s),
        });
        let Some(Some(v)) = v else {
            c.fail(&format!("{who} refuses a {}", k.spec().name), U::hex(&s));
            continue;
        };
        let mut outs = vec![];
        c.lib(&format!("{who} rebuffer"), || match fam {
            Some(f) => U::family_rebuffers(f, &s, &mut |l, cap, r| outs.push((l.to_string(), cap, r))),
            None => U::general_rebuffers(&s, &mut |l, cap, r| outs.push((l.to_string(), cap, r))),
        });
        for (l, cap, r) in outs {
            c.ev("buffer conversions");
            c.check(r.is_ok() == (cap >= v.data.len()), &format!("{who} {l}: overflow"), || format!("{} into {cap}: ok={}", U::hex(&s), r.is_ok()));
            if let Ok(r) = r {
                c.check(r == v, &format!("{who} {l}"), || format!("{}: {r:x?} vs {v:x?}", U::hex(&s)));
            }
        }
    }
    c.seen(Hash64::new().str(k.spec().name).add(c.idx).0);
}
fn into64<U: Un>(u: U) -> u64 {
    u.into()
}
/// The conversions and capabilities of the library's own buffers, on any content.
fn p11_buffers<U: Un>(c: &mut Case) {
    use midi2::buffer::*;
    let n = c.rng.below(70);
    let d: Vec<U> = (0..n).map(|_| U::from64(c.rng.u64())).collect();
    input(|| U::hex(&d));
    c.seen(Hash64::new().add(n as u64).add(c.idx).0);
    let full = |a: &[U], size: usize| {
        a.len() == size && a.iter().enumerate().all(|(i, x)| into64(*x) == d.get(i).map_or(0, |y| into64(*y)))
    };
    let zero = |a: &[U]| a.iter().all(|x| into64(*x) == 0);
    macro_rules! arr {
        ($($N:literal)*) => {$({
            c.ev("array buffers");
            let fits = n <= $N;
            let r = c.lib("slice into array", || <[U; $N]>::try_from_buffer(&d[..]));
            c.check(r.as_ref().map_or(false, |r| r.is_ok() == fits && r.as_ref().map_or(true, |a| full(a, $N))), "slice into array", || format!("{n} into {}", $N));
            let mut m = d.clone();
            let r = c.lib("mutable slice into array", || <[U; $N]>::try_from_buffer(&mut m[..]));
            c.check(r.as_ref().map_or(false, |r| r.is_ok() == fits && r.as_ref().map_or(true, |a| full(a, $N))), "mutable slice into array", || format!("{n} into {}", $N));
            let r = c.lib("try_into_buffer", || TryIntoBuffer::<[U; $N]>::try_into_buffer(&d[..]));
            c.check(r.as_ref().map_or(false, |r| r.is_ok() == fits && r.as_ref().map_or(true, |a| full(a, $N))), "try_into_buffer", || format!("{n} into {}", $N));
            let mut a = <[U; $N] as BufferDefault>::default();
            c.check(a.buffer().len() == $N && zero(a.buffer()), "default array", || format!("{}", $N));
            let k = n.min($N);
            a[..k].copy_from_slice(&d[..k]);
            let before = a;
            let size = c.rng.below($N + 4);
            let r = c.lib("resize array", || a.try_resize(size));
            c.check(r.map_or(false, |r| r.is_ok() == (size <= $N)) && U::hex(&a[..]) == U::hex(&before[..]), "resize array", || format!("{size} of {}", $N));
            c.check(U::hex(a.buffer()) == U::hex(&before[..]) && U::hex(a.buffer_mut()) == U::hex(&before[..]), "array contents", || format!("{}", $N));
            #[cfg(feature = "std")]
            {
                let v = d.clone();
                let r = c.lib("vector into array", || <[U; $N]>::try_from_buffer(v));
                c.check(r.as_ref().map_or(false, |r| r.is_ok() == fits && r.as_ref().map_or(true, |a| full(a, $N))), "vector into array", || format!("{n} into {}", $N));
                let r = c.lib("array into vector", || IntoBuffer::<Vec<U>>::into_buffer(before));
                c.check(r.map_or(false, |v| U::hex(&v) == U::hex(&before[..])), "array into vector", || format!("{}", $N));
            }
        })*};
    }
    arr!(0 1 2 5 16 33 64);
    let mut m = d.clone();
    let mut s = &mut m[..];
    let size = c.rng.below(n + 6);
    let r = c.lib("resize slice", || s.try_resize(size));
    c.check(r.map_or(false, |r| r.is_ok() == (size <= n)) && U::hex(s.buffer()) == U::hex(&d), "resize slice", || format!("{size} of {n}"));
    let r = c.lib("freeze", || {
        let s: &[U] = FromBuffer::from_buffer(&mut m[..]);
        U::hex(s)
    });
    c.check(r.map_or(false, |r| r == U::hex(&d)), "mutable slice into slice", || format!("{n}"));
    #[cfg(feature = "std")]
    {
        c.ev("vector buffers");
        let r = c.lib("slice into vector", || <Vec<U>>::from_buffer(&d[..]));
        c.check(r.map_or(false, |v| U::hex(&v) == U::hex(&d)), "slice into vector", || format!("{n}"));
        let r = c.lib("mutable slice into vector", || <Vec<U>>::from_buffer(&mut m[..]));
        c.check(r.map_or(false, |v| U::hex(&v) == U::hex(&d)), "mutable slice into vector", || format!("{n}"));
        let e = <Vec<U> as BufferDefault>::default();
        c.check(zero(&e), "default vector", String::new);
        let ok = |v: &[U], size: usize| v.len() == size && v.iter().zip(&d).all(|(a, b)| into64(*a) == into64(*b)) && v.iter().skip(n).all(|x| into64(*x) == 0);
        let size = c.rng.below(100);
        let mut v = d.clone();
        c.lib("resize vector", || BufferResize::resize(&mut v, size));
        c.check(ok(&v, size), "resize vector", || format!("{n} to {size}: {}", U::hex(&v)));
        let mut v = d.clone();
        c.lib("resize borrowed vector", || {
            let mut r = &mut v;
            BufferResize::resize(&mut r, size)
        });
        c.check(ok(&v, size), "resize borrowed vector", || format!("{n} to {size}: {}", U::hex(&v)));
        let r = c.lib("borrowed vector contents", || {
            let mut r = &mut v;
            U::hex(Buffer::buffer(&r)) + &U::hex(BufferMut::buffer_mut(&mut r))
        });
        c.check(r.map_or(false, |r| r == U::hex(&v) + &U::hex(&v)), "borrowed vector contents", || format!("{size}"));
    }
}
pub fn p11(v: &mut Vec<UnitDef>) {
    v.push(unit("P11/buffers.ump", 4000, 400_000, p11_buffers::<u32>));
    v.push(unit("P11/buffers.bytes", 4000, 400_000, p11_buffers::<u8>));
    each_kind!(v, "P11", 400, 40_000, p11_kind);
    let k = tables::ump_kinds();
    if !k.is_empty() {
        v.push(unit("P11/families.ump", 6000, 600_000, move |c| p11_agg::<u32>(&k, c)));
    }
    let k = tables::bytes_kinds();
    if !k.is_empty() {
        v.push(unit("P11/families.bytes", 4000, 400_000, move |c| p11_agg::<u8>(&k, c)));
    }
    let k = tables::ump_kinds();
    if !k.is_empty() {
        v.push(unit("P11/sources.ump", 8000, 800_000, move |c| p11_sources::<u32>(&k, c)));
    }
    let k = tables::bytes_kinds();
    if !k.is_empty() {
        v.push(unit("P11/sources.bytes", 4000, 400_000, move |c| p11_sources::<u8>(&k, c)));
    }
    let k = tables::ump_kinds();
    if !k.is_empty() {
        v.push(unit("P11/trailing.ump", 6000, 600_000, move |c| p11_trailing::<u32>(&k, c)));
    }
    let k = tables::bytes_kinds();
    if !k.is_empty() {
        v.push(unit("P11/trailing.bytes", 4000, 400_000, move |c| p11_trailing::<u8>(&k, c)));
    }
}
