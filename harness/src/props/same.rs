//! P20 comparing, copying and printing follow the data.
use super::pkt;
use super::read::model_set;
use crate::core::*;
use crate::each_kind;
use crate::gen;
use crate::kind::*;
use crate::tables;
use crate::view::Agg;

/// The numbers shown in debug output.
fn numbers(s: &str) -> Vec<u64> {
    let t: Vec<char> = s.chars().collect();
    let (mut v, mut i) = (vec![], 0);
    while i < t.len() {
        if t[i] == '0' && i + 1 < t.len() && matches!(t[i + 1], 'x' | 'X') {
            let mut j = i + 2;
            let mut n = 0u64;
            while j < t.len() && t[j].is_ascii_hexdigit() {
                n = n << 4 | t[j].to_digit(16).unwrap() as u64;
                j += 1;
            }
            v.push(n);
            i = j;
        } else {
            i += 1;
        }
    }
    v
}
fn judge<U: Un>(c: &mut Case, who: &str, a: &[U], b: &[U], s: &Same) {
    let want = a == b;
    c.evn("comparisons", (s.eq.len() + s.copy.len()) as u64);
    c.ev(if want { "pairs of equal messages" } else { "pairs of different messages" });
    let text = || format!("{} and {}: {:?}", U::hex(a), U::hex(b), s.eq);
    c.check(s.eq.iter().all(|e| *e == want), &format!("{who}comparison"), text);
    c.check(s.copy.iter().all(|e| *e), &format!("{who}copy"), || format!("{}: {:?}", U::hex(a), s.copy));
    for (x, y) in &s.dbg {
        c.check((x == y) == want, &format!("{who}debug output tells apart"), || format!("{} and {}: {x} and {y}", U::hex(a), U::hex(b)));
        for (t, d) in [(x, a), (y, b)] {
            let n = numbers(t);
            let d: Vec<u64> = d.iter().map(|u| (*u).into()).collect();
            c.check(n == d, &format!("{who}debug output lists the data"), || format!("{d:x?}: {t}"));
        }
    }
}
/// Another message: the same, one field or one bit different, or unrelated.
fn other<U: Un>(spec: &Spec, a: &[U], r: &mut Rng, max: usize) -> Vec<U> {
    let mut b = a.to_vec();
    match r.below(6) {
        0 => {}
        1 if !spec.fields.is_empty() => {
            let f = r.below(spec.fields.len());
            let code = spec.fields[f].rand_code(r);
            model_set(spec, &mut b, f, code);
        }
        2 | 3 if !b.is_empty() => {
            let i = if r.chance(1, 3) { b.len() - 1 } else { r.below(b.len()) };
            let x: u64 = b[i].into();
            b[i] = U::from64(x ^ 1 << r.below(U::BITS as usize));
        }
        4 if spec.is_multi() && b.len() > spec.pkt => {
            // the same packets, one twice or one fewer
            let i = r.below(b.len() / spec.pkt) * spec.pkt;
            if r.chance(1, 2) {
                let p = b[i..i + spec.pkt].to_vec();
                for (k, x) in p.into_iter().enumerate() {
                    b.insert(i + k, x);
                }
            } else {
                b.drain(i..i + spec.pkt);
            }
        }
        _ => b = gen::wf::<U>(spec, r, max, false).data,
    }
    b
}
/// The whole slice is the message.
fn whole<U: Un>(k: &dyn KindObj<U>, s: &[U]) -> bool {
    k.parse(s).is_some_and(|m| m.data().len() == s.len())
}
fn p20_kind<U: Un>(k: &dyn KindObj<U>, c: &mut Case) {
    let spec = k.spec();
    let max = gen::reach(&mut c.rng, 40);
    let a = gen::wf::<U>(spec, &mut c.rng, max, false).data;
    let b = other(spec, &a, &mut c.rng, max);
    input(|| format!("{} and {}", U::hex(&a), U::hex(&b)));
    c.seen(Hash64::new().str(spec.name).add(c.idx).0);
    c.sample(|| format!("{} and {}", U::hex(&a), U::hex(&b)));
    if !whole(k, &a) {
        return;
    }
    if whole(k, &b) {
        if let Some(Some(s)) = c.lib("compare", || k.compare(&a, &b)) {
            judge(c, "", &a, &b, &s);
        }
    }
    let mut edits = vec![];
    let mut want = a.clone();
    if !spec.fields.is_empty() {
        for _ in 0..1 + c.rng.below(3) {
            let f = c.rng.below(spec.fields.len());
            let code = spec.fields[f].rand_code(&mut c.rng);
            model_set(spec, &mut want, f, code);
            edits.push((f, code));
        }
    }
    if let Some(Some((orig, copy, eq))) = c.lib("edit a copy", || k.edit_copy(&a, &edits)) {
        c.ev("copies edited");
        c.check(eq, "copy", || U::hex(&a));
        c.check(orig == a, "editing a copy changes the original", || format!("{} became {}", U::hex(&a), U::hex(&orig)));
        if c.check(copy.len() == a.len(), "edited copy", || format!("{} became {}", U::hex(&a), U::hex(&copy))) && copy != a {
            if let Some(Some(s)) = c.lib("compare", || k.compare(&a, &copy)) {
                judge(c, "", &a, &copy, &s);
            }
        }
    }
}
fn p20_agg<U: Agg>(kinds: &[Box<dyn KindObj<U>>], c: &mut Case) {
    let k = &*kinds[c.rng.below(kinds.len())];
    let k2 = if c.rng.chance(1, 4) { &*kinds[c.rng.below(kinds.len())] } else { k };
    let max = gen::reach(&mut c.rng, 40);
    let a = gen::wf::<U>(k.spec(), &mut c.rng, max, false).data;
    let b = if std::ptr::eq(k.spec(), k2.spec()) { other(k.spec(), &a, &mut c.rng, max) } else { gen::wf::<U>(k2.spec(), &mut c.rng, max, false).data };
    input(|| format!("{} and {}", U::hex(&a), U::hex(&b)));
    c.seen(Hash64::new().str(k.spec().name).str(k2.spec().name).add(c.idx).0);
    if !whole(k, &a) || !kinds.iter().any(|k| whole(&**k, &b)) {
        return;
    }
    if let Some(Some(s)) = c.lib("compare", || U::compare_general(&a, &b)) {
        judge(c, "general ", &a, &b, &s);
    }
    let f = k.spec().family;
    if U::families().contains(&f) {
        if let Some(Some(s)) = c.lib("compare", || U::compare_family(f, &a, &b)) {
            judge(c, &format!("{f} "), &a, &b, &s);
        }
    }
}
fn p20_packets(c: &mut Case) {
    let (fam, mt) = *c.rng.pick(&pkt::FAMS);
    let n = pkt::words_of(mt).unwrap();
    let mut a: Vec<u32> = (0..n).map(|_| c.rng.word()).collect();
    a[0] = a[0] & 0x0FFF_FFFF | mt << 28;
    if matches!(mt, 3 | 5) {
        a[0] = a[0] & !0x00FF_0000 | (c.rng.below(4) as u32) << 20 | (1 + c.rng.below(6) as u32) << 16;
    }
    let mut b = a.clone();
    match c.rng.below(4) {
        0 => {}
        1 => b[c.rng.below(n)] = c.rng.word(),
        _ => b[c.rng.below(n)] ^= 1 << c.rng.below(32),
    }
    if b[0] >> 28 != mt {
        b = a.clone();
    }
    input(|| format!("{} and {}", hexw(&a), hexw(&b)));
    c.seen(Hash64::new().add(mt as u64).add(c.idx).0);
    if pkt::accepts_packet(&a) != Some(true) || pkt::accepts_packet(&b) != Some(true) {
        return;
    }
    if let Some(Some(s)) = c.lib("compare", || pkt::compare(fam, &a, &b)) {
        judge(c, &format!("{fam} packet "), &a, &b, &s);
    }
}
pub fn p20(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P20", 400, 40_000, p20_kind);
    let k = tables::ump_kinds();
    if !k.is_empty() {
        v.push(unit("P20/families.ump", 10_000, 1_000_000, move |c| p20_agg::<u32>(&k, c)));
    }
    let k = tables::bytes_kinds();
    if !k.is_empty() {
        v.push(unit("P20/families.bytes", 6000, 600_000, move |c| p20_agg::<u8>(&k, c)));
    }
    v.push(unit("P20/packets", 8000, 800_000, p20_packets));
}
