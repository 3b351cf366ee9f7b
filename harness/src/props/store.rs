//! P14 text, P15 independence from the backing buffer, P16 no hidden allocation.
use super::read::*;
use super::sysex::raw_fields;
use crate::core::*;
use crate::each_kind;
use crate::gen;
use crate::kind::*;
use crate::tables;
use crate::view::Agg;

fn p14_kind<U: Agg>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    let per = spec.text.as_ref().unwrap().per;
    let bk = *c.rng.pick(&Bk::all());
    let n = if bk == Bk::Array { *c.rng.pick(k.arrays()) } else { spec.min + c.rng.below(LIMN - spec.min) };
    let mut store = gen::dirt(spec, &mut c.rng, n);
    let max = if c.rng.chance(1, 8) { 500 } else { gen::reach(&mut c.rng, 90) };
    // start: a new message, a copy of a canonical one, or a copy of anything that was accepted
    let (mut m, what, mut canonical);
    let from = c.rng.below(4);
    if from >= 2 && !matches!(bk, Bk::Fixed | Bk::Slice) {
        let s = if from == 2 { gen::wf::<U>(spec, &mut c.rng, max, true).data } else { gen::hostile::<U>(spec, &mut c.rng) };
        let Some(Some(Ok(x))) = c.lib("copy", || k.copy(bk, &s, s.len().max(n))) else { return };
        m = x;
        what = format!("{bk:?} copy of {}", U::hex(&s));
        canonical = from == 2;
    } else {
        let made = c.lib("new", || k.make(bk, &mut store));
        let Some(Ok(x)) = made else {
            c.fail("no message to edit", format!("{bk:?} {n}"));
            return;
        };
        m = x;
        what = format!("new {bk:?} of {n}");
        canonical = true;
    }
    let Some(mut raw) = raw_fields(c, spec, &*m) else { return };
    let Some(mut t) = c.lib("text_bytes", || m.text_bytes()) else { return };
    let mut utf8 = std::str::from_utf8(&t).is_ok();
    let mut trace = String::new();
    let mut h = Hash64::new();
    for _ in 0..1 + c.rng.below(7) {
        let label;
        if !spec.fields.is_empty() && c.rng.chance(1, 3) {
            let f = c.rng.below(spec.fields.len());
            let code = spec.fields[f].rand_code(&mut c.rng);
            label = format!("set:{}", spec.fields[f].name);
            if c.verbose {
                trace.push_str(&format!("{}={code:#x}; ", spec.fields[f].name));
                let s = format!("{what}: {trace}");
                input(|| s);
            }
            if c.lib(&label, || m.set(f, code)).is_none() {
                return;
            }
            raw[f] = spec.fields[f].enc(code);
            c.ev("header fields set");
        } else {
            let l = gen::rand_len(&mut c.rng, per, max);
            let s = gen::rand_text(&mut c.rng, l);
            label = "set_text".to_string();
            if c.verbose {
                trace.push_str(&format!("text {s:?}; "));
                let s = format!("{what}: {trace}");
                input(|| s);
            }
            let Some(r) = c.lib(&label, || m.set_text(&s)) else { return };
            if r.is_err() {
                // what a failed edit leaves behind is another property's subject
                c.ev("texts refused");
                let (Some(r2), Some(t2)) = (raw_fields(c, spec, &*m), c.lib("text_bytes", || m.text_bytes())) else { return };
                if !bk.limited() {
                    c.fail("overflow of a growable buffer", format!("{what}: {trace}"));
                }
                raw = r2;
                t = t2;
                canonical = false;
                utf8 = true;
                continue;
            }
            c.ev("texts set");
            t = s.into_bytes();
            utf8 = true;
            if from == 3 {
                // reserved bits of the message it started from
                canonical = false;
            }
        }
        h.str(&label).add(t.len() as u64);
        let got = c.lib("text_bytes", || m.text_bytes());
        let ok = c.check(got.as_ref() == Some(&t), &format!("{label}: text bytes"), || format!("{what}: {trace} reads {got:x?}, expected {}", hexb(&t)));
        if cfg!(feature = "std") && utf8 {
            let got = c.lib("text", || m.text()).flatten();
            c.check(got.as_deref().map(|s| s.as_bytes()) == Some(&t[..]), &format!("{label}: text"), || format!("{what}: {trace} reads {got:?}, expected {:?}", String::from_utf8_lossy(&t)));
        }
        let rf = raw_fields(c, spec, &*m);
        let ok2 = c.check(rf.as_ref() == Some(&raw), &format!("{label}: header fields"), || format!("{what}: {trace}: {rf:x?}, expected {raw:x?}"));
        let Some(d) = c.lib("data", || m.data()) else { return };
        let want = gen::text_canon(spec, &raw, &t);
        let w = U::as_words(&d).unwrap();
        if canonical {
            c.ev("packet images compared");
            if !c.check(w == want, &format!("{label}: packets"), || format!("{what}: {trace} gives {}, expected {}", hexw(w), hexw(&want))) {
                return;
            }
        } else if label == "set_text" {
            c.check(w.len() == want.len(), &format!("{label}: number of packets"), || format!("{what}: {trace} gives {}, expected {}", hexw(w), hexw(&want)));
            // everything but reserved bits: all packets carry the first one's header
            for (p, q) in w.chunks(4).zip(want.chunks(4)) {
                let same = p[1..] == q[1..] && spec.hdr_ok(p) && spec.fields.iter().zip(&raw).all(|(f, x)| f.canon(f.raw(p)) == f.canon(*x));
                let sh = if spec.family == "FlexData" { 22 } else { 26 };
                c.check(same && (p[0] ^ q[0]) >> sh & 3 == 0, &format!("{label}: packet"), || format!("{what}: {trace} gives {}, expected {}", hexw(w), hexw(&want)));
            }
        }
        if !ok || !ok2 {
            return;
        }
        for b in &t {
            c.dig.add(*b as u64);
        }
    }
    c.seen(h.0);
    c.sample(|| format!("{what}: {trace} -> {:?}", String::from_utf8_lossy(&t)));
}
/// Every text length in turn, after a text of any other length.
fn p14_lengths<U: Agg>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    let n = gen::nth_length(c.idx as usize, spec.text.as_ref().unwrap().per);
    let bk = *c.rng.pick(&[Bk::CVec, Bk::Sticky, Bk::Fixed, Bk::Slice]);
    let mut store = gen::dirt(spec, &mut c.rng, 2 * n + 400);
    let made = c.lib("new", || k.make(bk, &mut store));
    let Some(Ok(mut m)) = made else { return };
    let prev = gen::rand_len(&mut c.rng, spec.text.as_ref().unwrap().per, 100);
    for l in [prev, n] {
        let t = gen::rand_text(&mut c.rng, l);
        input(|| format!("{bk:?}: {prev} bytes, then {t:?}"));
        if c.lib("set_text", || m.set_text(&t)) != Some(Ok(())) {
            c.fail("edit refused", format!("{bk:?} {l}"));
            return;
        }
        let Some(raw) = raw_fields(c, spec, &*m) else { return };
        let d = c.lib("data", || m.data());
        let want = crate::gen::conv::<U>(&gen::text_canon(spec, &raw, t.as_bytes()));
        c.ev("packet images compared");
        c.check(d.as_ref() == Some(&want), "length", || format!("{l} bytes: {:?}, expected {}", d.as_ref().map(|d| U::hex(d)), U::hex(&want)));
        let got = c.lib("text_bytes", || m.text_bytes());
        c.check(got.as_deref() == Some(t.as_bytes()), "length: text bytes", || format!("{got:x?}"));
    }
    c.seen(n as u64);
}
pub fn p14(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P14", 5000, 400_000, p14_kind, |s| s.text.is_some());
    each_kind!(v, "P14/lengths", 330, 2030, p14_lengths, |s| s.text.is_some());
}

// ------------------------------------------------------------------ P15
#[derive(Clone, Debug)]
enum Act {
    Set(usize, u64),
    Edit(Edit),
}
#[derive(PartialEq, Eq, Clone, Debug)]
struct State<U> {
    data: Vec<U>,
    vals: Vec<u64>,
    content: Vec<u8>,
    packets: Vec<Vec<u32>>,
    text: Option<String>,
}
fn state<U: Un>(c: &mut Case, spec: &Spec, m: &dyn DynMsg<U>) -> Option<State<U>> {
    let data = c.lib("data", || m.data())?;
    let mut vals = vec![];
    for (i, f) in spec.fields.iter().enumerate() {
        vals.push(c.lib(&format!("get:{}", f.name), || m.get(i))?);
    }
    let packets = if U::BITS == 32 { c.lib("packets", || m.packets())? } else { vec![] };
    let text = if spec.text.is_some() { c.lib("text", || m.text())? } else { None };
    Some(State { data, vals, content: content(c, spec, m)?, packets, text })
}
/// A message as new: every field at its default.  That is zero, except: bidirectional function
/// blocks, no channel, tonic C, the modulation controller.
fn fresh<U: Un>(spec: &Spec) -> Vec<U> {
    let raw: Vec<u64> = spec.fields.iter().map(|f| match f.cls {
        Cls::Direction => 3,
        Cls::OptChan => 0x10,
        Cls::Tonic => 3,
        Cls::Controller => 1 << 32,
        _ => 0,
    }).collect();
    if spec.is_multi() {
        return gen::multi_canon(spec, &raw, &[]);
    }
    let mut d = vec![U::from64(0); spec.min];
    spec.put_hdr(&mut d);
    for (f, x) in spec.fields.iter().zip(&raw) {
        f.put(&mut d, *x);
    }
    spec.put_hdr(&mut d);
    d
}
fn p15_kind<U: Agg>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    // one script
    let max = gen::reach(&mut c.rng, 80);
    let copy = if c.rng.chance(1, 3) { Some(gen::wf::<U>(spec, &mut c.rng, max.max(61) - 20, false)) } else { None };
    let mut acts = vec![];
    let mut p: Vec<u8> = copy.as_ref().map(|w| w.content.clone()).unwrap_or_default();
    for _ in 0..c.rng.below(7) {
        if spec.is_multi() && (spec.fields.is_empty() || c.rng.chance(2, 3)) {
            let e = rand_edit::<U>(spec, &mut c.rng, p.len(), max);
            e.model(&mut p);
            if max == 80 && p.len() > if U::BITS == 8 { 150 } else { 260 } {
                // keeps every result within the smallest of the run-time sized buffers
                break;
            }
            acts.push(Act::Edit(e));
        } else if !spec.fields.is_empty() {
            let f = c.rng.below(spec.fields.len());
            acts.push(Act::Set(f, spec.fields[f].rand_code(&mut c.rng)));
        }
    }
    // the reference: a growable buffer which starts empty
    let mut want: Vec<State<U>> = vec![];
    let mut none = vec![];
    for (bi, bk) in [Bk::CVec].into_iter().chain(Bk::all()).enumerate() {
        let n = if bk == Bk::Array { *c.rng.pick(k.arrays()) } else { LIMN + c.rng.below(4) * spec.pkt };
        // the contents a user's buffer may have: some of it shorter than the message
        let n = if matches!(bk, Bk::CVecWith | Bk::Sticky) || bk.vec_with() { c.rng.below(n) } else { n };
        let mut store = if bi == 0 { std::mem::take(&mut none) } else { gen::dirt(spec, &mut c.rng, n) };
        let dirt = store.clone();
        let made = match &copy {
            None => c.lib("new", || k.make(bk, &mut store).ok()),
            Some(w) => match c.lib("copy", || k.copy(bk, &w.data, LIMN)) {
                None => None,
                Some(None) => continue,
                Some(Some(r)) => Some(r.ok()),
            },
        };
        let Some(made) = made else { continue };
        let Some(mut m) = made else {
            if (bk != Bk::Array || copy.is_none()) && !copy.as_ref().is_some_and(|w| bk.limited() && w.data.len() > LIMN) {
                c.fail(&format!("{bk:?}: refused"), format!("{n} units"));
            }
            continue;
        };
        c.ev("buffers built in");
        let mut trace = String::new();
        let mut ok = true;
        for i in 0..=acts.len() {
            if i > 0 {
                let a = &acts[i - 1];
                if c.verbose {
                    trace.push_str(&format!("{a:?}; "));
                    let t = format!("{bk:?} over {}{}: {trace}", U::hex(&dirt), copy.as_ref().map(|w| format!(" copy of {}", U::hex(&w.data))).unwrap_or_default());
                    input(|| t);
                }
                let r = match a {
                    Act::Set(f, code) => c.lib(&format!("set:{}", spec.fields[*f].name), || {
                        m.set(*f, *code);
                        Ok(())
                    }),
                    Act::Edit(e) => c.lib(e.label(), || e.apply(&mut *m)),
                };
                let Some(r) = r else {
                    ok = false;
                    break;
                };
                if r.is_err() {
                    c.ev("overflows");
                    // only where the result is too large for the buffer
                    let need = want.get(i).map(|s| s.data.len()).unwrap_or(0);
                    let cap = match bk {
                        // (a copy is made in the smallest array that holds it)
                        Bk::Array => match &copy {
                            Some(w) => *k.arrays().iter().filter(|n| **n >= w.data.len()).min().unwrap(),
                            None => n,
                        },
                        _ => LIMN,
                    };
                    c.check(bk.limited() && need > cap, &format!("{bk:?}: overflow"), || format!("{a:?} needs {need} of {n} units"));
                    ok = false;
                    break;
                }
            }
            let Some(s) = state(c, spec, &*m) else {
                ok = false;
                break;
            };
            if bi == 0 {
                if i == 0 && copy.is_none() {
                    let f = fresh::<U>(spec);
                    c.check(s.data == f, "new message", || format!("{}, expected {}", U::hex(&s.data), U::hex(&f)));
                }
                want.push(s);
                continue;
            }
            let Some(w) = want.get(i) else { break };
            c.ev("states compared");
            let label = if i == 0 { "new".to_string() } else {
                match &acts[i - 1] {
                    Act::Set(f, _) => format!("set:{}", spec.fields[*f].name),
                    Act::Edit(e) => e.label().to_string(),
                }
            };
            if !c.check(&s == w, &format!("{bk:?}: {label}"), || format!("{trace}: {s:x?} in {bk:?} over {}, {w:x?} elsewhere", U::hex(&dirt))) {
                ok = false;
                break;
            }
        }
        let _ = ok;
    }
    if let Some(s) = want.last() {
        let mut h = Hash64::new();
        for x in &s.data {
            let x: u64 = (*x).into();
            h.add(x);
            c.dig.add(x);
        }
        c.seen(h.0);
        c.sample(|| format!("{acts:?} -> {}", U::hex(&s.data)));
    }
}
/// What follows a message in a borrowed slice does not show.
fn p15_trailing<U: Agg>(kinds: &[Box<dyn KindObj<U>>], c: &mut Case) {
    if kinds.is_empty() {
        return;
    }
    let k = &*kinds[c.rng.below(kinds.len())];
    let spec = k.spec();
    let max = gen::reach(&mut c.rng, 40);
    let a = gen::wf::<U>(spec, &mut c.rng, max, false).data;
    let mut b = a.clone();
    if U::BITS == 8 && spec.min > a.len() {
        return;
    }
    for _ in 0..1 + c.rng.below(8) {
        b.push(U::from64(c.rng.word() as u64 & mask(U::BITS)));
    }
    input(|| format!("{} {} then {}", spec.name, U::hex(&a), U::hex(&b[a.len()..])));
    let Some(Some(x)) = c.lib("interpret", || k.parse(&a)) else { return };
    let Some(y) = c.lib("interpret", || k.parse(&b)) else { return };
    let Some(y) = y else {
        // only sequences of packets may be judged together with what follows them
        c.check(spec.is_multi(), "data after the message", || format!("{} refused", U::hex(&b)));
        return;
    };
    if spec.is_multi() && c.lib("data", || y.data()).map(|d| d.len()) != Some(a.len()) {
        // the data continued the message
        return;
    }
    c.ev("states compared");
    let (sx, sy) = (state(c, spec, &*x), state(c, spec, &*y));
    c.check(sx == sy, "data after the message shows", || format!("{sx:x?} {sy:x?}"));
    c.seen(Hash64::new().str(spec.name).add(b.len() as u64).0);
}
pub fn p15(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P15", 800, 80_000, p15_kind);
    let k = tables::ump_kinds();
    v.push(unit("P15/trailing.ump", 8000, 1_000_000, move |c| p15_trailing::<u32>(&k, c)));
    let k = tables::bytes_kinds();
    v.push(unit("P15/trailing.bytes", 4000, 500_000, move |c| p15_trailing::<u8>(&k, c)));
}

// ------------------------------------------------------------------ P16
struct Null;
impl std::fmt::Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
/// Allocations counted since the last look are charged to the operation.
fn charge(c: &mut Case, who: &str) {
    let (calls, n) = crate::alloc::take();
    c.evn("operations watched", calls);
    c.check(n == 0, who, || format!("{n} heap allocations"));
}
fn quiet<U: Un>(c: &mut Case, l: &str, f: impl FnOnce()) -> bool {
    let r = c.lib(l, || crate::alloc::watch(f));
    if r.is_none() {
        // (the panic machinery allocates)
        crate::alloc::take();
        return false;
    }
    charge(c, l);
    true
}
fn quiet_reads<U: Un>(c: &mut Case, spec: &Spec, m: &dyn DynMsg<U>) {
    for (i, f) in spec.fields.iter().enumerate() {
        let label = format!("get:{}", f.name);
        quiet::<U>(c, &label, || {
            m.get(i);
        });
    }
    quiet::<U>(c, "data", || {
        m.data_len();
    });
    quiet::<U>(c, "debug", || m.dbg_to(&mut Null));
    if U::BITS == 32 {
        quiet::<U>(c, "packets", || m.with_packets(&mut |it| {
            let mut it = it;
            let _ = (it.len(), it.size_hint());
            let n = it.next().map(|p| p.len());
            let _ = (n, it.nth(2), it.count());
        }));
    }
    if spec.text.is_some() {
        quiet::<U>(c, "text_bytes", || {
            m.with_text_bytes(&mut |it| {
                let _ = (it.next(), it.size_hint(), it.nth(3));
                for _ in it {}
            });
        });
    }
    if spec.sx != Sx::No {
        quiet::<U>(c, "payload", || m.with_payload(&mut |it| {
            let _ = (it.p_next(), it.p_nth(3), it.p_len(), it.p_size_hint(), it.p_count());
            while it.p_next().is_some() {}
        }));
        quiet::<U>(c, "payload_size", || {
            m.payload_size();
        });
    }
}
fn p16_kind<U: Agg>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    crate::alloc::take();
    // interpreting, reading, comparing and moving to arrays and other fixed memory
    let max = gen::reach(&mut c.rng, 50);
    let s = if c.rng.chance(1, 4) { gen::hostile::<U>(spec, &mut c.rng) } else { gen::wf::<U>(spec, &mut c.rng, max, false).data };
    input(|| U::hex(&s));
    crate::alloc::take();
    let m = c.lib("interpret", || k.parse(&s));
    charge(c, "interpret");
    if let Some(Some(m)) = m {
        c.dig.add(m.data_len() as u64);
        crate::alloc::take();
        quiet_reads(c, spec, &*m);
        quiet::<U>(c, "clone and compare", || {
            k.same(&s);
        });
        c.lib("rebuffer", || k.rebuffers(&s, &mut |_, _, r| drop(r)));
        charge(c, "rebuffer");
        if U::families().contains(&spec.family) {
            c.lib("family", || U::parse_family(spec.family, &s));
            charge(c, "family");
            c.lib("family rebuffer", || U::family_rebuffers(spec.family, &s, &mut |_, _, r| drop(r)));
            charge(c, "family rebuffer");
        }
        c.lib("general", || U::parse_general(&s));
        charge(c, "general");
        c.lib("general rebuffer", || U::general_rebuffers(&s, &mut |_, _, r| drop(r)));
        charge(c, "general rebuffer");
    }
    // building and editing, with room and without
    let bk = *c.rng.pick(&[Bk::Slice, Bk::Lim, Bk::Array]);
    let long = bk == Bk::Slice && max > 50;
    let n = match bk {
        Bk::Array => *c.rng.pick(k.arrays()),
        _ if long => max / 2 + c.rng.below(max),
        _ => spec.min + c.rng.below(LIMN - spec.min),
    };
    let mut store = gen::dirt(spec, &mut c.rng, n);
    let made = if bk != Bk::Slice && c.rng.chance(1, 3) {
        c.lib("copy", || k.copy(bk, &s, n).unwrap_or(Err(())))
    } else {
        c.lib("new", || k.make(bk, &mut store))
    };
    charge(c, "new");
    let Some(Ok(mut m)) = made else { return };
    let mut h = Hash64::new();
    for _ in 0..1 + c.rng.below(8) {
        if spec.is_multi() && (spec.fields.is_empty() || c.rng.chance(1, 2)) {
            let cur = c.lib("size", || if spec.sx != Sx::No { m.payload_size() } else { 0 }).unwrap_or(0);
            let e = rand_edit::<U>(spec, &mut c.rng, cur, if long { max } else { 120 });
            input(|| format!("{bk:?} of {n}: {e:?}"));
            h.str(e.label());
            crate::alloc::take();
            if !quiet::<U>(c, e.label(), || {
                let _ = e.apply(&mut *m);
            }) {
                return;
            }
        } else if !spec.fields.is_empty() {
            let f = c.rng.below(spec.fields.len());
            let code = spec.fields[f].rand_code(&mut c.rng);
            let label = format!("set:{}", spec.fields[f].name);
            h.add(f as u64);
            crate::alloc::take();
            if !quiet::<U>(c, &label, || m.set(f, code)) {
                return;
            }
        }
        quiet_reads(c, spec, &*m);
    }
    c.seen(h.add(n as u64).0);
    c.sample(|| format!("{bk:?} of {n} units, {} units of data", m.data_len()));
}
fn p16_conv(c: &mut Case, hs: &[crate::conv::Hyb], kb: &[Box<dyn KindObj<u8>>], ku: &[Box<dyn KindObj<u32>>]) {
    use crate::conv::How;
    if hs.is_empty() {
        return;
    }
    let h = &hs[c.rng.below(hs.len())];
    let b = kb.iter().find(|k| k.spec().variant == h.name).unwrap();
    let u = ku.iter().find(|k| k.spec().variant == h.name && k.spec().family == b.spec().family).unwrap();
    let max = gen::reach(&mut c.rng, 40);
    let (s, t) = (gen::wf::<u8>(b.spec(), &mut c.rng, max, false).data, gen::wf::<u32>(u.spec(), &mut c.rng, max, false).data);
    input(|| format!("{} {}", hexb(&s), hexw(&t)));
    for how in [How::Lim(LIMN), How::Lim(c.rng.below(20)), How::Arr(2), How::Arr(8), How::Arr(1), How::ArrInf(4)] {
        crate::alloc::take();
        c.lib("convert to packets", || (h.b2u)(&s, how).is_some());
        charge(c, "convert to packets");
        if let Some((f, _)) = h.fam {
            c.lib("convert family to packets", || f(&s, how).is_some());
            charge(c, "convert family to packets");
        }
    }
    for how in [How::Lim(LIMN), How::Lim(c.rng.below(40)), How::Arr(3), How::Arr(22), How::Arr(2), How::ArrInf(7)] {
        crate::alloc::take();
        c.lib("convert to bytes", || (h.u2b)(&t, how).is_some());
        charge(c, "convert to bytes");
        if let Some((_, f)) = h.fam {
            c.lib("convert family to bytes", || f(&t, how).is_some());
            charge(c, "convert family to bytes");
        }
    }
    c.seen(Hash64::new().str(h.name).add(s.len() as u64).add(t.len() as u64).0);
}
pub fn p16(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P16", 500, 60_000, p16_kind);
    let (h, b, u) = (crate::conv::hybrids(), tables::bytes_kinds(), tables::ump_kinds());
    v.push(unit("P16/conversions", 10_000, 1_000_000, move |c| p16_conv(c, &h, &b, &u)));
}
