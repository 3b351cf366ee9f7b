//! P12 packets, P13 iterators.
use super::read::*;
use crate::core::*;
use crate::each_kind;
use crate::gen;
use crate::kind::*;
use crate::tables;
use crate::view::Agg;
use std::ops::Deref;

/// Words of a packet by message type.
pub fn words_of(mt: u32) -> Option<usize> {
    match mt {
        0..=2 => Some(1),
        3 | 4 => Some(2),
        5 | 0xD | 0xF => Some(4),
        _ => None,
    }
}
pub const FAMS: [(&str, u32); 8] = [
    ("Utility", 0),
    ("SystemCommon", 1),
    ("ChannelVoice1", 2),
    ("Sysex7", 3),
    ("ChannelVoice2", 4),
    ("Sysex8", 5),
    ("FlexData", 0xD),
    ("UmpStream", 0xF),
];
/// What a packet reports about itself.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PV {
    pub words: Vec<u32>,
    pub group: Option<u64>,
    pub channel: Option<u64>,
    /// status or format: complete, start, continue, end; 4, 5: unexpected end (data valid, invalid)
    pub status: Option<u64>,
    pub id: Option<u64>,
    pub payload: Option<Vec<u8>>,
    pub payload_len: Option<usize>,
}
/// The same from the words alone, by the wire format.
pub fn model(w: &[u32]) -> PV {
    let mt = w[0] >> 28;
    let mut v = PV { words: w.to_vec(), ..PV::default() };
    if !matches!(mt, 0 | 0xF) {
        v.group = Some((w[0] >> 24 & 15) as u64);
    }
    if matches!(mt, 2 | 4) {
        v.channel = Some((w[0] >> 16 & 15) as u64);
    }
    let bytes: Vec<u8> = w.iter().flat_map(|x| x.to_be_bytes()).collect();
    let n = (w[0] >> 16 & 15) as usize;
    match mt {
        3 => {
            v.status = Some((w[0] >> 20 & 15) as u64);
            v.payload = Some(bytes[2..2 + n].iter().map(|b| b & 0x7F).collect());
        }
        5 => {
            v.id = Some(bytes[2] as u64);
            let mut st = (w[0] >> 20 & 15) as u64;
            if st == 3 && bytes[3..].iter().all(|b| *b == 0) {
                match n {
                    1 => st = 4,
                    15 => st = 5,
                    _ => {}
                }
            }
            v.status = Some(st);
            v.payload = Some(if n == 15 { vec![] } else { bytes[3..2 + n].to_vec() });
        }
        0xD => v.status = Some((w[0] >> 22 & 3) as u64),
        0xF => v.status = Some((w[0] >> 26 & 3) as u64),
        _ => {}
    }
    v.payload_len = v.payload.as_ref().map(|p| p.len());
    v
}
/// Is the slice a packet?  None: not judged (a channel voice 2, flex data or stream
/// packet which is cut short: the library reads the missing words as zero).
pub fn accepts_packet(d: &[u32]) -> Option<bool> {
    let Some(w0) = d.first() else { return Some(false) };
    let mt = w0 >> 28;
    let Some(n) = words_of(mt) else { return Some(false) };
    if d.len() < n {
        return if matches!(mt, 4 | 0xD | 0xF) { None } else { Some(false) };
    }
    let (st, sz) = (w0 >> 20 & 15, w0 >> 16 & 15);
    Some(match mt {
        3 => st <= 3 && sz <= 6,
        5 => st <= 3 && (1..=14).contains(&sz) || st == 3 && sz == 15 && w0 & 0xFF == 0 && d[1..4].iter().all(|x| *x == 0),
        _ => true,
    })
}
#[allow(unused)]
fn grouped<P: midi2::Grouped<B>, B: midi2::buffer::Ump>(p: &P) -> Option<u64> {
    Some(u8::from(p.group()) as u64)
}
#[cfg(any(feature = "channel-voice1", feature = "channel-voice2"))]
fn channeled<P: midi2::Channeled<B>, B: midi2::buffer::Buffer>(p: &P) -> Option<u64> {
    Some(u8::from(p.channel()) as u64)
}
/// The status types cannot be named outside the library; their variants show in debug output.
fn status_code(s: impl std::fmt::Debug) -> Option<u64> {
    let t = format!("{s:?}");
    ["Complete", "Start", "Continue", "End", "UnexpectedEnd(Valid)", "UnexpectedEnd(Invalid)"].iter().position(|x| *x == t).map(|i| i as u64)
}
#[cfg(feature = "sysex7")]
fn sx7_view(p: &midi2::sysex7::Packet) -> PV {
    PV {
        words: p.deref().to_vec(),
        group: grouped(p),
        status: status_code(p.status()),
        payload: Some(p.payload().map(u8::from).collect()),
        payload_len: Some(p.payload().len()),
        ..PV::default()
    }
}
#[cfg(feature = "sysex8")]
fn sx8_view(p: &midi2::sysex8::Packet) -> PV {
    PV {
        words: p.deref().to_vec(),
        group: grouped(p),
        status: status_code(p.status()),
        id: Some(p.stream_id() as u64),
        payload: Some(p.payload().collect()),
        payload_len: Some(p.payload().len()),
        ..PV::default()
    }
}
/// A packet of the family from the slice, as the family's packet type reports it; with it, what
/// it reports after setting its group and channel.
#[allow(unused_mut, unused_variables)]
fn family_packet(fam: &str, d: &[u32], set: (u8, u8)) -> Option<(PV, PV)> {
    use midi2::ux::u4;
    use midi2::{Channeled, Grouped};
    macro_rules! fam {
        ($P:ty, $view:expr, [$($s:ident $i:tt),*]) => {{
            let mut p = <$P>::try_from(d).ok()?;
            let view: fn(&$P) -> PV = $view;
            let a = view(&p);
            assert!(p.clone() == p, "a clone differs from its original");
            assert!(!format!("{p:?}").is_empty());
            $( p.$s(u4::new(set.$i)); )*
            Some((a, view(&p)))
        }};
    }
    match fam {
        #[cfg(feature = "utility")]
        "Utility" => fam!(midi2::utility::Packet, |p| PV { words: p.deref().to_vec(), ..PV::default() }, []),
        #[cfg(feature = "system-common")]
        "SystemCommon" => fam!(midi2::system_common::Packet, |p| PV { words: p.deref().to_vec(), group: grouped(p), ..PV::default() }, [set_group 0]),
        #[cfg(feature = "channel-voice1")]
        "ChannelVoice1" => fam!(
            midi2::channel_voice1::Packet,
            |p| PV { words: p.deref().to_vec(), group: grouped(p), channel: channeled(p), ..PV::default() },
            [set_group 0, set_channel 1]
        ),
        #[cfg(feature = "channel-voice2")]
        "ChannelVoice2" => fam!(
            midi2::channel_voice2::Packet,
            |p| PV { words: p.deref().to_vec(), group: grouped(p), channel: channeled(p), ..PV::default() },
            [set_group 0, set_channel 1]
        ),
        #[cfg(feature = "sysex7")]
        "Sysex7" => fam!(midi2::sysex7::Packet, sx7_view, [set_group 0]),
        #[cfg(feature = "sysex8")]
        "Sysex8" => fam!(midi2::sysex8::Packet, sx8_view, [set_group 0]),
        #[cfg(feature = "flex-data")]
        "FlexData" => fam!(
            midi2::flex_data::Packet,
            |p| PV { words: p.deref().to_vec(), group: grouped(p), status: status_code(p.format()), ..PV::default() },
            [set_group 0]
        ),
        #[cfg(feature = "ump-stream")]
        "UmpStream" => fam!(
            midi2::ump_stream::Packet,
            |p| PV { words: p.deref().to_vec(), status: status_code(p.format()), ..PV::default() },
            []
        ),
        _ => None,
    }
}
/// Two packets of the family compared, as the family's type and as a general packet.
#[allow(unused)]
pub fn compare(fam: &str, a: &[u32], b: &[u32]) -> Option<Same> {
    macro_rules! cmp {
        ($P:ty) => {{
            let (x, y) = (<$P>::try_from(a).ok()?, <$P>::try_from(b).ok()?);
            let mut r = same_pair(&x, &y);
            let (x, y) = (<AnyPacket as TryFrom<&[u32]>>::try_from(a).ok()?, <AnyPacket as TryFrom<&[u32]>>::try_from(b).ok()?);
            r.join(same_pair(&x, &y));
            Some(r)
        }};
    }
    match fam {
        #[cfg(feature = "utility")]
        "Utility" => cmp!(midi2::utility::Packet),
        #[cfg(feature = "system-common")]
        "SystemCommon" => cmp!(midi2::system_common::Packet),
        #[cfg(feature = "channel-voice1")]
        "ChannelVoice1" => cmp!(midi2::channel_voice1::Packet),
        #[cfg(feature = "channel-voice2")]
        "ChannelVoice2" => cmp!(midi2::channel_voice2::Packet),
        #[cfg(feature = "sysex7")]
        "Sysex7" => cmp!(midi2::sysex7::Packet),
        #[cfg(feature = "sysex8")]
        "Sysex8" => cmp!(midi2::sysex8::Packet),
        #[cfg(feature = "flex-data")]
        "FlexData" => cmp!(midi2::flex_data::Packet),
        #[cfg(feature = "ump-stream")]
        "UmpStream" => cmp!(midi2::ump_stream::Packet),
        _ => None,
    }
}
fn have(fam: &str) -> bool {
    crate::view::family_names().contains(&fam)
}
type AnyPacket<'a> = <midi2::PacketsIterator<'a> as Iterator>::Item;
/// One packet of a message: agrees with its own words, in every view.
fn judge_packet(c: &mut Case, words: &[u32]) {
    c.ev("packets judged");
    if accepts_packet(words) != Some(true) {
        c.fail("a message yields a malformed packet", hexw(words));
        return;
    }
    let m = model(words);
    let mt = words[0] >> 28;
    let fam = FAMS.iter().find(|f| f.1 == mt).unwrap().0;
    let set = (c.rng.below(16) as u8, c.rng.below(16) as u8);
    let Some(v) = c.lib("family packet", || family_packet(fam, words, set)) else { return };
    let Some((v, after)) = v else {
        c.fail("packet refused by its family", hexw(words));
        return;
    };
    c.check(v == m, "packet view", || format!("{} seen as {v:x?}, expected {m:x?}", hexw(words)));
    let mut w = m.words.clone();
    if m.group.is_some() {
        w[0] = (w[0] & !0x0F00_0000) | (set.0 as u32) << 24;
    }
    if m.channel.is_some() {
        w[0] = (w[0] & !0x000F_0000) | (set.1 as u32) << 16;
    }
    let want = model(&w);
    c.check(after == want, "packet setters", || format!("{} with group and channel {set:x?} is {after:x?}, expected {want:x?}", hexw(words)));
}
/// The packets of a message against its data.
fn judge_packets(c: &mut Case, who: &str, data: &[u32], pk: &[Vec<u32>]) {
    let mt = data[0] >> 28;
    let n = words_of(mt).unwrap();
    if data.len() < n {
        // (known finding: a message shorter than its packet)
        c.fail("message data is shorter than a packet", format!("{who}: {}", hexw(data)));
        return;
    }
    let want: Vec<Vec<u32>> = data.chunks(n).map(|x| x.to_vec()).collect();
    c.check(pk == want, &format!("{who}partition"), || format!("{} cut into {:?}", hexw(data), pk.iter().map(|p| hexw(p)).collect::<Vec<_>>()));
}
fn p12_kind<U: Agg>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    // an accepted message: well formed, hostile, followed by other data, or built here
    let s: Vec<U> = match c.rng.below(4) {
        0 => {
            let mut s = gen::wf::<U>(spec, &mut c.rng, 60, false).data;
            for _ in 0..1 + c.rng.below(5) {
                s.push(U::from64(c.rng.word() as u64));
            }
            s
        }
        1 => gen::hostile::<U>(spec, &mut c.rng),
        _ => {
            let max = if c.rng.chance(1, 10) { 400 } else { gen::reach(&mut c.rng, 60) };
            gen::wf::<U>(spec, &mut c.rng, max, false).data
        }
    };
    input(|| U::hex(&s));
    let Some(Some(m)) = c.lib("interpret", || k.parse(&s)) else { return };
    let Some(d) = c.lib("data", || m.data()) else { return };
    let d: Vec<u32> = U::as_words(&d).unwrap().to_vec();
    if d.is_empty() {
        c.fail("empty message", U::hex(&s));
        return;
    }
    let mut lens = vec![];
    c.lib("packets.len", || m.with_packets(&mut |it| lens.push((it.len(), it.size_hint(), it.count()))));
    if let Some(pk) = c.lib("packets", || m.packets()) {
        judge_packets(c, "", &d, &pk);
        let n = pk.len();
        c.check(lens == [(n, (n, Some(n)), n)], "number of packets", || format!("{} has {n} packets: {lens:?}", hexw(&d)));
        for p in &pk {
            judge_packet(c, p);
        }
    }
    // the same through the family and the general message
    for fam in [true, false] {
        let who = if fam { "family " } else { "general " };
        if fam && !U::families().contains(&spec.family) {
            continue;
        }
        let v = c.lib(who, || if fam { U::parse_family(spec.family, &s) } else { U::parse_general(&s) });
        if let Some(Some(v)) = v {
            if let Some(pk) = &v.packets {
                judge_packets(c, who, U::as_words(&v.data).unwrap(), pk);
            }
        }
    }
    // and from a message edited in place
    if spec.is_multi() && c.rng.chance(1, 3) {
        let bk = *c.rng.pick(&[Bk::CVec, Bk::Sticky, Bk::Fixed, Bk::Lim, Bk::Slice]);
        let n = spec.min + c.rng.below(100);
        let mut store = gen::dirt(spec, &mut c.rng, n);
        let made = c.lib("new", || k.make(bk, &mut store));
        if let Some(Ok(mut m)) = made {
            for _ in 0..1 + c.rng.below(3) {
                let e = if spec.text.is_some() {
                    let l = gen::rand_len(&mut c.rng, 13, 80);
                    Edit::Text(gen::rand_text(&mut c.rng, l))
                } else {
                    let x = c.lib("payload_size", || m.payload_size()).unwrap_or(0);
                    rand_edit::<U>(spec, &mut c.rng, x, 60)
                };
                input(|| format!("{bk:?} {e:?}"));
                let _ = c.lib(e.label(), || e.apply(&mut *m));
            }
            if let (Some(d), Some(pk)) = (c.lib("data", || m.data()), c.lib("packets", || m.packets())) {
                judge_packets(c, "edited ", U::as_words(&d).unwrap(), &pk);
                for p in &pk {
                    judge_packet(c, p);
                }
            }
        }
    }
    let mut h = Hash64::new();
    for x in &d {
        h.add(*x as u64);
        c.dig.add(*x as u64);
    }
    c.seen(h.0);
    c.sample(|| hexw(&d));
}
/// Arbitrary words as a packet.
fn p12_words(c: &mut Case) {
    let n = match c.rng.below(4) {
        0 => c.rng.below(4),
        1 => 4,
        _ => c.rng.below(9),
    };
    let mut d: Vec<u32> = (0..n).map(|_| c.rng.word()).collect();
    if let Some(w) = d.first_mut() {
        if c.rng.chance(5, 6) {
            *w = (*w & 0x0FFF_FFFF) | c.rng.pick(&FAMS).1 << 28;
        }
        if c.rng.chance(3, 4) && matches!(*w >> 28, 3 | 5) {
            *w = (*w & !0x00F0_0000) | (c.rng.below(5) as u32) << 20;
        }
    }
    if c.rng.chance(1, 6) {
        // the packets which end a stream unexpectedly
        d = vec![0x5030_0000 | c.rng.u32() & 0x0F00_FF00, 0, 0, 0];
        d[0] |= *c.rng.pick(&[1, 15, 15, 2, 14]) << 16;
        if c.rng.chance(1, 3) {
            let i = c.rng.below(4);
            d[i] |= 1 << c.rng.below(8);
        }
    }
    input(|| hexw(&d));
    let want = accepts_packet(&d);
    let mt = d.first().map(|w| w >> 28);
    let fam = mt.and_then(|m| FAMS.iter().find(|f| f.1 == m)).map(|f| f.0).filter(|f| have(f));
    let set = (c.rng.below(16) as u8, c.rng.below(16) as u8);
    let g = c.lib("packet", || <AnyPacket as TryFrom<&[u32]>>::try_from(&d).ok().map(|p| p.deref().to_vec()));
    let Some(g) = g else { return };
    c.dig.add(g.is_some() as u64);
    if let Some(w) = &g {
        for x in w {
            c.dig.add(*x as u64);
        }
    }
    match want {
        Some(w) => {
            let w = w && fam.is_some();
            c.check(g.is_some() == w, "general packet: decision", || format!("{}: accepted={}", hexw(&d), g.is_some()));
            c.ev(if w { "packets accepted" } else { "packets refused" });
        }
        None => c.ev("packets cut short (not judged)"),
    }
    if let (Some(w), Some(true)) = (&g, want) {
        let n = words_of(mt.unwrap()).unwrap();
        c.check(w[..] == d[..n], "general packet: words", || format!("{} became {}", hexw(&d), hexw(w)));
    }
    for (f, fmt) in FAMS {
        if !have(f) {
            continue;
        }
        let Some(v) = c.lib(f, || family_packet(f, &d, set)) else { continue };
        let mine = mt == Some(fmt);
        match want {
            Some(w) => {
                c.check(v.is_some() == (w && mine), &format!("{f} packet: decision"), || format!("{}: accepted={}", hexw(&d), v.is_some()));
            }
            None if !mine => {
                c.check(v.is_none(), &format!("{f} packet: decision"), || format!("{}: accepted", hexw(&d)));
            }
            None => {}
        }
        if mine && want == Some(true) && v.is_some() {
            judge_packet(c, &d[..words_of(fmt).unwrap()]);
            let v = v.unwrap().0;
            c.check(v == model(&d[..words_of(fmt).unwrap()]), &format!("{f} packet: view"), || format!("{}: {v:x?}", hexw(&d)));
        }
    }
    c.seen(Hash64::new().add(mt.unwrap_or(99) as u64).add(d.len() as u64).add(d.first().map(|w| w >> 16).unwrap_or(0) as u64).0);
    c.sample(|| hexw(&d));
}
pub fn p12(v: &mut Vec<UnitDef>) {
    for k in tables::ump_kinds() {
        let q = if k.spec().is_multi() { 3000 } else { 1000 };
        let name = format!("P12/{}.{}.ump", k.spec().family, k.spec().name);
        v.push(unit(name, q, q * 200, move |c| p12_kind::<u32>(&*k, c)));
    }
    v.push(unit("P12/words", 60_000, 20_000_000, p12_words));
}

// ------------------------------------------------------------------ P13
#[derive(Clone, Copy, Debug)]
enum Step {
    Next,
    Nth(usize),
    Hint,
    Count,
    Last,
    Fold,
    Collect,
}
fn script(r: &mut Rng) -> Vec<Step> {
    let mut v = vec![];
    for _ in 0..1 + r.below(14) {
        v.push(match r.below(10) {
            0..=3 => Step::Next,
            4 | 5 => Step::Hint,
            _ => Step::Nth(skip(r)),
        });
    }
    v.push(Step::Hint);
    match r.below(6) {
        0 => v.push(Step::Count),
        1 => v.push(Step::Last),
        2 => v.push(Step::Fold),
        3 => v.push(Step::Collect),
        _ => {
            // to the end, and beyond
            v.extend([Step::Nth(usize::MAX), Step::Hint, Step::Next, Step::Nth(0), Step::Nth(3), Step::Next, Step::Hint]);
        }
    }
    v
}
/// What stepping one by one yields, with the hints seen on the way.
fn stepped(it: &mut Box<dyn Scan + '_>) -> (Vec<u64>, Vec<(usize, Option<usize>, Option<usize>)>, [Option<u64>; 2]) {
    let (mut v, mut h) = (vec![], vec![]);
    loop {
        let (a, b) = it.s_hint();
        h.push((a, b, it.s_len()));
        match it.s_next() {
            Some(x) => v.push(x),
            None => break,
        }
        if v.len() > ITER_CAP {
            panic!("iterator does not terminate");
        }
    }
    let e = [it.s_next(), it.s_nth(1)];
    (v, h, e)
}
fn hint_ok(left: usize, lo: usize, hi: Option<usize>, len: Option<usize>) -> bool {
    lo <= left && hi.is_none_or(|h| h >= left) && len.is_none_or(|l| l == left)
}
/// Watch an iterator: `open` hands out a fresh one each time.
fn watch(c: &mut Case, who: &str, what: &dyn Fn() -> String, expect: Option<Vec<u64>>, open: &dyn Fn(&mut dyn FnMut(Box<dyn Scan + '_>))) {
    let mut base = None;
    c.lib(&format!("{who}.next"), || open(&mut |mut it| base = Some(stepped(&mut it))));
    let Some((items, hints, ended)) = base else { return };
    c.ev("iterators walked");
    c.evn("iterator items", items.len() as u64);
    for x in &items {
        c.dig.add(*x);
    }
    if let Some(e) = expect {
        c.check(items == e, &format!("{who}: items"), || format!("{}: {items:x?}, expected {e:x?}", what()));
    }
    for (i, (lo, hi, len)) in hints.iter().enumerate() {
        let left = items.len() - i.min(items.len());
        c.check(hint_ok(left, *lo, *hi, *len), &format!("{who}: size hint"), || format!("{} with {left} items left: {lo}, {hi:?}, len {len:?}", what()));
    }
    c.check(ended == [None, None], &format!("{who}: after the end"), || format!("{}: {ended:x?}", what()));
    for _ in 0..2 {
        let sc = script(&mut c.rng);
        let mut log: Vec<(Step, String)> = vec![];
        let mut bad: Option<(String, String)> = None;
        let items = &items;
        let r = c.lib(&format!("{who}.script"), || {
            open(&mut |it| {
                let mut it = Some(it);
                let mut pos = 0usize;
                for s in &sc {
                    let left = items.len() - pos;
                    let (what, ok, out) = match *s {
                        Step::Next | Step::Nth(_) => {
                            let n = if let Step::Nth(n) = *s { n } else { 0 };
                            let got = if let Step::Nth(n) = *s { it.as_mut().unwrap().s_nth(n) } else { it.as_mut().unwrap().s_next() };
                            let want = if n < left { Some(items[pos + n]) } else { None };
                            pos = if n < left { pos + n + 1 } else { items.len() };
                            ("skip", got == want, format!("{got:x?} want {want:x?}"))
                        }
                        Step::Hint => {
                            let (lo, hi) = it.as_ref().unwrap().s_hint();
                            let len = it.as_ref().unwrap().s_len();
                            ("size hint after skips", hint_ok(left, lo, hi, len), format!("{lo} {hi:?} {len:?} left {left}"))
                        }
                        fin => {
                            let how = match fin {
                                Step::Count => Fin::Count,
                                Step::Last => Fin::Last,
                                Step::Fold => Fin::Fold,
                                _ => Fin::Collect,
                            };
                            let want = match fin {
                                Step::Count => FinOut::Count(left),
                                Step::Last => FinOut::Last(items[pos..].last().copied()),
                                _ => FinOut::Items(items[pos..].to_vec()),
                            };
                            let got = it.take().unwrap().s_finish(how);
                            ("rest", got == want, format!("{got:x?} want {want:x?}"))
                        }
                    };
                    log.push((*s, out.clone()));
                    if !ok && bad.is_none() {
                        bad = Some((what.to_string(), out));
                    }
                    if it.is_none() || !ok {
                        break;
                    }
                }
            })
        });
        c.ev("iterator scripts");
        if r.is_none() {
            return;
        }
        if let Some((k, out)) = bad {
            c.fail(&format!("{who}: {k}"), format!("{}: {log:?} {out}", what()));
        } else {
            c.rec.evs.entry("oracle comparisons").and_modify(|x| *x += log.len() as u64);
        }
        let mut h = Hash64::new();
        h.str(who).add(items.len() as u64);
        for s in &sc {
            h.add(match s {
                Step::Next => 1,
                Step::Nth(n) => 100 + *n as u64 % 64,
                Step::Hint => 2,
                _ => 3,
            });
        }
        c.seen(h.0);
    }
}
fn p13_msg<U: Agg>(spec: &Spec, c: &mut Case, m: &dyn DynMsg<U>, content: Option<Vec<u8>>) {
    let Some(d) = c.lib("data", || m.data()) else { return };
    let what = || U::hex(&d);
    let exp = content.map(|p| p.iter().map(|b| *b as u64).collect::<Vec<_>>());
    if spec.text.is_some() {
        watch(c, "text bytes", &what, exp.clone(), &|f| m.scan_text(f));
    }
    if spec.sx != Sx::No {
        watch(c, "payload", &what, exp, &|f| m.scan_payload(f));
    }
    if let Some(w) = U::as_words(&d) {
        if let Some(n) = w.first().and_then(|w| words_of(w >> 28)) {
            let keys = if w.len() % n == 0 { Some(w.chunks(n).map(words_key).collect()) } else { None };
            watch(c, "packets", &what, keys, &|f| m.scan_packets(f));
        }
    }
}
fn p13_kind<U: Agg>(k: &dyn KindObj<U>, c: &mut Case) {
    c.dirty_growth();
    let spec = k.spec();
    let max = if c.rng.chance(1, 6) { 300 } else { gen::reach(&mut c.rng, 70) };
    let (s, exp) = match c.rng.below(4) {
        0 => (gen::hostile::<U>(spec, &mut c.rng), None),
        _ => {
            let w = gen::wf::<U>(spec, &mut c.rng, max, false);
            (w.data, Some(w.content))
        }
    };
    input(|| U::hex(&s));
    if let Some(Some(m)) = c.lib("interpret", || k.parse(&s)) {
        p13_msg(spec, c, &*m, exp);
        c.sample(|| U::hex(&s));
    }
    if spec.is_multi() && c.rng.chance(1, 2) {
        // a message edited in place (spare room in the buffer)
        let bk = *c.rng.pick(&Bk::all());
        let n = if bk == Bk::Array { *c.rng.pick(k.arrays()) } else { spec.min + c.rng.below(LIMN - spec.min) };
        let mut store = gen::dirt(spec, &mut c.rng, n);
        let made = c.lib("new", || k.make(bk, &mut store));
        if let Some(Ok(mut m)) = made {
            for _ in 0..1 + c.rng.below(3) {
                let e = if spec.text.is_some() {
                    let l = gen::rand_len(&mut c.rng, 13, 120);
                    Edit::Text(gen::rand_text(&mut c.rng, l))
                } else {
                    let x = c.lib("payload_size", || m.payload_size()).unwrap_or(0);
                    rand_edit::<U>(spec, &mut c.rng, x, 90)
                };
                input(|| format!("{bk:?} {e:?}"));
                let _ = c.lib(e.label(), || e.apply(&mut *m));
            }
            p13_msg(spec, c, &*m, None);
        }
    }
}
/// Payload iterators of single packets.
#[cfg(any(feature = "sysex7", feature = "sysex8"))]
fn p13_packet(c: &mut Case) {
    let sx8 = if cfg!(not(feature = "sysex7")) { true } else { cfg!(feature = "sysex8") && c.rng.chance(1, 2) };
    let mut d: Vec<u32> = (0..4).map(|_| c.rng.word()).collect();
    d[0] = (d[0] & 0x0F0F_FFFF) | if sx8 { 5 << 28 } else { 3 << 28 } | (c.rng.below(4) as u32) << 20;
    if c.rng.chance(1, 10) {
        d = vec![0x503F_0000 | c.rng.u32() & 0x0F00_FF00, 0, 0, 0];
    }
    if accepts_packet(&d) != Some(true) {
        return;
    }
    input(|| hexw(&d));
    let n = words_of(d[0] >> 28).unwrap();
    let exp: Vec<u64> = model(&d[..n]).payload.unwrap().iter().map(|b| *b as u64).collect();
    let what = || hexw(&d);
    match d[0] >> 28 {
        #[cfg(feature = "sysex7")]
        3 => {
            if let Some(Ok(p)) = c.lib("packet", || midi2::sysex7::Packet::try_from(&d[..])) {
                watch(c, "packet payload", &what, Some(exp), &|f| f(scan_exact(p.payload(), |x| u8::from(x) as u64)));
            }
        }
        #[cfg(feature = "sysex8")]
        5 => {
            if let Some(Ok(p)) = c.lib("packet", || midi2::sysex8::Packet::try_from(&d[..])) {
                watch(c, "packet payload", &what, Some(exp), &|f| f(scan_exact(p.payload(), |x| x as u64)));
            }
        }
        _ => {}
    }
    c.sample(what);
}
pub fn p13(v: &mut Vec<UnitDef>) {
    each_kind!(v, "P13", 2500, 400_000, p13_kind, |s| s.is_multi());
    let k: Vec<_> = tables::ump_kinds().into_iter().filter(|k| !k.spec().is_multi()).collect();
    v.push(unit("P13/single-packet.ump", 4000, 400_000, move |c| {
        if k.is_empty() {
            return;
        }
        let i = c.rng.below(k.len());
        p13_kind::<u32>(&*k[i], c)
    }));
    #[cfg(any(feature = "sysex7", feature = "sysex8"))]
    v.push(unit("P13/packet-payload.ump", 20_000, 4_000_000, p13_packet));
}
