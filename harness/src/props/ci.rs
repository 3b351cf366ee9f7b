//! P18: capability-inquiry discovery messages against a plain byte image.
use crate::alloc::watch;
use crate::bufs::*;
use crate::core::*;
use midi2::buffer::{BufferMut, Bytes};
use midi2::ci::*;
use midi2::prelude::*;

/// The fields of a discovery message, as plain numbers.
#[derive(Clone, Debug, PartialEq, Default)]
struct Model {
    src: u32,
    man: [u8; 3],
    fam: u16,
    model: u16,
    soft: [u8; 4],
    // process inquiry, property exchange, profile configuration, protocol negotiation
    sup: [bool; 4],
    max: u32,
    out: u8,
    // bits of the support byte that belong to no field
    spare: u8,
}
fn lsb7(v: u32, n: usize) -> Vec<u8> {
    (0..n).map(|i| ((v >> (7 * i)) & 0x7F) as u8).collect()
}
impl Model {
    fn image(&self, version: u8) -> Vec<u8> {
        let mut v = vec![0xF0, 0x7E, 0x7F, 0x0D, 0x70, version];
        v.extend(lsb7(self.src, 4));
        v.extend([0x7F; 4]);
        v.extend(self.man);
        v.extend(lsb7(self.fam as u32, 2));
        v.extend(lsb7(self.model as u32, 2));
        v.extend(self.soft);
        let s = self.sup;
        v.push(self.spare | (s[0] as u8) << 4 | (s[1] as u8) << 3 | (s[2] as u8) << 2 | (s[3] as u8) << 1);
        v.extend(lsb7(self.max, 4));
        if version == 2 {
            v.push(self.out);
        }
        v.push(0xF7);
        v
    }
    fn random(r: &mut Rng) -> Model {
        let mut m = Model::default();
        for f in 0..10 {
            m.put(f, r);
        }
        m
    }
    fn put(&mut self, field: usize, r: &mut Rng) {
        match field {
            0 => self.src = r.bits(28) as u32,
            1 => self.man = [0; 3].map(|_: u8| r.bits(7) as u8),
            2 => self.fam = r.bits(14) as u16,
            3 => self.model = r.bits(14) as u16,
            4 => self.soft = [0; 4].map(|_: u8| r.bits(7) as u8),
            5..=8 => self.sup[field - 5] = r.chance(1, 2),
            9 => self.max = r.bits(28) as u32,
            _ => self.out = r.bits(7) as u8,
        }
    }
}
trait Version<const V: u8, B: Bytes> {
    fn fields(&self) -> Model;
    fn shared(&self) -> (DeviceId, u32, u32);
    fn set(&mut self, field: usize, m: &Model)
    where
        B: BufferMut;
}
macro_rules! version {
    ($v:literal, $out:expr, $setout:expr) => {
        impl<B: Bytes> Version<$v, B> for DiscoveryQuery<$v, B> {
            fn fields(&self) -> Model {
                Model {
                    src: u32::from(self.source()),
                    man: self.device_manufacturer().map(u8::from),
                    fam: u16::from(self.device_family()),
                    model: u16::from(self.model_number()),
                    soft: self.software_version().map(u8::from),
                    sup: [
                        self.process_inquiry_supported(),
                        self.property_exchange_supported(),
                        self.profile_configuration_supported(),
                        self.protocol_negotiation_supported(),
                    ],
                    max: u32::from(self.max_sysex_size()),
                    out: ($out)(self),
                    spare: 0,
                }
            }
            fn shared(&self) -> (DeviceId, u32, u32) {
                (self.device_id(), u32::from(self.source()), u32::from(self.destination()))
            }
            fn set(&mut self, field: usize, m: &Model)
            where
                B: BufferMut,
            {
                match field {
                    0 => self.set_source(u28::new(m.src)),
                    1 => self.set_device_manufacturer(m.man.map(u7::new)),
                    2 => self.set_device_family(u14::new(m.fam)),
                    3 => self.set_model_number(u14::new(m.model)),
                    4 => self.set_software_version(m.soft.map(u7::new)),
                    5 => self.set_process_inquiry_supported(m.sup[0]),
                    6 => self.set_property_exchange_supported(m.sup[1]),
                    7 => self.set_profile_configuration_supported(m.sup[2]),
                    8 => self.set_protocol_negotiation_supported(m.sup[3]),
                    9 => self.set_max_sysex_size(u28::new(m.max)),
                    _ => ($setout)(self, m.out),
                }
            }
        }
    };
}
version!(1, |_: &DiscoveryQuery<1, B>| 0, |_: &mut DiscoveryQuery<1, B>, _: u8| unreachable!());
version!(2, |m: &DiscoveryQuery<2, B>| u8::from(m.output_path_id()), |m: &mut DiscoveryQuery<2, B>, v: u8| m.set_output_path_id(u7::new(v)));

const HEAD: [&str; 11] = [
    "source", "device manufacturer", "device family", "model number", "software version", "process inquiry", "property exchange",
    "profile configuration", "protocol negotiation", "maximum message size", "output path",
];

fn observe<const V: u8, B: Bytes>(c: &mut Case, m: &DiscoveryQuery<V, B>, want: &Model, what: &str)
where
    DiscoveryQuery<V, B>: Version<V, B>,
{
    let img = want.image(V);
    let Some(d) = c.lib("data", || m.data().to_vec()) else { return };
    c.check(d == img, &format!("{what}: raw data"), || format!("{} should be {}", hexb(&d), hexb(&img)));
    let plain = Model { spare: 0, ..want.clone() };
    if let Some(f) = c.lib("getters", || m.fields()) {
        c.check(f == plain, &format!("{what}: getters"), || format!("{f:?} should be {plain:?}"));
    }
    if let Some((id, s, d)) = c.lib("shared getters", || m.shared()) {
        c.check(id == DeviceId::FunctionBlock && s == want.src && d == 0x0FFF_FFFF, &format!("{what}: common fields"), || format!("{id:?} {s:x} {d:x}"));
    }
    if let Some(p) = c.lib("payload", || m.payload().map(u8::from).collect::<Vec<u8>>()) {
        c.check(p == img[1..img.len() - 1], &format!("{what}: payload"), || hexb(&p));
    }
    c.dig.add(hash_bytes(&d));
}
fn hash_bytes(d: &[u8]) -> u64 {
    let mut h = Hash64::new();
    for b in d {
        h.add(*b as u64);
    }
    h.0
}
/// Everything a reader can do with the raw data of a built message.
fn reread<const V: u8, const O: u8>(c: &mut Case, data: &[u8], want: &Model)
where
    for<'a> DiscoveryQuery<V, &'a [u8]>: Version<V, &'a [u8]>,
    DiscoveryQuery<V, CVec<u8>>: Version<V, CVec<u8>>,
    DiscoveryQuery<V, Lim<u8, 64>>: Version<V, Lim<u8, 64>>,
{
    let r = c.lib("interpret", || watch(|| DiscoveryQuery::<V, &[u8]>::try_from(data)));
    match r {
        Some(Ok(m)) => {
            observe(c, &m, want, "reinterpreted");
            if let Some(k) = c.lib("rebuffer", || DiscoveryQuery::<V, CVec<u8>>::rebuffer_from(m.clone())) {
                observe(c, &k, want, "rebuffered");
            }
            for cap in [data.len() - 1, data.len(), data.len() + 3] {
                let r = c.lib("fallible rebuffer", || {
                    with_lim_cap(cap, || DiscoveryQuery::<V, Lim<u8, 64>>::try_rebuffer_from(m.clone()))
                });
                match r {
                    Some(Ok(k)) => {
                        c.check(cap >= data.len(), "fallible rebuffer into too little", || format!("{cap} of {}", data.len()));
                        observe(c, &k, want, "fallibly rebuffered")
                    }
                    Some(Err(_)) => {
                        c.check(cap < data.len(), "fallible rebuffer refused", || format!("{cap} for {}", data.len()));
                    }
                    None => {}
                }
            }
        }
        Some(Err(e)) => c.fail("built message refused", format!("{}: {e:?}", hexb(data))),
        None => {}
    }
    if let Some(o) = c.lib("interpret as the other version", || DiscoveryQuery::<O, &[u8]>::try_from(data).is_ok()) {
        c.check(!o, "accepted as the other version", || hexb(data));
    }
    if let Some(s) = c.lib("interpret as system exclusive", || midi2::sysex7::Sysex7::<&[u8]>::try_from(data).map(|m| m.data().to_vec()).ok()) {
        c.check(s.as_deref() == Some(data), "not a system exclusive message", || hexb(data));
    }
}
fn history<const V: u8, const O: u8, B: Bytes + BufferMut>(c: &mut Case, mut m: DiscoveryQuery<V, B>, start: Model, what: &str)
where
    DiscoveryQuery<V, B>: Version<V, B>,
    for<'a> DiscoveryQuery<V, &'a [u8]>: Version<V, &'a [u8]>,
    DiscoveryQuery<V, CVec<u8>>: Version<V, CVec<u8>>,
    DiscoveryQuery<V, Lim<u8, 64>>: Version<V, Lim<u8, 64>>,
{
    let mut want = start;
    observe(c, &m, &want, what);
    let fields = if V == 2 { 11 } else { 10 };
    let n = c.rng.range(1, 14);
    for _ in 0..n {
        let f = c.rng.below(fields);
        let mut r = c.rng.clone();
        want.put(f, &mut r);
        c.rng = r;
        input(|| format!("{what}: set {} in {want:?}", HEAD[f]));
        if c.lib(HEAD[f], || watch(|| m.set(f, &want))).is_none() {
            return;
        }
        c.ev("fields set");
        let img = want.image(V);
        let Some(d) = c.lib("data", || m.data().to_vec()) else { return };
        c.check(d == img, &format!("{}: raw data", HEAD[f]), || format!("{} should be {}", hexb(&d), hexb(&img)));
        let plain = Model { spare: 0, ..want.clone() };
        if let Some(g) = c.lib("getters", || watch(|| m.fields())) {
            c.check(g == plain, &format!("{}: getters", HEAD[f]), || format!("{g:?} should be {plain:?}"));
        }
        c.seen(hash_bytes(&d));
    }
    observe(c, &m, &want, what);
    let d = want.image(V);
    if c.lib("data", || m.data().to_vec()).as_deref() == Some(&d[..]) {
        reread::<V, O>(c, &d, &want);
    }
    c.sample(|| format!("{what} v{V}: {}", hexb(&d)));
}
macro_rules! build {
    ($f:ident, $v:literal, $o:literal, $min:literal) => {
        fn $f(c: &mut Case) {
            let dirt: Vec<u8> = (0..c.rng.range(0, 80)).map(|_| c.rng.u8()).collect();
            macro_rules! made {
                ($what:literal, $e:expr) => {{
                    if let Some(m) = c.lib($what, || $e) {
                        history::<$v, $o, _>(c, m, Model::default(), $what);
                    }
                }};
            }
            match c.idx % 10 {
                0 => made!("new", DiscoveryQuery::<$v, StdVec<u8>>::new()),
                1 => made!("new with buffer", DiscoveryQuery::<$v, StdVec<u8>>::new_with_buffer(std_vec(dirt.clone()))),
                2 => made!("new, user buffer", DiscoveryQuery::<$v, CVec<u8>>::new()),
                3 => made!("new with user buffer", DiscoveryQuery::<$v, CVec<u8>>::new_with_buffer(CVec(dirt.clone()))),
                4 => made!("new with long user buffer", DiscoveryQuery::<$v, Sticky<u8>>::new_with_buffer(Sticky(dirt.clone()))),
                5 => made!("try new, array", DiscoveryQuery::<$v, [u8; $min]>::try_new().expect("the array has the size of the message")),
                6 => made!("try new, longer array", DiscoveryQuery::<$v, [u8; $min + 9]>::try_new().expect("the array exceeds the message")),
                7 | 8 => {
                    // any capacity
                    let cap = if c.rng.chance(1, 2) { dirt.len() } else { c.rng.range($min - 3, $min + 3) };
                    let mut b = dirt.clone();
                    b.resize(cap, 0xA5);
                    let tail = b.clone();
                    let r = c.lib("try new with borrowed buffer", || watch(|| DiscoveryQuery::<$v, &mut [u8]>::try_new_with_buffer(&mut b[..])));
                    match r {
                        Some(Ok(m)) => {
                            c.check(cap >= $min, "built in too small a buffer", || format!("{cap} bytes"));
                            if cap >= $min {
                                history::<$v, $o, _>(c, m, Model::default(), "try new with borrowed buffer");
                                c.check(b[$min..] == tail[$min..], "wrote beyond the message", || hexb(&b));
                            }
                        }
                        Some(Err(_)) => {
                            c.check(cap < $min, "sufficient buffer refused", || format!("{cap} bytes"));
                            c.ev("overflows");
                        }
                        None => {}
                    }
                }
                9 => {
                    let cap = c.rng.range($min - 3, $min + 6);
                    let r = c.lib("try new with limited buffer", || {
                        watch(|| DiscoveryQuery::<$v, Lim<u8, 64>>::try_new_with_buffer(Lim::with_cap(cap)))
                    });
                    match r {
                        Some(Ok(m)) => {
                            c.check(cap >= $min, "built in too small a buffer", || format!("{cap} bytes"));
                            history::<$v, $o, _>(c, m, Model::default(), "try new with limited buffer");
                        }
                        Some(Err(_)) => {
                            c.check(cap < $min, "sufficient buffer refused", || format!("{cap} bytes"));
                            c.ev("overflows");
                        }
                        None => {}
                    }
                }
                _ => c.ev("buffer kind not in this configuration"),
            }
        }
    };
}
build!(build1, 1, 2, 31);
build!(build2, 2, 1, 32);

macro_rules! edit {
    ($f:ident, $v:literal, $o:literal) => {
        /// Editing an accepted message whose spare bits are set.
        fn $f(c: &mut Case) {
            let mut r = c.rng.clone();
            let mut m = Model::random(&mut r);
            if $v == 2 {
                m.put(10, &mut r);
            }
            m.spare = r.u8() & 0x61;
            c.rng = r;
            let d = m.image($v);
            input(|| hexb(&d));
            match c.lib("interpret", || DiscoveryQuery::<$v, &[u8]>::try_from(&d[..])) {
                Some(Ok(q)) => {
                    if let Some(q) = c.lib("rebuffer", || DiscoveryQuery::<$v, CVec<u8>>::rebuffer_from(q)) {
                        history::<$v, $o, _>(c, q, m, "accepted message");
                    }
                }
                Some(Err(e)) => c.fail("well-formed message refused", format!("{}: {e:?}", hexb(&d))),
                None => {}
            }
        }
    };
}
edit!(edit1, 1, 2);
edit!(edit2, 2, 1);

fn wellformed(d: &[u8], v: u8) -> Option<bool> {
    let min = 30 + v as usize;
    // the message ends at the first status byte
    let Some(e) = d.iter().skip(1).position(|b| *b >= 0x80).map(|e| e + 1) else { return Some(false) };
    if d[0] != 0xF0 || d[e] != 0xF7 || e + 1 < min {
        return Some(false);
    }
    let head = d[1..6] == [0x7E, 0x7F, 0x0D, 0x70, v] && d[10..14] == [0x7F; 4];
    if head && e + 1 > min {
        return None; // fields of a later revision: not judged
    }
    Some(head)
}
macro_rules! parse {
    ($f:ident, $v:literal, $min:literal) => {
        fn $f(c: &mut Case) {
            let mut r = c.rng.clone();
            let mut m = Model::random(&mut r);
            m.out = r.bits(7) as u8;
            m.spare = r.u8() & 0x61;
            let mut d = m.image(if r.chance(1, 8) { 3 - $v } else { $v });
            match r.below(9) {
                0 => {}
                1 => {
                    // one byte changed
                    let i = r.below(d.len());
                    d[i] = r.u8();
                }
                2 => {
                    let i = r.below(14);
                    d[i] ^= 1 << r.below(8);
                }
                3 => d.truncate(r.below($min + 1)),
                4 => {
                    // premature end, something behind it
                    let i = r.range(1, d.len() - 1);
                    d[i] = 0xF7;
                    for x in &mut d[i + 1..] {
                        if r.chance(1, 3) {
                            *x = r.u8();
                        }
                    }
                }
                5 => {
                    for _ in 0..r.range(1, 9) {
                        d.push(r.u8());
                    }
                }
                6 => {
                    let i = r.range(1, d.len());
                    for _ in 0..r.range(1, 9) {
                        d.insert(i, r.u8() & 0x7F);
                    }
                }
                7 => {
                    let i = r.below(d.len());
                    d.remove(i);
                    if r.chance(1, 2) {
                        d.push(r.u8());
                    }
                }
                _ => {
                    for _ in 0..r.range(1, 4) {
                        let i = r.below(d.len());
                        d[i] = r.u8();
                    }
                }
            }
            c.rng = r;
            input(|| hexb(&d));
            let Some(g) = c.lib("interpret", || watch(|| DiscoveryQuery::<$v, &[u8]>::try_from(&d[..]))) else { return };
            let want = wellformed(&d, $v);
            c.dig.add(g.is_ok() as u64);
            match want {
                None => c.ev("unjudged slices"),
                Some(w) => {
                    c.ev(if w { "well-formed slices" } else { "ill-formed slices" });
                    c.check(g.is_ok() == w, if w { "well-formed slice refused" } else { "ill-formed slice accepted" }, || hexb(&d));
                }
            }
            c.seen(hash_bytes(&d));
            c.sample(|| format!("{} -> {}", hexb(&d), if g.is_ok() { "accepted" } else { "refused" }));
            if let Ok(q) = g {
                let f = c.lib("getters", || q.fields());
                let _ = c.lib("shared getters", || q.shared());
                let _ = c.lib("clone", || q.clone() == q);
                let _ = c.lib("debug", || format!("{q:?}").len());
                let _ = c.lib("payload", || q.payload().count());
                let data = c.lib("data", || q.data().to_vec()).unwrap_or_default();
                if let (Some(f), Some(true)) = (f, want) {
                    // the fields of the slice itself
                    let le = |a: usize, n: usize| (0..n).fold(0u32, |s, i| s | (d[a + i] as u32) << (7 * i));
                    let w = Model {
                        src: le(6, 4),
                        man: [d[14], d[15], d[16]],
                        fam: le(17, 2) as u16,
                        model: le(19, 2) as u16,
                        soft: [d[21], d[22], d[23], d[24]],
                        sup: [d[25] & 0x10 != 0, d[25] & 0x08 != 0, d[25] & 0x04 != 0, d[25] & 0x02 != 0],
                        max: le(26, 4),
                        out: if $v == 2 { d[30] } else { 0 },
                        spare: 0,
                    };
                    c.check(f == w, "field of an accepted slice", || format!("{f:?} should be {w:?}"));
                    c.check(data == d[..$min], "raw data of an accepted slice", || hexb(&data));
                }
            }
        }
    };
}
parse!(parse1, 1, 31);
parse!(parse2, 2, 32);

pub fn p18(v: &mut Vec<UnitDef>) {
    v.push(unit("P18/build.v1", 6000, 400_000, build1));
    v.push(unit("P18/build.v2", 6000, 400_000, build2));
    v.push(unit("P18/edit.v1", 6000, 400_000, edit1));
    v.push(unit("P18/edit.v2", 6000, 400_000, edit2));
    v.push(unit("P18/interpret.v1", 30000, 3_000_000, parse1));
    v.push(unit("P18/interpret.v2", 30000, 3_000_000, parse2));
}

/// No operation on discovery messages allocates (the watched ones exclude growing a buffer).
pub fn p16(v: &mut Vec<UnitDef>) {
    fn watched(c: &mut Case, f: fn(&mut Case)) {
        let _ = crate::alloc::take();
        f(c);
        // the histories are judged by P18
        c.fails.clear();
        let (calls, n) = crate::alloc::take();
        c.evn("operations watched", calls);
        c.check(n == 0, "discovery message", || format!("{n} heap allocations in {calls} operations"));
    }
    v.push(unit("P16/ci.v1", 600, 100_000, |c| watched(c, build1)));
    v.push(unit("P16/ci.v2", 600, 100_000, |c| watched(c, build2)));
    v.push(unit("P16/ci.interpret", 600, 100_000, |c| watched(c, if c.idx % 2 == 0 { parse1 } else { parse2 })));
}
