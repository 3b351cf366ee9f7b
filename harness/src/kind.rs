//! Message types as table entries: an independent wire-format specification plus
//! type-erased access to the real library type over many buffer kinds.
use crate::alloc::watch;
use crate::bufs::*;
use crate::core::mask;
use midi2::buffer::*;
use midi2::error::{BufferOverflow, InvalidData};
use midi2::Data;
use std::fmt::Debug;
use std::hash::Hash;
use std::marker::PhantomData;

pub trait Un: Unit + Copy + Default + Eq + Debug + Hash + Into<u64> + Send + Sync + 'static {
    const BITS: u32;
    fn from64(v: u64) -> Self;
    fn hex(v: &[Self]) -> String;
    fn as_words(_v: &[Self]) -> Option<&[u32]> {
        None
    }
    fn as_bytes(_v: &[Self]) -> Option<&[u8]> {
        None
    }
}
impl Un for u8 {
    const BITS: u32 = 8;
    fn from64(v: u64) -> u8 {
        v as u8
    }
    fn hex(v: &[u8]) -> String {
        crate::core::hexb(v)
    }
    fn as_bytes(v: &[u8]) -> Option<&[u8]> {
        Some(v)
    }
}
impl Un for u32 {
    const BITS: u32 = 32;
    fn from64(v: u64) -> u32 {
        v as u32
    }
    fn hex(v: &[u32]) -> String {
        crate::core::hexw(v)
    }
    fn as_words(v: &[u32]) -> Option<&[u32]> {
        Some(v)
    }
}

// ------------------------------------------------------------------ spec
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cls {
    Plain,
    Attr,
    Bank,
    Controller,
    Tonic,
    KeySF,
    ChordSF,
    ChordType,
    Alter,
    Midi1Port,
    Direction,
    OptChan,
}
/// (unit index, shift, width) most significant piece first
pub type Piece = (usize, u32, u32);
#[derive(Clone, Debug)]
pub struct Field {
    pub name: &'static str,
    pub cls: Cls,
    pub pieces: Vec<Piece>,
}
const CONTROLLERS: [u64; 22] = [1, 2, 3, 7, 8, 10, 11, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 91, 92, 93, 94, 95];
/// Named aliases of sound controllers and effect depths: (alias number, controller index)
pub const CTRL_ALIAS: [(u64, u64); 12] = [
    (0, 70), (1, 71), (2, 72), (3, 73), (4, 74), (5, 75), (6, 76), (7, 77), (8, 78), (9, 79), (10, 91), (11, 93),
];
impl Field {
    pub fn width(&self) -> u32 {
        self.pieces.iter().map(|p| p.2).sum()
    }
    /// Raw bits at the field's defined position.
    pub fn raw<U: Un>(&self, d: &[U]) -> u64 {
        let mut v = 0u64;
        for (i, s, w) in &self.pieces {
            let x: u64 = d[*i].into();
            v = (v << w) | ((x >> s) & mask(*w));
        }
        v
    }
    pub fn put<U: Un>(&self, d: &mut [U], raw: u64) {
        let mut rest = self.width();
        for (i, s, w) in &self.pieces {
            rest -= w;
            let bits = (raw >> rest) & mask(*w);
            let x: u64 = d[*i].into();
            let m = mask(*w) << s;
            d[*i] = U::from64((x & !m) | (bits << s));
        }
    }
    /// Is this raw pattern a defined code?
    pub fn valid(&self, raw: u64) -> bool {
        match self.cls {
            Cls::Attr => (raw >> 16) <= 3,
            Cls::Controller => CONTROLLERS.contains(&(raw >> 32)),
            Cls::Tonic => raw <= 7,
            Cls::ChordSF => matches!(raw, 0 | 1 | 2 | 0xE | 0xF),
            Cls::ChordType => raw <= 0x1A,
            Cls::Alter => (raw >> 4) <= 4,
            Cls::Midi1Port => raw <= 2,
            Cls::Direction => raw >= 1,
            _ => true,
        }
    }
    /// The code a getter must return for a raw pattern.
    pub fn canon(&self, raw: u64) -> u64 {
        match self.cls {
            Cls::Attr if raw >> 16 == 0 => 0,
            Cls::Bank if raw >> 14 == 0 => 0,
            Cls::Alter if raw >> 4 == 0 => 0,
            Cls::OptChan if raw >> 4 != 0 => 0x10,
            _ => raw,
        }
    }
    /// Raw bits a setter must store for a code (codes above the raw width are API aliases).
    pub fn enc(&self, code: u64) -> u64 {
        match self.cls {
            Cls::KeySF if code == 0x10 => 0,
            Cls::Controller if code >> 40 != 0 => {
                let alias = (code >> 40) - 1;
                (CTRL_ALIAS[alias as usize].1 << 32) | (code & 0xFFFF_FFFF)
            }
            _ => code,
        }
    }
    /// Bits of the raw pattern that carry no meaning for this code.
    pub fn free(&self, code: u64) -> u64 {
        match self.cls {
            Cls::Attr if code >> 16 == 0 => 0xFFFF,
            Cls::Bank if code >> 14 == 0 => 0x3FFF,
            _ => 0,
        }
    }
    /// Reserved bits sharing the field's octets which a setter may rewrite.
    pub fn slack<U: Un>(&self, d: &mut [U]) {
        if self.cls == Cls::Bank {
            let x: u64 = d[1].into();
            d[1] = U::from64(x & !0x8080);
        }
    }
    pub fn rand_raw(&self, r: &mut crate::core::Rng) -> u64 {
        loop {
            let raw = match self.cls {
                Cls::Controller => (*r.pick(&CONTROLLERS) << 32) | r.bits(32),
                Cls::Attr => (r.below(4) as u64) << 16 | r.bits(16),
                _ => r.bits(self.width()),
            };
            if self.valid(raw) {
                return raw;
            }
        }
    }
    pub fn rand_bad_raw(&self, r: &mut crate::core::Rng) -> Option<u64> {
        if matches!(self.cls, Cls::Plain | Cls::Bank | Cls::KeySF | Cls::OptChan) {
            return None;
        }
        loop {
            let raw = match self.cls {
                Cls::Controller => (r.bits(8) << 32) | r.bits(32),
                Cls::Attr => r.bits(8) << 16 | r.bits(16),
                _ => r.bits(self.width()),
            };
            if !self.valid(raw) {
                return Some(raw);
            }
        }
    }
    /// A code a user can give to the setter.
    pub fn rand_code(&self, r: &mut crate::core::Rng) -> u64 {
        match self.cls {
            Cls::Controller if r.chance(1, 4) => ((1 + r.below(CTRL_ALIAS.len()) as u64) << 40) | r.bits(32),
            Cls::KeySF if r.chance(1, 12) => 0x10,
            _ => {
                let raw = self.rand_raw(r);
                self.canon(raw)
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct TextSpec {
    /// bytes of text per packet
    pub per: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sx {
    No,
    S7Ump,
    S7Bytes,
    S8,
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub name: &'static str,
    pub family: &'static str,
    pub variant: &'static str,
    pub min: usize,
    pub pkt: usize,
    pub hdr: Vec<(usize, u64, u64)>,
    /// header bits a fixed-size type does not look at although another value is not produced
    pub fields: Vec<Field>,
    pub text: Option<TextSpec>,
    pub sx: Sx,
}
impl Spec {
    pub fn is_multi(&self) -> bool {
        self.text.is_some() || self.sx != Sx::No
    }
    pub fn field(&self, n: &str) -> Option<usize> {
        self.fields.iter().position(|f| f.name == n)
    }
    pub fn put_hdr<U: Un>(&self, d: &mut [U]) {
        for (i, m, v) in &self.hdr {
            let x: u64 = d[*i].into();
            d[*i] = U::from64((x & !m) | v);
        }
        if self.group_addressed() {
            let x: u64 = d[0].into();
            if x & 0x0030_0000 == 0 {
                d[0] = U::from64(x | 0x0010_0000);
            }
        }
    }
    /// Flex data messages which always address a whole group: the address field is 1
    /// (0 would address a channel).
    pub fn group_addressed(&self) -> bool {
        matches!(self.name, "SetTempo" | "SetTimeSignature" | "SetMetronome")
    }
    /// Units a complete message occupies by the specification (the table's `min` is what the
    /// library declares; they differ for one type, a known finding).
    pub fn true_min(&self) -> usize {
        if self.name == "FunctionBlockDiscovery" {
            4
        } else {
            self.min
        }
    }
    pub fn hdr_ok<U: Un>(&self, d: &[U]) -> bool {
        self.hdr.iter().all(|(i, m, v)| {
            let x: u64 = d[*i].into();
            x & m == *v
        }) && (!self.group_addressed() || {
            let x: u64 = d[0].into();
            x & 0x0030_0000 != 0
        })
    }
    /// Acceptance of a minimum-size single-packet message, by the specification.
    pub fn accepts_fixed<U: Un>(&self, d: &[U]) -> bool {
        d.len() >= self.min && self.hdr_ok(d) && self.fields.iter().all(|f| f.valid(f.raw(d)))
    }
    /// Random well-formed minimum-size message with arbitrary reserved bits.
    pub fn rand_fixed<U: Un>(&self, r: &mut crate::core::Rng) -> Vec<U> {
        let mut d: Vec<U> = (0..self.min).map(|_| U::from64(r.word() as u64)).collect();
        if r.chance(1, 3) {
            d.iter_mut().for_each(|x| *x = U::from64(0));
        }
        if U::BITS == 8 {
            // data bytes of the byte-stream representation are 7 bit
            d.iter_mut().for_each(|x| {
                let v: u64 = (*x).into();
                *x = U::from64(v & 0x7F)
            });
        }
        self.put_hdr(&mut d);
        for f in &self.fields {
            let raw = f.rand_raw(r);
            f.put(&mut d, raw);
        }
        d
    }
}

// ------------------------------------------------------------------ codes
pub trait Code {
    fn code(self) -> u64;
    fn decode(c: u64) -> Self;
}
macro_rules! code_int { ($($t:ty),*) => {$( impl Code for $t { fn code(self)->u64 { self as u64 } fn decode(c:u64)->Self { c as $t } } )*} }
code_int!(u8, u16, u32);
impl Code for bool {
    fn code(self) -> u64 {
        self as u64
    }
    fn decode(c: u64) -> bool {
        c != 0
    }
}
macro_rules! code_ux { ($($t:ident $r:ty),*) => {$( impl Code for midi2::ux::$t { fn code(self)->u64 { <$r>::from(self) as u64 } fn decode(c:u64)->Self { midi2::ux::$t::new(c as $r) } } )*} }
code_ux!(u4 u8, u7 u8, u14 u16, u20 u32, u28 u32);
impl<const N: usize> Code for [midi2::ux::u7; N] {
    fn code(self) -> u64 {
        self.iter().fold(0, |a, x| (a << 7) | u8::from(*x) as u64)
    }
    fn decode(c: u64) -> Self {
        let mut o = [midi2::ux::u7::new(0); N];
        for (i, x) in o.iter_mut().enumerate() {
            *x = midi2::ux::u7::new(((c >> (7 * (N - 1 - i))) & 0x7F) as u8);
        }
        o
    }
}
#[cfg(feature = "channel-voice2")]
mod cv2_codes {
    use super::*;
    use midi2::channel_voice2::{Controller as C, NoteAttribute as A};
    use midi2::num::{Fixed7_25, Fixed7_9};
    impl Code for Option<A> {
        fn code(self) -> u64 {
            match self {
                None => 0,
                Some(A::ManufacturerSpecific(d)) => 1 << 16 | d as u64,
                Some(A::ProfileSpecific(d)) => 2 << 16 | d as u64,
                Some(A::Pitch7_9(d)) => 3 << 16 | d.to_bits() as u64,
                Some(_) => u64::MAX,
            }
        }
        fn decode(c: u64) -> Self {
            let d = c as u16;
            match c >> 16 {
                0 => None,
                1 => Some(A::ManufacturerSpecific(d)),
                2 => Some(A::ProfileSpecific(d)),
                _ => Some(A::Pitch7_9(Fixed7_9::from_bits(d))),
            }
        }
    }
    impl Code for Option<midi2::ux::u14> {
        fn code(self) -> u64 {
            match self {
                None => 0,
                Some(v) => 1 << 14 | u16::from(v) as u64,
            }
        }
        fn decode(c: u64) -> Self {
            if c >> 14 == 0 {
                None
            } else {
                Some(midi2::ux::u14::new((c & 0x3FFF) as u16))
            }
        }
    }
    impl Code for C {
        fn code(self) -> u64 {
            let (i, d) = match self {
                C::Modulation(d) => (1, d),
                C::Breath(d) => (2, d),
                C::Pitch7_25(d) => (3, d.to_bits()),
                C::Volume(d) => (7, d),
                C::Balance(d) => (8, d),
                C::Pan(d) => (10, d),
                C::Expression(d) => (11, d),
                C::SoundVariation(d) => (70, d),
                C::Timbre(d) => (71, d),
                C::ReleaseTime(d) => (72, d),
                C::AttackTime(d) => (73, d),
                C::Brightness(d) => (74, d),
                C::DecayTime(d) => (75, d),
                C::VebratoRate(d) => (76, d),
                C::VebratoDepth(d) => (77, d),
                C::VebratoDelay(d) => (78, d),
                C::Undefined(d) => (79, d),
                C::ReverbSendLevel(d) => (91, d),
                C::ChorusSendLevel(d) => (93, d),
                C::SoundController { index, data } if (1..=10).contains(&index) => (69 + index as u64, data),
                C::EffectDepth { index, data } if (1..=5).contains(&index) => (90 + index as u64, data),
                _ => (0xFFFF, 0),
            };
            i << 32 | d as u64
        }
        fn decode(c: u64) -> Self {
            let d = c as u32;
            if c >> 40 != 0 {
                return match (c >> 40) - 1 {
                    0 => C::SoundVariation(d),
                    1 => C::Timbre(d),
                    2 => C::ReleaseTime(d),
                    3 => C::AttackTime(d),
                    4 => C::Brightness(d),
                    5 => C::DecayTime(d),
                    6 => C::VebratoRate(d),
                    7 => C::VebratoDepth(d),
                    8 => C::VebratoDelay(d),
                    9 => C::Undefined(d),
                    10 => C::ReverbSendLevel(d),
                    _ => C::ChorusSendLevel(d),
                };
            }
            match c >> 32 {
                1 => C::Modulation(d),
                2 => C::Breath(d),
                3 => C::Pitch7_25(Fixed7_25::from_bits(d)),
                7 => C::Volume(d),
                8 => C::Balance(d),
                10 => C::Pan(d),
                11 => C::Expression(d),
                i @ 70..=79 => C::SoundController { index: (i - 69) as u8, data: d },
                i => C::EffectDepth { index: (i - 90) as u8, data: d },
            }
        }
    }
}
#[cfg(feature = "flex-data")]
mod flex_codes {
    use super::*;
    use midi2::flex_data as fx;
    use midi2::ux::{u3, u4};
    impl Code for Option<u4> {
        fn code(self) -> u64 {
            match self {
                None => 0x10,
                Some(c) => u8::from(c) as u64,
            }
        }
        fn decode(c: u64) -> Self {
            if c >> 4 != 0 {
                None
            } else {
                Some(u4::new(c as u8))
            }
        }
    }
    impl Code for fx::Tonic {
        fn code(self) -> u64 {
            use fx::Tonic::*;
            match self {
                NonStandard => 0,
                A => 1,
                B => 2,
                C => 3,
                D => 4,
                E => 5,
                F => 6,
                G => 7,
            }
        }
        fn decode(c: u64) -> Self {
            use fx::Tonic::*;
            [NonStandard, A, B, C, D, E, F, G][c as usize]
        }
    }
    impl Code for fx::SetKeySignatureSharpsFlats {
        fn code(self) -> u64 {
            use fx::SetKeySignatureSharpsFlats::*;
            match self {
                Sharps(n) => u8::from(n) as u64,
                NonStandard => 8,
                Flats(n) => (16 - u8::from(n) as u64) & 0x1F,
            }
        }
        fn decode(c: u64) -> Self {
            use fx::SetKeySignatureSharpsFlats::*;
            match c {
                0..=7 => Sharps(u3::new(c as u8)),
                8 => NonStandard,
                _ => Flats(u3::new((16 - c) as u8)),
            }
        }
    }
    impl Code for fx::SetChordNameSharpsFlats {
        fn code(self) -> u64 {
            use fx::SetChordNameSharpsFlats::*;
            match self {
                Natural => 0,
                Sharp => 1,
                DoubleSharp => 2,
                DoubleFlat => 0xE,
                Flat => 0xF,
            }
        }
        fn decode(c: u64) -> Self {
            use fx::SetChordNameSharpsFlats::*;
            match c {
                0 => Natural,
                1 => Sharp,
                2 => DoubleSharp,
                0xE => DoubleFlat,
                _ => Flat,
            }
        }
    }
    macro_rules! chord { ($($n:ident),*) => {
        impl Code for fx::ChordType {
            fn code(self)->u64 { use fx::ChordType::*; let all=[$($n),*]; all.iter().position(|x| *x==self).unwrap() as u64 }
            fn decode(c:u64)->Self { use fx::ChordType::*; [$($n),*][c as usize] }
        }
    } }
    chord!(
        ClearChord, Major, Major6th, Major7th, Major9th, Major11th, Major13th, Minor, Minor6th, Minor7th, Minor9th,
        Minor11th, Minor13th, Dominant, Dominant9th, Dominant11th, Dominant13th, Augmented, Augmented7th, Diminished,
        Diminished7th, HalfDiminished, MajorMinor, Pedal, Power, Suspended2nd, Suspended4th
    );
    impl Code for Option<fx::Alteration> {
        fn code(self) -> u64 {
            use fx::Alteration::*;
            match self {
                None => 0,
                Some(Add(d)) => 0x10 | u8::from(d) as u64,
                Some(Subtract(d)) => 0x20 | u8::from(d) as u64,
                Some(Raise(d)) => 0x30 | u8::from(d) as u64,
                Some(Lower(d)) => 0x40 | u8::from(d) as u64,
            }
        }
        fn decode(c: u64) -> Self {
            use fx::Alteration::*;
            let d = u4::new((c & 0xF) as u8);
            match c >> 4 {
                0 => None,
                1 => Some(Add(d)),
                2 => Some(Subtract(d)),
                3 => Some(Raise(d)),
                _ => Some(Lower(d)),
            }
        }
    }
}
#[cfg(feature = "ump-stream")]
mod stream_codes {
    use super::*;
    use midi2::ump_stream as us;
    impl Code for us::UiHint {
        fn code(self) -> u64 {
            use us::UiHint::*;
            match self {
                Undeclared => 0,
                Receiver => 1,
                Sender => 2,
                SenderReciever => 3,
            }
        }
        fn decode(c: u64) -> Self {
            use us::UiHint::*;
            [Undeclared, Receiver, Sender, SenderReciever][c as usize]
        }
    }
    impl Code for Option<us::Midi1Port> {
        fn code(self) -> u64 {
            match self {
                None => 0,
                Some(us::Midi1Port::DontRestrictBandwidth) => 1,
                Some(us::Midi1Port::RestrictBandwidth) => 2,
            }
        }
        fn decode(c: u64) -> Self {
            match c {
                0 => None,
                1 => Some(us::Midi1Port::DontRestrictBandwidth),
                _ => Some(us::Midi1Port::RestrictBandwidth),
            }
        }
    }
    impl Code for us::Direction {
        fn code(self) -> u64 {
            use us::Direction::*;
            match self {
                Input => 1,
                Output => 2,
                Bidirectional => 3,
            }
        }
        fn decode(c: u64) -> Self {
            use us::Direction::*;
            [Input, Input, Output, Bidirectional][c as usize]
        }
    }
}

/// What comparing and printing two messages (or packets) said.
#[derive(Clone, Debug, PartialEq)]
pub struct Same {
    /// answers to "are they equal"
    pub eq: Vec<bool>,
    /// answers to "is a copy equal to its original"
    pub copy: Vec<bool>,
    pub dbg: Vec<(String, String)>,
}
impl Same {
    pub fn join(&mut self, o: Same) {
        self.eq.extend(o.eq);
        self.copy.extend(o.copy);
        self.dbg.extend(o.dbg);
    }
}
#[allow(clippy::nonminimal_bool)]
pub fn same_pair<M: Clone + PartialEq + Debug>(x: &M, y: &M) -> Same {
    let (c, d) = (x.clone(), y.clone());
    Same {
        eq: vec![x == y, y == x, !(x != y), !(y != x), c == *y, c == d],
        copy: vec![c == *x, *x == c, d == *y, x == x],
        dbg: vec![(format!("{x:?}"), format!("{y:?}")), (format!("{c:?}"), format!("{d:?}"))],
    }
}

// ------------------------------------------------------------------ kinds
pub trait Kind: Send + Sync + 'static {
    type U: Un;
    type M<B: Buffer<Unit = Self::U>>: Data<B>;
    fn spec() -> Spec;
    fn get<B: Buffer<Unit = Self::U>>(m: &Self::M<B>, f: usize) -> u64;
    fn set<B: Buffer<Unit = Self::U> + BufferMut>(m: &mut Self::M<B>, f: usize, v: u64);
    fn parse(s: &[Self::U]) -> Result<Self::M<&[Self::U]>, InvalidData>;
    fn new_resize<B: Buffer<Unit = Self::U> + BufferMut + BufferDefault + BufferResize>() -> Self::M<B>;
    fn new_with<B: Buffer<Unit = Self::U> + BufferMut + BufferResize>(b: B) -> Self::M<B>;
    fn try_new_with<B: Buffer<Unit = Self::U> + BufferMut + BufferTryResize>(b: B) -> Result<Self::M<B>, BufferOverflow>;
    fn try_new<B: Buffer<Unit = Self::U> + BufferMut + BufferDefault + BufferTryResize>() -> Result<Self::M<B>, BufferOverflow>;
    fn rebuf<A: Buffer<Unit = Self::U>, B: Buffer<Unit = Self::U> + FromBuffer<A>>(m: Self::M<A>) -> Self::M<B>;
    fn try_rebuf<A: Buffer<Unit = Self::U>, B: Buffer<Unit = Self::U> + TryFromBuffer<A>>(m: Self::M<A>) -> Result<Self::M<B>, BufferOverflow>;
    fn new_array(n: usize) -> Option<Box<dyn DynMsg<Self::U>>>;
    /// array_rebuffer of a message over any buffer
    fn arr_rebuf<A: Buffer<Unit = Self::U>>(m: Self::M<A>, n: usize) -> Option<Box<dyn DynMsg<Self::U>>>;
    /// Rebuffer from every array size: (resizable from array), ok only for listed sizes
    fn arrays() -> &'static [usize];
    fn try_array(m: Self::M<&[Self::U]>, n: usize) -> Option<Result<Box<dyn DynMsg<Self::U>>, BufferOverflow>>;
    fn try_array_mut(m: Self::M<&mut [Self::U]>, n: usize) -> Option<Result<Box<dyn DynMsg<Self::U>>, BufferOverflow>>;
    #[cfg(feature = "std")]
    fn try_array_vec(m: Self::M<Vec<Self::U>>, n: usize) -> Option<Result<Box<dyn DynMsg<Self::U>>, BufferOverflow>>;
    /// messages in arrays moved elsewhere
    fn array_sources(j: &mut dyn Mover<Self::U>);
    fn packets<B: Buffer<Unit = Self::U>>(m: &Self::M<B>, f: &mut dyn FnMut(midi2::PacketsIterator));
    fn dbg<B: Buffer<Unit = Self::U>>(m: &Self::M<B>, w: &mut dyn std::fmt::Write);
    /// clone / compare a borrowed message
    fn same(m: &Self::M<&[Self::U]>) -> bool;
    /// the outcome of comparing and printing two accepted messages
    fn compare(a: &[Self::U], b: &[Self::U]) -> Option<Same>;
    /// edit a copy of an accepted message: data of the original and of the copy
    fn edit_copy(s: &[Self::U], edits: &[(usize, u64)]) -> Option<(Vec<Self::U>, Vec<Self::U>, bool)>;
    fn text_bytes<B: Buffer<Unit = Self::U>>(_m: &Self::M<B>, _f: &mut dyn FnMut(&mut dyn Iterator<Item = u8>)) -> bool {
        false
    }
    fn text<B: Buffer<Unit = Self::U>>(_m: &Self::M<B>) -> Option<String> {
        None
    }
    fn set_text<B: Buffer<Unit = Self::U> + BufferMut + BufferResize>(_m: &mut Self::M<B>, _t: &str) {}
    fn try_set_text<B: Buffer<Unit = Self::U> + BufferMut + BufferTryResize>(_m: &mut Self::M<B>, _t: &str) -> Result<(), BufferOverflow> {
        Ok(())
    }
    /// the text iterator itself
    fn scan_text<B: Buffer<Unit = Self::U>>(_m: &Self::M<B>, _f: &mut dyn FnMut(Box<dyn Scan + '_>)) {}
    /// the payload iterator itself
    fn scan_payload<B: Buffer<Unit = Self::U>>(_m: &Self::M<B>, _f: &mut dyn FnMut(Box<dyn Scan + '_>)) {}
    /// payload edits of system exclusive messages
    fn payload<B: Buffer<Unit = Self::U>>(_m: &Self::M<B>, _f: &mut dyn FnMut(&mut dyn PayIter)) {}
    fn payload_size<B: Buffer<Unit = Self::U>>(_m: &Self::M<B>) -> usize {
        0
    }
    fn edit<B: Buffer<Unit = Self::U> + BufferMut + BufferResize>(_m: &mut Self::M<B>, _op: &SxOp) {}
    fn try_edit<B: Buffer<Unit = Self::U> + BufferMut + BufferTryResize>(_m: &mut Self::M<B>, _op: &SxOp) -> Result<(), BufferOverflow> {
        Ok(())
    }
    fn set_byte<B: Buffer<Unit = Self::U> + BufferMut>(_m: &mut Self::M<B>, _i: usize, _v: u8) {}
}

pub trait PayIter {
    fn p_next(&mut self) -> Option<u8>;
    fn p_nth(&mut self, n: usize) -> Option<u8>;
    fn p_size_hint(&self) -> (usize, Option<usize>);
    fn p_len(&self) -> usize;
    fn p_count(&self) -> usize;
    fn p_clone(&self) -> Box<dyn PayIter + '_>;
}
pub struct PI<I>(pub I);
impl<I> PayIter for PI<I>
where
    I: ExactSizeIterator + Clone,
    u8: From<I::Item>,
{
    fn p_next(&mut self) -> Option<u8> {
        self.0.next().map(u8::from)
    }
    fn p_nth(&mut self, n: usize) -> Option<u8> {
        self.0.nth(n).map(u8::from)
    }
    fn p_size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn p_len(&self) -> usize {
        self.0.len()
    }
    fn p_count(&self) -> usize {
        self.0.clone().count()
    }
    fn p_clone(&self) -> Box<dyn PayIter + '_> {
        Box::new(PI(self.0.clone()))
    }
}

/// Any iterator handed out by the library, with access to the provided methods it may override.
pub enum Fin {
    Count,
    Last,
    Fold,
    Collect,
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum FinOut {
    Count(usize),
    Last(Option<u64>),
    Items(Vec<u64>),
}
pub trait Scan {
    fn s_next(&mut self) -> Option<u64>;
    fn s_nth(&mut self, n: usize) -> Option<u64>;
    fn s_hint(&self) -> (usize, Option<usize>);
    fn s_len(&self) -> Option<usize>;
    fn s_finish(self: Box<Self>, how: Fin) -> FinOut;
}
pub struct It<I: Iterator> {
    pub it: I,
    pub len: Option<fn(&I) -> usize>,
    pub key: fn(I::Item) -> u64,
}
impl<I: Iterator> Scan for It<I> {
    fn s_next(&mut self) -> Option<u64> {
        self.it.next().map(self.key)
    }
    fn s_nth(&mut self, n: usize) -> Option<u64> {
        self.it.nth(n).map(self.key)
    }
    fn s_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn s_len(&self) -> Option<usize> {
        self.len.map(|l| l(&self.it))
    }
    fn s_finish(self: Box<Self>, how: Fin) -> FinOut {
        let key = self.key;
        match how {
            Fin::Count => FinOut::Count(self.it.count()),
            Fin::Last => FinOut::Last(self.it.last().map(key)),
            Fin::Fold => FinOut::Items(self.it.fold(vec![], |mut v, x| {
                v.push(key(x));
                v
            })),
            Fin::Collect => FinOut::Items(self.it.map(key).collect()),
        }
    }
}
pub fn scan_exact<'a, I: ExactSizeIterator + 'a>(it: I, key: fn(I::Item) -> u64) -> Box<dyn Scan + 'a> {
    Box::new(It { it, len: Some(|i| i.len()), key })
}
pub fn scan_plain<'a, I: Iterator + 'a>(it: I, key: fn(I::Item) -> u64) -> Box<dyn Scan + 'a> {
    Box::new(It { it, len: None, key })
}
pub fn words_key(w: &[u32]) -> u64 {
    let mut h = crate::core::Hash64::new();
    for x in w {
        h.add(*x as u64);
    }
    h.0
}

/// How the data iterator given to an edit describes its own length.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Src {
    Exact,
    /// no upper bound, lower bound below the truth by the given amount
    Lower(usize),
    /// upper bound above the truth by the given amount
    Upper(usize),
}
#[derive(Clone, Debug)]
pub enum SxOp {
    Set(Vec<u8>, Src),
    Splice(Vec<u8>, Src, std::ops::Bound<usize>, std::ops::Bound<usize>),
    Insert(Vec<u8>, Src, usize),
    Append(Vec<u8>, Src),
    AppendByte(u8),
}
#[derive(Clone)]
pub struct SrcIter<'a> {
    pub d: &'a [u8],
    pub i: usize,
    pub src: Src,
}
impl Iterator for SrcIter<'_> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let r = self.d.get(self.i).copied();
        self.i += 1;
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.d.len().saturating_sub(self.i);
        match self.src {
            Src::Exact => (n, Some(n)),
            Src::Lower(k) => (n.saturating_sub(k), None),
            Src::Upper(k) => (0, Some(n + k)),
        }
    }
}

// ------------------------------------------------------------------ erased handles
pub trait DynMsg<U> {
    fn data(&self) -> Vec<U>;
    fn data_len(&self) -> usize;
    fn get(&self, f: usize) -> u64;
    fn set(&mut self, f: usize, v: u64);
    fn packets(&self) -> Vec<Vec<u32>>;
    fn with_packets(&self, f: &mut dyn FnMut(midi2::PacketsIterator));
    fn text(&self) -> Option<String>;
    fn text_bytes(&self) -> Vec<u8>;
    fn with_text_bytes(&self, f: &mut dyn FnMut(&mut dyn Iterator<Item = u8>)) -> bool;
    fn set_text(&mut self, t: &str) -> Result<(), ()>;
    fn scan_text(&self, f: &mut dyn FnMut(Box<dyn Scan + '_>));
    fn scan_payload(&self, f: &mut dyn FnMut(Box<dyn Scan + '_>));
    fn scan_packets(&self, f: &mut dyn FnMut(Box<dyn Scan + '_>));
    fn payload(&self) -> Vec<u8>;
    fn with_payload(&self, f: &mut dyn FnMut(&mut dyn PayIter));
    fn payload_size(&self) -> usize;
    fn edit(&mut self, op: &SxOp) -> Result<(), ()>;
    fn set_byte(&mut self, i: usize, v: u8);
    fn dbg(&self) -> String;
    fn dbg_to(&self, w: &mut dyn std::fmt::Write);
}
pub const ITER_CAP: usize = 1 << 20;
fn collect_payload<K: Kind, B: Buffer<Unit = K::U>>(m: &K::M<B>) -> Vec<u8> {
    let mut v = vec![];
    K::payload::<B>(m, &mut |it| {
        while let Some(x) = it.p_next() {
            v.push(x);
            if v.len() > ITER_CAP {
                panic!("payload iterator does not terminate");
            }
        }
    });
    v
}
macro_rules! dyn_common {
    () => {
        fn data(&self) -> Vec<K::U> {
            Data::data(&self.m).to_vec()
        }
        fn data_len(&self) -> usize {
            Data::data(&self.m).len()
        }
        fn get(&self, f: usize) -> u64 {
            K::get(&self.m, f)
        }
        fn packets(&self) -> Vec<Vec<u32>> {
            let mut v = vec![];
            K::packets(&self.m, &mut |it| {
                for p in it {
                    v.push(p.to_vec());
                    if v.len() > ITER_CAP {
                        panic!("packets iterator does not terminate");
                    }
                }
            });
            v
        }
        fn with_packets(&self, f: &mut dyn FnMut(midi2::PacketsIterator)) {
            K::packets(&self.m, f)
        }
        fn text(&self) -> Option<String> {
            K::text(&self.m)
        }
        fn text_bytes(&self) -> Vec<u8> {
            let mut v = vec![];
            K::text_bytes(&self.m, &mut |it| {
                for x in it {
                    v.push(x);
                    if v.len() > ITER_CAP {
                        panic!("text iterator does not terminate");
                    }
                }
            });
            v
        }
        fn with_text_bytes(&self, f: &mut dyn FnMut(&mut dyn Iterator<Item = u8>)) -> bool {
            K::text_bytes(&self.m, f)
        }
        fn scan_text(&self, f: &mut dyn FnMut(Box<dyn Scan + '_>)) {
            K::scan_text(&self.m, f)
        }
        fn scan_payload(&self, f: &mut dyn FnMut(Box<dyn Scan + '_>)) {
            K::scan_payload(&self.m, f)
        }
        fn scan_packets(&self, f: &mut dyn FnMut(Box<dyn Scan + '_>)) {
            K::packets(&self.m, &mut |it| f(scan_exact(it, |p| words_key(&p))))
        }
        fn payload(&self) -> Vec<u8> {
            collect_payload::<K, B>(&self.m)
        }
        fn with_payload(&self, f: &mut dyn FnMut(&mut dyn PayIter)) {
            K::payload(&self.m, f)
        }
        fn payload_size(&self) -> usize {
            K::payload_size(&self.m)
        }
        fn dbg_to(&self, w: &mut dyn std::fmt::Write) {
            K::dbg(&self.m, w)
        }
        fn dbg(&self) -> String {
            let mut s = String::new();
            K::dbg(&self.m, &mut s);
            s
        }
    };
}
/// read only
pub struct RO<K: Kind, B: Buffer<Unit = K::U>> {
    pub m: K::M<B>,
}
impl<K: Kind, B: Buffer<Unit = K::U>> DynMsg<K::U> for RO<K, B> {
    dyn_common!();
    fn set(&mut self, _: usize, _: u64) {
        unimplemented!()
    }
    fn set_text(&mut self, _: &str) -> Result<(), ()> {
        unimplemented!()
    }
    fn edit(&mut self, _: &SxOp) -> Result<(), ()> {
        unimplemented!()
    }
    fn set_byte(&mut self, _: usize, _: u8) {
        unimplemented!()
    }
}
/// growable
pub struct RH<K: Kind, B: Buffer<Unit = K::U>> {
    pub m: K::M<B>,
}
impl<K: Kind, B: Buffer<Unit = K::U> + BufferMut + BufferResize> DynMsg<K::U> for RH<K, B> {
    dyn_common!();
    fn set(&mut self, f: usize, v: u64) {
        K::set(&mut self.m, f, v)
    }
    fn set_text(&mut self, t: &str) -> Result<(), ()> {
        K::set_text(&mut self.m, t);
        Ok(())
    }
    fn edit(&mut self, op: &SxOp) -> Result<(), ()> {
        K::edit(&mut self.m, op);
        Ok(())
    }
    fn set_byte(&mut self, i: usize, v: u8) {
        K::set_byte(&mut self.m, i, v)
    }
}
/// size limited
pub struct TH<K: Kind, B: Buffer<Unit = K::U>> {
    pub m: K::M<B>,
}
impl<K: Kind, B: Buffer<Unit = K::U> + BufferMut + BufferTryResize> DynMsg<K::U> for TH<K, B> {
    dyn_common!();
    fn set(&mut self, f: usize, v: u64) {
        K::set(&mut self.m, f, v)
    }
    fn set_text(&mut self, t: &str) -> Result<(), ()> {
        K::try_set_text(&mut self.m, t).map_err(|_| ())
    }
    fn edit(&mut self, op: &SxOp) -> Result<(), ()> {
        K::try_edit(&mut self.m, op).map_err(|_| ())
    }
    fn set_byte(&mut self, i: usize, v: u8) {
        K::set_byte(&mut self.m, i, v)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bk {
    CVec,
    CVecWith,
    Sticky,
    Vec,
    VecWith,
    MutVec,
    Fixed,
    Slice,
    Lim,
    Array,
}
impl Bk {
    pub fn all() -> Vec<Bk> {
        vec![Bk::CVec, Bk::CVecWith, Bk::Sticky, Bk::Fixed, Bk::Slice, Bk::Lim, Bk::Array, Bk::Vec, Bk::VecWith, Bk::MutVec]
    }
    /// a growable standard vector given by the user
    pub fn vec_with(self) -> bool {
        matches!(self, Bk::VecWith | Bk::MutVec)
    }
    pub fn limited(self) -> bool {
        matches!(self, Bk::Fixed | Bk::Slice | Bk::Lim | Bk::Array)
    }
}
pub const LIMN: usize = 160;

/// Fills a message held in some buffer, and is told what became of it elsewhere.
pub trait Mover<U> {
    fn fill(&mut self, m: &mut dyn DynMsg<U>, backing: usize);
    fn moved(&mut self, label: &str, cap: usize, r: Option<&dyn DynMsg<U>>);
    /// units of the message filled last
    fn len(&self) -> usize;
}

/// The type-erased kind.
pub trait KindObj<U: Un>: Send + Sync {
    fn spec(&self) -> &Spec;
    fn accepts(&self, s: &[U]) -> bool;
    fn parse<'a>(&self, s: &'a [U]) -> Option<Box<dyn DynMsg<U> + 'a>>;
    fn same(&self, s: &[U]) -> bool;
    fn compare(&self, a: &[U], b: &[U]) -> Option<Same>;
    fn edit_copy(&self, s: &[U], edits: &[(usize, u64)]) -> Option<(Vec<U>, Vec<U>, bool)>;
    /// New message in a buffer of the kind; `store` is the (possibly dirty) memory for
    /// user-provided buffers, its length the capacity.
    fn make<'a>(&self, bk: Bk, store: &'a mut Vec<U>) -> Result<Box<dyn DynMsg<U> + 'a>, ()>;
    /// Copy of an accepted message into a buffer of the kind (kinds that can be built from a slice).
    fn copy<'a>(&self, bk: Bk, s: &[U], n: usize) -> Option<Result<Box<dyn DynMsg<U> + 'a>, ()>>;
    fn arrays(&self) -> &'static [usize];
    /// All rebuffer paths from an accepted slice: (label, result)
    fn rebuffers(&self, s: &[U], f: &mut dyn FnMut(&str, usize, Result<Box<dyn DynMsg<U>>, ()>));
    /// Messages built in arrays and in mutable slices of `n` units, moved elsewhere.
    fn sources(&self, n: usize, j: &mut dyn Mover<U>);
}
pub struct KO<K: Kind>(pub Spec, pub PhantomData<K>);
pub fn ko<K: Kind>() -> Box<dyn KindObj<K::U>> {
    Box::new(KO::<K>(K::spec(), PhantomData))
}
impl<K: Kind> KindObj<K::U> for KO<K> {
    fn spec(&self) -> &Spec {
        &self.0
    }
    fn accepts(&self, s: &[K::U]) -> bool {
        K::parse(s).is_ok()
    }
    fn parse<'a>(&self, s: &'a [K::U]) -> Option<Box<dyn DynMsg<K::U> + 'a>> {
        K::parse(s).ok().map(|m| Box::new(RO::<K, &'a [K::U]> { m }) as _)
    }
    fn compare(&self, a: &[K::U], b: &[K::U]) -> Option<Same> {
        K::compare(a, b)
    }
    fn edit_copy(&self, s: &[K::U], edits: &[(usize, u64)]) -> Option<(Vec<K::U>, Vec<K::U>, bool)> {
        K::edit_copy(s, edits)
    }
    fn same(&self, s: &[K::U]) -> bool {
        match K::parse(s) {
            Ok(m) => K::same(&m),
            Err(_) => true,
        }
    }
    fn make<'a>(&self, bk: Bk, store: &'a mut Vec<K::U>) -> Result<Box<dyn DynMsg<K::U> + 'a>, ()> {
        let e = |_| ();
        Ok(match bk {
            Bk::CVec => Box::new(RH::<K, CVec<K::U>> { m: clear(|| K::new_resize()) }),
            Bk::CVecWith => Box::new(RH::<K, CVec<K::U>> { m: K::new_with(CVec(store.clone())) }),
            Bk::Sticky => Box::new(RH::<K, Sticky<K::U>> { m: K::new_with(Sticky(store.clone())) }),
            Bk::Vec => Box::new(RH::<K, StdVec<K::U>> { m: clear(|| K::new_resize()) }),
            Bk::VecWith => Box::new(RH::<K, StdVec<K::U>> { m: K::new_with(std_vec(store.clone())) }),
            #[cfg(not(feature = "std"))]
            Bk::MutVec => Box::new(RH::<K, StdVec<K::U>> { m: K::new_with(std_vec(store.clone())) }),
            #[cfg(feature = "std")]
            Bk::MutVec => Box::new(RH::<K, &'a mut Vec<K::U>> { m: K::new_with(store) }),
            Bk::Fixed => Box::new(TH::<K, Fixed<K::U>> { m: K::try_new_with(Fixed(store.clone())).map_err(e)? }),
            Bk::Slice => Box::new(TH::<K, &'a mut [K::U]> { m: watch(|| K::try_new_with(&mut store[..])).map_err(e)? }),
            Bk::Lim => {
                let m = with_lim_cap(store.len(), || clear(|| watch(|| K::try_new::<Lim<K::U, LIMN>>()))).map_err(e)?;
                Box::new(TH::<K, Lim<K::U, LIMN>> { m })
            }
            Bk::Array => {
                let n = *K::arrays().iter().filter(|n| **n <= store.len()).max().ok_or(())?;
                K::new_array(n).ok_or(())?
            }
        })
    }
    fn copy<'a>(&self, bk: Bk, s: &[K::U], n: usize) -> Option<Result<Box<dyn DynMsg<K::U> + 'a>, ()>> {
        let m = K::parse(s).ok()?;
        Some(Ok(match bk {
            Bk::CVec | Bk::CVecWith => Box::new(RH::<K, CVec<K::U>> { m: K::rebuf(m) }),
            Bk::Sticky => Box::new(RH::<K, Sticky<K::U>> { m: K::rebuf(m) }),
            Bk::Vec | Bk::VecWith => Box::new(RH::<K, StdVec<K::U>> { m: K::rebuf(m) }),
            Bk::Lim => match with_lim_cap(n, || watch(|| K::try_rebuf::<_, Lim<K::U, LIMN>>(m))) {
                Ok(m) => Box::new(TH::<K, Lim<K::U, LIMN>> { m }),
                Err(_) => return Some(Err(())),
            },
            Bk::Array => {
                let n = *K::arrays().iter().filter(|k| **k >= s.len()).min()?;
                return K::try_array(m, n).map(|r| r.map(|b| b as _).map_err(|_| ()));
            }
            _ => return None,
        }))
    }
    fn arrays(&self) -> &'static [usize] {
        K::arrays()
    }
    fn rebuffers(&self, s: &[K::U], f: &mut dyn FnMut(&str, usize, Result<Box<dyn DynMsg<K::U>>, ()>)) {
        let Ok(_) = K::parse(s) else { return };
        let p = || K::parse(s).unwrap();
        let big = usize::MAX;
        f("slice->custom-growable", big, Ok(Box::new(RO::<K, CVec<K::U>> { m: K::rebuf(p()) })));
        f("slice->custom-sticky", big, Ok(Box::new(RO::<K, Sticky<K::U>> { m: K::rebuf(p()) })));
        #[cfg(feature = "std")]
        {
            f("slice->vec", big, Ok(Box::new(RO::<K, Vec<K::U>> { m: K::rebuf(p()) })));
            for &n in K::arrays() {
                let v: K::M<Vec<K::U>> = K::rebuf(p());
                if Data::data(&v).len() <= n {
                    // owned vec -> array (infallible array rebuffer)
                    if let Some(b) = K::arr_rebuf(v, n) {
                        f("vec->array(infallible)", big, Ok(b));
                    }
                }
            }
        }
        #[cfg(feature = "std")]
        for &n in K::arrays() {
            if let Some(r) = K::try_array_vec(K::rebuf(p()), n) {
                f("vec->array(try)", n, r.map_err(|_| ()));
            }
        }
        for &n in K::arrays() {
            if let Some(r) = K::try_array(p(), n) {
                f("slice->array(try)", n, r.map_err(|_| ()));
            }
            let l = Data::data(&p()).len();
            if l <= n {
                if let Some(b) = K::arr_rebuf(p(), n) {
                    f("slice->array(infallible)", big, Ok(b));
                }
            }
        }
        for cap in [0, s.len().saturating_sub(1), s.len(), s.len() + 1, LIMN] {
            let cap = cap.min(LIMN);
            let r = with_lim_cap(cap, || watch(|| K::try_rebuf::<_, Lim<K::U, LIMN>>(p())));
            f("slice->limited(try)", cap, r.map(|m| Box::new(RO::<K, Lim<K::U, LIMN>> { m }) as _).map_err(|_| ()));
        }
    }
    fn sources(&self, n: usize, j: &mut dyn Mover<K::U>) {
        K::array_sources(j);
        let z = K::U::zero();
        macro_rules! src {
            ($store:ident, $j:ident, $m:ident => $e:expr) => {{
                let mut $store = vec![z; n];
                let made = watch(|| K::try_new_with(&mut $store[..]));
                if let Ok($m) = made {
                    let mut th = TH::<K, &mut [K::U]> { m: $m };
                    $j.fill(&mut th, n);
                    let $m = th.m;
                    $e
                }
            }};
        }
        src!(s, j, m => {
            let r: K::M<&[K::U]> = K::rebuf(m);
            j.moved("mutable slice->slice", usize::MAX, Some(&RO::<K, &[K::U]> { m: r }));
        });
        #[cfg(feature = "std")]
        src!(s, j, m => {
            let r: K::M<Vec<K::U>> = K::rebuf(m);
            j.moved("mutable slice->vec", usize::MAX, Some(&RO::<K, Vec<K::U>> { m: r }));
        });
        for &a in K::arrays() {
            src!(s, j, m => {
                if let Some(r) = K::try_array_mut(m, a) {
                    j.moved("mutable slice->array(try)", a, r.as_ref().ok().map(|m| &**m));
                }
            });
            src!(s, j, m => {
                if j.len() <= a {
                    if let Some(r) = K::arr_rebuf(m, a) {
                        j.moved("mutable slice->array(infallible)", usize::MAX, Some(&*r));
                    }
                }
            });
        }
    }
}

#[macro_export]
macro_rules! kind_packets {
    (ump, $m:ident, $f:ident) => {
        $f(midi2::Packets::packets($m))
    };
    (bytes, $m:ident, $f:ident) => {{
        let _ = ($m, $f);
    }};
}
#[macro_export]
macro_rules! kind {
    ($K:ident $rep:ident $u:ty = $md:ident :: $tn:ident ; $name:literal $fam:literal $var:literal min $min:literal pkt $pkt:literal arrays [$($n:literal),*]
     hdr [$($h:expr),*] { $($f:ident $s:ident $cls:ident [$($p:expr),*] ;)* }
     $(text $t:ident $tb:ident $st:ident $tst:ident $per:literal;)? $(sysex $sx:ident $byte:ty;)?) => {
        pub struct $K;
        impl $crate::kind::Kind for $K {
            type U = $u;
            type M<B: midi2::buffer::Buffer<Unit = $u>> = midi2::$md::$tn<B>;
            fn spec() -> $crate::kind::Spec {
                #[allow(unused_mut, unused_assignments)]
                let mut text = None;
                $( text = Some($crate::kind::TextSpec { per: $per }); )?
                #[allow(unused_mut, unused_assignments)]
                let mut sx = $crate::kind::Sx::No;
                $( sx = $crate::kind::Sx::$sx; )?
                $crate::kind::Spec {
                    name: $name, family: $fam, variant: $var, min: $min, pkt: $pkt,
                    hdr: vec![$($h),*],
                    fields: vec![$( $crate::kind::Field { name: stringify!($f), cls: $crate::kind::Cls::$cls, pieces: vec![$($p),*] } ),*],
                    text, sx,
                }
            }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn get<B: midi2::buffer::Buffer<Unit = $u>>(m: &Self::M<B>, f: usize) -> u64 {
                #[allow(unused_imports)]
                use midi2::{Grouped, Channeled};
                let mut i = 0;
                $( if f == i { return $crate::kind::Code::code(m.$f()); } i += 1; )*
                unreachable!()
            }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn set<B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::BufferMut>(m: &mut Self::M<B>, f: usize, v: u64) {
                #[allow(unused_imports)]
                use midi2::{Grouped, Channeled};
                let mut i = 0;
                $( if f == i { m.$s($crate::kind::Code::decode(v)); return; } i += 1; )*
                unreachable!()
            }
            fn parse(s: &[$u]) -> Result<Self::M<&[$u]>, midi2::error::InvalidData> {
                $crate::alloc::watch(|| <midi2::$md::$tn<&[$u]> as core::convert::TryFrom<&[$u]>>::try_from(s))
            }
            fn new_resize<B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::BufferMut + midi2::buffer::BufferDefault + midi2::buffer::BufferResize>() -> Self::M<B> {
                midi2::$md::$tn::<B>::new()
            }
            fn new_with<B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::BufferMut + midi2::buffer::BufferResize>(b: B) -> Self::M<B> {
                midi2::$md::$tn::<B>::new_with_buffer(b)
            }
            fn try_new_with<B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::BufferMut + midi2::buffer::BufferTryResize>(b: B) -> Result<Self::M<B>, midi2::error::BufferOverflow> {
                midi2::$md::$tn::<B>::try_new_with_buffer(b)
            }
            fn try_new<B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::BufferMut + midi2::buffer::BufferDefault + midi2::buffer::BufferTryResize>() -> Result<Self::M<B>, midi2::error::BufferOverflow> {
                midi2::$md::$tn::<B>::try_new()
            }
            fn rebuf<A: midi2::buffer::Buffer<Unit = $u>, B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::FromBuffer<A>>(m: Self::M<A>) -> Self::M<B> {
                midi2::RebufferFrom::rebuffer_from(m)
            }
            fn try_rebuf<A: midi2::buffer::Buffer<Unit = $u>, B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::TryFromBuffer<A>>(m: Self::M<A>) -> Result<Self::M<B>, midi2::error::BufferOverflow> {
                midi2::TryRebufferFrom::try_rebuffer_from(m)
            }
            fn arrays() -> &'static [usize] { &[$($n),*] }
            fn new_array(n: usize) -> Option<Box<dyn $crate::kind::DynMsg<$u>>> {
                match n {
                    $( $n => Some(Box::new($crate::kind::TH::<$K, [$u; $n]> { m: $crate::alloc::watch(|| midi2::$md::$tn::<[$u; $n]>::new()) })), )*
                    _ => None,
                }
            }
            fn arr_rebuf<A: midi2::buffer::Buffer<Unit = $u>>(m: Self::M<A>, n: usize) -> Option<Box<dyn $crate::kind::DynMsg<$u>>> {
                match n {
                    $( $n => {
                        let m: midi2::$md::$tn<[$u; $n]> = $crate::alloc::watch(|| midi2::ArrayRebufferFrom::array_rebuffer_from(m));
                        Some(Box::new($crate::kind::TH::<$K, [$u; $n]> { m }))
                    } )*
                    _ => None,
                }
            }
            fn try_array(m: Self::M<&[$u]>, n: usize) -> Option<Result<Box<dyn $crate::kind::DynMsg<$u>>, midi2::error::BufferOverflow>> {
                match n {
                    $( $n => {
                        let r: Result<midi2::$md::$tn<[$u; $n]>, _> = $crate::alloc::watch(|| midi2::TryRebufferFrom::try_rebuffer_from(m));
                        Some(r.map(|m| Box::new($crate::kind::TH::<$K, [$u; $n]> { m }) as _))
                    } )*
                    _ => None,
                }
            }
            fn try_array_mut(m: Self::M<&mut [$u]>, n: usize) -> Option<Result<Box<dyn $crate::kind::DynMsg<$u>>, midi2::error::BufferOverflow>> {
                match n {
                    $( $n => {
                        let r: Result<midi2::$md::$tn<[$u; $n]>, _> = $crate::alloc::watch(|| midi2::TryRebufferInto::try_rebuffer_into(m));
                        Some(r.map(|m| Box::new($crate::kind::TH::<$K, [$u; $n]> { m }) as _))
                    } )*
                    _ => None,
                }
            }
            #[cfg(feature = "std")]
            fn try_array_vec(m: Self::M<Vec<$u>>, n: usize) -> Option<Result<Box<dyn $crate::kind::DynMsg<$u>>, midi2::error::BufferOverflow>> {
                match n {
                    $( $n => {
                        let r: Result<midi2::$md::$tn<[$u; $n]>, _> = midi2::TryRebufferInto::try_rebuffer_into(m);
                        Some(r.map(|m| Box::new($crate::kind::TH::<$K, [$u; $n]> { m }) as _))
                    } )*
                    _ => None,
                }
            }
            fn array_sources(j: &mut dyn $crate::kind::Mover<$u>) {
                $( {
                    let mut th = $crate::kind::TH::<$K, [$u; $n]> { m: $crate::alloc::watch(|| midi2::$md::$tn::<[$u; $n]>::new()) };
                    j.fill(&mut th, $n);
                    #[cfg(feature = "std")]
                    {
                        let r: Self::M<Vec<$u>> = midi2::RebufferInto::rebuffer_into(th.m.clone());
                        j.moved("array->vec", usize::MAX, Some(&$crate::kind::RO::<$K, Vec<$u>> { m: r }));
                    }
                    let r: Self::M<$crate::bufs::CVec<$u>> = midi2::RebufferInto::rebuffer_into(th.m.clone());
                    j.moved("array->custom-growable", usize::MAX, Some(&$crate::kind::RO::<$K, $crate::bufs::CVec<$u>> { m: r }));
                    for &a in Self::arrays() {
                        if a >= j.len() {
                            if let Some(r) = Self::arr_rebuf(th.m.clone(), a) {
                                j.moved("array->array(infallible)", usize::MAX, Some(&*r));
                            }
                        }
                    }
                } )*
            }
            fn packets<B: midi2::buffer::Buffer<Unit = $u>>(m: &Self::M<B>, f: &mut dyn FnMut(midi2::PacketsIterator)) {
                $crate::kind_packets!($rep, m, f)
            }
            fn dbg<B: midi2::buffer::Buffer<Unit = $u>>(m: &Self::M<B>, w: &mut dyn std::fmt::Write) {
                let _ = write!(w, "{:?}", m);
            }
            fn compare(a: &[$u], b: &[$u]) -> Option<$crate::kind::Same> {
                let (x, y) = (Self::parse(a).ok()?, Self::parse(b).ok()?);
                let (p, q): (Self::M<$crate::bufs::CVec<$u>>, Self::M<$crate::bufs::CVec<$u>>) = (Self::rebuf(Self::parse(a).ok()?), Self::rebuf(Self::parse(b).ok()?));
                let mut r = $crate::kind::same_pair(&x, &y);
                r.join($crate::kind::same_pair(&p, &q));
                Some(r)
            }
            fn edit_copy(s: &[$u], edits: &[(usize, u64)]) -> Option<(Vec<$u>, Vec<$u>, bool)> {
                use midi2::Data;
                let m: Self::M<$crate::bufs::CVec<$u>> = Self::rebuf(Self::parse(s).ok()?);
                let mut c = m.clone();
                let eq = c == m && m == c;
                for (f, v) in edits {
                    Self::set(&mut c, *f, *v);
                }
                Some((m.data().to_vec(), c.data().to_vec(), eq))
            }
            #[allow(clippy::clone_on_copy)]
            fn same(m: &Self::M<&[$u]>) -> bool {
                let c = m.clone();
                let d = *m;
                c == *m && d == c
            }
            $(
                fn text_bytes<B: midi2::buffer::Buffer<Unit = $u>>(m: &Self::M<B>, f: &mut dyn FnMut(&mut dyn Iterator<Item = u8>)) -> bool {
                    f(&mut m.$tb());
                    true
                }
                fn scan_text<B: midi2::buffer::Buffer<Unit = $u>>(m: &Self::M<B>, f: &mut dyn FnMut(Box<dyn $crate::kind::Scan + '_>)) {
                    f($crate::kind::scan_plain(m.$tb(), |x| x as u64))
                }
                #[cfg(feature = "std")]
                fn text<B: midi2::buffer::Buffer<Unit = $u>>(m: &Self::M<B>) -> Option<String> {
                    Some(m.$t())
                }
                // the library has no such getter then
                #[cfg(not(feature = "std"))]
                fn text<B: midi2::buffer::Buffer<Unit = $u>>(m: &Self::M<B>) -> Option<String> {
                    Some(String::from_utf8_lossy(&m.$tb().collect::<Vec<u8>>()).into_owned())
                }
                fn set_text<B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::BufferMut + midi2::buffer::BufferResize>(m: &mut Self::M<B>, t: &str) {
                    m.$st(t)
                }
                fn try_set_text<B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::BufferMut + midi2::buffer::BufferTryResize>(m: &mut Self::M<B>, t: &str) -> Result<(), midi2::error::BufferOverflow> {
                    m.$tst(t)
                }
            )?
            $(
                fn payload<B: midi2::buffer::Buffer<Unit = $u>>(m: &Self::M<B>, f: &mut dyn FnMut(&mut dyn $crate::kind::PayIter)) {
                    f(&mut $crate::kind::PI(midi2::Sysex::payload(m)))
                }
                fn scan_payload<B: midi2::buffer::Buffer<Unit = $u>>(m: &Self::M<B>, f: &mut dyn FnMut(Box<dyn $crate::kind::Scan + '_>)) {
                    f($crate::kind::scan_exact(midi2::Sysex::payload(m), |x| u8::from(x) as u64))
                }
                fn payload_size<B: midi2::buffer::Buffer<Unit = $u>>(m: &Self::M<B>) -> usize {
                    midi2::Sysex::payload_size(m)
                }
                fn edit<B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::BufferMut + midi2::buffer::BufferResize>(m: &mut Self::M<B>, op: &$crate::kind::SxOp) {
                    use $crate::kind::{SxOp, SrcIter};
                    use midi2::Sysex;
                    match op {
                        SxOp::Set(d, src) => m.set_payload(SrcIter { d, i: 0, src: *src }.map(<$byte>::from_u8)),
                        SxOp::Splice(d, src, a, b) => m.splice_payload(SrcIter { d, i: 0, src: *src }.map(<$byte>::from_u8), (*a, *b)),
                        SxOp::Insert(d, src, i) => m.insert_payload(SrcIter { d, i: 0, src: *src }.map(<$byte>::from_u8), *i),
                        SxOp::Append(d, src) => m.append_payload(SrcIter { d, i: 0, src: *src }.map(<$byte>::from_u8)),
                        SxOp::AppendByte(b) => m.append_byte(<$byte>::from_u8(*b)),
                    }
                }
                fn try_edit<B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::BufferMut + midi2::buffer::BufferTryResize>(m: &mut Self::M<B>, op: &$crate::kind::SxOp) -> Result<(), midi2::error::BufferOverflow> {
                    use $crate::kind::{SxOp, SrcIter};
                    use midi2::Sysex;
                    match op {
                        SxOp::Set(d, src) => m.try_set_payload(SrcIter { d, i: 0, src: *src }.map(<$byte>::from_u8)),
                        SxOp::Splice(d, src, a, b) => m.try_splice_payload(SrcIter { d, i: 0, src: *src }.map(<$byte>::from_u8), (*a, *b)),
                        SxOp::Insert(d, src, i) => m.try_insert_payload(SrcIter { d, i: 0, src: *src }.map(<$byte>::from_u8), *i),
                        SxOp::Append(d, src) => m.try_append_payload(SrcIter { d, i: 0, src: *src }.map(<$byte>::from_u8)),
                        SxOp::AppendByte(b) => m.try_append_byte(<$byte>::from_u8(*b)),
                    }
                }
                fn set_byte<B: midi2::buffer::Buffer<Unit = $u> + midi2::buffer::BufferMut>(m: &mut Self::M<B>, i: usize, v: u8) {
                    midi2::Sysex::set_byte(m, <$byte>::from_u8(v), i)
                }
            )?
        }
    };
}
pub trait FromU8 {
    fn from_u8(v: u8) -> Self;
}
impl FromU8 for u8 {
    fn from_u8(v: u8) -> u8 {
        v
    }
}
impl FromU8 for midi2::ux::u7 {
    fn from_u8(v: u8) -> Self {
        midi2::ux::u7::new(v & 0x7F)
    }
}
