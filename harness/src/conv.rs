//! Conversions between byte-stream and packet form.
#![allow(unused_imports, dead_code)]
use crate::alloc::watch;
use crate::bufs::*;
use crate::kind::*;
use crate::tables;
use crate::view;
use crate::view::View;
use midi2::buffer::*;
use midi2::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Grow,
    Sticky,
    Vec,
    Lim(usize),
    Arr(usize),
    ArrInf(usize),
    /// from a growable source that owns its data, by `into`
    OwnVec,
    /// from an array larger than the message, by `try_into`, to a destination of this capacity
    OwnArr(usize),
}
pub type R<U> = Option<Result<Box<dyn DynMsg<U>>, ()>>;
pub type RV<U> = Option<Result<View<U>, ()>>;
#[derive(Clone, Copy)]
pub struct Hyb {
    pub name: &'static str,
    pub b2u: fn(&[u8], How) -> R<u32>,
    pub u2b: fn(&[u32], How) -> R<u8>,
    /// family, through which the conversion is also made
    pub fam: Option<(fn(&[u8], How) -> RV<u32>, fn(&[u32], How) -> RV<u8>)>,
}
/// size of the arrays converted from
pub const OWN: usize = 48;
macro_rules! one_way {
    ($name:ident, $src:ty, $dst:ty, $md:ident :: $T:ident, $KD:ty, $From:ident $from:ident $TryFrom:ident $try_from:ident $Into:ident $into:ident $TryInto:ident $try_into:ident, [$($n:literal),*], [$($ni:literal),*]) => {
        fn $name(s: &[$src], how: How) -> R<$dst> {
            let m = watch(|| $md::$T::<&[$src]>::try_from(s)).ok()?;
            clear::<R<$dst>>(move || match how {
                How::Grow => Some(Ok(Box::new(RH::<$KD, CVec<$dst>> { m: $From::$from(m) }))),
                How::Sticky => Some(Ok(Box::new(RH::<$KD, Sticky<$dst>> { m: $From::$from(m) }))),
                How::Vec => Some(Ok(Box::new(RH::<$KD, StdVec<$dst>> { m: $From::$from(m) }))),
                How::Lim(c) => {
                    let r = with_lim_cap(c, || watch(|| $TryFrom::$try_from(m)));
                    Some(r.map(|m| Box::new(TH::<$KD, Lim<$dst, LIMN>> { m }) as _).map_err(|_| ()))
                }
                How::Arr(n) => match n {
                    $($n => {
                        let r = watch(|| $TryFrom::$try_from(m));
                        Some(r.map(|m| Box::new(TH::<$KD, [$dst; $n]> { m }) as _).map_err(|_| ()))
                    })*
                    _ => None,
                },
                How::ArrInf(n) => match n {
                    $($ni => Some(Ok(Box::new(TH::<$KD, [$dst; $ni]> { m: watch(|| $From::$from(m)) }))),)*
                    _ => None,
                },
                How::OwnVec => {
                    let m: $md::$T<CVec<$src>> = RebufferFrom::rebuffer_from(m);
                    let m: $md::$T<CVec<$dst>> = $Into::$into(m);
                    Some(Ok(Box::new(RH::<$KD, CVec<$dst>> { m })))
                }
                How::OwnArr(c) => {
                    let m: $md::$T<[$src; OWN]> = TryRebufferFrom::try_rebuffer_from(m).ok()?;
                    let r: Result<$md::$T<Lim<$dst, LIMN>>, _> = with_lim_cap(c, || watch(|| $TryInto::$try_into(m)));
                    Some(r.map(|m| Box::new(TH::<$KD, Lim<$dst, LIMN>> { m }) as _).map_err(|_| ()))
                }
            })
        }
    };
}
macro_rules! fam_way {
    ($name:ident, $src:ty, $dst:ty, $md:ident :: $T:ident, $v:path, $From:ident $from:ident $TryFrom:ident $try_from:ident $Into:ident $into:ident $TryInto:ident $try_into:ident, [$($n:literal),*]) => {
        fn $name(s: &[$src], how: How) -> RV<$dst> {
            let m = watch(|| $md::$T::<&[$src]>::try_from(s)).ok()?;
            clear::<RV<$dst>>(move || match how {
                How::Grow => { let r: $md::$T<CVec<$dst>> = $From::$from(m); Some(Ok($v(&r))) }
                How::Sticky => { let r: $md::$T<Sticky<$dst>> = $From::$from(m); Some(Ok($v(&r))) }
                How::Vec => { let r: $md::$T<StdVec<$dst>> = $From::$from(m); Some(Ok($v(&r))) }
                How::Lim(c) => {
                    let r: Result<$md::$T<Lim<$dst, LIMN>>, _> = with_lim_cap(c, || watch(|| $TryFrom::$try_from(m)));
                    Some(r.map(|m| $v(&m)).map_err(|_| ()))
                }
                How::Arr(n) => match n {
                    $($n => {
                        let r: Result<$md::$T<[$dst; $n]>, _> = watch(|| $TryFrom::$try_from(m));
                        Some(r.map(|m| $v(&m)).map_err(|_| ()))
                    })*
                    _ => None,
                },
                How::ArrInf(_) => None,
                How::OwnVec => {
                    let m: $md::$T<CVec<$src>> = RebufferFrom::rebuffer_from(m);
                    let r: $md::$T<CVec<$dst>> = $Into::$into(m);
                    Some(Ok($v(&r)))
                }
                How::OwnArr(c) => {
                    let m: $md::$T<[$src; OWN]> = TryRebufferFrom::try_rebuffer_from(m).ok()?;
                    let r: Result<$md::$T<Lim<$dst, LIMN>>, _> = with_lim_cap(c, || watch(|| $TryInto::$try_into(m)));
                    Some(r.map(|m| $v(&m)).map_err(|_| ()))
                }
            })
        }
    };
}
macro_rules! hyb {
    ($out:ident; $md:ident :: $T:ident, $KB:ident, fam $fam:expr, ump $na:tt $ni:tt, bytes $nb:tt $nbi:tt) => {{
        one_way!(b2u, u8, u32, $md::$T, tables::$md::$T, FromBytes from_bytes TryFromBytes try_from_bytes IntoUmp into_ump TryIntoUmp try_into_ump, $na, $ni);
        one_way!(u2b, u32, u8, $md::$T, tables::$md::$KB, FromUmp from_ump TryFromUmp try_from_ump IntoBytes into_bytes TryIntoBytes try_into_bytes, $nb, $nbi);
        $out.push(Hyb { name: stringify!($T), b2u, u2b, fam: $fam });
    }};
}
pub const UMP_ARR: [usize; 5] = [0, 1, 2, 4, 8];
pub const BYTE_ARR: [usize; 6] = [0, 1, 2, 3, 7, 22];
pub fn hybrids() -> Vec<Hyb> {
    #[allow(unused_mut)]
    let mut v: Vec<Hyb> = vec![];
    #[cfg(feature = "channel-voice1")]
    {
        use channel_voice1::*;
        fam_way!(fb2u, u8, u32, channel_voice1::ChannelVoice1, view::cv1_ump, FromBytes from_bytes TryFromBytes try_from_bytes IntoUmp into_ump TryIntoUmp try_into_ump, [0, 1, 2, 4, 8]);
        fam_way!(fu2b, u32, u8, channel_voice1::ChannelVoice1, view::cv1, FromUmp from_ump TryFromUmp try_from_ump IntoBytes into_bytes TryIntoBytes try_into_bytes, [0, 1, 2, 3, 7, 22]);
        type B2U = fn(&[u8], How) -> RV<u32>;
        type U2B = fn(&[u32], How) -> RV<u8>;
        let fam = Some((fb2u as B2U, fu2b as U2B));
        hyb!(v; channel_voice1::NoteOff, NoteOffBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; channel_voice1::NoteOn, NoteOnBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; channel_voice1::KeyPressure, KeyPressureBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; channel_voice1::ControlChange, ControlChangeBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; channel_voice1::ProgramChange, ProgramChangeBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; channel_voice1::ChannelPressure, ChannelPressureBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; channel_voice1::PitchBend, PitchBendBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
    }
    #[cfg(feature = "system-common")]
    {
        fam_way!(fb2u, u8, u32, system_common::SystemCommon, view::sysc_ump, FromBytes from_bytes TryFromBytes try_from_bytes IntoUmp into_ump TryIntoUmp try_into_ump, [0, 1, 2, 4, 8]);
        fam_way!(fu2b, u32, u8, system_common::SystemCommon, view::sysc, FromUmp from_ump TryFromUmp try_from_ump IntoBytes into_bytes TryIntoBytes try_into_bytes, [0, 1, 2, 3, 7, 22]);
        type B2U = fn(&[u8], How) -> RV<u32>;
        type U2B = fn(&[u32], How) -> RV<u8>;
        let fam = Some((fb2u as B2U, fu2b as U2B));
        hyb!(v; system_common::TimeCode, TimeCodeBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; system_common::SongPositionPointer, SongPositionPointerBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; system_common::SongSelect, SongSelectBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; system_common::TuneRequest, TuneRequestBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; system_common::TimingClock, TimingClockBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; system_common::Start, StartBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; system_common::Continue, ContinueBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; system_common::Stop, StopBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; system_common::ActiveSensing, ActiveSensingBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
        hyb!(v; system_common::Reset, ResetBytes, fam fam, ump [0,1,2,4,8] [1,2,4,8], bytes [0,1,2,3,7,22] [3,7,22]);
    }
    #[cfg(feature = "sysex7")]
    hyb!(v; sysex7::Sysex7, Sysex7Bytes, fam None, ump [0,1,2,4,8] [], bytes [0,1,2,3,7,22] []);
    v
}
