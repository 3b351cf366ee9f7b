//! Family and general messages, seen through one flat record.
#![allow(unused_imports, dead_code, unreachable_patterns)]
use crate::kind::Un;
use midi2::buffer::*;
use midi2::*;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct View<U> {
    pub fam: &'static str,
    pub var: &'static str,
    /// raw data reported by the family / general message
    pub data: Vec<U>,
    /// raw data reported by the member message inside
    pub inner: Vec<U>,
    pub group: Option<u64>,
    pub channel: Option<u64>,
    pub bank: Option<u64>,
    pub status: Option<u64>,
    pub packets: Option<Vec<Vec<u32>>>,
}
pub fn collect_packets(it: PacketsIterator) -> Vec<Vec<u32>> {
    let mut v = vec![];
    for p in it {
        v.push(p.to_vec());
        if v.len() > crate::kind::ITER_CAP {
            panic!("packets iterator does not terminate");
        }
    }
    v
}
macro_rules! members {
    ($m:expr, $T:ident, [$($v:ident),*]) => {
        match $m {
            $( $T::$v(i) => (stringify!($v), Data::data(i).to_vec()), )*
            _ => ("?", vec![]),
        }
    };
}
#[cfg(feature = "channel-voice1")]
pub fn cv1<U: Un, B: Buffer<Unit = U>>(m: &channel_voice1::ChannelVoice1<B>) -> View<U> {
    use channel_voice1::ChannelVoice1;
    let (var, inner) = members!(m, ChannelVoice1, [ChannelPressure, ControlChange, KeyPressure, NoteOff, NoteOn, PitchBend, ProgramChange]);
    View { fam: "ChannelVoice1", var, data: m.data().to_vec(), inner, channel: Some(u8::from(m.channel()) as u64), ..Default::default() }
}
#[cfg(feature = "channel-voice1")]
pub fn cv1_ump<B: Buffer<Unit = u32>>(m: &channel_voice1::ChannelVoice1<B>) -> View<u32> {
    let mut v = cv1(m);
    v.group = Some(u8::from(m.group()) as u64);
    v.packets = Some(collect_packets(m.packets()));
    v
}
#[cfg(feature = "system-common")]
pub fn sysc<U: Un, B: Buffer<Unit = U>>(m: &system_common::SystemCommon<B>) -> View<U> {
    use system_common::SystemCommon;
    let (var, inner) = members!(
        m,
        SystemCommon,
        [ActiveSensing, Continue, Reset, SongPositionPointer, SongSelect, Start, Stop, TimeCode, TimingClock, TuneRequest]
    );
    View { fam: "SystemCommon", var, data: m.data().to_vec(), inner, ..Default::default() }
}
#[cfg(feature = "system-common")]
pub fn sysc_ump<B: Buffer<Unit = u32>>(m: &system_common::SystemCommon<B>) -> View<u32> {
    let mut v = sysc(m);
    v.group = Some(u8::from(m.group()) as u64);
    v.packets = Some(collect_packets(m.packets()));
    v
}
#[cfg(feature = "channel-voice2")]
pub fn cv2<B: Buffer<Unit = u32>>(m: &channel_voice2::ChannelVoice2<B>) -> View<u32> {
    use channel_voice2::ChannelVoice2;
    let (var, inner) = members!(
        m,
        ChannelVoice2,
        [
            AssignableController, AssignablePerNoteController, ChannelPitchBend, ChannelPressure, ControlChange, KeyPressure, NoteOff,
            NoteOn, PerNoteManagement, PerNotePitchBend, ProgramChange, RegisteredController, RegisteredPerNoteController,
            RelativeAssignableController, RelativeRegisteredController
        ]
    );
    View {
        fam: "ChannelVoice2",
        var,
        data: m.data().to_vec(),
        inner,
        group: Some(u8::from(m.group()) as u64),
        channel: Some(u8::from(m.channel()) as u64),
        packets: Some(collect_packets(m.packets())),
        ..Default::default()
    }
}
#[cfg(feature = "flex-data")]
pub fn bank_code(b: flex_data::Bank) -> u64 {
    match b {
        flex_data::Bank::SetupAndPerformance => 0,
        flex_data::Bank::MetadataText => 1,
        flex_data::Bank::PerformanceText => 2,
    }
}
#[cfg(feature = "flex-data")]
pub fn flex<B: Buffer<Unit = u32>>(m: &flex_data::FlexData<B>) -> View<u32> {
    use flex_data::{FlexData, FlexDataMessage};
    let (var, inner) = members!(
        m,
        FlexData,
        [
            SetChordName, SetKeySignature, SetMetronome, SetTempo, SetTimeSignature, UnknownMetadataText, ProjectName, CompositionName,
            MidiClipName, CopyrightNotice, ComposerName, LyricistName, ArrangerName, PublisherName, PrimaryPerformerName,
            AccompanyingPerformerName, RecordingDate, RecordingLocation, UnknownPerformanceText, Lyrics, LyricsLanguage, Ruby,
            RubyLanguage
        ]
    );
    View {
        fam: "FlexData",
        var,
        data: m.data().to_vec(),
        inner,
        group: Some(u8::from(m.group()) as u64),
        bank: Some(bank_code(m.bank())),
        status: Some(m.status() as u64),
        packets: Some(collect_packets(m.packets())),
        ..Default::default()
    }
}
#[cfg(feature = "ump-stream")]
pub fn stream<B: Buffer<Unit = u32>>(m: &ump_stream::UmpStream<B>) -> View<u32> {
    use ump_stream::UmpStream;
    let (var, inner) = members!(
        m,
        UmpStream,
        [
            DeviceIdentity, EndOfClip, EndpointDiscovery, EndpointInfo, EndpointName, FunctionBlockDiscovery, FunctionBlockInfo,
            FunctionBlockName, ProductInstanceId, StartOfClip, StreamConfigurationNotification, StreamConfigurationRequest
        ]
    );
    View { fam: "UmpStream", var, data: m.data().to_vec(), inner, packets: Some(collect_packets(m.packets())), ..Default::default() }
}
#[cfg(feature = "utility")]
pub fn utility_<B: Buffer<Unit = u32>>(m: &utility::Utility<B>) -> View<u32> {
    use utility::Utility;
    let (var, inner) = members!(m, Utility, [Clock, DeltaClockstamp, DeltaClockstampTpq, NoOp, Timestamp]);
    View { fam: "Utility", var, data: m.data().to_vec(), inner, packets: Some(collect_packets(m.packets())), ..Default::default() }
}
#[cfg(feature = "sysex7")]
pub fn sx7<U: Un, B: Buffer<Unit = U>>(m: &sysex7::Sysex7<B>) -> View<U> {
    View { fam: "Sysex7", var: "Sysex7", data: m.data().to_vec(), inner: m.data().to_vec(), ..Default::default() }
}
#[cfg(feature = "sysex7")]
pub fn sx7_ump<B: Buffer<Unit = u32>>(m: &sysex7::Sysex7<B>) -> View<u32> {
    let mut v = sx7(m);
    v.group = Some(u8::from(m.group()) as u64);
    v.packets = Some(collect_packets(m.packets()));
    v
}
#[cfg(feature = "sysex8")]
pub fn sx8<B: Buffer<Unit = u32>>(m: &sysex8::Sysex8<B>) -> View<u32> {
    View {
        fam: "Sysex8",
        var: "Sysex8",
        data: m.data().to_vec(),
        inner: m.data().to_vec(),
        group: Some(u8::from(m.group()) as u64),
        packets: Some(collect_packets(m.packets())),
        ..Default::default()
    }
}
/// The view through the general message: the family's view, with data and packets as the
/// general message reports them.
pub fn ump<B: Buffer<Unit = u32>>(m: &UmpMessage<B>) -> View<u32> {
    let mut v = match m {
        #[cfg(feature = "flex-data")]
        UmpMessage::FlexData(f) => flex(f),
        #[cfg(feature = "channel-voice1")]
        UmpMessage::ChannelVoice1(f) => cv1_ump(f),
        #[cfg(feature = "channel-voice2")]
        UmpMessage::ChannelVoice2(f) => cv2(f),
        #[cfg(feature = "sysex7")]
        UmpMessage::Sysex7(f) => sx7_ump(f),
        #[cfg(feature = "sysex8")]
        UmpMessage::Sysex8(f) => sx8(f),
        #[cfg(feature = "system-common")]
        UmpMessage::SystemCommon(f) => sysc_ump(f),
        #[cfg(feature = "ump-stream")]
        UmpMessage::UmpStream(f) => stream(f),
        #[cfg(feature = "utility")]
        UmpMessage::Utility(f) => utility_(f),
        _ => View { fam: "?", ..Default::default() },
    };
    crate::alloc::watch(|| {
        let _ = m.data();
        let _ = m.packets().count();
    });
    v.data = m.data().to_vec();
    v.packets = Some(collect_packets(m.packets()));
    v
}
#[cfg(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common"))]
pub fn bytes<B: Buffer<Unit = u8>>(m: &BytesMessage<B>) -> View<u8> {
    let mut v = match m {
        #[cfg(feature = "channel-voice1")]
        BytesMessage::ChannelVoice1(f) => cv1(f),
        #[cfg(feature = "sysex7")]
        BytesMessage::Sysex7(f) => sx7(f),
        #[cfg(feature = "system-common")]
        BytesMessage::SystemCommon(f) => sysc(f),
        _ => View { fam: "?", ..Default::default() },
    };
    v.data = m.data().to_vec();
    v
}
fn same<M: Clone + PartialEq + std::fmt::Debug>(m: &M) {
    let c = m.clone();
    assert!(c == *m, "a clone differs from its original");
    let s = format!("{m:?}");
    assert!(!s.is_empty());
}

pub trait Agg: Un {
    /// names of the families of this representation
    fn families() -> Vec<&'static str>;
    fn parse_family(fam: &str, s: &[Self]) -> Option<View<Self>>;
    fn parse_general(s: &[Self]) -> Option<View<Self>>;
    fn compare_family(fam: &str, a: &[Self], b: &[Self]) -> Option<crate::kind::Same>;
    fn compare_general(a: &[Self], b: &[Self]) -> Option<crate::kind::Same>;
    /// general message moved into other buffers: (label, capacity or MAX, result)
    fn general_rebuffers(s: &[Self], f: &mut dyn FnMut(&str, usize, Result<View<Self>, ()>));
    fn family_rebuffers(fam: &str, s: &[Self], f: &mut dyn FnMut(&str, usize, Result<View<Self>, ()>));
    /// set group / channel through the family on an owned copy
    fn family_set(fam: &str, s: &[Self], group: Option<u8>, channel: Option<u8>) -> Option<(View<Self>, bool, bool)>;
}
use crate::bufs::*;
use crate::kind::LIMN;
macro_rules! fam_parse {
    ($s:expr, $T:ty, $v:path) => {
        crate::alloc::watch(|| <$T>::try_from($s)).ok().map(|m| {
            same(&m);
            $v(&m)
        })
    };
}
macro_rules! fam_cmp {
    ($a:expr, $b:expr, $($T:ident)::+, $U:ty) => {{
        let (x, y) = ($($T)::+::<&[$U]>::try_from($a).ok()?, $($T)::+::<&[$U]>::try_from($b).ok()?);
        let mut r = crate::kind::same_pair(&x, &y);
        let x: $($T)::+<CVec<$U>> = RebufferFrom::rebuffer_from(x);
        let y: $($T)::+<CVec<$U>> = RebufferFrom::rebuffer_from(y);
        r.join(crate::kind::same_pair(&x, &y));
        Some(r)
    }};
}
macro_rules! fam_rebuf {
    ($s:expr, $f:expr, $($T:ident)::+, $v:path, $U:ty) => {{
        if let Ok(m) = $($T)::+::try_from($s) {
            let r: $($T)::+<CVec<$U>> = RebufferFrom::rebuffer_from(m);
            $f("slice->custom-growable", usize::MAX, Ok($v(&r)));
            let m2: $($T)::+<CVec<$U>> = r.clone();
            same(&m2);
            let m = $($T)::+::try_from($s).unwrap();
            let r: $($T)::+<Sticky<$U>> = RebufferFrom::rebuffer_from(m);
            $f("slice->custom-sticky", usize::MAX, Ok($v(&r)));
            #[cfg(feature = "std")]
            {
                let m = $($T)::+::try_from($s).unwrap();
                let r: $($T)::+<Vec<$U>> = RebufferFrom::rebuffer_from(m);
                $f("slice->vec", usize::MAX, Ok($v(&r)));
            }
            for cap in [0, $s.len().saturating_sub(1), $s.len(), $s.len() + 1, LIMN] {
                let cap = cap.min(LIMN);
                let m = $($T)::+::try_from($s).unwrap();
                let r: Result<$($T)::+<Lim<$U, LIMN>>, _> = with_lim_cap(cap, || crate::alloc::watch(|| TryRebufferFrom::try_rebuffer_from(m)));
                $f("slice->limited(try)", cap, r.map(|m| $v(&m)).map_err(|_| ()));
            }
            {
                let m = $($T)::+::try_from($s).unwrap();
                let r: Result<$($T)::+<[$U; 4]>, _> = crate::alloc::watch(|| TryRebufferFrom::try_rebuffer_from(m));
                $f("slice->array(try)", 4, r.map(|m| $v(&m)).map_err(|_| ()));
                let m = $($T)::+::try_from($s).unwrap();
                let r: Result<$($T)::+<[$U; 13]>, _> = crate::alloc::watch(|| TryRebufferFrom::try_rebuffer_from(m));
                if let Ok(m) = r.clone() {
                    let r: $($T)::+<CVec<$U>> = RebufferInto::rebuffer_into(m);
                    $f("array->custom-growable", usize::MAX, Ok($v(&r)));
                }
                #[cfg(feature = "std")]
                if let Ok(m) = r.clone() {
                    let m: $($T)::+<Vec<$U>> = RebufferInto::rebuffer_into(m);
                    $f("array->vec", usize::MAX, Ok($v(&m)));
                    let r: Result<$($T)::+<[$U; 4]>, _> = TryRebufferInto::try_rebuffer_into(<$($T)::+<Vec<$U>>>::rebuffer_from($($T)::+::try_from($s).unwrap()));
                    $f("vec->array(try)", 4, r.map(|m| $v(&m)).map_err(|_| ()));
                }
                $f("slice->array(try)", 13, r.map(|m| $v(&m)).map_err(|_| ()));
            }
        }
    }};
}
macro_rules! fam_set {
    ($s:expr, $($T:ident)::+, $v:path, $g:expr, $c:expr; $($gm:ident)? ; $($cm:ident)?) => {{
        #[allow(unused_mut)]
        let mut m: $($T)::+<CVec<_>> = RebufferFrom::rebuffer_from($($T)::+::try_from($s).ok()?);
        #[allow(unused_mut)]
        let (mut sg, mut sc) = (false, false);
        $( if let Some(g) = $g { m.$gm(midi2::ux::u4::new(g)); sg = true; } )?
        $( if let Some(c) = $c { m.$cm(midi2::ux::u4::new(c)); sc = true; } )?
        let _ = ($g, $c);
        Some(($v(&m), sg, sc))
    }};
}
impl Agg for u32 {
    fn families() -> Vec<&'static str> {
        vec![
            #[cfg(feature = "channel-voice1")]
            "ChannelVoice1",
            #[cfg(feature = "channel-voice2")]
            "ChannelVoice2",
            #[cfg(feature = "flex-data")]
            "FlexData",
            #[cfg(feature = "system-common")]
            "SystemCommon",
            #[cfg(feature = "ump-stream")]
            "UmpStream",
            #[cfg(feature = "utility")]
            "Utility",
        ]
    }
    fn parse_family(fam: &str, s: &[u32]) -> Option<View<u32>> {
        match fam {
            #[cfg(feature = "channel-voice1")]
            "ChannelVoice1" => fam_parse!(s, channel_voice1::ChannelVoice1<&[u32]>, cv1_ump),
            #[cfg(feature = "channel-voice2")]
            "ChannelVoice2" => fam_parse!(s, channel_voice2::ChannelVoice2<&[u32]>, cv2),
            #[cfg(feature = "flex-data")]
            "FlexData" => fam_parse!(s, flex_data::FlexData<&[u32]>, flex),
            #[cfg(feature = "system-common")]
            "SystemCommon" => fam_parse!(s, system_common::SystemCommon<&[u32]>, sysc_ump),
            #[cfg(feature = "ump-stream")]
            "UmpStream" => fam_parse!(s, ump_stream::UmpStream<&[u32]>, stream),
            #[cfg(feature = "utility")]
            "Utility" => fam_parse!(s, utility::Utility<&[u32]>, utility_),
            _ => unreachable!(),
        }
    }
    fn compare_family(fam: &str, a: &[u32], b: &[u32]) -> Option<crate::kind::Same> {
        match fam {
            #[cfg(feature = "channel-voice1")]
            "ChannelVoice1" => fam_cmp!(a, b, channel_voice1::ChannelVoice1, u32),
            #[cfg(feature = "channel-voice2")]
            "ChannelVoice2" => fam_cmp!(a, b, channel_voice2::ChannelVoice2, u32),
            #[cfg(feature = "flex-data")]
            "FlexData" => fam_cmp!(a, b, flex_data::FlexData, u32),
            #[cfg(feature = "system-common")]
            "SystemCommon" => fam_cmp!(a, b, system_common::SystemCommon, u32),
            #[cfg(feature = "ump-stream")]
            "UmpStream" => fam_cmp!(a, b, ump_stream::UmpStream, u32),
            #[cfg(feature = "utility")]
            "Utility" => fam_cmp!(a, b, utility::Utility, u32),
            _ => {
                let _ = (a, b);
                None
            }
        }
    }
    fn compare_general(a: &[u32], b: &[u32]) -> Option<crate::kind::Same> {
        fam_cmp!(a, b, UmpMessage, u32)
    }
    fn parse_general(s: &[u32]) -> Option<View<u32>> {
        fam_parse!(s, UmpMessage<&[u32]>, ump)
    }
    fn general_rebuffers(s: &[u32], f: &mut dyn FnMut(&str, usize, Result<View<u32>, ()>)) {
        fam_rebuf!(s, f, UmpMessage, ump, u32)
    }
    fn family_rebuffers(fam: &str, s: &[u32], f: &mut dyn FnMut(&str, usize, Result<View<u32>, ()>)) {
        match fam {
            #[cfg(feature = "channel-voice1")]
            "ChannelVoice1" => {
                fam_rebuf!(s, f, channel_voice1::ChannelVoice1, cv1_ump, u32);
                if let Ok(m) = channel_voice1::ChannelVoice1::try_from(s) {
                    let r: channel_voice1::ChannelVoice1<[u32; 3]> = crate::alloc::watch(|| ArrayRebufferFrom::array_rebuffer_from(m));
                    f("slice->array(infallible)", usize::MAX, Ok(cv1_ump(&r)));
                }
            }
            #[cfg(feature = "channel-voice2")]
            "ChannelVoice2" => {
                fam_rebuf!(s, f, channel_voice2::ChannelVoice2, cv2, u32);
                if let Ok(m) = channel_voice2::ChannelVoice2::try_from(s) {
                    let r: channel_voice2::ChannelVoice2<[u32; 3]> = crate::alloc::watch(|| ArrayRebufferFrom::array_rebuffer_from(m));
                    f("slice->array(infallible)", usize::MAX, Ok(cv2(&r)));
                }
            }
            #[cfg(feature = "flex-data")]
            "FlexData" => fam_rebuf!(s, f, flex_data::FlexData, flex, u32),
            #[cfg(feature = "system-common")]
            "SystemCommon" => {
                fam_rebuf!(s, f, system_common::SystemCommon, sysc_ump, u32);
                if let Ok(m) = system_common::SystemCommon::try_from(s) {
                    let r: system_common::SystemCommon<[u32; 2]> = crate::alloc::watch(|| ArrayRebufferFrom::array_rebuffer_from(m));
                    f("slice->array(infallible)", usize::MAX, Ok(sysc_ump(&r)));
                }
            }
            #[cfg(feature = "ump-stream")]
            "UmpStream" => fam_rebuf!(s, f, ump_stream::UmpStream, stream, u32),
            #[cfg(feature = "utility")]
            "Utility" => {
                fam_rebuf!(s, f, utility::Utility, utility_, u32);
                if let Ok(m) = utility::Utility::try_from(s) {
                    let r: utility::Utility<[u32; 2]> = crate::alloc::watch(|| ArrayRebufferFrom::array_rebuffer_from(m));
                    f("slice->array(infallible)", usize::MAX, Ok(utility_(&r)));
                }
            }
            _ => unreachable!(),
        }
    }
    fn family_set(fam: &str, s: &[u32], g: Option<u8>, c: Option<u8>) -> Option<(View<u32>, bool, bool)> {
        match fam {
            #[cfg(feature = "channel-voice1")]
            "ChannelVoice1" => fam_set!(s, channel_voice1::ChannelVoice1, cv1_ump, g, c; set_group; set_channel),
            #[cfg(feature = "channel-voice2")]
            "ChannelVoice2" => fam_set!(s, channel_voice2::ChannelVoice2, cv2, g, c; set_group; set_channel),
            #[cfg(feature = "flex-data")]
            "FlexData" => fam_set!(s, flex_data::FlexData, flex, g, c; set_group; ),
            #[cfg(feature = "system-common")]
            "SystemCommon" => fam_set!(s, system_common::SystemCommon, sysc_ump, g, c; set_group; ),
            _ => None,
        }
    }
}
impl Agg for u8 {
    fn families() -> Vec<&'static str> {
        vec![
            #[cfg(feature = "channel-voice1")]
            "ChannelVoice1",
            #[cfg(feature = "system-common")]
            "SystemCommon",
        ]
    }
    fn parse_family(fam: &str, s: &[u8]) -> Option<View<u8>> {
        match fam {
            #[cfg(feature = "channel-voice1")]
            "ChannelVoice1" => fam_parse!(s, channel_voice1::ChannelVoice1<&[u8]>, cv1),
            #[cfg(feature = "system-common")]
            "SystemCommon" => fam_parse!(s, system_common::SystemCommon<&[u8]>, sysc),
            _ => {
                let _ = s;
                unreachable!()
            }
        }
    }
    fn compare_family(fam: &str, a: &[u8], b: &[u8]) -> Option<crate::kind::Same> {
        match fam {
            #[cfg(feature = "channel-voice1")]
            "ChannelVoice1" => fam_cmp!(a, b, channel_voice1::ChannelVoice1, u8),
            #[cfg(feature = "system-common")]
            "SystemCommon" => fam_cmp!(a, b, system_common::SystemCommon, u8),
            _ => {
                let _ = (a, b);
                None
            }
        }
    }
    fn compare_general(a: &[u8], b: &[u8]) -> Option<crate::kind::Same> {
        #[cfg(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common"))]
        return fam_cmp!(a, b, BytesMessage, u8);
        #[cfg(not(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common")))]
        {
            let _ = (a, b);
            None
        }
    }
    fn parse_general(s: &[u8]) -> Option<View<u8>> {
        #[cfg(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common"))]
        return fam_parse!(s, BytesMessage<&[u8]>, bytes);
        #[cfg(not(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common")))]
        {
            let _ = s;
            None
        }
    }
    fn general_rebuffers(s: &[u8], f: &mut dyn FnMut(&str, usize, Result<View<u8>, ()>)) {
        #[cfg(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common"))]
        fam_rebuf!(s, f, BytesMessage, bytes, u8);
        let _ = (s, f);
    }
    fn family_rebuffers(fam: &str, s: &[u8], f: &mut dyn FnMut(&str, usize, Result<View<u8>, ()>)) {
        match fam {
            #[cfg(feature = "channel-voice1")]
            "ChannelVoice1" => {
                fam_rebuf!(s, f, channel_voice1::ChannelVoice1, cv1, u8);
                if let Ok(m) = channel_voice1::ChannelVoice1::try_from(s) {
                    let r: channel_voice1::ChannelVoice1<[u8; 4]> = crate::alloc::watch(|| ArrayRebufferFrom::array_rebuffer_from(m));
                    f("slice->array(infallible)", usize::MAX, Ok(cv1(&r)));
                }
            }
            #[cfg(feature = "system-common")]
            "SystemCommon" => {
                fam_rebuf!(s, f, system_common::SystemCommon, sysc, u8);
                if let Ok(m) = system_common::SystemCommon::try_from(s) {
                    let r: system_common::SystemCommon<[u8; 4]> = crate::alloc::watch(|| ArrayRebufferFrom::array_rebuffer_from(m));
                    f("slice->array(infallible)", usize::MAX, Ok(sysc(&r)));
                }
            }
            _ => {
                let _ = (s, f);
                unreachable!()
            }
        }
    }
    fn family_set(fam: &str, s: &[u8], g: Option<u8>, c: Option<u8>) -> Option<(View<u8>, bool, bool)> {
        match fam {
            #[cfg(feature = "channel-voice1")]
            "ChannelVoice1" => fam_set!(s, channel_voice1::ChannelVoice1, cv1, g, c; ; set_channel),
            _ => {
                let _ = (s, g, c);
                None
            }
        }
    }
}

/// Families with a packet type that are compiled in.
pub fn family_names() -> Vec<&'static str> {
    let mut v = <u32 as Agg>::families();
    #[cfg(feature = "sysex7")]
    v.push("Sysex7");
    #[cfg(feature = "sysex8")]
    v.push("Sysex8");
    v
}
