//! Workloads and oracles, one unit per property and message type (or family).
use crate::core::UnitDef;
#[cfg(feature = "ci")]
mod ci;
mod convert;
mod pkt;
mod read;
mod same;
mod store;
mod sysex;

/// One unit per message type and representation.
#[macro_export]
macro_rules! each_kind {
    ($v:ident, $prop:literal, $q:expr, $t:expr, $f:ident) => {
        $crate::each_kind!($v, $prop, $q, $t, $f, |_s| true)
    };
    ($v:ident, $prop:literal, $q:expr, $t:expr, $f:ident, $filter:expr) => {{
        let filter: fn(&$crate::kind::Spec) -> bool = $filter;
        for k in $crate::tables::ump_kinds() {
            if filter(k.spec()) {
                let name = format!("{}/{}.{}.ump", $prop, k.spec().family, k.spec().name);
                $v.push($crate::core::unit(name, $q, $t, move |c| $f::<u32>(&*k, c)));
            }
        }
        for k in $crate::tables::bytes_kinds() {
            if filter(k.spec()) {
                let name = format!("{}/{}.{}.bytes", $prop, k.spec().family, k.spec().name);
                $v.push($crate::core::unit(name, $q, $t, move |c| $f::<u8>(&*k, c)));
            }
        }
    }};
}
pub fn units(prop: &str) -> Vec<UnitDef> {
    let mut v = vec![];
    let all = prop.is_empty();
    macro_rules! p {
        ($n:literal, $f:path) => {
            if all || prop == $n {
                $f(&mut v);
            }
        };
    }
    p!("P01", read::p01);
    p!("P02", read::p02);
    p!("P03", read::p03);
    p!("P04", read::p04);
    p!("P05", read::p05);
    p!("P06", read::p06);
    p!("P07", sysex::p07);
    p!("P08", sysex::p08);
    p!("P09", sysex::p09);
    p!("P10", convert::p10);
    p!("P11", convert::p11);
    p!("P12", pkt::p12);
    p!("P13", pkt::p13);
    p!("P14", store::p14);
    p!("P15", store::p15);
    p!("P16", store::p16);
    p!("P20", same::p20);
    #[cfg(feature = "ci")]
    p!("P16", ci::p16);
    #[cfg(feature = "ci")]
    p!("P18", ci::p18);
    v
}
