//! The table of checks.
use crate::core::*;

pub const IDS: &[&str] = &["T01", "T02", "T03", "T04", "T05", "T06", "T07", "T08", "T09", "T10", "T11", "S01", "S02", "S03", "S04", "S05", "P01", "P02", "P03", "P04", "P05", "P06", "P07", "B01", "S06", "S07", "S08", "S09", "C01", "C02"];

pub fn get(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "T01" => crate::c_map::t01(thorough),
        "T02" => crate::c_map::t02(thorough),
        "T03" => crate::c_join::t03(thorough),
        "T04" => crate::c_join::t04(thorough),
        "T05" => crate::c_join::t05(thorough),
        "T06" => crate::c_join::t06(thorough),
        "T07" => crate::c_map::t07(thorough),
        "T08" => crate::c_map::t08(thorough),
        "T09" => crate::c_snap::t09(thorough),
        "T10" => crate::c_snap::t10(thorough),
        "T11" => crate::c_share::t11(thorough),
        "S01" => crate::c_attach::s01(thorough),
        "S02" => crate::c_attach::s02(thorough),
        "S03" => crate::c_attach::s03(thorough),
        "S04" => crate::c_attach::s04(thorough),
        "S05" => crate::c_format::s05(thorough),
        "P01" => crate::c_paged::p01(thorough),
        "P02" => crate::c_paged::p02(thorough),
        "P03" => crate::c_paged::p03(thorough),
        "P04" => crate::c_paged::p04(thorough),
        "P05" => crate::c_paged::p05(thorough),
        "P06" => crate::c_paged::p06(thorough),
        "P07" => crate::c_res::p07(thorough),
        "B01" => crate::c_blob::b01(thorough),
        "S06" => crate::c_fault::s06(thorough),
        "S07" => crate::c_bad::s07(thorough),
        "S09" => crate::c_durable::s09(thorough),
        "S08" => crate::c_lazy::s08(thorough),
        #[cfg(feature = "sched")]
        "C01" => crate::c_conc::c01(thorough),
        #[cfg(feature = "sched")]
        "C02" => crate::c_conc::c02(thorough),
        _ => return None,
    })
}
