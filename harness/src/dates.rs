//! C23: dates and durations.
use crate::mk::*;
use crate::sx;
use crate::sym::*;
use chrono::*;
use dxf::enums::*;
use dxf::objects::*;
use dxf::*;
/// seconds since 1970: around these instants
const BASES: &[i64] = &[-2208988800 + 1, -2208988800 + 86400, -2208902400 - 40, -1, 0, 951782400 - 30, 951868800 - 30, 946684715, 1078012799 - 20, 1709251199 - 20, 1721995200, 4102444799 - 30, 4107542399, 16725225599 - 30, 32503680000 - 30, 253402300799 - 64];
fn sym_secs(case: u32, bits: u32) -> i64 { let b = BASES[case as usize % BASES.len()]; b + (sx::u16() as i64 & ((1 << bits) - 1)) }
fn go(d: &Drawing, text: bool) -> Option<Drawing> {
    let mut o = vec![];
    let r = if text { d.save(&mut o) } else { d.save_binary(&mut o) };
    if r.is_err() { sx::check(false, "saving fails"); return None; }
    match Drawing::load(&mut o.as_slice()) { Ok(d) => Some(d), Err(_) => { sx::check(false, "the saved drawing does not load"); None } }
}
/// all date fields of the header (or one alone) at `t`
fn header_dates(t: i64, text: bool) {
    let mut d = Drawing::new();
    d.header.version = AcadVersion::R2018;
    let (a, b, c, e) = (t, t + 1, t + 2, t + 3);
    d.header.creation_date = Local.timestamp_opt(a, 0).unwrap();
    d.header.creation_date_universal = Utc.timestamp_opt(b, 0).unwrap();
    d.header.update_date = Local.timestamp_opt(c, 0).unwrap();
    d.header.update_date_universal = Utc.timestamp_opt(e, 0).unwrap();
    let Some(d2) = go(&d, text) else { return };
    sx::check(d2.header.creation_date.timestamp() == a, "header creation_date changes");
    sx::check(d2.header.creation_date_universal.timestamp() == b, "header creation_date_universal changes");
    sx::check(d2.header.update_date.timestamp() == c, "header update_date changes");
    sx::check(d2.header.update_date_universal.timestamp() == e, "header update_date_universal changes");
    sx::reach("end");
}
fn header_one(t: i64) {
    let mut d = Drawing::new();
    d.header.version = AcadVersion::R2018;
    d.header.creation_date_universal = Utc.timestamp_opt(t, 0).unwrap();
    let Some(d2) = go(&d, false) else { return };
    sx::check(d2.header.creation_date_universal.timestamp() == t, "header creation_date_universal changes");
    sx::reach("end");
}
fn durations(text: bool) {
    let mut d = Drawing::new();
    d.header.version = AcadVersion::R2018;
    let (a, b) = if text { ([0u64, 1, 59, 60, 86399, 86400, 123456789][pick(7) as usize], 77) } else { (sx::u32() as u64, sx::u64() & ((1 << 52) - 1)) };
    d.header.time_in_drawing = std::time::Duration::from_secs(a);
    d.header.user_elapsed_timer = std::time::Duration::from_secs(b);
    let Some(d2) = go(&d, text) else { return };
    sx::check(d2.header.time_in_drawing.as_secs() == a, "header time_in_drawing changes");
    sx::check(d2.header.user_elapsed_timer.as_secs() == b, "header user_elapsed_timer changes");
    sx::reach("end");
}
fn obj_date(o: ObjectType, text: bool, f: &dyn Fn(&ObjectType) -> Option<bool>, n: &str) {
    let mut d = Drawing::new();
    d.header.version = AcadVersion::R2018;
    d.add_object(Object::new(o));
    let Some(d2) = go(&d, text) else { return };
    let Some(o) = d2.objects().last() else { sx::check(false, "object lost"); return };
    sx::check(f(&o.specific) == Some(true), n);
    sx::reach("end");
}
/// any stored double: loading does not panic, and a date stays a date that can be saved again
fn stored(w: u32) {
    let n = ["$TDINDWG", "$TDUSRTIMER", "$TDCREATE", "$TDUCREATE", "$TDUPDATE", "$TDUUPDATE"][(w & 7) as usize % 6];
    let mut o = W::bin(true);
    o.sec("HEADER").s(9, "$ACADVER").s(1, "AC1032").s(9, n);
    let x = match w >> 3 { 0 => sx::f64_any(), 1 => { let x = sx::f64_any(); sx::assume(!(x > 2415020.0)); x } 2 => { let x = sx::f64_any(); sx::assume(x > 1e20); x } 3 => { let x = sx::f64_any(); sx::assume(x > 1e13 && x <= 1e20); x } 4 => (2451544 + sx::u8() as i64) as f64, _ => f64::from_bits((sx::u16() as u64) << 52 | [0u64, 1, 0x8_0000_0000_0000, 0xf_ffff_ffff_ffff][(w >> 3 & 3) as usize]) };
    o.f(40, x);
    o.end().eof();
    sx::reach(if Drawing::load(&mut o.b.as_slice()).is_ok() { "loaded" } else { "rejected" });
    sx::reach("end");
}
const DATES: &[i64] = &[-2208988799, -2208902401, -1, 0, 1, 951782399, 951868800, 946684715, 1709164800, 1709251199, 1721995200, 1721995201, 4102444799, 4107542399, 253402300799];
#[no_mangle] pub extern "C" fn vh_dates(case: u32) {
    let k = case >> 8;
    match k {
        0 => header_one(sym_secs(case & 255, 8)),
        1 => header_dates(sym_secs(case & 255, 4), false),
        2 => header_dates(DATES[pick(DATES.len() as u32) as usize], true),
        3 => durations(case & 1 == 1),
        4 => {
            let text = case & 1 == 1;
            let t = DATES[pick(DATES.len() as u32) as usize];
            let mut x = LayerIndex::default();
            x.time_stamp = Local.timestamp_opt(t, 0).unwrap();
            obj_date(ObjectType::LayerIndex(x), text, &|o| if let ObjectType::LayerIndex(x) = o { Some(x.time_stamp.timestamp() == t) } else { None }, "LayerIndex.time_stamp changes");
        }
        5 => {
            let text = case & 1 == 1;
            let t = DATES[pick(DATES.len() as u32) as usize];
            let mut x = SpatialIndex::default();
            x.timestamp = Local.timestamp_opt(t, 0).unwrap();
            obj_date(ObjectType::SpatialIndex(x), text, &|o| if let ObjectType::SpatialIndex(x) = o { Some(x.timestamp.timestamp() == t) } else { None }, "SpatialIndex.timestamp changes");
        }
        6 => {
            let text = case & 1 == 1;
            let n = pick(4) as usize;
            let ts: Vec<i64> = (0..n).map(|i| DATES[(pick(5) as usize * 3 + i) % DATES.len()]).collect();
            let mut x = SunStudy::default();
            x.dates = ts.iter().map(|t| Local.timestamp_opt(*t, 0).unwrap()).collect();
            obj_date(ObjectType::SunStudy(x), text, &|o| if let ObjectType::SunStudy(x) = o { Some(x.dates.iter().map(|d| d.timestamp()).collect::<Vec<_>>() == ts) } else { None }, "SunStudy.dates change");
        }
        8 => {
            // midnights
            let t = -2208988800 + ((case & 255) as i64 * 512 + 1 + (sx::u8() as i64 & 15)) * 86400;
            let mut d = Drawing::new();
            d.clear();
            d.header.version = AcadVersion::R2018;
            d.header.creation_date_universal = Utc.timestamp_opt(t, 0).unwrap();
            let Some(d2) = go(&d, false) else { return };
            sx::check(d2.header.creation_date_universal.timestamp() == t, "header creation_date_universal changes");
            sx::reach("end");
        }
        _ => stored(case & 255),
    }
}
