//! Numbers in text drawings.
#![allow(dead_code)]
use crate::rt::*;
use crate::sx;
use crate::sym::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::*;
const F: [f64; 32] = [0.0, -0.0, 1.0, -1.5, 0.1, 1.0 / 3.0, 123456.789, 1e-12, -1e-13, 4.9e-13, 5.1e-13, 1e15, 123456789012.123456, 9007199254740993.0, 1e100, -1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 0.999999999999, 0.9999999999996, -0.5, 1e22, 0.000001, 3.14159265358979, -2.718281828459045, 42.4242424242, -7777.77777777, 99999.9999999, 0.012345678901, -0.000567891234, 9.87654321e-7];
fn range(lo: i64, hi: i64) -> i64 { let v = sx::i64(); sx::assume(v >= lo && v <= hi); v }
fn p10(n: u32) -> i64 { 10i64.pow(n) }
/// case = kind | window << 4 | version << 16 | binary << 24
#[no_mangle] pub extern "C" fn vh_num(case: u32) {
    let (k, w, v) = (case & 15, case >> 4 & 0xfff, case >> 16 & 31);
    let c = Cx { text: case >> 24 & 1 == 0, tier: 1, field: None, ver: Some(v) };
    let mut d = drawing(v);
    d.clear();
    if k == 12 { return code(&c, w, d, v); }
    let (nm, p) = match k {
        0 => { let x = range(-32768 + w as i64 * 4096, -32768 + w as i64 * 4096 + 4095); ("short", CodePair::new_i16(70, x as i16)) }
        1 => { let x = int(w, 31); ("integer", CodePair::new_i32(90, x as i32)) }
        2 => { let x = int(w, 63); ("long", CodePair::new_i64(160, x)) }
        3 => { ("boolean", CodePair::new_bool(290, sx::bool_())) }
        4 => { let x = F[w as usize]; ("double", CodePair::new_f64(40, x)) }
        5 => { let mut x = sx::bytes(w as usize & 15); x.push(3); ("binary", CodePair::new_binary(310, x)) }
        9 => { let b = sx::u8() as u64; ("double", CodePair::new_f64(40, f64::from_bits(F[w as usize].to_bits() & !255 | b))) }
        10 => { let b = sx::u8() as u64 & 15; ("double", CodePair::new_f64(40, f64::from_bits(F[w as usize].to_bits() & !15 | b))) }
        // every number of so many digits
        11 => { let (n, bits) = (w & 31, if w & 64 != 0 { 63 } else { 31 }); let hi = (1u64 << bits) as i128 - 1; let (a, b) = (if n == 0 { 0 } else { 10i128.pow(n) }, (10i128.pow(n + 1) - 1).min(hi)); let (a, b) = if w & 32 != 0 { ((-b - 1).max(-hi - 1), -a) } else { (a, b) }; let x = range(a as i64, b as i64);
            if bits == 31 { ("integer", CodePair::new_i32(90, x as i32)) } else { ("long", CodePair::new_i64(160, x)) } }
        6 => ("handle", CodePair::new_i16(70, 0)),
        // a double that is a whole number
        7 => { let x = range(-(1 << w), 1 << w); ("whole double", CodePair::new_f64(40, x as f64)) }
        // a double with few decimals
        _ => { let x = range(0, 63); ("double", CodePair::new_f64(40, x as f64 / (1u64 << w) as f64)) }
    };
    if k == 6 { return handle(&c, w, d, v); }
    let mut x = XRecordObject::default(); x.data_pairs.push(p.clone()); d.add_object(Object::new(ObjectType::XRecordObject(x)));
    let Some(o) = save(&c, nm, &d, v) else { return };
    let Ok(l) = Drawing::load(&mut o.as_slice()) else { c.chk(false, &format!("{}: saved drawing does not load", nm), v); return };
    sx::reach("loaded");
    let r = match l.objects().next().map(|o| &o.specific) { Some(ObjectType::XRecordObject(x)) => x.data_pairs.first().cloned(), _ => None };
    let ok = match (&p.value, r.map(|r| r.value)) {
        (CodePairValue::Short(a), Some(CodePairValue::Short(b))) => *a == b,
        (CodePairValue::Integer(a), Some(CodePairValue::Integer(b))) => *a == b,
        (CodePairValue::Long(a), Some(CodePairValue::Long(b))) => *a == b,
        (CodePairValue::Boolean(a), Some(CodePairValue::Boolean(b))) => *a == b,
        (CodePairValue::Str(a), Some(CodePairValue::Str(b))) => *a == b,
        (CodePairValue::Binary(a), Some(CodePairValue::Binary(b))) => beq(a, &b),
        (CodePairValue::Double(a), Some(CodePairValue::Double(b))) => if c.text { (a - b).abs() <= 5.000001e-13 + a.abs() * 1e-15 } else { a.to_bits() == b.to_bits() },
        _ => false,
    };
    c.chk(ok, &format!("{}: value changes", nm), v);
    sx::reach("end");
}
/// numbers around the window-th power of ten, positive or negative, or the limits of the type
fn int(w: u32, bits: u32) -> i64 {
    let n = w & 31;
    let hi = (1u64 << bits) as i128 - 1;
    let (a, b) = if n == 31 { (hi - 15, hi) } else { let p = p10(n.min(18)) as i128; (p - 16, p + 15) };
    let (a, b) = if w & 32 != 0 { (-b - 1, -a) } else { (a, b) };
    range(a.max(-hi - 1) as i64, b.min(hi) as i64)
}
/// handles of so many hexadecimal digits, one of them symbolic
fn handle(c: &Cx, w: u32, mut d: Drawing, v: u32) {
    let (n, p) = (w & 15, w >> 6 & 15);
    let g = sx::u8() as u64;
    sx::assume(g < 16 && (n == 0 || p != n || g != 0));
    let h = (0x8f7e_6d5c_4b3a_2911u64 >> (60 - 4 * n)) & !(15 << (4 * p)) | g << (4 * p);
    match w >> 4 & 3 {
        0 => {
            let mut x = Dictionary::default(); x.value_handles.insert("K".into(), Handle(h)); d.add_object(Object::new(ObjectType::Dictionary(x)));
        }
        1 => { let mut e = Entity::new(EntityType::Line(Line::default())); e.common.x_data.push(XData { application_name: "A".into(), items: vec![XDataItem::Handle(Handle(h))] }); d.add_entity(e); }
        _ => { sx::assume(h != 0); let mut x = Layout::default(); x.layout_name = "L".into(); x.__viewport_handle = Handle(h); d.add_object(Object::new(ObjectType::Layout(x))); }
    }
    let Some(o) = save(c, "handle", &d, v) else { return };
    let Ok(l) = Drawing::load(&mut o.as_slice()) else { c.chk(false, "handle: saved drawing does not load", v); return };
    sx::reach("loaded");
    let r = match w >> 4 & 3 {
        0 => match l.objects().next().map(|o| &o.specific) { Some(ObjectType::Dictionary(x)) => x.value_handles.get("K").cloned(), _ => None },
        1 => match l.entities().next().and_then(|e| e.common.x_data.first()).and_then(|x| x.items.first()) { Some(XDataItem::Handle(h)) => Some(*h), _ => None },
        _ => match l.objects().next().map(|o| &o.specific) { Some(ObjectType::Layout(x)) => Some(x.__viewport_handle), _ => None },
    };
    c.chk(r == Some(Handle(h)), "handle: value changes", v);
    sx::reach("end");
}
/// a pair of any code of a value class
fn code(c: &Cx, w: u32, mut d: Drawing, v: u32) {
    use crate::mk::{kind, K};
    let k = [K::Str, K::F64, K::I16, K::I32, K::I64, K::Bool, K::Bin][(w & 7) as usize];
    let n = sx::u16() as u32;
    sx::assume(n > 0 && n < 1072 && n != 999 && n != 1001 && n != 280 && kind(n) == Some(k));
    let n = n as i32;
    let p = match k { K::Str => CodePair::new_str(n, "1A"), K::F64 => CodePair::new_f64(n, 1.5), K::I16 => CodePair::new_i16(n, -7), K::I32 => CodePair::new_i32(n, 70000), K::I64 => CodePair::new_i64(n, 1 << 40), K::Bool => CodePair::new_bool(n, true), K::Bin => CodePair::new_binary(n, vec![1, 2]) };
    let q = CodePair::new_i16(70, 1234);
    let mut x = XRecordObject::default(); x.data_pairs.push(q.clone()); x.data_pairs.push(p.clone()); x.data_pairs.push(q.clone()); d.add_object(Object::new(ObjectType::XRecordObject(x)));
    let Some(o) = save(c, "group code", &d, v) else { return };
    let Ok(l) = Drawing::load(&mut o.as_slice()) else { c.chk(false, "group code: saved drawing does not load", v); return };
    sx::reach("loaded");
    let ok = match l.objects().next().map(|o| &o.specific) { Some(ObjectType::XRecordObject(x)) => x.data_pairs.len() == 3 && x.data_pairs[1].code == p.code && x.data_pairs[1].value == p.value && x.data_pairs[2].code == 70 && x.data_pairs[2].value == q.value, _ => false };
    c.chk(ok, &format!("group code: pair changes {:?}", k), v);
    sx::reach("end");
}
