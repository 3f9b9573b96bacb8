//! C19: colours, line weights, enumerations and their stored numbers.
use crate::gen_conv::*;
use crate::mk::*;
use crate::sx;
use dxf::enums::*;
use dxf::*;
fn load(w: &W) -> Option<Drawing> { match Drawing::load(&mut w.b.as_slice()) { Ok(d) => Some(d), Err(_) => { sx::check(false, "the drawing does not load"); None } } }
fn resave(d: &Drawing) -> Vec<Pr> {
    let mut o = vec![];
    if d.save_binary(&mut o).is_err() { sx::check(false, "the drawing does not save"); return vec![]; }
    match parse(&o, false, true) { Some(p) => p, None => { sx::check(false, "the saved drawing is not a sequence of pairs"); vec![] } }
}
fn line_file(c: u32, v: i16) -> W { let mut w = W::bin(true); w.ver("AC1032").sec("ENTITIES").s(0, "LINE").s(5, "A1").s(100, "AcDbEntity").s(8, "0").h(c, v).s(100, "AcDbLine").f(10, 1.0).end().eof(); w }
fn predicates(c: &Color, v: i16, n: &str) {
    sx::check(c.is_by_layer() == (v == 256), &format!("{}: is_by_layer", n));
    sx::check(c.is_by_block() == (v == 0), &format!("{}: is_by_block", n));
    sx::check(c.is_by_entity() == (v == 257), &format!("{}: is_by_entity", n));
    sx::check(c.is_turned_off() == (v < 0), &format!("{}: is_turned_off", n));
    sx::check(c.is_index() == (v >= 1 && v <= 255), &format!("{}: is_index", n));
    match c.index() { Some(i) => sx::check(v >= 1 && v <= 255 && i as i16 == v, &format!("{}: index", n)), None => sx::check(v < 1 || v > 255, &format!("{}: no index", n)) }
}
fn entity_color() {
    let v = sx::i16();
    let Some(d) = load(&line_file(62, v)) else { return };
    let Some(e) = d.entities().next() else { sx::check(false, "entity lost"); return };
    predicates(&e.common.color, v, "colour of an entity");
    let ps = resave(&d);
    match item(&ps, "LINE").and_then(|i| find(i, 62)) { Some(V::H(x)) => sx::check(*x == v, "colour number changes"), _ => sx::check(v == 256, "colour number is not written") }
    sx::reach("end");
}
fn layer_color() {
    let v = sx::i16();
    sx::assume(v != i16::MIN);
    let mut w = W::bin(true);
    w.ver("AC1032").sec("TABLES").s(0, "TABLE").s(2, "LAYER").s(5, "2").s(100, "AcDbSymbolTable").h(70, 1).s(0, "LAYER").s(5, "A2").s(100, "AcDbSymbolTableRecord").s(100, "AcDbLayerTableRecord").s(2, "QQ").h(70, 0).h(62, v).s(6, "CONTINUOUS").s(0, "ENDTAB").end().eof();
    let Some(d) = load(&w) else { return };
    let Some(l) = d.layers().find(|l| l.name == "QQ") else { sx::check(false, "layer lost"); return };
    sx::check(l.is_layer_on == (v >= 0), "is_layer_on does not reflect the sign of the colour number");
    predicates(&l.color, v.abs(), "colour of a layer");
    let ps = resave(&d);
    let Some(i) = ps.iter().position(|p| is(p, 2, "QQ")) else { sx::check(false, "layer is not written"); return };
    match find(&ps[i..], 62) { Some(V::H(x)) => sx::check(*x == v, "layer colour number changes"), _ => sx::check(false, "layer colour number is not written") }
    sx::reach("end");
}
fn made_colors() {
    let i = sx::u8();
    predicates(&Color::from_index(i), i as i16, "from_index");
    predicates(&Color::by_layer(), 256, "by_layer");
    predicates(&Color::by_block(), 0, "by_block");
    predicates(&Color::by_entity(), 257, "by_entity");
    let mut c = Color::from_index(i);
    c.set_by_layer(); predicates(&c, 256, "set_by_layer");
    c.set_by_block(); predicates(&c, 0, "set_by_block");
    c.set_by_entity(); predicates(&c, 257, "set_by_entity");
    c.turn_off(); sx::check(c.is_turned_off() && !c.is_index() && !c.is_by_layer() && !c.is_by_block() && !c.is_by_entity(), "turn_off");
    let j = sx::u8();
    sx::check((Color::from_index(i) == Color::from_index(j)) == (i == j), "colours of different indices are equal");
    sx::reach("end");
}
fn line_weight() {
    let v = sx::i16();
    let Some(d) = load(&line_file(370, v)) else { return };
    let Some(e) = d.entities().next() else { sx::check(false, "entity lost"); return };
    sx::check(e.common.lineweight_enum_value == v, "line weight of an entity");
    let mut w = W::bin(true);
    w.sec("HEADER").s(9, "$ACADVER").s(1, "AC1032").s(9, "$CELWEIGHT").h(370, v).end().eof();
    let Some(d) = load(&w) else { return };
    let l = &d.header.new_object_line_weight;
    sx::check(l.raw_value() == v, "raw value of a line weight");
    sx::check(l.is_by_block() == (v == -1), "LineWeight::is_by_block");
    sx::check(l.is_by_layer() == (v == -2), "LineWeight::is_by_layer");
    sx::check(LineWeight::by_block().raw_value() == -1 && LineWeight::by_layer().raw_value() == -2, "LineWeight constructors");
    let ps = resave(&d);
    match hvar(&ps, "$CELWEIGHT") { Some((370, V::H(x))) => sx::check(*x == v, "line weight number changes"), _ => sx::check(false, "line weight is not written") }
    sx::reach("end");
}
const VS: &[(&str, AcadVersion)] = &[("MC0.0", AcadVersion::Version_1_0), ("AC1.2", AcadVersion::Version_1_2), ("AC1.40", AcadVersion::Version_1_40), ("AC1.50", AcadVersion::Version_2_05), ("AC2.10", AcadVersion::Version_2_10), ("AC2.21", AcadVersion::Version_2_21), ("AC2.22", AcadVersion::Version_2_22), ("AC1001", AcadVersion::Version_2_22), ("AC1002", AcadVersion::Version_2_5), ("AC1003", AcadVersion::Version_2_6), ("AC1004", AcadVersion::R9), ("AC1006", AcadVersion::R10), ("AC1009", AcadVersion::R12), ("AC1011", AcadVersion::R13), ("AC1012", AcadVersion::R13), ("AC1014", AcadVersion::R14), ("AC1015", AcadVersion::R2000), ("AC1018", AcadVersion::R2004), ("AC1021", AcadVersion::R2007), ("AC1024", AcadVersion::R2010), ("AC1027", AcadVersion::R2013), ("AC1032", AcadVersion::R2018),
    ("14", AcadVersion::R14), ("14.01", AcadVersion::R14), ("15.0", AcadVersion::R2000), ("15.05", AcadVersion::R2000), ("15.06", AcadVersion::R2000), ("16.0", AcadVersion::R2004), ("16.1", AcadVersion::R2004), ("16.2", AcadVersion::R2004), ("17.0", AcadVersion::R2007), ("17.1", AcadVersion::R2007), ("17.2", AcadVersion::R2007), ("18.0", AcadVersion::R2010), ("18.1", AcadVersion::R2010), ("18.2", AcadVersion::R2010), ("19.0", AcadVersion::R2013), ("19.1", AcadVersion::R2013), ("19.2", AcadVersion::R2013), ("19.3", AcadVersion::R2013)];
fn versions() {
    for (s, v) in VS { sx::check(matches!(AcadVersion::from(s.to_string()), Ok(x) if x == *v), &format!("version string {}", s)); }
    for v in crate::sym::VERS {
        if v == AcadVersion::R11 { continue; } // shares its string with R12
        sx::check(matches!(AcadVersion::from(v.to_string()), Ok(x) if x == v), &format!("{:?} does not survive its version string", v));
    }
    for (i, a) in crate::sym::VERS.iter().enumerate() { for (j, b) in crate::sym::VERS.iter().enumerate() { sx::check((a < b) == (i < j), "order of versions"); } }
    // any three digits
    let b = sx::bytes(3);
    for x in &b { sx::assume(*x >= b'0' && *x <= b'9'); }
    let mut s = String::from("AC1");
    for x in &b { s.push(*x as char); }
    let got = AcadVersion::from(s.clone());
    let mut exp = None;
    for (t, v) in VS { if t.len() == 6 && crate::sym::beq(t.as_bytes(), s.as_bytes()) { exp = Some(*v); } }
    match (got, exp) { (Ok(a), Some(b)) => sx::check(a == b, "version of a string"), (Ok(_), None) => sx::check(false, "an unknown version string is accepted"), (Err(_), Some(_)) => sx::check(false, "a version string is rejected"), _ => () }
    sx::reach("end");
}
fn enums() {
    for (n, a, b) in NUMS { sx::check(a == b, &format!("{} has another number", n)); }
    sx::reach("end");
}
fn one_enum(i: usize) {
    if let Some((n, f, vs)) = ENUMS.get(i) {
        let v = sx::i32() as i64;
        let known = vs.iter().fold(false, |k, x| k | (x.1 == v));
        match f(v) { Some(x) => { sx::check(x == v, &format!("{}: a number becomes another variant", n)); sx::check(known, &format!("{}: an unknown number becomes a variant", n)); } None => sx::check(!known, &format!("{}: the number of a variant is not recognised", n)) }
    }
    sx::reach("end");
}
fn header_enum(i: usize) {
    let Some((n, c, vs, def)) = HDR.get(i) else { return };
    let v = sx::i16();
    let mut w = W::bin(true);
    w.sec("HEADER").s(9, "$ACADVER").s(1, "AC1032").s(9, n);
    if *c == 40 { w.f(40, v as f64); } else { w.h(*c, v); }
    w.end().eof();
    let Some(d) = load(&w) else { return };
    let ps = resave(&d);
    let got = match hvar(&ps, n) { Some((_, V::H(x))) => *x as i64, Some((_, V::F(x))) => *x as i64, _ => { sx::check(false, &format!("{} is not written", n)); return } };
    let known = vs.iter().fold(false, |k, x| k | (*x == v as i64));
    sx::check(got == if known { v as i64 } else { *def }, &format!("{}: number {}", n, "is neither kept nor replaced by the default"));
    sx::reach("end");
}
#[no_mangle] pub extern "C" fn vh_conv(case: u32) {
    match case { 0 => entity_color(), 1 => layer_color(), 2 => made_colors(), 3 => line_weight(), 4 => versions(), 5 => enums(), 100.. => one_enum(case as usize - 100), n => header_enum(n as usize - 6) }
}
