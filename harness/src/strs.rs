//! Text in drawings: escaping, encodings, long texts.
#![allow(dead_code)]
use crate::rt::*;
use crate::sx;
use crate::sym::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
fn ch(lo: u32, hi: u32) -> char {
    let c = if hi < 256 { sx::u8() as u32 } else if hi < 65536 { sx::u16() as u32 } else { sx::u32() };
    sx::assume(c >= lo && c <= hi && !(c >= 0xd800 && c < 0xe000));
    match char::from_u32(c) { Some(c) => c, None => { sx::assume(false); 'x' } }
}
fn asc() -> char { ch(0, 0x7f) }
pub const KINDS: u32 = 22;
fn text(k: u32, w: u32) -> String {
    let mut s = String::new();
    match k {
        0 => { s.push('a'); s.push(asc()); s.push('b'); }
        1 => { s.push(asc()); s.push('b'); }
        2 => { s.push('a'); s.push(asc()); }
        3 => { s.push(ch(w * 16, w * 16 + 15)); s.push(asc()); }
        4 => { s.push('a'); s.push(ch(0x80, 0x7ff)); s.push('b'); }
        5 => { s.push('a'); s.push(ch(0x800, 0xffff)); }
        6 => { s.push(ch(0x80, 0xffff)); s.push('b'); }
        7 => { s.push('a'); s.push(ch(0x10000, 0x10ffff)); s.push('b'); }
        8 => { s.push_str("\\U+"); for _ in 0..4 { s.push(ch(0x21, 0x7e)); } s.push('z'); }
        9 => { s.push_str("^"); s.push(asc()); s.push('b'); }
        10 => { s.push_str("%%"); s.push(asc()); }
        11 => { s.push('\u{e9}'); s.push(ch(0x20, 0x7e)); s.push(ch(0x20, 0x7e)); }
        12 => { s.push('\u{1c}'); s.push_str("U+004"); s.push(ch(0x20, 0x7e)); }
        13 => { s.push('\\'); s.push(asc()); s.push_str("+0041"); }
        14 => { s.push(ch(0x80, 0x7ff)); s.push(ch(0x80, 0x7ff)); }
        15 => { s.push('\u{1f600}'); s.push(ch(0x10000, 0x10ffff)); }
        16 => { s.push(' '); s.push(asc()); s.push(' '); }
        17 => {}
        18 => { s.push_str("\\\\U+00E9"); s.push(asc()); }
        19 => { s.push_str("{\\H2x;"); s.push(asc()); s.push('}'); }
        20 => { s.push(ch(0x80, 0xffff)); s.push(asc()); }
        _ => { s.push_str("\\M+1"); for _ in 0..2 { s.push(ch(0x30, 0x46)); } s.push_str("41"); }
    }
    s
}
pub const CARS: u32 = 13;
const NAMES: [&str; 13] = ["text value", "layer name", "multi-line text", "extended data", "header variable", "class name", "block description", "xrecord", "extension group", "dictionary key", "line type description", "attribute tag", "block name"];
/// puts the text into a drawing and gets it back out of the loaded drawing
fn put(k: u32, s: &str, d: &mut Drawing) {
    let t = || s.to_string();
    match k {
        0 => { let mut e = Text::default(); e.value = t(); d.add_entity(Entity::new(EntityType::Text(e))); }
        1 => { let mut l = Layer::default(); l.name = t(); d.add_layer(l); }
        2 => { let mut e = MText::default(); e.text = t(); d.add_entity(Entity::new(EntityType::MText(e))); }
        3 => { let mut e = Entity::new(EntityType::Line(Line::default())); e.common.x_data.push(XData { application_name: "A".into(), items: vec![XDataItem::Str(t())] }); d.add_entity(e); }
        4 => d.header.project_name = t(),
        5 => d.classes.push(Class { record_name: t(), class_name: "C".into(), ..Default::default() }),
        6 => { let mut b = Block::default(); b.name = "B".into(); b.description = t(); d.add_block(b); }
        7 => { let mut x = XRecordObject::default(); x.data_pairs.push(CodePair::new_str(1, s)); d.add_object(Object::new(ObjectType::XRecordObject(x))); }
        8 => { let mut e = Entity::new(EntityType::Line(Line::default())); e.common.extension_data_groups.push(ExtensionGroup { application_name: "A".into(), items: vec![ExtensionGroupItem::CodePair(CodePair::new_str(1, s))] }); d.add_entity(e); }
        9 => { let mut x = Dictionary::default(); x.value_handles.insert(t(), Handle(0x2b)); d.add_object(Object::new(ObjectType::Dictionary(x))); }
        10 => { let mut l = LineType::default(); l.name = "LT".into(); l.description = t(); d.add_line_type(l); }
        11 => { let mut i = Insert::default(); i.name = "B".into(); let mut a = Attribute::default(); a.attribute_tag = t(); i.add_attribute(d, a); d.add_entity(Entity::new(EntityType::Insert(i))); }
        _ => { let mut b = Block::default(); b.name = t(); d.add_block(b); }
    }
}
fn get(k: u32, d: &Drawing) -> Option<String> {
    let e = d.entities().next();
    let o = d.objects().next();
    match k {
        0 => match &e?.specific { EntityType::Text(t) => Some(t.value.clone()), _ => None },
        1 => d.layers().find(|l| l.name != "0").or(d.layers().next()).map(|l| l.name.clone()),
        2 => match &e?.specific { EntityType::MText(t) => Some([t.extended_text.concat(), t.text.clone()].concat()), _ => None },
        3 => match e?.common.x_data.first()?.items.first()? { XDataItem::Str(s) => Some(s.clone()), _ => None },
        4 => Some(d.header.project_name.clone()),
        5 => Some(d.classes.first()?.record_name.clone()),
        6 => Some(d.blocks().next()?.description.clone()),
        7 => match &o?.specific { ObjectType::XRecordObject(x) => match &x.data_pairs.first()?.value { CodePairValue::Str(s) => Some(s.clone()), _ => None }, _ => None },
        8 => match e?.common.extension_data_groups.first()?.items.first()? { ExtensionGroupItem::CodePair(p) => match &p.value { CodePairValue::Str(s) => Some(s.clone()), _ => None }, _ => None },
        9 => match &o?.specific { ObjectType::Dictionary(x) => x.value_handles.keys().next().cloned(), _ => None },
        10 => d.line_types().find(|l| l.name == "LT").map(|l| l.description.clone()),
        11 => match &e?.specific { EntityType::Insert(i) => { let r = i.attributes().next().map(|a| a.attribute_tag.clone()); r } _ => None },
        _ => Some(d.blocks().next()?.name.clone()),
    }
}
/// case = carrier | kind << 4 | version << 9 | T text drawing; kind 31: long texts, with the number of leading letters in bits 14 to 23
#[no_mangle] pub extern "C" fn vh_str(case: u32) {
    let (k, n, v) = (case & 15, case >> 4 & 31, case >> 9 & 31);
    let c = Cx { text: case >> 24 & 1 != 0, tier: 1, field: None, ver: Some(v) };
    let mut d = drawing(v);
    d.clear();
    let s = if n == 31 {
        let mut s: String = (0..case >> 14 & 1023).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        s.push(match pick(3) { 0 => ch(0x20, 0x7e), 1 => ch(0x80, 0x7ff), _ => ch(0x800, 0xffff) });
        s.push_str("xyz");
        s
    } else { text(n, case >> 14 & 7) };
    put(k, &s, &mut d);
    let w = NAMES[k as usize];
    let Some(o) = save(&c, w, &d, v) else { return };
    let Ok(l) = Drawing::load(&mut o.as_slice()) else { c.chk(false, &format!("{}: saved drawing does not load", w), v); return };
    sx::reach("loaded");
    match get(k, &l) { Some(r) => c.chk(r.len() == s.len() && r == s, &format!("{}: text changes", w), v), None => c.chk(false, &format!("{}: text is lost", w), v) }
    sx::reach("end");
}
