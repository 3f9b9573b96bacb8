//! C08: blocks, classes, thumbnails.
use crate::rt::*;
use crate::sx;
use crate::sym::*;
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::*;
static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn n() -> u32 { N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1 }
fn fl(t: bool) -> f64 { if t { n() as f64 * 1.25 - 40.0 } else { sx::f64_() } }
fn pt(t: bool) -> Point { Point::new(fl(t), fl(t), fl(t)) }
fn le(t: bool) -> String { if t { ["ab", "c d", "X ", " u"][n() as usize % 4].into() } else { letters2() } }
fn pe(a: &Point, b: &Point) -> bool { feq(a.x, b.x) & feq(a.y, b.y) & feq(a.z, b.z) }
fn se(a: &str, b: &str) -> bool { beq(a.as_bytes(), b.as_bytes()) }
fn ent(k: u32, t: bool, st: bool) -> Entity {
    let mut e = Entity::new(match k {
        0 => EntityType::Line(Line::new(pt(t), pt(t))),
        1 => EntityType::Circle(Circle::new(pt(t), fl(true))),
        2 => { let mut x = Text::default(); x.value = le(st); x.location = pt(t); EntityType::Text(x) }
        _ => { let mut x = Insert::default(); x.name = "B1".into(); x.location = pt(t); EntityType::Insert(x) }
    });
    e.common.layer = le(st);
    e.common.is_in_paper_space = false;
    e
}
fn esame(a: &Entity, b: &Entity) -> bool {
    se(&a.common.layer, &b.common.layer) & match (&a.specific, &b.specific) {
        (EntityType::Line(a), EntityType::Line(b)) => pe(&a.p1, &b.p1) & pe(&a.p2, &b.p2),
        (EntityType::Circle(a), EntityType::Circle(b)) => pe(&a.center, &b.center) & feq(a.radius, b.radius),
        (EntityType::Text(a), EntityType::Text(b)) => pe(&a.location, &b.location) & se(&a.value, &b.value),
        (EntityType::Insert(a), EntityType::Insert(b)) => pe(&a.location, &b.location) & se(&a.name, &b.name),
        _ => false,
    }
}
fn blocks(c: &Cx, nb: u32, ne: u32, sy: u32) {
    let v = c.ver(0, 20);
    let t = c.text || sy == 0;
    let mut bs = vec![];
    for i in 0..nb {
        let mut b = Block::default();
        b.name = format!("B{}", i + 1);
        if sy == 1 && i == 0 && !t { b.name = letters2(); }
        b.flags = if t { (i as i32 + 1) * 4 } else { sx::i16() as i32 };
        b.base_point = pt(t);
        if sy != 2 { b.layer = le(t || sy != 1); b.xref_path_name = le(t); }
        b.description = if i == 0 && sy == 2 { String::new() } else { le(t || sy == 2) };
        b.is_in_paperspace = if c.text || sy == 2 || i > 0 { i == 1 } else { sx::bool_() };
        for j in 0..ne { b.entities.push(ent(if sy == 2 { pick(4) } else { j % 4 }, t, t || sy != 1)); }
        bs.push(b);
    }
    let mut d = drawing(v);
    for b in &bs { d.add_block(b.clone()); }
    d.add_entity(ent(0, true, true));
    let Some(d2) = reload(c, "blocks", &d, v) else { return };
    sx::reach("loaded");
    if d2.blocks().count() != bs.len() { c.chk(false, "number of blocks", v); return; }
    c.chk(d2.entities().count() == 1, "entities leave their block", v);
    for (a, b) in bs.iter().zip(d2.blocks()) {
        c.chk(se(&a.name, &b.name), "Block.name", v);
        c.chk(a.flags == b.flags, "Block.flags", v);
        c.chk(pe(&a.base_point, &b.base_point), "Block.base_point", v);
        c.chk(se(&a.layer, &b.layer), "Block.layer", v);
        c.chk(se(&a.xref_path_name, &b.xref_path_name), "Block.xref_path_name", v);
        c.chk(se(&a.description, &b.description), "Block.description", v);
        c.chk(a.is_in_paperspace == b.is_in_paperspace, "Block.is_in_paperspace", v);
        if a.entities.len() != b.entities.len() { c.chk(false, "number of entities in a block", v); continue; }
        for (x, y) in a.entities.iter().zip(&b.entities) { c.chk(esame(x, y), "an entity in a block changes", v); }
    }
}
fn classes(c: &Cx, nc: u32) {
    let v = c.ver(13, 20);
    let t = c.text;
    let mut cs = vec![];
    for i in 0..nc {
        let mut k = Class::default();
        let t = t || i > 0;
        k.record_name = le(t); k.class_name = le(t); k.application_name = le(t);
        k.version_number = if t { n() as i32 } else { sx::i32() };
        k.proxy_capability_flags = if t { n() as i32 } else { sx::i32() };
        k.instance_count = if t { n() as usize } else { (sx::u32() & 0x7fff_ffff) as usize };
        k.was_class_loaded_with_file = sx::bool_();
        k.is_entity = sx::bool_();
        cs.push(k);
    }
    let mut d = drawing(v);
    d.classes = cs.clone();
    d.add_entity(ent(0, true, true));
    let Some(d2) = reload(c, "classes", &d, v) else { return };
    sx::reach("loaded");
    let w = VERS[v as usize];
    c.chk(d2.entities().count() == 1, "entities change next to classes", v);
    if d2.classes.len() != cs.len() { c.chk(false, "number of classes", v); return; }
    for (a, b) in cs.iter().zip(&d2.classes) {
        c.chk(se(&a.record_name, &b.record_name), "Class.record_name", v);
        c.chk(se(&a.class_name, &b.class_name), "Class.class_name", v);
        c.chk(se(&a.application_name, &b.application_name), "Class.application_name", v);
        if w < AcadVersion::R14 { c.chk(a.version_number == b.version_number, "Class.version_number", v); } else { c.chk(a.proxy_capability_flags == b.proxy_capability_flags, "Class.proxy_capability_flags", v); }
        if w >= AcadVersion::R2004 { c.chk(a.instance_count == b.instance_count, "Class.instance_count", v); }
        c.chk(a.was_class_loaded_with_file == b.was_class_loaded_with_file, "Class.was_class_loaded_with_file", v);
        c.chk(a.is_entity == b.is_entity, "Class.is_entity", v);
    }
}
fn thumb(c: &Cx, kind: u32, w: u32, h: u32) {
    let v = c.ver(15, 20);
    let n = (w * h) as usize * match kind { 0 => 3, 1 => 4, _ => 1 };
    let px: Vec<u8> = if c.text { (0..n).map(|i| (i * 37 + 11) as u8).collect() } else { let mut p = sx::bytes(n.min(4)); for i in p.len()..n { p.push((i * 37 + 11) as u8); } p };
    let img = match kind {
        0 => image::DynamicImage::ImageRgb8(image::RgbImage::from_raw(w, h, px.clone()).unwrap()),
        1 => image::DynamicImage::ImageRgba8(image::RgbaImage::from_raw(w, h, px.clone()).unwrap()),
        _ => image::DynamicImage::ImageLuma8(image::GrayImage::from_raw(w, h, px.clone()).unwrap()),
    };
    let mut d = drawing(v);
    d.thumbnail = Some(img);
    d.add_entity(ent(0, true, true));
    let Some(d2) = reload(c, "thumbnail", &d, v) else { return };
    sx::reach("loaded");
    c.chk(d2.entities().count() == 1, "entities change next to the thumbnail", v);
    let Some(i2) = &d2.thumbnail else { c.chk(false, "the thumbnail is lost", v); return };
    c.chk(i2.width() == w && i2.height() == h, "size of the thumbnail", v);
    if i2.width() != w || i2.height() != h { return; }
    let exp: Vec<u8> = match kind { 0 => px.chunks(3).flat_map(|p| [p[0], p[1], p[2]]).collect(), 1 => px, _ => px.iter().flat_map(|p| [*p, *p, *p]).collect() };
    let got = if kind == 1 { i2.to_rgba8().into_raw() } else { i2.to_rgb8().into_raw() };
    c.chk(beq(&exp, &got), "pixels of the thumbnail", v);
}
fn none(c: &Cx) {
    let v = c.ver(0, 20);
    let d = drawing(v);
    let Some(d2) = reload(c, "nothing", &d, v) else { return };
    sx::reach("loaded");
    c.chk(d2.thumbnail.is_none() && d2.classes.is_empty() && d2.blocks().count() == 0, "something appears in an empty drawing", v);
}
/// case = what | a << 4 | b << 8 | tier << 20 | text << 24
#[no_mangle] pub extern "C" fn vh_blk(case: u32) {
    let (_, mut c) = cx(case & (1 << 24));
    c.tier = case >> 20 & 3;
    let (a, b) = (case >> 4 & 15, case >> 8 & 255);
    match case & 15 {
        0 => blocks(&c, a, b & 15, b >> 4),
        1 => classes(&c, a),
        2 => thumb(&c, a, (b & 15) + 1, (b >> 4) + 1),
        _ => none(&c),
    }
    sx::reach("end");
}
