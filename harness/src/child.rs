//! C22: children stay with their parent, in order.
use crate::rt::*;
use crate::sx;
use crate::sym::*;
use dxf::entities::*;
use dxf::*;
fn fl(t: bool, n: &mut u32) -> f64 { *n += 1; if t { *n as f64 * 1.25 - 40.0 } else { sx::f64_() } }
fn pt(t: bool, n: &mut u32) -> Point { Point::new(fl(t, n), fl(t, n), fl(t, n)) }
fn vertex(t: bool, n: &mut u32) -> Vertex {
    let mut v = Vertex::new(pt(t, n));
    // written unless zero: concrete here, any value in the round trip of a lone VERTEX (C04)
    v.starting_width = fl(true, n); v.ending_width = fl(true, n); v.bulge = fl(true, n); v.curve_fit_tangent_direction = fl(t, n);
    v.polyface_mesh_vertex_index1 = *n as i32; v.polyface_mesh_vertex_index2 = -(*n as i32); v.polyface_mesh_vertex_index3 = *n as i32 + 1000; v.polyface_mesh_vertex_index4 = if *n & 1 == 0 { 0 } else { 5 };
    if !t { v.identifier = sx::i32(); } else { v.identifier = *n as i32 + 70; }
    v.flags = if *n & 2 == 0 { 1 } else { 18 };
    v
}
fn attr(t: bool, n: &mut u32) -> Attribute {
    let mut a = Attribute::default();
    a.location = pt(t, n);
    a.value = format!("v{}", n); a.attribute_tag = format!("T{}", n);
    a.m_text.text = format!("m{}", n); a.m_text.insertion_point = pt(t, n);
    a.rotation = fl(true, n);
    a
}
/// `w`: the flags of a polyline and the flags and indices of its first vertex are symbolic
fn mk(d: &mut Drawing, k: u32, kids: u32, t: bool, w: bool, n: &mut u32) -> Entity {
    *n += 1;
    Entity::new(match k {
        0 => EntityType::Line(Line::new(pt(t, n), pt(t, n))),
        1 => { let mut p = Polyline::default(); p.flags = [0, 1, 8, 16, 64, 128][*n as usize % 6]; if w { p.flags = (sx::i16() & 0xff) as i32; } p.thickness = fl(true, n);
            for i in 0..kids {
                let mut v = vertex(t, n);
                if w && i == 0 { v.flags = (sx::i16() & 0xff) as i32; v.polyface_mesh_vertex_index1 = sx::i16() as i32; v.polyface_mesh_vertex_index2 = sx::i16() as i32; v.polyface_mesh_vertex_index3 = sx::i16() as i32; v.polyface_mesh_vertex_index4 = sx::i16() as i32; }
                p.add_vertex(d, v);
            } EntityType::Polyline(p) }
        2 => { let mut p = Insert::default(); p.name = "BB".into(); p.location = pt(t, n); for _ in 0..kids { let v = attr(t, n); p.add_attribute(d, v); } EntityType::Insert(p) }
        3 => EntityType::Attribute(attr(t, n)),
        4 => { let mut a = AttributeDefinition::default(); a.location = pt(t, n); a.value = format!("v{}", n); a.prompt = "p".into(); a.text_tag = "T".into(); a.m_text.text = format!("m{}", n); a.m_text.insertion_point = pt(t, n); EntityType::AttributeDefinition(a) }
        5 => { let mut m = MText::default(); m.text = format!("x{}", n); m.insertion_point = pt(t, n); EntityType::MText(m) }
        _ => { let mut m = Text::default(); m.value = format!("x{}", n); m.location = pt(t, n); EntityType::Text(m) }
    })
}
fn pe(a: &Point, b: &Point) -> bool { feq(a.x, b.x) & feq(a.y, b.y) & feq(a.z, b.z) }
fn mt(a: &MText, b: &MText, v: u32) -> bool { if VERS[v as usize] < AcadVersionR13 { return true; } a.text == b.text && pe(&a.insertion_point, &b.insertion_point) }
#[allow(non_upper_case_globals)] const AcadVersionR13: dxf::enums::AcadVersion = dxf::enums::AcadVersion::R13;
/// flags of a vertex: whether it belongs to a 3D polyline follows from the polyline, and whether to a mesh too unless it has indices
fn vsame(p: &Polyline, a: &Vertex, b: &Vertex, v: u32) -> bool {
    let w = VERS[v as usize];
    let mut r = pe(&a.location, &b.location) & feq(a.starting_width, b.starting_width) & feq(a.ending_width, b.ending_width) & feq(a.bulge, b.bulge) & feq(a.curve_fit_tangent_direction, b.curve_fit_tangent_direction);
    let none = (a.polyface_mesh_vertex_index1 | a.polyface_mesh_vertex_index2 | a.polyface_mesh_vertex_index3 | a.polyface_mesh_vertex_index4) == 0;
    let mut f = a.flags & !32 | (p.flags & 8) << 2;
    if none { f = f & !64 | (p.flags & 16) << 2; }
    r &= f == b.flags;
    if w >= dxf::enums::AcadVersion::R12 { r &= (a.polyface_mesh_vertex_index1 == b.polyface_mesh_vertex_index1) & (a.polyface_mesh_vertex_index2 == b.polyface_mesh_vertex_index2) & (a.polyface_mesh_vertex_index3 == b.polyface_mesh_vertex_index3) & (a.polyface_mesh_vertex_index4 == b.polyface_mesh_vertex_index4); }
    if w >= dxf::enums::AcadVersion::R2010 { r &= a.identifier == b.identifier; }
    r
}
fn asame(a: &Attribute, b: &Attribute, v: u32) -> bool { (a.value == b.value) & (a.attribute_tag == b.attribute_tag) & pe(&a.location, &b.location) & feq(a.rotation, b.rotation) & mt(&a.m_text, &b.m_text, v) }
fn same(c: &Cx, a: &Entity, b: &Entity, v: u32) {
    match (&a.specific, &b.specific) {
        (EntityType::Line(a), EntityType::Line(b)) => c.chk(pe(&a.p1, &b.p1) & pe(&a.p2, &b.p2), "a neighbour changes", v),
        (EntityType::Polyline(a), EntityType::Polyline(b)) => {
            c.chk((a.flags == b.flags) & feq(a.thickness, b.thickness), "the polyline changes", v);
            if a.vertices().count() != b.vertices().count() { c.chk(false, "number of vertices", v); return; }
            for (x, y) in a.vertices().zip(b.vertices()) { c.chk(vsame(a, x, y, v), "a vertex changes", v); }
        }
        (EntityType::Insert(a), EntityType::Insert(b)) => {
            c.chk((a.name == b.name) & pe(&a.location, &b.location), "the insert changes", v);
            if a.attributes().count() != b.attributes().count() { c.chk(false, "number of attributes", v); return; }
            for (x, y) in a.attributes().zip(b.attributes()) { c.chk(asame(x, y, v), "an attribute changes", v); }
        }
        (EntityType::Attribute(a), EntityType::Attribute(b)) => c.chk(asame(a, b, v), "a top-level attribute changes", v),
        (EntityType::AttributeDefinition(a), EntityType::AttributeDefinition(b)) => c.chk((a.value == b.value) & (a.prompt == b.prompt) & pe(&a.location, &b.location) & mt(&a.m_text, &b.m_text, v), "an attribute definition changes", v),
        (EntityType::MText(a), EntityType::MText(b)) => c.chk(a.text == b.text && pe(&a.insertion_point, &b.insertion_point), "a neighbouring text changes", v),
        (EntityType::Text(a), EntityType::Text(b)) => c.chk(a.value == b.value && pe(&a.location, &b.location), "a neighbouring text changes", v),
        _ => c.chk(false, "another kind of entity comes back", v),
    }
}
fn kinds(v: u32) -> Vec<u32> { if VERS[v as usize] >= AcadVersionR13 { vec![0, 1, 2, 3, 4, 5, 6] } else { vec![0, 1, 2, 3, 4, 6] } }
/// case = kind of the middle entity | children << 4 | in a block << 8 | thorough << 9 | text << 24
#[no_mangle] pub extern "C" fn vh_child(case: u32) {
    let (_, mut c) = cx(case & (1 << 24));
    c.tier = 1;
    let t = c.text;
    let (k, kids, blk) = (case & 15, case >> 4 & 15, case >> 8 & 1 == 1);
    let v = if case >> 9 & 1 == 1 { c.ver(10, 20) } else if t { [12, 20][pick(2) as usize] } else { [12, 14, 20][pick(3) as usize] };
    if k == 5 && v < 13 { return; }
    let mut d = drawing(v);
    let mut n = 0;
    let mut es = vec![];
    let kv = kinds(v);
    let k0 = kv[pick(kv.len() as u32) as usize];
    let k2 = kv[pick(kv.len() as u32) as usize];
    for (k, m) in [(k0, 1), (k, kids), (k2, 2)] { let e = mk(&mut d, k, m, t || es.len() != 1, !t && es.len() == 1 && k0 == 0 && k2 == 0, &mut n); es.push(e); }
    if blk {
        let mut b = Block::default();
        b.name = "BB".into();
        b.entities = es.clone();
        d.add_block(b);
        // and once more outside
        for e in &es { d.add_entity(e.clone()); }
    } else { for e in &es { d.add_entity(e.clone()); } }
    let Some(d2) = reload(&c, "children", &d, v) else { return };
    sx::reach("loaded");
    let mut groups: Vec<Vec<&Entity>> = vec![d2.entities().collect()];
    if blk {
        match d2.blocks().find(|b| b.name == "BB") { Some(b) => groups.push(b.entities.iter().collect()), None => c.chk(false, "the block is lost", v) }
    }
    for g in groups {
        if g.len() != es.len() { c.chk(false, "number of entities", v); continue; }
        for (a, b) in es.iter().zip(g) { same(&c, a, b, v); }
    }
    sx::reach("end");
}
