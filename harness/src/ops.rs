//! Histories of editing operations: handles, references by name, normalizing.
#![allow(dead_code)]
use crate::ctx::wide;
use crate::mk::*;
use crate::rt::drawing;
use crate::sx;
use crate::sym::*;
use crate::wf::out;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
/// a name that may or may not be one of those in use
static TINY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn tiny() -> bool { TINY.load(std::sync::atomic::Ordering::Relaxed) }
/// every value below n, or only the first few
fn pk(n: u32) -> u32 { pick(if tiny() { n.min(2) } else { n }) }
fn name() -> String {
    match if tiny() { 2 } else { pick(3) } {
        0 => "0".into(),
        1 => "AA".into(),
        _ => { let b = sx::u8(); sx::assume(b >= b'A' && b <= b'z' && b != b'^' && b != b'\\'); String::from_utf8(vec![b'A', b]).unwrap_or_default() }
    }
}
pub struct St { pub d: Drawing, text: bool, dups: bool, cleared: bool, loaded: bool, names: bool }
pub const NOPS: u32 = 18;
fn ent(k: u32, d: &mut Drawing, n: &str) -> EntityType {
    match k {
        0 => { let mut p = Polyline::default(); p.add_vertex(d, Vertex::new(Point::new(1.0, 2.0, 3.0))); p.add_vertex(d, Vertex::new(Point::new(4.0, 5.0, 6.0))); EntityType::Polyline(p) }
        1 => { let mut p = Insert::default(); p.name = "BB".into(); p.add_attribute(d, Attribute::default()); EntityType::Insert(p) }
        2 => { let mut t = Text::default(); t.text_style_name = n.into(); EntityType::Text(t) }
        3 => { let mut t = MText::default(); t.text_style_name = n.into(); EntityType::MText(t) }
        4 => { let mut t = AttributeDefinition::default(); t.text_style_name = n.into(); EntityType::AttributeDefinition(t) }
        5 => { let mut t = RadialDimension::default(); t.dimension_base.dimension_style_name = n.into(); EntityType::RadialDimension(t) }
        6 => { let mut t = Leader::default(); t.dimension_style_name = n.into(); EntityType::Leader(t) }
        7 => { let mut t = Tolerance::default(); t.dimension_style_name = n.into(); EntityType::Tolerance(t) }
        8 => { let mut t = MLine::default(); t.style_name = n.into(); EntityType::MLine(t) }
        9 => { let mut t = Attribute::default(); t.text_style_name = n.into(); EntityType::Attribute(t) }
        10 => { let mut t = RotatedDimension::default(); t.dimension_base.dimension_style_name = n.into(); EntityType::RotatedDimension(t) }
        11 => { let mut t = DiameterDimension::default(); t.dimension_base.dimension_style_name = n.into(); EntityType::DiameterDimension(t) }
        12 => { let mut t = AngularThreePointDimension::default(); t.dimension_base.dimension_style_name = n.into(); EntityType::AngularThreePointDimension(t) }
        13 => { let mut t = OrdinateDimension::default(); t.dimension_base.dimension_style_name = n.into(); EntityType::OrdinateDimension(t) }
        14 => { let mut t = ArcAlignedText::default(); t.text_style_name = n.into(); EntityType::ArcAlignedText(t) }
        _ => EntityType::Line(Line::default()),
    }
}
impl St {
    fn op(&mut self, o: u32, few: bool) {
        let d = &mut self.d;
        match o {
            0 => { let mut e = Entity::new(EntityType::Line(Line::default())); e.common.layer = name(); d.add_entity(e); }
            1 => { let mut e = Entity::new(EntityType::Line(Line::default())); e.common.line_type_name = name(); e.common.handle = Handle(1); d.add_entity(e); }
            2 => { let k = pick(2); let e = Entity::new(ent(k, d, "")); d.add_entity(e); }
            3 => { let k = 2 + if few { [0, 6, 3][pk(3) as usize] } else { pick(13) }; let n = name(); let e = Entity::new(ent(k, d, &n)); d.add_entity(e); }
            4 => {
                let k = if few { [0, 2, 5, 8][pk(4) as usize] } else { pick(16) };
                let n = name();
                let mut b = Block::default();
                b.name = "BB".into(); b.layer = n.clone(); b.handle = Handle(1);
                let mut e = Entity::new(ent(k, d, &n)); e.common.layer = "CC".into(); e.common.line_type_name = n; e.common.handle = Handle(2);
                b.entities.push(e); b.entities.push(Entity::new(EntityType::Line(Line::default())));
                d.add_block(b);
            }
            5 => {
                let n = name();
                let o = match pk(5) {
                    0 => ObjectType::LayerFilter(LayerFilter { layer_names: vec!["AA".into(), n], ..Default::default() }),
                    1 => ObjectType::LayerIndex(LayerIndex { layer_names: vec![n, "AA".into()], ..Default::default() }),
                    2 => ObjectType::PlotSettings(PlotSettings { plot_view_name: n, ..Default::default() }),
                    3 => ObjectType::MLineStyle(MLineStyle { style_name: n, ..Default::default() }),
                    _ => ObjectType::Dictionary(Default::default()),
                };
                let mut o = Object::new(o);
                o.common.handle = Handle(1);
                d.add_object(o);
            }
            6 => { self.dups = true; let mut l = Layer::default(); l.name = name(); l.line_type_name = name(); d.add_layer(l); }
            7 => {
                self.dups = true;
                let n = if few { "AA".into() } else { name() };
                match pk(8) {
                    0 => { d.add_app_id(AppId { name: n, handle: Handle(1), ..Default::default() }); }
                    1 => { d.add_block_record(BlockRecord { name: n, handle: Handle(1), ..Default::default() }); }
                    2 => { d.add_dim_style(DimStyle { name: n, handle: Handle(1), ..Default::default() }); }
                    3 => { d.add_line_type(LineType { name: n, handle: Handle(1), ..Default::default() }); }
                    4 => { d.add_style(Style { name: n, handle: Handle(1), ..Default::default() }); }
                    5 => { d.add_ucs(Ucs { name: n, handle: Handle(1), ..Default::default() }); }
                    6 => { d.add_view(View { name: n, handle: Handle(1), ..Default::default() }); }
                    _ => { d.add_view_port(ViewPort { name: n, handle: Handle(1), ..Default::default() }); }
                }
            }
            8 => d.normalize(),
            9 => { if let Some(o) = out(d, self.text) { match Drawing::load(&mut &o[..]) { Ok(e) => { self.d = e; self.loaded = true; } Err(_) => sx::check(false, "a saved drawing does not load") } } else { sx::check(false, "a drawing cannot be saved"); } }
            10 => { let k = pk(4); match k { 0 => { d.remove_entity(0); } 1 => { d.remove_view_port(0); } 2 => { d.remove_block(0); } _ => { if !self.names { d.remove_object(0); } } } }
            // what was there before, once more
            11 => { let e = d.entities().next().cloned(); if let Some(e) = e { d.add_entity(e); } }
            12 => { let e = d.blocks().next().cloned(); if let Some(e) = e { d.add_block(e); } }
            13 => { let o = d.objects().next().cloned(); if let Some(e) = o { d.add_object(e); } let o = d.layers().next().cloned(); if let Some(e) = o { d.add_layer(e); self.dups = true; } }
            14 => { d.header.current_layer = name(); }
            15 => { let n = name(); match pk(6) { 0 => d.header.ucs_definition_name = n, 1 => d.header.ucs_name = n, 2 => d.header.ortho_ucs_reference = n, 3 => d.header.paperspace_ucs_definition_name = n, 4 => d.header.paperspace_ucs_name = n, _ => d.header.paperspace_ortho_ucs_reference = n } }
            16 => { d.clear(); self.cleared = true; }
            // a block copied from the entities, handles included
            _ => { let mut b = Block::default(); b.name = "DD".into(); b.entities = d.entities().cloned().collect(); d.add_block(b); }
        }
    }
}
fn has<'a>(mut i: impl Iterator<Item = &'a String>, n: &str) -> bool { i.any(|x| beq(x.as_bytes(), n.as_bytes())) }
fn handles(d: &Drawing) -> Vec<(u64, u32)> {
    let mut r: Vec<(u64, u32)> = vec![];
    for x in d.app_ids() { r.push((x.handle.0, 0)); }
    for x in d.blocks() { r.push((x.handle.0, 1)); for e in &x.entities { r.push((e.common.handle.0, 99)); } }
    for x in d.block_records() { r.push((x.handle.0, 2)); }
    for x in d.dim_styles() { r.push((x.handle.0, 3)); }
    for x in d.entities() { r.push((x.common.handle.0, 4)); }
    for x in d.layers() { r.push((x.handle.0, 5)); }
    for x in d.line_types() { r.push((x.handle.0, 6)); }
    for x in d.objects() { r.push((x.common.handle.0, 7)); }
    for x in d.styles() { r.push((x.handle.0, 8)); }
    for x in d.ucss() { r.push((x.handle.0, 9)); }
    for x in d.views() { r.push((x.handle.0, 10)); }
    for x in d.view_ports() { r.push((x.handle.0, 11)); }
    r
}
fn which(i: &DrawingItem) -> u32 {
    match i { DrawingItem::AppId(_) => 0, DrawingItem::Block(_) => 1, DrawingItem::BlockRecord(_) => 2, DrawingItem::DimStyle(_) => 3, DrawingItem::Entity(_) => 4, DrawingItem::Layer(_) => 5, DrawingItem::LineType(_) => 6, DrawingItem::Object(_) => 7, DrawingItem::Style(_) => 8, DrawingItem::Ucs(_) => 9, DrawingItem::View(_) => 10, DrawingItem::ViewPort(_) => 11 }
}
fn chk_handles(d: &mut Drawing, when: &str) {
    let hs = handles(d);
    let next = d.header.next_available_handle.0;
    for i in 0..hs.len() {
        let (h, k) = hs[i];
        sx::check(h != 0, &format!("an item has no handle{}", when));
        sx::check(h < next, &format!("the next available handle is not above a handle in use{}", when));
        sx::check(!hs[..i].iter().any(|x| x.0 == h), &format!("two items have the same handle{}", when));
        if k != 99 && h != 0 {
            let a = match d.item_by_handle(Handle(h)) { Some(x) => which(&x) == k && x.handle().0 == h, None => false };
            sx::check(a, &format!("looking up a handle does not find the item{}", when));
            let a = match d.item_by_handle_mut(Handle(h)) { Some(x) => which(&x.to_drawing_item()) == k && x.handle().0 == h, None => false };
            sx::check(a, &format!("looking up a handle does not find the item to change{}", when));
        }
    }
    sx::check(d.item_by_handle(Handle(next)).is_none() && d.item_by_handle_mut(Handle(next)).is_none(), &format!("a handle that is not in use is found{}", when));
}
/// handles in the saved drawing
fn chk_saved(d: &Drawing, text: bool, ver: u32) {
    let o = match out(d, text) { Some(o) => o, None => { sx::check(false, "a drawing cannot be saved"); return; } };
    let ps = match parse(&o, text, wide(ver)) { Some(p) => p, None => { sx::check(false, "not a sequence of pairs"); return; } };
    let mut seen: Vec<u64> = vec![];
    let mut seed = None;
    let mut item: &[u8] = b"";
    for (i, p) in ps.iter().enumerate() {
        if p.0 == 0 { if let V::S(s) = &p.1 { item = s; } }
        let h = match (&p.0, &p.1) { (5, V::S(s)) | (105, V::S(s)) => match std::str::from_utf8(s).ok().and_then(|s| u64::from_str_radix(s, 16).ok()) { Some(h) => h, None => { sx::check(false, "a handle is not a number"); return; } }, _ => continue };
        if i > 0 && is(&ps[i - 1], 9, "$HANDSEED") { seed = Some(h); continue; }
        if item == b"TABLE" || item == b"SECTION" || item == b"ENDBLK" { continue; }
        let n = String::from_utf8_lossy(item);
        sx::check(h != 0, &format!("an item is saved without a handle: {}", n));
        sx::check(!seen.contains(&h), &format!("two items are saved with the same handle: {}", n));
        seen.push(h);
    }
    if let Some(n) = seed { sx::check(seen.iter().all(|h| *h < n), "the next available handle is saved as one that is not above a handle in use"); }
}
fn chk_names(d: &Drawing, when: &str) {
    let lay = |n: &str| has(d.layers().map(|l| &l.name), n);
    let lt = |n: &str| has(d.line_types().map(|l| &l.name), n);
    let sty = |n: &str| has(d.styles().map(|l| &l.name), n);
    let dim = |n: &str| has(d.dim_styles().map(|l| &l.name), n);
    let one = |e: &Entity| {
        sx::check(lay(&e.common.layer), &format!("the layer of an entity does not exist{}", when));
        sx::check(lt(&e.common.line_type_name), &format!("the line type of an entity does not exist{}", when));
        let (s, m) = match &e.specific {
            EntityType::Text(t) => (Some(&t.text_style_name), None), EntityType::MText(t) => (Some(&t.text_style_name), None), EntityType::Attribute(t) => (Some(&t.text_style_name), None),
            EntityType::AttributeDefinition(t) => (Some(&t.text_style_name), None), EntityType::ArcAlignedText(t) => (Some(&t.text_style_name), None),
            EntityType::RotatedDimension(t) => (None, Some(&t.dimension_base.dimension_style_name)), EntityType::RadialDimension(t) => (None, Some(&t.dimension_base.dimension_style_name)),
            EntityType::DiameterDimension(t) => (None, Some(&t.dimension_base.dimension_style_name)), EntityType::AngularThreePointDimension(t) => (None, Some(&t.dimension_base.dimension_style_name)),
            EntityType::OrdinateDimension(t) => (None, Some(&t.dimension_base.dimension_style_name)), EntityType::Leader(t) => (None, Some(&t.dimension_style_name)), EntityType::Tolerance(t) => (None, Some(&t.dimension_style_name)),
            EntityType::MLine(m) => { sx::check(d.objects().any(|o| matches!(&o.specific, ObjectType::MLineStyle(s) if beq(s.style_name.as_bytes(), m.style_name.as_bytes()))), &format!("the style of a multi-line does not exist{}", when)); (None, None) }
            _ => (None, None),
        };
        if let Some(s) = s { sx::check(sty(s), &format!("the text style of an entity does not exist{}", when)); }
        if let Some(s) = m { sx::check(dim(s), &format!("the dimension style of an entity does not exist{}", when)); }
    };
    for e in d.entities() { one(e); }
    for b in d.blocks() {
        sx::check(lay(&b.layer), &format!("the layer of a block does not exist{}", when));
        sx::check(has(d.block_records().map(|l| &l.name), &b.name), &format!("the block record of a block does not exist{}", when));
        for e in &b.entities { one(e); }
    }
    for l in d.layers() { sx::check(lt(&l.line_type_name), &format!("the line type of a layer does not exist{}", when)); }
    for o in d.objects() {
        match &o.specific {
            ObjectType::LayerFilter(f) => for n in &f.layer_names { sx::check(lay(n), &format!("the layer of a layer filter does not exist{}", when)); },
            ObjectType::LayerIndex(f) => for n in &f.layer_names { sx::check(lay(n), &format!("the layer of a layer index does not exist{}", when)); },
            ObjectType::PlotSettings(p) => sx::check(has(d.views().map(|l| &l.name), &p.plot_view_name), &format!("the view of plot settings does not exist{}", when)),
            _ => (),
        }
    }
}
fn once<'a>(i: impl Iterator<Item = &'a String>, what: &str) {
    let v: Vec<&String> = i.collect();
    for a in 0..v.len() { for b in 0..a { sx::check(!beq(v[a].as_bytes(), v[b].as_bytes()), &format!("{} is there twice", what)); } }
}
fn sorted<'a>(i: impl Iterator<Item = &'a String>, what: &str) {
    let v: Vec<&String> = i.collect();
    for a in 1..v.len() { sx::check(v[a - 1] <= v[a], &format!("{} are not sorted after normalizing", what)); }
}
fn names(d: &Drawing) -> Vec<Vec<String>> {
    macro_rules! n { ($($f:ident)*) => { vec![$(d.$f().map(|x| format!("{}/{:X}", x.name, x.handle.0)).collect()),*] } }
    n!(app_ids block_records dim_styles layers line_types styles ucss views view_ports)
}
/// case = first op | number of ops << 5 | few << 8 | version << 12 | text << 24 | property << 25 (0: handles, 1: names)
#[no_mangle] pub extern "C" fn vh_ops(case: u32) {
    let text = case >> 24 & 1 == 1;
    let few = case >> 8 & 1 == 1;
    let ver = case >> 12 & 31;
    let mut s = St { d: drawing(ver), text, dups: false, cleared: false, loaded: false, names: case >> 25 & 1 == 1 };
    if case >> 10 & 1 == 1 { TINY.store(true, std::sync::atomic::Ordering::Relaxed); }
    s.op(case & 31, few);
    for _ in 1..(case >> 5 & 7) { let o = pick(NOPS); s.op(o, few); }
    let d = &mut s.d;
    if case >> 25 & 1 == 0 {
        chk_handles(d, "");
        if case >> 9 & 1 == 0 { chk_saved(d, text, VERS.iter().position(|x| *x == d.header.version).unwrap_or(20) as u32); }
    } else {
        chk_names(d, "");
        if !s.dups {
            once(d.layers().map(|x| &x.name), "a layer"); once(d.line_types().map(|x| &x.name), "a line type"); once(d.styles().map(|x| &x.name), "a text style"); once(d.dim_styles().map(|x| &x.name), "a dimension style");
            once(d.views().map(|x| &x.name), "a view"); once(d.ucss().map(|x| &x.name), "a coordinate system"); once(d.app_ids().map(|x| &x.name), "an application"); once(d.block_records().map(|x| &x.name), "a block record"); 
        }
        d.normalize();
        chk_names(d, " after normalizing");
        let h = d.header.clone();
        sx::check(has(d.layers().map(|l| &l.name), &h.current_layer), "the current layer does not exist after normalizing");
        for n in [&h.ucs_definition_name, &h.ucs_name, &h.ortho_ucs_reference, &h.paperspace_ucs_definition_name, &h.paperspace_ucs_name, &h.paperspace_ortho_ucs_reference] { if !n.is_empty() { sx::check(has(d.ucss().map(|l| &l.name), n), "a coordinate system of the header does not exist after normalizing"); } }
        macro_rules! must { ($f:ident $($n:literal)*) => { $( sx::check(d.$f().any(|x| x.name == $n), concat!($n, " is missing after normalizing")); )* } }
        must!(app_ids "ACAD" "ACADANNOTATIVE" "ACAD_NAV_VCDISPLAY" "ACAD_MLEADERVER"); must!(block_records "*MODEL_SPACE" "*PAPER_SPACE"); must!(dim_styles "STANDARD" "ANNOTATIVE"); must!(layers "0"); must!(line_types "BYLAYER" "BYBLOCK" "CONTINUOUS"); must!(styles "STANDARD" "ANNOTATIVE"); must!(view_ports "*ACTIVE");
        sorted(d.app_ids().map(|x| &x.name), "applications"); sorted(d.block_records().map(|x| &x.name), "block records"); sorted(d.dim_styles().map(|x| &x.name), "dimension styles"); sorted(d.layers().map(|x| &x.name), "layers"); sorted(d.line_types().map(|x| &x.name), "line types");
        sorted(d.styles().map(|x| &x.name), "text styles"); sorted(d.ucss().map(|x| &x.name), "coordinate systems"); sorted(d.views().map(|x| &x.name), "views"); sorted(d.view_ports().map(|x| &x.name), "view ports");
        let a = names(d);
        let (e, b, o, n) = (d.entities().count(), d.blocks().count(), d.objects().count(), d.header.next_available_handle);
        d.normalize();
        let z = names(d);
        sx::check(a.len() == z.len() && (0..a.len()).all(|i| a[i].len() == z[i].len() && (0..a[i].len()).all(|j| beq(a[i][j].as_bytes(), z[i][j].as_bytes()))), "normalizing again changes a table");
        sx::check(e == d.entities().count() && b == d.blocks().count() && o == d.objects().count() && n == d.header.next_available_handle, "normalizing again changes the drawing");
    }
    sx::reach("end");
}
