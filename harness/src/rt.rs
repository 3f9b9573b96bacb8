//! Round-trip scaffolding shared by the generated harnesses.
use crate::sx;
use crate::sym::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
pub struct Cx { pub text: bool, pub tier: u32, pub field: Option<u32>, pub ver: Option<u32> }
impl Cx {
    pub fn ver(&self, lo: u32, hi: u32) -> u32 {
        if let Some(v) = self.ver { return v.clamp(lo, hi); }
        let v = sx::u8() as u32;
        sx::assume(v >= lo && v <= hi);
        if self.text { sx::assume(v == 10 || v == 12 || v == 14 || v == 17 || v == 20 || v == lo.max(10)); }
        if self.tier == 0 { sx::assume(v >= 10); }
        sx::conc(v as u64) as u32
    }
    /// 0: every field at once
    pub fn field(&self, n: u32) -> u32 { if let Some(f) = self.field { return f; } pick(n + 1) }
    pub fn on(&self, f: u32, k: u32) -> bool { f == 0 || f == k }
    pub fn chk(&self, c: bool, l: &str, v: u32) {
        let s = format!("{}@{:?}", l, VERS[v as usize]);
        sx::check(c, &s);
    }
}
pub fn drawing(v: u32) -> Drawing { let mut d = Drawing::new(); d.header.version = VERS[v as usize]; d }
pub fn save(c: &Cx, n: &str, d: &Drawing, v: u32) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    let r = if c.text { d.save(&mut o) } else { d.save_binary(&mut o) };
    if r.is_err() { c.chk(false, &format!("{}: save fails", n), v); return None; }
    Some(o)
}
/// what to do with the drawing instead of saving and loading it
static mut CAP: Option<*mut dyn FnMut(&Drawing)> = None;
/// kinds of items that `rich` makes
pub const KE: u32 = 0; pub const KO: u32 = 1; pub const KT: u32 = 2; pub const KH: u32 = 3; pub const KC: u32 = 4; pub const KB: u32 = 5;
/// a drawing of version `ver` (or the nearest that has the type) with one item whose fields are all set to values that differ from the defaults
pub fn rich_drawing(kind: u32, i: usize, ver: u32, mut f: impl FnMut(&Drawing)) {
    use std::sync::atomic::Ordering::Relaxed;
    let c = Cx { text: true, tier: 1, field: Some(0), ver: Some(ver) };
    if kind >= KC {
        let mut d = drawing(ver);
        if kind == KC { d.classes.push(Class { record_name: "RN".into(), class_name: "CN".into(), application_name: "AN".into(), version_number: 3, proxy_capability_flags: 5, instance_count: 2, was_class_loaded_with_file: false, is_entity: true }); }
        else {
            let mut b = Block::default();
            b.name = "QQ".into(); b.layer = "L1".into(); b.flags = 4; b.base_point = Point::new(1.5, 2.5, 3.5); b.xref_path_name = "xp".into(); b.description = "ds".into(); b.is_in_paperspace = true;
            b.x_data.push(XData { application_name: "AP".into(), items: vec![XDataItem::Real(1.5), XDataItem::ControlGroup(vec![XDataItem::Str("s".into())]), XDataItem::Handle(Handle(0x2b)), XDataItem::WorldDirection(Vector::new(1.0, 2.0, 3.0)), XDataItem::BinaryData(vec![1, 2]), XDataItem::Integer(4), XDataItem::Long(9)] });
            b.extension_data_groups.push(ExtensionGroup { application_name: "EG".into(), items: vec![ExtensionGroupItem::CodePair(CodePair::new_f64(40, 1.5)), ExtensionGroupItem::Group(ExtensionGroup { application_name: "NG".into(), items: vec![ExtensionGroupItem::CodePair(CodePair::new_i16(70, 2))] })] });
            let mut p = Polyline::default(); p.add_vertex(&mut d, Vertex::new(Point::new(1.0, 2.0, 3.0))); p.add_vertex(&mut d, Vertex::new(Point::new(4.0, 5.0, 6.0)));
            b.entities.push(Entity::new(EntityType::Polyline(p)));
            let mut p = Insert::default(); p.name = "QQ".into(); p.add_attribute(&mut d, Attribute::default());
            b.entities.push(Entity::new(EntityType::Insert(p)));
            d.add_block(b);
        }
        f(&d);
        return;
    }
    if kind == KO && i >= crate::gen_objects::TAB.len() {
        let mut d = drawing(ver.max(19));
        d.add_object(Object::new(if i == crate::gen_objects::TAB.len() { ObjectType::DataTable(data_table()) } else {
            let mut s = SunStudy::default();
            s.sun_setup_name = "su".into(); s.description = "de".into(); s.sheet_set_name = "sh".into(); s.sheet_subset_name = "sb".into(); s.output_type = 3; s.viewports_per_page = 4; s.shade_plot_type = 2; s.viewport_distribution_row_count = 6; s.viewport_distribution_column_count = 7; s.interval_in_seconds = 61; s.start_time_seconds_past_midnight = 62; s.end_time_seconds_past_midnight = 63; s.spacing = 1.5; s.use_subset = !s.use_subset;
            ObjectType::SunStudy(s)
        }));
        f(&d);
        return;
    }
    TEXT.store(1, Relaxed);
    RICH.store(true, Relaxed);
    cap_drawing(&c, kind, i, |d| { TEXT.store(0, Relaxed); RICH.store(false, Relaxed); f(d) });
}
/// the drawing that the round-trip harness of an item makes
pub fn cap_drawing(c: &Cx, kind: u32, i: usize, mut g: impl FnMut(&Drawing)) {
    let r: &mut dyn FnMut(&Drawing) = &mut g;
    unsafe { CAP = Some(std::mem::transmute::<&mut dyn FnMut(&Drawing), *mut (dyn FnMut(&Drawing) + 'static)>(r)); }
    match kind {
        KE => if let Some(t) = crate::gen_entities::TAB.get(i) { (t.1)(c) },
        KO => if let Some(t) = crate::gen_objects::TAB.get(i) { (t.1)(c) },
        KT => if let Some(t) = crate::gen_tables::TAB.get(i) { (t.1)(c) },
        _ => crate::gen_header::h_all(c),
    }
    unsafe { CAP = None; }
}
pub fn data_table() -> DataTable {
    let mut t = DataTable::default();
    t.field = 4; t.name = "dt".into(); t.column_count = 7; t.row_count = 2;
    t.column_names = (0..7).map(|i| format!("c{}", i)).collect();
    t.values = (0..2).map(|r| vec![Some(DataTableValue::Boolean(r == 0)), Some(DataTableValue::Integer(70000 + r)), Some(DataTableValue::Double(1.5 + r as f64)), Some(DataTableValue::Str(format!("s{}", r))), Some(DataTableValue::Point2D(Point::new(1.0, 2.0, r as f64))), Some(DataTableValue::Point3D(Point::new(3.0, 4.0, r as f64))), Some(DataTableValue::Handle(Handle(0x2b + r as u64)))]).collect();
    t
}
pub fn rich_name(kind: u32, i: usize) -> &'static str {
    match kind { KE => crate::gen_entities::TAB[i].0, KO => match i.wrapping_sub(crate::gen_objects::TAB.len()) { 0 => "DataTable", 1 => "SunStudy", _ => crate::gen_objects::TAB[i].0 }, KT => crate::gen_tables::TAB[i].0, KH => "Header", KC => "Class", _ => "Block" }
}
pub fn reload(c: &Cx, n: &str, d: &Drawing, v: u32) -> Option<Drawing> {
    if let Some(f) = unsafe { (*std::ptr::addr_of_mut!(CAP)).take() } { unsafe { (*f)(d) }; return None; }
    let o = save(c, n, d, v)?;
    match Drawing::load(&mut o.as_slice()) { Ok(d) => Some(d), Err(_) => { c.chk(false, &format!("{}: saved drawing does not load", n), v); None } }
}
pub fn rt_entity(c: &Cx, n: &str, e: Entity, v: u32) -> Option<Entity> {
    let mut d = drawing(v);
    d.add_entity(e);
    let d2 = reload(c, n, &d, v)?;
    if d2.entities().count() != 1 { c.chk(false, &format!("{}: entity count changes", n), v); return None; }
    sx::reach("loaded");
    let r = d2.entities().next().cloned();
    r
}
pub fn rt_ent(c: &Cx, n: &str, e: EntityType, v: u32) -> Option<Entity> { rt_entity(c, n, Entity::new(e), v) }
pub fn rt_common(c: &Cx, e: EntityCommon, v: u32) -> Option<EntityCommon> {
    let mut x = Entity::new(EntityType::Line(Line::default()));
    x.common = e;
    rt_entity(c, "EntityCommon", x, v).map(|e| e.common)
}
pub fn rt_obj(c: &Cx, n: &str, e: ObjectType, v: u32) -> Option<Object> {
    let mut d = drawing(v);
    let n0 = d.objects().count();
    d.add_object(Object::new(e));
    let d2 = reload(c, n, &d, v)?;
    if d2.objects().count() != n0 + 1 { c.chk(false, &format!("{}: object count changes", n), v); return None; }
    sx::reach("loaded");
    d2.objects().last().cloned()
}
macro_rules! rt_tab {
    ($($f:ident $t:ident $add:ident $get:ident;)*) => { $(
        #[allow(non_snake_case)]
        pub fn $f(c: &Cx, e: $t, v: u32) -> Option<$t> {
            let mut d = drawing(v);
            d.$add(e);
            let d2 = reload(c, stringify!($t), &d, v)?;
            let r = d2.$get().filter(|x| x.name == "QQ").last().cloned();
            if r.is_none() { c.chk(false, concat!(stringify!($t), ": entry is missing"), v); } else { sx::reach("loaded"); }
            r
        }
    )* };
}
rt_tab! {
    rt_tab_AppId AppId add_app_id app_ids;
    rt_tab_BlockRecord BlockRecord add_block_record block_records;
    rt_tab_DimStyle DimStyle add_dim_style dim_styles;
    rt_tab_Layer Layer add_layer layers;
    rt_tab_LineType LineType add_line_type line_types;
    rt_tab_Style Style add_style styles;
    rt_tab_Ucs Ucs add_ucs ucss;
    rt_tab_View View add_view views;
    rt_tab_ViewPort ViewPort add_view_port view_ports;
}
pub fn rt_hdr(c: &Cx, h: Header, v: u32) -> Option<Header> {
    let mut d = drawing(v);
    d.header = h;
    d.header.version = VERS[v as usize];
    let d2 = reload(c, "Header", &d, v)?;
    sx::reach("loaded");
    Some(d2.header)
}
/// case = type index | field+1 << 8 (0: all choices) | tier << 20 | text << 24
pub fn cx(case: u32) -> (usize, Cx) {
    let f = (case >> 8) & 0xfff;
    if case >> 24 & 1 == 1 { TEXT.store(1, std::sync::atomic::Ordering::Relaxed); }
    ((case & 0xff) as usize, Cx { text: case >> 24 & 1 == 1, tier: case >> 20 & 3, field: if f == 0 { None } else { Some(f - 1) }, ver: None })
}
#[no_mangle] pub extern "C" fn vh_entity(case: u32) { let (i, c) = cx(case); if let Some(t) = crate::gen_entities::TAB.get(i) { (t.1)(&c); } sx::reach("end"); }
#[no_mangle] pub extern "C" fn vh_object(case: u32) { let (i, c) = cx(case); if let Some(t) = crate::gen_objects::TAB.get(i) { (t.1)(&c); } sx::reach("end"); }
#[no_mangle] pub extern "C" fn vh_table(case: u32) { let (i, c) = cx(case); if let Some(t) = crate::gen_tables::TAB.get(i) { (t.1)(&c); } sx::reach("end"); }
/// case: variable index (low 12 bits), 0xfff: all at once
#[no_mangle] pub extern "C" fn vh_header(case: u32) {
    let i = (case & 0xfff) as usize;
    if case >> 24 & 1 == 1 { TEXT.store(1, std::sync::atomic::Ordering::Relaxed); }
    let c = Cx { text: case >> 24 & 1 == 1, tier: case >> 20 & 3, field: None, ver: None };
    if i == 0xfff { crate::gen_header::h_all(&c); } else if let Some(t) = crate::gen_header::TAB.get(i) { (t.1)(&c); }
    sx::reach("end");
}
