//! C21: extended data and extension groups.
use crate::gen_types::*;
use crate::mk::*;
use crate::rt::*;
use crate::sx;
use crate::sym::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn n() -> u32 { N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1 }
fn fl(t: bool) -> f64 { if t { n() as f64 * 1.25 - 40.0 } else { sx::f64_() } }
fn sh(t: bool) -> i16 { if t { n() as i16 * 37 - 90 } else { sx::i16() } }
fn le(t: bool) -> String { if t { ["ab", "c d", "{", "}"][n() as usize % 4].into() } else { letters2() } }
fn it(t: bool) -> i32 { if t { n() as i32 * 70001 - 200000 } else { sx::i32() } }
/// item of kind 0 to 12 (13: a group)
fn item(k: u32, t: bool) -> XDataItem {
    match k {
        0 => XDataItem::Str(le(t)),
        1 => XDataItem::LayerName(le(t)),
        2 => XDataItem::BinaryData(vec![0x0f, if t { 0x80 } else { sx::u8() }, 0xa0]),
        3 => XDataItem::Handle(Handle([0x2B, 0xFEDC_BA98, u64::MAX - 1][n() as usize % 3])),
        4 => XDataItem::ThreeReals(fl(t), fl(t), fl(t)),
        5 => XDataItem::WorldSpacePosition(Point::new(fl(t), fl(t), fl(t))),
        6 => XDataItem::WorldSpaceDisplacement(Point::new(fl(t), fl(t), fl(t))),
        7 => XDataItem::WorldDirection(Vector::new(fl(t), fl(t), fl(t))),
        8 => XDataItem::Real(fl(t)),
        9 => XDataItem::Distance(fl(t)),
        10 => XDataItem::ScaleFactor(fl(t)),
        11 => XDataItem::Integer(sh(t)),
        12 => XDataItem::Long(it(t)),
        13 => XDataItem::Str(String::new()),
        14 => XDataItem::BinaryData(vec![]),
        15 => XDataItem::ControlGroup(vec![]),
        _ => XDataItem::ControlGroup(vec![XDataItem::Real(fl(true)), XDataItem::ControlGroup(vec![XDataItem::Integer(sh(t))]), XDataItem::Str("}".into())]),
    }
}
fn p(a: &Point, b: &Point) -> bool { feq(a.x, b.x) & feq(a.y, b.y) & feq(a.z, b.z) }
fn isame(a: &XDataItem, b: &XDataItem) -> bool {
    use XDataItem::*;
    match (a, b) {
        (Str(a), Str(b)) | (LayerName(a), LayerName(b)) => beq(a.as_bytes(), b.as_bytes()),
        (ControlGroup(a), ControlGroup(b)) => { if a.len() != b.len() { return false; } let mut r = true; for (x, y) in a.iter().zip(b) { r &= isame(x, y); } r }
        (BinaryData(a), BinaryData(b)) => beq(a, b),
        (Handle(a), Handle(b)) => a == b,
        (ThreeReals(a, b, c), ThreeReals(d, e, f)) => feq(*a, *d) & feq(*b, *e) & feq(*c, *f),
        (WorldSpacePosition(a), WorldSpacePosition(b)) | (WorldSpaceDisplacement(a), WorldSpaceDisplacement(b)) => p(a, b),
        (WorldDirection(a), WorldDirection(b)) => feq(a.x, b.x) & feq(a.y, b.y) & feq(a.z, b.z),
        (Real(a), Real(b)) | (Distance(a), Distance(b)) | (ScaleFactor(a), ScaleFactor(b)) => feq(*a, *b),
        (Integer(a), Integer(b)) => a == b,
        (Long(a), Long(b)) => a == b,
        _ => false,
    }
}
fn xsame(a: &[XData], b: &[XData]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    for (x, y) in a.iter().zip(b) {
        if x.items.len() != y.items.len() { return false; }
        r &= beq(x.application_name.as_bytes(), y.application_name.as_bytes());
        for (i, j) in x.items.iter().zip(&y.items) { r &= isame(i, j); }
    }
    r
}
fn vsame(a: &CodePairValue, b: &CodePairValue) -> bool {
    use CodePairValue::*;
    match (a, b) {
        (Boolean(a), Boolean(b)) => a == b,
        (Integer(a), Integer(b)) => a == b,
        (Long(a), Long(b)) => a == b,
        (Short(a), Short(b)) => a == b,
        (Double(a), Double(b)) => feq(*a, *b),
        (Str(a), Str(b)) => beq(a.as_bytes(), b.as_bytes()),
        (Binary(a), Binary(b)) => beq(a, b),
        _ => false,
    }
}
fn gsame(a: &[ExtensionGroup], b: &[ExtensionGroup]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    for (x, y) in a.iter().zip(b) {
        if x.items.len() != y.items.len() { return false; }
        r &= beq(x.application_name.as_bytes(), y.application_name.as_bytes());
        for (i, j) in x.items.iter().zip(&y.items) {
            r &= match (i, j) {
                (ExtensionGroupItem::CodePair(i), ExtensionGroupItem::CodePair(j)) => (i.code == j.code) & vsame(&i.value, &j.value),
                (ExtensionGroupItem::Group(i), ExtensionGroupItem::Group(j)) => gsame(std::slice::from_ref(i), std::slice::from_ref(j)),
                _ => false,
            };
        }
    }
    r
}
/// a pair of symbolic code in the value class `k`
fn pair(k: u32, t: bool) -> CodePair {
    const C: [K; 7] = [K::Str, K::F64, K::I16, K::I32, K::I64, K::Bool, K::Bin];
    let code = if t { [330, 40, 70, 90, 160, 290, 310][k as usize] as u32 } else { let c = sx::u16() as u32; sx::assume(c >= 1 && c < 1000 && c != 102 && c != 999); sx::assume(kind(c) == Some(C[k as usize])); c } as i32;
    match k {
        0 => CodePair::new_string(code, &le(t)),
        1 => CodePair::new_f64(code, fl(t)),
        2 => CodePair::new_i16(code, sh(t)),
        3 => CodePair::new_i32(code, it(t)),
        4 => CodePair::new_i64(code, if t { n() as i64 * -9_000_000_001 } else { sx::i64() }),
        5 => CodePair::new_bool(code, if t { n() & 1 == 0 } else { sx::bool_() }),
        _ => CodePair::new_binary(code, if t { vec![1, 0xff] } else { sx::bytes(3) }),
    }
}
fn g(name: &str, items: Vec<ExtensionGroupItem>) -> ExtensionGroup { ExtensionGroup { application_name: name.into(), items } }
fn cp(p: CodePair) -> ExtensionGroupItem { ExtensionGroupItem::CodePair(p) }
fn xfix() -> Vec<XData> { vec![XData { application_name: "QQ".into(), items: vec![XDataItem::Real(2.5), XDataItem::ControlGroup(vec![XDataItem::Str("a".into()), XDataItem::Integer(-3)]), XDataItem::Long(70000)] }, XData { application_name: "RR".into(), items: vec![XDataItem::WorldSpacePosition(Point::new(1.0, 2.0, 3.0)), XDataItem::BinaryData(vec![1, 2, 0xfe])] }] }
fn gfix() -> Vec<ExtensionGroup> { vec![g("GA", vec![cp(CodePair::new_f64(40, 1.5)), cp(CodePair::new_i16(70, 9))]), g("GB", vec![cp(CodePair::new_str(1, "s")), ExtensionGroupItem::Group(g("GC", vec![cp(CodePair::new_i32(90, 7))])), cp(CodePair::new_str(330, "AB"))])] }
/// attaches to owner `o`, saves, loads and hands back what is attached there
fn trip(c: &Cx, o: u32, v: u32, x: &[XData], gs: &[ExtensionGroup]) -> Option<(Vec<XData>, Vec<ExtensionGroup>)> {
    let mut d = drawing(v);
    let (ne, no) = (ENT.len() as u32, OBJ.len() as u32);
    macro_rules! lost { () => {{ c.chk(false, &format!("the owner is lost: {}", name(o)), v); return None; }}; }
    let q = |d: &Drawing| reload(c, &name(o), d, v);
    if o < ne {
        let mut e = Entity::new((ENT[o as usize].4)());
        e.common.x_data = x.to_vec(); e.common.extension_data_groups = gs.to_vec();
        d.add_entity(e);
        d.add_entity(Entity::new(EntityType::Line(Line::new(Point::new(1.0, 2.0, 3.0), Point::new(4.0, 5.0, 6.0)))));
        let d2 = q(&d)?;
        let es: Vec<_> = d2.entities().collect();
        if es.len() != 2 || !matches!(&es[1].specific, EntityType::Line(l) if l.p2.z == 6.0) { lost!(); }
        sx::reach("loaded");
        Some((es[0].common.x_data.clone(), es[0].common.extension_data_groups.clone()))
    } else if o < ne + no {
        let mut e = Object::new((OBJ[(o - ne) as usize].4)());
        e.common.x_data = x.to_vec(); e.common.extension_data_groups = gs.to_vec();
        let h = d.add_object(e).common.handle;
        let n = d.objects().count();
        let d2 = q(&d)?;
        if d2.objects().count() != n { lost!(); }
        let Some(ob) = d2.objects().find(|x| x.common.handle == h) else { lost!() };
        sx::reach("loaded");
        Some((ob.common.x_data.clone(), ob.common.extension_data_groups.clone()))
    } else {
        macro_rules! tab { ($t:ident $add:ident $get:ident) => {{
            let mut e = $t::default(); e.name = "QQ".into(); e.x_data = x.to_vec(); e.extension_data_groups = gs.to_vec();
            d.$add(e);
            let d2 = q(&d)?;
            let Some(e) = d2.$get().filter(|x| x.name == "QQ").last() else { lost!() };
            sx::reach("loaded");
            Some((e.x_data.clone(), e.extension_data_groups.clone()))
        }}; }
        match o - ne - no {
            0 => tab!(AppId add_app_id app_ids), 1 => tab!(BlockRecord add_block_record block_records), 2 => tab!(DimStyle add_dim_style dim_styles),
            3 => tab!(Layer add_layer layers), 4 => tab!(LineType add_line_type line_types), 5 => tab!(Style add_style styles), 6 => tab!(Ucs add_ucs ucss),
            7 => tab!(View add_view views), 8 => tab!(ViewPort add_view_port view_ports),
            9 => { let mut e = Block::default(); e.name = "QQ".into(); e.x_data = x.to_vec(); e.extension_data_groups = gs.to_vec(); d.add_block(e); let d2 = q(&d)?; let Some(e) = d2.blocks().find(|x| x.name == "QQ") else { lost!() }; sx::reach("loaded"); Some((e.x_data.clone(), e.extension_data_groups.clone())) }
            _ => { let mut e = Block::default(); e.name = "QQ".into(); let mut l = Entity::new(EntityType::Circle(Circle::default())); l.common.x_data = x.to_vec(); l.common.extension_data_groups = gs.to_vec(); e.entities.push(l); d.add_block(e); let d2 = q(&d)?; let Some(e) = d2.blocks().find(|x| x.name == "QQ").and_then(|b| b.entities.first()) else { lost!() }; sx::reach("loaded"); Some((e.common.x_data.clone(), e.common.extension_data_groups.clone())) }
        }
    }
}
fn name(o: u32) -> String {
    let (ne, no) = (ENT.len() as u32, OBJ.len() as u32);
    if o < ne { ENT[o as usize].0.into() } else if o < ne + no { OBJ[(o - ne) as usize].0.into() } else { ["AppId", "BlockRecord", "DimStyle", "Layer", "LineType", "Style", "Ucs", "View", "ViewPort", "Block", "entity in a block"][(o - ne - no) as usize].into() }
}
fn range(o: u32) -> (u32, u32) {
    let (ne, no) = (ENT.len() as u32, OBJ.len() as u32);
    if o < ne { (ENT[o as usize].2, ENT[o as usize].3) } else if o < ne + no { (OBJ[(o - ne) as usize].2, OBJ[(o - ne) as usize].3) } else if o - ne - no == 1 { (13, 20) } else { (0, 20) }
}
/// case = owner | what << 8 | first item << 12 | text << 24; what 0: two applications and two groups on any owner, 1: two items of any kind, 2: a pair of each value class, in any code, in a group and a nested group
#[no_mangle] pub extern "C" fn vh_xd(case: u32) {
    let (_, mut c) = cx(case & (1 << 24));
    c.tier = 1;
    let t = c.text;
    let (o, what) = (case & 0xff, case >> 8 & 15);
    if o >= (ENT.len() + OBJ.len()) as u32 + 11 { return; }
    let (lo, hi) = range(o);
    match what {
        0 => {
            let v = if t { [15, 20][pick(2) as usize] } else { let v = sx::u8() as u32; sx::assume(v >= 14 && v <= 20); sx::conc(v as u64) as u32 };
            if v < lo || v > hi { return; }
            let (x, gs) = (xfix(), gfix());
            let Some((x2, g2)) = trip(&c, o, v, &x, &gs) else { return };
            if v >= 15 { c.chk(xsame(&x, &x2), &format!("extended data changes: {}", name(o)), v); }
            c.chk(gsame(&gs, &g2), &format!("extension groups change: {}", name(o)), v);
        }
        1 => {
            let v = 20;
            let k = case >> 12 & 31;
            let items = vec![item(k, t), item(if k == 2 && !t { pick(2) * 11 } else { pick(17) }, true)];
            let x = vec![XData { application_name: le(t), items }, XData { application_name: "RR".into(), items: vec![XDataItem::ControlGroup(vec![item(0, true), item(16, true)])] }];
            let Some((x2, _)) = trip(&c, o, v, &x, &[]) else { return };
            c.chk(xsame(&x, &x2), &format!("extended data changes: {}", name(o)), v);
        }
        _ => {
            let v = 20;
            let gs = vec![g("GA", vec![cp(pair(pick(7), t))]), g("GB", vec![ExtensionGroupItem::Group(g("GC", vec![cp(pair(pick(7), t))])), cp(CodePair::new_f64(40, 2.5))])];
            let Some((_, g2)) = trip(&c, o, v, &[], &gs) else { return };
            c.chk(gsame(&gs, &g2), &format!("extension groups change: {}", name(o)), v);
        }
    }
    sx::reach("end");
}
