use crate::sx;
use dxf::entities::*;
use dxf::*;
#[no_mangle]
pub extern "C" fn vh_smoke(case: u32) {
    let mut d = Drawing::new();
    d.add_entity(Entity::new(EntityType::Line(Line::default())));
    let mut v = Vec::new();
    if case == 0 { d.save(&mut v).unwrap(); } else { d.save_binary(&mut v).unwrap(); }
    let d2 = Drawing::load(&mut v.as_slice()).unwrap();
    sx::check(d2.entities().count() == 1, "one entity");
    sx::reach("end");
}
#[no_mangle]
pub extern "C" fn vh_smoke2(_case: u32) {
    let mut d = Drawing::new();
    d.header.version = enums::AcadVersion::R2010;
    let mut l = Line::default();
    l.p1.x = sx::f64_();
    l.thickness = sx::f64_();
    let l0 = l.clone();
    d.add_entity(Entity::new(EntityType::Line(l)));
    let mut v = Vec::new();
    d.save_binary(&mut v).unwrap();
    let d2 = Drawing::load(&mut v.as_slice()).unwrap();
    match &d2.entities().next().unwrap().specific { EntityType::Line(l2) => { sx::check(*l2 == l0, "line"); } _ => sx::check(false, "kind") }
    sx::reach("end");
}
