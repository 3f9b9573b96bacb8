//! C17: DXB round trip; C03: arbitrary DXB input.
use crate::sx;
use crate::sym::*;
use dxf::entities::*;
use dxf::*;
/// any f32 but NaN, as f64
fn f() -> f64 { let b = sx::u32(); sx::assume(b & 0x7fff_ffff <= 0x7f80_0000); f32::from_bits(b) as f64 }
fn p2() -> Point { Point::new(f(), f(), 0.0) }
fn p3() -> Point { Point::new(f(), f(), f()) }
const NK: u32 = 8;
fn ent(k: u32, nv: u32) -> Entity {
    Entity::new(match k {
        0 => EntityType::Line(Line::new(p3(), p3())),
        1 => EntityType::ModelPoint(ModelPoint::new(p2())),
        2 => EntityType::Circle(Circle::new(p2(), f())),
        3 => EntityType::Arc(Arc::new(p2(), f(), f(), f())),
        4 => EntityType::Trace(Trace::new(p2(), p2(), p2(), p2())),
        5 => EntityType::Solid(Solid::new(p2(), p2(), p2(), p2())),
        6 => EntityType::Face3D(Face3D::new(p3(), p3(), p3(), p3())),
        _ => {
            let mut d = Drawing::new();
            let mut p = Polyline::default();
            p.set_is_closed(sx::bool_());
            for _ in 0..nv {
                let mut v = Vertex::new(p2());
                v.bulge = f();
                v.starting_width = f();
                v.ending_width = f();
                p.add_vertex(&mut d, v);
            }
            EntityType::Polyline(p)
        }
    })
}
fn pe(a: &Point, b: &Point) -> bool { (a.x == b.x) & (a.y == b.y) & (a.z == b.z) }
fn same(a: &EntityType, b: &EntityType) -> bool {
    match (a, b) {
        (EntityType::Line(a), EntityType::Line(b)) => pe(&a.p1, &b.p1) & pe(&a.p2, &b.p2),
        (EntityType::ModelPoint(a), EntityType::ModelPoint(b)) => pe(&a.location, &b.location),
        (EntityType::Circle(a), EntityType::Circle(b)) => pe(&a.center, &b.center) & (a.radius == b.radius),
        (EntityType::Arc(a), EntityType::Arc(b)) => pe(&a.center, &b.center) & (a.radius == b.radius) & (a.start_angle == b.start_angle) & (a.end_angle == b.end_angle),
        (EntityType::Trace(a), EntityType::Trace(b)) => pe(&a.first_corner, &b.first_corner) & pe(&a.second_corner, &b.second_corner) & pe(&a.third_corner, &b.third_corner) & pe(&a.fourth_corner, &b.fourth_corner),
        (EntityType::Solid(a), EntityType::Solid(b)) => pe(&a.first_corner, &b.first_corner) & pe(&a.second_corner, &b.second_corner) & pe(&a.third_corner, &b.third_corner) & pe(&a.fourth_corner, &b.fourth_corner),
        (EntityType::Face3D(a), EntityType::Face3D(b)) => pe(&a.first_corner, &b.first_corner) & pe(&a.second_corner, &b.second_corner) & pe(&a.third_corner, &b.third_corner) & pe(&a.fourth_corner, &b.fourth_corner),
        (EntityType::Polyline(a), EntityType::Polyline(b)) => {
            if a.vertices().count() != b.vertices().count() { return false; }
            let mut r = a.is_closed() == b.is_closed();
            for (x, y) in a.vertices().zip(b.vertices()) { r &= pe(&x.location, &y.location) & (x.bulge == y.bulge) & (x.starting_width == y.starting_width) & (x.ending_width == y.ending_width); }
            r
        }
        _ => false,
    }
}
const KN: [&str; 8] = ["line", "point", "circle", "arc", "trace", "solid", "face", "polyline"];
fn color() -> Color { <Color as Sy>::sy(&Color::by_layer(), false, 0) }
/// a name that one of three kinds: letters, a character beyond ASCII, or an escape-like text
fn layer(n: u32) -> String {
    match n {
        0 => letters2(),
        1 => { let c = sx::u16() as u32; sx::assume(c >= 0x80 && !(0xd800..0xe000).contains(&c)); let mut s = String::from("q"); s.push(unsafe { char::from_u32_unchecked(c) }); s }
        _ => "0".into(),
    }
}
/// case: kind of the first entity | what varies << 4 (0: coordinates, 1: colours, 2: layers, 3: block) | vertices << 8
#[no_mangle] pub extern "C" fn vh_dxb_rt(case: u32) {
    let (k, what, nv) = (case & 15, case >> 4 & 15, case >> 8 & 15);
    let mut es = vec![];
    if what != 0 && what != 3 { TEXT.store(0, std::sync::atomic::Ordering::Relaxed); }
    let mut e1 = ent(k, nv);
    let mut e2 = if what == 0 { ent(pick(NK), 1) } else { Entity::new(EntityType::Circle(Circle::new(Point::new(1.0, 2.0, 0.0), 3.0))) };
    let mut e3 = Entity::new(EntityType::ModelPoint(ModelPoint::new(Point::new(-5.0, 6.5, 0.0))));
    if what == 1 { e1.common.color = color(); e2.common.color = color(); e3.common.color = color(); }
    if what == 2 { e1.common.layer = layer(pick(3)); e2.common.layer = layer(pick(3)); e3.common.layer = layer(pick(2) * 2); }
    if what == 3 { e1.common.color = color(); e2.common.color = color(); e1.common.layer = layer(0); e2.common.layer = layer(1); }
    es.push(e1); es.push(e2); es.push(e3);
    let mut d = Drawing::new();
    let base = if what == 3 { p2() } else { Point::origin() };
    if what == 3 {
        let mut b = Block::default();
        b.name = "B".into();
        b.base_point = base.clone();
        b.entities = es.clone();
        d.add_block(b);
    } else { for e in es.iter() { d.add_entity(e.clone()); } }
    let mut o = vec![];
    sx::check(d.save_dxb(&mut o).is_ok(), "saving as DXB fails");
    let d2 = match Drawing::load(&mut o.as_slice()) { Ok(d) => d, Err(_) => { sx::check(false, "saved DXB does not load"); return; } };
    sx::reach("loaded");
    let got: Vec<Entity> = if what == 3 {
        sx::check(d2.entities().count() == 0, "entities appear next to the block");
        sx::check(d2.blocks().count() == 1, "number of blocks changes");
        match d2.blocks().next() { Some(b) => { sx::check(pe(&b.base_point, &base), "block base point changes"); b.entities.clone() } None => vec![] }
    } else { sx::check(d2.blocks().count() == 0, "a block appears"); d2.entities().cloned().collect() };
    sx::check(got.len() == 3, "number of entities changes");
    for (i, (a, b)) in es.iter().zip(got.iter()).enumerate() {
        sx::check(same(&a.specific, &b.specific), &format!("{} {}: geometry or order changes", if i == 0 { "first" } else { "later" }, if i == 0 { KN[k as usize] } else { "entity" }));
        sx::check(a.common.color == b.common.color, "colour changes");
        sx::check(beq(a.common.layer.as_bytes(), b.common.layer.as_bytes()), "layer changes");
    }
    sx::reach("end");
}
// ---- C03
const SENT: &[u8] = b"AutoCAD DXB 1.0\r\n\x1a\0";
/// (type, numbers n, angles, words w, doubles, string, bulge u)
const ITEMS: [(u8, u32, u32, u32, u32, bool, u32); 22] = [
    (0, 0, 0, 0, 0, false, 0), (1, 6, 0, 0, 0, false, 0), (2, 2, 0, 0, 0, false, 0), (3, 3, 0, 0, 0, false, 0), (8, 3, 2, 0, 0, false, 0), (9, 8, 0, 0, 0, false, 0), (11, 8, 0, 0, 0, false, 0),
    (17, 0, 0, 0, 0, false, 0), (19, 0, 0, 1, 0, false, 0), (20, 2, 0, 0, 0, false, 0), (21, 6, 0, 0, 0, false, 0), (22, 12, 0, 0, 0, false, 0), (128, 0, 0, 0, 1, false, 0), (129, 0, 0, 0, 0, true, 0),
    (130, 2, 0, 0, 0, false, 0), (131, 4, 0, 0, 0, false, 0), (132, 2, 0, 0, 0, false, 0), (133, 0, 0, 0, 0, false, 1), (134, 2, 0, 0, 0, false, 0), (135, 0, 0, 1, 0, false, 0), (136, 0, 0, 1, 0, false, 0), (137, 3, 0, 0, 0, false, 0),
];
fn item(o: &mut Vec<u8>, i: usize, fl: &mut bool) {
    let t = ITEMS[i];
    o.push(t.0);
    let n = if *fl { 4 } else { 2 } * t.1 + 4 * t.2 + 2 * t.3 + 8 * t.4 + 4 * t.6;
    o.extend(sx::bytes(n as usize));
    if t.5 { let b = sx::bytes(2); sx::assume(b[0] != 0); sx::assume(b[1] != 0); o.extend(b); o.push(0); }
    if t.0 == 135 { let l = o.len(); *fl = sx::bool_(); let b = sx::conc(*fl as u64) as u8; *fl = b != 0; o[l - 2] = b; o[l - 1] = 0; }
}
fn load(o: &[u8]) { let r = Drawing::load(&mut &o[..]); sx::reach(if r.is_ok() { "loaded" } else { "rejected" }); }
/// case 0..22: that item in both number modes followed by any item, truncated anywhere; 30+n: any n bytes; 60+n: sequences of the items that belong together
#[no_mangle] pub extern "C" fn vh_dxb_any(case: u32) {
    let mut o = SENT.to_vec();
    match case {
        0..=21 => {
            let mut fl = pick(2) == 1;
            if fl { o.extend([135, 1, 0]); }
            item(&mut o, case as usize, &mut fl);
            let full = o.len();
            let cut = sx::u8() as usize;
            sx::assume(cut <= full - SENT.len() + 1);
            let cut = sx::conc(cut as u64) as usize;
            if SENT.len() + cut > full { item(&mut o, pick(22) as usize, &mut fl); o.push(0); load(&o); } else { load(&o[..SENT.len() + cut]); }
        }
        30..=50 => { let n = (case - 30) as usize; o.extend(sx::bytes(n)); load(&o); }
        _ => {
            // polyline, vertex, seqend, bulge, width, line, block base, layer, colour, number mode
            const S: [usize; 10] = [8, 9, 7, 17, 18, 1, 16, 13, 20, 19];
            let mut fl = false;
            item(&mut o, S[(case - 60) as usize % 10], &mut fl);
            item(&mut o, S[pick(10) as usize], &mut fl);
            item(&mut o, S[pick(10) as usize], &mut fl);
            if case >= 70 { item(&mut o, S[pick(10) as usize], &mut fl); }
            o.push(0);
            load(&o);
        }
    }
    sx::reach("end");
}
