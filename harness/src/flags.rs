//! C18: boolean accessors of packed integers.
use crate::sx;
use dxf::entities::*;
use dxf::enums::*;
macro_rules! vm {
    ($($g:ident $s:ident $m:literal;)*) => { &[ $( (|v: ViewMode| v.$g(), |v: &mut ViewMode, b: bool| v.$s(b), $m, stringify!($g)) ),* ] };
}
type Vm = (fn(ViewMode) -> bool, fn(&mut ViewMode, bool), i32, &'static str);
fn view_mode() {
    let t: &[Vm] = vm! {
        is_perspective_view_active set_is_perspective_view_active 1;
        is_front_clipping_on set_is_front_clipping_on 2;
        is_back_clipping_on set_is_back_clipping_on 4;
        is_ucs_follow_mode_on set_is_ucs_follow_mode_on 8;
        is_front_clipping_at_eye set_is_front_clipping_at_eye 16;
    };
    for (g, s, m, n) in t {
        let r = sx::i16();
        let b = sx::bool_();
        let mut v = ViewMode::from_i16(r);
        let r = r as i32;
        sx::check(v.raw() == r, "ViewMode.raw does not return what it was made of");
        sx::check(g(v) == (r & m != 0), &format!("ViewMode.{}: getter does not reflect the stored bit", n));
        s(&mut v, b);
        sx::check(g(v) == b, &format!("ViewMode.{}: getter does not return what was set", n));
        sx::check(v.raw() == if b { r | m } else { r & !m }, &format!("ViewMode.{}: setter changes other bits", n));
    }
}
fn proxy() {
    let (a, b, c) = (sx::u16() as i32, sx::u16() as i32, sx::u16() as i32);
    let mut p = ProxyEntity::default();
    p.set_object_drawing_format_version(a);
    p.set_object_mainenance_release_version(b);
    sx::check(p.object_drawing_format_version() == a, "ProxyEntity.object_drawing_format_version");
    sx::check(p.object_maintenance_release_version() == b, "ProxyEntity.object_maintenance_release_version");
    p.set_object_drawing_format_version(c);
    sx::check(p.object_drawing_format_version() == c, "ProxyEntity.object_drawing_format_version after a second change");
    sx::check(p.object_maintenance_release_version() == b, "ProxyEntity.set_object_drawing_format_version changes the maintenance release");
    p.set_object_mainenance_release_version(a);
    sx::check(p.object_drawing_format_version() == c, "ProxyEntity.set_object_mainenance_release_version changes the format version");
    sx::check(p.object_maintenance_release_version() == a, "ProxyEntity.object_maintenance_release_version after a second change");
}
#[no_mangle] pub extern "C" fn vh_flags(case: u32) {
    match case { 0 => view_mode(), 1 => proxy(), n => if let Some(f) = crate::gen_flags::TAB.get(n as usize - 2) { f() } }
    sx::reach("end");
}
