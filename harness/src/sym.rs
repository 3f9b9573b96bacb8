//! Symbolic values of the library's field types, and the comparison used on them after a round trip.
use crate::sx;
use dxf::*;
use dxf::enums::*;
use std::collections::HashMap;
pub const ANY: u32 = 0;
/// the field is stored as a 16-bit integer in the file
pub const I16: u32 = 1;
/// the field is stored as a double but holds an i32
pub const I32: u32 = 2;
/// only x and y are stored in the file
pub const XY: u32 = 4;
/// name of a table entry: concrete
pub const TNAME: u32 = 8;
/// colour of a layer: an index
pub const IDX: u32 = 16;
/// handle values of any size
pub const WIDE: u32 = 32;
/// integral values
pub const INT: u32 = 64;
/// a double that is stored as an i16
pub const INT16: u32 = 128;
/// text drawings: doubles are concrete (a different one each time), and so are integers when all fields are set at once
pub static TEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
/// every field concrete and different from its default
pub static RICH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn rich() -> bool { RICH.load(std::sync::atomic::Ordering::Relaxed) }
fn txt() -> Option<u32> {
    use std::sync::atomic::Ordering::Relaxed;
    let n = TEXT.load(Relaxed);
    if n == 0 { None } else { TEXT.store(n + 1, Relaxed); Some(n) }
}
/// symbolic value of a field; `nd`: all fields are set at once, so take a value other than the default `d`
pub trait Sy: Sized + Clone {
    fn sy(d: &Self, nd: bool, dom: u32) -> Self;
    fn same(&self, o: &Self) -> bool;
}
macro_rules! eq_same { () => { fn same(&self, o: &Self) -> bool { self == o } } }
impl Sy for f64 {
    fn sy(d: &f64, nd: bool, dom: u32) -> f64 {
        if let Some(n) = txt() {
            let v = (n * 7) as f64 * if n & 1 == 0 { -1.0 } else { 1.0 } + if dom & (INT | INT16) != 0 { 0.0 } else { 0.8125 };
            return if v == *d { v + 3.0 } else { v };
        }
        let v = if dom & INT16 != 0 { sx::i16() as f64 } else if dom & INT != 0 { sx::i32() as f64 } else { sx::f64_() }; if nd { sx::assume(v != *d); } v }
    fn same(&self, o: &f64) -> bool { feq(*self, *o) }
}
impl Sy for i16 {
    fn sy(d: &i16, nd: bool, _: u32) -> i16 { if let Some(n) = txt() { if !nd { return sx::u8() as i8 as i16; } let v = (n & 0x7f) as i16; return if v == *d { v + 3 } else { v }; } let v = sx::i16(); if nd { sx::assume(v != *d); } v }
    eq_same!();
}
impl Sy for i32 {
    fn sy(d: &i32, nd: bool, dom: u32) -> i32 { if let Some(n) = txt() { if !nd && dom & I32 == 0 { return sx::u8() as i8 as i32; } let v = (n & 0x7f) as i32; return if v == *d { v + 3 } else { v }; } let v = if dom & I16 != 0 { sx::i16() as i32 } else { sx::i32() }; if nd { sx::assume(v != *d); } v }
    eq_same!();
}
impl Sy for i64 {
    fn sy(d: &i64, nd: bool, dom: u32) -> i64 { if let Some(n) = txt() { if !nd && dom & I32 == 0 { return sx::u8() as i8 as i64; } let v = (n & 0x7f) as i64; return if v == *d { v + 3 } else { v }; } let v = if dom & I16 != 0 { sx::i16() as i64 } else if dom & I32 != 0 { sx::i32() as i64 } else { sx::i64() }; if nd { sx::assume(v != *d); } v }
    eq_same!();
}
impl Sy for u32 {
    fn sy(d: &u32, nd: bool, _: u32) -> u32 { if let Some(n) = txt() { if !nd { return sx::u8() as u32; } let v = (n & 0x7f) as u32; return if v == *d { v + 3 } else { v }; } let v = sx::u32(); if nd { sx::assume(v != *d); } v }
    eq_same!();
}
impl Sy for u8 {
    fn sy(d: &u8, nd: bool, _: u32) -> u8 { if let Some(n) = txt() { if !nd { return sx::u8() as u8; } let v = (n & 0x7f) as u8; return if v == *d { v + 3 } else { v }; } let v = sx::u8(); if nd { sx::assume(v != *d); } v }
    eq_same!();
}
impl Sy for bool {
    fn sy(d: &bool, nd: bool, _: u32) -> bool { if rich() { return !*d; } let v = sx::bool_(); if nd { sx::assume(v != *d); } v }
    eq_same!();
}
impl Sy for char {
    fn sy(d: &char, nd: bool, _: u32) -> char { if rich() { return if *d == 'q' { 'r' } else { 'q' }; } let v = sx::u8(); sx::assume(v >= 32 && v < 127); let v = v as char; if nd { sx::assume(v != *d); } v }
    eq_same!();
}
/// a character from the underscore to the tilde (small letters, braces), then one from the blank to the bracket (digits, capital letters, punctuation)
pub fn letters2() -> String {
    let b = sx::bytes(2);
    sx::assume(b[0] >= b'_' && b[0] <= b'~');
    sx::assume(b[1] >= b' ' && b[1] <= b'[');
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn letters() -> String {
    if let Some(n) = txt() { return ["ka", "l ", "Mc", "n%", " e"][n as usize % 5].into(); }
    letters2()
}
impl Sy for String {
    fn sy(_: &String, nd: bool, dom: u32) -> String {
        if dom & TNAME != 0 { return "QQ".into(); }
        if !nd && pick(2) == 1 { return String::new(); }
        if nd { return letters(); }
        letters2()
    }
    fn same(&self, o: &Self) -> bool { beq(self.as_bytes(), o.as_bytes()) }
}
/// equal; in text drawings up to the twelve decimals that are written
pub fn feq(a: f64, b: f64) -> bool { if TEXT.load(std::sync::atomic::Ordering::Relaxed) != 0 { (a - b).abs() < 1e-11 } else { a == b } }
/// branch-free comparison
pub fn beq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
impl Sy for Point {
    fn sy(d: &Point, nd: bool, dom: u32) -> Point {
        let p = Point::new(f64::sy(&d.x, nd, dom), f64::sy(&d.y, nd, dom), if dom & XY != 0 { d.z } else { f64::sy(&d.z, nd, dom) });
        p
    }
    fn same(&self, o: &Self) -> bool { feq(self.x, o.x) & feq(self.y, o.y) & feq(self.z, o.z) }
}
impl Sy for Vector {
    fn sy(d: &Vector, nd: bool, dom: u32) -> Vector {
        Vector::new(f64::sy(&d.x, nd, 0), f64::sy(&d.y, nd, 0), if dom & XY != 0 { d.z } else { f64::sy(&d.z, nd, 0) })
    }
    fn same(&self, o: &Self) -> bool { feq(self.x, o.x) & feq(self.y, o.y) & feq(self.z, o.z) }
}
impl Sy for Handle {
    fn sy(_: &Handle, nd: bool, _: u32) -> Handle { if nd { return Handle(0xA7B3); } Handle([0x2B, 0xFEDC_BA98, u64::MAX - 1][pick(3) as usize]) }
    eq_same!();
}
impl Sy for Color {
    fn sy(d: &Color, nd: bool, dom: u32) -> Color {
        if rich() { return Color::from_index(txt().unwrap_or(0) as u8 % 100 + 20); }
        if dom & IDX != 0 { let i = sx::u8(); sx::assume(i > 0); let c = Color::from_index(i); if nd { sx::assume(c != *d); } return c; }
        if std::mem::size_of::<Color>() == 2 {
            let v = i16::sy(&7, nd, 0);
            sx::assume(v != i16::MIN);
            let c: Color = unsafe { std::mem::transmute_copy(&v) };
            if nd { sx::assume(c != *d); }
            c
        } else { let c = Color::from_index(sx::u8()); if nd { sx::assume(c != *d); } c }
    }
    eq_same!();
}
impl Sy for LineWeight {
    fn sy(d: &LineWeight, nd: bool, _: u32) -> LineWeight {
        if std::mem::size_of::<LineWeight>() == 2 {
            let v = i16::sy(&7, nd, 0);
            let c: LineWeight = unsafe { std::mem::transmute_copy(&v) };
            if nd { sx::assume(c != *d); }
            c
        } else if *d == LineWeight::by_layer() { LineWeight::by_block() } else { LineWeight::by_layer() }
    }
    eq_same!();
}
impl Sy for ViewMode {
    fn sy(d: &ViewMode, nd: bool, _: u32) -> ViewMode { if rich() { return ViewMode::from_i16(5); } let v = ViewMode::from_i16(i16::sy(&0, false, 0)); if nd { sx::assume(v.raw() != d.raw()); } v }
    eq_same!();
}
impl<T: Sy + SyDef> Sy for Vec<T> {
    fn sy(_: &Vec<T>, nd: bool, dom: u32) -> Vec<T> {
        let n = if nd { 2 } else { pick(4) };
        (0..n).map(|_| T::sy(&T::sydef(), true, dom)).collect()
    }
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() { return false; }
        let mut r = true;
        for i in 0..self.len() { r &= self[i].same(&o[i]); }
        r
    }
}
/// R2004 and R2007 store a boolean
pub fn xclip(v: u32, x: &XrefClippingBoundaryVisibility) -> &XrefClippingBoundaryVisibility {
    if v <= 17 && *x != XrefClippingBoundaryVisibility::NotDisplayedNotPlotted { &XrefClippingBoundaryVisibility::DisplayedAndPlotted } else { x }
}
/// vertex identifiers are stored from R2013 on
pub fn lw_ids(v: &[LwPolylineVertex], ver: u32) -> Vec<LwPolylineVertex> { v.iter().map(|p| LwPolylineVertex { id: if ver >= 19 { p.id } else { 0 }, ..p.clone() }).collect() }
pub trait SyDef { fn sydef() -> Self; }
macro_rules! sydef { ($($t:ty: $e:expr),* $(,)?) => { $(impl SyDef for $t { fn sydef() -> $t { $e } })* } }
sydef!(f64: 0.25, i16: 7, i32: 7, String: String::new(), Point: Point::new(0.25, 0.25, 0.0), Vector: Vector::new(0.25, 0.25, 0.0), Handle: Handle(0), Color: Color::from_index(9), u8: 1, bool: false, Vec<u8>: vec![]);
sydef!(LwPolylineVertex: LwPolylineVertex::default());
impl Sy for LwPolylineVertex {
    fn sy(d: &Self, nd: bool, _: u32) -> Self {
        LwPolylineVertex { x: f64::sy(&d.x, nd, 0), y: f64::sy(&d.y, nd, 0), id: i32::sy(&d.id, nd, 0), starting_width: f64::sy(&d.starting_width, nd, 0), ending_width: f64::sy(&d.ending_width, nd, 0), bulge: f64::sy(&d.bulge, nd, 0) }
    }
    fn same(&self, o: &Self) -> bool { feq(self.x, o.x) & feq(self.y, o.y) & (self.id == o.id) & feq(self.starting_width, o.starting_width) & feq(self.ending_width, o.ending_width) & feq(self.bulge, o.bulge) }
}
sydef!(GeoMeshPoint: GeoMeshPoint::new(Point::origin(), Point::origin()), MLineStyleElement: MLineStyleElement::new(0.0, Color::by_layer(), String::new()));
impl Sy for GeoMeshPoint {
    fn sy(d: &Self, nd: bool, _: u32) -> Self { GeoMeshPoint::new(Point::sy(&d.source, nd, XY), Point::sy(&d.destination, nd, XY)) }
    fn same(&self, o: &Self) -> bool { self.source.same(&o.source) & self.destination.same(&o.destination) }
}
impl Sy for MLineStyleElement {
    fn sy(d: &Self, nd: bool, _: u32) -> Self { MLineStyleElement::new(f64::sy(&d.offset, nd, 0), Color::sy(&d.color, nd, 0), letters()) }
    fn same(&self, o: &Self) -> bool { feq(self.offset, o.offset) & (self.color == o.color) & self.line_type.same(&o.line_type) }
}
impl Sy for TransformationMatrix {
    fn sy(d: &Self, nd: bool, dom: u32) -> Self {
        let mut m = *d;
        macro_rules! s { ($($f:ident)*) => { $( m.$f = f64::sy(&d.$f, nd, 0); )* } }
        s!(m11 m12 m13 m14 m21 m22 m23 m24 m31 m32 m33 m34);
        if dom & XY == 0 { s!(m41 m42 m43 m44); }
        m
    }
    fn same(&self, o: &Self) -> bool {
        let mut r = true;
        macro_rules! s { ($($f:ident)*) => { $( r &= feq(self.$f, o.$f); )* } }
        s!(m11 m12 m13 m14 m21 m22 m23 m24 m31 m32 m33 m34 m41 m42 m43 m44);
        r
    }
}
macro_rules! sy_struct {
    ($t:ident; $($f:ident: $dom:expr),* $(,)?) => {
        impl SyDef for $t { fn sydef() -> Self { Self::default() } }
        impl Sy for $t {
            fn sy(d: &Self, nd: bool, _: u32) -> Self { #[allow(unused_mut)] let mut s = d.clone(); $( s.$f = Sy::sy(&d.$f, nd, $dom); )* s }
            fn same(&self, o: &Self) -> bool { let mut r = true; $( r &= self.$f.same(&o.$f); )* r }
        }
    };
}
sy_struct!(SectionGeometrySettings; section_type: 0, geometry_count: 0, bit_flags: 0, color: 0, layer_name: 0, line_type_name: 0, line_type_scale: 0, plot_style_name: 0, line_weight: 0, face_transparency: 0, edge_transparency: 0, hatch_pattern_type: 0, hatch_pattern_name: 0, hatch_angle: 0, hatch_scale: 0, hatch_spacing: 0);
sy_struct!(SectionTypeSettings; section_type: 0, is_generation_option: 0, source_object_handles: 0, destination_object_handle: 0, destination_file_name: 0, geometry_settings: 0);
sy_struct!(TableCellStyle; name: 0, text_height: 0, cell_alignment: 0, text_color: 0, cell_fill_color: 0, is_background_color_enabled: 0, cell_data_type: 0, cell_unit_type: 0,
    border_lineweight_1: 0, border_lineweight_2: 0, border_lineweight_3: 0, border_lineweight_4: 0, border_lineweight_5: 0, border_lineweight_6: 0,
    is_border_1_visible: 0, is_border_2_visible: 0, is_border_3_visible: 0, is_border_4_visible: 0, is_border_5_visible: 0, is_border_6_visible: 0,
    border_1_color: 0, border_2_color: 0, border_3_color: 0, border_4_color: 0, border_5_color: 0, border_6_color: 0);
impl Sy for HashMap<String, Handle> {
    fn sy(_: &Self, nd: bool, _: u32) -> Self {
        let n = if nd { 2 } else { pick(3) };
        let mut m = HashMap::new();
        for i in 0..n { let mut k = letters(); k.push_str(["A", "B", "C"][i as usize]); m.insert(k, Sy::sy(&Handle(0), true, 0)); }
        m
    }
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() { return false; }
        let mut r = true;
        for (k, v) in self { match o.get(k) { Some(w) => r &= v == w, None => return false } }
        r
    }
}
sydef!(CodePair: CodePair::new_i16(70, 0));
impl Sy for CodePair {
    fn sy(_: &Self, _: bool, _: u32) -> Self {
        match if rich() { txt().unwrap_or(0) % 5 } else { pick(5) } {
            0 => CodePair::new_f64(40, f64::sy(&0.25, true, 0)),
            1 => CodePair::new_i16(70, i16::sy(&0, true, 0)),
            2 => CodePair::new_i32(90, i32::sy(&0, true, 0)),
            3 => CodePair::new_string(1, &letters()),
            _ => CodePair::new_bool(290, if rich() { true } else { sx::bool_() }),
        }
    }
    fn same(&self, o: &Self) -> bool { self.code == o.code && self.value == o.value }
}
impl Sy for uuid::Uuid {
    fn sy(_: &Self, _: bool, _: u32) -> Self { let b = if rich() { vec![7, 9] } else { sx::bytes(2) }; let mut v = [0x5au8; 16]; v[3] = b[0]; v[10] = b[1]; uuid::Uuid::from_bytes(v) }
    fn same(&self, o: &Self) -> bool { beq(self.as_bytes(), o.as_bytes()) }
}
/// every value below n, one path each
pub fn pick(n: u32) -> u32 { let v = sx::u8() as u32; sx::assume(v < n); sx::conc(v as u64) as u32 }
#[macro_export]
macro_rules! sy_enum {
    ($t:ident: $($v:ident),*) => {
        impl $crate::sym::Sy for $t {
            fn sy(d: &$t, nd: bool, _: u32) -> $t {
                const A: &[$t] = &[$($t::$v),*];
                if nd { let mut r = A[A.len() - 1]; if r == *d { r = A[0]; } return r; }
                A[$crate::sym::pick(A.len() as u32) as usize]
            }
            fn same(&self, o: &$t) -> bool { self == o }
        }
    };
}
pub const VERS: [AcadVersion; 21] = [AcadVersion::Version_1_0, AcadVersion::Version_1_2, AcadVersion::Version_1_40, AcadVersion::Version_2_05, AcadVersion::Version_2_10, AcadVersion::Version_2_21, AcadVersion::Version_2_22, AcadVersion::Version_2_5, AcadVersion::Version_2_6, AcadVersion::R9, AcadVersion::R10, AcadVersion::R11, AcadVersion::R12, AcadVersion::R13, AcadVersion::R14, AcadVersion::R2000, AcadVersion::R2004, AcadVersion::R2007, AcadVersion::R2010, AcadVersion::R2013, AcadVersion::R2018];
