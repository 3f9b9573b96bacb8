//! Faults and short transfers of the reader or writer.
#![allow(dead_code)]
use crate::rt::*;
use crate::sx;
use crate::sym::*;
use dxf::entities::*;
use dxf::*;
use std::io::{Error, ErrorKind, Read, Result, Write};
#[derive(Clone, Copy, PartialEq)]
enum How { Fail, Zero, Interrupted, Short }
/// writer that does something else than usual in the call that would pass byte `at`
struct Wr { b: Vec<u8>, at: usize, how: How, hit: bool, err: ErrorKind }
impl Write for Wr {
    fn write(&mut self, x: &[u8]) -> Result<usize> {
        if !self.hit && !x.is_empty() && self.b.len() + x.len() > self.at {
            self.hit = true;
            match self.how {
                How::Fail => return Err(self.err.into()),
                How::Zero => return Ok(0),
                How::Interrupted => return Err(ErrorKind::Interrupted.into()),
                How::Short => { let n = (x.len() / 2).max(1); self.b.extend(&x[..n]); return Ok(n); }
            }
        }
        self.b.extend(x);
        Ok(x.len())
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
/// writer that never takes more than k bytes at once
struct Sl { b: Vec<u8>, k: usize }
impl Write for Sl {
    fn write(&mut self, x: &[u8]) -> Result<usize> { let n = x.len().min(self.k); self.b.extend(&x[..n]); Ok(n) }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
/// reader that does something else than usual at byte `at`, and never gives more than k bytes
struct Rd<'a> { b: &'a [u8], p: usize, at: usize, how: How, hit: bool, k: usize, err: ErrorKind }
impl Read for Rd<'_> {
    fn read(&mut self, x: &mut [u8]) -> Result<usize> {
        if x.is_empty() { return Ok(0); }
        let mut n = x.len().min(self.b.len() - self.p).min(self.k);
        if !self.hit && n > 0 && self.p + n > self.at {
            self.hit = true;
            match self.how { How::Fail => return Err(self.err.into()), How::Interrupted => return Err(ErrorKind::Interrupted.into()), _ => n = (n / 2).max(1) }
        }
        x[..n].copy_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}
/// The file system calls of the standard library end here: one file, whose n-th byte is where a call does something else.
struct Fs { b: Vec<u8>, p: usize, at: usize, how: How, hit: bool, opens: u32, closes: u32, deny: bool, k: usize }
static mut F: Fs = Fs { b: vec![], p: 0, at: usize::MAX, how: How::Short, hit: false, opens: 0, closes: 0, deny: false, k: usize::MAX };
#[allow(static_mut_refs)] fn fs() -> &'static mut Fs { unsafe { &mut F } }
extern "C" { fn __errno_location() -> *mut i32; }
fn errno(e: i32) -> isize { unsafe { *__errno_location() = e; } -1 }
#[no_mangle] pub extern "C" fn vhfs_open(_p: *const u8, fl: i32, _m: i32) -> i32 {
    let f = fs();
    if !unsafe { std::slice::from_raw_parts(_p, 6) }.starts_with(b"/vhfs/") { return errno(2) as i32; }
    if f.deny { return errno(13) as i32; }
    f.opens += 1;
    if fl & 0o1000 != 0 { f.b.clear(); }
    f.p = 0;
    5000
}
#[no_mangle] pub extern "C" fn vhfs_write(fd: i32, x: *const u8, n: usize) -> isize {
    if fd < 5000 { return n as isize; }
    let f = fs();
    let mut n = n.min(f.k);
    if !f.hit && n > 0 && f.b.len() + n > f.at {
        f.hit = true;
        match f.how { How::Fail => return errno(28), How::Zero => return 0, How::Interrupted => return errno(4), How::Short => n = (n / 2).max(1) }
    }
    f.b.extend(unsafe { std::slice::from_raw_parts(x, n) });
    n as isize
}
#[no_mangle] pub extern "C" fn vhfs_read(fd: i32, x: *mut u8, n: usize) -> isize {
    if fd < 5000 { return 0; }
    let f = fs();
    let mut n = n.min(f.b.len() - f.p).min(f.k);
    if !f.hit && n > 0 && f.p + n > f.at {
        f.hit = true;
        match f.how { How::Fail => return errno(5), How::Interrupted => return errno(4), _ => n = (n / 2).max(1) }
    }
    unsafe { std::slice::from_raw_parts_mut(x, n) }.copy_from_slice(&f.b[f.p..f.p + n]);
    f.p += n;
    n as isize
}
#[no_mangle] pub extern "C" fn vhfs_close(_fd: i32) -> i32 { fs().closes += 1; 0 }
#[used] pub static FS: (extern "C" fn(*const u8, i32, i32) -> i32, extern "C" fn(i32, *const u8, usize) -> isize, extern "C" fn(i32, *mut u8, usize) -> isize, extern "C" fn(i32) -> i32) = (vhfs_open, vhfs_write, vhfs_read, vhfs_close);
/// Saving to and loading from a file.  case = what (0 save, 1 load) | format << 2 | how << 4 | version << 8 | rich << 16 | big << 17 | deny << 18
#[no_mangle] pub extern "C" fn vh_file(case: u32) {
    let f = case >> 2 & 3;
    let how = [How::Fail, How::Zero, How::Interrupted, How::Short][(case >> 4 & 3) as usize];
    let ver = case >> 8 & 31;
    let mut d = if f == 2 { dxb() } else if case >> 17 & 1 != 0 { drawing(ver) } else { small(ver, case >> 16 & 1) };
    if f == 2 && case >> 17 & 1 != 0 { for _ in 0..200 { d.add_entity(Entity::new(EntityType::Circle(Circle::new(Point::new(1.0, 2.0, 3.0), 2.0)))); } }
    let d = still(&d);
    let mut full = vec![];
    if put(&d, f, &mut full).is_err() { sx::check(false, "a drawing cannot be saved"); return; }
    let nm = ["text", "binary", "dxb"][f as usize];
    let s = fs();
    s.how = how; s.deny = case >> 18 & 1 != 0;
    if case & 1 == 0 {
        s.at = sx::u16() as usize;
        sx::assume(s.at <= full.len());
        s.k = [usize::MAX, 100][pick(2) as usize];
        let r = match f { 0 => d.save_file("/vhfs/a.dxf"), 1 => d.save_file_binary("/vhfs/a.dxf"), _ => d.save_file_dxb("/vhfs/a.dxb") };
        sx::reach("saved");
        if s.deny || s.hit && (how == How::Fail || how == How::Zero) { sx::check(matches!(r, Err(DxfError::IoError(_))), &format!("a fault of the file is not reported: {}", nm)); }
        else { sx::check(r.is_ok() && s.b == full, &format!("the file is not what is saved to a writer: {}", nm)); }
        sx::check(s.hit || s.deny || s.at >= full.len(), &format!("the drawing is saved but not written: {}", nm));
    } else {
        let e = match Drawing::load(&mut &full[..]) { Ok(e) => saved(&e, f), _ => None };
        s.b = full;
        s.at = sx::u16() as usize;
        sx::assume(s.at <= s.b.len());
        s.k = [usize::MAX, 100][pick(2) as usize];
        let l = Drawing::load_file("/vhfs/a.dxf");
        sx::reach("loaded");
        if s.deny || s.hit && how == How::Fail { sx::check(matches!(l, Err(DxfError::IoError(_))), &format!("a fault of the file is not reported when loading: {}", nm)); }
        else if let Ok(l) = l { same(&l, &e, f, nm); } else { sx::check(false, &format!("a file cannot be loaded: {}", nm)); }
    }
    sx::reach("end");
}
/// a small drawing with something in every section
pub fn small(ver: u32, k: u32) -> Drawing {
    let mut d = drawing(ver);
    d.clear();
    if k == 1 {
        d.add_layer(tables::Layer { name: "L".into(), ..Default::default() });
        d.classes.push(Class { record_name: "R".into(), ..Default::default() });
        let mut b = Block::default(); b.name = "B".into(); b.entities.push(Entity::new(EntityType::Line(Line::default())));
        d.add_block(b);
        let mut p = Polyline::default(); p.add_vertex(&mut d, Vertex::new(Point::new(1.0, 2.0, 3.0)));
        d.add_entity(Entity::new(EntityType::Polyline(p)));
        d.add_object(objects::Object::new(objects::ObjectType::Dictionary(Default::default())));
        if ver >= 15 { d.thumbnail = Some(image::DynamicImage::new_rgb8(1, 1)); }
    }
    d
}
fn dxb() -> Drawing {
    let mut d = Drawing::new();
    d.clear();
    let mut e = Entity::new(EntityType::Line(Line::new(Point::new(1.0, 2.0, 3.0), Point::new(4.0, 5.0, 6.0)))); e.common.layer = "LAY".into(); e.common.color = Color::from_index(3);
    d.add_entity(e);
    let mut p = Polyline::default(); p.add_vertex(&mut d, Vertex::new(Point::new(1.0, 2.0, 0.0))); p.add_vertex(&mut d, Vertex::new(Point::new(3.0, 2.0, 0.0)));
    d.add_entity(Entity::new(EntityType::Polyline(p)));
    d.add_entity(Entity::new(EntityType::Arc(Arc::new(Point::new(1.0, 2.0, 3.0), 2.0, 10.0, 20.0))));
    d.add_entity(Entity::new(EntityType::Circle(Circle::new(Point::new(1.0, 2.0, 3.0), 2.0))));
    d.add_entity(Entity::new(EntityType::Solid(Solid::new(Point::new(1.0, 2.0, 3.0), Point::new(1.0, 2.0, 3.0), Point::new(1.0, 2.0, 3.0), Point::new(1.0, 2.0, 3.0)))));
    d.add_entity(Entity::new(EntityType::Face3D(Face3D::new(Point::new(1.0, 2.0, 3.0), Point::new(1.0, 2.0, 3.0), Point::new(1.0, 2.0, 3.0), Point::new(1.0, 2.0, 3.0)))));
    d.add_entity(Entity::new(EntityType::ModelPoint(ModelPoint::new(Point::new(1.0, 2.0, 3.0)))));
    d.add_entity(Entity::new(EntityType::Trace(Trace::default())));
    d
}
fn put<W: Write>(d: &Drawing, f: u32, w: &mut W) -> DxfResult<()> { match f { 0 => d.save(w), 1 => d.save_binary(w), _ => d.save_dxb(w) } }
fn err(h: How) -> ErrorKind { if h != How::Fail { return ErrorKind::Other; } [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe][pick(3) as usize] }
/// case = what | format << 2 | how << 4 | version << 8 | rich << 16 | part << 20 (thousands of bytes)
#[no_mangle] pub extern "C" fn vh_io(case: u32) {
    let f = case >> 2 & 3;
    let how = [How::Fail, How::Zero, How::Interrupted, How::Short][(case >> 4 & 3) as usize];
    let ver = case >> 8 & 31;
    let d = if f == 2 { dxb() } else { small(ver, case >> 16 & 1) };
    let mut full = vec![];
    if put(&d, f, &mut full).is_err() { sx::check(false, "a drawing cannot be saved"); return; }
    let nm = ["text", "binary", "dxb"][f as usize];
    // the position is symbolic: every call compares it with what was transferred so far
    let at = || { let a = sx::u16() as usize; let lo = (case >> 20) as usize * 1024; sx::assume(a >= lo && a < (lo + 1024).min(full.len())); a };
    match case & 3 {
        0 => {
            if (case >> 20) as usize * 1024 >= full.len() { sx::reach("end"); return; }
            let mut w = Wr { b: vec![], at: at(), how, hit: false, err: err(how) };
            let r = put(&d, f, &mut w);
            sx::reach("saved");
            sx::check(w.hit, &format!("the fault was not reached: {}", nm));
            match how {
                How::Fail | How::Zero => sx::check(matches!(r, Err(DxfError::IoError(_))), &format!("a fault of the writer is not reported: {}", nm)),
                _ => sx::check(r.is_ok() && w.b.len() == full.len() && w.b == full, &format!("a short or interrupted write changes what is saved: {}", nm)),
            }
        }
        1 => {
            let mut w = Sl { b: vec![], k: 1 + pick(4) as usize };
            let r = put(&d, f, &mut w);
            sx::check(r.is_ok() && w.b.len() == full.len() && w.b == full, &format!("short writes change what is saved: {}", nm));
        }
        2 => {
            if (case >> 20) as usize * 1024 >= full.len() { sx::reach("end"); return; }
            let e = match Drawing::load(&mut &full[..]) { Ok(e) => saved(&e, f), _ => None };
            let a = at();
            let mut r = Rd { b: &full, p: 0, at: a, how, hit: false, k: [1 << 20, 64, 7][pick(3) as usize], err: err(how) };
            let l = Drawing::load(&mut r);
            sx::reach("loaded");
            sx::check(r.hit, &format!("the fault was not reached: {}", nm));
            
            match how {
                How::Fail => sx::check(matches!(l, Err(DxfError::IoError(_))), &format!("a fault of the reader is not reported: {}", nm)),
                _ => { sx::check(l.is_ok(), &format!("a short or interrupted read fails: {}", nm)); if let Ok(l) = l { same(&l, &e, f, nm); } }
            }
        }
        _ => {
            let mut r = Rd { b: &full, p: 0, at: usize::MAX, how: How::Short, hit: false, k: 1 + pick(4) as usize, err: ErrorKind::Other };
            match (Drawing::load(&mut r), Drawing::load(&mut &full[..])) { (Ok(l), Ok(e)) => same(&l, &saved(&e, f), f, nm), _ => sx::check(false, &format!("short reads make loading fail: {}", nm)) }
        }
    }
    sx::reach("end");
}
fn still(d: &Drawing) -> Drawing {
    let mut d = d.clone();
    let h = &mut d.header;
    h.creation_date = std::time::UNIX_EPOCH.into(); h.creation_date_universal = std::time::UNIX_EPOCH.into();
    h.update_date = std::time::UNIX_EPOCH.into(); h.update_date_universal = std::time::UNIX_EPOCH.into();
    h.fingerprint_guid = uuid::Uuid::nil(); h.version_guid = uuid::Uuid::nil();
    d
}
fn saved(d: &Drawing, f: u32) -> Option<Vec<u8>> { let mut a = vec![]; put(&still(d), f & 1, &mut a).ok().map(|_| a) }
fn same(l: &Drawing, e: &Option<Vec<u8>>, f: u32, nm: &str) {
    let l = saved(l, f);
    sx::check(l.is_some() && &l == e, &format!("short or interrupted reads change what is loaded: {}", nm));
}
