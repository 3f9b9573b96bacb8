//! Hand-made drawings and an independent parser of code pairs.
#![allow(dead_code)]
/// value class of a group code, as the DXF reference assigns it
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Str, F64, I16, I32, I64, Bool, Bin }
pub fn kind(code: u32) -> Option<K> {
    Some(match code {
        0..=9 | 100 | 101 | 102 | 105 | 300..=309 | 320..=369 | 390..=399 | 410..=419 | 430..=439 | 470..=481 | 999 | 1000..=1009 => K::Str,
        10..=59 | 110..=149 | 210..=239 | 460..=469 | 1010..=1059 => K::F64,
        60..=79 | 170..=179 | 270..=289 | 370..=389 | 400..=409 | 1060..=1070 => K::I16,
        90..=99 | 420..=429 | 440..=459 | 1071 => K::I32,
        160..=169 => K::I64,
        290..=299 => K::Bool,
        310..=319 => K::Bin,
        _ => return None,
    })
}
#[derive(Clone, PartialEq, Debug)]
pub enum V { S(Vec<u8>), F(f64), H(i16), I(i32), L(i64), B(u8), X(Vec<u8>) }
#[derive(Clone)]
pub struct W { pub b: Vec<u8>, pub text: bool, pub wide: bool }
impl W {
    pub fn text() -> W { W { b: vec![], text: true, wide: true } }
    pub fn bin(wide: bool) -> W { W { b: b"AutoCAD Binary DXF\r\n\x1a\0".to_vec(), text: false, wide } }
    pub fn code(&mut self, c: u32) {
        if self.text { self.b.extend(format!("{:>3}\r\n", c).bytes()); }
        else if self.wide { self.b.extend((c as u16).to_le_bytes()); }
        else if c >= 255 { self.b.push(255); self.b.extend((c as u16).to_le_bytes()); }
        else { self.b.push(c as u8); }
    }
    pub fn s(&mut self, c: u32, v: &str) -> &mut W { self.sb(c, v.as_bytes()) }
    pub fn sb(&mut self, c: u32, v: &[u8]) -> &mut W {
        self.code(c);
        self.b.extend(v);
        if self.text { self.b.extend(b"\r\n"); } else { self.b.push(0); }
        self
    }
    pub fn h(&mut self, c: u32, v: i16) -> &mut W { self.code(c); if self.text { self.b.extend(format!("{:>6}\r\n", v).bytes()); } else { self.b.extend(v.to_le_bytes()); } self }
    pub fn i(&mut self, c: u32, v: i32) -> &mut W { self.code(c); if self.text { self.b.extend(format!("{:>9}\r\n", v).bytes()); } else { self.b.extend(v.to_le_bytes()); } self }
    pub fn l(&mut self, c: u32, v: i64) -> &mut W { self.code(c); if self.text { self.b.extend(format!("{}\r\n", v).bytes()); } else { self.b.extend(v.to_le_bytes()); } self }
    pub fn f(&mut self, c: u32, v: f64) -> &mut W { self.code(c); if self.text { self.b.extend(format!("{:.12}\r\n", v).bytes()); } else { self.b.extend(v.to_bits().to_le_bytes()); } self }
    pub fn bo(&mut self, c: u32, v: u8) -> &mut W { self.code(c); if self.text { self.b.extend(format!("{:>6}\r\n", v).bytes()); } else { self.b.push(v); } self }
    pub fn x(&mut self, c: u32, v: &[u8]) -> &mut W {
        self.code(c);
        if self.text { for b in v { self.b.extend(format!("{:02X}", b).bytes()); } self.b.extend(b"\r\n"); } else { self.b.push(v.len() as u8); self.b.extend(v); }
        self
    }
    pub fn v(&mut self, c: u32, v: &V) -> &mut W {
        match v { V::S(s) => self.sb(c, s), V::F(f) => self.f(c, *f), V::H(h) => self.h(c, *h), V::I(i) => self.i(c, *i), V::L(l) => self.l(c, *l), V::B(b) => self.bo(c, *b), V::X(x) => self.x(c, x) }
    }
    pub fn sec(&mut self, n: &str) -> &mut W { self.s(0, "SECTION").s(2, n) }
    pub fn end(&mut self) -> &mut W { self.s(0, "ENDSEC") }
    pub fn eof(&mut self) -> &mut W { self.s(0, "EOF") }
    /// header section with the version
    pub fn ver(&mut self, v: &str) -> &mut W { self.sec("HEADER").s(9, "$ACADVER").s(1, v).end() }
}
pub type Pr = (u32, V);
/// code pairs of a saved drawing; None: not a sequence of well-typed pairs
pub fn parse(b: &[u8], text: bool, wide: bool) -> Option<Vec<Pr>> {
    let mut r = vec![];
    if text {
        let mut p = 0;
        while p < b.len() {
            let c = line(b, &mut p)?;
            let code: u32 = std::str::from_utf8(c).ok()?.trim().parse().ok()?;
            let v = line(b, &mut p)?;
            let t = || std::str::from_utf8(v).ok().map(|s| s.trim());
            r.push((code, match kind(code)? {
                K::Str => V::S(v.to_vec()),
                K::F64 => V::F(t()?.parse().ok()?),
                K::I16 => V::H(t()?.parse().ok()?),
                K::I32 => V::I(t()?.parse().ok()?),
                K::I64 => V::L(t()?.parse().ok()?),
                K::Bool => V::B(t()?.parse().ok()?),
                K::Bin => { if v.len() % 2 != 0 { return None; } let mut o = vec![]; for c in v.chunks(2) { o.push(u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()?); } V::X(o) }
            }));
        }
        return Some(r);
    }
    let mut p = 22;
    if b.len() < p || &b[..p] != b"AutoCAD Binary DXF\r\n\x1a\0" { return None; }
    fn take<'a>(b: &'a [u8], p: &mut usize, n: usize) -> Option<&'a [u8]> { if *p + n > b.len() { return None; } let r = &b[*p..*p + n]; *p += n; Some(r) }
    while p < b.len() {
        let code = if wide { let c = take(b, &mut p, 2)?; c[0] as u32 | (c[1] as u32) << 8 } else {
            let c = take(b, &mut p, 1)?[0] as u32;
            if c == 255 { let c = take(b, &mut p, 2)?; c[0] as u32 | (c[1] as u32) << 8 } else { c }
        };
        r.push((code, match kind(code)? {
            K::Str => { let s = p; while *b.get(p)? != 0 { p += 1; } p += 1; V::S(b[s..p - 1].to_vec()) }
            K::F64 => V::F(f64::from_bits(u64::from_le_bytes(take(b, &mut p, 8)?.try_into().unwrap()))),
            K::I16 => V::H(i16::from_le_bytes(take(b, &mut p, 2)?.try_into().unwrap())),
            K::I32 => V::I(i32::from_le_bytes(take(b, &mut p, 4)?.try_into().unwrap())),
            K::I64 => V::L(i64::from_le_bytes(take(b, &mut p, 8)?.try_into().unwrap())),
            K::Bool => V::B(take(b, &mut p, 1)?[0]),
            K::Bin => { let n = take(b, &mut p, 1)?[0] as usize; V::X(take(b, &mut p, n)?.to_vec()) }
        }));
    }
    Some(r)
}
fn line<'a>(b: &'a [u8], p: &mut usize) -> Option<&'a [u8]> {
    let s = *p;
    while *p + 1 < b.len() {
        if b[*p] == b'\r' && b[*p + 1] == b'\n' { *p += 2; return Some(&b[s..*p - 2]); }
        *p += 1;
    }
    None
}
pub fn is(p: &Pr, c: u32, s: &str) -> bool { p.0 == c && matches!(&p.1, V::S(v) if v == s.as_bytes()) }
/// the value after header variable `n`
pub fn hvar<'a>(ps: &'a [Pr], n: &str) -> Option<&'a Pr> { let i = ps.iter().position(|p| is(p, 9, n))?; ps.get(i + 1) }
/// pairs of the first item of type `t` (0/t) up to the next 0
pub fn item<'a>(ps: &'a [Pr], t: &str) -> Option<&'a [Pr]> {
    let i = ps.iter().position(|p| is(p, 0, t))?;
    let n = ps[i + 1..].iter().position(|p| p.0 == 0).unwrap_or(ps.len() - i - 1);
    Some(&ps[i + 1..i + 1 + n])
}
pub fn find<'a>(ps: &'a [Pr], c: u32) -> Option<&'a V> { ps.iter().find(|p| p.0 == c).map(|p| &p.1) }
