//! Code pairs of drawings that hold one fully populated item, and changed versions of them.
#![allow(dead_code)]
use crate::mk::*;
use crate::rt::*;
use crate::sx;
use crate::sym::*;
use dxf::*;
pub const NE: usize = 44; pub const NO: usize = 41; pub const NT: usize = 9;
/// n-th item: entities, objects, tables, class, block, header
pub fn nth(n: usize) -> (u32, usize) { if n < NE { (KE, n) } else if n < NE + NO { (KO, n - NE) } else if n < NE + NO + NT { (KT, n - NE - NO) } else { ([KC, KB, KH][(n - NE - NO - NT) % 3], 0) } }
pub const NALL: usize = NE + NO + NT + 3;
pub fn wide(ver: u32) -> bool { ver >= 13 }
/// what is before, in and after the item
pub struct Mini { pub pre: Vec<Pr>, pub item: Vec<Pr>, pub post: Vec<Pr>, pub ver: u32 }
fn s(c: u32, v: &str) -> Pr { (c, V::S(v.as_bytes().to_vec())) }
pub fn all_pairs(d: &Drawing, text: bool) -> Vec<Pr> {
    let mut o = vec![];
    let ok = if text { d.save(&mut o) } else { d.save_binary(&mut o) }.is_ok();
    if !ok { sx::check(false, "a populated drawing cannot be saved"); return vec![]; }
    match parse(&o, text, d.header.version >= dxf::enums::AcadVersion::R13) { Some(p) => p, None => { sx::check(false, "a saved drawing is not a sequence of pairs"); vec![] } }
}
fn section<'a>(ps: &'a [Pr], n: &str) -> &'a [Pr] {
    for i in 0..ps.len().saturating_sub(1) {
        if is(&ps[i], 0, "SECTION") && is(&ps[i + 1], 2, n) {
            let e = ps[i..].iter().position(|p| is(p, 0, "ENDSEC")).unwrap_or(ps.len() - i);
            return &ps[i + 2..i + e];
        }
    }
    &[]
}
pub fn mini(kind: u32, d: &Drawing) -> Mini {
    let ps = all_pairs(d, false);
    let ver = VERS.iter().position(|v| *v == d.header.version).unwrap() as u32;
    let vp = match hvar(&ps, "$ACADVER") { Some((1, V::S(x))) => x.clone(), _ => b"AC1009".to_vec() };
    let mut pre = vec![s(0, "SECTION"), s(2, "HEADER"), s(9, "$ACADVER"), (1, V::S(vp))];
    let mut post = vec![];
    let item: Vec<Pr>;
    match kind {
        KH => { item = section(&ps, "HEADER").to_vec(); pre.truncate(2); }
        _ => {
            let n = match kind { KE => "ENTITIES", KO => "OBJECTS", KT => "TABLES", KC => "CLASSES", _ => "BLOCKS" };
            pre.push(s(0, "ENDSEC")); pre.push(s(0, "SECTION")); pre.push(s(2, n));
            let sec = section(&ps, n);
            match kind {
                KO => { let i = sec.iter().rposition(|p| p.0 == 0).unwrap_or(0); item = sec[i..].to_vec(); }
                KT => {
                    let q = sec.iter().position(|p| is(p, 2, "QQ")).unwrap_or(0);
                    let a = sec[..q].iter().rposition(|p| p.0 == 0).unwrap_or(0);
                    let b = q + sec[q..].iter().position(|p| p.0 == 0).unwrap_or(0);
                    let t = sec[..a].iter().rposition(|p| is(p, 0, "TABLE")).unwrap_or(0);
                    let e = t + 1 + sec[t + 1..].iter().position(|p| p.0 == 0).unwrap_or(0);
                    pre.extend(sec[t..e].iter().cloned());
                    item = sec[a..b].to_vec();
                    post.push(s(0, "ENDTAB"));
                }
                _ => item = sec.to_vec(),
            }
        }
    }
    post.push(s(0, "ENDSEC"));
    post.push(s(0, "EOF"));
    Mini { pre, item, post, ver }
}
pub fn rich_mini(n: usize, ver: u32, mut f: impl FnMut(Mini)) {
    let (k, i) = nth(n);
    rich_drawing(k, i, ver, |d| { let m = mini(k, d); f(m) });
}
pub fn put(w: &mut W, ps: &[Pr]) { for p in ps { w.v(p.0, &p.1); } }
pub fn bytes(m: &Mini, text: bool) -> Vec<u8> { let mut w = mkw(m, text); put(&mut w, &m.pre); put(&mut w, &m.item); put(&mut w, &m.post); w.b }
pub fn mkw(m: &Mini, text: bool) -> W { if text { W::text() } else { W::bin(wide(m.ver)) } }
fn load(b: &[u8]) { match Drawing::load(&mut &b[..]) { Ok(_) => sx::reach("ok"), Err(_) => sx::reach("err") } }
/// doubles that are turned into dates: conversion of a symbolic one is slow
static DATES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const DD: [f64; 16] = [0.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 2_451_545.25, 1e7, 1e9, 1.1e8, -1e9, 1e14, 9.3e18, 2_440_587.5];
const CL: [K; 7] = [K::Str, K::F64, K::I16, K::I32, K::I64, K::Bool, K::Bin];
/// symbolic value of a class
pub fn symv(k: K) -> V {
    match k {
        K::Str => match pick(3) { 0 => V::S(vec![]), 1 => { let b = sx::u8(); sx::assume(b != 0); V::S(vec![b]) }, _ => V::S(b"{Q".to_vec()) },
        K::F64 => V::F(if DATES.load(std::sync::atomic::Ordering::Relaxed) { DD[pick(DD.len() as u32) as usize] } else { sx::f64_any() }),
        K::I16 => V::H(sx::i16()), K::I32 => V::I(sx::i32()), K::I64 => V::L(sx::i64()), K::Bool => V::B(sx::u8()),
        K::Bin => { let n = pick(3) as usize; V::X(sx::bytes(n)) }
    }
}
/// symbolic code of class number `k` (7: no class)
pub fn symc(k: u32) -> u32 {
    let c = sx::u16() as u32;
    if k < 7 { sx::assume(kind(c) == Some(CL[k as usize])); } else { sx::assume(kind(c).is_none()); }
    c
}
/// class of the value that the k-th class has, in a binary drawing
fn sym_pair(w: &mut W, n: usize) { let k = pick(8); let c = symc(k); if k == 7 { w.v(c, &V::S(b"1".to_vec())); } else { let v = symv(CL[k as usize]); small(n, c, &v); w.v(c, &v); } }
const DT: usize = NE + 39;
/// row and column counts of a DATATABLE stay small: the table is allocated from them (known finding)
fn small(n: usize, c: u32, v: &V) { if n == DT { if let V::I(x) = v { sx::assume((c != 90 && c != 91) || *x <= 3); } } }
/// positions right after the type, after each subclass marker, and at the end
fn spots(m: &Mini) -> Vec<usize> {
    let mut r: Vec<usize> = (1..=m.item.len()).filter(|i| matches!(m.item[*i - 1].0, 0 | 100 | 101)).collect();
    if r.last() != Some(&m.item.len()) { r.push(m.item.len()); }
    r
}
pub fn pick16(n: usize) -> usize { if n <= 48 { return pick(n as u32) as usize; } let v = pick(((n + 31) / 32) as u32) as usize * 32 + pick(32) as usize; sx::assume(v < n); v }
/// case = item | op << 8 | spot << 12 (0: all) | text << 24
#[no_mangle] pub extern "C" fn vh_any(case: u32) {
    let n = (case & 0xff) as usize;
    let op = case >> 8 & 15;
    if case >> 21 & 1 == 0 && (n == NE + 14 || n == NE + 32) { DATES.store(true, std::sync::atomic::Ordering::Relaxed); }
    let ver = if case >> 20 & 1 == 1 { 12 } else { 20 };
    rich_mini(n, ver, |m| {
        if ver == 12 && m.ver != 12 { return; }
        let mut w = mkw(&m, false);
        put(&mut w, &m.pre);
        match op {
            // a pair of any code and value after the type, a subclass marker, or at the end
            0 => {
                let sp = spots(&m);
                let i = sp[pick16(sp.len())];
                put(&mut w, &m.item[..i]); sym_pair(&mut w, n); put(&mut w, &m.item[i..]); put(&mut w, &m.post);
                load(&w.b);
            }
            // any value at any pair; the pair may also be the last one, or be missing
            1 => {
                let i = pick16(m.item.len());
                let (c, _) = m.item[i].clone();
                let k = kind(c).unwrap_or(K::Str);
                put(&mut w, &m.item[..i]); let v = symv(k); small(n, c, &v); w.v(c, &v); put(&mut w, &m.item[i + 1..]); put(&mut w, &m.post);
                load(&w.b);
            }
            2 => {
                let i = pick16(m.item.len());
                match pick(3) {
                    0 => { put(&mut w, &m.item[..i]); put(&mut w, &m.item[i + 1..]); put(&mut w, &m.post); }
                    1 => { put(&mut w, &m.item[..i]); put(&mut w, &m.post); }
                    _ => { put(&mut w, &m.item[..=i]); put(&mut w, &m.item[i..]); put(&mut w, &m.post); }
                }
                load(&w.b);
            }
            // cut off anywhere
            3 => {
                let a = if case >> 12 & 1 == 1 { 22 } else { w.b.len() };
                put(&mut w, &m.item); put(&mut w, &m.post);
                let i = a + pick16(w.b.len() - a);
                load(&w.b[..i]);
            }
            // two pairs of any code and value right after the type
            4 => {
                put(&mut w, &m.item[..1]); sym_pair(&mut w, n); sym_pair(&mut w, n); put(&mut w, &m.post);
                load(&w.b);
            }
            // header: any code and value for any variable
            5 => {
                let vs: Vec<usize> = (0..m.item.len()).filter(|i| m.item[*i].0 == 9).collect();
                let lo = (case >> 12 & 0xff) as usize * 8;
                if lo >= vs.len() { return; }
                let i = vs[lo + pick((vs.len() - lo).min(8) as u32) as usize];
                if case >> 21 & 1 == 0 { if let V::S(x) = &m.item[i].1 { if x.starts_with(b"$TD") { DATES.store(true, std::sync::atomic::Ordering::Relaxed); } } }
                w.v(9, &m.item[i].1); sym_pair(&mut w, n); put(&mut w, &m.post);
                load(&w.b);
            }
            6 => {
                for p in &m.item { if p.0 == 90 || p.0 == 91 { w.i(p.0, 0x7000_0000); } else { w.v(p.0, &p.1); } }
                put(&mut w, &m.post);
                load(&w.b);
            }
            _ => (),
        }
    });
    sx::reach("end");
}
/// structure: pairs of section, table and block level
#[no_mangle] pub extern "C" fn vh_bin_raw(case: u32) {
    let mut w = W::bin(case & 1 == 1);
    match case >> 1 {
        n @ 0..=11 => { w.b.extend(sx::bytes(n as usize)); load(&w.b); }
        12 => { w.sec("HEADER"); w.b.extend(sx::bytes(6)); load(&w.b); }
        13 => { let b = sx::bytes(7); load(&b); }
        14 => { let mut b = b"AutoCAD Binary DXF\r\n\x1a\0".to_vec(); let i = pick(22) as usize; b[i] = sx::u8(); b.extend(sx::bytes(1)); load(&b); }
        n => {
            // any four words of the structure
            const S: [(u32, &str); 16] = [(0, "SECTION"), (0, "ENDSEC"), (0, "EOF"), (2, "HEADER"), (2, "TABLES"), (2, "BLOCKS"), (2, "ENTITIES"), (2, "CLASSES"), (2, "OBJECTS"), (2, "THUMBNAILIMAGE"), (0, "TABLE"), (2, "LAYER"), (0, "ENDTAB"), (0, "BLOCK"), (0, "ENDBLK"), (0, "LINE")];
            let a = S[(n - 15) as usize % 16];
            w.s(0, "SECTION");
            w.s(a.0, a.1);
            for _ in 0..3 { let x = S[pick(16) as usize]; w.s(x.0, x.1); }
            w.s(0, "EOF");
            load(&w.b);
        }
    }
    sx::reach("end");
}
