//! Comments and unknown content between the pairs of a drawing.
#![allow(dead_code)]
use crate::ctx::*;
use crate::mk::*;
use crate::rt::*;
use crate::sx;
use crate::sym::*;
use crate::wf::out;
use dxf::*;
/// codes that no item of the format uses
const UN: [(u32, u32, K); 8] = [(56, 59, K::F64), (408, 409, K::I16), (478, 479, K::Str), (458, 459, K::I32), (118, 119, K::F64), (219, 219, K::F64), (466, 467, K::F64), (168, 169, K::I64)];
fn val(k: K) -> V { match k { K::Str => V::S(b"zz".to_vec()), K::F64 => V::F(7.25), K::I16 => V::H(3), K::I32 => V::I(3), K::I64 => V::L(3), K::Bool => V::B(1), K::Bin => V::X(vec![1]) } }
fn st(p: &Pr) -> &[u8] { match &p.1 { V::S(s) => s, _ => b"?" } }
/// inside an extension group, raw data or extended data, where every pair is content
fn raw(m: &Mini, i: usize) -> bool {
    let b = &m.item[..i];
    let mut depth = 0;
    for p in b { if p.0 == 102 { if st(p).starts_with(b"{") { depth += 1; } else { depth -= 1; } } }
    if depth > 0 { return true; }
    let z = b.iter().rposition(|p| p.0 == 0).unwrap_or(0);
    if b[z..].iter().any(|p| p.0 >= 1000) { return true; }
    z < b.len() && is(&b[z], 0, "XRECORD")
}
fn with(m: &Mini, text: bool, at: usize, ins: &[Pr]) -> Vec<u8> {
    let mut w = mkw(m, text);
    let mut n = 0;
    for p in m.pre.iter().chain(&m.item).chain(&m.post) { if n == at { put(&mut w, ins); } w.v(p.0, &p.1); n += 1; }
    w.b
}
/// defaults that are different on every load
fn still(mut d: Drawing, keep: bool) -> Drawing {
    if keep { return d; }
    let h = &mut d.header;
    h.creation_date = std::time::UNIX_EPOCH.into(); h.creation_date_universal = std::time::UNIX_EPOCH.into();
    h.update_date = std::time::UNIX_EPOCH.into(); h.update_date_universal = std::time::UNIX_EPOCH.into();
    h.fingerprint_guid = uuid::Uuid::nil(); h.version_guid = uuid::Uuid::nil();
    d
}
fn s(c: u32, v: &str) -> Pr { (c, V::S(v.as_bytes().to_vec())) }
/// case = item | op << 8 | R12 << 20 | text << 24
#[no_mangle] pub extern "C" fn vh_unk(case: u32) {
    let n = (case & 0xff) as usize;
    let op = case >> 8 & 15;
    let ver = if case >> 20 & 1 == 1 { 12 } else { 20 };
    let text = case >> 24 & 1 == 1;
    let full = case >> 21 & 1 == 1;
    rich_mini(n, ver, |m| {
        if ver == 12 && m.ver != 12 { return; }
        let nm = crate::txt::who(n);
        let base = bytes(&m, text);
        let d = match Drawing::load(&mut &base[..]) { Ok(d) => still(d, nth(n).0 == KH), Err(_) => { sx::check(false, &format!("cannot be loaded: {}", nm)); return; } };
        let want = match out(&d, text) { Some(o) => o, None => { sx::check(false, &format!("cannot be saved: {}", nm)); return; } };
        let (np, ni) = (m.pre.len(), m.item.len());
        let total = np + ni + m.post.len();
        let (kind, _) = nth(n);
        let (at, ins, what): (usize, Vec<Pr>, &str) = match op {
            // a comment before any pair
            0 => {
                let at = if text { pick16(total) } else { 1 + pick16(total - 1) };
                let b = sx::u8();
                sx::assume(if text { b >= b' ' && b < 0x7f } else { b != 0 && b < 0x7f });
                (at, vec![(999, V::S(vec![b'c', b, b'c']))], "a comment")
            }
            // an unused code anywhere in the item
            1 => {
                let i = pick16(ni);
                if i == 0 || raw(&m, i) { return; }
                if kind == KH { return; }
                let u = UN[pick(if full { UN.len() as u32 } else { 4 }) as usize];
                let c = if full { u.0 + pick(u.1 - u.0 + 1) } else { u.0 };
                (np + i, vec![(c, val(u.2))], "an unused code")
            }
            // an unknown item before or after this one
            2 => {
                let at = np + if pick(2) == 0 { 0 } else { ni };
                let l: &[&str] = &["QQUNKNOWN", "ACDBFOO", "LINEX", ""];
                let t = l[pick(4) as usize];
                let mut v = vec![s(0, t)];
                match pick(3) { 0 => (), 1 => { v.push(s(5, "7F")); v.push(s(100, "AcDbFoo")); v.push(s(8, "LL")); v.push((10, V::F(1.5))); v.push((70, V::H(2))); }, _ => { v.push(s(102, "{Q")); v.push(s(330, "1")); v.push(s(102, "}")); v.push(s(2, "SECTION")); v.push(s(1001, "A")); v.push(s(1000, "x")); } }
                match kind { KE | KO => (), _ => return }
                (at, v, "an unknown item")
            }
            // an unknown header variable
            3 => {
                let mut v = vec![s(9, ["$QQ", "", "ACADVER", "$ACADVERX"][pick(4) as usize])];
                match pick(4) { 0 => (), 1 => v.push((70, V::H(5))), 2 => { v.push((10, V::F(1.0))); v.push((20, V::F(2.0))); v.push((30, V::F(3.0))); } _ => v.push(s(1, "AC1009")) }
                let at = if kind == KH {
                    let vs: Vec<usize> = (0..ni).filter(|i| m.item[*i].0 == 9).step_by(if full { 1 } else { 16 }).collect();
                    np + vs[pick16(vs.len())]
                } else { if pick(2) == 0 { 2 } else { 4 } };
                (at, v, "an unknown header variable")
            }
            // an unknown section, between any two
            4 => {
                let ps: Vec<&Pr> = m.pre.iter().chain(&m.item).chain(&m.post).collect();
                // the section entity has the same name as the mark of a section
                let bs: Vec<usize> = (0..total).filter(|i| (is(ps[*i], 0, "SECTION") && (*i < np || *i >= np + ni)) || is(ps[*i], 0, "EOF")).collect();
                let at = bs[pick(bs.len() as u32) as usize];
                let mut v = vec![s(0, "SECTION"), s(2, ["QQ", "ACDSDATA", "ENTITIESX", ""][pick(4) as usize])];
                match pick(3) { 0 => (), 1 => { v.push(s(0, "LINE")); v.push(s(8, "LL")); v.push((70, V::H(5))); } _ => { v.push(s(0, "TABLE")); v.push(s(2, "LAYER")); v.push(s(9, "$ACADVER")); v.push(s(1, "AC1009")); } }
                v.push(s(0, "ENDSEC"));
                (at, v, "an unknown section")
            }
            // an unknown table
            _ => {
                if kind != KT { return; }
                let i = m.pre.iter().rposition(|p| is(p, 0, "TABLE")).unwrap_or(0);
                let at = if pick(2) == 0 { i } else { np + ni + 1 };
                let mut v = vec![s(0, "TABLE"), s(2, ["QQ", "LAYERX", ""][pick(3) as usize])];
                match pick(3) { 0 => (), 1 => { v.push(s(5, "7F")); v.push((70, V::H(1))); v.push(s(0, "QQ")); v.push(s(2, "nn")); v.push((70, V::H(0))); } _ => { v.push((70, V::H(1))); v.push(s(0, "LAYER")); v.push(s(2, "nn")); } }
                v.push(s(0, "ENDTAB"));
                (at, v, "an unknown table")
            }
        };
        let b = with(&m, text, at, &ins);
        match Drawing::load(&mut &b[..]) {
            Err(_) => sx::check(false, &format!("{} makes loading fail: {}", what, nm)),
            Ok(d) => {
                let d = still(d, nth(n).0 == KH);
                sx::reach("loaded");
                let got = out(&d, text).unwrap_or_default();
                sx::check(got.len() == want.len() && beq(&got, &want), &format!("{} changes what is loaded: {}", what, nm));
            }
        }
    });
    sx::reach("end");
}
