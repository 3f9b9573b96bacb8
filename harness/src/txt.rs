//! Text drawings with arbitrary or malformed content.
#![allow(dead_code)]
use crate::ctx::*;
use crate::mk::*;
use crate::sx;
use crate::sym::*;
use dxf::*;
fn load(b: &[u8]) { match Drawing::load(&mut &b[..]) { Ok(_) => sx::reach("ok"), Err(_) => sx::reach("err") } }
fn line(w: &mut W, v: &[u8]) { w.b.extend(v); w.b.extend(b"\r\n"); }
/// code / 10 and class
const PF: [(u32, K); 52] = { use K::*; [(0, Str), (1, F64), (2, F64), (3, F64), (4, F64), (5, F64), (6, I16), (7, I16), (9, I32), (10, Str), (11, F64), (12, F64), (13, F64), (14, F64), (16, I64), (17, I16), (21, F64), (22, F64), (23, F64), (27, I16), (28, I16), (29, Bool), (30, Str), (31, Bin), (32, Str), (33, Str), (34, Str), (35, Str), (36, Str), (37, I16), (38, I16), (39, Str), (40, I16), (41, Str), (42, I32), (43, Str), (44, I32), (45, I32), (46, F64), (47, Str), (48, Str), (99, Str), (100, Str), (101, F64), (102, F64), (103, F64), (104, F64), (105, F64), (106, I16), (107, I16), (107, I32), (15, Str)] };
/// a concrete number and one symbolic digit that are a code of a class (the last: of none)
fn dcode(w: &mut W) -> (u32, Option<K>) {
    let p = PF[pick16(PF.len())];
    let k = if p.0 == 15 { None } else { Some(p.1) };
    let d = sx::u8();
    sx::assume(d < 10);
    let c = p.0 * 10 + d as u32;
    sx::assume(kind(c) == k);
    let mut l = format!("{}", p.0).into_bytes();
    l.push(b'0' + d);
    line(w, &l);
    (c, k)
}
/// a value of a class, valid or nearly so
fn tval(k: K, few: bool) -> Vec<u8> {
    let l: &[&str] = match k {
        K::Str => match if few { [1, 2, 5][pick(3) as usize] } else { pick(6) } { 0 => &[""], 1 => { let b = sx::u8(); sx::assume(b != b'\n'); return vec![b]; } 2 => &["{Q"], 3 => &["\\U+D800"], 4 => &["^"], _ => &["FFFFFFFFFFFFFFFF"] },
        K::F64 => &["0", "1", "-1.5", "3", "nan", "inf", "1e9", "-1e300", "2451545.25"],
        K::I16 => &["0", "1", "-1", "3", "255", "32767", "-32768"],
        K::I32 => &["0", "1", "-1", "3", "65536", "2147483647", "-2147483648"],
        K::I64 => &["0", "1", "-1", "9223372036854775807", "-9223372036854775808"],
        K::Bool => &["0", "1", "2", "-1"],
        K::Bin => &["", "A", "ABCD"],
    };
    let few: &[usize] = if !few { &[] } else { match k { K::F64 => &[2, 4, 6], K::I16 | K::I32 => &[1, 2, 5, 6], K::I64 => &[2, 3], _ => &[] } };
    if few.is_empty() { l[pick(l.len() as u32) as usize].as_bytes().to_vec() } else { l[few[pick(few.len() as u32) as usize]].as_bytes().to_vec() }
}
const DT: usize = NE + 39;
/// row and column counts of a DATATABLE stay small: the table is allocated from them (known finding)
fn small(n: usize, c: u32, v: &[u8]) { if n == DT && (v == b"2147483647" || v == b"65536") { sx::assume(c != 90 && c != 91); } }
fn tpair(w: &mut W, n: usize, few: bool) {
    let (c, k) = dcode(w);
    let v = match k { None => b"1".to_vec(), Some(k) => tval(k, few) };
    small(n, c, &v);
    line(w, &v);
}
fn spots(m: &Mini) -> Vec<usize> {
    let mut r: Vec<usize> = (1..=m.item.len()).filter(|i| matches!(m.item[*i - 1].0, 0 | 100 | 101)).collect();
    if r.last() != Some(&m.item.len()) { r.push(m.item.len()); }
    r
}
fn tput(w: &mut W, c: u32, v: &[u8]) { w.code(c); line(w, v); }
/// case = item | op << 8 | group << 12 | R12 << 20
#[no_mangle] pub extern "C" fn vh_txt(case: u32) {
    let n = (case & 0xff) as usize;
    let op = case >> 8 & 15;
    let ver = if case >> 20 & 1 == 1 { 12 } else { 20 };
    let few = case >> 22 & 1 == 0;
    rich_mini(n, ver, |m| {
        if ver == 12 && m.ver != 12 { return; }
        let mut w = mkw(&m, true);
        put(&mut w, &m.pre);
        match op {
            0 => {
                let mut sp = spots(&m);
                if few && sp.len() > 2 { sp = vec![sp[0], sp[sp.len() - 1]]; }
                let i = sp[pick16(sp.len())];
                put(&mut w, &m.item[..i]); tpair(&mut w, n, few); put(&mut w, &m.item[i..]); put(&mut w, &m.post);
                load(&w.b);
            }
            1 => {
                let i = pick16(m.item.len());
                let (c, _) = m.item[i].clone();
                let v = tval(kind(c).unwrap_or(K::Str), few && m.item.len() > 64);
                small(n, c, &v);
                put(&mut w, &m.item[..i]); tput(&mut w, c, &v); put(&mut w, &m.item[i + 1..]); put(&mut w, &m.post);
                load(&w.b);
            }
            2 => {
                let i = pick16(m.item.len());
                match pick(3) {
                    0 => { put(&mut w, &m.item[..i]); put(&mut w, &m.item[i + 1..]); put(&mut w, &m.post); }
                    1 => { put(&mut w, &m.item[..i]); put(&mut w, &m.post); }
                    _ => { put(&mut w, &m.item[..=i]); put(&mut w, &m.item[i..]); put(&mut w, &m.post); }
                }
                load(&w.b);
            }
            3 => {
                let a = w.b.len();
                put(&mut w, &m.item); put(&mut w, &m.post);
                let i = a + pick16(w.b.len() - a);
                load(&w.b[..i]);
            }
            4 => { put(&mut w, &m.item[..1]); tpair(&mut w, n, few); tpair(&mut w, n, few); put(&mut w, &m.post); load(&w.b); }
            5 => {
                let vs: Vec<usize> = (0..m.item.len()).filter(|i| m.item[*i].0 == 9).collect();
                let lo = (case >> 12 & 0xff) as usize * 8;
                if lo >= vs.len() { return; }
                let i = vs[lo + pick((vs.len() - lo).min(8) as u32) as usize];
                w.v(9, &m.item[i].1); tpair(&mut w, n, few); put(&mut w, &m.post);
                load(&w.b);
            }
            6 => {
                for p in &m.item { if p.0 == 90 || p.0 == 91 { w.i(p.0, 0x7000_0000); } else { w.v(p.0, &p.1); } }
                put(&mut w, &m.post);
                load(&w.b);
            }
            // an arbitrary code line: three symbolic bytes
            7 => {
                let sp = spots(&m);
                let i = sp[pick16(sp.len())];
                let b = sx::bytes(if few { 2 } else { 3 });
                put(&mut w, &m.item[..i]); line(&mut w, &b); line(&mut w, b"1"); put(&mut w, &m.item[i..]); put(&mut w, &m.post);
                load(&w.b);
            }
            _ => (),
        }
    });
    sx::reach("end");
}
/// case = kind | n << 4
#[no_mangle] pub extern "C" fn vh_txt_raw(case: u32) {
    let n = case >> 4;
    let mut w = W::text();
    match case & 15 {
        // any bytes from the start
        0 => { let b = sx::bytes(n as usize); load(&b); }
        // any bytes after the first section
        1 => { w.ver(["AC1009", "AC1027"][n as usize >> 3 & 1]).sec("ENTITIES"); w.b.extend(sx::bytes(n as usize & 7)); load(&w.b); }
        // any two (thorough: three) bytes as a value of each class
        2 => {
            const C: [u32; 8] = [1, 10, 62, 90, 160, 290, 310, 5];
            let v = ["AC1009", "AC1027"][n as usize >> 4 & 1];
            w.ver(v).sec("ENTITIES").s(0, "MTEXT").code(C[(n & 7) as usize]);
            let b = sx::bytes(2 + (n >> 3 & 1) as usize);
            line(&mut w, &b);
            w.s(0, "LINE").end().eof();
            load(&w.b);
        }
        // unicode escapes and control characters
        3 => {
            let v = ["AC1009", "AC1027"][n as usize & 1];
            w.ver(v).sec("ENTITIES").s(0, "TEXT").code(1);
            let mut b = vec![];
            match n >> 1 & 7 {
                0 => { b.extend(b"\\U+"); if n >> 4 == 1 { b.extend(sx::bytes(3)); b.push(b'1'); } else { b.extend(sx::bytes(4)); } }
                1 => { b.push(b'^'); b.extend(sx::bytes(2)); }
                2 => { b.extend(b"a\\U+12"); b.extend(sx::bytes(2)); b.extend(b"^"); }
                3 => { b.extend(b"\\U+D83D\\U+"); b.push(b'D'); b.extend(sx::bytes(2)); b.push(b'0'); }
                4 => { b.extend(sx::bytes(1)); b.extend(b"U+0041"); }
                _ => { b.extend(b"^"); b.extend("\u{e9}".bytes()); b.extend(sx::bytes(1)); }
            }
            line(&mut w, &b);
            w.s(0, "LINE").end().eof();
            load(&w.b);
        }
        // structure: any four words
        4 => {
            const S: [(u32, &str); 16] = [(0, "SECTION"), (0, "ENDSEC"), (0, "EOF"), (2, "HEADER"), (2, "TABLES"), (2, "BLOCKS"), (2, "ENTITIES"), (2, "CLASSES"), (2, "OBJECTS"), (2, "THUMBNAILIMAGE"), (0, "TABLE"), (2, "LAYER"), (0, "ENDTAB"), (0, "BLOCK"), (0, "ENDBLK"), (0, "LINE")];
            let a = S[n as usize % 16];
            w.s(0, "SECTION"); w.s(a.0, a.1);
            for _ in 0..3 { let x = S[pick(16) as usize]; w.s(x.0, x.1); }
            w.s(0, "EOF");
            load(&w.b);
        }
        // line endings, marks and blank lines
        5 => {
            let v = ["AC1009", "AC1027"][n as usize & 1];
            w.ver(v).sec("ENTITIES").s(0, "LINE").s(8, "a").f(10, 1.0).end().eof();
            let nl = w.b.iter().filter(|b| **b == b'\n').count();
            let k = pick16(nl);
            let how = pick(5);
            let mut o = vec![];
            if pick(2) == 1 { o.extend(b"\xEF\xBB\xBF"); }
            let mut i = 0;
            for b in &w.b {
                if *b == b'\n' { if i == k { match how { 0 => { o.push(sx::u8()); } 1 => { o.extend(b"\n\n"); } 2 => { o.pop(); o.push(b'\n'); } 3 => { o.push(sx::u8()); o.push(b'\n'); } _ => { o.pop(); o.push(sx::u8()); o.push(b'\n'); } } } else { o.push(*b); } i += 1; } else { o.push(*b); }
            }
            load(&o);
        }
        // thumbnails: a length and symbolic hexadecimal digits
        6 => {
            w.ver("AC1027").sec("THUMBNAILIMAGE");
            let l = [0, 1, 2, 14, 40, 54, -1, i32::MAX][pick(8) as usize];
            w.i(90, l);
            for _ in 0..(n as usize) { w.code(310); let b = sx::bytes(2); line(&mut w, &b); }
            if pick(2) == 1 { w.x(310, b"BM\x36\0\0\0"); }
            w.end().eof();
            load(&w.b);
        }
        // codepage
        _ => {
            w.sec("HEADER").s(9, "$ACADVER").s(1, ["AC1009", "AC1015", "AC1027"][pick(3) as usize]).s(9, "$DWGCODEPAGE").s(3, ["ANSI_1252", "ANSI_1251", "ANSI_932", "", "X", "UTF-8"][pick(6) as usize]).end();
            w.sec("ENTITIES").s(0, "TEXT").code(1);
            let b = sx::bytes(1);
            line(&mut w, &b);
            w.s(0, "LINE").end().eof();
            load(&w.b);
        }
    }
    sx::reach("end");
}
fn off(e: &DxfError) -> Option<usize> {
    Some(match e {
        DxfError::ParseFloatError(_, o) | DxfError::ParseIntError(_, o) | DxfError::ParseError(o) | DxfError::UnexpectedCode(_, o) | DxfError::UnexpectedByte(_, o) | DxfError::UnexpectedEnumValue(o) | DxfError::ExpectedTableType(o) | DxfError::WrongValueType(o) => *o,
        DxfError::UnexpectedCodePair(p, _) => p.offset,
        _ => return None,
    })
}
fn is_handle(m: &Mini, i: usize) -> bool {
    let c = m.item[i].0;
    if !(c == 5 || c == 105 || (320..=369).contains(&c) || (390..=399).contains(&c) || c == 480 || c == 481 || c == 1005) { return false; }
    // names under the same numbers, raw pairs of records and groups
    if is(&m.item[0], 0, "DIMSTYLE") && c == 5 { return false; }
    if is(&m.item[0], 0, "XRECORD") && m.item[..i].iter().any(|p| is(p, 100, "AcDbXrecord")) && c < 1000 { return false; }
    // references that are kept as strings, and the handle of the end of a block, which is not kept
    let t = |l: &[&str]| l.iter().any(|n| is(&m.item[0], 0, n));
    if c >= 320 && c < 1000 && t(&["IMAGE", "WIPEOUT", "ACAD_PROXY_ENTITY", "ACAD_PROXY_OBJECT"]) && m.item[..i].iter().filter(|p| p.0 == 100).count() > !t(&["ACAD_PROXY_OBJECT"]) as usize { return false; }
    if (340..=344).contains(&c) && t(&["DIMSTYLE", "LEADER"]) { return false; }
    if m.item[..i].iter().any(|p| is(p, 0, "ENDBLK")) { return false; }
    let g = m.item[..i].iter().rev().find(|p| p.0 == 102);
    if matches!(g, Some((_, V::S(x))) if x.starts_with(b"{") ) { return false; }
    true
}
/// value that is not of its class: case = item | form << 8 | R12 << 20 | binary << 21
#[no_mangle] pub extern "C" fn vh_bad(case: u32) {
    let n = (case & 0xff) as usize;
    let ver = if case >> 20 & 1 == 1 { 12 } else { 20 };
    let text = case >> 21 & 1 == 0;
    rich_mini(n, ver, |m| {
        if ver == 12 && m.ver != 12 { return; }
        let i = pick16(m.item.len());
        let (c, _) = m.item[i].clone();
        let k = kind(c).unwrap_or(K::Str);
        let h = is_handle(&m, i);
        if k == K::Str && !h || !text && k != K::Str { return; }
        let form = case >> 8 & 15;
        let mut v = vec![];
        match form {
            // one character, or a number followed by one
            0 | 1 => {
                let b = sx::u8();
                sx::assume(b > b' ' && b < 0x7f);
                let hex = b.is_ascii_hexdigit();
                let dig = b.is_ascii_digit();
                if form == 1 { v.push(b'1'); }
                v.push(b);
                match k {
                    K::Str => sx::assume(!hex && b != b'^' && b != b'\\'),
                    K::Bin => sx::assume(!hex),
                    K::F64 | K::I16 | K::Bool => sx::assume(!dig && (form == 0 || b != b'.')),
                    _ => sx::assume(!dig),
                }
            }
            2 => {
                let l: &[&str] = match k {
                    K::Str => &["10000000000000000", "1 2", "0x1", "-1"],
                    K::F64 => &["", "1,5", "1.2.3", "1e"],
                    K::I16 | K::Bool => &["", "32768", "-32769", "1e5", "nan", "1e99", "inf"],
                    K::I32 => &["", "2147483648", "-2147483649", "99999999999999999999", "1.5"],
                    K::I64 => &["", "9223372036854775808", "-9223372036854775809"],
                    K::Bin => &["0G", " 1", "0x"],
                };
                v.extend(l[pick(l.len() as u32) as usize].bytes());
            }
            _ => (),
        }
        let mut w = mkw(&m, text);
        put(&mut w, &m.pre); put(&mut w, &m.item[..i]);
        let a = w.b.len();
        if text { tput(&mut w, c, &v); } else { w.sb(c, &v); }
        let z = w.b.len();
        put(&mut w, &m.item[i + 1..]); put(&mut w, &m.post);
        match Drawing::load(&mut &w.b[..]) {
            Ok(_) => sx::check(false, &format!("a malformed value is accepted: {} code {}", who(n), c)),
            Err(e) => {
                sx::reach("err");
                let l = 2 * (m.pre.len() + i);
                let ok = match off(&e) { Some(o) => if text { o == l + 1 || o == l + 2 } else { o >= a && o <= z }, None => false };
                sx::check(ok, &format!("the error does not name the position of the malformed value: {} code {}", who(n), c));
            }
        }
    });
    sx::reach("end");
}
pub fn who(n: usize) -> String { let (k, i) = nth(n); crate::rt::rich_name(k, i).to_string() }
