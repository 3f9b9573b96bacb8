//! Saved drawings are well formed, saving is stable, and both encodings load alike.
#![allow(dead_code)]
use crate::ctx::*;
use crate::mk::*;
use crate::rt::*;
use crate::sx;
use crate::sym::*;
use dxf::*;
/// first and last version that has the type
fn ent_gate(t: &[u8]) -> Option<(u32, u32)> {
    Some(match t {
        b"3DFACE" | b"ARC" | b"ATTDEF" | b"ATTRIB" | b"CIRCLE" | b"DIMENSION" | b"INSERT" | b"LINE" | b"3DLINE" | b"POINT" | b"POLYLINE" | b"SEQEND" | b"SHAPE" | b"SOLID" | b"TEXT" | b"TRACE" | b"VERTEX" => (0, 99),
        b"3DSOLID" | b"BODY" | b"ELLIPSE" | b"LEADER" | b"MLINE" | b"MTEXT" | b"OLEFRAME" | b"RAY" | b"REGION" | b"SPLINE" | b"TOLERANCE" | b"XLINE" => (13, 99),
        b"ACAD_PROXY_ENTITY" | b"IMAGE" | b"LWPOLYLINE" | b"OLE2FRAME" => (14, 99),
        b"ARCALIGNEDTEXT" | b"RTEXT" => (15, 15),
        b"WIPEOUT" => (15, 99),
        b"HELIX" | b"LIGHT" | b"SECTION" | b"DGNUNDERLAY" | b"DWFUNDERLAY" | b"PDFUNDERLAY" => (17, 99),
        _ => return None,
    })
}
fn obj_gate(t: &[u8]) -> Option<(u32, u32)> {
    Some(match t {
        b"DICTIONARY" | b"DICTIONARYVAR" | b"GROUP" | b"MLINESTYLE" => (13, 99),
        b"IDBUFFER" | b"IMAGEDEF" | b"IMAGEDEF_REACTOR" | b"LAYER_INDEX" | b"OBJECT_PTR" | b"RASTERVARIABLES" | b"SORTENTSTABLE" | b"SPATIAL_FILTER" | b"XRECORD" => (14, 99),
        b"ACAD_PROXY_OBJECT" | b"ACDBDICTIONARYWDFLT" | b"ACDBPLACEHOLDER" | b"LAYOUT" | b"PLOTSETTINGS" | b"SPATIAL_INDEX" | b"VBA_PROJECT" => (15, 99),
        b"DIMASSOC" | b"FIELD" | b"LAYER_FILTER" | b"MATERIAL" | b"TABLESTYLE" | b"WIPEOUTVARIABLES" => (16, 99),
        b"DATATABLE" | b"LIGHTLIST" | b"MLEADERSTYLE" | b"MENTALRAYRENDERSETTINGS" | b"RENDERENVIRONMENT" | b"RENDERGLOBAL" | b"SECTIONMANAGER" | b"SECTIONSETTINGS" | b"UNDERLAYDEFINITION" | b"VISUALSTYLE" => (17, 99),
        b"GEODATA" => (18, 99),
        b"SUNSTUDY" => (19, 99),
        b"AcDbNavisworksModelDef" | b"RAPIDRTRENDERENVIRONMENT" | b"RAPIDRTRENDERSETTINGS" => (20, 99),
        _ => return None,
    })
}
fn st(p: &Pr) -> &[u8] { match &p.1 { V::S(s) => s, _ => b"?" } }
/// what is wrong with the structure
pub fn bad(ps: &[Pr], ver: u32) -> Option<&'static str> {
    let mut i = 0;
    let mut seen: Vec<&[u8]> = vec![];
    loop {
        if i >= ps.len() { return Some("no end of file marker"); }
        if is(&ps[i], 0, "EOF") { return if i + 1 == ps.len() { None } else { Some("pairs after the end of file marker") }; }
        if !is(&ps[i], 0, "SECTION") { return Some("something between sections"); }
        if i + 1 >= ps.len() || ps[i + 1].0 != 2 { return Some("section without a name"); }
        let name = st(&ps[i + 1]);
        if seen.contains(&name) { return Some("section twice"); }
        seen.push(name);
        let lo = match name { b"HEADER" | b"TABLES" | b"BLOCKS" | b"ENTITIES" => 0, b"CLASSES" | b"OBJECTS" => 13, b"THUMBNAILIMAGE" => 15, _ => return Some("unknown section") };
        if ver < lo { return Some("section of a later version"); }
        i += 2;
        let e = match ps[i..].iter().position(|p| is(p, 0, "ENDSEC")) { Some(x) => i + x, None => return Some("section is not closed") };
        let s = &ps[i..e];
        i = e + 1;
        if let Some(x) = match name {
            b"HEADER" => if s.iter().any(|p| p.0 == 0) { Some("item in the header") } else if !s.is_empty() && s[0].0 != 9 { Some("header value without a variable") } else { None },
            b"CLASSES" => if s.iter().any(|p| p.0 == 0 && ver >= 14 && !is(p, 0, "CLASS")) || !s.is_empty() && s[0].0 != 0 { Some("not a class") } else { None },
            b"TABLES" => tables(s, ver),
            b"BLOCKS" => blocks(s, ver),
            b"ENTITIES" => ents(s, ver),
            b"OBJECTS" => objs(s, ver),
            _ => if s.iter().any(|p| p.0 == 0) { Some("item in the thumbnail section") } else { None },
        } { return Some(x); }
    }
}
fn tables(s: &[Pr], ver: u32) -> Option<&'static str> {
    let mut i = 0;
    while i < s.len() {
        if !is(&s[i], 0, "TABLE") { return Some("something between tables"); }
        if i + 1 >= s.len() || s[i + 1].0 != 2 { return Some("table without a name"); }
        let n = st(&s[i + 1]);
        match n { b"APPID" | b"DIMSTYLE" | b"LAYER" | b"LTYPE" | b"STYLE" | b"UCS" | b"VIEW" | b"VPORT" => (), b"BLOCK_RECORD" => if ver < 13 { return Some("table of a later version"); }, _ => return Some("unknown table") }
        i += 2;
        loop {
            if i >= s.len() { return Some("table is not closed"); }
            if s[i].0 == 0 { if is(&s[i], 0, "ENDTAB") { i += 1; break; } if st(&s[i]) != n { return Some("entry in the wrong table"); } }
            i += 1;
        }
    }
    None
}
fn blocks(s: &[Pr], ver: u32) -> Option<&'static str> {
    let mut i = 0;
    while i < s.len() {
        if !is(&s[i], 0, "BLOCK") { return Some("something between blocks"); }
        let b = match s[i + 1..].iter().position(|p| p.0 == 0) { Some(x) => i + 1 + x, None => return Some("block is not closed") };
        let e = match s[b..].iter().position(|p| is(p, 0, "ENDBLK")) { Some(x) => b + x, None => return Some("block is not closed") };
        if let Some(x) = ents(&s[b..e], ver) { return Some(x); }
        i = e + 1;
        while i < s.len() && s[i].0 != 0 { i += 1; }
    }
    None
}
fn ents(s: &[Pr], ver: u32) -> Option<&'static str> {
    if !s.is_empty() && s[0].0 != 0 { return Some("value without an entity"); }
    // children of which parent are open
    let mut open: Option<&[u8]> = None;
    let only = s.iter().filter(|p| p.0 == 0).count() == 1;
    for (i, p) in s.iter().enumerate() {
        if p.0 != 0 { continue; }
        let t = st(p);
        match ent_gate(t) { None => return Some("unknown entity type"), Some((a, b)) => if ver < a || ver > b { return Some("entity of another version"); } }
        let f = s[i + 1..].iter().take_while(|p| p.0 != 0).any(|p| p.0 == 66 && p.1 == V::H(1));
        match t {
            b"SEQEND" => if open.take().is_none() && !only { return Some("sequence end without a parent"); },
            b"VERTEX" => if open != Some(b"POLYLINE") && open.is_some() { return Some("vertex outside of a polyline"); },
            b"ATTRIB" | b"MTEXT" => (),
            _ if open.is_some() => return Some("sequence is not closed"),
            b"POLYLINE" | b"INSERT" => if f || matches!(s[i + 1..].iter().find(|p| p.0 == 0), Some(p) if matches!(st(p), b"VERTEX" | b"SEQEND")) { open = Some(t); },
            _ => (),
        }
    }
    if open.is_some() { return Some("sequence is not closed"); }
    None
}
fn objs(s: &[Pr], ver: u32) -> Option<&'static str> {
    if !s.is_empty() && s[0].0 != 0 { return Some("value without an object"); }
    for p in s {
        if p.0 != 0 { continue; }
        match obj_gate(st(p)) { None => return Some("unknown object type"), Some((a, b)) => if ver < a || ver > b { return Some("object of another version"); } }
    }
    None
}
pub fn out(d: &Drawing, text: bool) -> Option<Vec<u8>> { let mut o = vec![]; if text { d.save(&mut o) } else { d.save_binary(&mut o) }.ok().map(|_| o) }
/// where two saved drawings differ first
fn first(a: &[Pr], b: &[u8], text: bool, ver: u32) -> String {
    let b = match parse(b, text, wide(ver)) { Some(b) => b, None => return "(not pairs)".into() };
    for i in 0..a.len().min(b.len()) {
        // the next available handle may grow
        if i > 0 && is(&a[i - 1], 9, "$HANDSEED") && is(&b[i - 1], 9, "$HANDSEED") { continue; }
        if a[i] != b[i] {
            let n = |p: &[Pr], c: u32| p[..=i].iter().rev().find(|p| p.0 == c).map(|p| String::from_utf8_lossy(st(p)).into_owned()).unwrap_or_default();
            let z = n(a, 0);
            return format!("({} {} code {} or {})", z, if z == "SECTION" { n(a, 9) } else { String::new() }, a[i].0, b[i].0);
        }
    }
    if a.len() == b.len() { String::new() } else { "(length)".into() }
}
fn wf(d: &Drawing, text: bool, ver: u32, what: &str) {
    let c = Cx { text, tier: 1, field: None, ver: None };
    let o = match out(d, text) { Some(o) => o, None => { c.chk(false, &format!("cannot be saved: {}", what), ver); return; } };
    let ps = match parse(&o, text, wide(ver)) { Some(p) => p, None => { c.chk(false, &format!("not a sequence of pairs: {}", what), ver); return; } };
    if let Some(m) = bad(&ps, ver) { c.chk(false, &format!("{}: {}", m, what), ver); return; }
    let mut e = match Drawing::load(&mut &o[..]) { Ok(e) => e, Err(_) => { c.chk(false, &format!("saved drawing does not load: {}", what), ver); return; } };
    // R11 and R12 have the same version number in a file
    if ver == 11 { e.header.version = VERS[11]; }
    sx::reach("loaded");
    match out(&e, text) { None => c.chk(false, &format!("loaded drawing cannot be saved: {}", what), ver), Some(o2) => if o.len() == o2.len() && beq(&o, &o2) { sx::reach("same"); } else { let f = first(&ps, &o2, text, ver); if f.is_empty() { sx::reach("same"); } else { c.chk(false, &format!("saving a loaded drawing changes it: {} {}", what, f), ver) } } }
}
/// one item with symbolic values (binary) or concrete ones (text), saved as any version
/// case = item | symbolic << 8 | all versions << 20 | text << 24
#[no_mangle] pub extern "C" fn vh_wf(case: u32) {
    let n = (case & 0xff) as usize;
    let text = case >> 24 & 1 == 1;
    let sym = case >> 8 & 1 == 1;
    let (k, i) = nth(n);
    let nm = who(n);
    let mut f = |d: &Drawing| {
        let own = VERS.iter().position(|x| *x == d.header.version).unwrap() as u32;
        let v = if sym { own } else if case >> 20 & 1 == 1 { pick(21) } else { 10 + pick(11) };
        let mut d = d.clone();
        d.header.version = VERS[v as usize];
        if !sym && n % 4 == 0 { d.thumbnail = Some(image::DynamicImage::new_rgb8(3, 2)); }
        wf(&d, text, v, &nm);
    };
    if sym {
        let c = Cx { text, tier: case >> 20 & 3, field: Some(0), ver: None };
        TEXT.store(text as u32 as _, std::sync::atomic::Ordering::Relaxed);
        cap_drawing(&c, k, i, f);
    } else { rich_drawing(k, i, 20, &mut f); }
    sx::reach("end");
}
pub fn who(n: usize) -> String { crate::txt::who(n) }
/// text and binary encodings load alike: case = item | symbolic << 8 | all versions << 20
#[no_mangle] pub extern "C" fn vh_tb(case: u32) {
    let n = (case & 0xff) as usize;
    let sym = case >> 8 & 1 == 1;
    let (k, i) = nth(n);
    let nm = who(n);
    let go = |d: &Drawing, v: u32| {
        let c = Cx { text: true, tier: 1, field: None, ver: None };
        let (a, b) = match (out(d, true), out(d, false)) { (Some(a), Some(b)) => (a, b), _ => { c.chk(false, &format!("cannot be saved: {}", nm), v); return; } };
        let (a, b) = match (Drawing::load(&mut &a[..]), Drawing::load(&mut &b[..])) { (Ok(a), Ok(b)) => (a, b), _ => { c.chk(false, &format!("saved drawing does not load: {}", nm), v); return; } };
        sx::reach("loaded");
        match (out(&a, true), out(&b, true)) { (Some(a), Some(b)) => if a.len() == b.len() && beq(&a, &b) { sx::reach("same"); } else { c.chk(false, &format!("text and binary load differently: {} {}", nm, match parse(&a, true, true) { Some(p) => first(&p, &b, true, v), None => String::new() }), v) }, _ => c.chk(false, &format!("loaded drawing cannot be saved: {}", nm), v) }
    };
    if sym {
        let c = Cx { text: true, tier: case >> 20 & 3, field: None, ver: None };
        TEXT.store(1, std::sync::atomic::Ordering::Relaxed);
        cap_drawing(&c, k, i, |d| { let v = VERS.iter().position(|x| *x == d.header.version).unwrap() as u32; go(d, v) });
    } else {
        rich_drawing(k, i, 20, |d| { let v = if case >> 20 & 1 == 1 { pick(21) } else { 10 + pick(11) }; let mut d = d.clone(); d.header.version = VERS[v as usize]; if n % 4 == 0 { d.thumbnail = Some(image::DynamicImage::new_rgb8(3, 2)); } go(&d, v) });
    }
    sx::reach("end");
}
