//! Hash-consed bit-vector expressions with eager simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Not, // bitwise complement
    Eq, Ult, Ule, Slt, Sle,
    ZExt, SExt, Extract, Concat, Ite,
    FAdd, FSub, FMul, FDiv, FRem,
    FToUi, FToSi, // saturating semantics
    UiToF, SiToF, FExt, FTrunc, FRound,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

pub struct Arena {
    pub nodes: Vec<Node>,
    pub consts: Vec<u128>,
    cmap: FxMap<(u128, u16), E>,
    map: FxMap<Node, E>,
    pub sup: Vec<u128>,
    pub lo: Vec<u64>,
    pub hi: Vec<u64>,
    pub nvars: u32,
    pub varw: Vec<u16>,
    // evaluation memo
    memo: Vec<u128>,
    memog: Vec<u32>,
    gen: u32,
    pub tru: E,
    pub fls: E,
}

#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline]
pub fn mask64(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u32) -> i128 { crate::ir::sext128(v, w) }

pub fn f_to_int(bits: u128, wf: u32, wi: u32, signed: bool) -> u128 {
    let f = if wf == 32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits as u64) };
    if signed {
        let v = f as i128; // saturates, NaN -> 0
        let (mn, mx) = (-(1i128 << (wi - 1)), ((1u128 << (wi - 1)) - 1) as i128);
        (v.clamp(mn, mx) as u128) & mask(wi)
    } else {
        let v = f as u128;
        v.min(mask(wi))
    }
}
pub fn int_to_f(v: u128, wi: u32, wf: u32, signed: bool) -> u128 {
    if signed {
        let s = sx(v, wi);
        if wf == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 }
    } else if wf == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 }
}
pub fn fbin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, _ => x % y };
        r.to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, _ => x % y };
        r.to_bits() as u128
    }
}
pub fn fround(w: u32, a: u128, mode: u32) -> u128 {
    // 0 round (half away), 1 floor, 2 ceil, 3 trunc, 4 rint (half even)
    if w == 32 {
        let x = f32::from_bits(a as u32);
        (match mode { 0 => x.round(), 1 => x.floor(), 2 => x.ceil(), 3 => x.trunc(), _ => x.round_ties_even() }).to_bits() as u128
    } else {
        let x = f64::from_bits(a as u64);
        (match mode { 0 => x.round(), 1 => x.floor(), 2 => x.ceil(), 3 => x.trunc(), _ => x.round_ties_even() }).to_bits() as u128
    }
}

pub fn cbin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w as u128 - 1 } else { b }; ((sx(a, w) >> s) as u128) & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], consts: vec![], cmap: Default::default(), map: Default::default(), sup: vec![], lo: vec![], hi: vec![], nvars: 0, varw: vec![], memo: vec![], memog: vec![], gen: 1, tru: 0, fls: 0 };
        a.fls = a.konst(0, 1);
        a.tru = a.konst(1, 1);
        a
    }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    #[inline] pub fn cv(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None } }
    fn push(&mut self, n: Node, sup: u128, lo: u64, hi: u64) -> E {
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.sup.push(sup);
        self.lo.push(lo);
        self.hi.push(hi);
        self.memo.push(0);
        self.memog.push(0);
        id
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.cmap.get(&(v, w as u16)) { return e; }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        let (lo, hi) = if w <= 64 { (v as u64, v as u64) } else { (0, !0) };
        let e = self.push(Node { op: Op::Const, w: w as u16, a: i, b: 0, c: 0 }, 0, lo, hi);
        self.cmap.insert((v, w as u16), e);
        e
    }
    pub fn var(&mut self, w: u32) -> (E, u32) {
        let id = self.nvars;
        self.nvars += 1;
        self.varw.push(w as u16);
        let e = self.push(Node { op: Op::Var, w: w as u16, a: id, b: 0, c: 0 }, 1u128 << (id % 128), 0, mask64(w.min(64)));
        (e, id)
    }
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> E {
        let n = Node { op, w: w as u16, a, b, c };
        if let Some(&e) = self.map.get(&n) { return e; }
        let s = match op {
            Op::Not | Op::ZExt | Op::SExt | Op::Extract | Op::FToUi | Op::FToSi | Op::UiToF | Op::SiToF | Op::FExt | Op::FTrunc | Op::FRound => self.sup[a as usize],
            Op::Ite => self.sup[a as usize] | self.sup[b as usize] | self.sup[c as usize],
            _ => self.sup[a as usize] | self.sup[b as usize],
        };
        let (mut lo, mut hi) = (0u64, mask64(w.min(64)));
        if w <= 64 {
            let m = mask64(w);
            let r = |x: u32| (self.lo[x as usize], self.hi[x as usize]);
            match op {
                Op::ZExt => { (lo, hi) = r(a); }
                Op::SExt => { let (l, h) = r(a); let wa = self.w(a); if h <= mask64(wa - 1) { lo = l; hi = h; } }
                Op::Ite => { let (l1, h1) = r(b); let (l2, h2) = r(c); lo = l1.min(l2); hi = h1.max(h2); }
                Op::Add => { let (l1, h1) = r(a); let (l2, h2) = r(b); if let (Some(l), Some(h)) = (l1.checked_add(l2), h1.checked_add(h2)) { if h <= m { lo = l; hi = h; } }
                    // x + (negative constant) with no wrap below zero
                    if l2 == h2 && l2 > m / 2 { let k = (m - l2).wrapping_add(1); if l1 >= k { lo = l1 - k; hi = h1 - k; } } }
                Op::Sub => { let (l1, h1) = r(a); let (l2, h2) = r(b); if l1 >= h2 { lo = l1 - h2; hi = h1 - l2; } }
                Op::Mul => { let (l1, h1) = r(a); let (l2, h2) = r(b); if let (Some(l), Some(h)) = (l1.checked_mul(l2), h1.checked_mul(h2)) { if h <= m { lo = l; hi = h; } } }
                Op::UDiv => { let (l1, h1) = r(a); let (l2, h2) = r(b); if l2 > 0 { lo = l1 / h2; hi = h1 / l2; } }
                Op::URem => { let (_, h1) = r(a); let (l2, h2) = r(b); if l2 > 0 { hi = h1.min(h2 - 1); } }
                Op::And => { let (_, h1) = r(a); let (_, h2) = r(b); hi = h1.min(h2); }
                Op::Or | Op::Xor => { let (l1, h1) = r(a); let (l2, h2) = r(b); let x = h1 | h2; if x > 0 { hi = hi.min(mask64(64 - x.leading_zeros())); } else { hi = 0; } if op == Op::Or { lo = l1.max(l2); } }
                Op::LShr => { let (_, h1) = r(a); let (l2, _) = r(b); hi = if l2 >= 64 { 0 } else { h1 >> l2 }; }
                Op::Concat => { let wl = self.w(b); let (l1, h1) = r(a); let (l2, h2) = r(b); if wl < 64 { lo = (l1 << wl) | l2; hi = (h1 << wl) | h2; } }
                Op::Extract => { if c == 0 { let (l, h) = r(a); if self.w(a) <= 64 && h <= m { lo = l; hi = h; } } else if self.w(a) <= 64 { let (_, h) = r(a); hi = (h >> c).min(m); } }
                _ => {}
            }
        }
        let e = self.push(n, s, lo, hi);
        self.map.insert(n, e);
        e
    }
    pub fn bool_(&self, b: bool) -> E { if b { self.tru } else { self.fls } }

    /// split into pieces from low to high
    fn pieces(&mut self, e: E, out: &mut Vec<E>) {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Concat => { self.pieces(n.b, out); self.pieces(n.a, out); }
            Op::ZExt => { let wa = self.w(n.a); self.pieces(n.a, out); let z = self.konst(0, n.w as u32 - wa); out.push(z); }
            _ => out.push(e),
        }
    }
    fn structured(&self, e: E) -> bool { matches!(self.nodes[e as usize].op, Op::Concat | Op::ZExt) }
    /// bitwise op on structurally split operands; None when some piece stays opaque on both sides
    fn split_bitwise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        if !self.structured(a) && !self.structured(b) { return None; }
        let w = self.w(a);
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        let mut bounds: Vec<u32> = vec![];
        let mut o = 0;
        for x in &pa { o += self.w(*x); bounds.push(o); }
        o = 0;
        for x in &pb { o += self.w(*x); bounds.push(o); }
        bounds.sort(); bounds.dedup();
        // pre-check: every segment must have a const on one side that decides it
        let mut segs = vec![];
        let mut lo = 0;
        for hi in bounds {
            let sa = self.extract(a, hi - 1, lo);
            let sb = self.extract(b, hi - 1, lo);
            let sw = hi - lo;
            let (ca, cb) = (self.cv(sa), self.cv(sb));
            let r = match (ca, cb) {
                (Some(x), Some(y)) => self.konst(cbin(op, sw, x, y), sw),
                (None, None) => { if sa == sb && op != Op::Xor { sa } else if sa == sb { self.konst(0, sw) } else { return None; } }
                (c1, c2) => {
                    let (k, x) = if let Some(k) = c1 { (k, sb) } else { (c2.unwrap(), sa) };
                    let all = mask(sw);
                    match op {
                        Op::And => if k == 0 { self.konst(0, sw) } else if k == all { x } else { return None },
                        Op::Or => if k == 0 { x } else if k == all { self.konst(all, sw) } else { return None },
                        _ => if k == 0 { x } else if k == all { self.not(x) } else { return None },
                    }
                }
            };
            segs.push(r);
            lo = hi;
        }
        let _ = w;
        let mut acc = segs[0];
        for s in &segs[1..] { acc = self.concat(*s, acc); }
        Some(acc)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(v) = self.cv(a) { return self.konst(!v, w); }
        let n = self.nodes[a as usize];
        if n.op == Op::Not { return n.a; }
        if w == 1 {
            match n.op {
                Op::Ult => return self.ule(n.b, n.a),
                Op::Ule => return self.ult(n.b, n.a),
                Op::Slt => return self.sle(n.b, n.a),
                Op::Sle => return self.slt(n.b, n.a),
                _ => {}
            }
        }
        if n.op == Op::Ite && (self.cv(n.b).is_some() && self.cv(n.c).is_some()) { let (x, y) = (self.not(n.b), self.not(n.c)); return self.ite(n.a, x, y); }
        self.mk(Op::Not, w, a, 0, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if a == b { return a; }
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(x & k, w); }
            if k == 0 { return b; }
            if k == mask(w) { return a; }
            // contiguous mask
            let tz = k.trailing_zeros();
            let ones = (k >> tz).trailing_ones();
            if (k >> tz) == mask(ones) {
                let mid = self.extract(a, tz + ones - 1, tz);
                let lowz = if tz > 0 { let z = self.konst(0, tz); self.concat(mid, z) } else { mid };
                return self.zext(lowz, w);
            }
            if let Some(r) = self.split_bitwise(Op::And, a, b) { return r; }
            let n = self.nodes[a as usize];
            if n.op == Op::And { if let Some(k2) = self.cv(n.b) { let kk = self.konst(k & k2, w); return self.and(n.a, kk); } }
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() { let (x, y) = (self.and(n.b, b), self.and(n.c, b)); return self.ite(n.a, x, y); }
            return self.mk(Op::And, w, a, b, 0);
        }
        if w == 1 {
            if self.is_neg(a, b) { return self.fls; }
            let n = self.nodes[a as usize];
            if n.op == Op::And && (n.a == b || n.b == b) { return a; }
            let n = self.nodes[b as usize];
            if n.op == Op::And && (n.a == a || n.b == a) { return b; }
        } else if let Some(r) = self.split_bitwise(Op::And, a, b) { return r; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::And, w, a, b, 0)
    }
    fn is_neg(&mut self, a: E, b: E) -> bool {
        let (x, y) = (self.nodes[a as usize], self.nodes[b as usize]);
        (x.op == Op::Not && x.a == b) || (y.op == Op::Not && y.a == a)
            || (x.op == Op::Ult && y.op == Op::Ule && x.a == y.b && x.b == y.a) || (y.op == Op::Ult && x.op == Op::Ule && x.a == y.b && x.b == y.a)
            || (x.op == Op::Slt && y.op == Op::Sle && x.a == y.b && x.b == y.a) || (y.op == Op::Slt && x.op == Op::Sle && x.a == y.b && x.b == y.a)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if a == b { return a; }
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(x | k, w); }
            if k == 0 { return a; }
            if k == mask(w) { return b; }
        }
        if w == 1 {
            if self.is_neg(a, b) { return self.tru; }
            let n = self.nodes[a as usize];
            if n.op == Op::Or && (n.a == b || n.b == b) { return a; }
            let n = self.nodes[b as usize];
            if n.op == Op::Or && (n.a == a || n.b == a) { return b; }
        } else if let Some(r) = self.split_bitwise(Op::Or, a, b) { return r; }
        if self.cv(b).is_some() {
            let n = self.nodes[a as usize];
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() { let (x, y) = (self.or(n.b, b), self.or(n.c, b)); return self.ite(n.a, x, y); }
            return self.mk(Op::Or, w, a, b, 0);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Or, w, a, b, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if a == b { return self.konst(0, w); }
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(x ^ k, w); }
            if k == 0 { return a; }
            if k == mask(w) { return self.not(a); }
            let n = self.nodes[a as usize];
            if n.op == Op::Xor { if let Some(k2) = self.cv(n.b) { let kk = self.konst(k ^ k2, w); return self.xor(n.a, kk); } }
        }
        if w > 1 { if let Some(r) = self.split_bitwise(Op::Xor, a, b) { return r; } }
        if self.cv(b).is_some() { return self.mk(Op::Xor, w, a, b, 0); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Xor, w, a, b, 0)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(x.wrapping_add(k), w); }
            if k == 0 { return a; }
            if w == 1 { return self.not(a); }
            let n = self.nodes[a as usize];
            match n.op {
                Op::Add => if let Some(k2) = self.cv(n.b) { let kk = self.konst(k.wrapping_add(k2), w); return self.add(n.a, kk); },
                Op::Sub => if let Some(k2) = self.cv(n.a) { let kk = self.konst(k.wrapping_add(k2), w); return self.sub(kk, n.b); },
                Op::Ite => if self.cv(n.b).is_some() && self.cv(n.c).is_some() { let (x, y) = (self.add(n.b, b), self.add(n.c, b)); return self.ite(n.a, x, y); },
                _ => {}
            }
            return self.mk(Op::Add, w, a, b, 0);
        }
        // (x - y) + y
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Sub && na.b == b { return na.a; }
        if nb.op == Op::Sub && nb.b == a { return nb.a; }
        if na.op == Op::Add && self.cv(na.b).is_some() { let s = self.add(na.a, b); return self.add(s, na.b); }
        if nb.op == Op::Add && self.cv(nb.b).is_some() { let s = self.add(a, nb.a); return self.add(s, nb.b); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, a, b, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.konst(0, w); }
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(x.wrapping_sub(k), w); }
            let nk = self.konst(0u128.wrapping_sub(k), w);
            return self.add(a, nk);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        // (x + y) - y ; (x+k) - x
        if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
        if nb.op == Op::Add && self.cv(nb.b).is_some() { let k = self.cv(nb.b).unwrap(); let s = self.sub(a, nb.a); let nk = self.konst(0u128.wrapping_sub(k), w); return self.add(s, nk); }
        if na.op == Op::Add && self.cv(na.b).is_some() { let s = self.sub(na.a, b); return self.add(s, na.b); }
        self.mk(Op::Sub, w, a, b, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(x.wrapping_mul(k), w); }
            if k == 0 { return b; }
            if k == 1 { return a; }
            if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, w); return self.shl(a, s); }
            let n = self.nodes[a as usize];
            if n.op == Op::Mul { if let Some(k2) = self.cv(n.b) { let kk = self.konst(k.wrapping_mul(k2), w); return self.mul(n.a, kk); } }
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() { let (x, y) = (self.mul(n.b, b), self.mul(n.c, b)); return self.ite(n.a, x, y); }
            return self.mk(Op::Mul, w, a, b, 0);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, a, b, 0)
    }
    pub fn divrem(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(k)) = (self.cv(a), self.cv(b)) { return self.konst(cbin(op, w, x, k), w); }
        if let Some(k) = self.cv(b) {
            if k.is_power_of_two() && !(k >> (w - 1) == 1 && matches!(op, Op::SDiv | Op::SRem)) {
                let s = k.trailing_zeros();
                match op {
                    Op::UDiv => { let s = self.konst(s as u128, w); return self.lshr(a, s); }
                    Op::URem => { let m = self.konst(k - 1, w); return self.and(a, m); }
                    _ => {}
                }
                if k == 1 { return if op == Op::SDiv { a } else { self.konst(0, w) }; }
            }
            if w <= 64 && k != 0 {
                let hi = self.hi[a as usize];
                if matches!(op, Op::SDiv | Op::SRem) && hi <= mask64(w - 1) && k <= mask(w - 1) {
                    return self.divrem(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
                if op == Op::UDiv && (hi as u128) < k { return self.konst(0, w); }
                if op == Op::URem && (hi as u128) < k { return a; }
                // narrow: zext(x)/k where k fits
                let n = self.nodes[a as usize];
                if n.op == Op::ZExt && matches!(op, Op::UDiv | Op::URem) && k <= mask(self.w(n.a)) {
                    let kk = self.konst(k, self.w(n.a));
                    let r = self.divrem(op, n.a, kk);
                    return self.zext(r, w);
                }
            }
        }
        self.mk(op, w, a, b, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k >= w as u128 { return self.konst(0, w); }
            if let Some(x) = self.cv(a) { return self.konst(x << k, w); }
            if k == 0 { return a; }
            let k = k as u32;
            let h = self.extract(a, w - k - 1, 0);
            let z = self.konst(0, k);
            return self.concat(h, z);
        }
        self.mk(Op::Shl, w, a, b, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k >= w as u128 { return self.konst(0, w); }
            if let Some(x) = self.cv(a) { return self.konst(x >> k, w); }
            if k == 0 { return a; }
            let h = self.extract(a, w - 1, k as u32);
            return self.zext(h, w);
        }
        self.mk(Op::LShr, w, a, b, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.konst(cbin(Op::AShr, w, x, k), w); }
            let k = k.min(w as u128 - 1) as u32;
            if k == 0 { return a; }
            let h = self.extract(a, w - 1, k);
            return self.sext(h, w);
        }
        self.mk(Op::AShr, w, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        debug_assert!(wa < w);
        if let Some(v) = self.cv(a) { return self.konst(v, w); }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() { let (x, y) = (self.zext(n.b, w), self.zext(n.c, w)); return self.ite(n.a, x, y); }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(v) = self.cv(a) { return self.konst(sx(v, wa) as u128, w); }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        if wa <= 64 && self.hi[a as usize] <= mask64(wa - 1) && wa > 1 { return self.zext(a, w); }
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() { let (x, y) = (self.sext(n.b, w), self.sext(n.c, w)); return self.ite(n.a, x, y); }
        if wa == 1 { let x = self.konst(!0, w); let y = self.konst(0, w); return self.ite(a, x, y); }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let wa = self.w(a);
        debug_assert!(hi < wa && lo <= hi, "extract {} {} of {}", hi, lo, wa);
        let w = hi - lo + 1;
        if w == wa { return a; }
        if let Some(v) = self.cv(a) { return self.konst(v >> lo, w); }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, hi + n.c, lo + n.c),
            Op::Concat => {
                let wl = self.w(n.b);
                if hi < wl { return self.extract(n.b, hi, lo); }
                if lo >= wl { return self.extract(n.a, hi - wl, lo - wl); }
                let h = self.extract(n.a, hi - wl, 0);
                let l = self.extract(n.b, wl - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wx = self.w(n.a);
                if hi < wx { return self.extract(n.a, hi, lo); }
                if lo >= wx { return self.konst(0, w); }
                let l = self.extract(n.a, wx - 1, lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let wx = self.w(n.a);
                if hi < wx { return self.extract(n.a, hi, lo); }
                if lo == 0 && hi >= wx { return self.sext(n.a, w); }
                if lo >= wx - 1 { let s = self.extract(n.a, wx - 1, wx - 1); return self.sext(s, w); }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.cv(n.b).is_some() {
                    let x = self.extract(n.a, hi, lo);
                    let y = self.extract(n.b, hi, lo);
                    return match n.op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) };
                }
            }
            Op::Not => { let x = self.extract(n.a, hi, lo); return self.not(x); }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let cheap = |s: &Self, e: E| matches!(s.nodes[e as usize].op, Op::Const | Op::ZExt | Op::SExt | Op::Concat);
                if cheap(self, n.a) && cheap(self, n.b) {
                    let x = self.extract(n.a, hi, 0);
                    let y = self.extract(n.b, hi, 0);
                    return match n.op { Op::Add => self.add(x, y), Op::Sub => self.sub(x, y), _ => self.mul(x, y) };
                }
            }
            _ => {}
        }
        if wa <= 64 && lo > 0 && (self.hi[a as usize] >> lo) == 0 { return self.konst(0, w); }
        self.mk(Op::Extract, w, a, hi, lo)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) { return self.konst((x << wl) | y, w); }
        if let Some(0) = self.cv(h) { return self.zext(l, w); }
        let nh = self.nodes[h as usize];
        if nh.op == Op::Concat { let t = self.concat(nh.b, l); return self.concat(nh.a, t); }
        if nh.op == Op::ZExt { let t = self.concat(nh.a, l); return self.zext(t, w); }
        // merge with adjacent piece
        let nl = self.nodes[l as usize];
        let (l1, rest) = if nl.op == Op::Concat { (nl.a, Some(nl.b)) } else { (l, None) };
        let w1 = self.w(l1);
        let mut merged = None;
        if nh.op == Op::Extract {
            let (base, hi, lo) = (nh.a, nh.b, nh.c);
            if lo >= w1 {
                let want = self.extract(base, lo - 1, lo - w1);
                if want == l1 { merged = Some(self.extract(base, hi, lo - w1)); }
            }
        } else if let (Some(x), Some(y)) = (self.cv(h), self.cv(l1)) {
            merged = Some(self.konst((x << w1) | y, wh + w1));
        } else if nh.op == Op::Ite && self.cv(nh.b).is_some() && self.cv(nh.c).is_some() {
            let n1 = self.nodes[l1 as usize];
            // sign pieces: ite(msb(x), -1, 0) ++ x  => sext
            if self.cv(nh.b) == Some(mask(wh)) && self.cv(nh.c) == Some(0) {
                let top = self.extract(l1, w1 - 1, w1 - 1);
                if top == nh.a { merged = Some(self.sext(l1, wh + w1)); }
            }
            if merged.is_none() && n1.op == Op::Ite && n1.a == nh.a && self.cv(n1.b).is_some() && self.cv(n1.c).is_some() && wh + w1 <= 128 {
                let x = self.concat(nh.b, n1.b);
                let y = self.concat(nh.c, n1.c);
                merged = Some(self.ite(nh.a, x, y));
            }
        } else if nh.op == Op::Not {
            let n1 = self.nodes[l1 as usize];
            if n1.op == Op::Not { let t = self.concat(nh.a, n1.a); merged = Some(self.not(t)); }
        }
        if let Some(m) = merged {
            return match rest { Some(r) => self.concat(m, r), None => m };
        }
        assert!(w <= 128, "concat too wide");
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let nc = self.nodes[c as usize];
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        let na = self.nodes[a as usize];
        let a = if na.op == Op::Ite && na.a == c { na.b } else { a };
        let nb = self.nodes[b as usize];
        let b = if nb.op == Op::Ite && nb.a == c { nb.c } else { b };
        if a == b { return a; }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru; }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.bool_(x == k); }
            if w == 1 { return if k == 1 { a } else { self.not(a) }; }
            if w <= 64 && ((k as u64) < self.lo[a as usize] || (k as u64) > self.hi[a as usize]) { return self.fls; }
            let n = self.nodes[a as usize];
            match n.op {
                Op::Concat => {
                    let wl = self.w(n.b);
                    let kl = self.konst(k & mask(wl), wl);
                    let kh = self.konst(k >> wl, w - wl);
                    let x = self.eq(n.b, kl);
                    if self.cv(x) == Some(0) { return x; }
                    let y = self.eq(n.a, kh);
                    return self.and(x, y);
                }
                Op::ZExt => {
                    let wx = self.w(n.a);
                    if k > mask(wx) { return self.fls; }
                    let kk = self.konst(k, wx);
                    return self.eq(n.a, kk);
                }
                Op::SExt => {
                    let wx = self.w(n.a);
                    if (sx(k & mask(wx), wx) as u128) & mask(w) != k { return self.fls; }
                    let kk = self.konst(k, wx);
                    return self.eq(n.a, kk);
                }
                Op::Ite => {
                    let (cb, cc) = (self.cv(n.b), self.cv(n.c));
                    if cb.is_some() || cc.is_some() {
                        let x = self.eq(n.b, b);
                        let y = self.eq(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::Add => if let Some(k2) = self.cv(n.b) { let kk = self.konst(k.wrapping_sub(k2), w); return self.eq(n.a, kk); },
                Op::Sub => if let Some(k2) = self.cv(n.a) { let kk = self.konst(k2.wrapping_sub(k), w); return self.eq(n.b, kk); } else if k == 0 { return self.eq(n.a, n.b); },
                Op::Xor => if let Some(k2) = self.cv(n.b) { let kk = self.konst(k ^ k2, w); return self.eq(n.a, kk); } else if k == 0 { return self.eq(n.a, n.b); },
                Op::Not => { let kk = self.konst(!k, w); return self.eq(n.a, kk); }
                Op::Or => if k == 0 { let z = self.konst(0, w); let x = self.eq(n.a, z); let y = self.eq(n.b, z); return self.and(x, y); },
                _ => {}
            }
            return self.mk(Op::Eq, 1, a, b, 0);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        match (na.op, nb.op) {
            (Op::ZExt, Op::ZExt) | (Op::SExt, Op::SExt) if self.w(na.a) == self.w(nb.a) => return self.eq(na.a, nb.a),
            (Op::Concat, Op::Concat) if self.w(na.b) == self.w(nb.b) => {
                let x = self.eq(na.b, nb.b);
                if self.cv(x) == Some(0) { return x; }
                let y = self.eq(na.a, nb.a);
                return self.and(x, y);
            }
            (Op::Not, Op::Not) => return self.eq(na.a, nb.a),
            (Op::Add, Op::Add) if na.b == nb.b => return self.eq(na.a, nb.a),
            _ => {}
        }
        if na.op == Op::Add && self.cv(na.b).is_some() && na.a == b { return self.fls; }
        if nb.op == Op::Add && self.cv(nb.b).is_some() && nb.a == a { return self.fls; }
        if w <= 64 && (self.hi[a as usize] < self.lo[b as usize] || self.hi[b as usize] < self.lo[a as usize]) { return self.fls; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, a, b, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls; }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.bool_(x < y); }
        if w <= 64 {
            if self.hi[a as usize] < self.lo[b as usize] { return self.tru; }
            if self.lo[a as usize] >= self.hi[b as usize] { return self.fls; }
        }
        if w == 1 { let n = self.not(a); return self.and(n, b); }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if let Some(k) = self.cv(b) {
            if k == 0 { return self.fls; }
            if k == 1 { let z = self.konst(0, w); return self.eq(a, z); }
            if k == mask(w) { let e = self.eq(a, b); return self.not(e); }
            if na.op == Op::ZExt { let wx = self.w(na.a); if k > mask(wx) { return self.tru; } let kk = self.konst(k, wx); return self.ult(na.a, kk); }
            if na.op == Op::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) { let x = self.ult(na.b, b); let y = self.ult(na.c, b); return self.ite(na.a, x, y); }
            if na.op == Op::Concat { let wl = self.w(na.b); if k & mask(wl) == 0 { let kk = self.konst(k >> wl, w - wl); return self.ult(na.a, kk); } }
        }
        if let Some(k) = self.cv(a) {
            if k == mask(w) { return self.fls; }
            if k == 0 { let z = self.konst(0, w); let e = self.eq(b, z); return self.not(e); }
            if nb.op == Op::ZExt { let wx = self.w(nb.a); if k >= mask(wx) { return self.fls; } let kk = self.konst(k, wx); return self.ult(kk, nb.a); }
            if nb.op == Op::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) { let x = self.ult(a, nb.b); let y = self.ult(a, nb.c); return self.ite(nb.a, x, y); }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.ult(na.a, nb.a); }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru; }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.bool_(x <= y); }
        if let Some(k) = self.cv(b) { if k == mask(w) { return self.tru; } let kk = self.konst(k + 1, w); return self.ult(a, kk); }
        if let Some(k) = self.cv(a) { if k == 0 { return self.tru; } let kk = self.konst(k - 1, w); return self.ult(kk, b); }
        if w <= 64 {
            if self.hi[a as usize] <= self.lo[b as usize] { return self.tru; }
            if self.lo[a as usize] > self.hi[b as usize] { return self.fls; }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.ule(na.a, nb.a); }
        self.mk(Op::Ule, 1, a, b, 0)
    }
    fn nonneg(&self, e: E) -> bool { let w = self.w(e); w <= 64 && w > 1 && self.hi[e as usize] <= mask64(w - 1) }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls; }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.bool_(sx(x, w) < sx(y, w)); }
        if self.nonneg(a) && self.nonneg(b) { return self.ult(a, b); }
        if self.cv(b) == Some(0) { return self.extract(a, w - 1, w - 1); }
        if w > 1 && self.cv(a) == Some(mask(w)) { let m = self.extract(b, w - 1, w - 1); return self.not(m); }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::SExt {
            let wx = self.w(na.a);
            if let Some(k) = self.cv(b) {
                let k = sx(k, w);
                let (mn, mx) = (-(1i128 << (wx - 1)), (1i128 << (wx - 1)) - 1);
                if k > mx { return self.tru; }
                if k <= mn { return self.fls; }
                let kk = self.konst(k as u128, wx);
                return self.slt(na.a, kk);
            }
            if nb.op == Op::SExt && self.w(nb.a) == wx { return self.slt(na.a, nb.a); }
        }
        if nb.op == Op::SExt {
            let wx = self.w(nb.a);
            if let Some(k) = self.cv(a) {
                let k = sx(k, w);
                let (mn, mx) = (-(1i128 << (wx - 1)), (1i128 << (wx - 1)) - 1);
                if k >= mx { return self.fls; }
                if k < mn { return self.tru; }
                let kk = self.konst(k as u128, wx);
                return self.slt(kk, nb.a);
            }
        }
        if na.op == Op::Ite && self.cv(b).is_some() && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) { let x = self.slt(na.b, b); let y = self.slt(na.c, b); return self.ite(na.a, x, y); }
        if nb.op == Op::Ite && self.cv(a).is_some() && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) { let x = self.slt(a, nb.b); let y = self.slt(a, nb.c); return self.ite(nb.a, x, y); }
        // nonneg vs constant negative
        if let Some(k) = self.cv(b) { if self.nonneg(a) && sx(k, w) <= 0 { return self.fls; } }
        if let Some(k) = self.cv(a) { if self.nonneg(b) && sx(k, w) < 0 { return self.tru; } }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru; }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.bool_(sx(x, w) <= sx(y, w)); }
        let (imin, imax) = (1u128 << (w - 1), mask(w) >> 1);
        if let Some(k) = self.cv(b) { if k == imax { return self.tru; } let kk = self.konst(k.wrapping_add(1), w); return self.slt(a, kk); }
        if let Some(k) = self.cv(a) { if k == imin { return self.tru; } let kk = self.konst(k.wrapping_sub(1), w); return self.slt(kk, b); }
        if self.nonneg(a) && self.nonneg(b) { return self.ule(a, b); }
        self.mk(Op::Sle, 1, a, b, 0)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        match op {
            Op::Add => self.add(a, b), Op::Sub => self.sub(a, b), Op::Mul => self.mul(a, b),
            Op::UDiv | Op::SDiv | Op::URem | Op::SRem => self.divrem(op, a, b),
            Op::And => self.and(a, b), Op::Or => self.or(a, b), Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b), Op::LShr => self.lshr(a, b), Op::AShr => self.ashr(a, b),
            Op::Eq => self.eq(a, b), Op::Ult => self.ult(a, b), Op::Ule => self.ule(a, b), Op::Slt => self.slt(a, b), Op::Sle => self.sle(a, b),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                let w = self.w(a);
                if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.konst(fbin(op, w, x, y), w); }
                self.mk(op, w, a, b, 0)
            }
            _ => unreachable!(),
        }
    }
    pub fn fun(&mut self, op: Op, a: E, w: u32, mode: u32) -> E {
        if let Some(x) = self.cv(a) { let v = self.ev_un(op, x, self.w(a), w, mode); return self.konst(v, w); }
        if self.w(a) == 64 && matches!(op, Op::FToSi | Op::FToUi) {
            if let Some(v) = self.exact_int(a) {
                // v: 64-bit signed, exact
                if w >= 64 && op == Op::FToSi { return self.sext(v, w); }
                let (mn, mx): (i128, i128) = if op == Op::FToSi { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, if w >= 63 { i64::MAX as i128 } else { (1i128 << w) - 1 }) };
                let mne = self.konst(mn as u128 & mask(64), 64);
                let mxe = self.konst(mx as u128 & mask(64), 64);
                let lo = self.slt(v, mne);
                let hi = self.slt(mxe, v);
                let r = self.ite(hi, mxe, v);
                let r = self.ite(lo, mne, r);
                return if w <= 64 { self.extract(r, w - 1, 0) } else { self.zext(r, w) };
            }
        }
        // narrowing what was widened: the value itself (a NaN becomes quiet)
        if op == Op::FTrunc && w == 32 && self.nodes[a as usize].op == Op::FExt {
            let x = self.nodes[a as usize].a;
            let m = self.extract(x, 30, 0);
            let inf = self.konst(0x7f80_0000, 31);
            let nan = self.ult(inf, m);
            let qb = self.konst(0x40_0000, 32);
            let q = self.or(x, qb);
            return self.ite(nan, q, x);
        }
        if op == Op::FRound && w == 64 && self.exact_int(a).is_some() { return a; }
        self.mk(op, w, a, mode, 0)
    }
    /// a double that is a widened single: that single
    pub fn single(&mut self, a: E) -> Option<E> {
        if let Some(x) = self.cv(a) {
            let f = f64::from_bits(x as u64);
            if f.is_nan() || (f as f32) as f64 != f { return None; }
            return Some(self.konst((f as f32).to_bits() as u128, 32));
        }
        let n = self.nodes[a as usize];
        if n.op == Op::FExt { Some(n.a) } else { None }
    }
    /// a double that is an exact integer below 2^53: that integer as a 64-bit signed value
    pub fn exact_int(&mut self, a: E) -> Option<E> {
        if let Some(x) = self.cv(a) {
            let f = f64::from_bits(x as u64);
            if f.fract() == 0.0 && f.abs() < 9007199254740992.0 { return Some(self.konst(f as i64 as u64 as u128, 64)); }
            return None;
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::SiToF if self.w(n.a) <= 53 => Some(self.sext(n.a, 64)),
            Op::UiToF if self.w(n.a) <= 53 => Some(self.zext(n.a, 64)),
            _ => None,
        }
    }
    fn ev_un(&self, op: Op, x: u128, wa: u32, w: u32, mode: u32) -> u128 {
        match op {
            Op::FToUi => f_to_int(x, wa, w, false),
            Op::FToSi => f_to_int(x, wa, w, true),
            Op::UiToF => int_to_f(x, wa, w, false),
            Op::SiToF => int_to_f(x, wa, w, true),
            Op::FExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
            Op::FTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
            Op::FRound => fround(wa, x, mode),
            _ => unreachable!(),
        }
    }
    pub fn new_gen(&mut self) { self.gen += 1; }
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return model.get(n.a as usize).copied().unwrap_or(0),
            _ => {}
        }
        if self.memog[e as usize] == self.gen { return self.memo[e as usize]; }
        let w = n.w as u32;
        let v = match n.op {
            Op::Not => !self.eval(n.a, model) & mask(w),
            Op::ZExt => self.eval(n.a, model),
            Op::SExt => (sx(self.eval(n.a, model), self.w(n.a)) as u128) & mask(w),
            Op::Extract => (self.eval(n.a, model) >> n.c) & mask(w),
            Op::Concat => { let l = self.eval(n.b, model); let h = self.eval(n.a, model); (h << self.w(n.b)) | l }
            Op::Ite => if self.eval(n.a, model) == 1 { self.eval(n.b, model) } else { self.eval(n.c, model) },
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => { let (x, y) = (self.eval(n.a, model), self.eval(n.b, model)); fbin(n.op, w, x, y) }
            Op::FToUi | Op::FToSi | Op::UiToF | Op::SiToF | Op::FExt | Op::FTrunc | Op::FRound => { let x = self.eval(n.a, model); self.ev_un(n.op, x, self.w(n.a), w, n.b) }
            _ => { let x = self.eval(n.a, model); let y = self.eval(n.b, model); cbin(n.op, self.w(n.a), x, y) }
        };
        self.memo[e as usize] = v;
        self.memog[e as usize] = self.gen;
        v
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("v{}:{}", n.a, n.w),
            _ if depth == 0 => format!("#{}", e),
            Op::Extract => format!("{}[{}:{}]", self.show(n.a, depth - 1), n.b, n.c),
            Op::Not | Op::ZExt | Op::SExt | Op::FToUi | Op::FToSi | Op::UiToF | Op::SiToF | Op::FExt | Op::FTrunc | Op::FRound => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!("Ite({}, {}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
