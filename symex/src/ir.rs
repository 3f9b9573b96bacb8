//! Textual LLVM IR -> compact in-memory program.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Array(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vector(u64, TyId),
    Meta,
    Opaque,
}

pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub size: Vec<u64>,
    pub align: Vec<u64>,
    pub offs: Vec<Rc<[u64]>>,
}
impl Types {
    pub fn new() -> Self {
        Types { tys: vec![], map: HashMap::new(), size: vec![], align: vec![], offs: vec![] }
    }
    pub fn mk(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let mut offs: Vec<u64> = vec![];
        let (sz, al) = match &t {
            Ty::Void | Ty::Meta | Ty::Opaque => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let al = b.next_power_of_two().min(16);
                ((b + al - 1) / al * al, al)
            }
            Ty::Float => (4, 4),
            Ty::Double | Ty::Ptr => (8, 8),
            Ty::Array(n, e) => (n * self.size[*e as usize], self.align[*e as usize]),
            Ty::Vector(n, e) => {
                let es = match self.tys[*e as usize] {
                    Ty::Int(1) => (*n + 7) / 8,
                    _ => n * self.size[*e as usize],
                };
                (es, es.next_power_of_two().max(1))
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs {
                    let fa = if *packed { 1 } else { self.align[*f as usize] };
                    o = (o + fa - 1) / fa * fa;
                    offs.push(o);
                    o += self.size[*f as usize];
                    al = al.max(fa);
                }
                ((o + al - 1) / al * al, al)
            }
        };
        let id = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.map.insert(t, id);
        self.size.push(sz);
        self.align.push(al);
        self.offs.push(offs.into());
        id
    }
    /// bit width of a scalar type, 0 when not scalar
    pub fn width(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] {
            Ty::Int(w) => *w,
            Ty::Float => 32,
            Ty::Double | Ty::Ptr => 64,
            _ => 0,
        }
    }
    /// element type, offset of aggregate member i
    pub fn member(&self, t: TyId, i: u64) -> (TyId, u64) {
        match &self.tys[t as usize] {
            Ty::Array(_, e) | Ty::Vector(_, e) => (*e, i * self.size[*e as usize]),
            Ty::Struct(fs, _) => (fs[i as usize], self.offs[t as usize][i as usize]),
            x => panic!("member of {:?}", x),
        }
    }
    pub fn nmembers(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Array(n, _) | Ty::Vector(n, _) => *n,
            Ty::Struct(fs, _) => fs.len() as u64,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<[Val]>),
}

pub type Opd = u32;
pub const CONST: u32 = 0x8000_0000;
pub const NOREG: u32 = 0x7fff_ffff;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc, Same }

#[derive(Clone, Copy, Debug)]
pub struct Target { pub block: u32, pub moves: u32 }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Ind(Opd), Asm(String), }

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u8, u32, Opd, Opd),
    VBin(BinOp, u8, u32, Opd, Opd),
    FBin(FOp, u8, u32, Opd, Opd),
    FNeg(u8, u32, Opd),
    ICmp(Pred, u8, u32, Opd, Opd),
    VICmp(Pred, u8, u32, Opd, Opd),
    FCmp(FPred, u8, u32, Opd, Opd),
    Cast(CastOp, u8, u8, u32, Opd),
    VCast(CastOp, u8, u8, u32, Opd),
    BitCast(u32, Opd, TyId, TyId),
    Mov(u32, Opd),
    Select(u32, Opd, Opd, Opd, TyId),
    Load(u32, Opd, TyId),
    Store(Opd, Opd, TyId),
    Gep(u32, Opd, i64, Box<[(Opd, u8, i64)]>),
    Alloca(u32, u32),
    Call(Box<CallI>),
    ExtractValue(u32, Opd, Box<[u32]>),
    InsertValue(u32, Opd, Opd, Box<[u32]>),
    ExtractElem(u32, Opd, Opd),
    InsertElem(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Box<[i32]>),
    AtomicRmw(u8, u32, Opd, Opd, TyId),
    CmpXchg(u32, Opd, Opd, Opd, TyId),
    Br(Target),
    CondBr(Opd, Target, Target),
    Switch(Opd, u8, Target, Box<SwitchI>),
    Ret(Opd),
    Unreachable,
    Nop,
}
#[derive(Clone, Debug)]
pub struct CallI { pub d: u32, pub callee: Callee, pub args: Box<[Opd]>, pub argtys: Box<[TyId]>, pub retty: TyId, pub normal: Option<Target> }
#[derive(Clone, Debug)]
pub struct SwitchI {
    pub cases: Vec<(u64, Target)>,
    pub map: HashMap<u64, u32>, // value -> index in cases
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub nargs: u32,
    pub nregs: u32,
    pub frame_size: u32,
    pub blocks: Vec<Vec<I>>,
    pub block_names: Vec<String>,
    pub moves: Vec<Vec<(u32, Opd)>>,
    pub defined: bool,
    pub retty: TyId,
}

pub struct Global { pub name: String, pub size: u64, pub data: Vec<u8>, pub constant: bool, pub external: bool }

pub struct Module {
    pub types: Types,
    pub consts: Vec<Val>,
    pub funcs: Vec<Func>,
    pub func_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
}

unsafe impl Sync for Module {}
/// addresses: object id << 32 | offset.  Ids 1..=nglobals are globals.
pub const FUNC_BASE: u64 = 0x7fff_0000_0000_0000;
pub fn func_addr(i: u32) -> u64 { FUNC_BASE + (i as u64 + 1) * 16 }
pub fn addr_func(a: u64) -> Option<u32> {
    if a >= FUNC_BASE && (a - FUNC_BASE) % 16 == 0 && a > FUNC_BASE { Some(((a - FUNC_BASE) / 16 - 1) as u32) } else { None }
}
pub fn global_addr(i: u32) -> u64 { ((i as u64) + 1) << 32 }

struct Cur<'a> { s: &'a [u8], p: usize }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Cur<'a> {
    fn ws(&mut self) {
        loop {
            while self.p < self.s.len() && matches!(self.s[self.p], b' ' | b'\t' | b'\n' | b'\r') { self.p += 1; }
            if self.p < self.s.len() && self.s[self.p] == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1; }
            } else { return; }
        }
    }
    fn sp(&mut self) { while self.p < self.s.len() && matches!(self.s[self.p], b' ' | b'\t') { self.p += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.s[self.p] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    #[track_caller]
    fn expect(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected {:?}", c as char)); } }
    #[track_caller]
    fn fail(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(200);
        let b = (self.p + 120).min(self.s.len());
        panic!("parse error: {} at <<{}>>>HERE<<<{}>>", m, String::from_utf8_lossy(&self.s[a..self.p]), String::from_utf8_lossy(&self.s[self.p..b]));
    }
    fn peek_ident(&mut self) -> &'a [u8] {
        self.ws();
        let mut q = self.p;
        while q < self.s.len() && is_id(self.s[q]) { q += 1; }
        &self.s[self.p..q]
    }
    fn ident(&mut self) -> &'a [u8] { let r = self.peek_ident(); self.p += r.len(); r }
    fn eat_kw(&mut self, k: &str) -> bool {
        if self.peek_ident() == k.as_bytes() { self.p += k.len(); true } else { false }
    }
    /// after a sigil: name (quoted or plain)
    fn name(&mut self) -> &'a [u8] {
        if self.s[self.p] == b'"' {
            let st = self.p + 1;
            let mut q = st;
            while self.s[q] != b'"' { q += 1; }
            self.p = q + 1;
            &self.s[st..q]
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1; }
            &self.s[st..self.p]
        }
    }
    fn eol(&mut self) { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1; } }
    fn int(&mut self) -> i128 {
        self.ws();
        let st = self.p;
        if self.s[self.p] == b'-' { self.p += 1; }
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() { self.p += 1; }
        let t = std::str::from_utf8(&self.s[st..self.p]).unwrap();
        match t.parse::<i128>() { Ok(v) => v, Err(_) => match t.parse::<u128>() { Ok(v) => v as i128, Err(_) => self.fail("int") } }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { return; } }
                b'"' => { while self.s[self.p] != b'"' { self.p += 1; } self.p += 1; }
                _ => {}
            }
        }
    }
    fn string(&mut self) -> Vec<u8> {
        self.expect(b'"');
        let mut v = vec![];
        loop {
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'"' => return v,
                b'\\' => {
                    let h = std::str::from_utf8(&self.s[self.p..self.p + 2]).unwrap();
                    if h.starts_with('\\') { v.push(b'\\'); self.p += 1; } else { v.push(u8::from_str_radix(h, 16).unwrap()); self.p += 2; }
                }
                _ => v.push(c),
            }
        }
    }
}

/// Constant tree used while parsing initialisers.
#[derive(Clone, Debug)]
enum K { Int(u128), Zero, Agg(Vec<(TyId, K)>), Bytes(Vec<u8>) }

pub struct Parser<'a> {
    c: Cur<'a>,
    pub m: Module,
    gids: HashMap<&'a [u8], u32>,
    fids: HashMap<&'a [u8], u32>,
    named: HashMap<&'a [u8], TyId>,
    cmap: HashMap<(u64, bool), u32>,
    // per function
    regs: HashMap<&'a [u8], u32>,
    blks: HashMap<&'a [u8], u32>,
    t_i1: TyId, t_ptr: TyId, t_void: TyId,
}

enum V { Reg(u32), K(K) }

impl<'a> Parser<'a> {
    pub fn parse(s: &'a [u8]) -> Module {
        let mut types = Types::new();
        let t_void = types.mk(Ty::Void);
        let t_i1 = types.mk(Ty::Int(1));
        let t_ptr = types.mk(Ty::Ptr);
        types.mk(Ty::Int(8)); types.mk(Ty::Int(64));
        let mut p = Parser {
            c: Cur { s, p: 0 },
            m: Module { types, consts: vec![], funcs: vec![], func_by_name: HashMap::new(), globals: vec![] },
            gids: HashMap::new(), fids: HashMap::new(), named: HashMap::new(), cmap: HashMap::new(), regs: HashMap::new(), blks: HashMap::new(),
            t_i1, t_ptr, t_void,
        };
        p.prepass(s);
        p.top();
        p.m
    }
    fn prepass(&mut self, s: &'a [u8]) {
        let mut comment: &[u8] = b"";
        for line in s.split(|&c| c == b'\n') {
            if line.starts_with(b"; ") && !line.starts_with(b"; Function Attrs") { comment = &line[2..]; continue; }
            if line.is_empty() { comment = b""; continue; }
            if line.starts_with(b"@") {
                let mut c = Cur { s: line, p: 1 };
                let n = c.name();
                let id = self.m.globals.len() as u32;
                self.gids.insert(n, id);
                self.m.globals.push(Global { name: String::from_utf8_lossy(n).into(), size: 0, data: vec![], constant: false, external: true });
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let mut c = Cur { s: line, p: at + 1 };
                let n = c.name();
                let id = self.m.funcs.len() as u32;
                self.fids.insert(n, id);
                let name: String = String::from_utf8_lossy(n).into();
                self.m.func_by_name.insert(name.clone(), id);
                self.m.funcs.push(Func { pretty: if comment.is_empty() { name.clone() } else { String::from_utf8_lossy(comment).into() }, name, nargs: 0, nregs: 0, frame_size: 0, blocks: vec![], block_names: vec![], moves: vec![], defined: line.starts_with(b"define"), retty: 0 });
            }
        }
    }
    fn top(&mut self) {
        loop {
            match self.c.peek() {
                0 => return,
                b'@' => self.global(),
                b'%' => {
                    self.c.p += 1;
                    let n = self.c.name();
                    self.c.expect(b'=');
                    assert!(self.c.eat_kw("type"));
                    if self.c.eat_kw("opaque") { let t = self.m.types.mk(Ty::Opaque); self.named.insert(n, t); } else { let t = self.ty(); self.named.insert(n, t); }
                    self.c.eol();
                }
                _ => {
                    let id = self.c.peek_ident();
                    if id == b"define" { self.define(); } else { self.c.eol(); }
                }
            }
        }
    }
    fn ty(&mut self) -> TyId {
        let t = match self.c.peek() {
            b'[' => {
                self.c.p += 1;
                let n = self.c.int() as u64;
                assert!(self.c.eat_kw("x"));
                let e = self.ty();
                self.c.expect(b']');
                Ty::Array(n, e)
            }
            b'{' => { self.c.p += 1; let f = self.tylist(b'}'); Ty::Struct(f, false) }
            b'<' => {
                self.c.p += 1;
                if self.c.eat(b'{') {
                    let f = self.tylist(b'}');
                    self.c.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.c.int() as u64;
                    assert!(self.c.eat_kw("x"));
                    let e = self.ty();
                    self.c.expect(b'>');
                    Ty::Vector(n, e)
                }
            }
            b'%' => { self.c.p += 1; let n = self.c.name(); return *self.named.get(n).unwrap_or_else(|| panic!("type {:?}", String::from_utf8_lossy(n))); }
            _ => {
                let id = self.c.ident();
                match id {
                    b"void" => Ty::Void,
                    b"ptr" => Ty::Ptr,
                    b"float" => Ty::Float,
                    b"double" => Ty::Double,
                    b"label" | b"metadata" | b"token" => Ty::Meta,
                    _ if id.len() > 1 && id[0] == b'i' && id[1].is_ascii_digit() => Ty::Int(std::str::from_utf8(&id[1..]).unwrap().parse().unwrap()),
                    _ => self.c.fail("type"),
                }
            }
        };
        self.m.types.mk(t)
    }
    fn tylist(&mut self, end: u8) -> Vec<TyId> {
        let mut v = vec![];
        if self.c.eat(end) { return v; }
        loop {
            v.push(self.ty());
            if self.c.eat(end) { return v; }
            self.c.expect(b',');
        }
    }
    fn is_ty_start(&mut self) -> bool {
        match self.c.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            _ => {
                let id = self.c.peek_ident();
                matches!(id, b"void" | b"ptr" | b"float" | b"double" | b"label" | b"metadata" | b"token") || (id.len() > 1 && id[0] == b'i' && id[1..].iter().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn skip_attrs_to_ty(&mut self) {
        while !self.is_ty_start() { self.skip_one_attr(); }
    }
    fn skip_one_attr(&mut self) {
        match self.c.peek() {
            b'"' => { self.c.string(); if self.c.p < self.c.s.len() && self.c.s[self.c.p] == b'=' { self.c.p += 1; self.c.string(); } }
            b'#' => { self.c.p += 1; self.c.ident(); }
            _ => {
                let id = self.c.ident();
                if id.is_empty() { self.c.fail("attr"); }
                if self.c.s[self.c.p] == b'(' { self.c.skip_parens(); }
                else if id == b"align" || id == b"cc" || id == b"addrspace" { if self.c.peek().is_ascii_digit() { self.c.ident(); } }
            }
        }
    }
    fn is_value_kw(id: &[u8]) -> bool {
        matches!(id, b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"splat" | b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"ptrtoaddr" | b"bitcast" | b"trunc" | b"zext" | b"sext" | b"add" | b"sub" | b"xor" | b"and" | b"or" | b"shl" | b"lshr" | b"mul" | b"none" | b"asm" | b"c" | b"icmp" | b"select") || id.starts_with(b"f0x")
    }
    fn skip_attrs_to_val(&mut self) {
        loop {
            let ch = self.c.peek();
            if ch == b'"' { self.skip_one_attr(); continue; }
            if !ch.is_ascii_alphabetic() { return; }
            let id = self.c.peek_ident();
            if Self::is_value_kw(id) { return; }
            self.skip_one_attr();
        }
    }
    fn global(&mut self) {
        self.c.p += 1;
        let n = self.c.name();
        let gid = self.gids[n];
        self.c.expect(b'=');
        let mut external = false;
        let constant;
        loop {
            let id = self.c.ident();
            match id {
                b"global" => { constant = false; break; }
                b"constant" => { constant = true; break; }
                b"external" | b"extern_weak" => external = true,
                b"" => self.c.fail("global"),
                b"alias" | b"ifunc" => self.c.fail("alias unsupported"),
                _ => { if self.c.s[self.c.p] == b'(' { self.c.skip_parens(); } }
            }
        }
        let t = self.ty();
        let size = self.m.types.size[t as usize];
        let mut data = vec![0u8; size as usize];
        if !external {
            let k = self.konst(t);
            self.write_k(&mut data, 0, t, &k);
        }
        let g = &mut self.m.globals[gid as usize];
        g.size = size;
        g.data = data;
        g.constant = constant;
        g.external = external;
        self.c.eol();
    }
    fn write_k(&self, out: &mut [u8], off: usize, t: TyId, k: &K) {
        match k {
            K::Zero => {}
            K::Bytes(b) => out[off..off + b.len()].copy_from_slice(b),
            K::Int(v) => {
                let n = (self.m.types.width(t) as usize + 7) / 8;
                assert!(n > 0, "int const for {:?}", self.m.types.tys[t as usize]);
                for i in 0..n { out[off + i] = (v >> (8 * i)) as u8; }
            }
            K::Agg(es) => {
                for (i, (et, e)) in es.iter().enumerate() {
                    let (_, o) = self.m.types.member(t, i as u64);
                    self.write_k(out, off + o as usize, *et, e);
                }
            }
        }
    }
    fn konst(&mut self, t: TyId) -> K {
        match self.val(t) { V::K(k) => k, V::Reg(_) => self.c.fail("const expected") }
    }
    fn mask(w: u32, v: u128) -> u128 { if w >= 128 { v } else { v & ((1u128 << w) - 1) } }
    fn kint(&self, k: &K) -> u128 { match k { K::Int(v) => *v, K::Zero => 0, _ => panic!("kint {:?}", k) } }
    fn tyval(&mut self) -> (TyId, V) { let t = self.ty(); self.skip_attrs_to_val(); let v = self.val(t); (t, v) }
    fn val(&mut self, t: TyId) -> V {
        let w = self.m.types.width(t);
        match self.c.peek() {
            b'%' => { self.c.p += 1; let n = self.c.name(); V::Reg(self.reg(n)) }
            b'@' => {
                self.c.p += 1;
                let n = self.c.name();
                let a = if let Some(&g) = self.gids.get(n) { global_addr(g) } else if let Some(&f) = self.fids.get(n) { func_addr(f) } else { self.c.fail("unknown global") };
                V::K(K::Int(a as u128))
            }
            b'[' | b'{' => { let end = if self.c.s[self.c.p] == b'[' { b']' } else { b'}' }; self.c.p += 1; V::K(K::Agg(self.klist(end))) }
            b'<' => {
                self.c.p += 1;
                if self.c.eat(b'{') { let l = self.klist(b'}'); self.c.expect(b'>'); V::K(K::Agg(l)) } else { V::K(K::Agg(self.klist(b'>'))) }
            }
            b'+' | b'-' if self.c.s[self.c.p + 1].is_ascii_alphabetic() => {
                let neg = self.c.s[self.c.p] == b'-';
                self.c.p += 1;
                let id = self.c.ident();
                let f = match id { b"inf" => f64::INFINITY, b"qnan" | b"nan" => f64::NAN, _ => self.c.fail("float const") };
                let v = if w == 32 { (f as f32).to_bits() as u128 | (neg as u128) << 31 } else { f.to_bits() as u128 | (neg as u128) << 63 };
                V::K(K::Int(v))
            }
            b'-' | b'0'..=b'9' => {
                // integer or float decimal or hex
                let st = self.c.p;
                let mut q = st + 1;
                while q < self.c.s.len() && (self.c.s[q].is_ascii_alphanumeric() || self.c.s[q] == b'.' || ((self.c.s[q] == b'+' || self.c.s[q] == b'-') && matches!(self.c.s[q - 1], b'e' | b'E'))) { q += 1; }
                let tx = std::str::from_utf8(&self.c.s[st..q]).unwrap();
                self.c.p = q;
                let isf = matches!(self.m.types.tys[t as usize], Ty::Float | Ty::Double);
                if isf {
                    let bits64 = if let Some(h) = tx.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { tx.parse::<f64>().unwrap().to_bits() };
                    let v = if w == 32 { (f64::from_bits(bits64) as f32).to_bits() as u128 } else { bits64 as u128 };
                    V::K(K::Int(v))
                } else {
                    let v = match tx.parse::<i128>() { Ok(v) => v as u128, Err(_) => tx.parse::<u128>().unwrap_or_else(|_| panic!("int {}", tx)) };
                    V::K(K::Int(Self::mask(w, v)))
                }
            }
            _ => {
                let id = self.c.ident();
                match id {
                    b"true" => V::K(K::Int(1)),
                    b"false" => V::K(K::Int(0)),
                    b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none" => V::K(if w > 0 { K::Int(0) } else { K::Zero }),
                    b"c" => V::K(K::Bytes(self.c.string())),
                    b"splat" => {
                        self.c.expect(b'(');
                        let (et, v) = self.tyval();
                        self.c.expect(b')');
                        let k = match v { V::K(k) => k, _ => self.c.fail("splat") };
                        let n = self.m.types.nmembers(t);
                        V::K(K::Agg((0..n).map(|_| (et, k.clone())).collect()))
                    }
                    b"getelementptr" => {
                        while self.c.peek() != b'(' { self.skip_one_attr(); }
                        self.c.expect(b'(');
                        let bt = self.ty();
                        self.c.expect(b',');
                        let (_, base) = self.tyval();
                        let mut a = match base { V::K(k) => self.kint(&k) as u64, _ => self.c.fail("gep") };
                        let mut cur = bt;
                        let mut first = true;
                        while self.c.eat(b',') {
                            if self.c.eat_kw("inrange") {}
                            let (it, iv) = self.tyval();
                            let iw = self.m.types.width(it);
                            let raw = match iv { V::K(k) => self.kint(&k), _ => self.c.fail("gep idx") };
                            let idx = sext128(raw, iw) as i64;
                            if first { a = a.wrapping_add((idx as u64).wrapping_mul(self.m.types.size[cur as usize])); first = false; }
                            else { let (mt, o) = self.m.types.member(cur, if idx < 0 { 0 } else { idx as u64 }); if idx < 0 { a = a.wrapping_add((idx as u64).wrapping_mul(self.m.types.size[mt as usize])); } else { a = a.wrapping_add(o); } cur = mt; }
                        }
                        self.c.expect(b')');
                        V::K(K::Int(a as u128))
                    }
                    b"inttoptr" | b"ptrtoint" | b"ptrtoaddr" | b"bitcast" | b"trunc" | b"zext" | b"addrspacecast" => {
                        while self.c.peek() != b'(' { self.skip_one_attr(); }
                        self.c.expect(b'(');
                        let (_, v) = self.tyval();
                        assert!(self.c.eat_kw("to"));
                        let tt = self.ty();
                        self.c.expect(b')');
                        let k = match v { V::K(k) => k, _ => self.c.fail("cast") };
                        let w2 = self.m.types.width(tt);
                        match k { K::Int(x) if w2 > 0 => V::K(K::Int(Self::mask(w2, x))), k => V::K(k) }
                    }
                    b"add" | b"sub" | b"xor" | b"and" | b"or" | b"shl" | b"lshr" | b"mul" => {
                        while self.c.peek() != b'(' { self.skip_one_attr(); }
                        self.c.expect(b'(');
                        let (_, a) = self.tyval();
                        self.c.expect(b',');
                        let (_, b) = self.tyval();
                        self.c.expect(b')');
                        let (a, b) = match (a, b) { (V::K(a), V::K(b)) => (self.kint(&a), self.kint(&b)), _ => self.c.fail("constexpr") };
                        let r = match id { b"add" => a.wrapping_add(b), b"sub" => a.wrapping_sub(b), b"xor" => a ^ b, b"and" => a & b, b"or" => a | b, b"shl" => a << b, b"lshr" => a >> b, _ => a.wrapping_mul(b) };
                        V::K(K::Int(Self::mask(w, r)))
                    }
                    _ if id.starts_with(b"f0x") => {
                        let v = u128::from_str_radix(std::str::from_utf8(&id[3..]).unwrap(), 16).unwrap();
                        V::K(K::Int(v))
                    }
                    _ => { self.c.p -= id.len(); self.c.fail("value") }
                }
            }
        }
    }
    fn klist(&mut self, end: u8) -> Vec<(TyId, K)> {
        let mut v = vec![];
        if self.c.eat(end) { return v; }
        loop {
            let t = self.ty();
            let k = self.konst(t);
            v.push((t, k));
            if self.c.eat(end) { return v; }
            self.c.expect(b',');
        }
    }
    fn reg(&mut self, n: &'a [u8]) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn blk(&mut self, n: &'a [u8]) -> u32 {
        let l = self.blks.len() as u32;
        *self.blks.entry(n).or_insert(l)
    }
    fn kval(&self, t: TyId, k: &K) -> Val {
        let w = self.m.types.width(t);
        match k {
            K::Int(v) => if w <= 64 { Val::C(*v as u64) } else { Val::W(Rc::new(*v)) },
            K::Zero => if w > 0 { if w <= 64 { Val::C(0) } else { Val::W(Rc::new(0)) } } else {
                let n = self.m.types.nmembers(t);
                Val::A((0..n).map(|i| { let (mt, _) = self.m.types.member(t, i); self.kval(mt, &K::Zero) }).collect())
            },
            K::Agg(es) => Val::A(es.iter().map(|(t, k)| self.kval(*t, k)).collect()),
            K::Bytes(b) => Val::A(b.iter().map(|x| Val::C(*x as u64)).collect()),
        }
    }
    fn opd(&mut self, t: TyId, v: V) -> Opd {
        match v {
            V::Reg(r) => r,
            V::K(k) => {
                let val = self.kval(t, &k);
                if let Val::C(x) = &val {
                    let key = (*x, false);
                    if let Some(&i) = self.cmap.get(&key) { return i | CONST; }
                    let i = self.m.consts.len() as u32;
                    self.m.consts.push(val);
                    self.cmap.insert(key, i);
                    return i | CONST;
                }
                let i = self.m.consts.len() as u32;
                self.m.consts.push(val);
                i | CONST
            }
        }
    }
    fn tyopd(&mut self) -> (TyId, Opd) { let (t, v) = self.tyval(); let o = self.opd(t, v); (t, o) }
    fn opd_of(&mut self, t: TyId) -> Opd { let v = self.val(t); self.opd(t, v) }
    fn label(&mut self) -> u32 {
        assert!(self.c.eat_kw("label"));
        self.c.expect(b'%');
        let n = self.c.name();
        self.blk(n)
    }
    fn define(&mut self) {
        self.c.ident();
        // return type: skip attrs up to a type
        self.skip_attrs_to_ty();
        let retty = self.ty();
        while self.c.peek() != b'@' { self.skip_one_attr(); }
        self.c.p += 1;
        let n = self.c.name();
        let fid = self.fids[n];
        self.regs.clear();
        self.blks.clear();
        self.c.expect(b'(');
        let mut nargs = 0;
        let mut unnamed: u32 = 0;
        if !self.c.eat(b')') {
            loop {
                if self.c.peek() == b'.' { self.c.p += 3; self.c.expect(b')'); break; }
                let _t = self.ty();
                // attrs
                while self.c.peek() != b'%' && self.c.peek() != b',' && self.c.peek() != b')' { self.skip_one_attr(); }
                if self.c.eat(b'%') {
                    let an = self.c.name();
                    if an[0].is_ascii_digit() { unnamed += 1; }
                    let r = self.reg(an);
                    assert_eq!(r, nargs);
                } else { let s: &'static [u8] = Box::leak(format!("{}", unnamed).into_bytes().into_boxed_slice()); unnamed += 1; let r = self.reg(s); assert_eq!(r, nargs); }
                nargs += 1;
                if self.c.eat(b')') { break; }
                self.c.expect(b',');
            }
        }
        // to end of line '{'
        self.c.eol();
        let mut blocks: Vec<Option<Vec<I>>> = vec![];
        let mut bnames: Vec<String> = vec![];
        let mut phis: Vec<Vec<(u32, Vec<(u32, Opd)>)>> = vec![]; // per block: (dst, [(pred, opd)])
        let mut cur: u32 = u32::MAX;
        let mut code: Vec<I> = vec![];
        let mut frame: u32 = 0;
        let mut curphis: Vec<(u32, Vec<(u32, Opd)>)> = vec![];
        loop {
            let ch = self.c.peek();
            if ch == b'}' { self.c.p += 1; break; }
            // label?
            let save = self.c.p;
            let lab: Option<&'a [u8]> = if ch == b'"' {
                let nm = self.c.name();
                if self.c.s[self.c.p] == b':' { self.c.p += 1; Some(nm) } else { self.c.p = save; None }
            } else if ch != b'%' {
                let nm = self.c.peek_ident();
                if !nm.is_empty() && self.c.s[self.c.p + nm.len()] == b':' { self.c.p += nm.len() + 1; Some(nm) } else { None }
            } else { None };
            if let Some(nm) = lab {
                if cur != u32::MAX { Self::put(&mut blocks, &mut phis, cur, &mut code, &mut curphis); }
                cur = self.blk(nm);
                if bnames.len() <= cur as usize { bnames.resize(cur as usize + 1, String::new()); }
                bnames[cur as usize] = String::from_utf8_lossy(nm).into();
                self.c.eol();
                continue;
            }
            if cur == u32::MAX {
                // implicit entry label
                let s: &'static [u8] = Box::leak(format!("{}", unnamed).into_bytes().into_boxed_slice());
                cur = self.blk(s);
            }
            self.instr(&mut code, &mut curphis, &mut frame);
        }
        Self::put(&mut blocks, &mut phis, cur, &mut code, &mut curphis);
        let nb = self.blks.len();
        blocks.resize(nb, None);
        phis.resize(nb, vec![]);
        bnames.resize(nb, String::new());
        // resolve moves
        let mut moves: Vec<Vec<(u32, Opd)>> = vec![vec![]];
        let mut mmap: HashMap<(u32, u32), u32> = HashMap::new();
        let mut blocks: Vec<Vec<I>> = blocks.into_iter().map(|b| b.unwrap_or_default()).collect();
        // entry must be block 0
        for b in 0..nb as u32 {
            let mut fix = |t: &mut Target| {
                if phis[t.block as usize].is_empty() { t.moves = 0; return; }
                let key = (b, t.block);
                if let Some(&i) = mmap.get(&key) { t.moves = i; return; }
                let mut mv = vec![];
                for (d, ins) in &phis[t.block as usize] {
                    let o = ins.iter().find(|x| x.0 == b).unwrap_or_else(|| panic!("phi without pred in {} b{} -> b{}", String::from_utf8_lossy(n), b, t.block)).1;
                    mv.push((*d, o));
                }
                let i = moves.len() as u32;
                moves.push(mv);
                mmap.insert(key, i);
                t.moves = i;
            };
            if let Some(last) = blocks[b as usize].last_mut() {
                match last {
                    I::Br(t) => fix(t),
                    I::CondBr(_, a, c) => { fix(a); fix(c); }
                    I::Switch(_, _, d, s) => { fix(d); for (_, t) in s.cases.iter_mut() { fix(t); } }
                    I::Call(c) => { if let Some(t) = c.normal.as_mut() { fix(t); } }
                    _ => {}
                }
            }
        }
        let f = &mut self.m.funcs[fid as usize];
        f.nargs = nargs;
        f.nregs = self.regs.len() as u32;
        f.frame_size = frame;
        f.blocks = blocks;
        f.block_names = bnames;
        f.moves = moves;
        f.retty = retty;
    }
    fn put(blocks: &mut Vec<Option<Vec<I>>>, phis: &mut Vec<Vec<(u32, Vec<(u32, Opd)>)>>, cur: u32, code: &mut Vec<I>, cp: &mut Vec<(u32, Vec<(u32, Opd)>)>) {
        if blocks.len() <= cur as usize { blocks.resize(cur as usize + 1, None); }
        if phis.len() <= cur as usize { phis.resize(cur as usize + 1, vec![]); }
        blocks[cur as usize] = Some(std::mem::take(code));
        phis[cur as usize] = std::mem::take(cp);
    }
    fn tgt(b: u32) -> Target { Target { block: b, moves: 0 } }
    fn instr(&mut self, code: &mut Vec<I>, phis: &mut Vec<(u32, Vec<(u32, Opd)>)>, frame: &mut u32) {
        let mut d = NOREG;
        if self.c.peek() == b'%' {
            self.c.p += 1;
            let n = self.c.name();
            d = self.reg(n);
            self.c.expect(b'=');
        }
        let op = self.c.ident();
        match op {
            b"ret" => {
                let t = self.ty();
                let o = if t == self.t_void { NOREG } else { self.opd_of(t) };
                code.push(I::Ret(o));
            }
            b"br" => {
                if self.c.peek_ident() == b"label" { let l = self.label(); code.push(I::Br(Self::tgt(l))); }
                else {
                    let (_, c) = self.tyopd();
                    self.c.expect(b',');
                    let a = self.label();
                    self.c.expect(b',');
                    let b = self.label();
                    code.push(I::CondBr(c, Self::tgt(a), Self::tgt(b)));
                }
            }
            b"switch" => {
                let (t, c) = self.tyopd();
                let w = self.m.types.width(t);
                self.c.expect(b',');
                let def = self.label();
                self.c.expect(b'[');
                let mut cases = vec![];
                while !self.c.eat(b']') {
                    let t = self.ty();
                    let k = self.konst(t);
                    let v = self.kint(&k) as u64;
                    self.c.expect(b',');
                    let l = self.label();
                    cases.push((v, Self::tgt(l)));
                }
                let map = cases.iter().enumerate().map(|(i, c)| (c.0, i as u32)).collect();
                code.push(I::Switch(c, w as u8, Self::tgt(def), Box::new(SwitchI { cases, map })));
            }
            b"unreachable" => code.push(I::Unreachable),
            b"resume" => { code.push(I::Unreachable); }
            b"phi" => {
                while !self.is_ty_start() { self.skip_one_attr(); }
                let t = self.ty();
                let mut ins = vec![];
                loop {
                    self.c.expect(b'[');
                    let o = self.opd_of(t);
                    self.c.expect(b',');
                    self.c.expect(b'%');
                    let n = self.c.name();
                    let b = self.blk(n);
                    self.c.expect(b']');
                    ins.push((b, o));
                    self.c.sp();
                    if self.c.s[self.c.p] == b',' {
                        // could be metadata
                        let save = self.c.p;
                        self.c.p += 1;
                        if self.c.peek() != b'[' { self.c.p = save; break; }
                    } else { break; }
                }
                phis.push((d, ins));
            }
            b"alloca" => {
                let t = self.ty();
                let mut n = 1u64;
                let mut align = self.m.types.align[t as usize];
                while self.c.s[self.c.p] == b',' {
                    self.c.p += 1;
                    if self.c.eat_kw("align") { align = self.c.int() as u64; } else if self.is_ty_start() { let t = self.ty(); let k = self.konst(t); n = self.kint(&k) as u64; } else { break; }
                }
                let sz = self.m.types.size[t as usize] * n;
                let off = (*frame as u64 + align - 1) / align * align;
                *frame = (off + sz) as u32;
                code.push(I::Alloca(d, off as u32));
            }
            b"load" => {
                loop { let id = self.c.peek_ident(); if id == b"volatile" || id == b"atomic" { self.c.ident(); } else { break; } }
                let t = self.ty();
                self.c.expect(b',');
                let (_, p) = self.tyopd();
                code.push(I::Load(d, p, t));
            }
            b"store" => {
                loop { let id = self.c.peek_ident(); if id == b"volatile" || id == b"atomic" { self.c.ident(); } else { break; } }
                let (t, v) = self.tyopd();
                self.c.expect(b',');
                let (_, p) = self.tyopd();
                code.push(I::Store(v, p, t));
            }
            b"getelementptr" => {
                while !self.is_ty_start() { self.skip_one_attr(); }
                let bt = self.ty();
                self.c.expect(b',');
                let (pt, base) = self.tyopd();
                if self.m.types.width(pt) == 0 { self.c.fail("vector gep"); }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = bt;
                let mut first = true;
                loop {
                    self.c.sp();
                    if self.c.s[self.c.p] != b',' { break; }
                    let save = self.c.p;
                    self.c.p += 1;
                    if !self.is_ty_start() { self.c.p = save; break; }
                    let (it, iv) = self.tyval();
                    let iw = self.m.types.width(it);
                    match iv {
                        V::K(k) => {
                            let i = sext128(self.kint(&k), iw) as i64;
                            if first { off = off.wrapping_add(i.wrapping_mul(self.m.types.size[cur as usize] as i64)); }
                            else if let Ty::Struct(..) = self.m.types.tys[cur as usize] { let (mt, o) = self.m.types.member(cur, i as u64); off += o as i64; cur = mt; }
                            else { let (mt, _) = self.m.types.member(cur, 0); off = off.wrapping_add(i.wrapping_mul(self.m.types.size[mt as usize] as i64)); cur = mt; }
                        }
                        V::Reg(r) => {
                            if !first { let (mt, _) = self.m.types.member(cur, 0); cur = mt; }
                            idx.push((r, iw as u8, self.m.types.size[cur as usize] as i64));
                        }
                    }
                    first = false;
                }
                code.push(I::Gep(d, base, off, idx.into()));
            }
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"and" | b"or" | b"xor" | b"shl" | b"lshr" | b"ashr" => {
                while !self.is_ty_start() { self.skip_one_attr(); }
                let t = self.ty();
                let a = self.opd_of(t);
                self.c.expect(b',');
                let b = self.opd_of(t);
                let o = match op { b"add" => BinOp::Add, b"sub" => BinOp::Sub, b"mul" => BinOp::Mul, b"udiv" => BinOp::UDiv, b"sdiv" => BinOp::SDiv, b"urem" => BinOp::URem, b"srem" => BinOp::SRem, b"and" => BinOp::And, b"or" => BinOp::Or, b"xor" => BinOp::Xor, b"shl" => BinOp::Shl, b"lshr" => BinOp::LShr, _ => BinOp::AShr };
                let w = self.m.types.width(t);
                if w > 0 { code.push(I::Bin(o, w as u8, d, a, b)); } else { let (e, _) = self.m.types.member(t, 0); let w = self.m.types.width(e); code.push(I::VBin(o, w as u8, d, a, b)); }
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                while !self.is_ty_start() { self.skip_one_attr(); }
                let t = self.ty();
                let a = self.opd_of(t);
                self.c.expect(b',');
                let b = self.opd_of(t);
                let w = self.m.types.width(t);
                if w == 0 { self.c.fail("vector fp"); }
                let o = match op { b"fadd" => FOp::Add, b"fsub" => FOp::Sub, b"fmul" => FOp::Mul, b"fdiv" => FOp::Div, _ => FOp::Rem };
                code.push(I::FBin(o, w as u8, d, a, b));
            }
            b"fneg" => {
                while !self.is_ty_start() { self.skip_one_attr(); }
                let (t, a) = self.tyopd();
                code.push(I::FNeg(self.m.types.width(t) as u8, d, a));
            }
            b"icmp" => {
                let mut p = self.c.ident();
                if p == b"samesign" { p = self.c.ident(); }
                let pr = match p { b"eq" => Pred::Eq, b"ne" => Pred::Ne, b"ugt" => Pred::Ugt, b"uge" => Pred::Uge, b"ult" => Pred::Ult, b"ule" => Pred::Ule, b"sgt" => Pred::Sgt, b"sge" => Pred::Sge, b"slt" => Pred::Slt, b"sle" => Pred::Sle, _ => self.c.fail("pred") };
                let t = self.ty();
                let a = self.opd_of(t);
                self.c.expect(b',');
                let b = self.opd_of(t);
                let w = self.m.types.width(t);
                if w > 0 { code.push(I::ICmp(pr, w as u8, d, a, b)); } else { let (e, _) = self.m.types.member(t, 0); let w = self.m.types.width(e); code.push(I::VICmp(pr, w as u8, d, a, b)); }
            }
            b"fcmp" => {
                let mut p = self.c.ident();
                loop {
                    let pr = match p { b"false" => FPred::False, b"oeq" => FPred::Oeq, b"ogt" => FPred::Ogt, b"oge" => FPred::Oge, b"olt" => FPred::Olt, b"ole" => FPred::Ole, b"one" => FPred::One, b"ord" => FPred::Ord, b"ueq" => FPred::Ueq, b"ugt" => FPred::Ugt, b"uge" => FPred::Uge, b"ult" => FPred::Ult, b"ule" => FPred::Ule, b"une" => FPred::Une, b"uno" => FPred::Uno, b"true" => FPred::True, _ => { p = self.c.ident(); continue; } };
                    let t = self.ty();
                    let a = self.opd_of(t);
                    self.c.expect(b',');
                    let b = self.opd_of(t);
                    let w = self.m.types.width(t);
                    if w == 0 { self.c.fail("vector fcmp"); }
                    code.push(I::FCmp(pr, w as u8, d, a, b));
                    break;
                }
            }
            b"trunc" | b"zext" | b"sext" | b"fptoui" | b"fptosi" | b"uitofp" | b"sitofp" | b"fpext" | b"fptrunc" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"ptrtoaddr" | b"addrspacecast" => {
                while !self.is_ty_start() { self.skip_one_attr(); }
                let (t, a) = self.tyopd();
                assert!(self.c.eat_kw("to"));
                let t2 = self.ty();
                let (w1, w2) = (self.m.types.width(t), self.m.types.width(t2));
                if op == b"bitcast" {
                    if w1 > 0 && w2 > 0 { code.push(I::Mov(d, a)); } else { code.push(I::BitCast(d, a, t, t2)); }
                } else {
                    let mut o = match op { b"trunc" => CastOp::Trunc, b"zext" => CastOp::ZExt, b"sext" => CastOp::SExt, b"fptoui" => CastOp::FpToUi, b"fptosi" => CastOp::FpToSi, b"uitofp" => CastOp::UiToFp, b"sitofp" => CastOp::SiToFp, b"fpext" => CastOp::FpExt, b"fptrunc" => CastOp::FpTrunc, _ => CastOp::Same };
                    if o == CastOp::Same && w1 > 0 { o = if w1 < w2 { CastOp::ZExt } else if w1 > w2 { CastOp::Trunc } else { CastOp::Same }; }
                    if w1 > 0 { if o == CastOp::Same { code.push(I::Mov(d, a)); } else { code.push(I::Cast(o, w1 as u8, w2 as u8, d, a)); } }
                    else {
                        let (e1, _) = self.m.types.member(t, 0);
                        let (e2, _) = self.m.types.member(t2, 0);
                        code.push(I::VCast(o, self.m.types.width(e1) as u8, self.m.types.width(e2) as u8, d, a));
                    }
                }
            }
            b"freeze" => { let (_, a) = self.tyopd(); code.push(I::Mov(d, a)); }
            b"select" => {
                while !self.is_ty_start() { self.skip_one_attr(); }
                let (ct, c) = self.tyopd();
                let _ = ct;
                self.c.expect(b',');
                let (t, a) = self.tyopd();
                self.c.expect(b',');
                let (_, b) = self.tyopd();
                code.push(I::Select(d, c, a, b, t));
            }
            b"extractvalue" => {
                let (_, a) = self.tyopd();
                let ix = self.idxs();
                code.push(I::ExtractValue(d, a, ix));
            }
            b"insertvalue" => {
                let (_, a) = self.tyopd();
                self.c.expect(b',');
                let (_, v) = self.tyopd();
                let ix = self.idxs();
                code.push(I::InsertValue(d, a, v, ix));
            }
            b"extractelement" => { let (_, a) = self.tyopd(); self.c.expect(b','); let (_, i) = self.tyopd(); code.push(I::ExtractElem(d, a, i)); }
            b"insertelement" => { let (_, a) = self.tyopd(); self.c.expect(b','); let (_, v) = self.tyopd(); self.c.expect(b','); let (_, i) = self.tyopd(); code.push(I::InsertElem(d, a, v, i)); }
            b"shufflevector" => {
                let (_, a) = self.tyopd();
                self.c.expect(b',');
                let (_, b) = self.tyopd();
                self.c.expect(b',');
                let mt = self.ty();
                let k = self.konst(mt);
                let n = self.m.types.nmembers(mt) as usize;
                let mask: Vec<i32> = match k { K::Zero => vec![0; n], K::Agg(es) => es.iter().map(|e| self.kint(&e.1) as i32).collect(), _ => self.c.fail("mask") };
                code.push(I::Shuffle(d, a, b, mask.into()));
            }
            b"fence" => code.push(I::Nop),
            b"atomicrmw" => {
                self.c.eat_kw("volatile");
                let o = self.c.ident();
                let k = match o { b"xchg" => 0, b"add" => 1, b"sub" => 2, b"and" => 3, b"or" => 4, b"xor" => 5, b"umax" => 6, b"umin" => 7, b"nand" => 8, b"max" => 9, b"min" => 10, _ => self.c.fail("rmw") };
                let (_, p) = self.tyopd();
                self.c.expect(b',');
                let (t, v) = self.tyopd();
                code.push(I::AtomicRmw(k, d, p, v, t));
            }
            b"cmpxchg" => {
                loop { let id = self.c.peek_ident(); if id == b"weak" || id == b"volatile" { self.c.ident(); } else { break; } }
                let (_, p) = self.tyopd();
                self.c.expect(b',');
                let (t, c) = self.tyopd();
                self.c.expect(b',');
                let (_, n) = self.tyopd();
                code.push(I::CmpXchg(d, p, c, n, t));
            }
            b"landingpad" => { self.ty(); loop { let id = self.c.peek_ident(); if id == b"cleanup" { self.c.ident(); } else if id == b"catch" || id == b"filter" { self.c.eol(); } else { break; } } code.push(I::Nop); return; }
            b"call" | b"tail" | b"musttail" | b"notail" | b"invoke" => {
                if op == b"tail" || op == b"musttail" || op == b"notail" { self.c.ident(); }
                self.skip_attrs_to_ty();
                let rt = self.ty();
                if self.c.peek() == b'(' { self.c.skip_parens(); }
                let callee;
                if self.c.peek() == b'@' {
                    self.c.p += 1;
                    let n = self.c.name();
                    callee = Callee::Func(*self.fids.get(n).unwrap_or_else(|| panic!("callee {}", String::from_utf8_lossy(n))));
                } else if self.c.peek_ident() == b"asm" {
                    self.c.ident();
                    while self.c.peek() != b'"' { self.c.ident(); }
                    let s = self.c.string();
                    self.c.expect(b',');
                    self.c.string();
                    callee = Callee::Asm(String::from_utf8_lossy(&s).into());
                } else {
                    let pt = self.t_ptr;
                    let o = self.opd_of(pt);
                    callee = Callee::Ind(o);
                }
                self.c.expect(b'(');
                let mut args = vec![];
                let mut tys = vec![];
                if !self.c.eat(b')') {
                    loop {
                        let t = self.ty();
                        if let Ty::Meta = self.m.types.tys[t as usize] {
                            let mut depth = 0;
                            loop { let ch = self.c.s[self.c.p]; if depth == 0 && (ch == b',' || ch == b')') { break; } if ch == b'(' || ch == b'{' { depth += 1; } if ch == b')' || ch == b'}' { depth -= 1; } self.c.p += 1; }
                        } else {
                            self.skip_attrs_to_val();
                            let v = self.val(t);
                            args.push(self.opd(t, v));
                            tys.push(t);
                        }
                        if self.c.eat(b')') { break; }
                        self.c.expect(b',');
                    }
                }
                let mut normal = None;
                if op == b"invoke" {
                    loop {
                        self.c.ws();
                        if self.c.peek_ident() == b"to" { break; }
                        if self.c.peek() == b'[' { while self.c.s[self.c.p] != b']' { self.c.p += 1; } self.c.p += 1; continue; }
                        self.skip_one_attr();
                    }
                    self.c.ident();
                    let l = self.label();
                    assert!(self.c.eat_kw("unwind"));
                    self.label();
                    normal = Some(Self::tgt(l));
                }
                let _ = self.t_i1;
                code.push(I::Call(Box::new(CallI { d, callee, args: args.into(), argtys: tys.into(), retty: rt, normal })));
            }
            _ => self.c.fail(&format!("instr {}", String::from_utf8_lossy(op))),
        }
        self.c.eol();
    }
    fn idxs(&mut self) -> Box<[u32]> {
        let mut v = vec![];
        loop {
            self.c.sp();
            if self.c.s[self.c.p] != b',' { break; }
            self.c.p += 1;
            self.c.sp();
            if !self.c.s[self.c.p].is_ascii_digit() { break; }
            v.push(self.c.int() as u32);
        }
        v.into()
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 || w == 0 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
