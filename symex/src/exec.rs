//! Symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { func: u32, block: u32, ip: u32, obj: u64, ret: u32, regs: Vec<Val> }
pub struct Model { id: u64, v: Vec<u128> }
#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Vec<E>,
    model: Rc<Model>,
    inputs: Vec<u32>,
    instrs: u64,
    depth: u32,
    errno: u64,
    rnd: u64,
}
pub enum Stop { Done, Assume, Panic(String), Incomplete(String), Hang }
impl From<MemErr> for Stop { fn from(e: MemErr) -> Stop { Stop::Incomplete(format!("memory: {}", e.0)) } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ext {
    None, Panic, PanicFmt, Abort,
    Malloc, Calloc, Realloc, PosixMemalign, Free, Memcmp, Bcmp, Strlen, Errno,
    Ret0, RetM1, RetNull, Write, Clock, GetRandom, RandomOk, Syscall, Sysconf, Gettid, Getcwd,
    Sym, Assume, Assert, Reach, SymBytes, Concretize, IsSym,
    Memcpy, Memset, Nop, Expect, UMin, UMax, SMin, SMax, UAddSat, USubSat, SAddSat, SSubSat,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO, Scmp, Ucmp, Bswap, BitRev, Ctlz, Cttz, Ctpop, Fshl, Fshr, Abs,
    FpToSiSat, FpToUiSat, Tls, Trap, Round, Floor, Ceil, Trunc, Rint, FAbs, FMax, FMin, CopySign, IsConst, ReduceOr, ReduceAnd, ReduceAdd, Xgetbv, Sqrt, Fma, Objsize, IsFpClass, Unsupported,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub done: u64, pub assumed_away: u64, pub panics: u64, pub forks: u64, pub instrs: u64, pub branches: u64, pub cache_hits: u64, pub cex_hits: u64, pub mismatches: u64, pub asserts: u64, pub assert_queries: u64, pub conc: u64, pub max_depth: u32, pub max_inputs: usize,
}
pub struct Violation { pub key: String, pub msg: String, pub inputs: Vec<(u32, u64)>, pub stack: Vec<String> }

pub struct Limits { pub time: f64, pub paths: u64, pub path_instrs: u64, pub max_violations: usize, pub samples: usize }

pub struct Exec {
    m: &'static Module,
    ext: Vec<Ext>,
    redirect: Vec<u32>,
    pub ar: Arena,
    pub z3: Z3,
    work: Vec<State>,
    pub st: Stats,
    cache: HashMap<Vec<E>, Option<Option<Rc<Vec<(u32, u128)>>>>>,
    recent: Vec<Rc<Model>>,
    model_ctr: u64,
    cur_model: u64,
    inmap: HashMap<(u32, u32), u32>,
    varexpr: Vec<E>,
    pub violations: Vec<Violation>,
    vkeys: BTreeMap<String, u32>,
    pub incomplete: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub samples: Vec<Vec<(u32, u64)>>,
    pub lim: Limits,
    pub t0: Instant,
    pub funcs_seen: Vec<bool>,
    pub fork_sites: HashMap<(u32, u32), u64>,
    tmp: Vec<Val>,
    pub trace: bool,
}

fn cval(v: u128, w: u32) -> Val { if w <= 64 { Val::C(v as u64) } else { Val::W(Rc::new(v)) } }

impl Exec {
    pub fn new(m: &'static Module, lim: Limits, timeout_ms: u32) -> Exec {
        let ext = m.funcs.iter().map(classify).collect();
        // the harness may define its own file system calls
        let redirect = m.funcs.iter().enumerate().map(|(i, f)| {
            let to = match f.name.as_str() { "open64" => "vhfs_open", "write" => "vhfs_write", "read" => "vhfs_read", "close" => "vhfs_close", _ => return i as u32 };
            match m.func_by_name.get(to) { Some(&k) if !f.defined && m.funcs[k as usize].defined => k, _ => i as u32 }
        }).collect();
        Exec {
            m, ext, redirect, ar: Arena::new(), z3: Z3::new(timeout_ms), work: vec![], st: Stats::default(), cache: HashMap::new(), recent: vec![], model_ctr: 1, cur_model: 0,
            inmap: HashMap::new(), varexpr: vec![], violations: vec![], vkeys: BTreeMap::new(), incomplete: BTreeMap::new(), reach: BTreeMap::new(), samples: vec![], lim, t0: Instant::now(),
            funcs_seen: vec![false; m.funcs.len()], fork_sites: HashMap::new(), tmp: vec![], trace: false,
        }
    }
    fn mk_model(&mut self, v: Vec<u128>) -> Rc<Model> { self.model_ctr += 1; Rc::new(Model { id: self.model_ctr, v }) }
    fn ev(&mut self, st_model: &Rc<Model>, e: E) -> u128 {
        if self.cur_model != st_model.id { self.ar.new_gen(); self.cur_model = st_model.id; }
        self.ar.eval(e, &st_model.v)
    }
    fn val_e(&mut self, v: &Val, w: u32) -> E {
        match v { Val::C(x) => self.ar.konst(*x as u128, w), Val::S(e) => *e, Val::W(x) => self.ar.konst(**x, w), Val::A(_) => panic!("aggregate as scalar") }
    }
    fn e_val(&self, e: E) -> Val { match self.ar.cv(e) { Some(v) => cval(v, self.ar.w(e)), None => Val::S(e) } }

    pub fn run(&mut self, entry: u32, case: u64) {
        let f = &self.m.funcs[entry as usize];
        let mut mem = Mem::new(self.m);
        let errno = mem.alloc(8);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        if f.nargs > 0 { regs[0] = Val::C(case); }
        let obj = if f.frame_size > 0 { mem.alloc(f.frame_size as usize) } else { 0 };
        let model = self.mk_model(vec![]);
        let st = State { frames: vec![Rc::new(Frame { func: entry, block: 0, ip: 0, obj, ret: NOREG, regs })], mem, pc: vec![], model, inputs: vec![], instrs: 0, depth: 0, errno, rnd: 0 };
        self.funcs_seen[entry as usize] = true;
        self.work.push(st);
        while let Some(s) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.lim.time { *self.incomplete.entry("time budget".into()).or_default() += 1 + self.work.len() as u64; break; }
            if self.st.paths >= self.lim.paths { *self.incomplete.entry("path budget".into()).or_default() += 1 + self.work.len() as u64; break; }
            if self.violations.len() >= self.lim.max_violations { *self.incomplete.entry("stopped after violations".into()).or_default() += 1; break; }
            self.run_state(s);
        }
    }
    fn inputs_of(&mut self, s: &State) -> Vec<(u32, u64)> {
        let model = s.model.clone();
        s.inputs.iter().map(|&v| (self.ar.varw[v as usize] as u32, model.v.get(v as usize).copied().unwrap_or(0) as u64)).collect()
    }
    fn stack(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().take(14).map(|f| format!("{} [{}:{}]", self.m.funcs[f.func as usize].pretty, self.m.funcs[f.func as usize].block_names.get(f.block as usize).cloned().unwrap_or_default(), f.ip)).collect()
    }
    fn violation(&mut self, s: &State, key: String, msg: String) {
        let n = self.vkeys.entry(key.clone()).or_default();
        *n += 1;
        if *n > 2 { return; }
        let inputs = self.inputs_of(s);
        let stack = self.stack(s);
        self.violations.push(Violation { key, msg, inputs, stack });
    }
    fn run_state(&mut self, mut s: State) {
        let r = self.exec(&mut s);
        self.st.paths += 1;
        self.st.max_depth = self.st.max_depth.max(s.depth);
        self.st.max_inputs = self.st.max_inputs.max(s.inputs.len());
        match r {
            Stop::Done => {
                self.st.done += 1;
                if self.samples.len() < self.lim.samples { let i = self.inputs_of(&s); self.samples.push(i); }
                else if self.lim.samples > 0 && self.st.done % 17 == 0 { let k = (self.st.done / 17) as usize % self.lim.samples; let i = self.inputs_of(&s); self.samples[k] = i; }
            }
            Stop::Assume => self.st.assumed_away += 1,
            Stop::Panic(m) => { self.st.panics += 1; self.violation(&s, format!("panic {}", m), m); }
            Stop::Hang => { self.violation(&s, "hang".into(), "path instruction limit exceeded (possible non-termination)".into()); *self.incomplete.entry("path instruction limit".into()).or_default() += 1; }
            Stop::Incomplete(m) => {
                if self.trace { eprintln!("INCOMPLETE {} at {:#?}", m, self.stack(&s)); }
                *self.incomplete.entry(m).or_default() += 1;
            }
        }
    }
    // ---------- solver interface
    fn vars_of(&self, es: &[E]) -> Vec<u32> {
        if self.ar.nvars <= 128 {
            let mut m = 0u128;
            for &e in es { m |= self.ar.sup[e as usize]; }
            return (0..self.ar.nvars).filter(|v| m >> v & 1 == 1).collect();
        }
        let mut seen: std::collections::HashSet<E> = Default::default();
        let mut out = vec![];
        let mut stack: Vec<E> = es.to_vec();
        while let Some(e) = stack.pop() {
            if !seen.insert(e) { continue; }
            let n = self.ar.nodes[e as usize];
            match n.op {
                Op::Const => {}
                Op::Var => out.push(n.a),
                Op::Not | Op::ZExt | Op::SExt | Op::Extract | Op::FToUi | Op::FToSi | Op::UiToF | Op::SiToF | Op::FExt | Op::FTrunc | Op::FRound => stack.push(n.a),
                Op::Ite => { stack.push(n.a); stack.push(n.b); stack.push(n.c); }
                _ => { stack.push(n.a); stack.push(n.b); }
            }
        }
        out.sort();
        out
    }
    /// None: infeasible; Some(Ok(model)); Some(Err) unknown
    fn feasible(&mut self, pc: &[E], model: &Rc<Model>, cond: E) -> Option<Result<Rc<Model>, ()>> {
        if let Some(v) = self.ar.cv(cond) { return if v == 1 { Some(Ok(model.clone())) } else { None }; }
        let mut s = self.ar.sup[cond as usize];
        let mut inc = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if !inc[i] && self.ar.sup[c as usize] & s != 0 { inc[i] = true; s |= self.ar.sup[c as usize]; ch = true; }
            }
            if !ch { break; }
        }
        let mut key: Vec<E> = pc.iter().enumerate().filter(|(i, _)| inc[*i]).map(|x| *x.1).collect();
        key.push(cond);
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            match r {
                None => return Some(Err(())),
                Some(None) => return None,
                Some(Some(vals)) => {
                    let vals = vals.clone();
                    let m = self.patch(model, &vals);
                    return Some(Ok(m));
                }
            }
        }
        // try recent models
        for k in (0..self.recent.len()).rev() {
            let m = self.recent[k].clone();
            self.ar.new_gen();
            self.cur_model = 0;
            if self.ar.eval(cond, &m.v) == 1 && key.iter().all(|&e| self.ar.eval(e, &m.v) == 1) {
                self.st.cex_hits += 1;
                let vars = self.vars_of(&key);
                let vals: Vec<(u32, u128)> = vars.iter().map(|&v| (v, m.v.get(v as usize).copied().unwrap_or(0))).collect();
                let r = self.patch(model, &vals);
                self.cache.insert(key, Some(Some(Rc::new(vals))));
                return Some(Ok(r));
            }
        }
        let vars = self.vars_of(&key);
        let tq = Instant::now();
        let res = self.z3.check(&self.ar, &key, &vars);
        if self.trace && tq.elapsed().as_secs_f64() > 0.5 { eprintln!("slow query {:.2}s: {} constraints; cond {}", tq.elapsed().as_secs_f64(), key.len(), self.ar.show(cond, 6)); }
        match res {
            Res::Unsat => { self.cache.insert(key, Some(None)); None }
            Res::Unknown => { self.cache.insert(key, None); Some(Err(())) }
            Res::Sat(vals) => {
                let m = self.patch(model, &vals);
                self.ar.new_gen();
                self.cur_model = 0;
                for &e in &key {
                    if self.ar.eval(e, &m.v) != 1 {
                        self.st.mismatches += 1;
                        if self.trace { eprintln!("model mismatch on {}", self.ar.show(e, 8)); }
                        self.cache.insert(key, None);
                        return Some(Err(()));
                    }
                }
                self.cache.insert(key, Some(Some(Rc::new(vals))));
                self.recent.push(m.clone());
                if self.recent.len() > 6 { self.recent.remove(0); }
                Some(Ok(m))
            }
        }
    }
    fn patch(&mut self, model: &Rc<Model>, vals: &[(u32, u128)]) -> Rc<Model> {
        let mut v = model.v.clone();
        for &(i, x) in vals { if v.len() <= i as usize { v.resize(i as usize + 1, 0); } v[i as usize] = x; }
        self.mk_model(v)
    }
    fn add_pc(&mut self, pc: &mut Vec<E>, e: E) {
        if self.ar.cv(e) == Some(1) { return; }
        let n = self.ar.nodes[e as usize];
        if n.op == Op::And && n.w == 1 { self.add_pc(pc, n.a); self.add_pc(pc, n.b); return; }
        if !pc.contains(&e) { pc.push(e); }
    }
    fn unknown(&mut self, what: &str) { *self.incomplete.entry(format!("solver unknown ({})", what)).or_default() += 1; }

    /// Make `v` concrete on this path; other values are explored by forked states that re-execute the instruction.
    fn conc(&mut self, s: &mut State, v: &Val, w: u32) -> Result<u128, Stop> {
        match v {
            Val::C(x) => Ok(*x as u128),
            Val::W(x) => Ok(**x),
            Val::A(_) => panic!("conc aggregate"),
            Val::S(e) => {
                let e = *e;
                let x = self.ev(&s.model.clone(), e);
                let k = self.ar.konst(x, w);
                let eq = self.ar.eq(e, k);
                let ne = self.ar.not(eq);
                self.st.conc += 1;
                match self.feasible(&s.pc, &s.model.clone(), ne) {
                    None => {}
                    Some(Err(())) => { self.unknown("concretize"); self.add_pc(&mut s.pc, eq); }
                    Some(Ok(m)) => {
                        let mut o = s.clone();
                        self.add_pc(&mut o.pc, ne);
                        o.model = m;
                        o.depth += 1;
                        self.note_fork(s);
                        self.work.push(o);
                        self.add_pc(&mut s.pc, eq);
                    }
                }
                Ok(x)
            }
        }
    }
    fn note_fork(&mut self, s: &State) {
        self.st.forks += 1;
        let f = s.frames.last().unwrap();
        *self.fork_sites.entry((f.func, f.block)).or_default() += 1;
    }
    // ---------- memory access
    fn load(&mut self, s: &mut State, p: &Val, ty: TyId) -> Result<Val, Stop> {
        let a = match p {
            Val::C(a) => *a,
            Val::S(e) => return self.load_sym(s, *e, ty),
            _ => panic!("load ptr"),
        };
        self.load_at(s, a, ty)
    }
    fn load_at(&mut self, s: &State, a: u64, ty: TyId) -> Result<Val, Stop> {
        let w = self.m.types.width(ty);
        if w > 0 {
            let n = (w as usize + 7) / 8;
            let off = a as u32 as usize;
            let o = s.mem.range(a, n)?;
            if o.sym.is_none() || !o.has_sym(off, n) {
                let d = &o.data[off..off + n];
                let v = match n {
                    1 => d[0] as u64,
                    2 => u16::from_le_bytes([d[0], d[1]]) as u64,
                    4 => u32::from_le_bytes(d.try_into().unwrap()) as u64,
                    8 => u64::from_le_bytes(d.try_into().unwrap()),
                    _ => { let mut v = 0u128; for (i, b) in d.iter().enumerate() { v |= (*b as u128) << (8 * i); } return Ok(cval(v & mask(w), w)); }
                };
                return Ok(Val::C(v & mask64(w)));
            }
            let bytes: Vec<Result<u8, E>> = (off..off + n).map(|i| match o.sym.as_ref().unwrap().get(&(i as u32)) { Some(e) => Err(*e), None => Ok(o.data[i]) }).collect();
            let mut acc: Option<E> = None;
            for b in bytes {
                let e = match b { Ok(x) => self.ar.konst(x as u128, 8), Err(e) => e };
                acc = Some(match acc { None => e, Some(l) => self.ar.concat(e, l) });
            }
            let mut e = acc.unwrap();
            if self.ar.w(e) > w { e = self.ar.extract(e, w - 1, 0); }
            return Ok(self.e_val(e));
        }
        if let Ty::Vector(n, et) = self.m.types.tys[ty as usize] {
            if self.m.types.width(et) == 1 {
                let mut out = vec![];
                let i8t = self.m.types.width(et);
                let _ = i8t;
                for i in 0..n {
                    let byte = self.load_byte(s, a + i / 8)?;
                    let bit = self.bit_of(&byte, (i % 8) as u32, 8);
                    out.push(bit);
                }
                return Ok(Val::A(out.into()));
            }
        }
        let n = self.m.types.nmembers(ty);
        let mut out = Vec::with_capacity(n as usize);
        for i in 0..n { let (mt, o) = self.m.types.member(ty, i); out.push(self.load_at(s, a + o, mt)?); }
        Ok(Val::A(out.into()))
    }
    fn bit_of(&mut self, v: &Val, i: u32, w: u32) -> Val {
        match v { Val::C(x) => Val::C(x >> i & 1), _ => { let e = self.val_e(v, w); let r = self.ar.extract(e, i, i); self.e_val(r) } }
    }
    fn load_byte(&mut self, s: &State, a: u64) -> Result<Val, Stop> {
        let o = s.mem.range(a, 1)?;
        let off = a as u32;
        if let Some(m) = &o.sym { if let Some(e) = m.get(&off) { return Ok(Val::S(*e)); } }
        Ok(Val::C(o.data[off as usize] as u64))
    }
    fn low_known(&self, e: E) -> (u32, u128) {
        // number of known low bits and their value
        let n = self.ar.nodes[e as usize];
        match n.op {
            Op::Const => (n.w as u32, self.ar.consts[n.a as usize]),
            Op::Concat => { let wl = self.ar.w(n.b); let (k, v) = self.low_known(n.b); if k == wl { let (k2, v2) = self.low_known(n.a); (k + k2, v | (v2 << wl)) } else { (k, v) } }
            Op::ZExt | Op::SExt => { let wa = self.ar.w(n.a); let (k, v) = self.low_known(n.a); (k.min(wa), v) }
            Op::Add => { let (k1, v1) = self.low_known(n.a); let (k2, v2) = self.low_known(n.b); let k = k1.min(k2); (k, v1.wrapping_add(v2) & mask(k)) }
            Op::Sub => { let (k1, v1) = self.low_known(n.a); let (k2, v2) = self.low_known(n.b); let k = k1.min(k2); (k, v1.wrapping_sub(v2) & mask(k)) }
            Op::Mul => { if let Some(k) = self.ar.cv(n.b) { (k.trailing_zeros().min(64), 0) } else { (0, 0) } }
            Op::Ite => { let (k1, v1) = self.low_known(n.b); let (k2, v2) = self.low_known(n.c); let mut k = k1.min(k2); while k > 0 && (v1 ^ v2) & mask(k) != 0 { k -= 1; } (k, v1 & mask(k)) }
            _ => (0, 0),
        }
    }
    fn ite_leaves(&self, e: E, out: &mut usize) -> bool {
        let n = self.ar.nodes[e as usize];
        match n.op {
            Op::Const => { *out += 1; *out <= 64 }
            Op::Ite => self.ite_leaves(n.b, out) && self.ite_leaves(n.c, out),
            _ => false,
        }
    }
    fn load_ite(&mut self, s: &State, e: E, ty: TyId) -> Result<Val, Stop> {
        if let Some(a) = self.ar.cv(e) { return self.load_at(s, a as u64, ty); }
        let n = self.ar.nodes[e as usize];
        let x = self.load_ite(s, n.b, ty)?;
        let y = self.load_ite(s, n.c, ty)?;
        Ok(self.sel(n.a, &x, &y, ty))
    }
    fn sel(&mut self, c: E, x: &Val, y: &Val, ty: TyId) -> Val {
        let w = self.m.types.width(ty);
        if w > 0 {
            if let (Val::C(a), Val::C(b)) = (x, y) { if a == b { return Val::C(*a); } }
            let (a, b) = (self.val_e(x, w), self.val_e(y, w));
            let r = self.ar.ite(c, a, b);
            return self.e_val(r);
        }
        if let (Val::A(a), Val::A(b)) = (x, y) {
            let mut out = vec![];
            for i in 0..a.len() { let (mt, _) = self.m.types.member(ty, i as u64); out.push(self.sel(c, &a[i], &b[i], mt)); }
            return Val::A(out.into());
        }
        panic!("sel")
    }
    fn load_sym(&mut self, s: &mut State, e: E, ty: TyId) -> Result<Val, Stop> {
        let w = self.m.types.width(ty);
        let size = self.m.types.size[ty as usize];
        let mut cnt = 0;
        if self.ite_leaves(e, &mut cnt) {
            // all leaves must be valid addresses; otherwise concretise
            let mut st = vec![e];
            let mut ok = true;
            while let Some(x) = st.pop() {
                if let Some(a) = self.ar.cv(x) { if s.mem.range(a as u64, size as usize).is_err() { ok = false; break; } }
                else { let n = self.ar.nodes[x as usize]; st.push(n.b); st.push(n.c); }
            }
            if ok { return self.load_ite(s, e, ty); }
        }
        if w == 0 { let a = self.conc(s, &Val::S(e), 64)?; return self.load_at(s, a as u64, ty); }
        let v = self.ev(&s.model.clone(), e) as u64;
        let base = v & !0xffff_ffff;
        let osz = match s.mem.size_of(v) { Some(z) => z, None => { let a = self.conc(s, &Val::S(e), 64)?; return self.load_at(s, a as u64, ty); } };
        let (mut lo, mut hi) = (self.ar.lo[e as usize], self.ar.hi[e as usize]);
        let n = (w as u64 + 7) / 8;
        if n > osz { let a = self.conc(s, &Val::S(e), 64)?; return self.load_at(s, a as u64, ty); }
        let be = self.ar.konst(base as u128, 64);
        let off = self.ar.sub(e, be);
        if lo < base || hi > base + osz - n {
            let lim = self.ar.konst((osz - n) as u128, 64);
            let oob = self.ar.ult(lim, off);
            match self.feasible(&s.pc, &s.model.clone(), oob) {
                None => {}
                _ => { let a = self.conc(s, &Val::S(e), 64)?; return self.load_at(s, a as u64, ty); }
            }
            lo = lo.max(base);
            hi = hi.min(base + osz - n);
        }
        let (k, kv) = self.low_known(e);
        let k = k.min(12);
        let stride = 1u64 << k;
        let kv = kv as u64 & (stride - 1);
        let first = if lo & (stride - 1) <= kv { (lo & !(stride - 1)) + kv } else { (lo & !(stride - 1)) + stride + kv };
        if hi < first { return Err(Stop::Incomplete("symbolic load range".into())); }
        let mut cntc = (hi - first) / stride + 1;
        let mut first = first;
        if cntc > 64 {
            // tighten with the solver: feasible upper bound by halving
            let (mut a, mut b) = (0u64, cntc); // indices [a,b)
            while b - a > 64 {
                let mid = a + (b - a) / 2;
                let km = self.ar.konst((first - base + mid * stride) as u128, 64);
                let inlow = self.ar.ult(off, km);
                let inhigh = self.ar.not(inlow);
                let fl = self.feasible(&s.pc, &s.model.clone(), inlow).is_some();
                let fh = self.feasible(&s.pc, &s.model.clone(), inhigh).is_some();
                if fl && fh { break; }
                if fl { b = mid; } else if fh { a = mid; } else { break; }
            }
            first += a * stride;
            cntc = b - a;
        }
        if cntc > 2048 { let a = self.conc(s, &Val::S(e), 64)?; return self.load_at(s, a as u64, ty); }
        let mut vals: Vec<E> = Vec::with_capacity(cntc as usize);
        for i in 0..cntc { let v = self.load_at(s, first + i * stride, ty)?; vals.push(self.val_e(&v, w)); }
        let r = self.tree(off, first - base, stride, &vals);
        Ok(self.e_val(r))
    }
    fn tree(&mut self, off: E, first: u64, stride: u64, vals: &[E]) -> E {
        if vals.iter().all(|&v| v == vals[0]) { return vals[0]; }
        // split at a run boundary close to the middle
        let mut mid = vals.len() / 2;
        let m0 = mid;
        while mid > 0 && vals[mid] == vals[mid - 1] { mid -= 1; }
        if mid == 0 { mid = m0; while mid < vals.len() && vals[mid] == vals[mid - 1] { mid += 1; } }
        let l = self.tree(off, first, stride, &vals[..mid]);
        let h = self.tree(off, first + mid as u64 * stride, stride, &vals[mid..]);
        let k = self.ar.konst((first + mid as u64 * stride) as u128, 64);
        let c = self.ar.ult(off, k);
        self.ar.ite(c, l, h)
    }
    fn store(&mut self, s: &mut State, p: &Val, v: &Val, ty: TyId) -> Result<(), Stop> {
        let a = match p { Val::C(a) => *a, _ => self.conc(s, p, 64)? as u64 };
        self.store_at(s, a, v, ty)
    }
    fn store_at(&mut self, s: &mut State, a: u64, v: &Val, ty: TyId) -> Result<(), Stop> {
        let w = self.m.types.width(ty);
        if w > 0 {
            let n = (w as usize + 7) / 8;
            let off = a as u32 as usize;
            match v {
                Val::C(x) => {
                    let o = s.mem.range_mut(a, n)?;
                    let b = x.to_le_bytes();
                    if n <= 8 { o.data[off..off + n].copy_from_slice(&b[..n]); } else { o.data[off..off + 8].copy_from_slice(&b); for i in 8..n { o.data[off + i] = 0; } }
                    if o.sym.is_some() { o.clear_sym(off, n); }
                }
                Val::W(x) => {
                    let o = s.mem.range_mut(a, n)?;
                    let b = x.to_le_bytes();
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                    if o.sym.is_some() { o.clear_sym(off, n); }
                }
                Val::S(e) => {
                    let mut e = *e;
                    if (w as usize) < n * 8 { e = self.ar.zext(e, n as u32 * 8); }
                    let bs: Vec<E> = (0..n as u32).map(|i| self.ar.extract(e, 8 * i + 7, 8 * i)).collect();
                    self.put_bytes(s, a, &bs)?;
                }
                Val::A(_) => panic!("store agg as scalar"),
            }
            return Ok(());
        }
        let Val::A(es) = v else { panic!("store scalar as agg") };
        if let Ty::Vector(n, et) = self.m.types.tys[ty as usize] {
            if self.m.types.width(et) == 1 {
                let e = self.pack_bits(&es[..n as usize]);
                let nb = (n as usize + 7) / 8;
                let e = if self.ar.w(e) < nb as u32 * 8 { self.ar.zext(e, nb as u32 * 8) } else { e };
                let bs: Vec<E> = (0..nb as u32).map(|i| self.ar.extract(e, 8 * i + 7, 8 * i)).collect();
                return self.put_bytes(s, a, &bs);
            }
        }
        for i in 0..es.len() { let (mt, o) = self.m.types.member(ty, i as u64); let x = es[i].clone(); self.store_at(s, a + o, &x, mt)?; }
        Ok(())
    }
    fn put_bytes(&mut self, s: &mut State, a: u64, bs: &[E]) -> Result<(), Stop> {
        let off = a as u32 as usize;
        let o = s.mem.range_mut(a, bs.len())?;
        for (i, &b) in bs.iter().enumerate() {
            if let Some(c) = self.ar.cv(b) { o.data[off + i] = c as u8; if o.sym.is_some() { o.clear_sym(off + i, 1); } }
            else { o.set_sym(off + i, b); o.data[off + i] = 0xEE; }
        }
        Ok(())
    }
    fn pack_bits(&mut self, es: &[Val]) -> E {
        let mut acc: Option<E> = None;
        for v in es { let e = self.val_e(v, 1); acc = Some(match acc { None => e, Some(l) => self.ar.concat(e, l) }); }
        acc.unwrap()
    }
    // ---------- scalar ops
    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr };
        if let (Some(x), Some(y)) = (cv(a), cv(b)) { return cval(cbin(o, w, x, y), w); }
        let (x, y) = (self.val_e(a, w), self.val_e(b, w));
        let r = self.ar.bin(o, x, y);
        self.e_val(r)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (cv(a), cv(b)) {
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => sx(x, w) > sx(y, w), Pred::Sge => sx(x, w) >= sx(y, w), Pred::Slt => sx(x, w) < sx(y, w), Pred::Sle => sx(x, w) <= sx(y, w),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.val_e(a, w), self.val_e(b, w));
        let r = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => { let e = self.ar.eq(x, y); self.ar.not(e) }
            Pred::Ugt => self.ar.ult(y, x), Pred::Uge => self.ar.ule(y, x), Pred::Ult => self.ar.ult(x, y), Pred::Ule => self.ar.ule(x, y),
            Pred::Sgt => self.ar.slt(y, x), Pred::Sge => self.ar.sle(y, x), Pred::Slt => self.ar.slt(x, y), Pred::Sle => self.ar.sle(x, y),
        };
        self.e_val(r)
    }
    fn fcmp(&mut self, p: FPred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (cv(a), cv(b)) {
            let (x, y) = if w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x as u64), f64::from_bits(y as u64)) };
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                FPred::False => false, FPred::True => true, FPred::Ord => !un, FPred::Uno => un,
                FPred::Oeq => x == y, FPred::Ogt => x > y, FPred::Oge => x >= y, FPred::Olt => x < y, FPred::Ole => x <= y, FPred::One => !un && x != y,
                FPred::Ueq => un || x == y, FPred::Ugt => un || x > y, FPred::Uge => un || x >= y, FPred::Ult => un || x < y, FPred::Ule => un || x <= y, FPred::Une => x != y,
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.val_e(a, w), self.val_e(b, w));
        if w == 64 {
            if let (Some(i), Some(j)) = (self.ar.exact_int(x), self.ar.exact_int(y)) {
                let r = match p {
                    FPred::False | FPred::Uno => self.ar.fls, FPred::True | FPred::Ord => self.ar.tru,
                    FPred::Oeq | FPred::Ueq => self.ar.eq(i, j), FPred::One | FPred::Une => { let q = self.ar.eq(i, j); self.ar.not(q) }
                    FPred::Ogt | FPred::Ugt => self.ar.slt(j, i), FPred::Oge | FPred::Uge => self.ar.sle(j, i), FPred::Olt | FPred::Ult => self.ar.slt(i, j), _ => self.ar.sle(i, j),
                };
                return self.e_val(r);
            }
        }
        if w == 64 { if let (Some(i), Some(j)) = (self.ar.single(x), self.ar.single(y)) { let (i, j) = (self.e_val(i), self.e_val(j)); return self.fcmp(p, 32, &i, &j); } }
        let inf = if w == 32 { 0x7f80_0000u128 } else { 0x7ff0_0000_0000_0000 };
        let nan = |s: &mut Exec, e: E| { let m = s.ar.extract(e, w - 2, 0); let k = s.ar.konst(inf, w - 1); s.ar.ult(k, m) };
        let nx = nan(self, x);
        let ny = nan(self, y);
        let un = self.ar.or(nx, ny);
        let ord = self.ar.not(un);
        let key = |s: &mut Exec, e: E| { let m = s.ar.extract(e, w - 2, 0); let m = s.ar.zext(m, w); let z = s.ar.konst(0, w); let neg = s.ar.sub(z, m); let sg = s.ar.extract(e, w - 1, w - 1); s.ar.ite(sg, neg, m) };
        let r = match p {
            FPred::False => self.ar.fls, FPred::True => self.ar.tru, FPred::Ord => ord, FPred::Uno => un,
            _ => {
                let rel = if matches!(p, FPred::Oeq | FPred::One | FPred::Ueq | FPred::Une) {
                    // equal bits, or both zero
                    let eq = self.ar.eq(x, y);
                    let z = self.ar.konst(0, w - 1);
                    let mx = self.ar.extract(x, w - 2, 0);
                    let my = self.ar.extract(y, w - 2, 0);
                    let zx = self.ar.eq(mx, z);
                    let zy = self.ar.eq(my, z);
                    let zz = self.ar.and(zx, zy);
                    self.ar.or(eq, zz)
                } else {
                    let kx = key(self, x);
                    let ky = key(self, y);
                    match p { FPred::Ogt | FPred::Ugt => self.ar.slt(ky, kx), FPred::Oge | FPred::Uge => self.ar.sle(ky, kx), FPred::Olt | FPred::Ult => self.ar.slt(kx, ky), _ => self.ar.sle(kx, ky) }
                };
                match p {
                    FPred::Oeq | FPred::Ogt | FPred::Oge | FPred::Olt | FPred::Ole => self.ar.and(ord, rel),
                    FPred::One => { let n = self.ar.not(rel); self.ar.and(ord, n) }
                    FPred::Une => { let n = self.ar.not(rel); self.ar.or(un, n) }
                    _ => self.ar.or(un, rel),
                }
            }
        };
        self.e_val(r)
    }
    fn cast(&mut self, op: CastOp, ws: u32, wd: u32, a: &Val) -> Val {
        if let Some(x) = cv(a) {
            let r = match op {
                CastOp::Trunc | CastOp::ZExt | CastOp::Same => x & mask(wd),
                CastOp::SExt => (sx(x, ws) as u128) & mask(wd),
                CastOp::FpToUi => f_to_int(x, ws, wd, false), CastOp::FpToSi => f_to_int(x, ws, wd, true),
                CastOp::UiToFp => int_to_f(x, ws, wd, false), CastOp::SiToFp => int_to_f(x, ws, wd, true),
                CastOp::FpExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
                CastOp::FpTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
            };
            return cval(r, wd);
        }
        let e = self.val_e(a, ws);
        let r = match op {
            CastOp::Trunc => self.ar.extract(e, wd - 1, 0),
            CastOp::ZExt => self.ar.zext(e, wd),
            CastOp::SExt => self.ar.sext(e, wd),
            CastOp::Same => e,
            CastOp::FpToUi => self.ar.fun(Op::FToUi, e, wd, 0), CastOp::FpToSi => self.ar.fun(Op::FToSi, e, wd, 0),
            CastOp::UiToFp => self.ar.fun(Op::UiToF, e, wd, 0), CastOp::SiToFp => self.ar.fun(Op::SiToF, e, wd, 0),
            CastOp::FpExt => self.ar.fun(Op::FExt, e, wd, 0), CastOp::FpTrunc => self.ar.fun(Op::FTrunc, e, wd, 0),
        };
        self.e_val(r)
    }
    fn zero_of(&self, t: TyId) -> Val {
        let w = self.m.types.width(t);
        if w > 0 { return cval(0, w); }
        let n = self.m.types.nmembers(t);
        Val::A((0..n).map(|i| { let (mt, _) = self.m.types.member(t, i); self.zero_of(mt) }).collect())
    }
    fn flatten(&mut self, v: &Val, t: TyId, out: &mut Vec<E>) {
        let w = self.m.types.width(t);
        if w > 0 { let e = self.val_e(v, w); out.push(e); return; }
        let Val::A(es) = v else { panic!() };
        let es = es.clone();
        for (i, x) in es.iter().enumerate() { let (mt, _) = self.m.types.member(t, i as u64); self.flatten(x, mt, out); }
    }
    fn bitcast(&mut self, v: &Val, from: TyId, to: TyId) -> Val {
        let mut ps = vec![];
        self.flatten(v, from, &mut ps);
        let mut acc = ps[0];
        for &p in &ps[1..] { acc = self.ar.concat(p, acc); }
        let wt = self.m.types.width(to);
        if wt > 0 { return self.e_val(acc); }
        let (et, _) = self.m.types.member(to, 0);
        let ew = self.m.types.width(et);
        let n = self.m.types.nmembers(to) as u32;
        let out: Vec<Val> = (0..n).map(|i| { let e = self.ar.extract(acc, (i + 1) * ew - 1, i * ew); self.e_val(e) }).collect();
        Val::A(out.into())
    }

    fn jump(&mut self, fr: &mut Frame, t: Target) {
        let f = &self.m.funcs[fr.func as usize];
        let mv = &f.moves[t.moves as usize];
        if mv.len() == 1 {
            let (d, o) = mv[0];
            fr.regs[d as usize] = if o & CONST != 0 { self.m.consts[(o & !CONST) as usize].clone() } else { fr.regs[o as usize].clone() };
        } else if !mv.is_empty() {
            let mut tmp = std::mem::take(&mut self.tmp);
            tmp.clear();
            for (_, o) in mv { tmp.push(if o & CONST != 0 { self.m.consts[(o & !CONST) as usize].clone() } else { fr.regs[*o as usize].clone() }); }
            for ((d, _), v) in mv.iter().zip(tmp.drain(..)) { fr.regs[*d as usize] = v; }
            self.tmp = tmp;
        }
        fr.block = t.block;
        fr.ip = 0;
    }
    /// Fork on a set of mutually exclusive, exhaustive alternatives. Returns index taken by the current state.
    fn branch(&mut self, s: &mut State, alts: &[(E, Target)]) -> Result<usize, Stop> {
        self.st.branches += 1;
        let model = s.model.clone();
        let mut taken = usize::MAX;
        for (i, (c, _)) in alts.iter().enumerate() { if self.ev(&model, *c) == 1 { taken = i; break; } }
        if taken == usize::MAX { return Err(Stop::Incomplete("branch with no alternative".into())); }
        let mut any = false;
        for (i, (c, t)) in alts.iter().enumerate() {
            if i == taken { continue; }
            match self.feasible(&s.pc, &model, *c) {
                None => {}
                Some(Err(())) => { self.unknown("branch"); any = true; }
                Some(Ok(m)) => {
                    any = true;
                    let mut o = s.clone();
                    self.add_pc(&mut o.pc, *c);
                    o.model = m;
                    o.depth += 1;
                    let fr = Rc::make_mut(o.frames.last_mut().unwrap());
                    self.jump(fr, *t);
                    self.note_fork(s);
                    self.work.push(o);
                }
            }
        }
        if any { let c = alts[taken].0; self.add_pc(&mut s.pc, c); s.depth += 1; }
        Ok(taken)
    }
    fn exec(&mut self, s: &mut State) -> Stop {
        loop {
            match self.exec_frame(s) { Ok(()) => {} Err(e) => return e }
            if s.frames.is_empty() { return Stop::Done; }
            if s.instrs > self.lim.path_instrs { return Stop::Hang; }
            if self.t0.elapsed().as_secs_f64() > self.lim.time { return Stop::Incomplete("time budget".into()); }
        }
    }
    /// run the top frame until a call/return or an occasional yield
    fn exec_frame(&mut self, s: &mut State) -> Result<(), Stop> {
        let m = self.m;
        let frp: *mut Frame = Rc::make_mut(s.frames.last_mut().unwrap());
        let f = &m.funcs[unsafe { (*frp).func } as usize];
        let mut fuel = 100_000u32;
        macro_rules! fr { () => { unsafe { &mut *frp } } }
        // operand access; frp stays valid as long as s.frames is not pushed/popped and the Rc is unique.
        macro_rules! o { ($x:expr) => {{ let x: Opd = $x; if x & CONST != 0 { m.consts[(x & !CONST) as usize].clone() } else { fr!().regs[x as usize].clone() } }} }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; fr!().regs[$d as usize] = v; }} }
        macro_rules! reacq { () => {{
            // after a possible fork the frame Rc may be shared again
            let p: *mut Frame = Rc::make_mut(s.frames.last_mut().unwrap());
            if p != frp { return Ok(()); }
        }} }
        loop {
            let fr_ip = fr!().ip as usize;
            let ins = &f.blocks[fr!().block as usize][fr_ip];
            s.instrs += 1;
            self.st.instrs += 1;
            fuel -= 1;
            if fuel == 0 { s.instrs -= 1; self.st.instrs -= 1; return Ok(()); }
            match ins {
                I::Bin(op, w, d, a, b) => {
                    let (x, y) = (o!(*a), o!(*b));
                    if let (Val::C(p), Val::C(q)) = (&x, &y) {
                        let (p, q) = (*p, *q);
                        let w = *w as u32;
                        let r = match op {
                            BinOp::Add => Some(p.wrapping_add(q)), BinOp::Sub => Some(p.wrapping_sub(q)), BinOp::Mul => Some(p.wrapping_mul(q)),
                            BinOp::And => Some(p & q), BinOp::Or => Some(p | q), BinOp::Xor => Some(p ^ q),
                            BinOp::Shl => Some(if q >= 64 { 0 } else { p << q }), BinOp::LShr => Some(if q >= 64 { 0 } else { p >> q }),
                            BinOp::UDiv if q != 0 => Some(p / q), BinOp::URem if q != 0 => Some(p % q),
                            _ => None,
                        };
                        match r { Some(r) if w <= 64 => set!(*d, Val::C(r & mask64(w))), _ => set!(*d, self.bin(*op, w, &x, &y)) }
                    } else { set!(*d, self.bin(*op, *w as u32, &x, &y)); }
                }
                I::VBin(op, w, d, a, b) => {
                    let (Val::A(x), Val::A(y)) = (o!(*a), o!(*b)) else { panic!("vbin") };
                    let r: Vec<Val> = x.iter().zip(y.iter()).map(|(p, q)| self.bin(*op, *w as u32, p, q)).collect();
                    set!(*d, Val::A(r.into()));
                }
                I::FBin(op, w, d, a, b) => {
                    let (x, y) = (o!(*a), o!(*b));
                    let w = *w as u32;
                    let fo = match op { FOp::Add => Op::FAdd, FOp::Sub => Op::FSub, FOp::Mul => Op::FMul, FOp::Div => Op::FDiv, FOp::Rem => Op::FRem };
                    if let (Some(p), Some(q)) = (cv(&x), cv(&y)) { set!(*d, cval(fbin(fo, w, p, q), w)); }
                    else if *op == FOp::Rem {
                        self.conc(s, &x, w)?; self.conc(s, &y, w)?;
                        reacq!();
                        let model = s.model.clone();
                        let (p, q) = (self.val_e(&x, w), self.val_e(&y, w));
                        let (p, q) = (self.ev(&model, p), self.ev(&model, q));
                        set!(*d, cval(fbin(fo, w, p, q), w));
                    }
                    else { let (p, q) = (self.val_e(&x, w), self.val_e(&y, w)); let r = self.ar.bin(fo, p, q); set!(*d, self.e_val(r)); }
                }
                I::FNeg(w, d, a) => {
                    let x = o!(*a);
                    let k = Val::C(1u64 << (*w - 1));
                    set!(*d, self.bin(BinOp::Xor, *w as u32, &x, &k));
                }
                I::ICmp(p, w, d, a, b) => {
                    let (x, y) = (o!(*a), o!(*b));
                    if let (Val::C(p1), Val::C(q1)) = (&x, &y) {
                        let r = match p { Pred::Eq => p1 == q1, Pred::Ne => p1 != q1, Pred::Ult => p1 < q1, Pred::Ugt => p1 > q1, Pred::Ule => p1 <= q1, Pred::Uge => p1 >= q1,
                            _ => { let sh = 64 - *w as u32; let (i, j) = (((*p1 << sh) as i64) >> sh, ((*q1 << sh) as i64) >> sh); match p { Pred::Sgt => i > j, Pred::Sge => i >= j, Pred::Slt => i < j, _ => i <= j } } };
                        set!(*d, Val::C(r as u64));
                    } else { set!(*d, self.icmp(*p, *w as u32, &x, &y)); }
                }
                I::VICmp(p, w, d, a, b) => {
                    let (Val::A(x), Val::A(y)) = (o!(*a), o!(*b)) else { panic!("vicmp") };
                    let r: Vec<Val> = x.iter().zip(y.iter()).map(|(a, b)| self.icmp(*p, *w as u32, a, b)).collect();
                    set!(*d, Val::A(r.into()));
                }
                I::FCmp(p, w, d, a, b) => { let (x, y) = (o!(*a), o!(*b)); set!(*d, self.fcmp(*p, *w as u32, &x, &y)); }
                I::Cast(op, ws, wd, d, a) => {
                    let x = o!(*a);
                    match (&x, op) {
                        (Val::C(v), CastOp::Trunc) => set!(*d, Val::C(*v & mask64(*wd as u32))),
                        (Val::C(v), CastOp::ZExt) if *wd <= 64 => set!(*d, Val::C(*v)),
                        _ => set!(*d, self.cast(*op, *ws as u32, *wd as u32, &x)),
                    }
                }
                I::VCast(op, ws, wd, d, a) => {
                    let Val::A(x) = o!(*a) else { panic!("vcast") };
                    let r: Vec<Val> = x.iter().map(|p| self.cast(*op, *ws as u32, *wd as u32, p)).collect();
                    set!(*d, Val::A(r.into()));
                }
                I::BitCast(d, a, from, to) => { let x = o!(*a); set!(*d, self.bitcast(&x, *from, *to)); }
                I::Mov(d, a) => set!(*d, o!(*a)),
                I::Select(d, c, a, b, ty) => {
                    let cond = o!(*c);
                    match &cond {
                        Val::C(1) => set!(*d, o!(*a)),
                        Val::C(_) => set!(*d, o!(*b)),
                        Val::S(e) => { let (x, y) = (o!(*a), o!(*b)); set!(*d, self.sel(*e, &x, &y, *ty)); }
                        Val::A(cs) => {
                            let (Val::A(x), Val::A(y)) = (o!(*a), o!(*b)) else { panic!("vsel") };
                            let mut out = vec![];
                            for i in 0..cs.len() {
                                let (mt, _) = m.types.member(*ty, i as u64);
                                out.push(match &cs[i] { Val::C(1) => x[i].clone(), Val::C(_) => y[i].clone(), Val::S(e) => self.sel(*e, &x[i], &y[i], mt), _ => panic!() });
                            }
                            set!(*d, Val::A(out.into()));
                        }
                        _ => panic!("select"),
                    }
                }
                I::Load(d, p, ty) => {
                    let pv = o!(*p);
                    let v = self.load(s, &pv, *ty)?;
                    if let Val::S(_) = pv { reacq!(); }
                    set!(*d, v);
                }
                I::Store(v, p, ty) => {
                    let (vv, pv) = (o!(*v), o!(*p));
                    self.store(s, &pv, &vv, *ty)?;
                    if let Val::S(_) = pv { let p: *mut Frame = Rc::make_mut(s.frames.last_mut().unwrap()); if p != frp { unsafe { (*p).ip += 1; } return Ok(()); } }
                }
                I::Gep(d, base, off, idx) => {
                    let b = o!(*base);
                    if let Val::C(b0) = b {
                        let mut acc = b0.wrapping_add(*off as u64);
                        let mut sym = false;
                        for (i, w, sc) in idx.iter() {
                            match o!(*i) { Val::C(v) => { let sh = 64 - *w as u32; let v = ((v << sh) as i64) >> sh; acc = acc.wrapping_add((v as u64).wrapping_mul(*sc as u64)); } _ => { sym = true; break; } }
                        }
                        if !sym { set!(*d, Val::C(acc)); fr!().ip += 1; continue; }
                    }
                    let mut e = self.val_e(&b, 64);
                    let k = self.ar.konst(*off as u64 as u128, 64);
                    e = self.ar.add(e, k);
                    for (i, w, sc) in idx.iter() {
                        let v = o!(*i);
                        let x = self.val_e(&v, *w as u32);
                        let x = if (*w as u32) < 64 { self.ar.sext(x, 64) } else { x };
                        let k = self.ar.konst(*sc as u64 as u128, 64);
                        let t = self.ar.mul(x, k);
                        e = self.ar.add(e, t);
                    }
                    set!(*d, self.e_val(e));
                }
                I::Alloca(d, off) => set!(*d, Val::C(fr!().obj + *off as u64)),
                I::ExtractValue(d, a, ix) => {
                    let mut v = o!(*a);
                    for i in ix.iter() { let Val::A(es) = &v else { panic!("extractvalue") }; let n = es[*i as usize].clone(); v = n; }
                    set!(*d, v);
                }
                I::InsertValue(d, a, v, ix) => { let x = o!(*a); let y = o!(*v); set!(*d, insval(&x, &y, ix)); }
                I::ExtractElem(d, a, i) => {
                    let Val::A(x) = o!(*a) else { panic!() };
                    let iv = o!(*i);
                    let k = self.conc(s, &iv, 64)? as usize;
                    reacq!();
                    set!(*d, x[k].clone());
                }
                I::InsertElem(d, a, v, i) => {
                    let Val::A(x) = o!(*a) else { panic!() };
                    let iv = o!(*i);
                    let k = self.conc(s, &iv, 64)? as usize;
                    reacq!();
                    let mut es: Vec<Val> = x.to_vec();
                    es[k] = o!(*v);
                    set!(*d, Val::A(es.into()));
                }
                I::Shuffle(d, a, b, mask) => {
                    let (Val::A(x), Val::A(y)) = (o!(*a), o!(*b)) else { panic!() };
                    let r: Vec<Val> = mask.iter().map(|&i| { let i = i as usize; if i < x.len() { x[i].clone() } else { y[i - x.len()].clone() } }).collect();
                    set!(*d, Val::A(r.into()));
                }
                I::AtomicRmw(k, d, p, v, ty) => {
                    let pv = o!(*p);
                    let a = self.conc(s, &pv, 64)? as u64;
                    reacq!();
                    let old = self.load_at(s, a, *ty)?;
                    let x = o!(*v);
                    let w = m.types.width(*ty);
                    let new = match k { 0 => x, 1 => self.bin(BinOp::Add, w, &old, &x), 2 => self.bin(BinOp::Sub, w, &old, &x), 3 => self.bin(BinOp::And, w, &old, &x), 4 => self.bin(BinOp::Or, w, &old, &x), 5 => self.bin(BinOp::Xor, w, &old, &x),
                        6 | 7 | 9 | 10 => { let pr = match k { 6 => Pred::Ugt, 7 => Pred::Ult, 9 => Pred::Sgt, _ => Pred::Slt }; match self.icmp(pr, w, &old, &x) { Val::C(1) => old.clone(), Val::C(_) => x, _ => return Err(Stop::Incomplete("sym rmw".into())) } }
                        _ => return Err(Stop::Incomplete("rmw".into())) };
                    self.store_at(s, a, &new, *ty)?;
                    set!(*d, old);
                }
                I::CmpXchg(d, p, c, n, ty) => {
                    let pv = o!(*p);
                    let a = self.conc(s, &pv, 64)? as u64;
                    reacq!();
                    let old = self.load_at(s, a, *ty)?;
                    let w = m.types.width(*ty);
                    let cm = o!(*c);
                    match self.icmp(Pred::Eq, w, &old, &cm) {
                        Val::C(r) => { if r == 1 { let nv = o!(*n); self.store_at(s, a, &nv, *ty)?; } set!(*d, Val::A(vec![old, Val::C(r)].into())); }
                        _ => return Err(Stop::Incomplete("sym cmpxchg".into())),
                    }
                }
                I::Br(t) => { self.jump(fr!(), *t); continue; }
                I::CondBr(c, t, e) => {
                    match o!(*c) {
                        Val::C(1) => { self.jump(fr!(), *t); continue; }
                        Val::C(_) => { self.jump(fr!(), *e); continue; }
                        Val::S(x) => {
                            let nx = self.ar.not(x);
                            let alts = [(x, *t), (nx, *e)];
                            let i = self.branch(s, &alts)?;
                            let p = Rc::make_mut(s.frames.last_mut().unwrap());
                            let t = alts[i].1;
                            self.jump(p, t);
                            return Ok(());
                        }
                        _ => panic!("condbr"),
                    }
                }
                I::Switch(c, w, def, sw) => {
                    match o!(*c) {
                        Val::C(v) => { let t = match sw.map.get(&v) { Some(&i) => sw.cases[i as usize].1, None => *def }; self.jump(fr!(), t); continue; }
                        Val::S(x) => {
                            let alts = self.switch_alts(x, *w as u32, *def, sw);
                            let i = self.branch(s, &alts)?;
                            let t = alts[i].1;
                            let p = Rc::make_mut(s.frames.last_mut().unwrap());
                            self.jump(p, t);
                            return Ok(());
                        }
                        _ => return Err(Stop::Incomplete("wide switch".into())),
                    }
                }
                I::Ret(v) => {
                    let val = if *v == NOREG { None } else { Some(o!(*v)) };
                    let (obj, ret) = (fr!().obj, fr!().ret);
                    if obj != 0 { s.mem.free(obj)?; }
                    s.frames.pop();
                    if s.frames.is_empty() { return Ok(()); }
                    let p = Rc::make_mut(s.frames.last_mut().unwrap());
                    if ret != NOREG { if let Some(v) = val { p.regs[ret as usize] = v; } }
                    let I::Call(ci) = &m.funcs[p.func as usize].blocks[p.block as usize][p.ip as usize] else { panic!("ret to non-call") };
                    match ci.normal { Some(t) => self.jump(p, t), None => p.ip += 1 }
                    return Ok(());
                }
                I::Unreachable => return Err(Stop::Incomplete(format!("unreachable executed in {}", f.pretty))),
                I::Nop => {}
                I::Call(ci) => {
                    let args: Vec<Val> = ci.args.iter().map(|&a| o!(a)).collect();
                    let fi = match &ci.callee {
                        Callee::Func(i) => *i,
                        Callee::Ind(p) => { let pv = o!(*p); let a = self.conc(s, &pv, 64)? as u64; match addr_func(a) { Some(i) if (i as usize) < m.funcs.len() => i, _ => return Err(Stop::Incomplete(format!("bad function pointer {:#x}", a))) } }
                        Callee::Asm(_) => { let p = Rc::make_mut(s.frames.last_mut().unwrap()); if ci.d != NOREG { p.regs[ci.d as usize] = self.zero_of(ci.retty); } p.ip += 1; if p as *mut Frame != frp { return Ok(()); } continue; }
                    };
                    let fi = self.redirect[fi as usize];
                    let ext = self.ext[fi as usize];
                    if ext == Ext::None {
                        let g = &m.funcs[fi as usize];
                        self.funcs_seen[fi as usize] = true;
                        if s.frames.len() > 3000 { return Err(Stop::Incomplete("call depth".into())); }
                        let mut regs: Vec<Val> = Vec::with_capacity(g.nregs as usize);
                        regs.extend(args.into_iter().take(g.nargs as usize));
                        regs.resize(g.nregs as usize, Val::C(0));
                        let obj = if g.frame_size > 0 { s.mem.alloc(g.frame_size as usize) } else { 0 };
                        s.frames.push(Rc::new(Frame { func: fi, block: 0, ip: 0, obj, ret: ci.d, regs }));
                        return Ok(());
                    }
                    let r = self.external(s, ext, fi, &args, ci)?;
                    let p = Rc::make_mut(s.frames.last_mut().unwrap());
                    if ci.d != NOREG { p.regs[ci.d as usize] = r; }
                    match ci.normal { Some(t) => self.jump(p, t), None => p.ip += 1 }
                    if p as *mut Frame != frp { return Ok(()); }
                    continue;
                }
            }
            fr!().ip += 1;
        }
    }
    fn switch_alts(&mut self, x: E, w: u32, def: Target, sw: &SwitchI) -> Vec<(E, Target)> {
        // group by (block, moves)
        let mut groups: Vec<(Target, Vec<u64>)> = vec![];
        let mut gi: HashMap<(u32, u32), usize> = HashMap::new();
        for (v, t) in &sw.cases {
            let k = (t.block, t.moves);
            let i = *gi.entry(k).or_insert_with(|| { groups.push((*t, vec![])); groups.len() - 1 });
            groups[i].1.push(*v);
        }
        let mut out = vec![];
        let mut all = self.ar.fls;
        for (t, mut vs) in groups {
            vs.sort();
            let mut c = self.ar.fls;
            let mut i = 0;
            while i < vs.len() {
                let mut j = i;
                while j + 1 < vs.len() && vs[j + 1] == vs[j] + 1 { j += 1; }
                let e = if i == j { let k = self.ar.konst(vs[i] as u128, w); self.ar.eq(x, k) } else {
                    let k = self.ar.konst(vs[i] as u128, w);
                    let d = self.ar.sub(x, k);
                    let n = self.ar.konst((vs[j] - vs[i]) as u128, w);
                    self.ar.ule(d, n)
                };
                c = self.ar.or(c, e);
                i = j + 1;
            }
            all = self.ar.or(all, c);
            if (t.block, t.moves) == (def.block, def.moves) { /* merged into default below */ all = { let n = self.ar.not(c); self.ar.and(all, n) }; continue; }
            out.push((c, t));
        }
        let d = self.ar.not(all);
        out.push((d, def));
        out.retain(|(c, _)| self.ar.cv(*c) != Some(0));
        out
    }

    fn bytes_at(&mut self, s: &State, a: u64, n: usize) -> Result<Vec<Val>, Stop> {
        let mut v = Vec::with_capacity(n);
        for i in 0..n { v.push(self.load_byte(s, a + i as u64)?); }
        Ok(v)
    }
    fn cstr(&self, s: &State, a: u64, n: u64) -> String {
        match s.mem.range(a, n as usize) { Ok(o) => String::from_utf8_lossy(&o.data[a as u32 as usize..a as u32 as usize + n as usize]).into(), Err(_) => "?".into() }
    }
    fn location(&self, s: &State, v: &Val) -> String {
        let Val::C(a) = v else { return "?".into() };
        let Ok(o) = s.mem.range(*a, 24) else { return "?".into() };
        let off = *a as u32 as usize;
        let p = u64::from_le_bytes(o.data[off..off + 8].try_into().unwrap());
        let n = u64::from_le_bytes(o.data[off + 8..off + 16].try_into().unwrap());
        let l = u32::from_le_bytes(o.data[off + 16..off + 20].try_into().unwrap());
        if n > 400 { return "?".into(); }
        format!("{}:{}", self.cstr(s, p, n), l)
    }
    fn external(&mut self, s: &mut State, ext: Ext, fi: u32, args: &[Val], ci: &CallI) -> Result<Val, Stop> {
        let m = self.m;
        let z = Val::C(0);
        macro_rules! ca { ($i:expr) => { self.conc(s, &args[$i], 64)? as u64 } }
        let w0 = if args.is_empty() { 0 } else { m.types.width(ci.argtys[0]) };
        Ok(match ext {
            Ext::None => unreachable!(),
            Ext::Nop => z,
            Ext::Panic | Ext::PanicFmt | Ext::Abort => {
                // the location is the last pointer argument for most panic entry points
                let mut loc = String::new();
                for a in args.iter().rev() { let l = self.location(s, a); if l != "?" && l.contains(".rs:") { loc = l; break; } }
                let mut user = String::new();
                for f in s.frames.iter().rev() { let p = &m.funcs[f.func as usize].pretty; if p.contains("dxf::") || p.contains("vh_") { user = p.clone(); break; } }
                return Err(Stop::Panic(format!("{} at {} in {}", m.funcs[fi as usize].pretty, loc, user)));
            }
            Ext::Malloc => { let n = ca!(0); if n > 1 << 28 { return Err(Stop::Panic(format!("allocation of {} bytes", if n > 1 << 40 { "huge".to_string() } else { n.to_string() }))); } Val::C(s.mem.alloc(n as usize)) }
            Ext::Calloc => { let n = ca!(0).saturating_mul(ca!(1)); if n > 1 << 28 { return Err(Stop::Panic("huge allocation".into())); } Val::C(s.mem.alloc(n as usize)) }
            Ext::Realloc => { let (p, n) = (ca!(0), ca!(1)); if n > 1 << 28 { return Err(Stop::Panic("huge allocation".into())); } if p == 0 { Val::C(s.mem.alloc(n as usize)) } else { Val::C(s.mem.realloc(p, n as usize)?) } }
            Ext::PosixMemalign => { let (p, n) = (ca!(0), ca!(2)); let a = s.mem.alloc(n as usize); s.mem.range_mut(p, 8)?.data[p as u32 as usize..p as u32 as usize + 8].copy_from_slice(&a.to_le_bytes()); z }
            Ext::Free => { let p = ca!(0); if p != 0 { s.mem.free(p)?; } z }
            Ext::Bcmp | Ext::Memcmp => {
                let n = ca!(2) as usize;
                let (a, b) = (ca!(0), ca!(1));
                if n == 0 { return Ok(z); }
                let x = self.bytes_at(s, a, n)?;
                let y = self.bytes_at(s, b, n)?;
                if ext == Ext::Bcmp {
                    let mut c = self.ar.tru;
                    // constants first: quick mismatch
                    for i in 0..n { if let (Val::C(p), Val::C(q)) = (&x[i], &y[i]) { if p != q { return Ok(Val::C(1)); } } }
                    for i in (0..n).rev() { let e = self.icmp(Pred::Eq, 8, &x[i], &y[i]); let e = self.val_e(&e, 1); c = self.ar.and(e, c); if c == self.ar.fls { break; } }
                    let one = self.ar.konst(1, 32);
                    let zero = self.ar.konst(0, 32);
                    let r = self.ar.ite(c, zero, one);
                    self.e_val(r)
                } else {
                    let mut r = self.ar.konst(0, 32);
                    for i in (0..n).rev() {
                        let lt = self.icmp(Pred::Ult, 8, &x[i], &y[i]);
                        let eq = self.icmp(Pred::Eq, 8, &x[i], &y[i]);
                        let (lt, eq) = (self.val_e(&lt, 1), self.val_e(&eq, 1));
                        let (m1, p1) = (self.ar.konst(!0, 32), self.ar.konst(1, 32));
                        let d = self.ar.ite(lt, m1, p1);
                        r = self.ar.ite(eq, r, d);
                    }
                    self.e_val(r)
                }
            }
            Ext::Strlen => { let p = ca!(0); let mut n = 0; loop { match self.load_byte(s, p + n)? { Val::C(0) => break, Val::C(_) => n += 1, _ => return Err(Stop::Incomplete("sym strlen".into())) } } Val::C(n) }
            Ext::Errno => Val::C(s.errno),
            Ext::Ret0 | Ext::RetNull => z,
            Ext::RetM1 => { let a = s.errno; let o = s.mem.range_mut(a, 4)?; o.data[0] = 2; self.c_ret(ci, !0) }
            Ext::Write => { if args.len() >= 3 { Val::C(ca!(2)) } else { z } }
            Ext::Clock => { let p = ca!(1); let o = s.mem.range_mut(p, 16)?; let off = p as u32 as usize; o.data[off..off + 8].copy_from_slice(&1_700_000_000u64.to_le_bytes()); o.data[off + 8..off + 16].copy_from_slice(&0u64.to_le_bytes()); z }
            Ext::GetRandom | Ext::RandomOk | Ext::Syscall => {
                let (p, n) = if ext != Ext::Syscall { (ca!(0), ca!(1)) } else { if ca!(0) != 318 { return Err(Stop::Incomplete(format!("syscall {}", ca!(0)))); } (ca!(1), ca!(2)) };
                let mut r = s.rnd;
                let o = s.mem.range_mut(p, n as usize)?;
                for i in 0..n as usize { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); o.data[p as u32 as usize + i] = (r >> 33) as u8; }
                s.rnd = r;
                if ext == Ext::RandomOk { z } else { Val::C(n) }
            }
            Ext::Sysconf => Val::C(4096),
            Ext::Gettid => Val::C(1),
            Ext::Getcwd => z,
            Ext::Sym => {
                let w = ca!(0) as u32;
                let idx = s.inputs.len() as u32;
                let v = match self.inmap.get(&(idx, w)) { Some(&v) => v, None => { let (e, v) = self.ar.var(w); self.varexpr.push(e); self.inmap.insert((idx, w), v); v } };
                s.inputs.push(v);
                let e = self.varexpr[v as usize];
                let e = self.ar.zext(e, 64);
                Val::S(e)
            }
            Ext::SymBytes => {
                let (p, n) = (ca!(0), ca!(1));
                for i in 0..n {
                    let idx = s.inputs.len() as u32;
                    let v = match self.inmap.get(&(idx, 8)) { Some(&v) => v, None => { let (e, v) = self.ar.var(8); self.varexpr.push(e); self.inmap.insert((idx, 8), v); v } };
                    s.inputs.push(v);
                    let e = self.varexpr[v as usize];
                    self.put_bytes(s, p + i, &[e])?;
                }
                z
            }
            Ext::Assume => {
                let c = self.val_e(&args[0], w0);
                let c = if self.ar.w(c) > 1 { let k = self.ar.konst(0, w0); let e = self.ar.eq(c, k); self.ar.not(e) } else { c };
                if self.ar.cv(c) == Some(0) { return Err(Stop::Assume); }
                if self.ev(&s.model.clone(), c) != 1 {
                    match self.feasible(&s.pc, &s.model.clone(), c) {
                        None => return Err(Stop::Assume),
                        Some(Err(())) => return Err(Stop::Incomplete("solver unknown (assume)".into())),
                        Some(Ok(mm)) => s.model = mm,
                    }
                }
                self.add_pc(&mut s.pc, c);
                z
            }
            Ext::Assert => {
                self.st.asserts += 1;
                let c = self.val_e(&args[0], w0);
                let c = if self.ar.w(c) > 1 { let k = self.ar.konst(0, w0); let e = self.ar.eq(c, k); self.ar.not(e) } else { c };
                let msg = { let (p, n) = (ca!(1), ca!(2)); self.cstr(s, p, n) };
                if self.ar.cv(c) == Some(1) { return Ok(z); }
                let nc = self.ar.not(c);
                self.st.assert_queries += 1;
                match self.feasible(&s.pc, &s.model.clone(), nc) {
                    None => {}
                    Some(Err(())) => { self.unknown(&format!("assert {}", msg)); }
                    Some(Ok(mm)) => {
                        let keep = s.model.clone();
                        s.model = mm;
                        self.violation(s, format!("assert {}", msg), format!("assertion failed: {}", msg));
                        s.model = keep;
                        if self.ev(&s.model.clone(), c) != 1 {
                            match self.feasible(&s.pc, &s.model.clone(), c) { Some(Ok(mm)) => { s.model = mm; self.add_pc(&mut s.pc, c); } _ => {} }
                        } else {
                            self.add_pc(&mut s.pc, c);
                        }
                    }
                }
                z
            }
            Ext::Reach => { let (p, n) = (ca!(0), ca!(1)); let l = self.cstr(s, p, n); *self.reach.entry(l).or_default() += 1; z }
            Ext::Concretize => { let v = self.conc(s, &args[0], w0)?; cval(v, w0) }
            Ext::IsSym => Val::C(1),
            Ext::Memcpy => { let n = ca!(2); if n > 0 { let (d, sr) = (ca!(0), ca!(1)); s.mem.copy(d, sr, n as usize)?; } args[0].clone() }
            Ext::Memset => {
                let n = ca!(2) as usize;
                if n == 0 { return Ok(args[0].clone()); }
                let d = ca!(0);
                let bv = if m.types.width(ci.argtys[1]) > 8 { self.cast(CastOp::Trunc, m.types.width(ci.argtys[1]), 8, &args[1]) } else { args[1].clone() };
                match bv {
                    Val::C(b) => { let o = s.mem.range_mut(d, n)?; let off = d as u32 as usize; o.data[off..off + n].fill(b as u8); if o.sym.is_some() { o.clear_sym(off, n); } }
                    Val::S(e) => { let v = vec![e; n]; self.put_bytes(s, d, &v)?; }
                    _ => panic!(),
                }
                args[0].clone()
            }
            Ext::Expect | Ext::Tls => args[0].clone(),
            Ext::IsConst => z,
            Ext::UMin | Ext::UMax | Ext::SMin | Ext::SMax => {
                let p = match ext { Ext::UMin => Pred::Ult, Ext::UMax => Pred::Ugt, Ext::SMin => Pred::Slt, _ => Pred::Sgt };
                if let Val::A(_) = &args[0] { return self.vec2(args, ci, |x, w, a, b| { let c = x.icmp(p, w, a, b); match c { Val::C(1) => a.clone(), Val::C(_) => b.clone(), Val::S(c) => { let (p, q) = (x.val_e(a, w), x.val_e(b, w)); let r = x.ar.ite(c, p, q); x.e_val(r) } _ => panic!() } }); }
                match self.icmp(p, w0, &args[0], &args[1]) { Val::C(1) => args[0].clone(), Val::C(_) => args[1].clone(), Val::S(c) => { let (a, b) = (self.val_e(&args[0], w0), self.val_e(&args[1], w0)); let r = self.ar.ite(c, a, b); self.e_val(r) } _ => panic!() }
            }
            Ext::UAddSat | Ext::USubSat | Ext::SAddSat | Ext::SSubSat => {
                if let Val::A(_) = &args[0] { return Err(Stop::Incomplete("vector sat".into())); }
                let (op, k) = match ext { Ext::UAddSat => (BinOp::Add, Ext::UAddO), Ext::USubSat => (BinOp::Sub, Ext::USubO), Ext::SAddSat => (BinOp::Add, Ext::SAddO), _ => (BinOp::Sub, Ext::SSubO) };
                let r = self.bin(op, w0, &args[0], &args[1]);
                let ov = self.overflow(k, w0, &args[0], &args[1]);
                let sat = match ext { Ext::UAddSat => cval(mask(w0), w0), Ext::USubSat => cval(0, w0), _ => {
                    // sign of first operand decides
                    let sg = self.icmp(Pred::Slt, w0, &args[0], &cval(0, w0));
                    let (mn, mx) = (cval(1u128 << (w0 - 1), w0), cval(mask(w0) >> 1, w0));
                    self.choose(&sg, &mn, &mx, w0)
                } };
                self.choose(&ov, &sat, &r, w0)
            }
            Ext::UAddO | Ext::USubO | Ext::UMulO | Ext::SAddO | Ext::SSubO | Ext::SMulO => {
                if let Val::A(_) = &args[0] { return Err(Stop::Incomplete("vector overflow op".into())); }
                let op = match ext { Ext::UAddO | Ext::SAddO => BinOp::Add, Ext::USubO | Ext::SSubO => BinOp::Sub, _ => BinOp::Mul };
                let r = self.bin(op, w0, &args[0], &args[1]);
                let ov = self.overflow(ext, w0, &args[0], &args[1]);
                Val::A(vec![r, ov].into())
            }
            Ext::Scmp | Ext::Ucmp => {
                let wr = m.types.width(ci.retty);
                let p = if ext == Ext::Scmp { Pred::Slt } else { Pred::Ult };
                let lt = self.icmp(p, w0, &args[0], &args[1]);
                let eq = self.icmp(Pred::Eq, w0, &args[0], &args[1]);
                let r = self.choose(&eq, &cval(0, wr), &cval(1, wr), wr);
                self.choose(&lt, &cval(mask(wr), wr), &r, wr)
            }
            Ext::Bswap => { let e = self.val_e(&args[0], w0); let n = w0 / 8; let mut acc: Option<E> = None; for i in (0..n).rev() { let b = self.ar.extract(e, 8 * i + 7, 8 * i); acc = Some(match acc { None => b, Some(l) => self.ar.concat(b, l) }); } self.e_val(acc.unwrap()) }
            Ext::BitRev => { let e = self.val_e(&args[0], w0); let mut acc: Option<E> = None; for i in (0..w0).rev() { let b = self.ar.extract(e, i, i); acc = Some(match acc { None => b, Some(l) => self.ar.concat(b, l) }); } self.e_val(acc.unwrap()) }
            Ext::Ctlz | Ext::Cttz | Ext::Ctpop => {
                if let Some(x) = cv(&args[0]) {
                    let r = match ext { Ext::Ctlz => if x == 0 { w0 } else { x.leading_zeros() - (128 - w0) }, Ext::Cttz => if x == 0 { w0 } else { x.trailing_zeros() }, _ => x.count_ones() };
                    return Ok(cval(r as u128, w0));
                }
                let e = self.val_e(&args[0], w0);
                if ext == Ext::Ctpop {
                    let mut acc = self.ar.konst(0, w0);
                    for i in 0..w0 { let b = self.ar.extract(e, i, i); let b = self.ar.zext(b, w0); acc = self.ar.add(acc, b); }
                    return Ok(self.e_val(acc));
                }
                let mut acc = self.ar.konst(w0 as u128, w0);
                for k in 0..w0 {
                    // lowest priority first
                    let i = if ext == Ext::Ctlz { k } else { w0 - 1 - k };
                    let v = if ext == Ext::Ctlz { w0 - 1 - i } else { i };
                    let b = self.ar.extract(e, i, i);
                    let kv = self.ar.konst(v as u128, w0);
                    acc = self.ar.ite(b, kv, acc);
                }
                self.e_val(acc)
            }
            Ext::Fshl | Ext::Fshr => {
                let k = (self.conc(s, &args[2], w0)? % w0 as u128) as u32;
                let (a, b) = (self.val_e(&args[0], w0), self.val_e(&args[1], w0));
                if k == 0 { return Ok(if ext == Ext::Fshl { args[0].clone() } else { args[1].clone() }); }
                let k = if ext == Ext::Fshl { k } else { w0 - k };
                // (a << k) | (b >> (w-k))
                let h = self.ar.extract(a, w0 - k - 1, 0);
                let l = self.ar.extract(b, w0 - 1, w0 - k);
                let r = self.ar.concat(h, l);
                self.e_val(r)
            }
            Ext::Abs => { let ng = self.icmp(Pred::Slt, w0, &args[0], &cval(0, w0)); let n = self.bin(BinOp::Sub, w0, &cval(0, w0), &args[0]); self.choose(&ng, &n, &args[0], w0) }
            Ext::FpToSiSat => self.cast(CastOp::FpToSi, w0, m.types.width(ci.retty), &args[0]),
            Ext::FpToUiSat => self.cast(CastOp::FpToUi, w0, m.types.width(ci.retty), &args[0]),
            Ext::Trap => return Err(Stop::Panic("trap".into())),
            Ext::Round | Ext::Floor | Ext::Ceil | Ext::Trunc | Ext::Rint => {
                let mode = match ext { Ext::Round => 0, Ext::Floor => 1, Ext::Ceil => 2, Ext::Trunc => 3, _ => 4 };
                let e = self.val_e(&args[0], w0);
                let r = self.ar.fun(Op::FRound, e, w0, mode);
                self.e_val(r)
            }
            Ext::FAbs => { let e = self.val_e(&args[0], w0); let x = self.ar.extract(e, w0 - 2, 0); let r = self.ar.zext(x, w0); self.e_val(r) }
            Ext::CopySign => { let a = self.val_e(&args[0], w0); let b = self.val_e(&args[1], w0); let x = self.ar.extract(a, w0 - 2, 0); let y = self.ar.extract(b, w0 - 1, w0 - 1); let r = self.ar.concat(y, x); self.e_val(r) }
            Ext::FMax | Ext::FMin => {
                let na = self.fcmp(FPred::Uno, w0, &args[0], &args[0]);
                let nb = self.fcmp(FPred::Uno, w0, &args[1], &args[1]);
                let c = self.fcmp(if ext == Ext::FMax { FPred::Ogt } else { FPred::Olt }, w0, &args[0], &args[1]);
                let r = self.choose(&c, &args[0], &args[1], w0);
                let r = self.choose(&nb, &args[0], &r, w0);
                self.choose(&na, &args[1], &r, w0)
            }
            Ext::ReduceOr | Ext::ReduceAnd | Ext::ReduceAdd => {
                let Val::A(es) = &args[0] else { panic!() };
                let w = m.types.width(ci.retty);
                let op = match ext { Ext::ReduceOr => BinOp::Or, Ext::ReduceAnd => BinOp::And, _ => BinOp::Add };
                let mut acc = es[0].clone();
                for e in &es[1..] { acc = self.bin(op, w, &acc, e); }
                acc
            }
            Ext::Xgetbv => self.zero_of(ci.retty),
            Ext::Objsize => self.c_ret(ci, !0),
            Ext::Sqrt | Ext::Fma | Ext::IsFpClass | Ext::Unsupported => return Err(Stop::Incomplete(format!("unsupported external {}", m.funcs[fi as usize].name))),
        })
    }
    fn vec2(&mut self, args: &[Val], ci: &CallI, f: impl Fn(&mut Exec, u32, &Val, &Val) -> Val) -> Result<Val, Stop> {
        let (Val::A(x), Val::A(y)) = (&args[0], &args[1]) else { panic!() };
        let (et, _) = self.m.types.member(ci.argtys[0], 0);
        let w = self.m.types.width(et);
        let r: Vec<Val> = x.iter().zip(y.iter()).map(|(a, b)| f(self, w, a, b)).collect();
        Ok(Val::A(r.into()))
    }
    fn c_ret(&self, ci: &CallI, v: u64) -> Val { let w = self.m.types.width(ci.retty); if w == 0 { Val::C(0) } else { Val::C(v & mask64(w)) } }
    fn choose(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> Val {
        match c { Val::C(1) => a.clone(), Val::C(_) => b.clone(), Val::S(e) => { let (x, y) = (self.val_e(a, w), self.val_e(b, w)); let r = self.ar.ite(*e, x, y); self.e_val(r) } _ => panic!() }
    }
    fn overflow(&mut self, k: Ext, w: u32, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (cv(a), cv(b)) {
            let (mn, mx) = (sx(1u128 << (w - 1), w), (mask(w) >> 1) as i128);
            let r = match k {
                Ext::UAddO => x.checked_add(y).map_or(true, |v| v > mask(w)),
                Ext::USubO => x < y,
                Ext::UMulO => x.checked_mul(y).map_or(true, |v| v > mask(w)),
                Ext::SAddO => sx(x, w).checked_add(sx(y, w)).map_or(true, |v| v < mn || v > mx),
                Ext::SSubO => sx(x, w).checked_sub(sx(y, w)).map_or(true, |v| v < mn || v > mx),
                _ => sx(x, w).checked_mul(sx(y, w)).map_or(true, |v| v < mn || v > mx),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.val_e(a, w), self.val_e(b, w));
        let (imin, imax) = (1u128 << (w - 1), mask(w) >> 1);
        let r = match k {
            Ext::UAddO => match self.ar.cv(y) { Some(c) => { let l = self.ar.konst(mask(w) - c, w); self.ar.ult(l, x) } None => {
                if w <= 64 && self.ar.hi[x as usize].checked_add(self.ar.hi[y as usize]).map_or(false, |v| v <= mask64(w)) { self.ar.fls } else { let t = self.ar.add(x, y); self.ar.ult(t, x) } } },
            Ext::USubO => self.ar.ult(x, y),
            Ext::UMulO => {
                let c = self.ar.cv(y).map(|c| (x, c)).or(self.ar.cv(x).map(|c| (y, c)));
                match c {
                    Some((_, 0)) => self.ar.fls,
                    Some((v, c)) => { let l = self.ar.konst(mask(w) / c, w); self.ar.ult(l, v) }
                    None => if w <= 64 && (self.ar.hi[x as usize] as u128) * (self.ar.hi[y as usize] as u128) <= mask(w) { self.ar.fls } else if w <= 64 {
                        let (p, q) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                        let t = self.ar.mul(p, q);
                        let h = self.ar.extract(t, 2 * w - 1, w);
                        let z = self.ar.konst(0, w);
                        let e = self.ar.eq(h, z);
                        self.ar.not(e)
                    } else { panic!("umulo 128") }
                }
            }
            Ext::SAddO | Ext::SSubO => {
                if let Some(c) = self.ar.cv(y) {
                    let c = sx(c, w);
                    let c = if k == Ext::SSubO { -c } else { c };
                    if c >= 0 { let l = self.ar.konst((sx(imax, w) - c) as u128, w); self.ar.slt(l, x) } else { let l = self.ar.konst((sx(imin, w) - c) as u128, w); self.ar.slt(x, l) }
                } else {
                    let (p, q) = (self.ar.sext(x, w + 1), self.ar.sext(y, w + 1));
                    let t = if k == Ext::SAddO { self.ar.add(p, q) } else { self.ar.sub(p, q) };
                    let (b1, b2) = (self.ar.extract(t, w, w), self.ar.extract(t, w - 1, w - 1));
                    self.ar.xor(b1, b2)
                }
            }
            _ => {
                let c = self.ar.cv(y).map(|c| (x, c)).or(self.ar.cv(x).map(|c| (y, c)));
                match c {
                    Some((_, 0)) => self.ar.fls,
                    Some((v, c)) if sx(c, w) > 0 => {
                        let c = sx(c, w);
                        let hi = self.ar.konst((sx(imax, w) / c) as u128, w);
                        let lo = self.ar.konst((sx(imin, w) / c) as u128, w);
                        let g = self.ar.slt(hi, v);
                        let l = self.ar.slt(v, lo);
                        self.ar.or(g, l)
                    }
                    _ => {
                        if w > 64 { panic!("smulo 128") }
                        let (p, q) = (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w));
                        let t = self.ar.mul(p, q);
                        let r = self.ar.extract(t, w - 1, 0);
                        let back = self.ar.sext(r, 2 * w);
                        let e = self.ar.eq(back, t);
                        self.ar.not(e)
                    }
                }
            }
        };
        self.e_val(r)
    }
}
#[inline]
fn cv(v: &Val) -> Option<u128> { match v { Val::C(x) => Some(*x as u128), Val::W(x) => Some(**x), _ => None } }
fn insval(x: &Val, y: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() { return y.clone(); }
    let Val::A(es) = x else { panic!("insertvalue") };
    let mut v = es.to_vec();
    v[ix[0] as usize] = insval(&v[ix[0] as usize], y, &ix[1..]);
    Val::A(v.into())
}

fn classify(f: &Func) -> Ext {
    let n = f.name.as_str();
    if f.defined {
        if n.contains("4core9panicking") { return Ext::Panic; }
        if n.contains("rust_begin_unwind") || n.contains("3std9panicking11begin_panic") || n.contains("18handle_alloc_error") || n.contains("15handle_alloc_error") || n.contains("7process5abort") || n.contains("14abort_internal") || n.contains("12___rust_abort") || n.contains("17capacity_overflow") || n.contains("raw_vec12handle_error") { return Ext::Panic; }
        // hashing ignores the keys, so that all of them collide
        if n.contains("6Hasher5write") && (n.contains("4core4hash3sip") || n.contains("13DefaultHasher")) { return Ext::Nop; }
        if n.contains("9getrandom8backends") && n.contains("17use_file_fallback") { return Ext::RandomOk; }
        return Ext::None;
    }
    let b = |p: &str| n.starts_with(p);
    if let Some(i) = n.strip_prefix("llvm.") {
        let is = |p: &str| i.starts_with(p);
        return if is("memcpy") || is("memmove") { Ext::Memcpy } else if is("memset") { Ext::Memset }
        else if is("lifetime") || is("assume") || is("experimental.noalias") || is("prefetch") || is("dbg") || is("x86.sse2.pause") || is("x86.sse2.lfence") || is("donothing") || is("invariant") || is("sideeffect") || is("var.annotation") { Ext::Nop }
        else if is("is.constant") { Ext::IsConst } else if is("expect") || is("launder") || is("strip.invariant") { Ext::Expect }
        else if is("threadlocal.address") { Ext::Tls }
        else if is("umin") { Ext::UMin } else if is("umax") { Ext::UMax } else if is("smin") { Ext::SMin } else if is("smax") { Ext::SMax }
        else if is("uadd.sat") { Ext::UAddSat } else if is("usub.sat") { Ext::USubSat } else if is("sadd.sat") { Ext::SAddSat } else if is("ssub.sat") { Ext::SSubSat }
        else if is("uadd.with") { Ext::UAddO } else if is("usub.with") { Ext::USubO } else if is("umul.with") { Ext::UMulO } else if is("sadd.with") { Ext::SAddO } else if is("ssub.with") { Ext::SSubO } else if is("smul.with") { Ext::SMulO }
        else if is("scmp") { Ext::Scmp } else if is("ucmp") { Ext::Ucmp } else if is("bswap") { Ext::Bswap } else if is("bitreverse") { Ext::BitRev } else if is("ctlz") { Ext::Ctlz } else if is("cttz") { Ext::Cttz } else if is("ctpop") { Ext::Ctpop }
        else if is("fshl") { Ext::Fshl } else if is("fshr") { Ext::Fshr } else if is("abs") { Ext::Abs } else if is("fptosi.sat") { Ext::FpToSiSat } else if is("fptoui.sat") { Ext::FpToUiSat }
        else if is("trap") || is("ubsantrap") || is("debugtrap") { Ext::Trap }
        else if is("round.") { Ext::Round } else if is("floor") { Ext::Floor } else if is("ceil") { Ext::Ceil } else if is("trunc") { Ext::Trunc } else if is("rint") || is("nearbyint") || is("roundeven") { Ext::Rint }
        else if is("fabs") { Ext::FAbs } else if is("copysign") { Ext::CopySign } else if is("maxnum") || is("maximum") { Ext::FMax } else if is("minnum") || is("minimum") { Ext::FMin }
        else if is("vector.reduce.or") { Ext::ReduceOr } else if is("vector.reduce.and") { Ext::ReduceAnd } else if is("vector.reduce.add") { Ext::ReduceAdd }
        else if is("x86.xgetbv") { Ext::Xgetbv } else if is("objectsize") { Ext::Objsize }
        else { Ext::Unsupported };
    }
    match n {
        "malloc" => Ext::Malloc, "calloc" => Ext::Calloc, "realloc" => Ext::Realloc, "posix_memalign" => Ext::PosixMemalign, "free" => Ext::Free,
        "memcmp" => Ext::Memcmp, "bcmp" => Ext::Bcmp, "strlen" => Ext::Strlen, "__errno_location" => Ext::Errno,
        "memcpy" | "memmove" => Ext::Memcpy, "memset" => Ext::Memset,
        "write" => Ext::Write, "writev" => Ext::Write, "clock_gettime" => Ext::Clock, "getrandom" => Ext::GetRandom, "syscall" => Ext::Syscall,
        "sysconf" => Ext::Sysconf, "gettid" => Ext::Gettid, "getenv" | "getcwd" | "dlsym" | "realpath" => Ext::RetNull,
        "open" | "open64" | "stat64" | "fstat64" | "lstat64" | "statx" | "readlink" | "close" | "read" | "lseek64" | "mmap64" => Ext::RetM1,
        "abort" | "_exit" | "exit" => Ext::Panic,
        "sx_sym" => Ext::Sym, "sx_assume" => Ext::Assume, "sx_assert" => Ext::Assert, "sx_reach" => Ext::Reach, "sx_bytes" => Ext::SymBytes, "sx_conc" => Ext::Concretize, "sx_is_sym" => Ext::IsSym,
        "__cxa_thread_atexit_impl" | "sigaction" | "sigaltstack" | "munmap" | "mprotect" | "signal" | "fcntl" | "poll" | "sched_yield" => Ext::Ret0,
        _ if b("pthread_") => Ext::Ret0,
        _ => Ext::Unsupported,
    }
}
