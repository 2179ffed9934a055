//! Symbolic interpreter over the parsed IR.
use crate::ir::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { I(u128), T(T), A(Rc<Vec<V>>) }

#[derive(Clone, Default)]
pub struct Obj { pub size: u64, pub alive: bool, pub ro: bool, pub bytes: Vec<u8>, pub sym: BTreeMap<u32, T> }
const PG: usize = 64;
#[derive(Clone, Default)]
pub struct Mem { pages: Vec<Rc<Vec<Option<Rc<Obj>>>>>, next: u32 }

impl Mem {
    pub fn new() -> Mem { Mem { pages: vec![], next: 1 } }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> { self.pages.get(id as usize / PG)?.get(id as usize % PG)?.as_ref() }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> { let p = self.pages.get_mut(id as usize / PG)?; let o = Rc::make_mut(p).get_mut(id as usize % PG)?.as_mut()?; Some(Rc::make_mut(o)) }
    pub fn put(&mut self, o: Obj) -> u32 {
        let id = self.next; self.next += 1;
        let (p, i) = (id as usize / PG, id as usize % PG);
        while self.pages.len() <= p { self.pages.push(Rc::new(vec![None; PG])); }
        Rc::make_mut(&mut self.pages[p])[i] = Some(Rc::new(o));
        id
    }
    pub fn drop_obj(&mut self, id: u32) { if let Some(p) = self.pages.get_mut(id as usize / PG) { Rc::make_mut(p)[id as usize % PG] = None; } }
}
pub fn addr_of(id: u32) -> u64 { ((id as u64) << 32) | OBJ_OFF }

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub block: u32, pub ip: u32, pub prev: u32, pub regs: Vec<V>, pub allocas: Vec<u32>, pub dst: u32, pub cont: Option<u32> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>, pub mem: Mem, pub pc: Vec<T>, /* what the solver found pc to imply */ pub extra: Vec<T>, pub model: Rc<Model>,
    pub inputs: Vec<T>, pub expect_panic: bool, pub no_overflow: bool, pub job: u32, pub steps: u64, pub covers: Rc<Vec<u32>>, pub depth: u32, pub known: Rc<Vec<u32>>,
}

#[derive(Clone, Debug)]
pub enum End { Done, Assumed, PanicOk, Panic(String), Err(String), Stop }

#[derive(Clone, Debug)]
pub struct Violation { pub job: u32, pub kind: String, pub msg: String, pub prop: u32, pub inputs: Vec<u128>, pub known: bool }

pub struct Job { pub entry: String, pub params: Vec<u64>, pub inputs: Option<Vec<u128>> }

#[derive(Default)]
pub struct Results {
    pub paths_done: u64, pub paths_assumed: u64, pub paths_panic_ok: u64, pub forks: u64, pub instrs: u64, pub checks: u64, pub checks_const: u64, pub check_queries: u64,
    pub violations: Vec<Violation>, pub errors: Vec<(u32, String)>, pub unknown: u64, pub funcs: FxSet<u32>, pub covers: BTreeMap<(u32, u32), u64>, pub job_paths: BTreeMap<u32, u64>, pub samples: Vec<(u32, Vec<u128>)>,
    pub killed: u64, pub merged: u64, pub killed_jobs: BTreeSet<u32>, pub steps_max: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BI { None, Panic, Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Strlen, Abort, Memcpy, Memset, Nop, Umax, Umin, Smax, Smin, UaddSat, UsubSat, SaddSat, SsubSat, Ctlz, Cttz, Ctpop, Abs, Fshl, Fshr, Bswap, Bitrev, Ucmp, Scmp, UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, Assume, IsConst, Tls, Trap, Expect, Fabs, Copysign, Fmin, Fmax, FpClass,
    SymBits, SymAssume, SymCheck, SymChoose, SymConcrete, SymCover, SymExpectPanic, SymExpectRefusal, SymParam, SymKnown, SymTrace, SymSmall,
    ZCompress2, ZIsError, ZBound, ZCreate, ZErrName, ZSetParam, ZNop0, ZDecompress, External }

pub struct Ex {
    pub m: Module, pub d: Dag, pub s: Solver, pub bi: Vec<BI>, pub work: Vec<State>, pub r: Results, pub jobs: Vec<Job>, pub prop: u32, pub thorough: bool,
    pub base_mem: Mem, pub max_steps: u64, pub trace: bool, pub recent: Vec<Rc<Model>>, pub deadline: Option<std::time::Instant>, pub stop_at_violations: usize,
    pub seen_viol: FxSet<(u32, String)>, pub prof: Vec<u64>, pub qlog: bool, facts: FxMap<T, T>, facts_of: (Vec<T>, Vec<T>), under_memo: FxMap<T, T>, atom_memo: FxMap<T, T>, merge: bool, wlog: Option<Vec<(u32, u64, u64)>>,
}
type X<Y> = Result<Y, End>;
fn err<Y>(s: impl Into<String>) -> X<Y> { Err(End::Err(s.into())) }

fn classify(name: &str, has_body: bool) -> BI {
    if let Some(n) = name.strip_prefix("llvm.") {
        let b = |p: &str| n.starts_with(p);
        return if b("memcpy") || b("memmove") { BI::Memcpy } else if b("memset") { BI::Memset } else if b("lifetime") || b("experimental.noalias") || b("dbg") || b("x86.sse2.pause") || b("donothing") || b("invariant") || b("var.annotation") { BI::Nop }
        else if b("umax") { BI::Umax } else if b("umin") { BI::Umin } else if b("smax") { BI::Smax } else if b("smin") { BI::Smin }
        else if b("uadd.sat") { BI::UaddSat } else if b("usub.sat") { BI::UsubSat } else if b("sadd.sat") { BI::SaddSat } else if b("ssub.sat") { BI::SsubSat }
        else if b("ctlz") { BI::Ctlz } else if b("cttz") { BI::Cttz } else if b("ctpop") { BI::Ctpop } else if b("abs") { BI::Abs } else if b("fshl") { BI::Fshl } else if b("fshr") { BI::Fshr }
        else if b("bswap") { BI::Bswap } else if b("bitreverse") { BI::Bitrev } else if b("ucmp") { BI::Ucmp } else if b("scmp") { BI::Scmp }
        else if b("uadd.with") { BI::UaddO } else if b("usub.with") { BI::UsubO } else if b("umul.with") { BI::UmulO } else if b("sadd.with") { BI::SaddO } else if b("ssub.with") { BI::SsubO } else if b("smul.with") { BI::SmulO }
        else if b("assume") { BI::Assume } else if b("is.constant") { BI::IsConst } else if b("threadlocal") { BI::Tls } else if b("trap") || b("ubsantrap") { BI::Trap } else if b("expect") { BI::Expect } else if b("fabs") { BI::Fabs } else if b("copysign") { BI::Copysign } else if b("minnum") || b("minimum") { BI::Fmin } else if b("maxnum") || b("maximum") { BI::Fmax } else if b("is.fpclass") { BI::FpClass }
        else { BI::External };
    }
    match name {
        "malloc" => return BI::Malloc, "calloc" => return BI::Calloc, "realloc" => return BI::Realloc, "free" => return BI::Free, "posix_memalign" => return BI::PosixMemalign,
        "memcmp" | "bcmp" => return BI::Memcmp, "strlen" => return BI::Strlen, "abort" => return BI::Abort, "memcpy" | "memmove" => return BI::Memcpy, "memset" => return BI::Memset,
        "sym_bits" => return BI::SymBits, "sym_assume" => return BI::SymAssume, "sym_check" => return BI::SymCheck, "sym_choose" => return BI::SymChoose, "sym_concrete" => return BI::SymConcrete, "sym_cover" => return BI::SymCover,
        "sym_expect_panic" => return BI::SymExpectPanic, "sym_expect_refusal" => return BI::SymExpectRefusal, "sym_param" => return BI::SymParam, "sym_known" => return BI::SymKnown, "sym_trace" => return BI::SymTrace, "sym_small" => return BI::SymSmall,
        "ZSTD_compress2" => return BI::ZCompress2, "ZSTD_isError" => return BI::ZIsError, "ZSTD_compressBound" => return BI::ZBound, "ZSTD_createCCtx" => return BI::ZCreate, "ZSTD_getErrorName" => return BI::ZErrName,
        "ZSTD_CCtx_setParameter" => return BI::ZSetParam, "ZSTD_CCtx_loadDictionary" | "ZSTD_freeCCtx" => return BI::ZNop0, "ZSTD_decompress" => return BI::ZDecompress,
        _ => {}
    }
    // every panic funnels through core::panicking / std::panicking
    if name.starts_with("_R") && name.contains("9panicking") && !name.contains("11panic_count") && !name.contains("9panicking9panicking") { return BI::Panic; }
    if name.contains("18handle_alloc_error") || name.contains("rust_alloc_error_handler") || name.contains("rust_begin_unwind") { return BI::Panic; }
    if !has_body { BI::External } else { BI::None }
}

extern "C" {
    fn ZSTD_createCCtx() -> *mut u8; fn ZSTD_freeCCtx(c: *mut u8) -> usize; fn ZSTD_CCtx_setParameter(c: *mut u8, p: i32, v: i32) -> usize;
    fn ZSTD_compress2(c: *mut u8, d: *mut u8, dc: usize, s: *const u8, n: usize) -> usize; fn ZSTD_isError(c: usize) -> u32; fn ZSTD_compressBound(n: usize) -> usize;
    fn ZSTD_decompress(d: *mut u8, dc: usize, s: *const u8, n: usize) -> usize;
}

impl Ex {
    pub fn new(m: Module, jobs: Vec<Job>, prop: u32, thorough: bool) -> Result<Ex, String> {
        let bi: Vec<BI> = m.funcs.iter().map(|f| classify(&f.name, f.body.is_some())).collect();
        let mut mem = Mem::new();
        for i in 0..m.globals.len() {
            let g = &m.globals[i];
            let bytes = m.global_init(i as u32).map_err(|e| format!("global {}: {}", g.name, e))?;
            let id = mem.put(Obj { size: g.size, alive: !g.ext, ro: g.constant, bytes, sym: Default::default() });
            assert_eq!(addr_of(id), global_addr(i as u32));
        }
        let n = m.funcs.len();
        Ok(Ex { m, d: Dag::new(), s: Solver::new(), bi, work: vec![], r: Default::default(), jobs, prop, thorough, base_mem: mem, max_steps: 1_000_000_000, trace: false, recent: vec![], deadline: None, stop_at_violations: 3, seen_viol: Default::default(), prof: vec![0; n], qlog: std::env::var_os("SYMEX_QLOG").is_some(), facts: Default::default(), facts_of: Default::default(), under_memo: Default::default(), atom_memo: Default::default(), merge: std::env::var_os("SYMEX_NOMERGE").is_none(), wlog: None })
    }
    pub fn start(&mut self) -> Result<(), String> {
        for j in 0..self.jobs.len() {
            let id = *self.m.func_idx.get(self.jobs[j].entry.as_str()).ok_or_else(|| format!("entry {} not found", self.jobs[j].entry))?;
            let f = self.m.func(id)?;
            let fr = Frame { block: 0, ip: 0, prev: 0, regs: vec![V::I(0); f.nregs as usize], allocas: vec![], dst: NODST, cont: None, f };
            self.r.funcs.insert(id);
            self.work.push(State { frames: vec![Rc::new(fr)], mem: self.base_mem.clone(), pc: vec![], extra: vec![], model: Rc::new(Model::default()), inputs: vec![], expect_panic: false, no_overflow: false, job: j as u32, steps: 0, covers: Default::default(), depth: 0, known: Default::default() });
        }
        Ok(())
    }
    // ---------------------------------------------------------------- values
    fn term(&mut self, v: &V, w: u32) -> T { match v { V::I(x) => self.d.cst(*x, w), V::T(t) => { debug_assert_eq!(self.d.w(*t), w); *t } V::A(_) => panic!("aggregate as term") } }
    fn val(&self, t: T) -> V { match self.d.as_const(t) { Some(k) => V::I(k), None => V::T(t) } }
    #[inline] fn opd(&self, fr: &Frame, o: &Opd) -> V {
        match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(k) => V::I(*k), Opd::Agg(k) => kval(k) }
    }
    // ---------------------------------------------------------------- solver
    fn slice(&mut self, pc: &[T], q: T) -> Vec<T> {
        let mut vs: FxSet<u32> = self.d.vars(q).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() { if !used[i] { let v = self.d.vars(c); if v.iter().any(|x| vs.contains(x)) { used[i] = true; ch = true; vs.extend(v.iter().copied()); } } }
            if !ch { break; }
        }
        let mut out: Vec<T> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, &c)| c).collect();
        out.push(q);
        out
    }
    /// model of pc && q
    fn sat(&mut self, st: &State, q: T) -> X<Option<Rc<Model>>> {
        if q == 0 { return Ok(None); }
        if self.d.eval(q, &st.model) == 1 { return Ok(Some(st.model.clone())); }
        if st.pc.contains(&q) { return err("state model violates its own path condition"); }
        let nq = self.d.not(q);
        if st.pc.contains(&nq) { return Ok(None); }
        let cs = self.slice(&st.pc, q);
        for m in self.recent.iter().rev() { if self.d.eval(q, m) == 1 && cs.iter().all(|&c| self.d.eval(c, m) == 1) {
            let mut vals: FxMap<u32, u128> = st.model.vals.clone();
            for &c in &cs { for &v in self.d.vars(c).iter() { vals.insert(v, m.vals.get(&v).copied().unwrap_or(0)); } }
            return Ok(Some(Rc::new(Model { vals, cache: Default::default() })));
        } }
        let t0 = std::time::Instant::now();
        if let Some(d) = self.deadline { if t0 > d { return Err(End::Stop); } }
        let mut early = None;
        if cs.len() > 2 && cs.iter().any(|&c| self.d.size(c).1) {
            // hard arithmetic: constraints are added only as models violate them
            let mut sub = vec![]; let mut rest = cs.clone(); rest.pop();
            for _ in 0..16 {
                sub.push(q);
                let r = self.s.check(&mut self.d, &sub); sub.pop();
                match r {
                    Ans::Unsat => { early = Some(Ans::Unsat); break; }
                    Ans::Unknown => break,
                    Ans::Sat(mv) => {
                        let mut vals = st.model.vals.clone();
                        for (k, v) in &mv { vals.insert(*k, *v); }
                        let m = Model { vals, cache: Default::default() };
                        let mut bad: Vec<(u32, T)> = vec![];
                        for &c in &rest { if self.d.eval(c, &m) != 1 { bad.push((self.d.size(c).0, c)); } }
                        if bad.is_empty() { let mut all = mv.clone(); for &c in &cs { for &v in self.d.vars(c).iter() { all.entry(v).or_insert(m.vals.get(&v).copied().unwrap_or(0)); } } early = Some(Ans::Sat(all)); break; }
                        bad.sort();
                        for (_, c) in bad.into_iter().take(2) { sub.push(c); rest.retain(|&x| x != c); }
                    }
                }
            }
        }
        let ans = match early { Some(a) => a, None => self.s.check(&mut self.d, &cs) };
        if self.qlog { let fr = st.frames.last().unwrap(); eprintln!("Q\t{}\t{}:{}\t{}\t{}\t{}", match &ans { Ans::Unsat => "unsat", Ans::Sat(_) => "sat", _ => "unk" }, fr.f.name, fr.f.blocks[fr.block as usize].name, t0.elapsed().as_micros(), cs.len(), st.frames.iter().rev().take(4).map(|f| f.f.name.as_str()).collect::<Vec<_>>().join("<")); if std::env::var_os("SYMEX_QTEXT").is_some() && t0.elapsed().as_micros() > std::env::var("SYMEX_QTEXT").unwrap().parse().unwrap_or(300_000) { for &c in &cs { eprintln!("   | {}", self.d.show(c, 14)); } } }
        match ans {
            Ans::Unsat => Ok(None),
            Ans::Unknown => { self.r.unknown += 1; if self.r.errors.len() < 50 { self.r.errors.push((st.job, "solver returned unknown".into())); } Ok(None) }
            Ans::Sat(mv) => {
                let mut vals = st.model.vals.clone();
                for (k, v) in mv { vals.insert(k, v); }
                let m = Rc::new(Model { vals, cache: Default::default() });
                for &c in &cs { if self.d.eval(c, &m) != 1 { return err("solver model does not satisfy the query (translation bug)"); } }
                self.recent.push(m.clone()); if self.recent.len() > 6 { self.recent.remove(0); }
                Ok(Some(m))
            }
        }
    }
    /// cheap consequences of the path condition: facts of the form "these leading bits are all zero" and their negations
    fn implied(&mut self, st: &State, c: T) -> Option<bool> {
        if st.pc.contains(&c) { return Some(true); }
        let nc = self.d.not(c);
        if st.pc.contains(&nc) { return Some(false); }
        let (core, neg) = self.d.strip_not(c);
        let t = self.d.eq_zero(core)?; let w = self.d.w(t);
        for i in (0..st.pc.len()).rev() {
            let (fcore, fneg) = self.d.strip_not(st.pc[i]);
            let ft = match self.d.eq_zero(fcore) { Some(x) => x, None => continue }; let fw = self.d.w(ft);
            if !fneg && fw > w { if self.d.extract(ft, fw - w, w) == t { return Some(!neg); } }
            if fneg && fw < w { if self.d.extract(t, w - fw, fw) == ft { return Some(neg); } }
        }
        None
    }
    /// the term simplified by the facts of the path
    fn under(&mut self, st: &State, t: T) -> T {
        if t < 2 || st.pc.is_empty() { return t; }
        if self.facts_of.0 != st.pc || self.facts_of.1 != st.extra {
            self.facts.clear();
            for &p in st.pc.iter().chain(&st.extra) { fact(&self.d, &mut self.facts, p); }
            self.d.learn(&self.facts);
            self.under_memo.clear(); self.atom_memo.clear();
            self.facts_of = (st.pc.clone(), st.extra.clone());
        }
        let mut fuel = 400;
        let (f, mut m) = (std::mem::take(&mut self.facts), std::mem::take(&mut self.under_memo));
        let r = self.d.under(t, &f, &mut m, &mut fuel);
        if fuel == 0 { m.clear(); }
        let r = if r > 1 { match self.atom_memo.get(&r) { Some(&x) => x, None => { let x = self.d.by_atoms(r, &f); self.atom_memo.insert(r, x); x } } } else { r };
        self.facts = f; self.under_memo = m;
        r
    }
    /// decide a boolean term; may fork (other state = clone made by `mk_other`)
    fn branch(&mut self, st: &mut State, c: T) -> X<(bool, Option<State>)> {
        let c = self.under(st, c);
        if c == 0 { return Ok((false, None)); }
        if c == 1 { return Ok((true, None)); }
        let b = self.d.eval(c, &st.model) == 1;
        let (same, other) = if b { (c, self.d.not(c)) } else { (self.d.not(c), c) };
        if let Some(r) = self.implied(st, c) { if r != b { return err("path condition contradicts the state's model"); } return Ok((b, None)); }
        match self.sat(st, other)? {
            None => { st.extra.push(same); Ok((b, None)) }
            Some(m) => {
                let mut o = st.clone();
                o.pc.push(other); o.model = m; o.depth += 1;
                st.pc.push(same); st.depth += 1;
                self.r.forks += 1;
                Ok((b, Some(o)))
            }
        }
    }
    /// value of a term on this path; forks over the other values (the clone re-executes the instruction)
    fn concretize(&mut self, st: &mut State, t: T) -> X<u128> {
        if let Some(k) = self.d.as_const(t) { return Ok(k); }
        let w = self.d.w(t);
        if let Some(k) = { let u = self.under(st, t); self.d.as_const(u) } { return Ok(k); }
        let v = self.d.eval(t, &st.model);
        let k = self.d.cst(v, w);
        let e = self.d.eq(t, k);
        if e == 1 { return Ok(v); }
        let (_, o) = self.branch(st, e)?;
        if let Some(mut o) = o { let n = o.frames.len() - 1; Rc::make_mut(&mut o.frames[n]).ip -= 1; self.work.push(o); }
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &V) -> X<u128> { match v { V::I(x) => Ok(*x), V::T(t) => self.concretize(st, *t), V::A(_) => err("aggregate where scalar expected") } }
    fn assume(&mut self, st: &mut State, c: T) -> X<()> {
        if c == 1 { return Ok(()); }
        if c == 0 { return Err(End::Assumed); }
        match self.sat(st, c)? { None => Err(End::Assumed), Some(m) => { if !st.pc.contains(&c) { st.pc.push(c); } st.model = m; Ok(()) } }
    }
    /// gives up the current state and everything pending
    pub fn kill(&mut self, job: u32) { self.r.killed += 1 + self.work.len() as u64; self.r.killed_jobs.insert(job); for s in self.work.drain(..) { self.r.killed_jobs.insert(s.job); } }
    pub fn violation(&mut self, st: &State, m: &Model, kind: &str, msg: String, prop: u32, known: bool) {
        let key = (st.job, format!("{}{}{}", kind, msg, known));
        if !self.seen_viol.insert(key) { return; }
        let inputs = st.inputs.iter().map(|&t| self.d.eval(t, m)).collect();
        self.r.violations.push(Violation { job: st.job, kind: kind.into(), msg, prop, inputs, known });
    }
    // ---------------------------------------------------------------- memory
    fn alloc(&mut self, st: &mut State, size: u64) -> X<u64> {
        if size > 0x4000_0000 { return err(format!("allocation of {} bytes", size)); }
        let id = st.mem.put(Obj { size, alive: true, ro: false, bytes: Vec::new(), sym: Default::default() });
        Ok(addr_of(id))
    }
    fn locate<'a>(st: &'a State, a: u64, n: u64) -> X<(u32, u64)> {
        let id = (a >> 32) as u32; let off = (a & 0xffff_ffff).wrapping_sub(OBJ_OFF);
        if n == 0 { return Ok((id, off)); }
        match st.mem.get(id) {
            Some(o) if o.alive => if off.checked_add(n).map_or(false, |e| e <= o.size) { Ok((id, off)) } else { err(format!("memory access out of bounds: offset {} len {} of object size {}", off as i64, n, o.size)) },
            _ => err(format!("memory access to invalid address {:#x} len {}", a, n)),
        }
    }
    /// a pointer that is one of a few known addresses, all of them accessible: the addresses with (exclusive) conditions
    fn ptr_cases(&mut self, st: &State, p: T, n: u64) -> Option<Vec<(T, u64)>> {
        let p = self.under(st, p);
        let cs = self.d.cases(p, 4)?;
        if cs.len() < 2 || cs.iter().any(|&(_, a)| Self::locate(st, a as u64, n.max(1)).is_err()) { return None; }
        Some(cs.into_iter().map(|(c, a)| (c, a as u64)).collect())
    }
    /// load at a symbolic offset of a small constant table: a selection over its entries
    fn load_table(&mut self, st: &mut State, p: T, bits: u32) -> X<Option<T>> {
        let n = (bits as u64 + 7) / 8;
        let id = (self.d.eval(p, &st.model) as u64 >> 32) as u32;
        let o = match st.mem.get(id) { Some(o) if o.ro && o.alive && o.sym.is_empty() && o.size >= n && o.size <= 1024 => o.clone(), _ => return Ok(None) };
        let base = self.d.cst(addr_of(id) as u128, 64); let off = self.d.sub(p, base); let off = self.under(st, off);
        if self.d.as_const(off).is_some() { return Ok(None); }
        let last = o.size - n;
        let k = self.d.cst(last as u128, 64); let inside = self.d.ule(off, k); let outside = self.d.not(inside);
        if outside != 0 && self.sat(st, outside)?.is_some() { return Ok(None); }
        let mut lo = 0; let mut low = 0u64;
        while lo < 4 { let b = self.d.extract(off, lo, 1); match self.d.as_const(b) { Some(x) => { low |= (x as u64) << lo; lo += 1; } None => break } }
        let hi = 64 - last.leading_zeros().min(63);
        if hi <= lo { return Ok(None); }
        let mut row: Vec<Option<T>> = vec![];
        for i in 0..1u64 << (hi - lo) { let a = (i << lo) | low; row.push(if a <= last { let mut v = 0u128; for j in 0..n { v |= (o.bytes.get((a + j) as usize).copied().unwrap_or(0) as u128) << (8 * j); } Some(self.d.cst(v & mask(bits), bits)) } else { None }); }
        for b in lo..hi {
            let c = self.d.extract(off, b, 1);
            row = row.chunks(2).map(|p| match (p[0], p[1]) { (Some(x), Some(y)) => Some(self.d.ite(c, y, x)), (x, y) => x.or(y) }).collect();
        }
        Ok(row[0])
    }
    fn load_int(&mut self, st: &State, a: u64, bits: u32) -> X<V> {
        let n = (bits as u64 + 7) / 8;
        let (id, off) = Self::locate(st, a, n)?;
        let o = st.mem.get(id).unwrap();
        if o.sym.is_empty() || o.sym.range(off as u32..(off + n) as u32).next().is_none() {
            let mut b = [0u8; 16];
            let l = o.bytes.len() as u64;
            if off + n <= l { b[..n as usize].copy_from_slice(&o.bytes[off as usize..(off + n) as usize]); }
            else if off < l { b[..(l - off) as usize].copy_from_slice(&o.bytes[off as usize..]); }
            return Ok(V::I(u128::from_le_bytes(b) & mask(bits)));
        }
        let o = o.clone();
        let mut acc: Option<T> = None;
        for i in 0..n {
            let p = off + i;
            let t = match o.sym.get(&(p as u32)) { Some(&t) => t, None => self.d.cst(o.bytes.get(p as usize).copied().unwrap_or(0) as u128, 8) };
            acc = Some(match acc { None => t, Some(x) => self.d.concat(t, x) });
        }
        let mut t = acc.unwrap();
        if (n * 8) as u32 != bits { t = self.d.extract(t, 0, bits); }
        Ok(self.val(t))
    }
    fn store_int(&mut self, st: &mut State, a: u64, v: &V, bits: u32) -> X<()> {
        let n = (bits as u64 + 7) / 8;
        let (id, off) = Self::locate(st, a, n)?;
        if st.mem.get(id).unwrap().ro { return err("write to constant memory"); }
        let terms: Option<Vec<T>> = match v {
            V::I(_) => None,
            V::T(t) => { let t = self.d.zext(*t, n as u32 * 8); Some((0..n).map(|i| self.d.extract(t, i as u32 * 8, 8)).collect()) }
            V::A(_) => return err("store of aggregate as int"),
        };
        if let Some(l) = &mut self.wlog { l.push((id, off, n)); }
        let o = st.mem.get_mut(id).unwrap();
        let end = (off + n) as usize;
        if o.bytes.len() < end { let nl = end.max((o.bytes.len() * 2).min(o.size as usize)).min(o.size as usize); o.bytes.resize(nl.max(end), 0); }
        match terms {
            None => {
                if let V::I(x) = v { o.bytes[off as usize..end].copy_from_slice(&x.to_le_bytes()[..n as usize]); }
                if !o.sym.is_empty() { for i in 0..n { o.sym.remove(&((off + i) as u32)); } }
            }
            Some(ts) => for (i, t) in ts.into_iter().enumerate() {
                let p = off as usize + i;
                match self.d.as_const(t) { Some(k) => { o.bytes[p] = k as u8; o.sym.remove(&(p as u32)); } None => { o.bytes[p] = 0; o.sym.insert(p as u32, t); } }
            },
        }
        Ok(())
    }
    fn load(&mut self, st: &State, a: u64, t: &Ty) -> X<V> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => self.load_int(st, a, t.bits()),
            Ty::Struct(..) | Ty::Array(..) => { let mut v = vec![]; for i in 0..t.len() { v.push(self.load(st, a + t.field_off(i), &t.elem(i))?); } Ok(V::A(Rc::new(v))) }
            Ty::Vector(n, e) if e.bits() % 8 == 0 => { let mut v = vec![]; for i in 0..*n { v.push(self.load(st, a + i * e.bits() as u64 / 8, e)?); } Ok(V::A(Rc::new(v))) }
            _ => err(format!("load of {:?}", t)),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, t: &Ty, v: &V) -> X<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => self.store_int(st, a, v, t.bits()),
            Ty::Struct(..) | Ty::Array(..) => { for i in 0..t.len() { let e = t.elem(i); let x = agg_get(v, i); self.store(st, a + t.field_off(i), &e, &x)?; } Ok(()) }
            Ty::Vector(n, e) if e.bits() % 8 == 0 => { for i in 0..*n as usize { let x = agg_get(v, i); self.store(st, a + i as u64 * e.bits() as u64 / 8, e, &x)?; } Ok(()) }
            _ => err(format!("store of {:?}", t)),
        }
    }
    /// bytes as values
    fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> X<Vec<V>> {
        if n == 0 { return Ok(vec![]); }
        let (id, off) = Self::locate(st, a, n)?; let o = st.mem.get(id).unwrap();
        Ok((0..n).map(|i| { let p = off + i; match o.sym.get(&(p as u32)) { Some(&t) => V::T(t), None => V::I(o.bytes.get(p as usize).copied().unwrap_or(0) as u128) } }).collect())
    }
    fn write_bytes(&mut self, st: &mut State, a: u64, b: &[V]) -> X<()> {
        if b.is_empty() { return Ok(()); }
        let (id, off) = Self::locate(st, a, b.len() as u64)?;
        let o = st.mem.get_mut(id).unwrap();
        if o.ro { return err("write to constant memory"); }
        let end = off as usize + b.len();
        if o.bytes.len() < end { o.bytes.resize(end, 0); }
        for (i, v) in b.iter().enumerate() { let p = off as usize + i; match v { V::I(x) => { o.bytes[p] = *x as u8; o.sym.remove(&(p as u32)); } V::T(t) => { o.sym.insert(p as u32, *t); } _ => {} } }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 { return Ok(()); }
        let (sid, so) = Self::locate(st, s, n)?; let (did, dof) = Self::locate(st, d, n)?;
        let src = st.mem.get(sid).unwrap().clone();
        let o = st.mem.get_mut(did).unwrap();
        if o.ro { return err("write to constant memory"); }
        let end = (dof + n) as usize;
        let avail = (src.bytes.len() as u64).saturating_sub(so).min(n) as usize;
        if o.bytes.len() < end && (avail > 0 || o.bytes.len() as u64 > dof) { let nl = end.max((o.bytes.len() * 2).min(o.size as usize)); o.bytes.resize(nl, 0); }
        if o.bytes.len() >= end {
            o.bytes[dof as usize..dof as usize + avail].copy_from_slice(&src.bytes[so as usize..so as usize + avail]);
            for b in &mut o.bytes[dof as usize + avail..end] { *b = 0; }
        }
        if !o.sym.is_empty() { let ks: Vec<u32> = o.sym.range(dof as u32..end as u32).map(|(k, _)| *k).collect(); for k in ks { o.sym.remove(&k); } }
        if !src.sym.is_empty() { for (k, t) in src.sym.range(so as u32..(so + n) as u32) { let p = (*k as u64 - so + dof) as u32; o.sym.insert(p, *t); } 
            if o.bytes.len() < end { o.bytes.resize(end, 0); } }
        Ok(())
    }
    // ---------------------------------------------------------------- run one state until it ends
    pub fn run(&mut self, st: &mut State) -> End {
        let mut budget: u32 = 0;
        loop {
            budget += 1;
            if budget & 0xffff == 0 {
                if let Some(d) = self.deadline { if std::time::Instant::now() > d { return End::Stop; } }
                if st.steps > self.max_steps { return End::Panic(format!("no end after {} instructions", self.max_steps)); }
            }
            match self.step(st) { Ok(()) => {} Err(e) => return e }
        }
    }
    fn set(&self, st: &mut State, r: u32, v: V) { if r != NODST { let n = st.frames.len() - 1; Rc::make_mut(&mut st.frames[n]).regs[r as usize] = v; } }
    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let n = st.frames.len() - 1;
        let f = st.frames[n].f.clone();
        let cur = st.frames[n].block;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = match inc.iter().find(|(l, _)| *l == cur) { Some((_, o)) => o, None => return err("phi without incoming edge") };
                vals.push((*d, self.opd(&st.frames[n], o)));
            }
            let fr = Rc::make_mut(&mut st.frames[n]);
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        let fr = Rc::make_mut(&mut st.frames[n]);
        fr.prev = cur; fr.block = to; fr.ip = 0;
        Ok(())
    }
    fn step(&mut self, st: &mut State) -> X<()> {
        let n = st.frames.len() - 1;
        let fr = Rc::make_mut(&mut st.frames[n]);
        let f: *const Func = &*fr.f; // the Rc is kept alive by the frame or by the module's cache
        let f: &Func = unsafe { &*f };
        let inst = &f.blocks[fr.block as usize].insts[fr.ip as usize];
        fr.ip += 1;
        self.r.instrs += 1; st.steps += 1;
        macro_rules! get { ($o:expr) => { match $o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(k) => V::I(*k), Opd::Agg(k) => kval(k) } } }
        macro_rules! put { ($v:expr) => {{ let v = $v; if inst.dst != NODST { fr.regs[inst.dst as usize] = v; } return Ok(()); }} }
        match &inst.k {
            IK::Bin(op, t, a, b) => { let (a, b) = (get!(a), get!(b)); 
                if let (V::I(x), V::I(y), Ty::Int(w)) = (&a, &b, t) { if let Some(r) = bin_fast(*op, *w, *x, *y) { put!(V::I(r)) } }
                let v = self.bin(*op, t, &a, &b)?; let fr = Rc::make_mut(&mut st.frames[n]); fr.regs[inst.dst as usize] = v; Ok(()) }
            IK::Icmp(p, t, a, b) => { let (a, b) = (get!(a), get!(b));
                if let (V::I(x), V::I(y)) = (&a, &b) { put!(V::I(icmp_c(*p, t.bits(), *x, *y) as u128)) }
                let v = self.icmp(*p, t, &a, &b)?; self.set(st, inst.dst, v); Ok(()) }
            IK::Load(t, p) => { let p = get!(p); if let V::T(pt) = p { if let Some(cs) = self.ptr_cases(st, pt, t.store_size()) { let mut v: Option<V> = None; for (c, a) in cs { let x = self.load(st, a, t)?; v = Some(match v { None => x, Some(y) if same(&x, &y) => y, Some(y) => self.select(t, &V::T(c), &x, &y)? }); } self.set(st, inst.dst, v.unwrap()); return Ok(()); } }
                let a = match p { V::I(x) => x as u64, V::T(p) if t.scalar() && t.bits() <= 64 => match self.load_table(st, p, t.bits())? { Some(v) => { let v = self.val(v); self.set(st, inst.dst, v); return Ok(()); } None => self.concretize(st, p)? as u64 }, v => self.conc_ptr(st, &v)? }; let v = self.load(st, a, t)?; self.set(st, inst.dst, v); Ok(()) }
            IK::Store(t, v, p) => { let p = get!(p); let v = get!(v); if let V::T(pt) = p { if let Some(cs) = self.ptr_cases(st, pt, t.store_size()) { for (c, a) in cs { let y = self.load(st, a, t)?; let x = if same(&v, &y) { y } else { self.select(t, &V::T(c), &v, &y)? }; self.store(st, a, t, &x)?; } return Ok(()); } }
                let a = match p { V::I(x) => x as u64, p => self.conc_ptr(st, &p)? }; self.store(st, a, t, &v) }
            IK::Gep(b, off, terms) => {
                let b = get!(b);
                let mut all = true;
                if let V::I(x) = b {
                    let mut a = (x as u64).wrapping_add(*off as u64);
                    for (o, w, s) in terms { match get!(o) { V::I(i) => a = a.wrapping_add((sext128(i, *w) as i64).wrapping_mul(*s) as u64), _ => { all = false; break; } } }
                    if all { put!(V::I(a as u128)) }
                }
                let os: Vec<V> = terms.iter().map(|(o, _, _)| get!(o)).collect();
                let mut acc = self.term(&b, 64);
                let k = self.d.cst(*off as u64 as u128, 64); acc = self.d.add(acc, k);
                for ((_, w, s), v) in terms.iter().zip(os) { let t = self.term(&v, *w); let t = if *w < 64 { self.d.sext(t, 64) } else { self.d.extract(t, 0, 64) }; let k = self.d.cst(*s as u64 as u128, 64); let t = self.d.mul(t, k); acc = self.d.add(acc, t); }
                let v = self.val(acc); self.set(st, inst.dst, v); Ok(())
            }
            IK::Cast(c, t, t2, v) => { let v = get!(v);
                if let (V::I(x), true) = (&v, t.scalar()) { match c { Cast::Trunc => put!(V::I(x & mask(t2.bits()))), Cast::ZExt | Cast::Bit => put!(V::I(*x)), Cast::SExt => put!(V::I(sext128(*x, t.bits()) as u128 & mask(t2.bits()))), _ => {} } }
                let r = self.cast(*c, t, t2, &v)?; self.set(st, inst.dst, r); Ok(()) }
            IK::Br(l) => { let l = *l; self.jump(st, l) }
            IK::CondBr(c, a, b) => {
                let c = get!(c);
                let (a, b) = (*a, *b);
                match c {
                    V::I(x) => self.jump(st, if x & 1 == 1 { a } else { b }),
                    V::T(t) => {
                        let (r, o) = self.branch(st, t)?;
                        if o.is_some() && self.merge && !self.d.divisibility(t) {
                            // both sides are possible: join them again right away when they are short
                            let (kp, kd) = (st.pc.pop(), st.depth);
                            if self.try_merge(st, t, a, b) { st.depth = kd - 1; self.r.forks -= 1; self.r.merged += 1; return Ok(()); }
                            if let Some(p) = kp { st.pc.push(p); }
                        }
                        if let Some(mut o) = o { self.jump(&mut o, if r { b } else { a })?; self.work.push(o); }
                        self.jump(st, if r { a } else { b })
                    }
                    _ => err("branch on aggregate"),
                }
            }
            IK::Switch(w, v, d, cs) => {
                let v = get!(v);
                match v {
                    V::I(x) => { let l = cs.iter().find(|(k, _)| *k == x).map(|(_, l)| *l).unwrap_or(*d); self.jump(st, l) }
                    V::T(t) => {
                        // fork case by case
                        for (k, l) in cs.iter() {
                            let kt = self.d.cst(*k, *w); let e = self.d.eq(t, kt);
                            let (r, o) = self.branch(st, e)?;
                            if r {
                                if let Some(mut o) = o { let nn = o.frames.len() - 1; Rc::make_mut(&mut o.frames[nn]).ip -= 1; self.work.push(o); }
                                return self.jump(st, *l);
                            } else if let Some(mut o) = o { self.jump(&mut o, *l)?; self.work.push(o); }
                        }
                        self.jump(st, *d)
                    }
                    _ => err("switch on aggregate"),
                }
            }
            IK::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| get!(o));
                let fr = st.frames.pop().unwrap();
                for &a in &fr.allocas { st.mem.drop_obj(a); }
                if st.frames.is_empty() { return Err(End::Done); }
                if let Some(v) = v { self.set(st, fr.dst, v); }
                if let Some(l) = fr.cont { self.jump(st, l)?; }
                Ok(())
            }
            IK::Call(c, args, rt, cont) => {
                let mut av: Vec<V> = Vec::with_capacity(args.len());
                for (_, o) in args { av.push(get!(o)); }
                let fid = match c {
                    Callee::Func(i) => *i,
                    Callee::Indirect(o) => { let v = get!(o); let a = self.conc(st, &v)? as u64; if a & 0xff00_0000_0000_0000 != FUNC_BASE & 0xff00_0000_0000_0000 { return err(format!("indirect call to {:#x}", a)); } ((a & !FUNC_BASE) >> 4) as u32 }
                };
                match self.bi[fid as usize] {
                    BI::None => {
                        let f = match self.m.func(fid) { Ok(f) => f, Err(e) => return err(format!("{}: {}", self.m.funcs[fid as usize].name, e)) };
                        self.r.funcs.insert(fid);
                        if st.frames.len() > 400 { return err("call stack too deep"); }
                        let mut regs = vec![V::I(0); f.nregs as usize];
                        for (i, v) in av.into_iter().enumerate() { if i < f.params.len() { regs[f.params[i] as usize] = v; } }
                        st.frames.push(Rc::new(Frame { f, block: 0, ip: 0, prev: 0, regs, allocas: vec![], dst: inst.dst, cont: *cont }));
                        Ok(())
                    }
                    bi => {
                        let r = self.builtin(st, bi, fid, args, &av, rt)?;
                        if let Some(v) = r { self.set(st, inst.dst, v); }
                        if let Some(l) = cont { self.jump(st, *l)?; }
                        Ok(())
                    }
                }
            }
            IK::Select(t, vec, c, a, b) => {
                let t_ = t; let mut c = get!(c); let a = get!(a); let b = get!(b);
                if let (false, V::T(t)) = (*vec, &c) { let t = *t; if self.d.divisibility(t) { c = V::I(self.concretize(st, t)?); } else { let u = self.under(st, t); if u < 2 { c = V::I(u as u128) } } let v = match c { V::I(1) => a.clone(), V::I(_) => b.clone(), _ => { let v = self.select(t_, &c, &a, &b)?; v } }; self.set(st, inst.dst, v); return Ok(()); }
                if !*vec { if let V::I(x) = c { put!(if x & 1 == 1 { a } else { b }) } }
                let v = if *vec { let e = t.elem(0); let mut o = vec![]; for i in 0..t.len() { let x = self.select(&e, &agg_get(&c, i), &agg_get(&a, i), &agg_get(&b, i))?; o.push(x); } V::A(Rc::new(o)) } else { self.select(t, &c, &a, &b)? };
                self.set(st, inst.dst, v); Ok(())
            }
            IK::Alloca(sz, _, cnt, _) => {
                let c = get!(cnt); let c = self.conc(st, &c)? as u64;
                let a = self.alloc(st, sz * c)?;
                let fr = Rc::make_mut(&mut st.frames[n]); fr.allocas.push((a >> 32) as u32); fr.regs[inst.dst as usize] = V::I(a as u128);
                Ok(())
            }
            IK::ExtractValue(v, ix) => { let mut v = get!(v); for &i in ix { v = agg_get(&v, i as usize); } put!(v) }
            IK::InsertValue(t, a, e, ix) => { let a = get!(a); let e = get!(e); let v = agg_set(t, &a, &e, ix); put!(v) }
            IK::Nop => Ok(()),
            IK::Copy(v) => { let v = get!(v); put!(v) }
            IK::Fcmp(p, t, a, b) => { let (a, b) = (get!(a), get!(b)); let r = self.fcmp(*p, t.bits(), &a, &b)?; self.set(st, inst.dst, r); Ok(()) }
            IK::FNeg(t, v) => { let w = t.bits(); let v = get!(v); let t = self.term(&v, w); let s = self.d.cst(1u128 << (w - 1), w); let r = self.d.xor(t, s); let r = self.val(r); self.set(st, inst.dst, r); Ok(()) }
            IK::AtomicRmw(o, t, p, v) => {
                let p = get!(p); let v = get!(v); let a = self.conc(st, &p)? as u64; let old = self.load(st, a, t)?;
                let new = match o.as_str() { "xchg" => v, "add" => self.bin(Bin::Add, t, &old, &v)?, "sub" => self.bin(Bin::Sub, t, &old, &v)?, "and" => self.bin(Bin::And, t, &old, &v)?, "or" => self.bin(Bin::Or, t, &old, &v)?, "xor" => self.bin(Bin::Xor, t, &old, &v)?, _ => return err(format!("atomicrmw {}", o)) };
                self.store(st, a, t, &new)?; self.set(st, inst.dst, old); Ok(())
            }
            IK::CmpXchg(t, p, e, v) => {
                let p = get!(p); let e = get!(e); let v = get!(v); let a = self.conc(st, &p)? as u64; let old = self.load(st, a, t)?;
                let c = self.icmp(Pred::Eq, t, &old, &e)?; let c = self.conc(st, &c)?;
                if c == 1 { self.store(st, a, t, &v)?; }
                self.set(st, inst.dst, V::A(Rc::new(vec![old, V::I(c)]))); Ok(())
            }
            IK::ExtractElement(v, i) => { let v = get!(v); let i = get!(i); let i = self.conc(st, &i)? as usize; self.set(st, inst.dst, agg_get(&v, i)); Ok(()) }
            IK::InsertElement(t, v, e, i) => { let v = get!(v); let e = get!(e); let i = get!(i); let i = self.conc(st, &i)? as u32; let r = agg_set(t, &v, &e, &[i]); self.set(st, inst.dst, r); Ok(()) }
            IK::Shuffle(t, a, b, m) => {
                let (a, b) = (get!(a), get!(b)); let n0 = t.len();
                let ms: Vec<usize> = match &**m { K::Agg(v) => v.iter().map(|k| match k { K::I(x) => *x as usize, _ => 0 }).collect(), _ => return err("shuffle mask") };
                let v: Vec<V> = ms.iter().map(|&i| if i < n0 { agg_get(&a, i) } else { agg_get(&b, i - n0) }).collect(); put!(V::A(Rc::new(v)))
            }
            IK::Unreachable => err(format!("unreachable instruction executed in {}", f.name)),
            IK::Bad(s) => err(format!("unsupported in {}: {}", f.name, s)),
        }
    }
    /// runs one side of a branch on a copy while its effects stay simple; the blocks entered, and the state just before it enters `stop`
    fn arm(&mut self, base: &State, to: u32, stop: Option<u32>) -> (Vec<u32>, Option<State>) {
        let mut st = base.clone();
        let depth = st.frames.len();
        let mut trace = vec![to];
        if stop == Some(to) { return (trace, Some(st)); }
        { let fr = &st.frames[depth - 1]; if fr.f.rpo[to as usize] <= fr.f.rpo[fr.block as usize] { return (trace, None); } }
        if self.jump(&mut st, to).is_err() { return (trace, None); }
        for _ in 0..80 {
            let n = st.frames.len();
            let fr = st.frames[n - 1].clone();
            let inst = &fr.f.blocks[fr.block as usize].insts[fr.ip as usize];
            let cv = |o: &Opd| match self.opd(&fr, o) { V::I(x) => Some(x), _ => None };
            let mut target = None;
            let ok = match &inst.k {
                IK::Bin(op, _, _, b) => !matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) || cv(b).map_or(false, |x| x != 0),
                IK::Icmp(..) | IK::Fcmp(..) | IK::Cast(..) | IK::FNeg(..) | IK::Select(..) | IK::Gep(..) | IK::ExtractValue(..) | IK::InsertValue(..) | IK::Nop | IK::Copy(_) | IK::Shuffle(..) => true,
                IK::Load(t, p) | IK::Store(t, _, p) => match self.opd(&fr, p) { V::I(_) => true, V::T(x) => self.ptr_cases(&st, x, t.store_size()).is_some(), _ => false },
                IK::Br(l) => { target = Some(*l); true }
                IK::CondBr(c, x, y) => { let c = self.opd(&fr, c); let c = match c { V::I(x) => Some(x as u32 & 1), V::T(t) => { let t = self.under(&st, t); if t < 2 { Some(t) } else { None } } _ => None }; match c { Some(1) => { target = Some(*x); true } Some(_) => { target = Some(*y); true } None => false } }
                IK::Switch(_, v, d, cs) => match cv(v) { Some(x) => { target = Some(cs.iter().find(|(k, _)| *k == x).map(|(_, l)| *l).unwrap_or(*d)); true } None => false },
                IK::Ret(_) => n > depth,
                IK::Call(Callee::Func(i), _, _, None) => { let b = self.bi[*i as usize]; b == BI::None || matches!(b, BI::Nop | BI::Umax | BI::Umin | BI::Smax | BI::Smin | BI::UaddSat | BI::UsubSat | BI::SaddSat | BI::SsubSat | BI::Ctlz | BI::Cttz | BI::Ctpop | BI::Abs | BI::Bswap | BI::Bitrev | BI::Ucmp | BI::Scmp | BI::UaddO | BI::UsubO | BI::UmulO | BI::SaddO | BI::SsubO | BI::SmulO | BI::IsConst | BI::Expect | BI::Fabs | BI::Copysign) }
                IK::Alloca(_, _, c, _) => n > depth && cv(c).is_some(),
                _ => false,
            };
            if !ok { return (trace, None); }
            match target {
                Some(l) => {
                    if n == depth {
                        trace.push(l);
                        if stop == Some(l) { return (trace, Some(st)); }
                        if fr.f.rpo[l as usize] <= fr.f.rpo[fr.block as usize] { return (trace, None); }
                    }
                    self.r.instrs += 1; st.steps += 1;
                    if self.jump(&mut st, l).is_err() { return (trace, None); }
                }
                None => { drop(fr); if self.step(&mut st).is_err() { return (trace, None); } }
            }
        }
        (trace, None)
    }
    /// executes both sides of a symbolic branch up to where they meet and joins the results with if-then-else terms
    fn try_merge(&mut self, st: &mut State, c: T, a: u32, b: u32) -> bool {
        let (ta, _) = self.arm(st, a, None);
        let (tb, _) = self.arm(st, b, None);
        let join = match ta.iter().find(|x| tb.contains(x)) { Some(j) => *j, None => return false };
        self.wlog = Some(vec![]);
        let ra = self.arm(st, a, Some(join)).1; let rb = self.arm(st, b, Some(join)).1;
        let log = self.wlog.take().unwrap_or_default();
        let (sa, sb) = match (ra, rb) { (Some(x), Some(y)) => (x, y), _ => return false };
        let n = st.frames.len() - 1;
        let f = st.frames[n].f.clone();
        let (fa, fb) = (sa.frames[n].clone(), sb.frames[n].clone());
        let mut vals = vec![];
        let jb = &f.blocks[join as usize];
        for ((d, inc), ty) in jb.phis.iter().zip(&jb.phi_tys) {
            let (x, y) = match (inc.iter().find(|(l, _)| *l == fa.block), inc.iter().find(|(l, _)| *l == fb.block)) { (Some((_, x)), Some((_, y))) => (self.opd(&fa, x), self.opd(&fb, y)), _ => return false };
            let v = if same(&x, &y) { x } else { if *ty == Ty::Ptr && ![&x, &y].iter().all(|v| matches!(v, V::I(p) if Self::locate(st, *p as u64, 1).is_ok() && *p as u64 & 0xff00_0000_0000_0000 != FUNC_BASE & 0xff00_0000_0000_0000)) { return false; } match self.select(ty, &V::T(c), &x, &y) { Ok(v) => v, Err(_) => return false } };
            vals.push((*d, v));
        }
        let mut diff: BTreeMap<(u32, u64), V> = BTreeMap::new();
        for (id, off, len) in log {
            if st.mem.get(id).is_none() { continue; }
            for i in off..off + len {
                if diff.contains_key(&(id, i)) { continue; }
                let g = |s: &State| { let o = s.mem.get(id).unwrap(); match o.sym.get(&(i as u32)) { Some(&t) => V::T(t), None => V::I(o.bytes.get(i as usize).copied().unwrap_or(0) as u128) } };
                let (x, y) = (g(&sa), g(&sb));
                let v = if same(&x, &y) { x } else { let (p, q) = (self.term(&x, 8), self.term(&y, 8)); let r = self.d.ite(c, p, q); self.val(r) };
                diff.insert((id, i), v);
            }
            if diff.len() > 96 { return false; }
        }
        for ((id, i), v) in diff { if self.write_bytes(st, ((id as u64) << 32) + OBJ_OFF + i, &[v]).is_err() { return false; } }
        let fr = Rc::make_mut(&mut st.frames[n]);
        for (d, v) in vals { fr.regs[d as usize] = v; }
        fr.prev = fr.block; fr.block = join; fr.ip = 0;
        st.steps = sa.steps.max(sb.steps);
        true
    }
    fn conc_ptr(&mut self, st: &mut State, v: &V) -> X<u64> { Ok(self.conc(st, v)? as u64) }
    fn select(&mut self, t: &Ty, c: &V, a: &V, b: &V) -> X<V> {
        let ct = match c { V::I(x) => return Ok(if x & 1 == 1 { a.clone() } else { b.clone() }), V::T(t) => *t, _ => return err("select cond") };
        if t.scalar() { let w = t.bits(); let (x, y) = (self.term(a, w), self.term(b, w)); let r = self.d.ite(ct, x, y); return Ok(self.val(r)); }
        let mut o = vec![];
        for i in 0..t.len() { let e = t.elem(i); let x = self.select(&e, c, &agg_get(a, i), &agg_get(b, i))?; o.push(x); }
        Ok(V::A(Rc::new(o)))
    }
    fn bin(&mut self, op: Bin, t: &Ty, a: &V, b: &V) -> X<V> {
        if let Ty::Vector(n, e) = t { let mut o = vec![]; for i in 0..*n as usize { let r = self.bin(op, e, &agg_get(a, i), &agg_get(b, i))?; o.push(r); } return Ok(V::A(Rc::new(o))); }
        let w = t.bits();
        if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) { if let V::I(0) = b { return err("division by zero"); } }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let d = &mut self.d;
        let r = match op {
            Bin::Add => d.add(x, y), Bin::Sub => d.sub(x, y), Bin::Mul => d.mul(x, y), Bin::And => d.and(x, y), Bin::Or => d.or(x, y), Bin::Xor => d.xor(x, y),
            Bin::Shl => d.shl(x, y), Bin::LShr => d.lshr(x, y), Bin::AShr => d.ashr(x, y),
            Bin::UDiv => d.divrem(Op::UDiv, x, y), Bin::URem => d.divrem(Op::URem, x, y), Bin::SDiv => d.divrem(Op::SDiv, x, y), Bin::SRem => d.divrem(Op::SRem, x, y),
            Bin::FAdd => d.fop(Op::FAdd, x, y), Bin::FSub => d.fop(Op::FSub, x, y), Bin::FMul => d.fop(Op::FMul, x, y), Bin::FDiv => d.fop(Op::FDiv, x, y),
            Bin::FRem => return err("frem"),
        };
        Ok(self.val(r))
    }
    fn icmp(&mut self, p: Pred, t: &Ty, a: &V, b: &V) -> X<V> {
        if let Ty::Vector(n, e) = t { let mut o = vec![]; for i in 0..*n as usize { let r = self.icmp(p, e, &agg_get(a, i), &agg_get(b, i))?; o.push(r); } return Ok(V::A(Rc::new(o))); }
        let w = t.bits(); let (x, y) = (self.term(a, w), self.term(b, w)); let d = &mut self.d;
        let r = match p { Pred::Eq => d.eq(x, y), Pred::Ne => { let e = d.eq(x, y); d.not(e) } Pred::Ult => d.ult(x, y), Pred::Ule => d.ule(x, y), Pred::Ugt => d.ult(y, x), Pred::Uge => d.ule(y, x), Pred::Slt => d.slt(x, y), Pred::Sle => d.sle(x, y), Pred::Sgt => d.slt(y, x), Pred::Sge => d.sle(y, x) };
        Ok(self.val(r))
    }
    fn fcmp(&mut self, p: FPred, w: u32, a: &V, b: &V) -> X<V> {
        let (x, y) = (self.term(a, w), self.term(b, w)); let d = &mut self.d;
        let inf = if w == 64 { 0x7ff0000000000000u128 } else { 0x7f800000 };
        let m = mask(w - 1);
        let am = d.cst(m, w); let infc = d.cst(inf, w);
        let ax = d.and(x, am); let ay = d.and(y, am);
        let nx = d.ult(infc, ax); let ny = d.ult(infc, ay); let uno = d.or(nx, ny); let ord = d.not(uno);
        let z = d.cst(0, w); let zx = d.eq(ax, z); let zy = d.eq(ay, z); let bz = d.and(zx, zy);
        let same = d.eq(x, y); let eq0 = d.or(same, bz);
        let sx = d.extract(x, w - 1, 1); let sy = d.extract(y, w - 1, 1);
        let lt_xy = { let l = d.ult(x, y); let g = d.ult(y, x); let both = d.ite(sx, g, l); let diff = sx; let ss = d.eq(sx, sy); let r = d.ite(ss, both, diff); let nbz = d.not(bz); d.and(r, nbz) };
        let gt_xy = { let l = d.ult(y, x); let g = d.ult(x, y); let both = d.ite(sx, g, l); let diff = sy; let ss = d.eq(sx, sy); let r = d.ite(ss, both, diff); let nbz = d.not(bz); d.and(r, nbz) };
        let le = d.or(lt_xy, eq0); let ge = d.or(gt_xy, eq0); let ne = d.not(eq0);
        let r = match p {
            FPred::False => 0, FPred::True => 1, FPred::Ord => ord, FPred::Uno => uno,
            FPred::Oeq => d.and(ord, eq0), FPred::Olt => d.and(ord, lt_xy), FPred::Ogt => d.and(ord, gt_xy), FPred::Ole => d.and(ord, le), FPred::Oge => d.and(ord, ge), FPred::One => d.and(ord, ne),
            FPred::Ueq => d.or(uno, eq0), FPred::Ult => d.or(uno, lt_xy), FPred::Ugt => d.or(uno, gt_xy), FPred::Ule => d.or(uno, le), FPred::Uge => d.or(uno, ge), FPred::Une => d.or(uno, ne),
        };
        Ok(self.val(r))
    }
    fn cast(&mut self, c: Cast, t: &Ty, t2: &Ty, v: &V) -> X<V> {
        if let (Ty::Vector(n, e), Ty::Vector(n2, e2)) = (t, t2) { if n == n2 { let mut o = vec![]; for i in 0..*n as usize { let r = self.cast(c, e, e2, &agg_get(v, i))?; o.push(r); } return Ok(V::A(Rc::new(o))); } }
        if let (Ty::Vector(n, e), true) = (t, t2.scalar()) { // bitcast of lanes to an integer
            let mut acc: Option<T> = None;
            for i in 0..*n as usize { let x = agg_get(v, i); let x = self.term(&x, e.bits()); acc = Some(match acc { None => x, Some(a) => self.d.concat(x, a) }); }
            return Ok(self.val(acc.unwrap()));
        }
        if let (true, Ty::Vector(n, e)) = (t.scalar(), t2) { let x = self.term(v, t.bits()); let mut o = vec![]; for i in 0..*n as u32 { let y = self.d.extract(x, i * e.bits(), e.bits()); o.push(self.val(y)); } return Ok(V::A(Rc::new(o))); }
        let (w, w2) = (t.bits(), t2.bits()); if w == 0 || w2 == 0 { return err("cast types"); }
        let x = self.term(v, w);
        let r = match c { Cast::Trunc => self.d.extract(x, 0, w2), Cast::ZExt => self.d.zext(x, w2), Cast::SExt => self.d.sext(x, w2), Cast::Bit => x,
            Cast::FExt => self.d.fcast(Op::FExt, x, w2), Cast::FTrunc => self.d.fcast(Op::FTrunc, x, w2), Cast::SIToF => self.d.fcast(Op::SIToF, x, w2), Cast::UIToF => self.d.fcast(Op::UIToF, x, w2), _ => return err("fptoint") };
        Ok(self.val(r))
    }
    fn panic_end(&mut self, st: &mut State, what: String) -> End {
        // a refusal that is only an overflow check is not there in builds without such checks
        if st.expect_panic { return if st.no_overflow && ["add", "sub", "mul", "neg", "shl", "shr"].iter().any(|o| what.contains(&format!("panic_const_{}_overflow", o))) { End::Panic(format!("overflow in place of a refusal: {}", what)) } else { End::PanicOk }; }
        End::Panic(what)
    }
    fn builtin(&mut self, st: &mut State, bi: BI, fid: u32, args: &[(Ty, Opd)], av: &[V], rt: &Ty) -> X<Option<V>> {
        let w = rt.bits();
        macro_rules! t { ($i:expr) => {{ let ww = args[$i].0.bits(); self.term(&av[$i], ww) }} }
        macro_rules! ok { ($t:expr) => {{ let x = $t; return Ok(Some(self.val(x))); }} }
        macro_rules! c { ($i:expr) => { self.conc(st, &av[$i])? as u64 } }
        match bi {
            BI::Nop => Ok(None),
            BI::Panic => { let name = self.m.funcs[fid as usize].name.clone(); let caller: Vec<String> = st.frames.iter().rev().take(3).map(|f| f.f.name.clone()).collect(); Err(self.panic_end(st, format!("{} called from {}", name, caller.join(" < ")))) }
            BI::Abort | BI::Trap => { let caller = st.frames.last().unwrap().f.name.clone(); Err(self.panic_end(st, format!("abort in {}", caller))) }
            BI::Malloc => { let n = c!(0); let a = self.alloc(st, n)?; Ok(Some(V::I(a as u128))) }
            BI::Calloc => { let n = c!(0) * c!(1); let a = self.alloc(st, n)?; Ok(Some(V::I(a as u128))) }
            BI::PosixMemalign => { let n = c!(2); let p = c!(0); let a = self.alloc(st, n)?; self.store_int(st, p, &V::I(a as u128), 64)?; Ok(Some(V::I(0))) }
            BI::Realloc => {
                let p = c!(0); let n = c!(1);
                let a = self.alloc(st, n)?;
                if p != 0 { let (id, _) = Self::locate(st, p, 0)?; let old = match st.mem.get(id) { Some(o) if o.alive => o.size, _ => return err("realloc of invalid pointer") }; self.copy(st, a, p, old.min(n))?; st.mem.drop_obj(id); }
                Ok(Some(V::I(a as u128)))
            }
            BI::Free => { let p = c!(0); if p != 0 { let id = (p >> 32) as u32; if p & 0xffff_ffff != OBJ_OFF || st.mem.get(id).is_none() { return err("free of invalid pointer"); } st.mem.drop_obj(id); } Ok(None) }
            BI::Memcpy => { let n = c!(2); let (d, s) = (c!(0), c!(1)); self.copy(st, d, s, n)?; Ok(if w > 0 { Some(V::I(d as u128)) } else { None }) }
            BI::Memset => {
                let n = c!(2); let d = c!(0);
                if n > 0 {
                    let val = match &av[1] { V::I(x) => V::I(x & 0xff), V::T(t) => { let x = self.d.extract(*t, 0, 8); self.val(x) } _ => return err("memset") };
                    let (id, off) = Self::locate(st, d, n)?;
                    let o = st.mem.get_mut(id).unwrap(); if o.ro { return err("write to constant memory"); }
                    let end = (off + n) as usize;
                    match val {
                        V::I(x) => {
                            if x != 0 && o.bytes.len() < end { o.bytes.resize(end, 0); }
                            let e2 = end.min(o.bytes.len()); if (off as usize) < e2 { for b in &mut o.bytes[off as usize..e2] { *b = x as u8; } }
                            if !o.sym.is_empty() { let ks: Vec<u32> = o.sym.range(off as u32..end as u32).map(|(k, _)| *k).collect(); for k in ks { o.sym.remove(&k); } }
                        }
                        V::T(t) => { if o.bytes.len() < end { o.bytes.resize(end, 0); } for i in 0..n { o.sym.insert((off + i) as u32, t); } }
                        _ => {}
                    }
                }
                Ok(if w > 0 { Some(V::I(d as u128)) } else { None })
            }
            BI::Memcmp => {
                let n = c!(2); let (a, b) = (c!(0), c!(1));
                let (x, y) = (self.read_bytes(st, a, n)?, self.read_bytes(st, b, n)?);
                let mut r = self.d.cst(0, 32);
                for i in (0..n as usize).rev() {
                    let (p, q) = (self.term(&x[i], 8), self.term(&y[i], 8));
                    let e = self.d.eq(p, q);
                    let lt = self.d.ult(p, q);
                    let neg = self.d.cst(0xffff_ffff, 32); let pos = self.d.cst(1, 32);
                    let s = self.d.ite(lt, neg, pos);
                    r = self.d.ite(e, r, s);
                }
                ok!(r)
            }
            BI::Strlen => { let a = c!(0); let mut i = 0; loop { match self.load_int(st, a + i, 8)? { V::I(0) => return Ok(Some(V::I(i as u128))), V::I(_) => i += 1, _ => return err("strlen of symbolic") } } }
            BI::Umax => { let (a, b) = (t!(0), t!(1)); let c = self.d.ult(a, b); ok!(self.d.ite(c, b, a)) }
            BI::Umin => { let (a, b) = (t!(0), t!(1)); let c = self.d.ult(a, b); ok!(self.d.ite(c, a, b)) }
            BI::Smax => { let (a, b) = (t!(0), t!(1)); let c = self.d.slt(a, b); ok!(self.d.ite(c, b, a)) }
            BI::Smin => { let (a, b) = (t!(0), t!(1)); let c = self.d.slt(a, b); ok!(self.d.ite(c, a, b)) }
            BI::UaddSat => { let (a, b) = (t!(0), t!(1)); let s = self.d.add(a, b); let o = self.d.ult(s, a); let m = self.d.cst(!0, w); ok!(self.d.ite(o, m, s)) }
            BI::UsubSat => { let (a, b) = (t!(0), t!(1)); let s = self.d.sub(a, b); let o = self.d.ult(a, b); let z = self.d.cst(0, w); ok!(self.d.ite(o, z, s)) }
            BI::SaddSat | BI::SsubSat => {
                let (a, b) = (t!(0), t!(1));
                let (s, o) = self.sov(if bi == BI::SaddSat { BI::SaddO } else { BI::SsubO }, a, b, w);
                let neg = self.d.extract(a, w - 1, 1); let mn = self.d.cst(1u128 << (w - 1), w); let mx = self.d.cst(mask(w - 1), w);
                let sat = self.d.ite(neg, mn, mx); ok!(self.d.ite(o, sat, s))
            }
            BI::Ctlz => { let a = t!(0); ok!(self.d.count_zeros(a, true)) }
            BI::Cttz => { let a = t!(0); ok!(self.d.count_zeros(a, false)) }
            BI::Ctpop => { let a = t!(0); let mut r = self.d.cst(0, w); for i in 0..w { let b = self.d.extract(a, i, 1); let b = if w == 1 { b } else { self.d.zext(b, w) }; r = self.d.add(r, b); } ok!(r) }
            BI::Abs => { let a = t!(0); let n = self.d.neg(a); let s = self.d.extract(a, w - 1, 1); ok!(self.d.ite(s, n, a)) }
            // minnum/maxnum and minimumnum/maximumnum (Rust's f64::min and max): the number when the other is NaN
            BI::Fmin | BI::Fmax => {
                let n = self.fcmp(FPred::Uno, w, &av[0], &av[0])?; let n = self.term(&n, 1);
                let m = self.fcmp(FPred::Uno, w, &av[1], &av[1])?; let m = self.term(&m, 1);
                let l = self.fcmp(if bi == BI::Fmin { FPred::Olt } else { FPred::Ogt }, w, &av[0], &av[1])?; let l = self.term(&l, 1);
                let (a, b) = (t!(0), t!(1)); let r = self.d.ite(l, a, b); let r = self.d.ite(m, a, r); ok!(self.d.ite(n, b, r))
            }
            BI::FpClass => {
                let mk = c!(1) as u32; let ww = args[0].0.bits(); let a = self.term(&av[0], ww); let d = &mut self.d;
                let (inf, q) = if ww == 64 { (0x7ff0u128 << 48, 1u128 << 51) } else { (0x7f80_0000, 0x40_0000) };
                let am = d.cst(mask(ww - 1), ww); let ax = d.and(a, am); let sg = d.extract(a, ww - 1, 1); let ns = d.not(sg);
                let infc = d.cst(inf, ww); let nan = d.ult(infc, ax); let qc = d.cst(q, ww); let qb = d.and(ax, qc); let z = d.cst(0, ww); let noq = d.eq(qb, z); let quiet = d.not(noq);
                let isinf = d.eq(ax, infc); let zero = d.eq(ax, z); let mn = d.cst(if ww == 64 { 1u128 << 52 } else { 1 << 23 }, ww); let small = d.ult(ax, mn); let nz = d.not(zero); let sub = d.and(small, nz);
                let fin = d.ult(ax, infc); let ge = d.not(small); let norm = d.and(fin, ge);
                let mut r = d.cst(0, 1);
                let bits = [(0, nan, noq), (1, nan, quiet), (2, isinf, sg), (3, norm, sg), (4, sub, sg), (5, zero, sg), (6, zero, ns), (7, sub, ns), (8, norm, ns), (9, isinf, ns)];
                for (k, x, y) in bits { if mk >> k & 1 == 1 { let c = d.and(x, y); r = d.or(r, c); } }
                ok!(r)
            }
            BI::Fabs => { let a = t!(0); let m = self.d.cst(mask(w - 1), w); ok!(self.d.and(a, m)) }
            BI::Fshl | BI::Fshr => {
                let (a, b) = (t!(0), t!(1)); let s = c!(2) % w as u64; let s = if bi == BI::Fshl { s as u32 } else { (w - s as u32) % w };
                if s == 0 { return Ok(Some(if bi == BI::Fshl { av[0].clone() } else { av[1].clone() })); }
                let h = self.d.extract(a, 0, w - s); let l = self.d.extract(b, w - s, s); ok!(self.d.concat(h, l))
            }
            BI::Bswap => { let a = t!(0); let mut r: Option<T> = None; for i in 0..w / 8 { let b = self.d.extract(a, i * 8, 8); r = Some(match r { None => b, Some(x) => self.d.concat(x, b) }); } ok!(r.unwrap()) }
            BI::Bitrev => { let a = t!(0); let mut r: Option<T> = None; for i in 0..w { let b = self.d.extract(a, i, 1); r = Some(match r { None => b, Some(x) => self.d.concat(x, b) }); } ok!(r.unwrap()) }
            BI::Ucmp | BI::Scmp => { let (a, b) = (t!(0), t!(1)); let l = if bi == BI::Ucmp { self.d.ult(a, b) } else { self.d.slt(a, b) }; let e = self.d.eq(a, b); let m1 = self.d.cst(!0, w); let z = self.d.cst(0, w); let p = self.d.cst(1, w); let x = self.d.ite(e, z, p); ok!(self.d.ite(l, m1, x)) }
            BI::UaddO | BI::UsubO | BI::UmulO | BI::SaddO | BI::SsubO | BI::SmulO => { let (a, b) = (t!(0), t!(1)); let ww = args[0].0.bits(); let (s, o) = self.sov(bi, a, b, ww); Ok(Some(V::A(Rc::new(vec![self.val(s), self.val(o)])))) }
            BI::Assume => { match &av[0] { V::I(0) => err("llvm.assume(false)"), _ => Ok(None) } }
            BI::IsConst => Ok(Some(V::I(0))),
            BI::Expect | BI::Tls => Ok(Some(av[0].clone())),
            BI::Copysign => { let (a, b) = (t!(0), t!(1)); let h = self.d.extract(b, w - 1, 1); let l = self.d.extract(a, 0, w - 1); ok!(self.d.concat(h, l)) }
            // ------------------------------------------------------------ harness interface
            BI::SymBits => {
                let n = c!(0) as u32;
                let name = format!("i{}w{}", st.inputs.len(), n);
                let fixed = self.jobs[st.job as usize].inputs.as_ref().map(|i| i.get(st.inputs.len()).copied().unwrap_or(0));
                let v = match fixed { Some(k) => self.d.cst(k & mask(n), n), None => self.d.var(&name, n) }; st.inputs.push(v);
                ok!(self.d.zext(v, 64))
            }
            BI::SymChoose => {
                // a variable with few values, decided by forking; the fork re-executes this call, so create it once
                let n = c!(0);
                let name = format!("c{}n{}", st.inputs.len(), n);
                let fixed = self.jobs[st.job as usize].inputs.as_ref().map(|i| i.get(st.inputs.len()).copied().unwrap_or(0));
                let v = match fixed { Some(k) => self.d.cst(k & mask(32), 32), None => self.d.var(&name, 32) };
                let k = self.d.cst(n as u128, 32); let lt = self.d.ult(v, k);
                self.assume(st, lt)?;
                let x = self.concretize(st, v)?;
                st.inputs.push(v);
                Ok(Some(V::I(x)))
            }
            BI::SymConcrete => { let x = self.conc(st, &av[0])?; Ok(Some(V::I(x))) }
            BI::SymAssume => { let c = self.term(&av[0], args[0].0.bits()); let c = if args[0].0.bits() != 1 { self.d.extract(c, 0, 1) } else { c }; self.assume(st, c)?; Ok(None) }
            BI::SymCheck => {
                let prop = c!(1) as u32;
                if prop != 0 && prop != self.prop && self.prop != 0 { return Ok(None); }
                let c = self.term(&av[0], args[0].0.bits()); let c = if args[0].0.bits() != 1 { self.d.extract(c, 0, 1) } else { c };
                self.r.checks += 1;
                let c = self.under(st, c);
                if c == 1 { self.r.checks_const += 1; return Ok(None); }
                let nc = self.d.not(c);
                self.r.check_queries += 1;
                match self.sat(st, nc)? {
                    None => Ok(None),
                    Some(m) => {
                        let (pp, pl) = (c!(2), c!(3)); let msg = self.cstr(st, pp, pl)?;
                        self.violation(st, &m, "check", msg, prop, false);
                        self.assume(st, c)?; Ok(None)
                    }
                }
            }
            BI::SymKnown => {
                // a listed finding shows on this path when the condition can hold
                let id = c!(1) as u32;
                let c = self.term(&av[0], args[0].0.bits()); let c = if args[0].0.bits() != 1 { self.d.extract(c, 0, 1) } else { c };
                if let Some(m) = self.sat(st, c)? { self.violation(st, &m, "known", format!("{}", id), id, true); }
                Ok(None)
            }
            BI::SymCover => { let id = c!(0) as u32; if !st.covers.contains(&id) { Rc::make_mut(&mut st.covers).push(id); } Ok(None) }
            BI::SymExpectPanic => { let b = self.conc(st, &av[0])?; st.expect_panic = b & 1 == 1; st.no_overflow = false; Ok(None) }
            BI::SymExpectRefusal => { let b = self.conc(st, &av[0])?; st.expect_panic = b & 1 == 1; st.no_overflow = true; Ok(None) }
            BI::SymParam => { let i = c!(0); if i == 1000 { return Ok(Some(V::I(self.thorough as u128))); } if i == 1001 { return Ok(Some(V::I(self.prop as u128))); } let v = self.jobs[st.job as usize].params.get(i as usize).copied().unwrap_or(0); Ok(Some(V::I(v as u128))) }
            BI::SymTrace => { if self.trace { let (pp, pl) = (c!(0), c!(1)); let s = self.cstr(st, pp, pl)?; let v = match &av[2] { V::I(x) => format!("{}", x), V::T(t) => { let e = self.d.eval(*t, &st.model); format!("symbolic (e.g. {})", e) } _ => "agg".into() }; eprintln!("trace: {} = {}", s, v); } Ok(None) }
            BI::SymSmall => Ok(Some(V::I(matches!(av[0], V::T(_)) as u128))),
            // ------------------------------------------------------------ zstd
            BI::ZCreate => { let a = self.alloc(st, 16)?; self.store_int(st, a, &V::I(3), 32)?; Ok(Some(V::I(a as u128))) }
            BI::ZNop0 => Ok(Some(V::I(0))),
            BI::ZSetParam => { let a = c!(0); let p = c!(1) as u32; let v = c!(2); if p == 100 { self.store_int(st, a, &V::I(v as u128 & 0xffff_ffff), 32)?; } Ok(Some(V::I(0))) }
            BI::ZIsError => { let x = c!(0) as usize; Ok(Some(V::I(unsafe { ZSTD_isError(x) } as u128))) }
            BI::ZBound => { let x = c!(0) as usize; Ok(Some(V::I(unsafe { ZSTD_compressBound(x) } as u128))) }
            BI::ZErrName => err("zstd error name requested"),
            BI::ZCompress2 => {
                let (ctx, dst, cap, src, n) = (c!(0), c!(1), c!(2), c!(3), c!(4));
                let b = self.read_bytes(st, src, n)?;
                let level = match self.load_int(st, ctx, 32)? { V::I(x) => x as i32, _ => 3 };
                let out: Vec<V>;
                if b.iter().all(|v| matches!(v, V::I(_))) {
                    let src: Vec<u8> = b.iter().map(|v| if let V::I(x) = v { *x as u8 } else { 0 }).collect();
                    let mut dstv = vec![0u8; cap as usize];
                    let r = unsafe { let c = ZSTD_createCCtx(); ZSTD_CCtx_setParameter(c, 100, level); let r = ZSTD_compress2(c, dstv.as_mut_ptr(), dstv.len(), src.as_ptr(), src.len()); ZSTD_freeCCtx(c); r };
                    if unsafe { ZSTD_isError(r) } != 0 { return Ok(Some(V::I(r as u64 as u128))); }
                    out = dstv[..r].iter().map(|&x| V::I(x as u128)).collect();
                } else {
                    // symbolic content: a valid frame holding one raw block
                    let mut o: Vec<u8> = vec![0x28, 0xb5, 0x2f, 0xfd];
                    if n < 256 { o.push(0x20); o.push(n as u8); } else if n < 65792 { o.push(0x60); o.extend_from_slice(&((n - 256) as u16).to_le_bytes()); } else { return err("symbolic zstd block too large"); }
                    let h = 1u32 | ((n as u32) << 3); o.extend_from_slice(&h.to_le_bytes()[..3]);
                    let mut v: Vec<V> = o.into_iter().map(|x| V::I(x as u128)).collect();
                    v.extend(b); out = v;
                    if out.len() as u64 > cap { return Ok(Some(V::I((-70i64) as u64 as u128))); }
                }
                self.write_bytes(st, dst, &out)?;
                Ok(Some(V::I(out.len() as u128)))
            }
            BI::ZDecompress => {
                let (dst, cap, src, n) = (c!(0), c!(1), c!(2), c!(3));
                let b = self.read_bytes(st, src, n)?;
                let out: Vec<V>;
                if b.iter().all(|v| matches!(v, V::I(_))) {
                    let src: Vec<u8> = b.iter().map(|v| if let V::I(x) = v { *x as u8 } else { 0 }).collect();
                    let mut dstv = vec![0u8; cap as usize];
                    let r = unsafe { ZSTD_decompress(dstv.as_mut_ptr(), dstv.len(), src.as_ptr(), src.len()) };
                    if unsafe { ZSTD_isError(r) } != 0 { return Ok(Some(V::I(r as u64 as u128))); }
                    out = dstv[..r].iter().map(|&x| V::I(x as u128)).collect();
                } else {
                    let g = |i: usize| -> X<u64> { match b.get(i) { Some(V::I(x)) => Ok(*x as u64), _ => err("symbolic zstd frame header") } };
                    let bad = Ok(Some(V::I((-20i64) as u64 as u128)));
                    if g(0)? != 0x28 || g(1)? != 0xb5 || g(2)? != 0x2f || g(3)? != 0xfd { return bad; }
                    let (sz, p) = match g(4)? { 0x20 => (g(5)?, 6usize), 0x60 => (g(5)? + (g(6)? << 8) + 256, 7), _ => return err("zstd frame with symbolic content not produced by the model") };
                    let h = g(p)? | g(p + 1)? << 8 | g(p + 2)? << 16;
                    if h & 7 != 1 || h >> 3 != sz || (p as u64) + 3 + sz != n || sz > cap { return bad; }
                    out = b[p + 3..].to_vec();
                }
                self.write_bytes(st, dst, &out)?;
                Ok(Some(V::I(out.len() as u128)))
            }
            BI::External => err(format!("call to external function {}", self.m.funcs[fid as usize].name)),
            BI::None => unreachable!(),
        }
    }
    fn cstr(&mut self, st: &State, a: u64, n: u64) -> X<String> { let b = self.read_bytes(st, a, n)?; Ok(b.iter().map(|v| if let V::I(x) = v { *x as u8 as char } else { '?' }).collect()) }
    fn sov(&mut self, bi: BI, a: T, b: T, w: u32) -> (T, T) {
        let d = &mut self.d;
        match bi {
            BI::UaddO => { let s = d.add(a, b); let o = d.ult(s, a); (s, o) }
            BI::UsubO => { let s = d.sub(a, b); let o = d.ult(a, b); (s, o) }
            BI::SaddO => { let s = d.add(a, b); let (sa, sb, ss) = (d.extract(a, w - 1, 1), d.extract(b, w - 1, 1), d.extract(s, w - 1, 1)); let e = d.eq(sa, sb); let n = d.xor(sa, ss); let o = d.and(e, n); (s, o) }
            BI::SsubO => { let s = d.sub(a, b); let (sa, sb, ss) = (d.extract(a, w - 1, 1), d.extract(b, w - 1, 1), d.extract(s, w - 1, 1)); let e = d.xor(sa, sb); let n = d.xor(sa, ss); let o = d.and(e, n); (s, o) }
            BI::UmulO => {
                let s = d.mul(a, b);
                if let Some(k) = d.as_const(b).or(d.as_const(a)) { let x = if d.as_const(b).is_some() { a } else { b }; if k == 0 { return (s, 0); } let lim = d.cst(mask(w) / k, w); let o = d.ult(lim, x); return (s, o); }
                if w <= 64 { let (x, y) = (d.zext(a, 2 * w), d.zext(b, 2 * w)); let p = d.mul(x, y); let h = d.extract(p, w, w); let z = d.cst(0, w); let e = d.eq(h, z); (s, d.not(e)) }
                else { let z = d.cst(0, w); let az = d.eq(a, z); let q = d.divrem(Op::UDiv, s, a); let e = d.eq(q, b); let ok = d.or(az, e); (s, d.not(ok)) }
            }
            _ => { // smul
                let s = d.mul(a, b);
                let k = d.as_const(b).or(d.as_const(a));
                if let Some(k) = k {
                    let x = if d.as_const(b).is_some() { a } else { b };
                    let kk = sext128(k, w); if kk == 0 || kk == 1 { return (s, 0); }
                    let (mn, mx) = (sext128(1u128 << (w - 1), w), mask(w - 1) as i128);
                    if kk > 0 { let (lo, hi) = (mn / kk, mx / kk); let lo = d.cst(lo as u128, w); let hi = d.cst(hi as u128, w); let p = d.slt(x, lo); let q = d.slt(hi, x); let o = d.or(p, q); return (s, o); }
                }
                if w <= 64 { let (x, y) = (d.sext(a, 2 * w), d.sext(b, 2 * w)); let p = d.mul(x, y); let q = d.sext(s, 2 * w); let e = d.eq(p, q); (s, d.not(e)) }
                else { let z = d.cst(0, w); let az = d.eq(a, z); let q = d.divrem(Op::SDiv, s, a); let e = d.eq(q, b); let m1 = d.cst(!0, w); let mn = d.cst(1u128 << (w - 1), w); let am = d.eq(a, m1); let bm = d.eq(b, mn); let bad = d.and(am, bm); let nb = d.not(bad); let e = d.and(e, nb); let ok = d.or(az, e); (s, d.not(ok)) }
            }
        }
    }
}
/// what a constraint of the path says about its subterms
fn fact(d: &Dag, facts: &mut FxMap<T, T>, p: T) {
    let (c, neg) = d.strip_not(p);
    facts.insert(c, !neg as T);
    let n = &d.nodes[c as usize];
    if !neg && n.op == Op::Eq && d.as_const(n.b).is_some() { facts.insert(n.a, n.b); }
}
fn same(a: &V, b: &V) -> bool { match (a, b) { (V::I(x), V::I(y)) => x == y, (V::T(x), V::T(y)) => x == y, (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q))), _ => false } }
fn kval(k: &K) -> V { match k { K::I(v) => V::I(*v), K::Zero | K::Undef => V::A(Rc::new(vec![])), K::Agg(v) => V::A(Rc::new(v.iter().map(kval).collect())), K::Bytes(b) => V::A(Rc::new(b.iter().map(|&x| V::I(x as u128)).collect())) } }
/// missing elements of an (un)defined/zero aggregate read as zero
fn agg_get(v: &V, i: usize) -> V { match v { V::A(x) => x.get(i).cloned().unwrap_or(V::I(0)), V::I(_) => V::A(Rc::new(vec![])), V::T(_) => panic!("agg_get of term") } }
fn agg_set(t: &Ty, a: &V, e: &V, ix: &[u32]) -> V {
    if ix.is_empty() { return e.clone(); }
    let i = ix[0] as usize;
    let mut v: Vec<V> = match a { V::A(x) => (**x).clone(), _ => vec![] };
    while v.len() < t.len() { let et = t.elem(v.len()); v.push(if et.scalar() { V::I(0) } else { V::A(Rc::new(vec![])) }); }
    v[i] = agg_set(&t.elem(i), &v[i], e, &ix[1..]);
    V::A(Rc::new(v))
}
#[inline] fn bin_fast(op: Bin, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Bin::Add => x.wrapping_add(y) & m, Bin::Sub => x.wrapping_sub(y) & m, Bin::Mul => x.wrapping_mul(y) & m, Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
        Bin::Shl => if y >= w as u128 { 0 } else { (x << y) & m }, Bin::LShr => if y >= w as u128 { 0 } else { x >> y },
        Bin::AShr => (sext128(x, w) >> y.min(w as u128 - 1)) as u128 & m,
        Bin::UDiv => if y == 0 { return None } else { x / y }, Bin::URem => if y == 0 { return None } else { x % y },
        Bin::SDiv => if y == 0 { return None } else { sext128(x, w).wrapping_div(sext128(y, w)) as u128 & m },
        Bin::SRem => if y == 0 { return None } else { sext128(x, w).wrapping_rem(sext128(y, w)) as u128 & m },
        _ => return None,
    })
}
#[inline] fn icmp_c(p: Pred, w: u32, x: u128, y: u128) -> bool {
    match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
        _ => { let (a, b) = (sext128(x, w), sext128(y, w)); match p { Pred::Slt => a < b, Pred::Sle => a <= b, Pred::Sgt => a > b, _ => a >= b } } }
}
