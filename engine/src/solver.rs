//! Z3 back end: translation of terms, incremental queries on independent slices of the path condition.
use crate::term::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString, CStr};
use std::rc::Rc;
use std::time::Instant;

type Ctx = *mut c_void; type Ast = *mut c_void; type Sort = *mut c_void; type Sol = *mut c_void; type Mdl = *mut c_void; type Cfg = *mut c_void; type Par = *mut c_void; type Sym = *mut c_void; type Tac = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_interrupt(c: Ctx); fn Z3_mk_context(c: Cfg) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast; fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast; fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast; fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast; fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sort_double(c: Ctx) -> Sort; fn Z3_mk_fpa_sort_single(c: Ctx) -> Sort;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: Sort) -> Ast; fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast; fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast; fn Z3_mk_fpa_sub(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast; fn Z3_mk_fpa_div(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast; fn Z3_mk_fpa_to_fp_signed(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast; fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Sol; fn Z3_mk_solver(c: Ctx) -> Sol;
    fn Z3_mk_tactic(c: Ctx, s: *const c_char) -> Tac; fn Z3_tactic_inc_ref(c: Ctx, t: Tac); fn Z3_mk_solver_from_tactic(c: Ctx, t: Tac) -> Sol;
    fn Z3_solver_inc_ref(c: Ctx, s: Sol); fn Z3_solver_push(c: Ctx, s: Sol); fn Z3_solver_pop(c: Ctx, s: Sol, n: c_uint); fn Z3_solver_assert(c: Ctx, s: Sol, a: Ast);
    fn Z3_solver_check_assumptions(c: Ctx, s: Sol, n: c_uint, a: *const Ast) -> c_int; fn Z3_solver_get_unsat_core(c: Ctx, s: Sol) -> *mut c_void; fn Z3_mk_implies(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_ast_vector_inc_ref(c: Ctx, v: *mut c_void); fn Z3_ast_vector_dec_ref(c: Ctx, v: *mut c_void); fn Z3_ast_vector_size(c: Ctx, v: *mut c_void) -> c_uint; fn Z3_ast_vector_get(c: Ctx, v: *mut c_void, i: c_uint) -> Ast;
    fn Z3_solver_check(c: Ctx, s: Sol) -> c_int; fn Z3_solver_get_model(c: Ctx, s: Sol) -> Mdl; fn Z3_solver_reset(c: Ctx, s: Sol);
    fn Z3_model_inc_ref(c: Ctx, m: Mdl); fn Z3_model_dec_ref(c: Ctx, m: Mdl);
    fn Z3_model_eval(c: Ctx, m: Mdl, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char; fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
    fn Z3_mk_params(c: Ctx) -> Par; fn Z3_params_inc_ref(c: Ctx, p: Par); fn Z3_params_set_uint(c: Ctx, p: Par, k: Sym, v: c_uint); fn Z3_solver_set_params(c: Ctx, s: Sol, p: Par);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(c: Ctx, e: c_int) { unsafe { eprintln!("z3 error: {}", CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy()); } std::process::exit(70); }

pub fn z3_version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cached: u64, pub cored: u64, pub time_us: u64, pub max_us: u64 }

pub enum Ans { Sat(FxMap<u32, u128>), Unsat, Unknown }

static CTX: std::sync::atomic::AtomicPtr<std::ffi::c_void> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
/// stop the running query (it answers unknown)
pub fn interrupt() { let c = CTX.load(std::sync::atomic::Ordering::SeqCst); if !c.is_null() { unsafe { Z3_interrupt(c as Ctx); } } }

pub struct Solver {
    ctx: Ctx, inc: Sol, fresh: Sol, fp: Sol,
    asts: Vec<Ast>, // by term; width-1 terms are Bool
    lits: FxMap<T, Ast>, lit_of: FxMap<usize, T>, guarded: FxSet<T>, cores: FxMap<T, Vec<Vec<T>>>,
    cache: FxMap<Vec<T>, Option<Option<Rc<FxMap<u32, u128>>>>>,
    has_fp: FxMap<T, bool>,
    pub stats: Stats,
    reset_at: usize,
}

impl Solver {
    pub fn new() -> Solver { unsafe {
        let cfg = Z3_mk_config();
        let ctx = Z3_mk_context(cfg);
        Z3_set_error_handler(ctx, Some(on_err)); CTX.store(ctx as *mut std::ffi::c_void, std::sync::atomic::Ordering::SeqCst);
        let s = |n: &str| { let c = CString::new(n).unwrap(); Z3_mk_string_symbol(ctx, c.as_ptr()) };
        let inc = Z3_mk_solver_for_logic(ctx, s("QF_BV")); Z3_solver_inc_ref(ctx, inc);
        let t = CString::new("qfbv").unwrap(); let tac = Z3_mk_tactic(ctx, t.as_ptr()); Z3_tactic_inc_ref(ctx, tac);
        let fresh = Z3_mk_solver_from_tactic(ctx, tac); Z3_solver_inc_ref(ctx, fresh);
        let t = CString::new("qffpbv").unwrap(); let tac = Z3_mk_tactic(ctx, t.as_ptr()); Z3_tactic_inc_ref(ctx, tac);
        let fp = Z3_mk_solver_from_tactic(ctx, tac); Z3_solver_inc_ref(ctx, fp);
        let p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, s("rlimit"), 4_000_000); Z3_solver_set_params(ctx, inc, p);
        let p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, s("rlimit"), 400_000_000);
        for x in [fresh, fp] { Z3_solver_set_params(ctx, x, p); }
        Solver { ctx, inc, fresh, fp, asts: vec![], lits: Default::default(), lit_of: Default::default(), guarded: Default::default(), cores: Default::default(), cache: Default::default(), has_fp: Default::default(), stats: Default::default(), reset_at: std::env::var("SYMEX_RESET").ok().and_then(|x| x.parse().ok()).unwrap_or(50) }
    } }
    fn bv(&self, d: &Dag, t: T) -> Ast { unsafe { // as bit-vector
        let a = self.asts[t as usize];
        if d.w(t) == 1 { let s = Z3_mk_bv_sort(self.ctx, 1); let one = Z3_mk_unsigned_int64(self.ctx, 1, s); let zero = Z3_mk_unsigned_int64(self.ctx, 0, s); Z3_mk_ite(self.ctx, a, one, zero) } else { a }
    } }
    fn num(&self, v: u128, w: u32) -> Ast { unsafe {
        let s = Z3_mk_bv_sort(self.ctx, w);
        if w <= 64 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) } else { let c = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.ctx, c.as_ptr(), s) }
    } }
    fn has_fp(&mut self, d: &Dag, t: T) -> bool {
        if let Some(&b) = self.has_fp.get(&t) { return b; }
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if self.has_fp.contains_key(&x) { continue; }
            let n = d.nodes[x as usize]; let ch = children(&n);
            if !done { st.push((x, true)); for &c in ch.iter() { st.push((c, false)); } continue; }
            let mut b = matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FExt | Op::FTrunc | Op::SIToF | Op::UIToF);
            for c in ch.iter() { b |= self.has_fp[c]; }
            self.has_fp.insert(x, b);
        }
        self.has_fp[&t]
    }
    fn tr(&mut self, d: &Dag, t: T) -> Ast {
        if self.asts.len() < d.nodes.len() { self.asts.resize(d.nodes.len(), std::ptr::null_mut()); }
        if !self.asts[t as usize].is_null() { return self.asts[t as usize]; }
        let mut st = vec![(t, false)];
        let c = self.ctx;
        while let Some((x, done)) = st.pop() {
            if !self.asts[x as usize].is_null() { continue; }
            let n = d.nodes[x as usize]; let ch = children(&n);
            if !done { st.push((x, true)); for &k in ch.iter() { if self.asts[k as usize].is_null() { st.push((k, false)); } } continue; }
            let w = n.w as u32;
            let a = unsafe {
                let g = |t: T| self.asts[t as usize];
                let b = |t: T| self.bv(d, t);
                let one = |x: Ast| -> Ast { if w == 1 { let o = self.num(1, 1); Z3_mk_eq(c, x, o) } else { x } };
                let fsort = |w: u32| if w == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) };
                let fin = |r: Ast| -> Ast { let nan = self.num(if w == 64 { 0x7ff8000000000000 } else { 0x7fc00000 }, w); let isn = Z3_mk_fpa_is_nan(c, r); let bvr = Z3_mk_fpa_to_ieee_bv(c, r); Z3_mk_ite(c, isn, nan, bvr) };
                match n.op {
                    Op::Const => if w == 1 { if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(n.k, w) },
                    Op::Var => { let nm = CString::new(format!("{}!{}", d.var_names[n.a as usize], n.a)).unwrap(); let s = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) }; Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s) }
                    Op::Not => if w == 1 { Z3_mk_not(c, g(n.a)) } else { Z3_mk_bvnot(c, g(n.a)) },
                    Op::Add => Z3_mk_bvadd(c, g(n.a), g(n.b)), Op::Sub => Z3_mk_bvsub(c, g(n.a), g(n.b)), 
                    Op::Mul => one(Z3_mk_bvmul(c, b(n.a), b(n.b))),
                    Op::UDiv => one(Z3_mk_bvudiv(c, b(n.a), b(n.b))), Op::URem => one(Z3_mk_bvurem(c, b(n.a), b(n.b))),
                    Op::SDiv => one(Z3_mk_bvsdiv(c, b(n.a), b(n.b))), Op::SRem => one(Z3_mk_bvsrem(c, b(n.a), b(n.b))),
                    Op::And => if w == 1 { Z3_mk_and(c, 2, [g(n.a), g(n.b)].as_ptr()) } else { Z3_mk_bvand(c, g(n.a), g(n.b)) },
                    Op::Or => if w == 1 { Z3_mk_or(c, 2, [g(n.a), g(n.b)].as_ptr()) } else { Z3_mk_bvor(c, g(n.a), g(n.b)) },
                    Op::Xor => if w == 1 { Z3_mk_xor(c, g(n.a), g(n.b)) } else { Z3_mk_bvxor(c, g(n.a), g(n.b)) },
                    Op::Shl => one(Z3_mk_bvshl(c, b(n.a), b(n.b))), Op::LShr => one(Z3_mk_bvlshr(c, b(n.a), b(n.b))), Op::AShr => one(Z3_mk_bvashr(c, b(n.a), b(n.b))),
                    Op::Concat => Z3_mk_concat(c, b(n.a), b(n.b)),
                    Op::Extract => one(Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, b(n.a))),
                    Op::ZExt => Z3_mk_zero_ext(c, w - d.w(n.a), b(n.a)),
                    Op::SExt => Z3_mk_sign_ext(c, w - d.w(n.a), b(n.a)),
                    Op::Eq => Z3_mk_eq(c, g(n.a), g(n.b)),
                    Op::Ult => Z3_mk_bvult(c, b(n.a), b(n.b)),
                    Op::Slt => Z3_mk_bvslt(c, b(n.a), b(n.b)),
                    Op::Ite => Z3_mk_ite(c, g(n.a), g(n.b), g(n.c)),
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                        let s = fsort(w); let x = Z3_mk_fpa_to_fp_bv(c, g(n.a), s); let y = Z3_mk_fpa_to_fp_bv(c, g(n.b), s); let r = Z3_mk_fpa_rne(c);
                        fin(match n.op { Op::FAdd => Z3_mk_fpa_add(c, r, x, y), Op::FSub => Z3_mk_fpa_sub(c, r, x, y), Op::FMul => Z3_mk_fpa_mul(c, r, x, y), _ => Z3_mk_fpa_div(c, r, x, y) })
                    }
                    Op::FExt | Op::FTrunc => { let x = Z3_mk_fpa_to_fp_bv(c, g(n.a), fsort(d.w(n.a))); fin(Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, fsort(w))) }
                    Op::SIToF => fin(Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), b(n.a), fsort(w))),
                    Op::UIToF => fin(Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), b(n.a), fsort(w))),
                }
            };
            self.asts[x as usize] = a;
        }
        self.asts[t as usize]
    }
    fn model_of(&mut self, d: &mut Dag, s: Sol, cs: &[T]) -> FxMap<u32, u128> {
        let mut out: FxMap<u32, u128> = Default::default();
        let mut vs: FxSet<u32> = Default::default();
        for &c in cs { for &v in d.vars(c).iter() { vs.insert(v); } }
        unsafe {
            let m = Z3_solver_get_model(self.ctx, s); Z3_model_inc_ref(self.ctx, m);
            for v in vs {
                let t = d.var_terms[v as usize];
                let a = self.tr(d, t);
                let mut r: Ast = std::ptr::null_mut();
                if !Z3_model_eval(self.ctx, m, a, true, &mut r) { continue; }
                let val = if d.w(t) == 1 { (Z3_get_bool_value(self.ctx, r) == 1) as u128 } else { CStr::from_ptr(Z3_get_numeral_string(self.ctx, r)).to_str().unwrap().parse::<u128>().unwrap() };
                out.insert(v, val);
            }
            Z3_model_dec_ref(self.ctx, m);
        }
        out
    }
    /// Is the conjunction satisfiable? The order of `cs` matters for incrementality only.
    pub fn check(&mut self, d: &mut Dag, cs: &[T]) -> Ans {
        let mut key: Vec<T> = cs.to_vec(); key.sort_unstable(); key.dedup();
        key.retain(|&t| t != 1);
        if key.contains(&0) { return Ans::Unsat; }
        if key.is_empty() { return Ans::Sat(Default::default()); }
        if let Some(r) = self.cache.get(&key) { self.stats.cached += 1; return match r { Some(Some(m)) => Ans::Sat((**m).clone()), Some(None) => Ans::Unsat, None => Ans::Unknown }; }
        if let Some(v) = cs.last().and_then(|q| self.cores.get(q)) { if v.iter().any(|c| c.iter().all(|t| key.binary_search(t).is_ok())) { self.stats.cored += 1; return Ans::Unsat; } }
        let t0 = Instant::now();
        let fp = cs.iter().any(|&t| self.has_fp(d, t));
        let mut r = 0; let mut used = self.inc;
        for &t in cs { self.tr(d, t); }
        unsafe {
            if !fp {
                if self.guarded.len() > self.reset_at { Z3_solver_reset(self.ctx, self.inc); self.guarded.clear(); }
                let mut asm = Vec::with_capacity(cs.len());
                for &t in cs {
                    let p = match self.lits.get(&t) { Some(&p) => p, None => {
                        let n = CString::new(format!("p!{}", t)).unwrap();
                        let p = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()), Z3_mk_bool_sort(self.ctx));
                        self.lits.insert(t, p); self.lit_of.insert(p as usize, t); p } };
                    if self.guarded.insert(t) { let a = self.asts[t as usize]; Z3_solver_assert(self.ctx, self.inc, Z3_mk_implies(self.ctx, p, a)); }
                    asm.push(p);
                }
                r = Z3_solver_check_assumptions(self.ctx, self.inc, asm.len() as u32, asm.as_ptr());
                if r == -1 {
                    let v = Z3_solver_get_unsat_core(self.ctx, self.inc); Z3_ast_vector_inc_ref(self.ctx, v);
                    let mut core: Vec<T> = (0..Z3_ast_vector_size(self.ctx, v)).filter_map(|i| self.lit_of.get(&(Z3_ast_vector_get(self.ctx, v, i) as usize)).copied()).collect();
                    Z3_ast_vector_dec_ref(self.ctx, v);
                    core.sort_unstable();
                    let q = *cs.last().unwrap();
                    if core.binary_search(&q).is_ok() { self.cores.entry(q).or_default().push(core); }
                }
            }
            if r == 0 {
                used = if fp { self.fp } else { self.fresh };
                Z3_solver_reset(self.ctx, used);
                for &t in cs { Z3_solver_assert(self.ctx, used, self.asts[t as usize]); }
                r = Z3_solver_check(self.ctx, used);
            }
        }
        self.stats.queries += 1;
        let ans = match r {
            1 => { self.stats.sat += 1; let m = self.model_of(d, used, cs); Ans::Sat(m) }
            -1 => { self.stats.unsat += 1; Ans::Unsat }
            _ => { self.stats.unknown += 1; Ans::Unknown }
        };
        let dt = t0.elapsed().as_micros() as u64;
        self.stats.time_us += dt; if dt > self.stats.max_us { self.stats.max_us = dt; }
        if self.cache.len() > 400_000 { self.cache.clear(); }
        self.cache.insert(key, match &ans { Ans::Sat(m) => Some(Some(Rc::new(m.clone()))), Ans::Unsat => Some(None), Ans::Unknown => None });
        if std::env::var_os("SYMEX_SLOWQ").is_some() && dt > 500_000 { eprintln!("slow query {} ms, {} constraints", dt / 1000, cs.len()); }
        ans
    }
}
