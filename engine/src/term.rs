//! Hash-consed bit-vector term DAG with constant folding, known-bits and segment normalisation.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Not, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Eq, Ult, Slt, Ite, FAdd, FSub, FMul, FDiv, FExt, FTrunc,
    SIToF, UIToF,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u8, pub a: T, pub b: T, pub c: T, pub k: u128 }

#[derive(Clone, Copy)]
pub struct Known { pub zeros: u128, pub ones: u128 }

pub struct Dag {
    pub nodes: Vec<Node>,
    pub known: Vec<Known>,
    map: FxMap<Node, T>,
    pub var_names: Vec<String>,
    pub var_terms: Vec<T>,
    vars_memo: FxMap<T, std::rc::Rc<Vec<u32>>>,
    size_memo: FxMap<T, (u32, bool)>,
    lane_memo: FxMap<T, Option<std::rc::Rc<(Vec<u32>, Vec<u128>)>>>,
    // functions of the position of the highest (lowest) one of a term: its thresholds, and a value between each two of them
    steps: Vec<Vec<T>>,
    step_of: FxMap<(T, bool), usize>,
    tables: FxMap<T, (usize, std::rc::Rc<Vec<u128>>)>,
    tabulating: bool,
    ite_memo: FxMap<T, bool>,
    extract_memo: FxMap<(T, u32), T>,
    // where the facts of the path leave the position
    allowed: FxMap<usize, Vec<bool>>,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext128(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

impl Dag {
    pub fn new() -> Dag {
        let mut d = Dag { nodes: vec![], known: vec![], map: Default::default(), var_names: vec![], var_terms: vec![], vars_memo: Default::default(), size_memo: Default::default(), lane_memo: Default::default(), steps: vec![], step_of: Default::default(), tables: Default::default(), tabulating: false, ite_memo: Default::default(), extract_memo: Default::default(), allowed: Default::default() };
        d.mk(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 }); // id 0 = false
        d.mk(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 1 }); // id 1 = true
        d
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) { return t; }
        let kn = self.calc_known(&n);
        let m = mask(n.w as u32);
        if n.op != Op::Const && (kn.zeros | kn.ones) & m == m { return self.cst(kn.ones & m, n.w as u32); }
        if !self.tables.is_empty() && !self.tabulating && !matches!(n.op, Op::Const | Op::Var) {
            if let Some(t) = self.tabulate(&n) { self.map.insert(n, t); return t; }
        }
        if matches!(n.op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Eq | Op::Ult | Op::Slt) {
            // a term of at most 8 input bits: its whole truth table decides
            if let Some(l) = self.lanes_of(&n) {
                let v = &l.1;
                if v.iter().all(|x| *x == v[0]) { return self.cst(v[0], n.w as u32); }
                if !matches!(n.op, Op::Eq | Op::Ult | Op::Slt) {
                    let mut row: Vec<T> = v.iter().map(|x| self.cst(*x, n.w as u32)).collect();
                    for &q in &l.0 { let t = self.var_terms[q as usize]; for b in 0..self.w(t) { let c = self.extract(t, b, 1); row = row.chunks(2).map(|p| self.ite(c, p[1], p[0])).collect(); } }
                    self.map.insert(n, row[0]);
                    return row[0];
                }
            }
        }
        let id = self.nodes.len() as T;
        self.nodes.push(n);
        self.known.push(kn);
        self.map.insert(n, id);
        id
    }
    /// values of a term for every assignment of its variables (first variable in the lowest index bits), when these have at most 8 bits
    fn lanes(&mut self, t: T) -> Option<std::rc::Rc<(Vec<u32>, Vec<u128>)>> {
        if let Some(r) = self.lane_memo.get(&t) { return r.clone(); }
        let mut todo = vec![t];
        while let Some(&x) = todo.last() {
            if self.lane_memo.contains_key(&x) { todo.pop(); continue; }
            let vs = self.vars(x);
            let bits: u32 = vs.iter().map(|&q| self.w(self.var_terms[q as usize])).sum();
            if bits > 8 { self.lane_memo.insert(x, None); todo.pop(); continue; }
            let n = self.nodes[x as usize];
            let ch = children(&n); let mut ready = true;
            for &c in ch.iter() { if !self.lane_memo.contains_key(&c) { todo.push(c); ready = false; } }
            if !ready { continue; }
            let r = self.lanes_of(&n);
            self.lane_memo.insert(x, r); todo.pop();
        }
        self.lane_memo[&t].clone()
    }
    fn lanes_of(&mut self, n: &Node) -> Option<std::rc::Rc<(Vec<u32>, Vec<u128>)>> {
        if n.op == Op::Var { return if n.w <= 8 { Some(std::rc::Rc::new((vec![n.a], (0..1u128 << n.w).collect()))) } else { None }; }
        if n.op == Op::Const { return Some(std::rc::Rc::new((vec![], vec![n.k]))); }
        let ch = children(n);
        let mut vs: Vec<u32> = vec![];
        for &c in ch.iter() { let v = self.vars(c); for &q in v.iter() { if let Err(p) = vs.binary_search(&q) { vs.insert(p, q); } } if vs.len() > 8 { return None; } }
        let bits: u32 = vs.iter().map(|&q| self.w(self.var_terms[q as usize])).sum();
        if bits > 8 { return None; }
        let mut cl: Vec<(T, Vec<u128>)> = vec![];
        for &c in ch.iter() {
            let l = self.lanes(c)?;
            let v = if l.0 == vs { l.1.clone() } else {
                // spread the child's table over all variables
                (0..1usize << bits).map(|i| {
                    let (mut at, mut pos, mut idx) = (0u32, 0u32, 0usize);
                    for &q in &vs { let w = self.w(self.var_terms[q as usize]); if l.0.binary_search(&q).is_ok() { idx |= ((i >> at) & ((1 << w) - 1)) << pos; pos += w; } at += w; }
                    l.1[idx]
                }).collect()
            };
            cl.push((c, v));
        }
        let mut out = Vec::with_capacity(1 << bits);
        for i in 0..1usize << bits { let g = |c: T| cl.iter().find(|x| x.0 == c).unwrap().1[i]; out.push(self.apply(n, &g)); }
        Some(std::rc::Rc::new((vs, out)))
    }
    #[inline] pub fn w(&self, t: T) -> u32 { self.nodes[t as usize].w as u32 }
    #[inline] pub fn as_const(&self, t: T) -> Option<u128> { let n = &self.nodes[t as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    /// the number of zeros above the highest (below the lowest) one
    pub fn count_zeros(&mut self, a: T, leading: bool) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(a) { let z = if k == 0 { w } else if leading { w - 1 - (127 - k.leading_zeros()) } else { k.trailing_zeros() }; return self.cst(z as u128, w); }
        let base = match self.step_of.get(&(a, leading)) { Some(&b) => b, None => {
            // every threshold implies the next
            let mut c = vec![];
            for i in 0..w { let x = if leading { self.extract(a, w - 1 - i, i + 1) } else { self.extract(a, 0, i + 1) }; let z = self.cst(0, i + 1); let e = self.eq(x, z); c.push(self.not(e)); }
            let b = self.steps.len();
            for (i, &t) in c.iter().enumerate() { if t < 2 { continue; } let e = self.not(t); for (t, y) in [(t, 1), (e, 0)] { if !self.tables.contains_key(&t) { let v = (0..=w as usize).map(|j| if j <= i { y } else { 1 - y }).collect(); self.tables.insert(t, (b, std::rc::Rc::new(v))); } } }
            self.steps.push(c); self.step_of.insert((a, leading), b); b
        } };
        self.table(base, (0..=w as u128).collect(), w)
    }
    pub fn learn(&mut self, facts: &FxMap<T, T>) {
        self.allowed.clear();
        if self.tables.is_empty() { return; }
        for (t, k) in facts { if let (Some((b, v)), Some(k)) = (self.tables.get(t), self.as_const(*k)) {
            let n = v.len(); let a = self.allowed.entry(*b).or_insert_with(|| vec![true; n]);
            for i in 0..n { a[i] &= v[i] == k; }
        } }
    }
    fn table(&mut self, base: usize, v: Vec<u128>, w: u32) -> T {
        let old = std::mem::replace(&mut self.tabulating, true);
        let mut r = self.cst(*v.last().unwrap(), w);
        for i in (0..v.len() - 1).rev() { if v[i] != v[i + 1] { let (c, k) = (self.steps[base][i], self.cst(v[i], w)); r = self.ite(c, k, r); } }
        self.tabulating = old;
        if self.as_const(r).is_none() && !self.tables.contains_key(&r) { self.tables.insert(r, (base, std::rc::Rc::new(v))); }
        r
    }
    /// an operation on such functions of one term and constants is such a function
    fn tabulate(&mut self, n: &Node) -> Option<T> {
        let ch = children(n);
        let mut base = None;
        for &c in ch.iter() { if self.as_const(c).is_some() { continue; } let b = self.tables.get(&c)?.0; if *base.get_or_insert(b) != b { return None; } }
        let base = base?;
        let tabs: Vec<(T, Option<std::rc::Rc<Vec<u128>>>)> = ch.iter().map(|&c| (c, self.tables.get(&c).map(|x| x.1.clone()))).collect();
        let v: Vec<u128> = (0..=self.steps[base].len()).map(|i| { let g = |c: T| match self.as_const(c) { Some(k) => k, None => tabs.iter().find(|x| x.0 == c).unwrap().1.as_ref().unwrap()[i] }; self.apply(n, &g) }).collect();
        Some(self.table(base, v, n.w as u32))
    }
    pub fn cst(&mut self, v: u128, w: u32) -> T { self.mk(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn var(&mut self, name: &str, w: u32) -> T {
        // the name is the identity of a variable
        let idx = match self.var_names.iter().position(|n| n == name) { Some(i) => i, None => { self.var_names.push(name.to_string()); self.var_terms.push(0); self.var_names.len() - 1 } };
        let t = self.mk(Node { op: Op::Var, w: w as u8, a: idx as u32, b: 0, c: 0, k: 0 });
        self.var_terms[idx] = t;
        t
    }
    fn calc_known(&self, n: &Node) -> Known {
        let m = mask(n.w as u32);
        let u = Known { zeros: !m, ones: 0 };
        let kn = |t: T| self.known[t as usize];
        match n.op {
            Op::Const => Known { zeros: !n.k, ones: n.k },
            Op::Not => { let a = kn(n.a); Known { zeros: a.ones | !m, ones: a.zeros & m } }
            Op::And => { let (a, b) = (kn(n.a), kn(n.b)); Known { zeros: a.zeros | b.zeros, ones: a.ones & b.ones } }
            Op::Or => { let (a, b) = (kn(n.a), kn(n.b)); Known { zeros: a.zeros & b.zeros, ones: a.ones | b.ones } }
            Op::Xor => { let (a, b) = (kn(n.a), kn(n.b)); let k = (a.zeros | a.ones) & (b.zeros | b.ones); let v = a.ones ^ b.ones; Known { zeros: (k & !v) | !m, ones: k & v & m } }
            Op::ZExt => { let a = kn(n.a); Known { zeros: a.zeros | !mask(self.w(n.a)), ones: a.ones } }
            Op::SExt => {
                let aw = self.w(n.a); let a = kn(n.a); let am = mask(aw);
                let s = 1u128 << (aw - 1); let hi = m & !am;
                if a.zeros & s != 0 { Known { zeros: a.zeros | !am, ones: a.ones & am } }
                else if a.ones & s != 0 { Known { zeros: (a.zeros & am) | !m, ones: (a.ones & am) | hi } }
                else { Known { zeros: (a.zeros & am) | !m, ones: a.ones & am } }
            }
            Op::Concat => { let (a, b) = (kn(n.a), kn(n.b)); let bw = self.w(n.b); let bm = mask(bw); Known { zeros: ((a.zeros << bw) | (b.zeros & bm)) | !m, ones: (a.ones << bw) | (b.ones & bm) } }
            Op::Extract => { let a = kn(n.a); let lo = n.k as u32; Known { zeros: (a.zeros >> lo) | !m, ones: (a.ones >> lo) & m } }
            Op::Ite => { let (b, c) = (kn(n.b), kn(n.c)); Known { zeros: b.zeros & c.zeros, ones: b.ones & c.ones } }
            Op::Add => {
                // low known bits
                let (a, b) = (kn(n.a), kn(n.b));
                let k = (a.zeros | a.ones) & (b.zeros | b.ones);
                let tz = (!k).trailing_zeros().min(n.w as u32);
                let lm = mask(tz);
                let v = (a.ones & lm).wrapping_add(b.ones & lm) & lm;
                // high zeros: if both have hz leading zeros, result has at least hz-1
                let la = (!a.zeros & m).leading_zeros(); let lb = (!b.zeros & m).leading_zeros();
                let l = la.min(lb);
                let mut z = (!v & lm) | !m;
                if l > 128 - n.w as u32 && l >= 1 { z |= !mask(128 - (l - 1)); }
                Known { zeros: z, ones: v }
            }
            Op::Mul => {
                let (a, b) = (kn(n.a), kn(n.b));
                let la = 128 - (!a.zeros & m).leading_zeros(); let lb = 128 - (!b.zeros & m).leading_zeros();
                let mut z = !m;
                if la + lb < n.w as u32 { z |= !mask(la + lb); }
                let tz = (a.zeros.trailing_ones() + b.zeros.trailing_ones()).min(n.w as u32);
                z |= mask(tz);
                Known { zeros: z, ones: 0 }
            }
            Op::UDiv | Op::LShr => { let a = kn(n.a); let l = (!a.zeros & m).leading_zeros(); if n.op == Op::UDiv && kn(n.b).ones == 0 { return u; } if let (Op::UDiv, Some(k)) = (n.op, self.as_const(n.b)) { let mx = (!a.zeros & m) / k; return Known { zeros: !mask(128 - mx.leading_zeros()), ones: 0 }; } Known { zeros: !mask(128 - l) | !m, ones: 0 } }
            Op::URem => { let a = kn(n.a); let l = (!a.zeros & m).leading_zeros();
                let mut z = !mask(128 - l) | !m;
                if let Some(k) = self.as_const(n.b) { if k > 0 { z |= !mask(128 - (k - 1).leading_zeros()); } }
                Known { zeros: z, ones: 0 } }
            _ => u,
        }
    }
    #[inline] fn umin(&self, t: T) -> u128 { self.known[t as usize].ones }
    #[inline] fn umax(&self, t: T) -> u128 { !self.known[t as usize].zeros & mask(self.w(t)) }

    fn n2(&mut self, op: Op, a: T, b: T) -> T { let w = self.w(a); self.mk(Node { op, w: w as u8, a, b, c: 0, k: 0 }) }
    fn comm(&mut self, op: Op, a: T, b: T) -> T { if a > b { self.n2(op, b, a) } else { self.n2(op, a, b) } }

    pub fn not(&mut self, a: T) -> T {
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => self.cst(!n.k, n.w as u32),
            Op::Not => n.a,
            _ => self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 }),
        }
    }
    /// distribute a unary function over an ite with two constant branches
    /// the values of a term that takes few, with the exclusive conditions under which it takes them
    pub fn cases(&mut self, t: T, max: usize) -> Option<Vec<(T, u128)>> {
        if let Some(k) = self.as_const(t) { return Some(vec![(1, k)]); }
        let n = self.nodes[t as usize]; let w = n.w as u32;
        if w == 1 { let f = self.not(t); return Some(vec![(t, 1), (f, 0)]); }
        let r: Vec<(T, u128)> = match n.op {
            Op::Ite => {
                let (x, y) = (self.cases(n.b, max)?, self.cases(n.c, max)?); let f = self.not(n.a);
                let mut o = vec![];
                for (c, k) in x { let c = self.and(n.a, c); o.push((c, k)); }
                for (c, k) in y { let c = self.and(f, c); o.push((c, k)); }
                o
            }
            Op::ZExt => self.cases(n.a, max)?,
            Op::Add | Op::Or | Op::Concat => {
                let (x, y) = (self.cases(n.a, max)?, self.cases(n.b, max)?);
                if x.len() * y.len() > 2 * max { return None; }
                let lw = self.w(n.b); let mut o = vec![];
                for &(c, k) in &x { for &(d, l) in &y { let c = self.and(c, d); o.push((c, match n.op { Op::Add => k.wrapping_add(l) & mask(w), Op::Or => k | l, _ => k << lw | l })); } }
                o
            }
            _ => return None,
        };
        let mut o: Vec<(T, u128)> = vec![];
        for (c, k) in r { if c == 0 { continue; } match o.iter().position(|x| x.1 == k) { Some(i) => { let d = self.or(o[i].0, c); o[i].0 = d; } None => o.push((c, k)) } }
        if o.len() > max { None } else { Some(o) }
    }
    fn ite_consts(&self, t: T) -> Option<(T, u128, u128)> {
        let n = self.nodes[t as usize];
        if n.op == Op::Ite { if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) { return Some((n.a, x, y)); } }
        None
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a); let m = mask(w);
        if w == 1 { return self.xor(a, b); }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x.wrapping_add(y), w),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            (Some(_), None) => return self.add(b, a),
            (None, Some(y)) => {
                let n = self.nodes[a as usize];
                if n.op == Op::Add { if let Some(x) = self.as_const(n.b) { let k = self.cst(x.wrapping_add(y) & m, w); return self.add(n.a, k); } }
                if let Some((c, p, q)) = self.ite_consts(a) { let p = self.cst(p.wrapping_add(y), w); let q = self.cst(q.wrapping_add(y), w); return self.ite(c, p, q); }
                // disjoint bits -> or
                if self.umax(a) & y == 0 { return self.or(a, b); }
                return self.n2(Op::Add, a, b);
            }
            _ => {}
        }
        // move constants outward
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Add && self.as_const(na.b).is_some() { let s = self.add(na.a, b); return self.add(s, na.b); }
        if nb.op == Op::Add && self.as_const(nb.b).is_some() { let s = self.add(a, nb.a); return self.add(s, nb.b); }
        if nb.op == Op::Sub && nb.b == a { return nb.a; }
        if na.op == Op::Sub && na.b == b { return na.a; }
        if self.umax(a) & self.umax(b) == 0 { return self.or(a, b); }
        self.comm(Op::Add, a, b)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.cst(0, w); }
        if w == 1 { return self.xor(a, b); }
        if let Some(y) = self.as_const(b) { let k = self.cst(y.wrapping_neg(), w); return self.add(a, k); }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if nb.op == Op::Sub && nb.a == a { return nb.b; }
        // (x + k) - y -> (x - y) + k
        if na.op == Op::Add && self.as_const(na.b).is_some() { let s = self.sub(na.a, b); return self.add(s, na.b); }
        if nb.op == Op::Add { if let Some(k) = self.as_const(nb.b) { let s = self.sub(a, nb.a); let k = self.cst(k.wrapping_neg(), w); return self.add(s, k); } }
        if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
        self.n2(Op::Sub, a, b)
    }
    pub fn neg(&mut self, a: T) -> T { let w = self.w(a); let z = self.cst(0, w); self.sub(z, a) }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(k)) if k.is_power_of_two() => { let s = self.cst(k.trailing_zeros() as u128, w); return self.shl(a, s); }
            (None, Some(k)) => {
                if let Some((c, p, q)) = self.ite_consts(a) { let p = self.cst(p.wrapping_mul(k), w); let q = self.cst(q.wrapping_mul(k), w); return self.ite(c, p, q); }
                // (y / d) * (d * e) = (y - y % d) * e
                let n = self.nodes[a as usize];
                let inner = if n.op == Op::ZExt { self.nodes[n.a as usize] } else { n };
                if inner.op == Op::UDiv { if let Some(dv) = self.as_const(inner.b) { if dv > 1 && k % dv == 0 {
                    let r = self.divrem(Op::URem, inner.a, inner.b);
                    let (y, r) = if n.op == Op::ZExt { (self.zext(inner.a, w), self.zext(r, w)) } else { (inner.a, r) };
                    let x = self.sub(y, r); let e = self.cst(k / dv, w);
                    return self.mul(x, e);
                } } }
                if n.op == Op::Mul { if let Some(x) = self.as_const(n.b) { let k = self.cst(x.wrapping_mul(k), w); return self.mul(n.a, k); } }
                return self.n2(Op::Mul, a, b);
            }
            _ => {}
        }
        self.comm(Op::Mul, a, b)
    }
    pub fn divrem(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            let r = match op {
                Op::UDiv => if y == 0 { mask(w) } else { x / y },
                Op::URem => if y == 0 { x } else { x % y },
                Op::SDiv => if y == 0 { if sx < 0 { 1 } else { mask(w) } } else { sx.wrapping_div(sy) as u128 },
                _ => if y == 0 { x } else { sx.wrapping_rem(sy) as u128 },
            };
            return self.cst(r, w);
        }
        if let Some(y) = self.as_const(b) {
            if y == 1 { return if matches!(op, Op::UDiv | Op::SDiv) { a } else { self.cst(0, w) }; }
            if y.is_power_of_two() {
                if op == Op::UDiv { let s = self.cst(y.trailing_zeros() as u128, w); return self.lshr(a, s); }
                if op == Op::URem { let s = self.cst(y - 1, w); return self.and(a, s); }
            }
            if matches!(op, Op::UDiv | Op::URem) && self.umax(a) < y { return if op == Op::UDiv { self.cst(0, w) } else { a }; }
            // narrow the division when the high bits are known to be zero
            if matches!(op, Op::UDiv | Op::URem) {
                let need = (128 - self.umax(a).leading_zeros()).max(128 - y.leading_zeros()).max(1);
                if need < w {
                    let na = self.extract(a, 0, need); let nb = self.cst(y, need);
                    let r = self.divrem(op, na, nb);
                    return self.zext(r, w);
                }
                if let Some((c, p, q)) = self.ite_consts(a) {
                    let (p, q) = if op == Op::UDiv { (p / y, q / y) } else { (p % y, q % y) };
                    let p = self.cst(p, w); let q = self.cst(q, w); return self.ite(c, p, q);
                }
            } else if (sext128(y, w) > 0) && self.umax(a) >> (w - 1) == 0 {
                let uop = if op == Op::SDiv { Op::UDiv } else { Op::URem };
                return self.divrem(uop, a, b);
            }
        }
        self.n2(op, a, b)
    }
    // ---- segments ------------------------------------------------------------
    /// most significant first list of (term) pieces
    fn segs(&mut self, t: T, out: &mut Vec<T>) {
        let n = self.nodes[t as usize];
        match n.op {
            Op::Concat => { self.segs(n.a, out); self.segs(n.b, out); }
            Op::ZExt => { let aw = self.w(n.a); let z = self.cst(0, n.w as u32 - aw); out.push(z); self.segs(n.a, out); }
            _ => out.push(t),
        }
    }
    fn from_segs(&mut self, s: &[T]) -> T {
        let mut acc = s[0];
        for &x in &s[1..] { acc = self.concat(acc, x); }
        acc
    }
    /// bitwise op by aligned segments; f gives Some(term) when a piece simplifies
    fn seg_op(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let mut sa = vec![]; let mut sb = vec![];
        self.segs(a, &mut sa); self.segs(b, &mut sb);
        if sa.len() == 1 && sb.len() == 1 {
            // constant masks: split the constant into runs of ones and zeros
            let (c, x, cf) = match (self.as_const(a), self.as_const(b)) { (Some(c), None) => (c, b, true), (None, Some(c)) => (c, a, false), _ => return None };
            let _ = (x, cf);
            let w = self.w(a);
            let mut runs = vec![]; let mut i = w;
            while i > 0 { let bit = (c >> (i - 1)) & 1; let mut j = i; while j > 0 && (c >> (j - 1)) & 1 == bit { j -= 1; } runs.push((bit, i - j)); i = j; }
            if runs.len() > 6 { return None; }
            if op == Op::Xor && runs.len() > 2 { return None; }
            if op == Op::Xor { return None; }
            let parts: Vec<T> = runs.iter().map(|&(b, l)| { let v = if b == 1 { mask(l) } else { 0 }; self.cst(v, l) }).collect();
            if runs.len() == 1 { return None; }
            if cf { sa = parts } else { sb = parts }
        }
        // split constants inside the lists as well
        let split = |d: &mut Dag, s: Vec<T>| -> Vec<T> {
            let mut o = vec![];
            for t in s {
                if let Some(c) = d.as_const(t) {
                    let w = d.w(t); let mut i = w; let mut runs = vec![];
                    while i > 0 { let bit = (c >> (i - 1)) & 1; let mut j = i; while j > 0 && (c >> (j - 1)) & 1 == bit { j -= 1; } runs.push((bit, i - j)); i = j; }
                    if runs.len() > 6 { o.push(t); } else { for (b, l) in runs { let v = if b == 1 { mask(l) } else { 0 }; o.push(d.cst(v, l)); } }
                } else { o.push(t) }
            }
            o
        };
        if op != Op::Xor { sa = split(self, sa); sb = split(self, sb); }
        let mut out = vec![];
        let (mut i, mut j) = (0, 0);
        let (mut ra, mut rb) = (self.w(sa[0]), self.w(sb[0])); // remaining width of current pieces (from the top)
        loop {
            let l = ra.min(rb);
            let pa = self.extract(sa[i], ra - l, l);
            let pb = self.extract(sb[j], rb - l, l);
            let (ca, cb) = (self.as_const(pa), self.as_const(pb));
            let m = mask(l);
            let r = match (op, ca, cb) {
                (Op::And, Some(x), Some(y)) => self.cst(x & y, l),
                (Op::Or, Some(x), Some(y)) => self.cst(x | y, l),
                (Op::Xor, Some(x), Some(y)) => self.cst(x ^ y, l),
                (Op::And, Some(0), _) | (Op::And, _, Some(0)) => self.cst(0, l),
                (Op::And, Some(x), _) if x == m => pb,
                (Op::And, _, Some(x)) if x == m => pa,
                (Op::Or, Some(0), _) | (Op::Xor, Some(0), _) => pb,
                (Op::Or, _, Some(0)) | (Op::Xor, _, Some(0)) => pa,
                (Op::Or, Some(x), _) if x == m => pa,
                (Op::Or, _, Some(x)) if x == m => pb,
                (Op::Xor, Some(x), _) if x == m => self.not(pb),
                (Op::Xor, _, Some(x)) if x == m => self.not(pa),
                _ if pa == pb && op != Op::Xor => pa,
                _ => return None,
            };
            out.push(r);
            ra -= l; rb -= l;
            if ra == 0 { i += 1; if i < sa.len() { ra = self.w(sa[i]); } }
            if rb == 0 { j += 1; if j < sb.len() { rb = self.w(sb[j]); } }
            if i >= sa.len() { break; }
        }
        Some(self.from_segs(&out))
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a); let m = mask(w);
        if a == b { return a; }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(y)) => {
                if y == 0 { return b; }
                if y == m { return a; }
                if self.umax(a) & !y == 0 { return a; }
                if let Some((c, p, q)) = self.ite_consts(a) { let p = self.cst(p & y, w); let q = self.cst(q & y, w); return self.ite(c, p, q); }
            }
            _ => { if w == 1 { if self.is_not_of(a, b) { return 0; } } }
        }
        if w > 1 { if let Some(r) = self.seg_op(Op::And, a, b) { return r; } }
        self.comm(Op::And, a, b)
    }
    fn is_not_of(&self, a: T, b: T) -> bool { let (x, y) = (self.nodes[a as usize], self.nodes[b as usize]); (x.op == Op::Not && x.a == b) || (y.op == Op::Not && y.a == a) }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a); let m = mask(w);
        if a == b { return a; }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(y)) => {
                if y == 0 { return a; }
                if y == m { return b; }
                if let Some((c, p, q)) = self.ite_consts(a) { let p = self.cst(p | y, w); let q = self.cst(q | y, w); return self.ite(c, p, q); }
            }
            _ => { if w == 1 { if self.is_not_of(a, b) { return 1; } } }
        }
        if w > 1 { if let Some(r) = self.seg_op(Op::Or, a, b) { return r; } }
        self.comm(Op::Or, a, b)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a); let m = mask(w);
        if a == b { return self.cst(0, w); }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(y)) => { if y == 0 { return a; } if y == m { return self.not(a); }
                if let Some((c, p, q)) = self.ite_consts(a) { let p = self.cst(p ^ y, w); let q = self.cst(q ^ y, w); return self.ite(c, p, q); } }
            _ => {}
        }
        // (a^b)^b -> a
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Xor { if na.a == b { return na.b; } if na.b == b { return na.a; } }
        if nb.op == Op::Xor { if nb.a == a { return nb.b; } if nb.b == a { return nb.a; } }
        if w > 1 { if let Some(r) = self.seg_op(Op::Xor, a, b) { return r; } }
        self.comm(Op::Xor, a, b)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 { return a; }
            if s >= w as u128 { return self.cst(0, w); }
            let lo = self.extract(a, 0, w - s as u32);
            let z = self.cst(0, s as u32);
            return self.concat(lo, z);
        }
        if self.as_const(a) == Some(0) { return a; }
        self.n2(Op::Shl, a, b)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 { return a; }
            if s >= w as u128 { return self.cst(0, w); }
            let hi = self.extract(a, s as u32, w - s as u32);
            return self.zext(hi, w);
        }
        if self.as_const(a) == Some(0) { return a; }
        self.n2(Op::LShr, a, b)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 { return a; }
            let s = (s as u32).min(w - 1);
            let hi = self.extract(a, s, w - s);
            return self.sext(hi, w);
        }
        self.n2(Op::AShr, a, b)
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        if !matches!(self.nodes[a as usize].op, Op::Ite | Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor) || self.w(a) == w { return self.extract1(a, lo, w); }
        let k = (a, lo << 8 | w);
        if let Some(&r) = self.extract_memo.get(&k) { return r; }
        let r = self.extract1(a, lo, w);
        self.extract_memo.insert(k, r);
        r
    }
    fn extract1(&mut self, a: T, lo: u32, w: u32) -> T {
        let n = self.nodes[a as usize];
        let aw = n.w as u32;
        debug_assert!(lo + w <= aw && w > 0);
        if lo == 0 && w == aw { return a; }
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let bw = self.w(n.b);
                if lo >= bw { return self.extract(n.a, lo - bw, w); }
                if lo + w <= bw { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - bw); let l = self.extract(n.b, lo, bw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let bw = self.w(n.a);
                if lo >= bw { return self.cst(0, w); }
                if lo + w <= bw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, bw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let bw = self.w(n.a);
                if lo + w <= bw { return self.extract(n.a, lo, w); }
                if lo < bw { let x = self.extract(n.a, lo, bw - lo); return self.sext(x, w); }
                let x = self.extract(n.a, bw - 1, 1); return self.sext(x, w);
            }
            Op::Not => { let x = self.extract(n.a, lo, w); return self.not(x); }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w);
                return match n.op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) };
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() || w == 1 {
                    let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // low bits only depend on low bits
                let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w);
                // only where it does not merely duplicate the wide operation
                let wide = |d: &Dag, t: T, o: T| -> bool { let m = &d.nodes[t as usize]; m.op == Op::Extract && m.a == o };
                if !wide(self, x, n.a) && !wide(self, y, n.b) { return match n.op { Op::Add => self.add(x, y), Op::Sub => self.sub(x, y), _ => self.mul(x, y) }; }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, a: T, b: T) -> T {
        let (aw, bw) = (self.w(a), self.w(b));
        let w = aw + bw;
        assert!(w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.cst((x << bw) | y, w); }
        if self.as_const(a) == Some(0) { return self.zext(b, w); }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        // (x ++ y) ++ z  -> x ++ (y ++ z)
        if na.op == Op::Concat { let t = self.concat(na.b, b); return self.concat(na.a, t); }
        if na.op == Op::ZExt { let zw = aw - self.w(na.a); let t = self.concat(na.a, b); return self.zext(t, zw + self.w(t)); }
        if let Some(j) = self.join(a, b) { return j; }
        if nb.op == Op::Concat { if let Some(j) = self.join(a, nb.a) { return self.concat(j, nb.b); } }
        self.mk(Node { op: Op::Concat, w: w as u8, a, b, c: 0, k: 0 })
    }
    /// two adjacent pieces as one piece, when they are parts of the same thing
    fn join(&mut self, a: T, b: T) -> Option<T> {
        let (aw, bw) = (self.w(a), self.w(b)); let w = aw + bw;
        if w > 128 { return None; }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        match (na.op, nb.op) {
            (Op::Const, Op::Const) => return Some(self.cst((na.k << bw) | nb.k, w)),
            (Op::Const, _) | (_, Op::Const) => return None,
            (Op::Extract, _) => {
                let k = na.k as u32;
                if k >= bw && self.extract(na.a, k - bw, bw) == b { return Some(self.extract(na.a, k - bw, w)); }
                if aw == 1 && nb.op == Op::Ite && nb.a == a { if let Some((c, p, q)) = self.ite_consts(b) { let p = self.cst(p | 1 << bw, w); let q = self.cst(q, w); return Some(self.ite(c, p, q)); } }
            }
            (Op::Not, Op::Not) => { let j = self.join(na.a, nb.a)?; return Some(self.not(j)); }
            (Op::Xor, Op::Xor) => {
                for (x, y) in [(nb.a, nb.b), (nb.b, nb.a)] { if let Some(p) = self.join(na.a, x) { if let Some(q) = self.join(na.b, y) { return Some(self.xor(p, q)); } } }
            }
            (Op::Ite, Op::Ite) if na.a == nb.a => { let p = self.join(na.b, nb.b)?; let q = self.join(na.c, nb.c)?; return Some(self.ite(na.a, p, q)); }
            _ => {}
        }
        // one-bit pieces stand for ite(c, 1, 0)
        if aw == 1 && a == b && bw == 1 { let p = self.cst(3, 2); let q = self.cst(0, 2); return Some(self.ite(a, p, q)); }
        if bw == 1 { if let Some((c, p, q)) = self.ite_consts(a) { if c == b { let p = self.cst(p << 1 | 1, w); let q = self.cst(q << 1, w); return Some(self.ite(c, p, q)); } } }
        if aw == 1 { if let Some((c, p, q)) = self.ite_consts(b) { if c == a { let p = self.cst(p | 1 << bw, w); let q = self.cst(q, w); return Some(self.ite(c, p, q)); } } }
        None
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let n = self.nodes[a as usize];
        if n.w as u32 == w { return a; }
        match n.op {
            Op::Const => return self.cst(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => if let Some((c, p, q)) = self.ite_consts(a) { let p = self.cst(p, w); let q = self.cst(q, w); return self.ite(c, p, q); },
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let n = self.nodes[a as usize];
        let aw = n.w as u32;
        if aw == w { return a; }
        match n.op {
            Op::Const => return self.cst(sext128(n.k, aw) as u128, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Ite => if let Some((c, p, q)) = self.ite_consts(a) { let p = self.cst(sext128(p, aw) as u128, w); let q = self.cst(sext128(q, aw) as u128, w); return self.ite(c, p, q); },
            _ => {}
        }
        if self.known[a as usize].zeros & (1u128 << (aw - 1)) != 0 { return self.zext(a, w); }
        if aw == 1 { let p = self.cst(!0, w); let q = self.cst(0, w); return self.ite(a, p, q); }
        self.mk(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0, k: 0 })
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return 1; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return (x == y) as T; }
        if ca.is_some() { return self.eq(b, a); }
        let (ka, kb) = (self.known[a as usize], self.known[b as usize]);
        if (ka.ones & kb.zeros | ka.zeros & kb.ones) & mask(w) != 0 { return 0; }
        if w == 1 {
            if let Some(y) = cb { return if y == 1 { a } else { self.not(a) }; }
            return { let x = self.xor(a, b); self.not(x) };
        }
        let na = self.nodes[a as usize];
        if let Some(y) = cb {
            match na.op {
                Op::ZExt => { let aw = self.w(na.a); let k = self.cst(y, aw); return self.eq(na.a, k); }
                Op::SExt => { let aw = self.w(na.a); if sext128(y & mask(aw), aw) as u128 & mask(w) != y { return 0; } let k = self.cst(y, aw); return self.eq(na.a, k); }
                Op::Not => { let k = self.cst(!y, w); return self.eq(na.a, k); }
                Op::Add => { if let Some(k) = self.as_const(na.b) { let k = self.cst(y.wrapping_sub(k), w); return self.eq(na.a, k); } }
                Op::Xor => { if let Some(k) = self.as_const(na.b) { let k = self.cst(y ^ k, w); return self.eq(na.a, k); } }
                Op::Ite => {
                    let (p, q) = (self.as_const(na.b), self.as_const(na.c));
                    match (p, q) {
                        (Some(p), Some(q)) => return match (p == y, q == y) { (true, true) => 1, (true, false) => na.a, (false, true) => self.not(na.a), _ => 0 },
                        (Some(p), None) => { let e = self.eq(na.c, b); return if p == y { self.or(na.a, e) } else { let n = self.not(na.a); self.and(n, e) }; }
                        (None, Some(q)) => { let e = self.eq(na.b, b); return if q == y { let n = self.not(na.a); self.or(n, e) } else { self.and(na.a, e) }; }
                        _ => {}
                    }
                }
                Op::Concat => {
                    let bw = self.w(na.b);
                    if self.as_const(na.a).is_some() || self.as_const(na.b).is_some() {
                        let kh = self.cst(y >> bw, w - bw); let kl = self.cst(y, bw);
                        let h = self.eq(na.a, kh); let l = self.eq(na.b, kl); return self.and(h, l);
                    }
                }
                Op::Sub => if y == 0 { return self.eq(na.a, na.b); },
                _ => {}
            }
        } else {
            let nb = self.nodes[b as usize];
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
            if na.op == Op::Not && nb.op == Op::Not { return self.eq(na.a, nb.a); }
            if na.op == Op::Add && nb.op == Op::Add {
                if na.b == nb.b { return self.eq(na.a, nb.a); }
                if na.a == nb.a { return self.eq(na.b, nb.b); }
            }
            if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a { let x = self.eq(na.b, nb.b); let y = self.eq(na.c, nb.c); return self.ite(na.a, x, y); }
        }
        if a < b { self.mk(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 }) } else if cb.is_some() { self.mk(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 }) } else { self.mk(Node { op: Op::Eq, w: 1, a: b, b: a, c: 0, k: 0 }) }
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b { return 0; }
        let w = self.w(a);
        if self.umax(a) < self.umin(b) { return 1; }
        if self.umin(a) >= self.umax(b) { return 0; }
        if w == 1 { let n = self.not(a); return self.and(n, b); }
        if let Some(1) = self.as_const(b) { let z = self.cst(0, w); return self.eq(a, z); }
        if let Some(0) = self.as_const(a) { let e = self.eq(b, a); return self.not(e); }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let aw = if na.op == Op::ZExt { self.w(na.a) } else { 0 };
        let bw = if nb.op == Op::ZExt { self.w(nb.a) } else { 0 };
        if aw > 0 && bw == aw { return self.ult(na.a, nb.a); }
        if aw > 0 { if let Some(k) = self.as_const(b) { if k <= mask(aw) { let k = self.cst(k, aw); return self.ult(na.a, k); } } }
        if bw > 0 { if let Some(k) = self.as_const(a) { if k <= mask(bw) { let k = self.cst(k, bw); return self.ult(k, nb.a); } } }
        // x < 2^k  <=> high bits zero
        if let Some(k) = self.as_const(b) { if k.is_power_of_two() { let s = k.trailing_zeros(); let h = self.extract(a, s, w - s); let z = self.cst(0, w - s); return self.eq(h, z); } }
        // 2^k - 1 < x  <=> not (x < 2^k)
        if let Some(k) = self.as_const(a) { if (k + 1).is_power_of_two() { let kk = self.cst(k + 1, w); let x = self.ult(b, kk); return self.not(x); } }
        if let Some((c, p, q)) = self.ite_consts(a) { if let Some(k) = self.as_const(b) { return self.ite(c, (p < k) as T, (q < k) as T); } }
        if let Some((c, p, q)) = self.ite_consts(b) { if let Some(k) = self.as_const(a) { return self.ite(c, (k < p) as T, (k < q) as T); } }
        self.mk(Node { op: Op::Ult, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn ule(&mut self, a: T, b: T) -> T { let x = self.ult(b, a); self.not(x) }
    fn srange(&self, t: T) -> (i128, i128) {
        let w = self.w(t); let k = self.known[t as usize]; let s = 1u128 << (w - 1); let m = mask(w);
        let lo = k.ones & m | if k.zeros & s == 0 { s } else { 0 };
        let hi = !k.zeros & m & if k.ones & s == 0 { !s } else { !0 };
        (sext128(lo, w), sext128(hi, w))
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b { return 0; }
        let w = self.w(a);
        if w == 1 { let n = self.not(b); return self.and(a, n); }
        let ((al, ah), (bl, bh)) = (self.srange(a), self.srange(b));
        if ah < bl { return 1; }
        if al >= bh { return 0; }
        if (al >= 0 && bl >= 0) || (ah < 0 && bh < 0) { return self.ult(a, b); }
        if self.as_const(b) == Some(0) { return self.extract(a, w - 1, 1); }
        if self.as_const(a) == Some(mask(w)) { let x = self.extract(b, w - 1, 1); return self.not(x); }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.slt(na.a, nb.a); }
        if let Some((c, p, q)) = self.ite_consts(a) { if let Some(k) = self.as_const(b) { let k = sext128(k, w); return self.ite(c, (sext128(p, w) < k) as T, (sext128(q, w) < k) as T); } }
        if let Some((c, p, q)) = self.ite_consts(b) { if let Some(k) = self.as_const(a) { let k = sext128(k, w); return self.ite(c, (k < sext128(p, w)) as T, (k < sext128(q, w)) as T); } }
        self.mk(Node { op: Op::Slt, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn sle(&mut self, a: T, b: T) -> T { let x = self.slt(b, a); self.not(x) }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == 1 || a == b { return a; }
        if c == 0 { return b; }
        let nc = self.nodes[c as usize];
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            if a == 1 && b == 0 { return c; }
            if a == 0 && b == 1 { return self.not(c); }
            if a == 1 { return self.or(c, b); }
            if b == 0 { return self.and(c, a); }
            if a == 0 { let n = self.not(c); return self.and(n, b); }
            if b == 1 { let n = self.not(c); return self.or(n, a); }
            if a == c { return self.or(c, b); }
            if b == c { return self.and(c, a); }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        // ite(c, zext x, zext y) and ite(c, zext x, const)
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let x = self.ite(c, na.a, nb.a); return self.zext(x, w); }
        if nc.op == Op::Eq { // ite(x == k, k, x) -> x
            if (nc.a == a && nc.b == b) || (nc.a == b && nc.b == a) { return b; }
        }
        self.mk(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b, k: 0 })
    }
    pub fn fop(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { let r = fbin(op, x, y, w); return self.cst(r, w); }
        let (a, b) = if op == Op::FAdd && a > b { (b, a) } else { (a, b) };
        if op == Op::FAdd {
            // x + 0 is x when x is the result of an addition (so a NaN is the default one) that cannot be -0
            if self.as_const(a) == Some(0) && self.a_sum(b) { return b; }
            if self.as_const(b) == Some(0) && self.a_sum(a) { return a; }
            // (0 + x) + y, x + (0 + y) and (0 + x) + (0 + y) are the same number: a zero is lost next to anything but -0
            let (x, y) = (self.zero_plus(a), self.zero_plus(b));
            let (p, q) = match (x, y) {
                (Some(x), Some(y)) => (x, y),
                (Some(x), None) => (x, b),
                (None, Some(y)) => (a, y),
                (None, None) => return self.n2(op, a, b),
            };
            if self.a_sum(p) { return self.n2(op, p.min(q), p.max(q)); }
            if self.a_sum(q) { return self.n2(op, p.min(q), p.max(q)); }
            let z = self.cst(0, w);
            let (p, q) = (p.min(q), p.max(q));
            let s = self.n2(op, z.min(p), z.max(p));
            return self.n2(op, s.min(q), s.max(q));
        }
        self.n2(op, a, b)
    }
    /// x when t is x + 0
    fn zero_plus(&self, t: T) -> Option<T> {
        let n = &self.nodes[t as usize];
        if n.op != Op::FAdd { return None; }
        if self.as_const(n.a) == Some(0) { Some(n.b) } else if self.as_const(n.b) == Some(0) { Some(n.a) } else { None }
    }
    /// an addition, possibly widened, whose result is never -0: one of its operands never is
    fn a_sum(&self, t: T) -> bool {
        let n = &self.nodes[t as usize];
        match n.op { Op::FExt => self.a_sum(n.a), Op::FAdd => [n.a, n.b].iter().any(|&x| self.a_sum(x) || self.as_const(x).map_or(false, |c| c != 1u128 << (n.w - 1))), _ => false }
    }
    pub fn fcast(&mut self, op: Op, a: T, w: u32) -> T {
        let aw = self.w(a);
        if let Some(x) = self.as_const(a) { let r = fcast(op, x, aw, w); return self.cst(r, w); }
        self.mk(Node { op, w: w as u8, a, b: 0, c: 0, k: 0 })
    }
    pub fn strip_not(&self, t: T) -> (T, bool) { let n = &self.nodes[t as usize]; if n.op == Op::Not { (n.a, true) } else { (t, false) } }
    /// x when t is "x == 0"
    pub fn eq_zero(&self, t: T) -> Option<T> { let n = &self.nodes[t as usize]; if n.op == Op::Eq && self.as_const(n.b) == Some(0) { Some(n.a) } else { None } }
    /// t with conditions (width-1 subterms) replaced by what `known` says about them; memo must be empty or from the same facts
    pub fn under(&mut self, t: T, known: &FxMap<T, T>, memo: &mut FxMap<T, T>, fuel: &mut u32) -> T {
        if t < 2 { return t; }
        if let Some(&b) = known.get(&t) { return b; }
        if let Some(&r) = memo.get(&t) { return r; }
        if !self.allowed.is_empty() { if let Some((b, v)) = self.tables.get(&t) { if let Some(al) = self.allowed.get(b) {
            let mut vals = v.iter().zip(al).filter(|x| *x.1).map(|x| *x.0);
            if let Some(k) = vals.next() { if vals.all(|x| x == k) { let w = self.w(t); let r = self.cst(k, w); memo.insert(t, r); return r; } }
        } } }
        let n = self.nodes[t as usize];
        if *fuel == 0 || matches!(n.op, Op::Const | Op::Var) { return t; }
        *fuel -= 1;
        let r = match n.op {
            Op::Ite => { let c = self.under(n.a, known, memo, fuel); if c == 1 { self.under(n.b, known, memo, fuel) } else if c == 0 { self.under(n.c, known, memo, fuel) } else { let b = self.under(n.b, known, memo, fuel); let e = self.under(n.c, known, memo, fuel); if (c, b, e) == (n.a, n.b, n.c) { t } else { self.ite(c, b, e) } } }
            _ => {
                let a = self.under(n.a, known, memo, fuel);
                // zext(x[0+k]) where the path says the other bits of x are zero
                if n.op == Op::ZExt { let e = self.nodes[a as usize]; if e.op == Op::Extract && e.k == 0 {
                    let (x, k) = (e.a, e.w as u32); let xw = self.w(x);
                    let h = self.extract(x, k, xw - k);
                    if known.get(&h).map_or(false, |&z| self.as_const(z) == Some(0)) { let r = if xw <= n.w as u32 { self.zext(x, n.w as u32) } else { self.extract(x, 0, n.w as u32) }; memo.insert(t, r); return r; }
                } }
                let two = children(&n).iter().count() == 2;
                let b = if two { self.under(n.b, known, memo, fuel) } else { n.b };
                let w = n.w as u32;
                if a == n.a && b == n.b { t } else { match n.op {
                    Op::Not => self.not(a), Op::Add => self.add(a, b), Op::Sub => self.sub(a, b), Op::Mul => self.mul(a, b), Op::And => self.and(a, b), Op::Or => self.or(a, b), Op::Xor => self.xor(a, b),
                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem => self.divrem(n.op, a, b), Op::Shl => self.shl(a, b), Op::LShr => self.lshr(a, b), Op::AShr => self.ashr(a, b),
                    Op::Concat => self.concat(a, b), Op::Extract => self.extract(a, n.k as u32, w), Op::ZExt => self.zext(a, w), Op::SExt => self.sext(a, w), Op::Eq => self.eq(a, b), Op::Ult => self.ult(a, b), Op::Slt => self.slt(a, b),
                    _ => t,
                } }
            }
        };
        memo.insert(t, r);
        r
    }
    fn has_ite(&mut self, t: T) -> bool {
        if let Some(&r) = self.ite_memo.get(&t) { return r; }
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.ite_memo.contains_key(&x) { continue; }
            let n = self.nodes[x as usize]; let ch = children(&n);
            if !done { stack.push((x, true)); for &c in ch.iter() { if !self.ite_memo.contains_key(&c) { stack.push((c, false)); } } continue; }
            let r = n.op == Op::Ite || ch.iter().any(|c| self.ite_memo[c]);
            self.ite_memo.insert(x, r);
        }
        self.ite_memo[&t]
    }
    /// a term that depends on its variables through one or two conditions only, as a choice between constants by them; other terms as they are
    pub fn by_atoms(&mut self, t: T, known: &FxMap<T, T>) -> T {
        if !self.has_ite(t) { return t; }
        let mut val: FxMap<T, u128> = Default::default();
        let mut order: Vec<T> = vec![];
        // children have smaller numbers than their parents: what is open separates the root from the variables
        let mut open: std::collections::BTreeSet<T> = Default::default();
        open.insert(t);
        let atoms: Vec<T> = loop {
            if order.len() > 0 && open.len() <= 2 && open.iter().all(|&x| self.w(x) == 1) { break open.iter().copied().collect(); }
            let x = match open.pop_last() { Some(x) => x, None => unreachable!() };
            let n = self.nodes[x as usize];
            if n.op == Op::Var || order.len() > 600 { return t; }
            order.push(x);
            for &c in children(&n).iter() {
                if self.nodes[c as usize].op == Op::Const || val.contains_key(&c) { continue; }
                match known.get(&c).and_then(|&k| self.as_const(k)) { Some(k) => { val.insert(c, k); } None => { open.insert(c); } }
            }
        };
        order.reverse();
        if atoms.len() == 1 && order.len() < 2 { return t; }
        let w = self.w(t);
        let mut res = vec![];
        for i in 0..1u32 << atoms.len() {
            let mut v = val.clone(); for (j, &a) in atoms.iter().enumerate() { v.insert(a, (i >> j & 1) as u128); }
            for &x in &order { let n = self.nodes[x as usize]; let k = { let g = |c: T| match self.as_const(c) { Some(k) => k, None => v[&c] }; self.apply(&n, &g) }; v.insert(x, k); }
            res.push(self.cst(v[&t], w));
        }
        for &a in &atoms { res = res.chunks(2).map(|p| if p[0] == p[1] { p[0] } else { self.ite(a, p[1], p[0]) }).collect(); }
        res[0]
    }
    /// a comparison of a remainder with a constant
    pub fn divisibility(&self, t: T) -> bool {
        let n = self.nodes[self.strip_not(t).0 as usize];
        let mut x = n.a;
        if n.op != Op::Eq || self.as_const(n.b).is_none() { return false; }
        while matches!(self.nodes[x as usize].op, Op::ZExt | Op::Extract) { x = self.nodes[x as usize].a; }
        matches!(self.nodes[x as usize].op, Op::URem | Op::SRem)
    }
    /// number of nodes, counting shared ones repeatedly
    pub fn size(&mut self, t: T) -> (u32, bool) {
        if let Some(&r) = self.size_memo.get(&t) { return r; }
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.size_memo.contains_key(&x) { continue; }
            let n = self.nodes[x as usize]; let ch = children(&n);
            if !done { stack.push((x, true)); for &c in ch.iter() { if !self.size_memo.contains_key(&c) { stack.push((c, false)); } } continue; }
            let mut s = 1u32; let mut hard = matches!(n.op, Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && n.w > 12;
            for c in ch.iter() { let (k, h) = self.size_memo[c]; s = s.saturating_add(k); hard |= h; }
            self.size_memo.insert(x, (s, hard));
        }
        self.size_memo[&t]
    }
    /// readable form, for diagnosis
    pub fn show(&self, t: T, depth: u32) -> String {
        let n = self.nodes[t as usize];
        match n.op {
            Op::Const => format!("{:#x}w{}", n.k, n.w), Op::Var => self.var_names[n.a as usize].clone(),
            _ if depth == 0 => "..".into(),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            op => format!("({:?}{} {})", op, n.w, children(&n).iter().map(|&c| self.show(c, depth - 1)).collect::<Vec<_>>().join(" ")),
        }
    }
    pub fn vars(&mut self, t: T) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&t) { return v.clone(); }
        // iterative post-order
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.vars_memo.contains_key(&x) { continue; }
            let n = self.nodes[x as usize];
            let ch = children(&n);
            if !done { stack.push((x, true)); for c in ch.iter() { if !self.vars_memo.contains_key(c) { stack.push((*c, false)); } } continue; }
            let mut v: Vec<u32> = vec![];
            if n.op == Op::Var { v.push(n.a); }
            for c in ch.iter() { let s = &self.vars_memo[c]; for &y in s.iter() { if let Err(p) = v.binary_search(&y) { v.insert(p, y); } } }
            self.vars_memo.insert(x, std::rc::Rc::new(v));
        }
        self.vars_memo[&t].clone()
    }
    /// the operation of a node on values
    #[inline] fn apply(&self, n: &Node, g: &dyn Fn(T) -> u128) -> u128 {
            let w = n.w as u32; let mk = mask(w);
            (match n.op {
                Op::Const | Op::Var => unreachable!(),
                Op::Not => !g(n.a),
                Op::Add => g(n.a).wrapping_add(g(n.b)),
                Op::Sub => g(n.a).wrapping_sub(g(n.b)),
                Op::Mul => g(n.a).wrapping_mul(g(n.b)),
                Op::UDiv => { let y = g(n.b); if y == 0 { mk } else { g(n.a) / y } }
                Op::URem => { let y = g(n.b); if y == 0 { g(n.a) } else { g(n.a) % y } }
                Op::SDiv => { let (x, y) = (sext128(g(n.a), w), sext128(g(n.b), w)); if y == 0 { if x < 0 { 1 } else { mk } } else { x.wrapping_div(y) as u128 } }
                Op::SRem => { let (x, y) = (sext128(g(n.a), w), sext128(g(n.b), w)); if y == 0 { x as u128 } else { x.wrapping_rem(y) as u128 } }
                Op::And => g(n.a) & g(n.b), Op::Or => g(n.a) | g(n.b), Op::Xor => g(n.a) ^ g(n.b),
                Op::Shl => { let s = g(n.b); if s >= w as u128 { 0 } else { g(n.a) << s } }
                Op::LShr => { let s = g(n.b); if s >= w as u128 { 0 } else { g(n.a) >> s } }
                Op::AShr => { let s = g(n.b).min(w as u128 - 1); (sext128(g(n.a), w) >> s) as u128 }
                Op::Concat => (g(n.a) << self.w(n.b)) | g(n.b),
                Op::Extract => g(n.a) >> (n.k as u32),
                Op::ZExt => g(n.a),
                Op::SExt => sext128(g(n.a), self.w(n.a)) as u128,
                Op::Eq => (g(n.a) == g(n.b)) as u128,
                Op::Ult => (g(n.a) < g(n.b)) as u128,
                Op::Slt => { let aw = self.w(n.a); (sext128(g(n.a), aw) < sext128(g(n.b), aw)) as u128 }
                Op::Ite => if g(n.a) == 1 { g(n.b) } else { g(n.c) },
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => fbin(n.op, g(n.a), g(n.b), w),
                Op::FExt | Op::FTrunc | Op::SIToF | Op::UIToF => fcast(n.op, g(n.a), self.w(n.a), w),
            }) & mk
    }
    pub fn eval(&self, t: T, m: &Model) -> u128 {
        let n = self.nodes[t as usize];
        if n.op == Op::Const { return n.k; }
        if let Some(&v) = m.cache.borrow().get(&t) { return v; }
        let mut stack = vec![(t, false)];
        let mut cache = m.cache.borrow_mut();
        while let Some((x, done)) = stack.pop() {
            let n = self.nodes[x as usize];
            if n.op == Op::Const || cache.contains_key(&x) { continue; }
            let ch = children(&n);
            if !done { stack.push((x, true)); for &c in ch.iter() { if self.nodes[c as usize].op != Op::Const && !cache.contains_key(&c) { stack.push((c, false)); } } continue; }
            let g = |c: T| -> u128 { let n = &self.nodes[c as usize]; if n.op == Op::Const { n.k } else { cache[&c] } };
            let r = if n.op == Op::Var { m.vals.get(&n.a).copied().unwrap_or(0) & mask(n.w as u32) } else { self.apply(&n, &g) };
            cache.insert(x, r);
        }
        cache[&t]
    }
}

fn canon(x: u128, w: u32) -> u128 {
    if w == 64 { if f64::from_bits(x as u64).is_nan() { 0x7ff8000000000000 } else { x } }
    else if f32::from_bits(x as u32).is_nan() { 0x7fc00000 } else { x }
}
pub fn fbin(op: Op, x: u128, y: u128, w: u32) -> u128 {
    let r = if w == 64 {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        (match op { Op::FAdd => a + b, Op::FSub => a - b, Op::FMul => a * b, _ => a / b }).to_bits() as u128
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        (match op { Op::FAdd => a + b, Op::FSub => a - b, Op::FMul => a * b, _ => a / b }).to_bits() as u128
    };
    canon(r, w)
}
pub fn fcast(op: Op, x: u128, aw: u32, w: u32) -> u128 {
    let r = match op {
        Op::FExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
        Op::FTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
        Op::SIToF => { let v = sext128(x, aw); if w == 64 { (v as f64).to_bits() as u128 } else { (v as f32).to_bits() as u128 } }
        _ => if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 },
    };
    canon(r, w)
}

pub struct Ch { a: [T; 3], n: usize }
impl Ch { pub fn iter(&self) -> std::slice::Iter<'_, T> { self.a[..self.n].iter() } }
pub fn children(n: &Node) -> Ch {
    match n.op {
        Op::Const | Op::Var => Ch { a: [0; 3], n: 0 },
        Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FExt | Op::FTrunc | Op::SIToF | Op::UIToF => Ch { a: [n.a, 0, 0], n: 1 },
        Op::Ite => Ch { a: [n.a, n.b, n.c], n: 3 },
        _ => Ch { a: [n.a, n.b, 0], n: 2 },
    }
}

#[derive(Default)]
pub struct Model { pub vals: FxMap<u32, u128>, pub cache: std::cell::RefCell<FxMap<T, u128>> }
