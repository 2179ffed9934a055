//! Harness entries. Each is executed symbolically by `symex` (from the LLVM IR of this crate, orc-format and everything below)
//! and natively by the replay binary.
pub mod model;
pub mod protos;
pub mod reader;
pub mod sym;
pub mod verify;
use model::*;
use orc_format::schema::Schema;
use orc_format::writer::compression::{SnappyCompression, ZstdCompression};
use orc_format::writer::data::Data;
use orc_format::writer::Writer;
use std::io::Write;
use sym::*;

fn sp(i: u64) -> i64 { param(i) as i64 }

/// the common parameters of a job
fn setup() -> (Run, verify::Opt) {
    let mut cols = Vec::new();
    let mut s = SCHEMAS[param(0) as usize].as_bytes();
    let schema = if param(22) == 1 { padded(&mut s, &mut cols) } else { schema_of(&mut s, &mut cols) };
    let limit = match sp(4) { -1 => 1u64 << 40, -2 => bits(6), x => x as u64 };
    let level = match sp(14) { 0 => 3, -1 => 1 + choose(22), x => x as u64 };
    let block = match sp(3) { -1 => 1 + choose(16), x => x as u64 };
    let order = match sp(23) { -2 => choose(9), x => x as u64 };
    let cfg = Cfg { stride: param(1) as u32, comp: param(2), block, level, limit, order };
    let gen = Gen { null: param(8), nnull: param(9), tail: param(10), aux: param(11), prefix: param(12) as usize, pkind: param(13), last: 0 };
    let mut batches = Vec::new();
    let mut i = 5; while i < 8 { if sp(i) >= 0 { batches.push(param(i) as usize); } i += 1; }
    // the same batches over and over
    let once = batches.len(); let mut k = 1; while k < param(21) { let mut j = 0; while j < once { let n = batches[j]; batches.push(n); j += 1; } k += 1; }
    let mut total = 0; for n in &batches { total += n; }
    let mut gen = gen; gen.last = total as i64 - 1;
    let opt = verify::Opt { seek: true, exact_stripes: param(19) == 1, limit };
    (Run { schema, cols, cfg, gen, batches }, opt)
}
fn fill(r: &mut Run) { let mut n = 0; for x in &r.batches { n += x; } let g = r.gen.clone(); g.rows(&mut r.cols, 0, n); }

/// one history, one file, everything checked
#[no_mangle] pub extern "C-unwind" fn run() {
    let (mut r, o) = setup();
    fill(&mut r);
    let f = match write(&r, &r.cfg, &r.batches, 0, Vec::new()) { Ok(f) => f, Err(_) => { check(false, 0, "the writer reports an error although the sink is perfect"); return; } };
    verify::file(&r, &f, &o);
    if prop() == 10 && r.cfg.comp != 0 {
        let plain = Cfg { comp: 0, ..r.cfg.clone() };
        let g = match write(&r, &plain, &r.batches, 0, Vec::new()) { Ok(f) => f, Err(_) => { check(false, 0, "the writer reports an error although the sink is perfect"); return; } };
        check(same_content(&f, &g), 10, "compressed and uncompressed streams differ");
    }
    cover(1);
}
/// every data stream of the first file decompresses to the same stream of the second
fn same_content(f: &[u8], g: &[u8]) -> bool {
    use reader::*;
    let (a, b) = match (tail(f), tail(g)) { (Ok(a), Ok(b)) => (a, b), _ => return false };
    if a.stripes.len() != b.stripes.len() { return true; } // different sizes may close stripes elsewhere
    let mut k = 0; let mut ok = true;
    while k < a.stripes.len() {
        if a.stripes[k].rows != b.stripes[k].rows { return true; }
        let (x, y) = match (stripe(f, &a, &a.stripes[k]), stripe(g, &b, &b.stripes[k])) { (Ok(x), Ok(y)) => (x, y), _ => return false };
        if x.streams.len() != y.streams.len() { return false; }
        let comp = match comp_of(a.comp) { Ok(c) => c, Err(_) => return false };
        let mut i = 0;
        while i < x.streams.len() {
            let (p, q) = (&x.streams[i], &y.streams[i]);
            if p.kind != q.kind || p.col != q.col { return false; }
            if p.kind != ROW_INDEX {
                let s = match section(&f[p.at..p.at + p.len], comp, (a.block.unwrap_or(0) as usize).max(1)) { Ok(s) => s, Err(_) => return false };
                if s.chunks.len() > 1 { cover(10); }
                if comp != Comp::None && p.len > 0 && f[p.at] & 1 == 0 { cover(11); }
                if s.data.len() != q.len { return false; }
                let mut j = 0; while j < q.len { ok &= s.data[j] == g[q.at + j]; j += 1; }
            }
            i += 1;
        }
        k += 1;
    }
    ok
}

/// C25: the same rows in another batch split and column order give the same file
#[no_mangle] pub extern "C-unwind" fn order() {
    let (mut r, o) = setup();
    fill(&mut r);
    let f = match write(&r, &r.cfg, &r.batches, 0, Vec::new()) { Ok(f) => f, Err(_) => { check(false, 0, "the writer reports an error although the sink is perfect"); return; } };
    let mut total = 0; for n in &r.batches { total += n; }
    let mut b = Vec::new();
    if param(18) == 0 {
        // any split into at most four batches, empty ones included
        let x = choose(total as u64 + 1) as usize; let y = x + choose((total - x) as u64 + 1) as usize; let z = if param(20) == 1 { total } else { y + choose((total - y) as u64 + 1) as usize };
        b.push(x); b.push(y - x); b.push(z - y); b.push(total - z);
    } else { let mut i = 15; while i < 18 { if sp(i) >= 0 { b.push(param(i) as usize); } i += 1; } }
    let ord = choose(4);
    let g = match write(&r, &r.cfg, &b, ord, Vec::new()) { Ok(f) => f, Err(_) => { check(false, 0, "the writer reports an error although the sink is perfect"); return; } };
    check(f.len() == g.len(), 25, "another batch split or column order gives a file of another length");
    if f.len() == g.len() { let mut ok = true; let mut i = 0; while i < f.len() { ok &= f[i] == g[i]; i += 1; } check(ok, 25, "another batch split or column order gives another file"); }
    if param(18) == 0 { verify::file(&r, &f, &o); }
    cover(1);
}

/// a sink that misbehaves
pub struct Sink { pub out: Vec<u8>, pub call: u64, pub at: u64, pub kind: u64, pub hit: bool, pub failed: bool }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let now = match self.kind { 5 => true, 7 => self.call % 2 == 0, 8 => self.call >= self.at, 9 => self.call >= self.at && self.call < self.at + param(17), _ => self.call == self.at };
        self.call += 1;
        let mut n = b.len();
        if now && n > 0 {
            self.hit = true;
            match self.kind {
                0 | 5 => n = 1,
                1 => n = if n > 1 { n - 1 } else { 1 },
                2 | 7 => return Err(std::io::ErrorKind::Interrupted.into()),
                3 | 8 => return Err(std::io::ErrorKind::Other.into()),
                4 => return Ok(0),
                // any sequence of behaviours
                9 => match choose(5) { 0 => {} 1 => n = 1, 2 => return Err(std::io::ErrorKind::Interrupted.into()), 3 => { self.failed = true; return Err(std::io::ErrorKind::Other.into()) } _ => { self.failed = true; return Ok(0) } },
                _ => {}
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { if self.kind == 6 { self.hit = true; return Err(std::io::ErrorKind::Other.into()); } Ok(()) }
}
/// C24: param 15 = kind of fault, at a symbolic call number
#[no_mangle] pub extern "C-unwind" fn sink() {
    let (mut r, o) = setup();
    fill(&mut r);
    let f = match write(&r, &r.cfg, &r.batches, 0, Vec::new()) { Ok(f) => f, Err(_) => { check(false, 0, "the writer reports an error although the sink is perfect"); return; } };
    let kind = param(15);
    let at = if kind >= 5 && kind < 8 { 0 } else { bits(12) };
    let mut s = Sink { out: Vec::new(), call: 0, at, kind, hit: false, failed: false };
    let res = if sp(16) == 1 { stubborn(&r, &mut s) } else { write(&r, &r.cfg, &r.batches, 0, &mut s).is_ok() };
    expect_panic(false);
    if s.hit { cover(1); } else { cover(2); }
    match kind {
        3 | 4 | 6 | 8 | 9 if kind != 9 || s.failed => if s.hit { check(!res, 24, "the sink failed but the writer claims success"); } else { check(res, 24, "the writer fails although the sink did not"); },
        _ => {
            check(res, 24, "a partial or interrupted write makes the writer fail");
            if res { check(s.out.len() == f.len(), 24, "the file has another length than with a perfect sink"); if s.out.len() == f.len() { let mut ok = true; let mut i = 0; while i < f.len() { ok &= f[i] == s.out[i]; i += 1; } check(ok, 24, "the file differs from the one a perfect sink gets"); } }
        }
    }
    if !s.hit { verify::file(&r, &f, &o); }
}

/// goes on after an error as if nothing had happened; whether finish() claims success
fn stubborn(r: &Run, s: &mut Sink) -> bool {
    let mut w = match Writer::new(s, &r.schema, r.cfg.config()) { Ok(w) => w, Err(_) => return false };
    let mut b = vec![0usize]; let mut t = 0;
    for n in &r.batches { t += n; b.push(t); }
    let s = all_bounds(&r.cols, b);
    let (mut lo, mut hi) = (vec![0usize; r.cols.len()], vec![0usize; r.cols.len()]);
    let mut i = 0;
    while i < r.batches.len() {
        let mut c = 0; while c < r.cols.len() { lo[c] = s[c][i]; hi[c] = s[c][i + 1]; c += 1; }
        feed(w.data(), &r.cols, 0, &lo, &hi, &r.gen, 0);
        // a writer that gives up by panicking is fine as well
        if w.write_batch(r.batches[i] as u64).is_err() { expect_panic(true); }
        i += 1;
    }
    w.finish().is_ok()
}

/// C08: a union of more variants than a tag byte can name is refused
#[no_mangle] pub extern "C-unwind" fn variants() {
    let n = 254 + choose(5) as usize;
    let mut v = Vec::new(); while v.len() < n { v.push(Schema::Boolean); }
    let u = Schema::Union(v);
    let s = match choose(3) { 0 => u, 1 => Schema::List(Box::new(u)), _ => { let mut f = Vec::new(); f.push(orc_format::schema::Field(String::new(), u)); Schema::Struct(f) } };
    expect_panic(n > 256);
    let w = Writer::new(Vec::new(), &s, orc_format::writer::Config::new());
    expect_panic(false);
    check(w.is_ok() == (n <= 256), 8, "a union is refused although its tags fit, or accepted although they do not");
    cover(1);
}

/// C08: a tag that names no variant is refused
#[no_mangle] pub extern "C-unwind" fn tags() {
    let n = [1u64, 2, 128, 255, 256][choose(5) as usize];
    let mut v = Vec::new(); while (v.len() as u64) < n { v.push(Schema::Boolean); }
    let mut w = match Writer::new(Vec::new(), &Schema::Union(v), orc_format::writer::Config::new()) { Ok(w) => w, Err(_) => return };
    let t = bits(64);
    let bad = t >= n;
    expect_panic(bad);
    w.data().unwrap_union().write(t as usize);
    expect_panic(false);
    check(!bad, 8, "a tag that names no variant is accepted");
    cover(1);
}

/// C23: lists or maps of any 64-bit lengths; only what adds up exactly is accepted
#[no_mangle] pub extern "C-unwind" fn lengths() {
    let map = param(0) == 1;
    let s = if map { Schema::Map(Box::new(Schema::Boolean), Box::new(Schema::Long)) } else { Schema::List(Box::new(Schema::Boolean)) };
    let mut w = match Writer::new(Vec::new(), &s, orc_format::writer::Config::new()) { Ok(w) => w, Err(_) => return };
    let kids = choose(3);
    let mut k = 0;
    while k < kids {
        match w.data() { Data::List(x) => x.child().unwrap_boolean().write(true), Data::Map(x) => { x.keys().unwrap_boolean().write(true); x.values().unwrap_long().write(7); } _ => {} }
        k += 1;
    }
    let n = param(1);
    let mut lens = Vec::new(); let mut sum = 0u128;
    while (lens.len() as u64) < n { let x = bits(64); sum += x as u128; lens.push(x); }
    // lengths that add up only modulo 2^64, or any others
    if choose(2) == 1 { assume((sum as u64 == kids) & (sum >> 64 != 0)); expect_refusal(true); } else { expect_panic(sum != kids as u128); }
    let bad = sum != kids as u128;
    for x in lens { match w.data() { Data::List(d) => d.write(x), Data::Map(d) => d.write(x), _ => {} } }
    let r = w.write_batch(n);
    expect_panic(false);
    if bad { check(r.is_err(), 23, "lengths that do not add up to the number of values are accepted"); return; }
    check(r.is_ok() && w.finish().is_ok(), 23, "a batch with matching counts is refused");
    cover(1);
}

/// C23: in every batch any of the columns may receive one value more or less than its parent calls for; param 15 = how many columns may be off
#[no_mangle] pub extern "C-unwind" fn counts() {
    let (mut r, _) = setup();
    let nc = r.cols.len();
    let mut w = match Writer::new(Vec::new(), &r.schema, r.cfg.config()) { Ok(w) => w, Err(_) => { check(false, 0, "the writer reports an error although the sink is perfect"); return; } };
    let g = r.gen.clone();
    let (mut lo, mut hi) = (vec![0usize; nc], vec![0usize; nc]);
    let mut i = 0;
    while i < r.batches.len() {
        let n = r.batches[i];
        let mut c = 0; while c < nc { lo[c] = r.cols[c].pres.len(); c += 1; }
        // where and how the counts are off
        let mut off: Vec<(usize, i64)> = Vec::new();
        let mut q = 0; while q < param(15) { let c = choose(nc as u64 + 1); if c < nc as u64 { off.push((c as usize, choose(2) as i64 * 2 - 1)); } q += 1; }
        let mut bad = false;
        tweak(&g, &mut r.cols, 0, n, &off, &mut bad);
        let mut c = 0; while c < nc { hi[c] = r.cols[c].pres.len(); c += 1; }
        feed(w.data(), &r.cols, 0, &lo, &hi, &g, 0);
        expect_panic(bad);
        let res = w.write_batch(n as u64);
        expect_panic(false);
        if bad { check(res.is_err(), 23, "a batch whose column counts do not match is accepted"); return; }
        check(res.is_ok(), 23, "a batch with matching counts is refused");
        i += 1;
    }
    // values that belong to no batch
    let mut left = false;
    if sp(16) > 0 {
        let mut c = 0; while c < nc { lo[c] = r.cols[c].pres.len(); c += 1; }
        let c = choose(nc as u64 + 1) as usize;
        let mut off: Vec<(usize, i64)> = Vec::new();
        if c < nc { off.push((c, 1 + choose(param(16)) as i64)); }
        tweak(&g, &mut r.cols, 0, 0, &off, &mut left);
        let mut c = 0; while c < nc { hi[c] = r.cols[c].pres.len(); c += 1; }
        feed(w.data(), &r.cols, 0, &lo, &hi, &g, 0);
    }
    expect_panic(left);
    let res = w.finish();
    expect_panic(false);
    if left { check(res.is_err(), 23, "a file with values of no batch is finished"); return; }
    let f = match res { Ok(f) => f, Err(_) => { check(false, 23, "the file cannot be finished"); return; } };
    cover(1);
    check(f.len() > 3, 23, "no file");
}
/// as Gen::rows, with the listed columns off by the listed amounts
fn tweak(g: &Gen, cols: &mut Vec<Col>, c: usize, n: usize, off: &[(usize, i64)], bad: &mut bool) {
    let mut k = n as i64;
    for (q, d) in off { if *q == c { k += *d; } }
    if k < 0 { k = 0; }
    if k != n as i64 { *bad = true; }
    let kids = std::mem::take(&mut cols[c].kids);
    let v0 = cols[c].v.len();
    if cols[c].nested() { shallow(g, cols, c, k as usize, kids.len()); } else { g.rows(cols, c, k as usize); }
    let mut j = 0;
    while j < kids.len() {
        let mut m = 0usize; let mut v = v0;
        while v < cols[c].v.len() { match cols[c].code { STRUCT => m += 1, UNION => m += (cols[c].v[v] == j as u64) as usize, _ => m += cols[c].v[v] as usize } v += 1; }
        tweak(g, cols, kids[j], m, off, bad);
        j += 1;
    }
    cols[c].kids = kids;
}
fn shallow(g: &Gen, cols: &mut Vec<Col>, c: usize, n: usize, kids: usize) {
    let mut i = 0;
    while i < n {
        let null = !cols[c].fixed && match g.nnull { 0 => false, 1 => bits(1) == 1, _ => cols[c].pres.len() % 2 == 1 };
        cols[c].pres.push(!null);
        if !null { let x = match cols[c].code { STRUCT => 0, UNION => choose(kids as u64), _ => match g.aux { 0 => choose(3), 1 => 1, _ => choose(2) } }; cols[c].v.push(x); }
        i += 1;
    }
}

/// C22: attributes, names, stride and compression of the schema in the job are symbolic
#[no_mangle] pub extern "C-unwind" fn config() {
    let (mut r, o) = setup();
    symbolize(&mut r.schema);
    if param(15) & 2 != 0 { r.cfg.stride = bits(32) as u32; }
    if param(15) & 4 != 0 { r.cfg.block = [0u64, 1, 9, 1000, 262144, 0x7fffff][choose(6) as usize]; }
    fill(&mut r);
    let f = match write(&r, &r.cfg, &r.batches, 0, Vec::new()) { Ok(f) => f, Err(_) => { check(false, 0, "the writer reports an error although the sink is perfect"); return; } };
    let _ = &o;
    verify::file(&r, &f, &o);
    cover(1);
}
fn symbolize(s: &mut Schema) {
    let on = param(15) & 1 != 0;
    match s {
        Schema::Decimal(p, q) => if on { *p = bits(32) as u32; *q = choose(39) as u32; },
        Schema::Char(n) | Schema::VarChar(n) => if on { *n = bits(32) as u32; },
        Schema::Struct(f) => for x in f { if param(15) & 8 != 0 { let n = if param(15) & 16 != 0 { [127, 128, 255, 256, 300, 20000][choose(6) as usize] } else { choose(3) }; let mut b = Vec::new(); while (b.len() as u64 + 2) < n { b.push(110); } let mut i = b.len() as u64; while i < n { b.push(bits(7) as u8); i += 1; } x.0 = unsafe { String::from_utf8_unchecked(b) }; } symbolize(&mut x.1); },
        Schema::List(x) => symbolize(x),
        Schema::Map(x, y) => { symbolize(x); symbolize(y); }
        Schema::Union(f) => for x in f { symbolize(x); },
        _ => {}
    }
}

/// C26: param 0: 0 snappy block size, 1 zstd block size, 2 zstd level
#[no_mangle] pub extern "C-unwind" fn limits() {
    let bad;
    let c;
    match param(0) {
        0 => { let n = bits(64); bad = n > 0x7fffff; expect_panic(bad); c = SnappyCompression::new().with_block_size(n as usize).build(); }
        1 => { let n = bits(64); bad = n > 0x7fffff; expect_panic(bad); c = ZstdCompression::new().with_block_size(n as usize).build(); }
        2 => { let n = bits(32) as u32 as i32; bad = (n < 1) | (n > 22); expect_panic(bad); c = ZstdCompression::new().with_compression_level(n).build(); }
        _ => { let n = bits(64); let l = bits(32) as u32 as i32; bad = (n > 0x7fffff) | (l < 1) | (l > 22); expect_panic(bad); c = if param(0) == 3 { ZstdCompression::new().with_block_size(n as usize).with_compression_level(l).build() } else { ZstdCompression::new().with_compression_level(l).with_block_size(n as usize).build() }; }
    }
    expect_panic(false);
    std::mem::forget(c);
    check(!bad, 26, "a parameter outside the format is accepted");
    cover(1);
}
