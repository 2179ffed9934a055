//! Decides whether a finished file says what was written.
use crate::model::*;
use crate::reader::*;
use crate::sym::*;

/// property that owns the values of a column
pub fn vprop(c: &Col) -> u32 { match c.code { BOOLEAN => 2, FLOAT | DOUBLE => 3, STRING | VARCHAR | CHAR | BINARY => 4, TIMESTAMP => 5, DECIMAL => 6, LIST | MAP => 7, STRUCT | UNION => 8, _ => 1 } }
/// property that owns the type-specific statistics of a column
pub fn sprop(c: &Col) -> u32 { match c.code { BOOLEAN => 19, FLOAT | DOUBLE => 15, STRING | VARCHAR | CHAR | BINARY => 16, TIMESTAMP => 17, DECIMAL => 18, LIST | MAP | STRUCT | UNION => 13, _ => 14 } }

pub struct ColStreams { pub present: Option<Section>, pub data: Option<Section>, pub len: Option<Section>, pub sec: Option<Section> }

/// how the values of a column failed to read back
pub enum Bad { Presence(&'static str), Value(&'static str) }
type Q<T> = Result<T, Bad>;
fn ve<T>(r: R<T>) -> Q<T> { match r { Ok(x) => Ok(x), Err(e) => Err(Bad::Value(e)) } }
fn pe<T>(r: R<T>) -> Q<T> { match r { Ok(x) => Ok(x), Err(e) => Err(Bad::Presence(e)) } }
fn need(s: &Option<Section>) -> Q<&Section> { match s { Some(x) => Ok(x), None => Err(Bad::Value("a stream of the column is missing")) } }

fn ints<'a>(s: &'a Section, signed: bool, pos: &mut Option<Pos>) -> R<Ints<'a>> {
    match pos { None => Ok(Ints::new(&s.data, 0, signed)), Some(p) => { let a = p.at(s)?; let k = p.next()?; let mut x = Ints::new(&s.data, a, signed); let mut i = 0; while i < k { x.next()?; i += 1; } Ok(x) } }
}
fn bits_at<'a>(s: &'a Section, pos: &mut Option<Pos>) -> R<Bits<'a>> {
    match pos { None => Ok(Bits::new(&s.data, 0)), Some(p) => { let a = p.at(s)?; let k = p.next()?; let b = p.next()?; let mut x = Bits::new(&s.data, a); x.skip_bytes(k)?; if b > 7 { return Err("row index: bit offset out of range"); } let mut i = 0; while i < b { x.next()?; i += 1; } Ok(x) } }
}
fn bytes_at<'a>(s: &'a Section, pos: &mut Option<Pos>) -> R<Bytes<'a>> {
    match pos { None => Ok(Bytes::new(&s.data, 0)), Some(p) => { let a = p.at(s)?; let k = p.next()?; let mut x = Bytes::new(&s.data, a); let mut i = 0; while i < k { x.next()?; i += 1; } Ok(x) } }
}
fn raw_at<'a>(s: &'a Section, pos: &mut Option<Pos>) -> R<Raw<'a>> { let a = match pos { None => 0, Some(p) => p.at(s)? }; Ok(Raw { b: &s.data, p: a }) }

/// Reads slots a..b of a column, from the start of its streams (whole: they must also end there) or from row index positions.
/// The result says whether every value equals the one written.
pub fn read_col(col: &Col, st: &ColStreams, pos: Option<&[u64]>, a: usize, b: usize) -> Q<bool> {
    let whole = pos.is_none();
    let mut p = pos.map(|v| Pos { v, i: 0 });
    let mut present = match &st.present { Some(s) => Some(pe(bits_at(s, &mut p))?), None => None };
    let mut v = col.vals(0, a);
    let mut ok = true;
    macro_rules! each {
        ($read:expr) => {{
            let mut i = a;
            while i < b {
                let here = match &mut present { Some(x) => pe(x.next())?, None => true };
                if here != col.pres[i] { return Err(Bad::Presence("a null is not where it was written")); }
                i += 1;
                if here { $read; v += 1; }
            }
        }};
    }
    match col.code {
        BOOLEAN => { let mut d = ve(bits_at(need(&st.data)?, &mut p))?; each!({ let x = ve(d.next())?; ok &= x as u64 == col.v[v]; }); if whole && !d.end() { return Err(Bad::Value("stream holds more values than rows")); } }
        SHORT | INT | LONG | DATE => { let mut d = ve(ints(need(&st.data)?, true, &mut p))?; each!({ let x = ve(d.next())?; ok &= x == col.v[v]; }); if whole && !d.end() { return Err(Bad::Value("stream holds more values than rows")); } }
        FLOAT => { let mut d = ve(raw_at(need(&st.data)?, &mut p))?; each!({ let s = ve(d.bytes(4))?; let x = s[0] as u32 | (s[1] as u32) << 8 | (s[2] as u32) << 16 | (s[3] as u32) << 24; ok &= x == col.v[v] as u32; }); if whole && !d.end() { return Err(Bad::Value("stream holds more values than rows")); } }
        DOUBLE => { let mut d = ve(raw_at(need(&st.data)?, &mut p))?; each!({ let s = ve(d.bytes(8))?; let mut x = 0u64; let mut j = 0; while j < 8 { x |= (s[j] as u64) << (8 * j); j += 1; } ok &= x == col.v[v]; }); if whole && !d.end() { return Err(Bad::Value("stream holds more values than rows")); } }
        STRING | VARCHAR | CHAR | BINARY => {
            let mut d = ve(raw_at(need(&st.data)?, &mut p))?; let mut l = ve(ints(need(&st.len)?, false, &mut p))?;
            each!({
                let n = ve(l.next())?; if n != col.s[v].len() as u64 { return Err(Bad::Value("a string has the wrong length")); }
                let s = ve(d.bytes(n as usize))?; let w = &col.s[v]; let mut j = 0; while j < w.len() { ok &= s[j] == w[j]; j += 1; }
            });
            if whole && !(d.end() && l.end()) { return Err(Bad::Value("stream holds more values than rows")); }
        }
        TIMESTAMP => {
            let mut d = ve(ints(need(&st.data)?, true, &mut p))?; let mut l = ve(ints(need(&st.sec)?, false, &mut p))?;
            each!({
                let x = ve(d.next())?; ok &= x == col.v[v];
                let y = ve(l.next())?;
                // low three bits: number of decimal zeros removed, less one
                let z = concrete(y & 7);
                let n = y >> 3; let f = [1u64, 100, 1000, 10_000, 100_000, 1_000_000, 10_000_000, 100_000_000][z as usize];
                ok &= (n < (1 << 30)) & (n.wrapping_mul(f) == col.w[v]);
            });
            if whole && !(d.end() && l.end()) { return Err(Bad::Value("stream holds more values than rows")); }
        }
        DECIMAL => {
            let mut d = ve(raw_at(need(&st.data)?, &mut p))?; let mut l = ve(ints(need(&st.sec)?, true, &mut p))?;
            each!({ let x = ve(d.varint128())?; let x = ((x >> 1) ^ 0u128.wrapping_sub(x & 1)) as i128; ok &= x == col.d[v]; let s = ve(l.next())?; ok &= s == col.scale as u64; });
            if whole && !(d.end() && l.end()) { return Err(Bad::Value("stream holds more values than rows")); }
        }
        LIST | MAP => { let mut l = ve(ints(need(&st.len)?, false, &mut p))?; each!({ let x = ve(l.next())?; ok &= x == col.v[v]; }); if whole && !l.end() { return Err(Bad::Value("stream holds more values than rows")); } }
        UNION => { let mut l = ve(bytes_at(need(&st.data)?, &mut p))?; each!({ let x = ve(l.next())?; ok &= x as u64 == col.v[v]; }); if whole && !l.end() { return Err(Bad::Value("stream holds more values than rows")); } }
        _ => each!({}),
    }
    if whole { if let Some(x) = &present { if !x.end() { return Err(Bad::Presence("presence stream holds more than the rows")); } } }
    if let Some(p) = &p { if p.i != p.v.len() { return Err(Bad::Value("row index: too many positions")); } }
    Ok(ok)
}

// ------------------------------------------------------------------ statistics
fn le_bytes(a: &[u8], b: &[u8]) -> bool {
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    let mut r = a.len() <= b.len();
    let mut i = n;
    while i > 0 { i -= 1; r = (a[i] < b[i]) | ((a[i] == b[i]) & r); }
    r
}
fn eq_bytes(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut r = true; let mut i = 0; while i < a.len() { r &= a[i] == b[i]; i += 1; } r }

/// the integer denoted by a decimal string at the given scale
fn dec_parse(s: &[u8], scale: u32) -> Option<i128> {
    let (neg, mut i) = if !s.is_empty() && s[0] == b'-' { (true, 1) } else { (false, 0) };
    let mut m = 0u128; let mut frac: Option<u32> = None; let mut digits = 0;
    while i < s.len() {
        let c = s[i]; i += 1;
        if c == b'.' { if frac.is_some() { return None; } frac = Some(0); continue; }
        if c < b'0' || c > b'9' { return None; }
        if let Some(k) = frac { if k == scale { if c == b'0' { continue; } return None; } frac = Some(k + 1); }
        digits += 1;
        m = m.checked_mul(10)?.checked_add((c - b'0') as u128)?;
    }
    if digits == 0 { return None; }
    let mut k = frac.unwrap_or(0);
    while k < scale { m = m.checked_mul(10)?; k += 1; }
    if neg { if m > 1u128 << 127 { None } else { Some((m as i128).wrapping_neg()) } } else if m >= 1u128 << 127 { None } else { Some(m as i128) }
}

pub fn abs128(x: i64) -> i128 { let y = x as i128; let m = y >> 127; (y ^ m) - m }

/// Whether the statistics st describe exactly slots a..b of the column: (count and null flag, type-specific part).
pub fn stat_ok(col: &Col, st: &ColStat, a: usize, b: usize, typed: bool) -> (bool, bool) {
    let n = col.vals(a, b);
    let cnt = st.n == Some(n as u64) && st.has_null == Some((n != b - a) as u64);
    if !typed { return (cnt, true); }
    let v0 = col.vals(0, a); let v1 = v0 + n;
    let mut ok = true;
    match col.code {
        BOOLEAN => {
            if st.kinds != S_BUCKET || st.bucket.is_empty() { return (cnt, false); }
            let mut k = 0u64; let mut i = v0; while i < v1 { k += col.v[i]; i += 1; }
            ok &= st.bucket[0] == k;
        }
        SHORT | INT | LONG | DATE => {
            if st.kinds != S_INT && !(col.code == DATE && st.kinds == S_DATE) { return (cnt, n == 0 && st.kinds == 0); }
            if st.imin.is_some() != (n > 0) || st.imax.is_some() != (n > 0) { return (cnt, false); }
            if n > 0 {
                let (lo, hi) = (st.imin.unwrap_or(0), st.imax.unwrap_or(0));
                let (mut at_lo, mut at_hi) = (false, false); let mut i = v0;
                while i < v1 { let x = col.v[i] as i64; ok &= (lo <= x) & (x <= hi); at_lo |= x == lo; at_hi |= x == hi; i += 1; }
                ok &= at_lo & at_hi;
            }
            let mut sum = 0i128; let mut abs = 0i128; let mut i = v0;
            while i < v1 { sum += col.v[i] as i64 as i128; abs += abs128(col.v[i] as i64); i += 1; }
            match st.isum { Some(x) => ok &= x as i128 == sum, None => if st.kinds != S_DATE { ok &= abs > i64::MAX as i128 } }
        }
        FLOAT | DOUBLE => {
            if st.kinds != S_DBL { return (cnt, n == 0 && st.kinds == 0); }
            let (mut any, mut at_lo, mut at_hi) = (false, false, false); let mut i = v0; let mut sum = 0.0f64; let mut x3 = [0.0f64; 3];
            let (lo, hi) = (st.dmin.unwrap_or(0.0), st.dmax.unwrap_or(0.0));
            while i < v1 {
                let x = if col.code == FLOAT { f32::from_bits(col.v[i] as u32) as f64 } else { f64::from_bits(col.v[i]) };
                let num = x == x;
                any |= num;
                if st.dmin.is_some() { ok &= !num | (lo <= x); at_lo |= x == lo; }
                if st.dmax.is_some() { ok &= !num | (x <= hi); at_hi |= x == hi; }
                if col.exact || n <= 2 { sum += x; } else if n == 3 { x3[i - v0] = x; }
                i += 1;
            }
            ok &= if st.dmin.is_some() { at_lo } else { !any };
            ok &= if st.dmax.is_some() { at_hi } else { !any };
            // the sum is compared where it is exact (exactly representable values, or no more than two) and with every grouping of three
            if let Some(s) = st.dsum { if col.exact || n == 0 { ok &= s == sum } else if n <= 2 { ok &= (s.to_bits() == sum.to_bits()) | (s == sum) | ((s != s) & (sum != sum)) } else if n == 3 {
                let (p, q, r) = (0.0 + x3[0] + x3[1] + x3[2], 0.0 + x3[0] + x3[2] + x3[1], 0.0 + x3[1] + x3[2] + x3[0]);
                let b = s.to_bits();
                ok &= (b == p.to_bits()) | (b == q.to_bits()) | (b == r.to_bits()) | (s == p) | (s == q) | (s == r) | ((s != s) & ((p != p) | (q != q) | (r != r)));
            } } else { ok &= n == 0; }
        }
        STRING | VARCHAR | CHAR => {
            if st.kinds != S_STR { return (cnt, n == 0 && st.kinds == 0); }
            if st.smin.is_some() != (n > 0) || st.smax.is_some() != (n > 0) { return (cnt, false); }
            let mut total = 0i64; let (mut at_lo, mut at_hi) = (false, false); let mut i = v0;
            while i < v1 {
                let x = &col.s[i]; total += x.len() as i64; i += 1;
                if let Some(m) = &st.smin { ok &= le_bytes(m, x); at_lo |= eq_bytes(m, x); }
                if let Some(m) = &st.smax { ok &= le_bytes(x, m); at_hi |= eq_bytes(m, x); }
            }
            if n > 0 { ok &= at_lo & at_hi; }
            ok &= st.ssum == Some(total) || (n == 0 && st.ssum.is_none());
        }
        BINARY => {
            if st.kinds != S_BIN { return (cnt, n == 0 && st.kinds == 0); }
            let mut total = 0i64; let mut i = v0; while i < v1 { total += col.s[i].len() as i64; i += 1; }
            ok &= st.bsum == Some(total) || (n == 0 && st.bsum.is_none());
        }
        TIMESTAMP => {
            if st.kinds != S_TS { return (cnt, n == 0 && st.kinds == 0); }
            if st.tmin.is_some() != (n > 0) || st.tmax.is_some() != (n > 0) { return (cnt, false); }
            let (lo, hi) = (st.tmin.unwrap_or(0), st.tmax.unwrap_or(0));
            let (mut at_lo, mut at_hi) = (false, false); let mut i = v0;
            while i < v1 {
                let m = (col.v[i] as i64 as i128 + 1_420_070_400) * 1000 + (col.w[i] as u32 / 1_000_000) as i128;
                // instants that do not fit the 64-bit milliseconds of the format are out of the claim's reach beyond "clamped"
                let m = if m > i64::MAX as i128 { i64::MAX } else if m < i64::MIN as i128 { i64::MIN } else { m as i64 };
                ok &= (lo <= m) & (m <= hi); at_lo |= m == lo; at_hi |= m == hi; i += 1;
            }
            if n > 0 { ok &= at_lo & at_hi; }
        }
        DECIMAL => {
            if st.kinds != S_DEC { return (cnt, n == 0 && st.kinds == 0); }
            if st.nmin.is_some() != (n > 0) || st.nmax.is_some() != (n > 0) { return (cnt, false); }
            if n > 0 {
                let (lo, hi) = match (st.nmin.as_ref().and_then(|s| dec_parse(s, col.scale)), st.nmax.as_ref().and_then(|s| dec_parse(s, col.scale))) { (Some(a), Some(b)) => (a, b), _ => return (cnt, false) };
                let (mut at_lo, mut at_hi) = (false, false); let mut i = v0;
                while i < v1 { let x = col.d[i]; ok &= (lo <= x) & (x <= hi); at_lo |= x == lo; at_hi |= x == hi; i += 1; }
                ok &= at_lo & at_hi;
            }
            // exact sum in two parts, so that no intermediate result is lost
            let (mut s_hi, mut s_lo, mut big) = (0i128, 0u128, false); let mut i = v0; let mut abs = 0u128;
            while i < v1 {
                let x = col.d[i];
                s_hi += x >> 64; s_lo += x as u64 as u128;
                let (y, o) = abs.overflowing_add(x.unsigned_abs()); abs = y; big |= o; i += 1;
            }
            big |= abs > i128::MAX as u128;
            let hi = s_hi + (s_lo >> 64) as i128; let fits = (hi >= -(1i128 << 63)) & (hi < 1i128 << 63);
            match &st.nsum {
                Some(t) => match dec_parse(t, col.scale) { Some(x) => ok &= fits & (x == (hi.wrapping_shl(64) | (s_lo as u64) as i128)), None => ok = false },
                None => ok &= big | (n == 0),
            }
        }
        _ => ok &= st.kinds == 0,
    }
    (cnt, ok)
}

// ------------------------------------------------------------------ whole file
pub struct Opt { pub seek: bool, pub exact_stripes: bool, pub limit: u64 }

/// checks a finished file against the history; tag 0 = unreadable, which breaks whatever property is being decided
pub fn file(r: &Run, f: &[u8], o: &Opt) {
    let t = match tail(f) { Ok(t) => t, Err(e) => { check(false, 0, e); return; } };
    let nc = r.cols.len();
    // ---- C11 layout
    if want(11) {
        check(t.magic == b"ORC" && t.version.len() == 2 && t.version[0] == 0 && (t.version[1] == 11 || t.version[1] == 12), 11, "postscript magic and version");
        check(t.header == Some(3), 11, "footer header length");
        check(t.content == Some(t.body_end as u64 - 3), 11, "footer content length");
        check(t.body_end as u64 + t.meta_len + t.footer_len + t.ps_len as u64 + 1 == f.len() as u64, 11, "tail lengths");
    }
    let mut at = 3u64; let mut tiles = true;
    for s in &t.stripes { tiles &= s.offset == at; at = s.offset.wrapping_add(s.index).wrapping_add(s.data).wrapping_add(s.footer); }
    check(tiles && at == t.body_end as u64, 11, "stripes tile the body");
    // ---- C22 configuration
    if want(22) { config(r, &t); }
    if t.types.len() != nc { check(false, 0, "number of types differs from number of columns"); return; }
    // ---- C12 rows
    let mut total = 0usize; for n in &r.batches { total += n; }
    let mut rows = 0u64; for s in &t.stripes { rows = rows.wrapping_add(s.rows); }
    check(t.rows == Some(total as u64), 12, "the file's row count is the number of rows written");
    if rows != total as u64 { check(false, 0, "the stripes' row counts do not add up to the rows written"); return; }
    if t.stripes.len() > 1 { cover(13); }
    if want(12) { stripes(r, &t, o); }
    // ---- stripes
    let mut b = vec![0usize]; let mut x = 0usize;
    for s in &t.stripes { x += s.rows as usize; b.push(x); }
    let sb = all_bounds(&r.cols, b);
    if t.meta.len() != t.stripes.len() { check(false, 13, "one set of statistics per stripe"); check(false, sprop(&r.cols[nc - 1]), "one set of statistics per stripe"); }
    if t.stats.len() != nc { check(false, 13, "file statistics for every column"); check(false, sprop(&r.cols[nc - 1]), "file statistics for every column"); check(false, 22, "file statistics for every column"); }
    let values = want_values();
    let mut k = 0;
    while k < t.stripes.len() {
        let s = &t.stripes[k];
        let st = match stripe(f, &t, s) { Ok(x) => x, Err(e) => { check(false, 0, e); return; } };
        if want(22) { check(st.enc.len() == nc && st.enc.iter().all(|e| *e == 0), 22, "every column has the DIRECT encoding"); }
        if want(5) { check(st.utc || r.cols.iter().all(|c| c.code != TIMESTAMP), 5, "a stripe with timestamps does not say that they count from an instant in UTC"); }
        let (mut il, mut dl) = (0u64, 0u64); let mut order = true;
        for q in &st.streams { if q.kind == ROW_INDEX { order &= dl == 0; il += q.len as u64; } else { dl += q.len as u64; } }
        check(order && il == s.index && dl == s.data, 11, "streams account for every index and data byte");
        let mut c = 0;
        while c < nc {
            let (a, e) = (sb[c][k], sb[c][k + 1]);
            let col = &r.cols[c];
            let mut cs = ColStreams { present: None, data: None, len: None, sec: None };
            let mut idx: Option<Section> = None;
            let mut bad = false;
            let comp = match comp_of(t.comp) { Ok(x) => x, Err(e) => { check(false, 0, e); return; } };
            for q in &st.streams {
                if q.col != c as u64 { if q.col >= nc as u64 { check(false, 11, "stream of an unknown column"); } continue; }
                if q.kind == ROW_INDEX && !(want(10) || want(13) || want(sprop(col)) || want(20) || want(21)) { continue; }
                let sec = match section(&f[q.at..q.at + q.len], comp, (t.block.unwrap_or(0) as usize).max(1)) { Ok(x) => x, Err(e) => { check(false, 0, e); bad = true; break; } };
                let slot = match q.kind { PRESENT => &mut cs.present, DATA => &mut cs.data, LENGTH => &mut cs.len, SECONDARY => &mut cs.sec, ROW_INDEX => &mut idx, _ => { check(false, 11, "unexpected stream kind"); continue; } };
                if slot.is_some() { check(false, 11, "stream listed twice"); bad = true; break; }
                *slot = Some(sec);
            }
            if bad { return; }
            let n = col.vals(a, e);
            if cs.present.is_none() && n != e - a { check(false, 9, "a stripe with nulls has no presence stream"); }
            let p = vprop(col);
            if values || want(p) || want(9) {
                match read_col(col, &cs, None, a, e) {
                    Ok(ok) => { check(true, 9, "nulls read back"); if values || want(p) { check(ok, if values { 0 } else { p }, "values read back"); } }
                    Err(Bad::Presence(m)) => { check(false, if values { 0 } else { 9 }, m); check(false, p, m); }
                    Err(Bad::Value(m)) => check(false, if values { 0 } else { p }, m),
                }
            }
            if want(13) || want(sprop(col)) {
                if let Some(v) = t.meta.get(k) { if let Some(x) = v.get(c) { let (i, j) = stat_ok(col, x, a, e, want(sprop(col))); check(i, 13, "stripe statistics: count and null flag"); check(j, sprop(col), "stripe statistics: values"); } else { check(false, 13, "stripe statistics missing for a column"); check(false, sprop(col), "stripe statistics missing for a column"); } }
            }
            if want(13) || want(20) || want(21) || want(sprop(col)) { groups(r, c, &sb, k, &cs, idx, o); }
            c += 1;
        }
        k += 1;
    }
    // ---- file statistics
    let mut c = 0;
    while c < nc {
        let col = &r.cols[c];
        if want(13) || want(sprop(col)) { if let Some(x) = t.stats.get(c) { let (i, j) = stat_ok(col, x, 0, col.pres.len(), want(sprop(col))); check(i, 13, "file statistics: count and null flag"); check(j, sprop(col), "file statistics: values"); } }
        c += 1;
    }
}
/// properties whose subject is that the content is unaffected: any wrong value counts
fn want_values() -> bool { let p = prop(); p == 0 || p == 10 || p == 12 || p == 24 || p == 25 }

fn groups(r: &Run, c: usize, sb: &[Vec<usize>], k: usize, cs: &ColStreams, idx: Option<Section>, o: &Opt) {
    let col = &r.cols[c]; let sp = sprop(col);
    let (a, e) = (sb[c][k], sb[c][k + 1]);
    let stride = r.cfg.stride as usize;
    if stride == 0 { return; }
    let d = match idx { Some(s) => s, None => { check(false, 20, "no row index"); check(false, 21, "no row index"); return; } };
    let ent = match row_index(&d.data) { Ok(x) => x, Err(m) => { check(false, 0, m); return; } };
    // boundaries by rows of the stripe
    let mut rb = vec![sb[0][k]]; while *rb.last().unwrap_or(&0) < sb[0][k + 1] { let x = rb[rb.len() - 1] + stride; rb.push(if x < sb[0][k + 1] { x } else { sb[0][k + 1] }); }
    let spec = if c == 0 { rb } else { let mut q = vec![0usize]; q.extend_from_slice(&rb); let mut all = all_bounds(&r.cols, q).swap_remove(c); all.remove(0); all };
    // boundaries by the column's own values
    let mut own = vec![a]; while own[own.len() - 1] < e { let x = own[own.len() - 1] + stride; own.push(if x < e { x } else { e }); }
    let fits = |b: &[usize]| -> bool { if b.len() - 1 != ent.len() { return false; } let mut i = 0; while i < ent.len() { if !stat_ok(col, &ent[i].stat, b[i], b[i + 1], false).0 { return false; } i += 1; } true };
    let same = spec == own;
    let by_rows = fits(&spec);
    let by_own = !same && fits(&own);
    if !same && by_own && !by_rows { known(prop() == 20, 1); cover(20); }
    check(by_rows || by_own, 20, "row index entries cover the rows stride by stride");
    check(by_rows || by_own, 13, "row group statistics: count and null flag");
    if !by_rows && !by_own { if want(21) { check(ent.len() + 1 == spec.len() || ent.len() + 1 == own.len(), 21, "as many positions as row groups"); } if !(want(21) && (ent.len() + 1 == spec.len() || ent.len() + 1 == own.len())) { return; } }
    let b = if by_own && !by_rows { &own } else if ent.len() + 1 == spec.len() { &spec } else { &own };
    // counts alone cannot tell two different partitions apart: nothing further is claimed then
    if !same && by_rows && by_own { return; }
    let mut i = 0;
    while i < ent.len() {
        if want(sp) || want(20) { let (_, j) = stat_ok(col, &ent[i].stat, b[i], b[i + 1], true); check(j, sp, "row group statistics: values"); check(j, 20, "row group statistics describe other rows"); }
        if o.seek && want(21) {
            match read_col(col, cs, Some(&ent[i].pos), b[i], b[i + 1]) { Ok(ok) => check(ok, 21, "seeking to a row group reads other values"), Err(Bad::Presence(m)) | Err(Bad::Value(m)) => check(false, 21, m) }
            if i > 0 { cover(21); }
        }
        i += 1;
    }
}

fn config(r: &Run, t: &Tail) {
    let (kind, block) = match r.cfg.comp { 0 => (0, 0), 1 => (2, r.cfg.block), _ => (5, r.cfg.block) };
    check(t.comp == kind, 22, "compression kind");
    if kind != 0 { check(t.block == Some(block), 22, "compression block size"); }
    check(t.stride == Some(r.cfg.stride as u64), 22, "row index stride");
    check(t.types.len() == r.cols.len(), 22, "number of types");
    if t.types.len() != r.cols.len() { return; }
    let mut c = 0;
    while c < r.cols.len() {
        let (col, y) = (&r.cols[c], &t.types[c]);
        check(y.kind == col.code as u64, 22, "type kind");
        let mut ok = y.subs.len() == col.kids.len(); let mut k = 0; while ok && k < col.kids.len() { ok &= y.subs[k] == col.kids[k] as u64; k += 1; }
        check(ok, 22, "subtype numbering");
        let names = names_of(&r.schema, c);
        check(y.names.len() == names.len(), 22, "number of field names");
        let mut ok = true; let mut k = 0; while k < names.len() && k < y.names.len() { ok &= eq_bytes(&y.names[k], names[k].as_bytes()); k += 1; }
        check(ok, 22, "field names");
        match schema_at(&r.schema, c) {
            Some(orc_format::schema::Schema::Decimal(p, s)) => check((y.precision == Some(*p as u64)) & (y.scale == Some(*s as u64)), 22, "decimal precision and scale"),
            Some(orc_format::schema::Schema::Char(n)) | Some(orc_format::schema::Schema::VarChar(n)) => check(y.maxlen == Some(*n as u64), 22, "maximum length"),
            _ => check(y.precision.is_none() && y.scale.is_none() && y.maxlen.is_none(), 22, "no attributes where none apply"),
        }
        c += 1;
    }
}
/// the schema node with the given pre-order number
pub fn schema_at(s: &orc_format::schema::Schema, c: usize) -> Option<&orc_format::schema::Schema> { let mut n = c; walk(s, &mut n) }
fn walk<'a>(s: &'a orc_format::schema::Schema, n: &mut usize) -> Option<&'a orc_format::schema::Schema> {
    use orc_format::schema::Schema::*;
    if *n == 0 { return Some(s); }
    *n -= 1;
    match s {
        Struct(f) => { for x in f { if let Some(y) = walk(&x.1, n) { return Some(y); } } None }
        Union(f) => { for x in f { if let Some(y) = walk(x, n) { return Some(y); } } None }
        List(x) => walk(x, n),
        Map(x, y) => { if let Some(z) = walk(x, n) { return Some(z); } walk(y, n) }
        _ => None,
    }
}
fn names_of(s: &orc_format::schema::Schema, c: usize) -> Vec<&String> { match schema_at(s, c) { Some(orc_format::schema::Schema::Struct(f)) => f.iter().map(|x| &x.0).collect(), _ => Vec::new() } }

/// stripes hold whole batches and, where the buffered size is known exactly, close exactly when it exceeds the limit
fn stripes(r: &Run, t: &Tail, o: &Opt) {
    let mut i = 0; let mut k = 0;
    while k < t.stripes.len() {
        let first = i;
        let mut rows = 0usize; let mut size = 0u64; let mut closed_at: Option<usize> = None;
        let want_rows = t.stripes[k].rows as usize;
        check(want_rows > 0, 12, "a stripe without rows");
        if want_rows == 0 { return; }
        let mut before = 0usize; let mut q = 0; while q < first { before += r.batches[q]; q += 1; }
        while i < r.batches.len() && rows < want_rows {
            rows += r.batches[i];
            size = sized(r, before, before + rows);
            if o.exact_stripes { if rows < want_rows { check(size <= o.limit, 12, "a stripe stays open although its buffered size exceeds the limit"); } }
            // raw data is a part of what is buffered
            else if r.cfg.comp == 0 && rows < want_rows { check(size <= o.limit, 12, "a stripe stays open although its buffered size exceeds the limit"); }
            closed_at = Some(i); i += 1;
        }
        let _ = closed_at;
        check(rows == want_rows, 12, "a stripe holds a whole number of batches");
        if rows != want_rows { return; }
        if o.exact_stripes && k + 1 < t.stripes.len() { check(size > o.limit, 12, "a stripe is closed although its buffered size does not exceed the limit"); cover(12); }
        // and what is buffered is a part of what is written
        if !o.exact_stripes && r.cfg.comp == 0 && k + 1 < t.stripes.len() { check(t.stripes[k].data > o.limit, 12, "a stripe is closed although its buffered size does not exceed the limit"); cover(14); }
        if !o.exact_stripes && o.limit >= 1 << 40 { check(k + 1 == t.stripes.len(), 12, "a stripe is closed although its buffered size does not exceed the limit"); }
        // batches without rows after the closing one belong to the next stripe
        k += 1;
    }
}
/// buffered bytes of rows a..b where nothing is held back by run length encoding: fixed-width and raw data only
fn sized(r: &Run, a: usize, b: usize) -> u64 {
    let s = all_bounds(&r.cols, vec![a, b]);
    let mut n = 0u64; let mut c = 0;
    while c < r.cols.len() {
        let col = &r.cols[c]; let v = col.vals(s[c][0], s[c][1]);
        match col.code { FLOAT => n += 4 * v as u64, DOUBLE => n += 8 * v as u64, STRING | BINARY | CHAR | VARCHAR => { let v0 = col.vals(0, s[c][0]); let mut i = v0; while i < v0 + v { n += col.s[i].len() as u64; i += 1; } } _ => {} }
        c += 1;
    }
    n
}
