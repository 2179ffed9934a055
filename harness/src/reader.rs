//! A strict ORC reader written from the ORC v0/v1 specification. Shares no code with the writer.
//! Every function returns a Result; malformed input never panics.
pub type R<T> = Result<T, &'static str>;

// ------------------------------------------------------------------ protocol buffers
pub struct Pb<'a> { b: &'a [u8], p: usize }
pub enum Wire<'a> { V(u64), F(u64), B(&'a [u8]) }

impl<'a> Pb<'a> {
    pub fn new(b: &'a [u8]) -> Self { Pb { b, p: 0 } }
    fn byte(&mut self) -> R<u8> { match self.b.get(self.p) { Some(x) => { self.p += 1; Ok(*x) } None => Err("protobuf: truncated") } }
    fn varint(&mut self) -> R<u64> {
        let mut r = 0u64; let mut i = 0u32;
        loop {
            let x = self.byte()?;
            if i == 9 && x > 1 { return Err("protobuf: varint too long"); }
            r |= ((x & 0x7f) as u64) << (7 * i);
            if x < 0x80 { return Ok(r); }
            i += 1;
            if i == 10 { return Err("protobuf: varint too long"); }
        }
    }
    pub fn next(&mut self) -> R<Option<(u32, Wire<'a>)>> {
        if self.p == self.b.len() { return Ok(None); }
        let k = self.varint()?;
        let f = (k >> 3) as u32;
        if f == 0 || k >> 32 != 0 { return Err("protobuf: bad field number"); }
        Ok(Some((f, match k & 7 {
            0 => Wire::V(self.varint()?),
            1 => { let s = self.take(8)?; let mut r = 0u64; let mut i = 0; while i < 8 { r |= (s[i] as u64) << (8 * i); i += 1; } Wire::F(r) }
            2 => { let n = self.varint()?; let s = self.take(n)?; Wire::B(s) }
            _ => return Err("protobuf: unexpected wire type"),
        })))
    }
    fn take(&mut self, n: u64) -> R<&'a [u8]> {
        if n > (self.b.len() - self.p) as u64 { return Err("protobuf: truncated"); }
        let s = &self.b[self.p..self.p + n as usize]; self.p += n as usize; Ok(s)
    }
}
fn num(w: Wire) -> R<u64> { if let Wire::V(x) = w { Ok(x) } else { Err("protobuf: number expected") } }
fn sint(w: Wire) -> R<i64> { let x = num(w)?; Ok((x >> 1) as i64 ^ -((x & 1) as i64)) }
fn dbl(w: Wire) -> R<f64> { if let Wire::F(x) = w { Ok(f64::from_bits(x)) } else { Err("protobuf: double expected") } }
fn bytes<'a>(w: Wire<'a>) -> R<&'a [u8]> { if let Wire::B(x) = w { Ok(x) } else { Err("protobuf: bytes expected") } }
fn packed(w: Wire, out: &mut Vec<u64>) -> R<()> {
    match w { Wire::V(x) => out.push(x), Wire::B(b) => { let mut p = Pb::new(b); while p.p < p.b.len() { let x = p.varint()?; out.push(x); } } Wire::F(_) => return Err("protobuf: packed numbers expected") }
    Ok(())
}

#[derive(Clone, Default)]
pub struct ColStat {
    pub n: Option<u64>, pub has_null: Option<u64>, pub kinds: u32,
    pub imin: Option<i64>, pub imax: Option<i64>, pub isum: Option<i64>,
    pub dmin: Option<f64>, pub dmax: Option<f64>, pub dsum: Option<f64>,
    pub smin: Option<Vec<u8>>, pub smax: Option<Vec<u8>>, pub ssum: Option<i64>,
    pub bucket: Vec<u64>,
    pub nmin: Option<Vec<u8>>, pub nmax: Option<Vec<u8>>, pub nsum: Option<Vec<u8>>,
    pub bsum: Option<i64>,
    pub tmin: Option<i64>, pub tmax: Option<i64>,
}
pub const S_INT: u32 = 1; pub const S_DBL: u32 = 2; pub const S_STR: u32 = 4; pub const S_BUCKET: u32 = 8; pub const S_DEC: u32 = 16; pub const S_DATE: u32 = 32; pub const S_BIN: u32 = 64; pub const S_TS: u32 = 128;

pub fn col_stat(b: &[u8]) -> R<ColStat> {
    let mut s = ColStat::default();
    let mut p = Pb::new(b);
    while let Some((f, w)) = p.next()? {
        match f {
            1 => s.n = Some(num(w)?),
            10 => s.has_null = Some(num(w)?),
            2 => { s.kinds |= S_INT; let mut q = Pb::new(bytes(w)?); while let Some((f, w)) = q.next()? { match f { 1 => s.imin = Some(sint(w)?), 2 => s.imax = Some(sint(w)?), 3 => s.isum = Some(sint(w)?), _ => return Err("unknown field in IntegerStatistics") } } }
            3 => { s.kinds |= S_DBL; let mut q = Pb::new(bytes(w)?); while let Some((f, w)) = q.next()? { match f { 1 => s.dmin = Some(dbl(w)?), 2 => s.dmax = Some(dbl(w)?), 3 => s.dsum = Some(dbl(w)?), _ => return Err("unknown field in DoubleStatistics") } } }
            4 => { s.kinds |= S_STR; let mut q = Pb::new(bytes(w)?); while let Some((f, w)) = q.next()? { match f { 1 => s.smin = Some(bytes(w)?.to_vec()), 2 => s.smax = Some(bytes(w)?.to_vec()), 3 => s.ssum = Some(sint(w)?), _ => return Err("unknown field in StringStatistics") } } }
            5 => { s.kinds |= S_BUCKET; let mut q = Pb::new(bytes(w)?); while let Some((f, w)) = q.next()? { match f { 1 => packed(w, &mut s.bucket)?, _ => return Err("unknown field in BucketStatistics") } } }
            6 => { s.kinds |= S_DEC; let mut q = Pb::new(bytes(w)?); while let Some((f, w)) = q.next()? { match f { 1 => s.nmin = Some(bytes(w)?.to_vec()), 2 => s.nmax = Some(bytes(w)?.to_vec()), 3 => s.nsum = Some(bytes(w)?.to_vec()), _ => return Err("unknown field in DecimalStatistics") } } }
            7 => { s.kinds |= S_DATE; let mut q = Pb::new(bytes(w)?); while let Some((f, w)) = q.next()? { match f { 1 => s.imin = Some(sint(w)?), 2 => s.imax = Some(sint(w)?), _ => return Err("unknown field in DateStatistics") } } }
            8 => { s.kinds |= S_BIN; let mut q = Pb::new(bytes(w)?); while let Some((f, w)) = q.next()? { match f { 1 => s.bsum = Some(sint(w)?), _ => return Err("unknown field in BinaryStatistics") } } }
            9 => { s.kinds |= S_TS; let mut q = Pb::new(bytes(w)?); while let Some((f, w)) = q.next()? { match f { 1 => s.tmin = Some(sint(w)?), 2 => s.tmax = Some(sint(w)?), 3 | 4 => {} , _ => return Err("unknown field in TimestampStatistics") } } }
            _ => return Err("unknown field in ColumnStatistics"),
        }
    }
    Ok(s)
}

// ------------------------------------------------------------------ compression framing
#[derive(Clone, Copy, PartialEq)]
pub enum Comp { None, Snappy, Zstd }

/// an uncompressed section and the table of its chunks (compressed offset, uncompressed offset)
pub struct Section { pub data: Vec<u8>, pub chunks: Vec<(usize, usize)>, pub comp_len: usize, pub comp: Comp }

extern "C" { fn ZSTD_decompress(dst: *mut u8, cap: usize, src: *const u8, n: usize) -> usize; fn ZSTD_isError(c: usize) -> u32; }
// keeps the library linked into this crate
pub fn zstd_linked() -> usize { orc_zstd_anchor() }
#[inline(never)] fn orc_zstd_anchor() -> usize { 0 }

pub fn unsnappy(b: &[u8], cap: usize) -> R<Vec<u8>> {
    let mut p = 0usize; let mut n = 0usize; let mut sh = 0;
    loop { let x = *b.get(p).ok_or("snappy: truncated")?; p += 1; n |= ((x & 0x7f) as usize) << sh; if x < 0x80 { break; } sh += 7; if sh > 28 { return Err("snappy: bad length"); } }
    if n > cap { return Err("chunk: decompresses to more than the compression block size"); }
    let mut o: Vec<u8> = Vec::with_capacity(n);
    while p < b.len() {
        let t = b[p]; p += 1;
        let (len, off);
        match t & 3 {
            0 => {
                let mut l = (t >> 2) as usize;
                if l >= 60 { let k = l - 59; if b.len() - p < k { return Err("snappy: truncated"); } l = 0; let mut i = 0; while i < k { l |= (b[p + i] as usize) << (8 * i); i += 1; } p += k; }
                l += 1;
                if b.len() - p < l { return Err("snappy: truncated literal"); }
                o.extend_from_slice(&b[p..p + l]); p += l; continue;
            }
            1 => { len = 4 + ((t >> 2) & 7) as usize; let x = *b.get(p).ok_or("snappy: truncated")?; p += 1; off = ((t >> 5) as usize) << 8 | x as usize; }
            2 => { len = 1 + (t >> 2) as usize; if b.len() - p < 2 { return Err("snappy: truncated"); } off = b[p] as usize | (b[p + 1] as usize) << 8; p += 2; }
            _ => { len = 1 + (t >> 2) as usize; if b.len() - p < 4 { return Err("snappy: truncated"); } off = b[p] as usize | (b[p + 1] as usize) << 8 | (b[p + 2] as usize) << 16 | (b[p + 3] as usize) << 24; p += 4; }
        }
        if off == 0 || off > o.len() || o.len() + len > n { return Err("snappy: bad copy"); }
        let mut i = 0; while i < len { let x = o[o.len() - off]; o.push(x); i += 1; }
    }
    if o.len() != n { return Err("snappy: wrong length"); }
    Ok(o)
}

pub fn section(b: &[u8], comp: Comp, block: usize) -> R<Section> {
    if comp == Comp::None { return Ok(Section { data: b.to_vec(), chunks: Vec::new(), comp_len: b.len(), comp }); }
    let mut s = Section { data: Vec::new(), chunks: Vec::new(), comp_len: b.len(), comp };
    let mut p = 0usize;
    while p < b.len() {
        if b.len() - p < 3 { return Err("chunk: truncated header"); }
        let h = b[p] as usize | (b[p + 1] as usize) << 8 | (b[p + 2] as usize) << 16;
        let (n, raw) = (h >> 1, h & 1 == 1);
        if b.len() - p - 3 < n { return Err("chunk: header states more bytes than there are"); }
        if n == 0 { return Err("chunk: empty"); }
        let c = &b[p + 3..p + 3 + n];
        s.chunks.push((p, s.data.len()));
        if raw {
            if n > block { return Err("chunk: stored bytes exceed the compression block size"); }
            s.data.extend_from_slice(c);
        } else if comp == Comp::Snappy {
            let d = unsnappy(c, block)?;
            if d.len() < n { return Err("chunk: stored compressed although larger than raw"); }
            s.data.extend_from_slice(&d);
        } else {
            let mut d = vec![0u8; block];
            let r = unsafe { ZSTD_decompress(d.as_mut_ptr(), d.len(), c.as_ptr(), c.len()) };
            if unsafe { ZSTD_isError(r) } != 0 { return Err("chunk: does not decompress within the compression block size"); }
            if r < n { return Err("chunk: stored compressed although larger than raw"); }
            s.data.extend_from_slice(&d[..r]);
        }
        p += 3 + n;
    }
    Ok(s)
}

// ------------------------------------------------------------------ file tail
#[derive(Default)]
pub struct Type { pub kind: u64, pub subs: Vec<u64>, pub names: Vec<Vec<u8>>, pub maxlen: Option<u64>, pub precision: Option<u64>, pub scale: Option<u64> }
#[derive(Default, Clone, Copy)]
pub struct StripeInfo { pub offset: u64, pub index: u64, pub data: u64, pub footer: u64, pub rows: u64 }
#[derive(Default)]
pub struct Tail {
    pub header: Option<u64>, pub content: Option<u64>, pub stripes: Vec<StripeInfo>, pub types: Vec<Type>, pub rows: Option<u64>, pub stats: Vec<ColStat>, pub stride: Option<u64>, pub user_meta: u64,
    pub comp: u64, pub block: Option<u64>, pub version: Vec<u64>, pub magic: Vec<u8>, pub writer_version: u64, pub footer_len: u64, pub meta_len: u64, pub ps_len: usize,
    pub meta: Vec<Vec<ColStat>>, pub body_end: usize, pub footer_at: usize, pub ps_at: usize,
}

pub fn comp_of(k: u64) -> R<Comp> { match k { 0 => Ok(Comp::None), 2 => Ok(Comp::Snappy), 5 => Ok(Comp::Zstd), _ => Err("postscript: unexpected compression kind") } }

pub fn tail(f: &[u8]) -> R<Tail> {
    let mut t = Tail::default();
    if f.len() < 4 || f[0] != b'O' || f[1] != b'R' || f[2] != b'C' { return Err("file does not start with ORC"); }
    let n = f.len();
    t.ps_len = f[n - 1] as usize;
    if t.ps_len == 0 || t.ps_len + 4 > n { return Err("postscript length byte out of range"); }
    t.ps_at = n - 1 - t.ps_len;
    let mut p = Pb::new(&f[t.ps_at..n - 1]);
    let (mut fl, mut ml) = (None, None);
    while let Some((k, w)) = p.next()? {
        match k { 1 => fl = Some(num(w)?), 2 => t.comp = num(w)?, 3 => t.block = Some(num(w)?), 4 => packed(w, &mut t.version)?, 5 => ml = Some(num(w)?), 6 => t.writer_version = num(w)?, 8000 => t.magic = bytes(w)?.to_vec(), _ => return Err("postscript: unknown field") }
    }
    t.footer_len = fl.ok_or("postscript: no footer length")?; t.meta_len = ml.ok_or("postscript: no metadata length")?;
    if t.magic != b"ORC" { return Err("postscript: magic missing"); }
    let avail = t.ps_at as u64;
    if t.footer_len > avail || t.meta_len > avail - t.footer_len { return Err("postscript: lengths exceed the file"); }
    t.footer_at = t.ps_at - t.footer_len as usize;
    t.body_end = t.footer_at - t.meta_len as usize;
    let comp = comp_of(t.comp)?;
    let block = t.block.unwrap_or(0) as usize;
    if comp != Comp::None && block > 0x7fffff { return Err("postscript: compression block size out of range"); }
    let block = block.max(1);
    let sec = section(&f[t.footer_at..t.ps_at], comp, block)?;
    let mut p = Pb::new(&sec.data);
    while let Some((k, w)) = p.next()? {
        match k {
            1 => t.header = Some(num(w)?), 2 => t.content = Some(num(w)?),
            3 => { let mut s = StripeInfo::default(); let mut q = Pb::new(bytes(w)?); while let Some((k, w)) = q.next()? { let x = num(w)?; match k { 1 => s.offset = x, 2 => s.index = x, 3 => s.data = x, 4 => s.footer = x, 5 => s.rows = x, _ => return Err("stripe information: unknown field") } } t.stripes.push(s); }
            4 => { let mut y = Type::default(); let mut q = Pb::new(bytes(w)?); while let Some((k, w)) = q.next()? { match k { 1 => y.kind = num(w)?, 2 => packed(w, &mut y.subs)?, 3 => y.names.push(bytes(w)?.to_vec()), 4 => y.maxlen = Some(num(w)?), 5 => y.precision = Some(num(w)?), 6 => y.scale = Some(num(w)?), _ => return Err("type: unknown field") } } t.types.push(y); }
            5 => t.user_meta += 1,
            6 => t.rows = Some(num(w)?), 7 => t.stats.push(col_stat(bytes(w)?)?), 8 => t.stride = Some(num(w)?),
            _ => return Err("footer: unknown field"),
        }
    }
    let sec = section(&f[t.body_end..t.footer_at], comp, block)?;
    let mut p = Pb::new(&sec.data);
    while let Some((k, w)) = p.next()? {
        match k { 1 => { let mut v = Vec::new(); let mut q = Pb::new(bytes(w)?); while let Some((k, w)) = q.next()? { match k { 1 => v.push(col_stat(bytes(w)?)?), _ => return Err("stripe statistics: unknown field") } } t.meta.push(v); } _ => return Err("metadata: unknown field") }
    }
    Ok(t)
}

// ------------------------------------------------------------------ stripes
pub const PRESENT: u64 = 0; pub const DATA: u64 = 1; pub const LENGTH: u64 = 2; pub const SECONDARY: u64 = 5; pub const ROW_INDEX: u64 = 6;
pub struct Stream { pub kind: u64, pub col: u64, pub at: usize, pub len: usize }
/// utc: the footer says that the writer's time zone is UTC
pub struct Stripe { pub streams: Vec<Stream>, pub enc: Vec<u64>, pub utc: bool }

pub fn stripe(f: &[u8], t: &Tail, s: &StripeInfo) -> R<Stripe> {
    let end = t.body_end as u64;
    if s.offset > end || s.index > end || s.data > end || s.footer > end || s.offset + s.index + s.data + s.footer > end { return Err("stripe extends past the body"); }
    let fa = (s.offset + s.index + s.data) as usize;
    let sec = section(&f[fa..fa + s.footer as usize], comp_of(t.comp)?, (t.block.unwrap_or(0) as usize).max(1))?;
    let mut o = Stripe { streams: Vec::new(), enc: Vec::new(), utc: false };
    let mut p = Pb::new(&sec.data);
    let mut at = s.offset;
    while let Some((k, w)) = p.next()? {
        match k {
            1 => {
                let (mut kind, mut col, mut len) = (0, 0, 0);
                let mut q = Pb::new(bytes(w)?); while let Some((k, w)) = q.next()? { let x = num(w)?; match k { 1 => kind = x, 2 => col = x, 3 => len = x, _ => return Err("stream: unknown field") } }
                if len > end { return Err("stream length out of range"); }
                if at + len > fa as u64 { return Err("streams extend past the stripe"); }
                o.streams.push(Stream { kind, col, at: at as usize, len: len as usize }); at += len;
            }
            2 => { let mut e = 0; let mut q = Pb::new(bytes(w)?); while let Some((k, w)) = q.next()? { let x = num(w)?; match k { 1 => e = x, _ => return Err("column encoding: unexpected field") } } o.enc.push(e); }
            3 => { let z = bytes(w)?; o.utc = z == b"UTC" || z == b"GMT" || z == b"Etc/UTC" || z == b"Etc/GMT" || z == b"Z"; }
            _ => return Err("stripe footer: unknown field"),
        }
    }
    Ok(o)
}

pub struct Entry { pub pos: Vec<u64>, pub stat: ColStat }
pub fn row_index(d: &[u8]) -> R<Vec<Entry>> {
    let mut v = Vec::new();
    let mut p = Pb::new(d);
    while let Some((k, w)) = p.next()? {
        match k {
            1 => {
                let mut e = Entry { pos: Vec::new(), stat: ColStat::default() };
                let mut q = Pb::new(bytes(w)?); while let Some((k, w)) = q.next()? { match k { 1 => packed(w, &mut e.pos)?, 2 => e.stat = col_stat(bytes(w)?)?, _ => return Err("row index entry: unknown field") } }
                v.push(e);
            }
            _ => return Err("row index: unknown field"),
        }
    }
    Ok(v)
}

// ------------------------------------------------------------------ stream decoders
pub struct Raw<'a> { pub b: &'a [u8], pub p: usize }
impl<'a> Raw<'a> {
    pub fn byte(&mut self) -> R<u8> { match self.b.get(self.p) { Some(x) => { self.p += 1; Ok(*x) } None => Err("stream ends early") } }
    pub fn varint(&mut self) -> R<u64> {
        let mut r = 0u64; let mut i = 0u32;
        loop { let x = self.byte()?; if i == 9 && x > 1 { return Err("varint exceeds 64 bits"); } r |= ((x & 0x7f) as u64) << (7 * i); if x < 0x80 { return Ok(r); } i += 1; if i == 10 { return Err("varint exceeds 64 bits"); } }
    }
    pub fn varint128(&mut self) -> R<u128> {
        let mut r = 0u128; let mut i = 0u32;
        loop { let x = self.byte()?; if i == 18 && x > 3 { return Err("varint exceeds 128 bits"); } r |= ((x & 0x7f) as u128) << (7 * i); if x < 0x80 { return Ok(r); } i += 1; if i == 19 { return Err("varint exceeds 128 bits"); } }
    }
    pub fn bytes(&mut self, n: usize) -> R<&'a [u8]> { if self.b.len() - self.p < n { return Err("stream ends early"); } let s = &self.b[self.p..self.p + n]; self.p += n; Ok(s) }
    pub fn end(&self) -> bool { self.p == self.b.len() }
}
/// integer run length encoding, version 1
pub struct Ints<'a> { r: Raw<'a>, signed: bool, run: u32, lit: u32, val: u64, delta: i64 }
impl<'a> Ints<'a> {
    pub fn new(b: &'a [u8], p: usize, signed: bool) -> Self { Ints { r: Raw { b, p }, signed, run: 0, lit: 0, val: 0, delta: 0 } }
    fn one(&mut self) -> R<u64> { let x = self.r.varint()?; Ok(if self.signed { (x >> 1) ^ (0u64.wrapping_sub(x & 1)) } else { x }) }
    pub fn next(&mut self) -> R<u64> {
        if self.run == 0 && self.lit == 0 {
            let h = self.r.byte()?;
            if h < 128 { self.run = h as u32 + 3; self.delta = self.r.byte()? as i8 as i64; self.val = self.one()?; }
            else { self.lit = 256 - h as u32; }
        }
        if self.run > 0 { let v = self.val; self.run -= 1; self.val = v.wrapping_add(self.delta as u64); Ok(v) } else { self.lit -= 1; self.one() }
    }
    pub fn end(&self) -> bool { self.run == 0 && self.lit == 0 && self.r.end() }
}
/// byte run length encoding
pub struct Bytes<'a> { r: Raw<'a>, run: u32, lit: u32, val: u8 }
impl<'a> Bytes<'a> {
    pub fn new(b: &'a [u8], p: usize) -> Self { Bytes { r: Raw { b, p }, run: 0, lit: 0, val: 0 } }
    pub fn next(&mut self) -> R<u8> {
        if self.run == 0 && self.lit == 0 {
            let h = self.r.byte()?;
            if h < 128 { self.run = h as u32 + 3; self.val = self.r.byte()?; } else { self.lit = 256 - h as u32; }
        }
        if self.run > 0 { self.run -= 1; Ok(self.val) } else { self.lit -= 1; self.r.byte() }
    }
    pub fn end(&self) -> bool { self.run == 0 && self.lit == 0 && self.r.end() }
}
/// bits, most significant first, inside byte run length encoding
pub struct Bits<'a> { b: Bytes<'a>, cur: u8, left: u32 }
impl<'a> Bits<'a> {
    pub fn new(b: &'a [u8], p: usize) -> Self { Bits { b: Bytes::new(b, p), cur: 0, left: 0 } }
    pub fn next(&mut self) -> R<bool> {
        if self.left == 0 { self.cur = self.b.next()?; self.left = 8; }
        self.left -= 1;
        Ok((self.cur >> self.left) & 1 == 1)
    }
    pub fn skip_bytes(&mut self, n: u64) -> R<()> { let mut i = 0; while i < n { self.b.next()?; i += 1; } Ok(()) }
    pub fn end(&self) -> bool { self.b.end() }
}

/// takes the elements of a row index entry in order
pub struct Pos<'a> { pub v: &'a [u64], pub i: usize }
impl<'a> Pos<'a> {
    pub fn next(&mut self) -> R<u64> { match self.v.get(self.i) { Some(x) => { self.i += 1; Ok(*x) } None => Err("row index: too few positions") } }
    /// uncompressed offset in the section named by [chunk start,] offset
    pub fn at(&mut self, s: &Section) -> R<usize> {
        if s.comp == Comp::None {
            let o = self.next()?; if o > s.data.len() as u64 { return Err("row index: position past the stream"); } return Ok(o as usize);
        }
        let c = self.next()?; let o = self.next()?;
        let mut i = 0;
        while i < s.chunks.len() {
            if s.chunks[i].0 as u64 == c {
                let end = if i + 1 < s.chunks.len() { s.chunks[i + 1].1 } else { s.data.len() };
                if o > (end - s.chunks[i].1) as u64 { return Err("row index: offset past the chunk"); }
                return Ok(s.chunks[i].1 + o as usize);
            }
            i += 1;
        }
        if c == s.comp_len as u64 && o == 0 { return Ok(s.data.len()); }
        Err("row index: position is not the start of a chunk")
    }
}
