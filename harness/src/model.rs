//! What was written: the history of every column, its generation from symbolic inputs, and feeding it to the writer.
use crate::sym::*;
use orc_format::schema::{Field, Schema};
use orc_format::writer::compression::{Compression, NoCompression, SnappyCompression, ZstdCompression};
use orc_format::writer::data::{BaseData, Data, GenericData};
use orc_format::writer::{Config, Writer};
use std::io::Write;

// column kinds = ORC type kinds
pub const BOOLEAN: u8 = 0; pub const SHORT: u8 = 2; pub const INT: u8 = 3; pub const LONG: u8 = 4; pub const FLOAT: u8 = 5; pub const DOUBLE: u8 = 6; pub const STRING: u8 = 7; pub const BINARY: u8 = 8; pub const TIMESTAMP: u8 = 9;
pub const LIST: u8 = 10; pub const MAP: u8 = 11; pub const STRUCT: u8 = 12; pub const UNION: u8 = 13; pub const DECIMAL: u8 = 14; pub const DATE: u8 = 15; pub const VARCHAR: u8 = 16; pub const CHAR: u8 = 17;

/// Schemas, one letter per type: b boolean, h short, i int, l long, d date, f float, g double, s string, c char, v varchar, y binary, t timestamp,
/// n/m/o decimal of scale 0/2/18, [x list, (kv map, {..} struct, <..> union
pub const SCHEMAS: [&str; 74] = [
    "l", "h", "i", "d", "b", "f", "g", "s", "c", "v", "y", "t", "n", "m", "o",              // 0..14
    "[l", "[b", "[s", "(lb", "(sf", "{l}", "{lb}", "<lb>", "<fs>", "[[l", "{[l}", "{<lb>}",  // 15..26
    "{l{b}}", "[{lb}", "(l[b", "<[l{b}>", "{l[lf}", "{bs}", "{fg}", "{(lb}", "{{l}}",         // 27..35
    "{lbfgstym[l(lb{l}<lb>}", "{f}", "{g}", "{s}", "{y}", "{t}", "{n}", "{b}", "{d}",         // 36..44
    "{}", "<l>", "{ff}", "[f", "<ff>", "{[f}", "(ff", "{lf}", "[y", "[g", "{lhidc}",
    "[t", "[m", "{tm}", "<tm>", "(st", "{mf}", "W", "{W}",         // 56..63
    "X", "p", "q", "{pq}", "[[[[l", "{{{{l}}}}", "<<lb>{l}>", "([l(l{b}", "{ppp}", "[<[lb>",
];

#[derive(Default)]
pub struct Col { pub code: u8, pub scale: u32, pub maxlen: u32, pub kids: Vec<usize>, pub pres: Vec<bool>, pub v: Vec<u64>, pub w: Vec<u64>, pub d: Vec<i128>, pub s: Vec<Vec<u8>>, pub exact: bool, pub fixed: bool }

impl Col {
    /// number of values in slots a..b
    pub fn vals(&self, a: usize, b: usize) -> usize { let mut n = 0; let mut i = a; while i < b { n += self.pres[i] as usize; i += 1; } n }
    pub fn nested(&self) -> bool { self.code >= LIST && self.code <= UNION }
}

pub fn schema_of(p: &mut &[u8], cols: &mut Vec<Col>) -> Schema {
    let id = cols.len();
    let c = p[0]; *p = &p[1..];
    let (code, s) = match c {
        b'b' => (BOOLEAN, Schema::Boolean), b'h' => (SHORT, Schema::Short), b'i' => (INT, Schema::Int), b'l' => (LONG, Schema::Long), b'd' => (DATE, Schema::Date), b'f' => (FLOAT, Schema::Float), b'g' => (DOUBLE, Schema::Double),
        b's' => (STRING, Schema::String), b'c' => (CHAR, Schema::Char(5)), b'v' => (VARCHAR, Schema::VarChar(300)), b'y' => (BINARY, Schema::Binary), b't' => (TIMESTAMP, Schema::Timestamp),
        b'n' => (DECIMAL, Schema::Decimal(38, 0)), b'm' => (DECIMAL, Schema::Decimal(38, 2)), b'o' => (DECIMAL, Schema::Decimal(38, 18)), b'p' => (DECIMAL, Schema::Decimal(38, 38)), b'q' => (DECIMAL, Schema::Decimal(38, 20)),
        b'[' => { cols.push(Col { code: LIST, ..Default::default() }); let k = cols.len(); let a = schema_of(p, cols); cols[id].kids.push(k); return Schema::List(Box::new(a)); }
        b'(' => { cols.push(Col { code: MAP, ..Default::default() }); let k = cols.len(); let a = schema_of(p, cols); let k2 = cols.len(); let b = schema_of(p, cols); cols[id].kids.push(k); cols[id].kids.push(k2); return Schema::Map(Box::new(a), Box::new(b)); }
        b'{' => {
            cols.push(Col { code: STRUCT, ..Default::default() });
            let mut f = Vec::new();
            while p[0] != b'}' { let k = cols.len(); let mut name = String::new(); name.push((b'a' + f.len() as u8) as char); name.push('_'); let s = schema_of(p, cols); cols[id].kids.push(k); f.push(Field(name, s)); }
            *p = &p[1..];
            return Schema::Struct(f);
        }
        // a union of 256 booleans, and a struct of 300 of them
        b'W' => {
            cols.push(Col { code: UNION, ..Default::default() });
            let mut f = Vec::new();
            while f.len() < 256 { let k = cols.len(); let mut b: &[u8] = b"b"; let s = schema_of(&mut b, cols); cols[id].kids.push(k); f.push(s); }
            return Schema::Union(f);
        }
        b'X' => {
            cols.push(Col { code: STRUCT, ..Default::default() });
            let mut f = Vec::new();
            while f.len() < 300 { let k = cols.len(); let mut b: &[u8] = b"b"; let s = schema_of(&mut b, cols); cols[id].kids.push(k); let mut name = String::new(); name.push((b'a' + (f.len() / 16) as u8) as char); name.push((b'a' + (f.len() % 16) as u8) as char); f.push(Field(name, s)); }
            return Schema::Struct(f);
        }
        _ => {
            cols.push(Col { code: UNION, ..Default::default() });
            let mut f = Vec::new();
            while p[0] != b'>' { let k = cols.len(); let s = schema_of(p, cols); cols[id].kids.push(k); f.push(s); }
            *p = &p[1..];
            return Schema::Union(f);
        }
    };
    cols.push(Col { code, scale: match c { b'm' => 2, b'o' => 18, b'p' => 38, b'q' => 20, _ => 0 }, maxlen: match c { b'c' => 5, b'v' => 300, _ => 0 }, exact: true, ..Default::default() });
    s
}

/// the schema beside a double column of known, non-null values: every row occupies at least 8 buffered bytes
pub fn padded(p: &mut &[u8], cols: &mut Vec<Col>) -> Schema {
    cols.push(Col { code: STRUCT, fixed: true, ..Default::default() });
    let mut f = Vec::new();
    let mut b: &[u8] = b"g"; let s = schema_of(&mut b, cols); cols[1].fixed = true; f.push(Field(String::from("pad"), s));
    let s = schema_of(p, cols); f.push(Field(String::from("x"), s));
    cols[0].kids.push(1); cols[0].kids.push(2);
    Schema::Struct(f)
}

#[derive(Clone)]
pub struct Cfg { pub stride: u32, pub comp: u64, pub block: u64, pub level: u64, pub limit: u64, pub order: u64 }
impl Cfg {
    /// the same parameters, however the calls that give them are ordered or repeated
    pub fn compression(&self) -> Compression {
        let (b, l) = (self.block as usize, self.level as i32);
        match (self.comp, self.order % 3) {
            (0, _) => NoCompression::new().build(),
            (1, 0) => SnappyCompression::new().with_block_size(b).build(),
            (1, 1) => SnappyCompression::new().with_block_size(4097).with_block_size(b).build(),
            (1, _) => SnappyCompression::new().with_block_size(b).clone().build().clone(),
            (_, 0) => ZstdCompression::new().with_block_size(b).with_compression_level(l).build(),
            (_, 1) => ZstdCompression::new().with_compression_level(l).with_block_size(b).build(),
            (_, _) => ZstdCompression::new().with_block_size(4097).with_compression_level(1).clone().with_block_size(b).with_compression_level(l).build().clone(),
        }
    }
    pub fn config(&self) -> Config {
        let (k, s, c) = (self.stride, self.limit as usize, self.compression());
        let n = Config::new();
        match self.order {
            0 => n.with_row_index_stride(k).with_compression(c).with_stripe_size(s),
            1 => n.with_row_index_stride(k).with_stripe_size(s).with_compression(c),
            2 => n.with_compression(c).with_row_index_stride(k).with_stripe_size(s),
            3 => n.with_compression(c).with_stripe_size(s).with_row_index_stride(k),
            4 => n.with_stripe_size(s).with_row_index_stride(k).with_compression(c),
            5 => n.with_stripe_size(s).with_compression(c).with_row_index_stride(k),
            6 => n.with_compression(SnappyCompression::new().with_block_size(77).build()).with_stripe_size(5).with_row_index_stride(3).with_stripe_size(s).with_row_index_stride(k).with_compression(c),
            7 => n.with_row_index_stride(1).with_compression(c).with_stripe_size(1 << 20).with_row_index_stride(k).with_compression(self.compression()).with_stripe_size(s),
            _ => n.with_compression(ZstdCompression::new().build()).with_stripe_size(s).with_compression(NoCompression::new().build()).with_row_index_stride(k).with_compression(c),
        }
    }
}

/// how values are made
#[derive(Clone, Default)]
pub struct Gen { pub null: u64, pub nnull: u64, pub tail: u64, pub aux: u64, pub prefix: usize, pub pkind: u64, pub last: i64 }

pub const T_FULL: u64 = 0; pub const T_DELTA: u64 = 1; pub const T_SMALL: u64 = 2; pub const T_MED: u64 = 3; pub const T_LIT: u64 = 4; pub const T_RUN: u64 = 5; pub const T_FIRST: u64 = 6; pub const T_EXT: u64 = 7;

fn lit(i: usize) -> u64 { (i as u64).wrapping_mul(i as u64).wrapping_mul(2654435761).wrapping_add(i as u64 * 977) & 0x3ff_ffff }
pub const F32T: [u32; 5] = [0x3f00_0000, 0x3f80_0000, 0xc020_0000, 0x4110_0000, 0];
pub const F64T: [u64; 5] = [0x3fe0_0000_0000_0000, 0x3ff0_0000_0000_0000, 0xc004_0000_0000_0000, 0x4022_0000_0000_0000, 0];
const P: [i128; 12] = [0, 1_0000_0000, -100, 999_999_999_999_999_999, -1_0000_0000_0000_0000_00, i64::MAX as i128, i64::MIN as i128, i128::MAX, i128::MIN, 99_9999_9999_9999_9999_9999_9999_9999_9999_9996, -1_0000_0000_0000_0000, 10_0000_0000_0000_0000_0000_0000_0000_0000];

impl Gen {
    fn is_null(&self, mode: u64, slot: usize) -> bool {
        match mode { 0 => false, 1 => bits(1) == 1, 2 => slot % 3 == 1, 3 => slot == 0, 4 => true, 5 => slot < self.aux as usize, 6 => slot >= self.prefix && bits(1) == 1, 7 => (lit(slot) >> 3) & 1 == 1, 8 => slot % 2 == 0, _ => slot as i64 == self.last }
    }
    /// integer value number i of a column whose previous value is prev
    fn int(&self, i: usize, prev: u64) -> u64 {
        if i < self.prefix { return match self.pkind { 0 => lit(i), 1 => 5, 2 => 5 + 3 * i as u64, 3 => lit(i / 3), _ => if i == 0 { 7 } else if self.prefix - i <= 2 { 40 } else { lit(i) } }; }
        match self.tail {
            T_FULL => bits(64),
            T_DELTA => if i == 0 { bits(64) } else { let d = bits(9); let s = (d << 55) as i64 >> 55; prev.wrapping_add(s as u64) },
            T_SMALL => { let b = bits(3); b.wrapping_sub(3) }
            T_MED => bits(16),
            T_LIT => lit(i),
            // within 4 of a multiple of 2^61
            T_EXT => { let b = bits(6); ((b >> 3) << 61).wrapping_add(b & 7).wrapping_sub(4) }
            T_FIRST => if i == self.prefix { bits(64) } else { lit(i) },
            _ => 5,
        }
    }
    fn conc(&self) -> bool { self.tail == T_LIT || self.tail == T_RUN }

    /// append n slots to column c and what they call for to its children
    pub fn rows(&self, cols: &mut Vec<Col>, c: usize, n: usize) {
        let code = cols[c].code;
        let nested = cols[c].nested();
        let mut k = 0; let mut total = 0usize;
        let kids = cols[c].kids.clone();
        let mut counts: Vec<usize> = vec![0; kids.len()];
        while k < n {
            let slot = cols[c].pres.len();
            let null = !cols[c].fixed && self.is_null(if nested { self.nnull } else { self.null }, slot);
            cols[c].pres.push(!null);
            k += 1;
            if null { continue; }
            let i = cols[c].v.len().max(cols[c].s.len()).max(cols[c].d.len());
            let inpre = i < self.prefix;
            match code {
                BOOLEAN => { let x = if inpre || self.conc() { if self.pkind == 0 { (lit(i) >> 4) & 1 } else { 1 } } else { bits(1) }; cols[c].v.push(x); }
                SHORT | INT | LONG | DATE => { let prev = cols[c].v.last().copied().unwrap_or(0); let x = self.int(i, prev); cols[c].v.push(x); }
                FLOAT => { let x = if inpre || self.conc() { F32T[i % 5] as u64 } else if self.tail == T_SMALL { F32T[choose(5) as usize] as u64 } else { cols[c].exact = false; bits(32) }; cols[c].v.push(x); }
                DOUBLE => { let x = if inpre || self.conc() || cols[c].fixed { F64T[i % 5] } else if self.tail == T_SMALL { F64T[choose(5) as usize] } else { cols[c].exact = false; bits(64) }; cols[c].v.push(x); }
                STRING | VARCHAR | CHAR | BINARY => {
                    let concrete = inpre || self.conc();
                    let len = if self.aux >= 1000 { self.aux as usize } else if concrete { match self.pkind { 0 => (i * 7 + 1) % 5, 1 => 3, _ => 40 } } else { match self.aux { 0 => choose(3) as usize, 100 => choose(2) as usize * 2, 101 => choose(2) as usize * 3 + 1, 102 => 44, k => k as usize } };
                    let mut s = Vec::with_capacity(len);
                    let mut j = 0;
                    while j < len {
                        if self.aux >= 1000 && j + 2 < len { s.push((lit(i * 7919 + j).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 57) as u8); }
                        else if concrete { s.push(if self.pkind == 0 { b'a' + ((i * 3 + j) % 13) as u8 } else { b'q' }); }
                        else if self.aux == 102 && j < 38 { s.push(b'q'); }
                        else if code == BINARY { s.push(bits(8) as u8); }
                        else if self.tail == T_SMALL && j + 1 < len && j % 2 == 0 { let a = bits(8); assume((a >= 0xc2) & (a <= 0xdf)); let b = bits(6); s.push(a as u8); s.push(0x80 | b as u8); j += 1; }
                        else { s.push(bits(7) as u8); }
                        j += 1;
                    }
                    cols[c].s.push(s);
                }
                TIMESTAMP => {
                    let prev = cols[c].v.last().copied().unwrap_or(0);
                    let x = self.int(i, prev);
                    let y = if inpre || self.conc() { [0u64, 1000, 999_999_999, 500_000_000, 123_456_700][i % 5] } else {
                        match self.aux { 0 => { let y = bits(30); assume(y < 1_000_000_000); y } 1 => [0u64, 10, 100, 123_000, 1_000_000, 999_999_999, 900_000_000][choose(7) as usize], _ => { let k = [1u64, 10, 100, 1000, 10_000, 100_000, 1_000_000, 10_000_000, 100_000_000][choose(9) as usize]; (1 + bits(3)) * k } }
                    };
                    if self.aux == 2 { assume(y < 1_000_000_000); }
                    if !self.orc_epoch(i) { let e = x as i64; assume(e >= i64::MIN + 1_420_070_400); cols[c].v.push((e - 1_420_070_400) as u64); } else { cols[c].v.push(x); }
                    cols[c].w.push(y);
                }
                DECIMAL => {
                    let x: i128 = if inpre || self.conc() { match self.pkind { 0 => (lit(i) as i128) * if i % 2 == 0 { 1 } else { -1 }, _ => 777 } }
                        else if self.aux == 50 { ((bits(64) as u128) << 64 | bits(64) as u128) as i128 }
                        else if self.aux == 51 { bits(64) as i64 as i128 }
                        else if self.aux == 52 { let b = bits(8); (b as i128) - 128 }
                        else if self.aux == 53 { let b = bits(4); (b as i128) * 17 - 120 }
                        else { let b = P[self.aux as usize % 12]; let d = bits(2) as i128; if b < 0 { if b == i128::MIN { b + d } else { b - d } } else if b == i128::MAX { b - d } else { b + d } };
                    cols[c].d.push(x);
                    cols[c].v.push(self.dec64(i) as u64);
                }
                STRUCT => { cols[c].v.push(0); total += 1; }
                LIST | MAP => { let len = match self.aux { 0 => choose(3), 1 => 1, 2 => choose(2), 3 => (i % 3) as u64, 4 => (i as u64 + 1) % 2 * 2, 5 => 130, 6 => 2, 7 => choose(2) * 3, 8 => if i == 0 { 66_000 + choose(2) } else { choose(2) }, 9 => 0, _ => (i as u64) % 5 }; cols[c].v.push(len); total += len as usize; }
                _ => { let t = match self.aux { 1 => (i % kids.len()) as u64, 3 => 0, 4 => (i as u64 / 5) % kids.len() as u64, 5 | 6 => (lit(i) >> 2) % kids.len() as u64, 7 => [0, kids.len() as u64 / 2, 127, 128, 129, kids.len() as u64 - 1][choose(6) as usize % 6] % kids.len() as u64, _ => choose(kids.len() as u64) }; cols[c].v.push(t); counts[t as usize] += 1; }
            }
        }
        let mut q = 0;
        while q < kids.len() { self.rows(cols, kids[q], if code == UNION { counts[q] } else { total }); q += 1; }
    }
    /// even values of a timestamp column go through write_nanos, odd ones through write_nanos_epoch
    pub fn orc_epoch(&self, i: usize) -> bool { i % 2 == 0 }
    /// whether decimal number i is written through the 64-bit entry point (only where it fits)
    fn dec64(&self, i: usize) -> bool { match self.aux { 51 => true, 50 | 5..=9 | 11 => false, _ => i % 2 == 0 } }
}

/// slot ranges of every column for the given row boundaries of column c
pub fn bounds(cols: &[Col], c: usize, b: Vec<usize>, out: &mut Vec<Vec<usize>>) {
    let col = &cols[c];
    if !col.kids.is_empty() {
        let mut k = 0;
        while k < col.kids.len() {
            let mut nb = Vec::with_capacity(b.len());
            let (mut slot, mut val, mut acc) = (0usize, 0usize, 0usize);
            for &e in b.iter() {
                while slot < e { if col.pres[slot] { match col.code { STRUCT => acc += 1, UNION => acc += (col.v[val] == k as u64) as usize, _ => acc += col.v[val] as usize } val += 1; } slot += 1; }
                nb.push(acc);
            }
            bounds(cols, col.kids[k], nb, out);
            k += 1;
        }
    }
    out[c] = b;
}
pub fn all_bounds(cols: &[Col], b: Vec<usize>) -> Vec<Vec<usize>> { let mut o: Vec<Vec<usize>> = Vec::new(); let mut i = 0; while i < cols.len() { o.push(Vec::new()); i += 1; } bounds(cols, 0, b, &mut o); o }

/// feed slots lo[c]..hi[c] of column c and everything below it; order bit 0: parent first, bit 1: children last to first
pub fn feed(d: &mut Data, cols: &[Col], c: usize, lo: &[usize], hi: &[usize], g: &Gen, order: u64) {
    let col = &cols[c];
    let (a, b) = (lo[c], hi[c]);
    let mut v = col.vals(0, a);
    if want(22) { check(d.column_id() as usize == c, 22, "a column has another number than its place in the schema"); }
    if order & 1 == 0 && !col.kids.is_empty() { kids(d, col, cols, lo, hi, g, order); }
    let mut i = a;
    while i < b {
        let p = col.pres[i];
        i += 1;
        // odd slots go through the other half of the interface
        if i & 1 == 0 && !p { d.write_null(); continue; }
        if i & 1 == 0 {
            match col.code {
                BOOLEAN => d.unwrap_boolean().write(col.v[v] & 1 == 1),
                SHORT | INT | LONG | DATE => d.unwrap_long().write(col.v[v] as i64),
                FLOAT => d.unwrap_float().write(f32::from_bits(col.v[v] as u32)),
                DOUBLE => d.unwrap_double().write(f64::from_bits(col.v[v])),
                STRING | VARCHAR | CHAR => d.unwrap_string().write(unsafe { std::str::from_utf8_unchecked(&col.s[v]) }),
                BINARY => d.unwrap_binary().write(&col.s[v]),
                TIMESTAMP => { let x = d.unwrap_timestamp(); if g.orc_epoch(v) { x.write_nanos(col.v[v] as i64, col.w[v] as u32) } else { x.write_nanos_epoch((col.v[v] as i64).wrapping_add(1_420_070_400), col.w[v] as u32) } }
                DECIMAL => { let x = d.unwrap_decimal(); if col.v[v] == 1 { x.write_i64(col.d[v] as i64) } else { x.write_i128(col.d[v]) } }
                LIST => d.unwrap_list().write(col.v[v]),
                MAP => d.unwrap_map().write(col.v[v]),
                STRUCT => d.unwrap_struct().write(),
                _ => d.unwrap_union().write(col.v[v] as usize),
            }
            v += 1;
            continue;
        }
        match d {
            Data::Boolean(x) => if p { x.write(col.v[v] & 1 == 1) } else { x.write_null() },
            Data::Long(x) => if p { x.write(col.v[v] as i64) } else { x.write_null() },
            Data::Float(x) => if p { x.write(f32::from_bits(col.v[v] as u32)) } else { x.write_null() },
            Data::Double(x) => if p { x.write(f64::from_bits(col.v[v])) } else { x.write_null() },
            Data::Timestamp(x) => if p { if g.orc_epoch(v) { x.write_nanos(col.v[v] as i64, col.w[v] as u32) } else { x.write_nanos_epoch((col.v[v] as i64).wrapping_add(1_420_070_400), col.w[v] as u32) } } else { x.write_null() },
            Data::Decimal(x) => if p { if col.v[v] == 1 { x.write_i64(col.d[v] as i64) } else { x.write_i128(col.d[v]) } } else { x.write_null() },
            Data::String(x) => if p { x.write(unsafe { std::str::from_utf8_unchecked(&col.s[v]) }) } else { x.write_null() },
            Data::Binary(x) => if p { x.write(&col.s[v]) } else { x.write_null() },
            Data::Struct(x) => if p { x.write() } else { x.write_null() },
            Data::List(x) => if p { x.write(col.v[v]) } else { x.write_null() },
            Data::Map(x) => if p { x.write(col.v[v]) } else { x.write_null() },
            Data::Union(x) => if p { x.write(col.v[v] as usize) } else { x.write_null() },
        }
        v += p as usize;
    }
    if order & 1 == 1 && !col.kids.is_empty() { kids(d, col, cols, lo, hi, g, order); }
}
fn kids(d: &mut Data, col: &Col, cols: &[Col], lo: &[usize], hi: &[usize], g: &Gen, order: u64) {
    let n = col.kids.len();
    let mut q = 0;
    while q < n {
        let k = if order & 2 == 0 { q } else { n - 1 - q };
        match d {
            Data::Struct(x) if lo[col.kids[k]] & 1 == 1 => feed(&mut x.children()[k], cols, col.kids[k], lo, hi, g, order),
            Data::Union(x) if lo[col.kids[k]] & 1 == 1 => feed(&mut x.children()[k], cols, col.kids[k], lo, hi, g, order),
            Data::Struct(x) => feed(x.child(k), cols, col.kids[k], lo, hi, g, order),
            Data::Union(x) => feed(x.child(k), cols, col.kids[k], lo, hi, g, order),
            Data::List(x) => feed(x.child(), cols, col.kids[k], lo, hi, g, order),
            Data::Map(x) => feed(if k == 0 { x.keys() } else { x.values() }, cols, col.kids[k], lo, hi, g, order),
            _ => {}
        }
        q += 1;
    }
}

pub struct Run { pub schema: Schema, pub cols: Vec<Col>, pub cfg: Cfg, pub gen: Gen, pub batches: Vec<usize> }

/// write the rows in the given batches; Err: the writer reported an error
pub fn write<W: Write>(r: &Run, cfg: &Cfg, batches: &[usize], order: u64, sink: W) -> std::io::Result<W> {
    let mut w = Writer::new(sink, &r.schema, cfg.config())?;
    let mut b = vec![0usize]; let mut t = 0;
    for n in batches { t += n; b.push(t); }
    let s = all_bounds(&r.cols, b);
    let mut i = 0;
    let (mut lo, mut hi) = (vec![0usize; r.cols.len()], vec![0usize; r.cols.len()]);
    while i < batches.len() {
        let mut c = 0; while c < r.cols.len() { lo[c] = s[c][i]; hi[c] = s[c][i + 1]; c += 1; }
        feed(w.data(), &r.cols, 0, &lo, &hi, &r.gen, order);
        w.write_batch(batches[i] as u64)?;
        i += 1;
    }
    w.finish()
}
