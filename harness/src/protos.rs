//! C27: the public metadata messages against the wire format of the published ORC protobuf schema.
//! The tables below (field numbers and types) are written from that schema, the encoder from the protobuf specification.
use crate::sym::*;
use orc_format::protos::orc_proto as pb;
use protobuf::{Message, ProtobufEnum, RepeatedField};

/// which fields a message carries: mode 0 none, 1 all (small values), 2 + 2k only field k (full range), 3 + 2k all but field k
pub struct G { mode: u64, depth: u32, reps: u64 }
impl G {
    fn on(&self, k: u64) -> bool { if self.depth > 0 { return true; } if self.mode < 2 { self.mode == 1 } else if self.mode & 1 == 0 { self.mode == 2 + 2 * k } else { self.mode != 3 + 2 * k } }
    fn wide(&self) -> bool { self.depth == 0 && self.mode >= 2 && self.mode & 1 == 0 }
    fn n(&self, bits_: u32) -> u64 { if self.wide() { bits(bits_) } else { bits(if self.depth > 0 { 6 } else { 7 }) } }
    /// elements of a repeated field that is there at all
    fn some(&self) -> u64 { if self.wide() { choose(3) } else { 1 + (self.depth == 0) as u64 * self.reps } }
    fn bytes(&self) -> Vec<u8> { let n = if self.wide() { [0, 1, 3, 127, 128][choose(5) as usize] } else { 1 }; let mut v = Vec::new(); while v.len() < n { v.push(if v.len() < 4 { bits(7) as u8 } else { 65 }); } v }
    fn text(&self) -> String { match String::from_utf8(self.bytes()) { Ok(s) => s, Err(_) => String::new() } }
}
fn varint(o: &mut Vec<u8>, mut x: u64) { while x >= 128 { o.push(x as u8 | 128); x >>= 7; } o.push(x as u8); }
fn key(o: &mut Vec<u8>, field: u64, wire: u64) { varint(o, field << 3 | wire); }
fn blob(o: &mut Vec<u8>, field: u64, b: &[u8]) { key(o, field, 2); varint(o, b.len() as u64); o.extend_from_slice(b); }
fn fixed(o: &mut Vec<u8>, x: u64) { let mut i = 0; while i < 8 { o.push((x >> (8 * i)) as u8); i += 1; } }
fn zz64(x: i64) -> u64 { ((x << 1) ^ (x >> 63)) as u64 }
fn zz32(x: i32) -> u64 { ((x << 1) ^ (x >> 31)) as u32 as u64 }
fn eq(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut r = true; let mut i = 0; while i < a.len() { r &= a[i] == b[i]; i += 1; } r }
fn ok(c: bool) { check(c, 27, "a metadata field does not hold what was set"); }

pub fn mk_integer_statistics(g: &G, o: &mut Vec<u8>) -> pb::IntegerStatistics {
    let mut m = pb::IntegerStatistics::new();
    if g.on(0) {
        let x = g.n(64) as i64; key(o, 1, 0); varint(o, zz64(x)); m.set_minimum(x); ok(m.has_minimum() & (m.get_minimum() == x));
    } else { ok(!m.has_minimum() && m.get_minimum() == 0); }
    if g.on(1) {
        let x = g.n(64) as i64; key(o, 2, 0); varint(o, zz64(x)); m.set_maximum(x); ok(m.has_maximum() & (m.get_maximum() == x));
    } else { ok(!m.has_maximum() && m.get_maximum() == 0); }
    if g.on(2) {
        let x = g.n(64) as i64; key(o, 3, 0); varint(o, zz64(x)); m.set_sum(x); ok(m.has_sum() & (m.get_sum() == x));
    } else { ok(!m.has_sum() && m.get_sum() == 0); }
    m
}
pub fn mk_double_statistics(g: &G, o: &mut Vec<u8>) -> pb::DoubleStatistics {
    let mut m = pb::DoubleStatistics::new();
    if g.on(0) {
        let x = f64::from_bits(g.n(64)); key(o, 1, 1); fixed(o, x.to_bits()); m.set_minimum(x); ok(m.has_minimum()); ok(m.get_minimum().to_bits() == x.to_bits());
    } else { ok(!m.has_minimum() && m.get_minimum().to_bits() == 0); }
    if g.on(1) {
        let x = f64::from_bits(g.n(64)); key(o, 2, 1); fixed(o, x.to_bits()); m.set_maximum(x); ok(m.has_maximum()); ok(m.get_maximum().to_bits() == x.to_bits());
    } else { ok(!m.has_maximum() && m.get_maximum().to_bits() == 0); }
    if g.on(2) {
        let x = f64::from_bits(g.n(64)); key(o, 3, 1); fixed(o, x.to_bits()); m.set_sum(x); ok(m.has_sum()); ok(m.get_sum().to_bits() == x.to_bits());
    } else { ok(!m.has_sum() && m.get_sum().to_bits() == 0); }
    m
}
pub fn mk_string_statistics(g: &G, o: &mut Vec<u8>) -> pb::StringStatistics {
    let mut m = pb::StringStatistics::new();
    if g.on(0) {
        let x = g.text(); blob(o, 1, x.as_bytes()); m.set_minimum(x.clone()); ok(m.has_minimum()); ok(eq(m.get_minimum().as_bytes(), x.as_bytes()));
    } else { ok(!m.has_minimum() && m.get_minimum().is_empty()); }
    if g.on(1) {
        let x = g.text(); blob(o, 2, x.as_bytes()); m.set_maximum(x.clone()); ok(m.has_maximum()); ok(eq(m.get_maximum().as_bytes(), x.as_bytes()));
    } else { ok(!m.has_maximum() && m.get_maximum().is_empty()); }
    if g.on(2) {
        let x = g.n(64) as i64; key(o, 3, 0); varint(o, zz64(x)); m.set_sum(x); ok(m.has_sum() & (m.get_sum() == x));
    } else { ok(!m.has_sum() && m.get_sum() == 0); }
    m
}
pub fn mk_bucket_statistics(g: &G, o: &mut Vec<u8>) -> pb::BucketStatistics {
    let mut m = pb::BucketStatistics::new();
    if g.on(0) {
        let n = g.some(); let mut v: Vec<u64> = Vec::new(); let mut b = Vec::new(); while (v.len() as u64) < n { let x = g.n(if v.len() == 0 { 64 } else { 7 }) as u64; varint(&mut b, x as u64); v.push(x); }
        if n > 0 { blob(o, 1, &b); } m.set_count(v); ok(m.get_count().len() as u64 == n);
    } else { ok(m.get_count().is_empty()); }
    m
}
pub fn mk_decimal_statistics(g: &G, o: &mut Vec<u8>) -> pb::DecimalStatistics {
    let mut m = pb::DecimalStatistics::new();
    if g.on(0) {
        let x = g.text(); blob(o, 1, x.as_bytes()); m.set_minimum(x.clone()); ok(m.has_minimum()); ok(eq(m.get_minimum().as_bytes(), x.as_bytes()));
    } else { ok(!m.has_minimum() && m.get_minimum().is_empty()); }
    if g.on(1) {
        let x = g.text(); blob(o, 2, x.as_bytes()); m.set_maximum(x.clone()); ok(m.has_maximum()); ok(eq(m.get_maximum().as_bytes(), x.as_bytes()));
    } else { ok(!m.has_maximum() && m.get_maximum().is_empty()); }
    if g.on(2) {
        let x = g.text(); blob(o, 3, x.as_bytes()); m.set_sum(x.clone()); ok(m.has_sum()); ok(eq(m.get_sum().as_bytes(), x.as_bytes()));
    } else { ok(!m.has_sum() && m.get_sum().is_empty()); }
    m
}
pub fn mk_date_statistics(g: &G, o: &mut Vec<u8>) -> pb::DateStatistics {
    let mut m = pb::DateStatistics::new();
    if g.on(0) {
        let x = g.n(32) as i32; key(o, 1, 0); varint(o, zz32(x)); m.set_minimum(x); ok(m.has_minimum() & (m.get_minimum() == x));
    } else { ok(!m.has_minimum() && m.get_minimum() == 0); }
    if g.on(1) {
        let x = g.n(32) as i32; key(o, 2, 0); varint(o, zz32(x)); m.set_maximum(x); ok(m.has_maximum() & (m.get_maximum() == x));
    } else { ok(!m.has_maximum() && m.get_maximum() == 0); }
    m
}
pub fn mk_timestamp_statistics(g: &G, o: &mut Vec<u8>) -> pb::TimestampStatistics {
    let mut m = pb::TimestampStatistics::new();
    if g.on(0) {
        let x = g.n(64) as i64; key(o, 1, 0); varint(o, zz64(x)); m.set_minimum(x); ok(m.has_minimum() & (m.get_minimum() == x));
    } else { ok(!m.has_minimum() && m.get_minimum() == 0); }
    if g.on(1) {
        let x = g.n(64) as i64; key(o, 2, 0); varint(o, zz64(x)); m.set_maximum(x); ok(m.has_maximum() & (m.get_maximum() == x));
    } else { ok(!m.has_maximum() && m.get_maximum() == 0); }
    if g.on(2) {
        let x = g.n(64) as i64; key(o, 3, 0); varint(o, zz64(x)); m.set_minimumUtc(x); ok(m.has_minimumUtc() & (m.get_minimumUtc() == x));
    } else { ok(!m.has_minimumUtc() && m.get_minimumUtc() == 0); }
    if g.on(3) {
        let x = g.n(64) as i64; key(o, 4, 0); varint(o, zz64(x)); m.set_maximumUtc(x); ok(m.has_maximumUtc() & (m.get_maximumUtc() == x));
    } else { ok(!m.has_maximumUtc() && m.get_maximumUtc() == 0); }
    m
}
pub fn mk_binary_statistics(g: &G, o: &mut Vec<u8>) -> pb::BinaryStatistics {
    let mut m = pb::BinaryStatistics::new();
    if g.on(0) {
        let x = g.n(64) as i64; key(o, 1, 0); varint(o, zz64(x)); m.set_sum(x); ok(m.has_sum() & (m.get_sum() == x));
    } else { ok(!m.has_sum() && m.get_sum() == 0); }
    m
}
pub fn mk_column_statistics(g: &G, o: &mut Vec<u8>) -> pb::ColumnStatistics {
    let mut m = pb::ColumnStatistics::new();
    let h = G { mode: 1, depth: g.depth + 1, reps: g.reps };
    if g.on(0) {
        let x = g.n(64); key(o, 1, 0); varint(o, x); m.set_numberOfValues(x); ok(m.has_numberOfValues() & (m.get_numberOfValues() == x));
    } else { ok(!m.has_numberOfValues() && m.get_numberOfValues() == 0); }
    if g.on(1) {
        let mut b = Vec::new(); let x = mk_integer_statistics(&h, &mut b); blob(o, 2, &b); m.set_intStatistics(x); ok(m.has_intStatistics());
    } else { ok(!m.has_intStatistics()); }
    if g.on(2) {
        let mut b = Vec::new(); let x = mk_double_statistics(&h, &mut b); blob(o, 3, &b); m.set_doubleStatistics(x); ok(m.has_doubleStatistics());
    } else { ok(!m.has_doubleStatistics()); }
    if g.on(3) {
        let mut b = Vec::new(); let x = mk_string_statistics(&h, &mut b); blob(o, 4, &b); m.set_stringStatistics(x); ok(m.has_stringStatistics());
    } else { ok(!m.has_stringStatistics()); }
    if g.on(4) {
        let mut b = Vec::new(); let x = mk_bucket_statistics(&h, &mut b); blob(o, 5, &b); m.set_bucketStatistics(x); ok(m.has_bucketStatistics());
    } else { ok(!m.has_bucketStatistics()); }
    if g.on(5) {
        let mut b = Vec::new(); let x = mk_decimal_statistics(&h, &mut b); blob(o, 6, &b); m.set_decimalStatistics(x); ok(m.has_decimalStatistics());
    } else { ok(!m.has_decimalStatistics()); }
    if g.on(6) {
        let mut b = Vec::new(); let x = mk_date_statistics(&h, &mut b); blob(o, 7, &b); m.set_dateStatistics(x); ok(m.has_dateStatistics());
    } else { ok(!m.has_dateStatistics()); }
    if g.on(7) {
        let mut b = Vec::new(); let x = mk_binary_statistics(&h, &mut b); blob(o, 8, &b); m.set_binaryStatistics(x); ok(m.has_binaryStatistics());
    } else { ok(!m.has_binaryStatistics()); }
    if g.on(8) {
        let mut b = Vec::new(); let x = mk_timestamp_statistics(&h, &mut b); blob(o, 9, &b); m.set_timestampStatistics(x); ok(m.has_timestampStatistics());
    } else { ok(!m.has_timestampStatistics()); }
    if g.on(9) {
        let x = g.n(1) & 1 == 1; key(o, 10, 0); varint(o, x as u64); m.set_hasNull(x); ok(m.has_hasNull() & (m.get_hasNull() == x));
    } else { ok(!m.has_hasNull() && m.get_hasNull() == false); }
    if g.on(10) {
        let x = g.n(64); key(o, 11, 0); varint(o, x); m.set_bytesOnDisk(x); ok(m.has_bytesOnDisk() & (m.get_bytesOnDisk() == x));
    } else { ok(!m.has_bytesOnDisk() && m.get_bytesOnDisk() == 0); }
    m
}
pub fn mk_row_index_entry(g: &G, o: &mut Vec<u8>) -> pb::RowIndexEntry {
    let mut m = pb::RowIndexEntry::new();
    let h = G { mode: 1, depth: g.depth + 1, reps: g.reps };
    if g.on(0) {
        let n = g.some(); let mut v: Vec<u64> = Vec::new(); let mut b = Vec::new(); while (v.len() as u64) < n { let x = g.n(if v.len() == 0 { 64 } else { 7 }) as u64; varint(&mut b, x as u64); v.push(x); }
        if n > 0 { blob(o, 1, &b); } m.set_positions(v); ok(m.get_positions().len() as u64 == n);
    } else { ok(m.get_positions().is_empty()); }
    if g.on(1) {
        let mut b = Vec::new(); let x = mk_column_statistics(&h, &mut b); blob(o, 2, &b); m.set_statistics(x); ok(m.has_statistics());
    } else { ok(!m.has_statistics()); }
    m
}
pub fn mk_row_index(g: &G, o: &mut Vec<u8>) -> pb::RowIndex {
    let mut m = pb::RowIndex::new();
    let h = G { mode: 1, depth: g.depth + 1, reps: g.reps };
    if g.on(0) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let mut b = Vec::new(); let x = mk_row_index_entry(&h, &mut b); blob(o, 1, &b); v.push(x); } m.set_entry(RepeatedField::from_vec(v)); ok(m.get_entry().len() as u64 == n);
    } else { ok(m.get_entry().is_empty()); }
    m
}
pub fn mk_bloom_filter(g: &G, o: &mut Vec<u8>) -> pb::BloomFilter {
    let mut m = pb::BloomFilter::new();
    if g.on(0) {
        let x = g.n(32) as u32; key(o, 1, 0); varint(o, x as u64); m.set_numHashFunctions(x); ok(m.has_numHashFunctions() & (m.get_numHashFunctions() == x));
    } else { ok(!m.has_numHashFunctions() && m.get_numHashFunctions() == 0); }
    if g.on(1) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let x = g.n(64); key(o, 2, 1); fixed(o, x); v.push(x); } m.set_bitset(v); ok(m.get_bitset().len() as u64 == n);
    } else { ok(m.get_bitset().is_empty()); }
    if g.on(2) {
        let x = g.bytes(); blob(o, 3, &x); m.set_utf8bitset(x.clone()); ok(m.has_utf8bitset()); ok(eq(m.get_utf8bitset(), &x));
    } else { ok(!m.has_utf8bitset() && m.get_utf8bitset().is_empty()); }
    m
}
pub fn mk_bloom_filter_index(g: &G, o: &mut Vec<u8>) -> pb::BloomFilterIndex {
    let mut m = pb::BloomFilterIndex::new();
    let h = G { mode: 1, depth: g.depth + 1, reps: g.reps };
    if g.on(0) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let mut b = Vec::new(); let x = mk_bloom_filter(&h, &mut b); blob(o, 1, &b); v.push(x); } m.set_bloomFilter(RepeatedField::from_vec(v)); ok(m.get_bloomFilter().len() as u64 == n);
    } else { ok(m.get_bloomFilter().is_empty()); }
    m
}
pub fn mk_stream(g: &G, o: &mut Vec<u8>) -> pb::Stream {
    let mut m = pb::Stream::new();
    if g.on(0) {
        let k = if g.depth > 0 { 8 } else { choose(9) }; let all = [pb::Stream_Kind::PRESENT, pb::Stream_Kind::DATA, pb::Stream_Kind::LENGTH, pb::Stream_Kind::DICTIONARY_DATA, pb::Stream_Kind::DICTIONARY_COUNT, pb::Stream_Kind::SECONDARY, pb::Stream_Kind::ROW_INDEX, pb::Stream_Kind::BLOOM_FILTER, pb::Stream_Kind::BLOOM_FILTER_UTF8]; let x = all[k as usize]; key(o, 1, 0); varint(o, k); m.set_kind(x); ok(m.has_kind() && m.get_kind() == x && x.value() == k as i32 && pb::Stream_Kind::from_i32(k as i32) == Some(x));
        ok(pb::Stream_Kind::from_i32(9).is_none() && pb::Stream_Kind::values().len() == 9);
    } else { ok(!m.has_kind() && m.get_kind().value() == 0); }
    if g.on(1) {
        let x = g.n(32) as u32; key(o, 2, 0); varint(o, x as u64); m.set_column(x); ok(m.has_column() & (m.get_column() == x));
    } else { ok(!m.has_column() && m.get_column() == 0); }
    if g.on(2) {
        let x = g.n(64); key(o, 3, 0); varint(o, x); m.set_length(x); ok(m.has_length() & (m.get_length() == x));
    } else { ok(!m.has_length() && m.get_length() == 0); }
    m
}
pub fn mk_column_encoding(g: &G, o: &mut Vec<u8>) -> pb::ColumnEncoding {
    let mut m = pb::ColumnEncoding::new();
    if g.on(0) {
        let k = if g.depth > 0 { 3 } else { choose(4) }; let all = [pb::ColumnEncoding_Kind::DIRECT, pb::ColumnEncoding_Kind::DICTIONARY, pb::ColumnEncoding_Kind::DIRECT_V2, pb::ColumnEncoding_Kind::DICTIONARY_V2]; let x = all[k as usize]; key(o, 1, 0); varint(o, k); m.set_kind(x); ok(m.has_kind() && m.get_kind() == x && x.value() == k as i32 && pb::ColumnEncoding_Kind::from_i32(k as i32) == Some(x));
        ok(pb::ColumnEncoding_Kind::from_i32(4).is_none() && pb::ColumnEncoding_Kind::values().len() == 4);
    } else { ok(!m.has_kind() && m.get_kind().value() == 0); }
    if g.on(1) {
        let x = g.n(32) as u32; key(o, 2, 0); varint(o, x as u64); m.set_dictionarySize(x); ok(m.has_dictionarySize() & (m.get_dictionarySize() == x));
    } else { ok(!m.has_dictionarySize() && m.get_dictionarySize() == 0); }
    if g.on(2) {
        let x = g.n(32) as u32; key(o, 3, 0); varint(o, x as u64); m.set_bloomEncoding(x); ok(m.has_bloomEncoding() & (m.get_bloomEncoding() == x));
    } else { ok(!m.has_bloomEncoding() && m.get_bloomEncoding() == 0); }
    m
}
pub fn mk_stripe_footer(g: &G, o: &mut Vec<u8>) -> pb::StripeFooter {
    let mut m = pb::StripeFooter::new();
    let h = G { mode: 1, depth: g.depth + 1, reps: g.reps };
    if g.on(0) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let mut b = Vec::new(); let x = mk_stream(&h, &mut b); blob(o, 1, &b); v.push(x); } m.set_streams(RepeatedField::from_vec(v)); ok(m.get_streams().len() as u64 == n);
    } else { ok(m.get_streams().is_empty()); }
    if g.on(1) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let mut b = Vec::new(); let x = mk_column_encoding(&h, &mut b); blob(o, 2, &b); v.push(x); } m.set_columns(RepeatedField::from_vec(v)); ok(m.get_columns().len() as u64 == n);
    } else { ok(m.get_columns().is_empty()); }
    if g.on(2) {
        let x = g.text(); blob(o, 3, x.as_bytes()); m.set_writerTimezone(x.clone()); ok(m.has_writerTimezone()); ok(eq(m.get_writerTimezone().as_bytes(), x.as_bytes()));
    } else { ok(!m.has_writerTimezone() && m.get_writerTimezone().is_empty()); }
    m
}
pub fn mk_type(g: &G, o: &mut Vec<u8>) -> pb::Type {
    let mut m = pb::Type::new();
    if g.on(0) {
        let k = if g.depth > 0 { 17 } else { choose(18) }; let all = [pb::Type_Kind::BOOLEAN, pb::Type_Kind::BYTE, pb::Type_Kind::SHORT, pb::Type_Kind::INT, pb::Type_Kind::LONG, pb::Type_Kind::FLOAT, pb::Type_Kind::DOUBLE, pb::Type_Kind::STRING, pb::Type_Kind::BINARY, pb::Type_Kind::TIMESTAMP, pb::Type_Kind::LIST, pb::Type_Kind::MAP, pb::Type_Kind::STRUCT, pb::Type_Kind::UNION, pb::Type_Kind::DECIMAL, pb::Type_Kind::DATE, pb::Type_Kind::VARCHAR, pb::Type_Kind::CHAR]; let x = all[k as usize]; key(o, 1, 0); varint(o, k); m.set_kind(x); ok(m.has_kind() && m.get_kind() == x && x.value() == k as i32 && pb::Type_Kind::from_i32(k as i32) == Some(x));
        ok(pb::Type_Kind::from_i32(18).is_none() && pb::Type_Kind::values().len() == 18);
    } else { ok(!m.has_kind() && m.get_kind().value() == 0); }
    if g.on(1) {
        let n = g.some(); let mut v: Vec<u32> = Vec::new(); let mut b = Vec::new(); while (v.len() as u64) < n { let x = g.n(if v.len() == 0 { 32 } else { 7 }) as u32; varint(&mut b, x as u64); v.push(x); }
        if n > 0 { blob(o, 2, &b); } m.set_subtypes(v); ok(m.get_subtypes().len() as u64 == n);
    } else { ok(m.get_subtypes().is_empty()); }
    if g.on(2) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let x = g.text(); blob(o, 3, x.as_bytes()); v.push(x); } m.set_fieldNames(RepeatedField::from_vec(v)); ok(m.get_fieldNames().len() as u64 == n);
    } else { ok(m.get_fieldNames().is_empty()); }
    if g.on(3) {
        let x = g.n(32) as u32; key(o, 4, 0); varint(o, x as u64); m.set_maximumLength(x); ok(m.has_maximumLength() & (m.get_maximumLength() == x));
    } else { ok(!m.has_maximumLength() && m.get_maximumLength() == 0); }
    if g.on(4) {
        let x = g.n(32) as u32; key(o, 5, 0); varint(o, x as u64); m.set_precision(x); ok(m.has_precision() & (m.get_precision() == x));
    } else { ok(!m.has_precision() && m.get_precision() == 0); }
    if g.on(5) {
        let x = g.n(32) as u32; key(o, 6, 0); varint(o, x as u64); m.set_scale(x); ok(m.has_scale() & (m.get_scale() == x));
    } else { ok(!m.has_scale() && m.get_scale() == 0); }
    m
}
pub fn mk_stripe_information(g: &G, o: &mut Vec<u8>) -> pb::StripeInformation {
    let mut m = pb::StripeInformation::new();
    if g.on(0) {
        let x = g.n(64); key(o, 1, 0); varint(o, x); m.set_offset(x); ok(m.has_offset() & (m.get_offset() == x));
    } else { ok(!m.has_offset() && m.get_offset() == 0); }
    if g.on(1) {
        let x = g.n(64); key(o, 2, 0); varint(o, x); m.set_indexLength(x); ok(m.has_indexLength() & (m.get_indexLength() == x));
    } else { ok(!m.has_indexLength() && m.get_indexLength() == 0); }
    if g.on(2) {
        let x = g.n(64); key(o, 3, 0); varint(o, x); m.set_dataLength(x); ok(m.has_dataLength() & (m.get_dataLength() == x));
    } else { ok(!m.has_dataLength() && m.get_dataLength() == 0); }
    if g.on(3) {
        let x = g.n(64); key(o, 4, 0); varint(o, x); m.set_footerLength(x); ok(m.has_footerLength() & (m.get_footerLength() == x));
    } else { ok(!m.has_footerLength() && m.get_footerLength() == 0); }
    if g.on(4) {
        let x = g.n(64); key(o, 5, 0); varint(o, x); m.set_numberOfRows(x); ok(m.has_numberOfRows() & (m.get_numberOfRows() == x));
    } else { ok(!m.has_numberOfRows() && m.get_numberOfRows() == 0); }
    m
}
pub fn mk_user_metadata_item(g: &G, o: &mut Vec<u8>) -> pb::UserMetadataItem {
    let mut m = pb::UserMetadataItem::new();
    if g.on(0) {
        let x = g.text(); blob(o, 1, x.as_bytes()); m.set_name(x.clone()); ok(m.has_name()); ok(eq(m.get_name().as_bytes(), x.as_bytes()));
    } else { ok(!m.has_name() && m.get_name().is_empty()); }
    if g.on(1) {
        let x = g.bytes(); blob(o, 2, &x); m.set_value(x.clone()); ok(m.has_value()); ok(eq(m.get_value(), &x));
    } else { ok(!m.has_value() && m.get_value().is_empty()); }
    m
}
pub fn mk_stripe_statistics(g: &G, o: &mut Vec<u8>) -> pb::StripeStatistics {
    let mut m = pb::StripeStatistics::new();
    let h = G { mode: 1, depth: g.depth + 1, reps: g.reps };
    if g.on(0) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let mut b = Vec::new(); let x = mk_column_statistics(&h, &mut b); blob(o, 1, &b); v.push(x); } m.set_colStats(RepeatedField::from_vec(v)); ok(m.get_colStats().len() as u64 == n);
    } else { ok(m.get_colStats().is_empty()); }
    m
}
pub fn mk_metadata(g: &G, o: &mut Vec<u8>) -> pb::Metadata {
    let mut m = pb::Metadata::new();
    let h = G { mode: 1, depth: g.depth + 1, reps: g.reps };
    if g.on(0) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let mut b = Vec::new(); let x = mk_stripe_statistics(&h, &mut b); blob(o, 1, &b); v.push(x); } m.set_stripeStats(RepeatedField::from_vec(v)); ok(m.get_stripeStats().len() as u64 == n);
    } else { ok(m.get_stripeStats().is_empty()); }
    m
}
pub fn mk_footer(g: &G, o: &mut Vec<u8>) -> pb::Footer {
    let mut m = pb::Footer::new();
    let h = G { mode: 1, depth: g.depth + 1, reps: g.reps };
    if g.on(0) {
        let x = g.n(64); key(o, 1, 0); varint(o, x); m.set_headerLength(x); ok(m.has_headerLength() & (m.get_headerLength() == x));
    } else { ok(!m.has_headerLength() && m.get_headerLength() == 0); }
    if g.on(1) {
        let x = g.n(64); key(o, 2, 0); varint(o, x); m.set_contentLength(x); ok(m.has_contentLength() & (m.get_contentLength() == x));
    } else { ok(!m.has_contentLength() && m.get_contentLength() == 0); }
    if g.on(2) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let mut b = Vec::new(); let x = mk_stripe_information(&h, &mut b); blob(o, 3, &b); v.push(x); } m.set_stripes(RepeatedField::from_vec(v)); ok(m.get_stripes().len() as u64 == n);
    } else { ok(m.get_stripes().is_empty()); }
    if g.on(3) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let mut b = Vec::new(); let x = mk_type(&h, &mut b); blob(o, 4, &b); v.push(x); } m.set_types(RepeatedField::from_vec(v)); ok(m.get_types().len() as u64 == n);
    } else { ok(m.get_types().is_empty()); }
    if g.on(4) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let mut b = Vec::new(); let x = mk_user_metadata_item(&h, &mut b); blob(o, 5, &b); v.push(x); } m.set_metadata(RepeatedField::from_vec(v)); ok(m.get_metadata().len() as u64 == n);
    } else { ok(m.get_metadata().is_empty()); }
    if g.on(5) {
        let x = g.n(64); key(o, 6, 0); varint(o, x); m.set_numberOfRows(x); ok(m.has_numberOfRows() & (m.get_numberOfRows() == x));
    } else { ok(!m.has_numberOfRows() && m.get_numberOfRows() == 0); }
    if g.on(6) {
        let n = g.some(); let mut v = Vec::new(); while (v.len() as u64) < n { let mut b = Vec::new(); let x = mk_column_statistics(&h, &mut b); blob(o, 7, &b); v.push(x); } m.set_statistics(RepeatedField::from_vec(v)); ok(m.get_statistics().len() as u64 == n);
    } else { ok(m.get_statistics().is_empty()); }
    if g.on(7) {
        let x = g.n(32) as u32; key(o, 8, 0); varint(o, x as u64); m.set_rowIndexStride(x); ok(m.has_rowIndexStride() & (m.get_rowIndexStride() == x));
    } else { ok(!m.has_rowIndexStride() && m.get_rowIndexStride() == 0); }
    if g.on(8) {
        let x = g.n(32) as u32; key(o, 9, 0); varint(o, x as u64); m.set_writer(x); ok(m.has_writer() & (m.get_writer() == x));
    } else { ok(!m.has_writer() && m.get_writer() == 0); }
    m
}
pub fn mk_post_script(g: &G, o: &mut Vec<u8>) -> pb::PostScript {
    let mut m = pb::PostScript::new();
    if g.on(0) {
        let x = g.n(64); key(o, 1, 0); varint(o, x); m.set_footerLength(x); ok(m.has_footerLength() & (m.get_footerLength() == x));
    } else { ok(!m.has_footerLength() && m.get_footerLength() == 0); }
    if g.on(1) {
        let k = if g.depth > 0 { 5 } else { choose(6) }; let all = [pb::CompressionKind::NONE, pb::CompressionKind::ZLIB, pb::CompressionKind::SNAPPY, pb::CompressionKind::LZO, pb::CompressionKind::LZ4, pb::CompressionKind::ZSTD]; let x = all[k as usize]; key(o, 2, 0); varint(o, k); m.set_compression(x); ok(m.has_compression() && m.get_compression() == x && x.value() == k as i32 && pb::CompressionKind::from_i32(k as i32) == Some(x));
        ok(pb::CompressionKind::from_i32(6).is_none() && pb::CompressionKind::values().len() == 6);
    } else { ok(!m.has_compression() && m.get_compression().value() == 0); }
    if g.on(2) {
        let x = g.n(64); key(o, 3, 0); varint(o, x); m.set_compressionBlockSize(x); ok(m.has_compressionBlockSize() & (m.get_compressionBlockSize() == x));
    } else { ok(!m.has_compressionBlockSize() && m.get_compressionBlockSize() == 0); }
    if g.on(3) {
        let n = g.some(); let mut v: Vec<u32> = Vec::new(); let mut b = Vec::new(); while (v.len() as u64) < n { let x = g.n(if v.len() == 0 { 32 } else { 7 }) as u32; varint(&mut b, x as u64); v.push(x); }
        if n > 0 { blob(o, 4, &b); } m.set_version(v); ok(m.get_version().len() as u64 == n);
    } else { ok(m.get_version().is_empty()); }
    if g.on(4) {
        let x = g.n(64); key(o, 5, 0); varint(o, x); m.set_metadataLength(x); ok(m.has_metadataLength() & (m.get_metadataLength() == x));
    } else { ok(!m.has_metadataLength() && m.get_metadataLength() == 0); }
    if g.on(5) {
        let x = g.n(32) as u32; key(o, 6, 0); varint(o, x as u64); m.set_writerVersion(x); ok(m.has_writerVersion() & (m.get_writerVersion() == x));
    } else { ok(!m.has_writerVersion() && m.get_writerVersion() == 0); }
    if g.on(6) {
        let x = g.text(); blob(o, 8000, x.as_bytes()); m.set_magic(x.clone()); ok(m.has_magic()); ok(eq(m.get_magic().as_bytes(), x.as_bytes()));
    } else { ok(!m.has_magic() && m.get_magic().is_empty()); }
    m
}
pub fn mk_file_tail(g: &G, o: &mut Vec<u8>) -> pb::FileTail {
    let mut m = pb::FileTail::new();
    let h = G { mode: 1, depth: g.depth + 1, reps: g.reps };
    if g.on(0) {
        let mut b = Vec::new(); let x = mk_post_script(&h, &mut b); blob(o, 1, &b); m.set_postscript(x); ok(m.has_postscript());
    } else { ok(!m.has_postscript()); }
    if g.on(1) {
        let mut b = Vec::new(); let x = mk_footer(&h, &mut b); blob(o, 2, &b); m.set_footer(x); ok(m.has_footer());
    } else { ok(!m.has_footer()); }
    if g.on(2) {
        let x = g.n(64); key(o, 3, 0); varint(o, x); m.set_fileLength(x); ok(m.has_fileLength() & (m.get_fileLength() == x));
    } else { ok(!m.has_fileLength() && m.get_fileLength() == 0); }
    if g.on(3) {
        let x = g.n(64); key(o, 4, 0); varint(o, x); m.set_postscriptLength(x); ok(m.has_postscriptLength() & (m.get_postscriptLength() == x));
    } else { ok(!m.has_postscriptLength() && m.get_postscriptLength() == 0); }
    m
}

fn decide<M: Message + Clone>(m: M, flat: bool, want: &[u8], clear: fn(&mut M), take: fn(&mut M)) {
    check(m.compute_size() as usize == want.len(), 27, "the computed size of a metadata message is not its size");
    let b = match m.write_to_bytes() { Ok(b) => b, Err(_) => { check(false, 27, "a metadata message cannot be written"); return; } };
    check(eq(&b, want), 27, "a metadata message is not written as the schema prescribes");
    let mut p = match M::parse_from_bytes(want) { Ok(p) => p, Err(_) => { check(false, 27, "a metadata message cannot be read back"); return; } };
    match p.write_to_bytes() { Ok(c) => check(eq(&c, want), 27, "a metadata message reads back differently"), Err(_) => check(false, 27, "a metadata message cannot be written") }
    // concatenated encodings merge, and clearing every field leaves nothing
    clear(&mut p);
    match p.write_to_bytes() { Ok(c) => check(c.is_empty(), 27, "a cleared metadata message is not empty"), Err(_) => check(false, 27, "a metadata message cannot be written") }
    let mut q = M::new();
    match q.merge_from_bytes(want) { Ok(()) => {} Err(_) => check(false, 27, "a metadata message cannot be read back") }
    take(&mut q);
    check(q.compute_size() == 0, 27, "a metadata message is not empty although everything was taken out");
    // what comes twice: the later one counts
    if flat {
        let mut w = want.to_vec(); w.extend_from_slice(want);
        match M::parse_from_bytes(&w) { Ok(u) => match u.clone().write_to_bytes() { Ok(c) => check(eq(&c, want), 27, "a metadata message written twice reads back as something else"), Err(_) => check(false, 27, "a metadata message cannot be written") }, Err(_) => check(false, 27, "a metadata message cannot be read back") }
    }
    check(m.is_initialized(), 27, "a metadata message lacks something required");
    // a field this schema does not know yet changes nothing in the others and is kept
    let mut w = want.to_vec(); key(&mut w, 9000, 0); varint(&mut w, 5);
    match M::parse_from_bytes(&w) {
        Ok(u) => match u.write_to_bytes() { Ok(c) => check(eq(&c, &w), 27, "a metadata message with an unknown field reads back differently"), Err(_) => check(false, 27, "a metadata message cannot be written") },
        Err(_) => check(false, 27, "a metadata message with an unknown field cannot be read back"),
    }
    // reading an incomplete message ends, one way or the other
    let n = concrete(choose(want.len() as u64 + 1)) as usize;
    let _ = M::parse_from_bytes(&want[..n]).is_ok();
    let _ = q.merge_from_bytes(want);
    q.clear();
    check(q.compute_size() == 0, 27, "a cleared metadata message is not empty");
    cover(1);
}
/// param 0: which message
#[no_mangle] pub extern "C-unwind" fn proto() {
    let fields = [3, 3, 3, 1, 3, 2, 4, 1, 11, 2, 1, 3, 1, 3, 3, 3, 6, 5, 2, 1, 1, 9, 7, 4];
    let k = param(0) as usize;
    let g = G { mode: choose(2 + 2 * fields[k]), depth: 0, reps: param(1) };
    let mut b = Vec::new(); let o = &mut b;
    match k {
        0 => { let m = mk_integer_statistics(&g, o); decide(m, true, o, |m| { m.clear_minimum(); m.clear_maximum(); m.clear_sum(); }, |m| { m.clear_minimum(); m.clear_maximum(); m.clear_sum(); }); }
        1 => { let m = mk_double_statistics(&g, o); decide(m, true, o, |m| { m.clear_minimum(); m.clear_maximum(); m.clear_sum(); }, |m| { m.clear_minimum(); m.clear_maximum(); m.clear_sum(); }); }
        2 => { let m = mk_string_statistics(&g, o); decide(m, true, o, |m| { m.clear_minimum(); m.clear_maximum(); m.clear_sum(); }, |m| { m.take_minimum(); m.take_maximum(); m.clear_sum(); }); }
        3 => { let m = mk_bucket_statistics(&g, o); decide(m, false, o, |m| { m.clear_count(); }, |m| { m.take_count(); }); }
        4 => { let m = mk_decimal_statistics(&g, o); decide(m, true, o, |m| { m.clear_minimum(); m.clear_maximum(); m.clear_sum(); }, |m| { m.take_minimum(); m.take_maximum(); m.take_sum(); }); }
        5 => { let m = mk_date_statistics(&g, o); decide(m, true, o, |m| { m.clear_minimum(); m.clear_maximum(); }, |m| { m.clear_minimum(); m.clear_maximum(); }); }
        6 => { let m = mk_timestamp_statistics(&g, o); decide(m, true, o, |m| { m.clear_minimum(); m.clear_maximum(); m.clear_minimumUtc(); m.clear_maximumUtc(); }, |m| { m.clear_minimum(); m.clear_maximum(); m.clear_minimumUtc(); m.clear_maximumUtc(); }); }
        7 => { let m = mk_binary_statistics(&g, o); decide(m, true, o, |m| { m.clear_sum(); }, |m| { m.clear_sum(); }); }
        8 => { let m = mk_column_statistics(&g, o); decide(m, false, o, |m| { m.clear_numberOfValues(); m.clear_intStatistics(); m.clear_doubleStatistics(); m.clear_stringStatistics(); m.clear_bucketStatistics(); m.clear_decimalStatistics(); m.clear_dateStatistics(); m.clear_binaryStatistics(); m.clear_timestampStatistics(); m.clear_hasNull(); m.clear_bytesOnDisk(); }, |m| { m.clear_numberOfValues(); m.take_intStatistics(); m.take_doubleStatistics(); m.take_stringStatistics(); m.take_bucketStatistics(); m.take_decimalStatistics(); m.take_dateStatistics(); m.take_binaryStatistics(); m.take_timestampStatistics(); m.clear_hasNull(); m.clear_bytesOnDisk(); }); }
        9 => { let m = mk_row_index_entry(&g, o); decide(m, false, o, |m| { m.clear_positions(); m.clear_statistics(); }, |m| { m.take_positions(); m.take_statistics(); }); }
        10 => { let m = mk_row_index(&g, o); decide(m, false, o, |m| { m.clear_entry(); }, |m| { m.take_entry(); }); }
        11 => { let m = mk_bloom_filter(&g, o); decide(m, false, o, |m| { m.clear_numHashFunctions(); m.clear_bitset(); m.clear_utf8bitset(); }, |m| { m.clear_numHashFunctions(); m.take_bitset(); m.take_utf8bitset(); }); }
        12 => { let m = mk_bloom_filter_index(&g, o); decide(m, false, o, |m| { m.clear_bloomFilter(); }, |m| { m.take_bloomFilter(); }); }
        13 => { let m = mk_stream(&g, o); decide(m, true, o, |m| { m.clear_kind(); m.clear_column(); m.clear_length(); }, |m| { m.clear_kind(); m.clear_column(); m.clear_length(); }); }
        14 => { let m = mk_column_encoding(&g, o); decide(m, true, o, |m| { m.clear_kind(); m.clear_dictionarySize(); m.clear_bloomEncoding(); }, |m| { m.clear_kind(); m.clear_dictionarySize(); m.clear_bloomEncoding(); }); }
        15 => { let m = mk_stripe_footer(&g, o); decide(m, false, o, |m| { m.clear_streams(); m.clear_columns(); m.clear_writerTimezone(); }, |m| { m.take_streams(); m.take_columns(); m.take_writerTimezone(); }); }
        16 => { let m = mk_type(&g, o); decide(m, false, o, |m| { m.clear_kind(); m.clear_subtypes(); m.clear_fieldNames(); m.clear_maximumLength(); m.clear_precision(); m.clear_scale(); }, |m| { m.clear_kind(); m.take_subtypes(); m.take_fieldNames(); m.clear_maximumLength(); m.clear_precision(); m.clear_scale(); }); }
        17 => { let m = mk_stripe_information(&g, o); decide(m, true, o, |m| { m.clear_offset(); m.clear_indexLength(); m.clear_dataLength(); m.clear_footerLength(); m.clear_numberOfRows(); }, |m| { m.clear_offset(); m.clear_indexLength(); m.clear_dataLength(); m.clear_footerLength(); m.clear_numberOfRows(); }); }
        18 => { let m = mk_user_metadata_item(&g, o); decide(m, true, o, |m| { m.clear_name(); m.clear_value(); }, |m| { m.take_name(); m.take_value(); }); }
        19 => { let m = mk_stripe_statistics(&g, o); decide(m, false, o, |m| { m.clear_colStats(); }, |m| { m.take_colStats(); }); }
        20 => { let m = mk_metadata(&g, o); decide(m, false, o, |m| { m.clear_stripeStats(); }, |m| { m.take_stripeStats(); }); }
        21 => { let m = mk_footer(&g, o); decide(m, false, o, |m| { m.clear_headerLength(); m.clear_contentLength(); m.clear_stripes(); m.clear_types(); m.clear_metadata(); m.clear_numberOfRows(); m.clear_statistics(); m.clear_rowIndexStride(); m.clear_writer(); }, |m| { m.clear_headerLength(); m.clear_contentLength(); m.take_stripes(); m.take_types(); m.take_metadata(); m.clear_numberOfRows(); m.take_statistics(); m.clear_rowIndexStride(); m.clear_writer(); }); }
        22 => { let m = mk_post_script(&g, o); decide(m, false, o, |m| { m.clear_footerLength(); m.clear_compression(); m.clear_compressionBlockSize(); m.clear_version(); m.clear_metadataLength(); m.clear_writerVersion(); m.clear_magic(); }, |m| { m.clear_footerLength(); m.clear_compression(); m.clear_compressionBlockSize(); m.take_version(); m.clear_metadataLength(); m.clear_writerVersion(); m.take_magic(); }); }
        23 => { let m = mk_file_tail(&g, o); decide(m, false, o, |m| { m.clear_postscript(); m.clear_footer(); m.clear_fileLength(); m.clear_postscriptLength(); }, |m| { m.take_postscript(); m.take_footer(); m.clear_fileLength(); m.clear_postscriptLength(); }); }
        _ => {}
    }
}
