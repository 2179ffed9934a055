//! Interface to the symbolic executor; the replay binary defines the same functions natively.
extern "C-unwind" {
    fn sym_bits(n: u32) -> u64;
    fn sym_choose(n: u64) -> u64;
    fn sym_concrete(x: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, prop: u32, msg: *const u8, len: usize);
    fn sym_known(c: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_expect_panic(c: bool);
    fn sym_expect_refusal(c: bool);
    fn sym_param(i: u64) -> u64;
    fn sym_trace(msg: *const u8, len: usize, v: u64);
}
/// fresh symbolic value of n bits
#[inline] pub fn bits(n: u32) -> u64 { unsafe { sym_bits(n) } }
/// fresh value in 0..n, every value on its own path
#[inline] pub fn choose(n: u64) -> u64 { if n <= 1 { 0 } else { unsafe { sym_choose(n) } } }
#[inline] pub fn concrete(x: u64) -> u64 { unsafe { sym_concrete(x) } }
#[inline] pub fn assume(c: bool) { unsafe { sym_assume(c) } }
#[inline] pub fn check(c: bool, prop: u32, msg: &str) { unsafe { sym_check(c, prop, msg.as_ptr(), msg.len()) } }
#[inline] pub fn known(c: bool, id: u32) { unsafe { sym_known(c, id) } }
#[inline] pub fn cover(id: u32) { unsafe { sym_cover(id) } }
#[inline] pub fn expect_panic(c: bool) { unsafe { sym_expect_panic(c) } }
/// as expect_panic, but a panic that only overflow checks raise does not count
#[inline] pub fn expect_refusal(c: bool) { unsafe { sym_expect_refusal(c) } }
#[inline] pub fn param(i: u64) -> u64 { unsafe { sym_param(i) } }
#[inline] pub fn prop() -> u32 { param(1001) as u32 }
#[inline] pub fn want(p: u32) -> bool { let q = prop(); q == 0 || q == p }
#[inline] pub fn trace(msg: &str, v: u64) { unsafe { sym_trace(msg.as_ptr(), msg.len(), v) } }
