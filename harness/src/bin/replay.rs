//! replay PROP ENTRY PARAMS INPUTS: runs a harness entry natively on recorded inputs.
//! Exit 1 and "REPRODUCED ..." when a check fails or an unexpected panic occurs, 0 when nothing fails, 3 when the run leaves the recorded path.
use std::sync::Mutex;
struct St { inputs: Vec<u64>, next: usize, params: Vec<u64>, prop: u32, expect: bool, failed: Vec<(u32, String)>, known: Vec<u32>, trace: bool, assumed: bool, missing: bool }
static ST: Mutex<Option<St>> = Mutex::new(None);
fn st<T>(f: impl FnOnce(&mut St) -> T) -> T { let mut g = match ST.lock() { Ok(g) => g, Err(e) => e.into_inner() }; f(g.as_mut().unwrap()) }
struct Stop;
fn input() -> u64 { let x = st(|s| { if s.next < s.inputs.len() { s.next += 1; Some(s.inputs[s.next - 1]) } else { s.missing = true; None } }); match x { Some(x) => x, None => std::panic::panic_any(Stop) } }
#[no_mangle] pub extern "C-unwind" fn sym_bits(n: u32) -> u64 { let x = input(); if n >= 64 { x } else { x & ((1 << n) - 1) } }
#[no_mangle] pub extern "C-unwind" fn sym_choose(n: u64) -> u64 { let x = input(); if x >= n { st(|s| s.missing = true); std::panic::panic_any(Stop) } x }
#[no_mangle] pub extern "C-unwind" fn sym_concrete(x: u64) -> u64 { x }
#[no_mangle] pub extern "C-unwind" fn sym_assume(c: bool) { if !c { st(|s| s.assumed = true); std::panic::panic_any(Stop) } }
#[no_mangle] pub unsafe extern "C-unwind" fn sym_check(c: bool, p: u32, m: *const u8, n: usize) { if !c { let t = String::from_utf8_lossy(std::slice::from_raw_parts(m, n)).into_owned(); st(|s| if p == 0 || s.prop == 0 || p == s.prop { s.failed.push((p, t)) }) } }
#[no_mangle] pub extern "C-unwind" fn sym_known(c: bool, id: u32) { if c { st(|s| s.known.push(id)) } }
#[no_mangle] pub extern "C-unwind" fn sym_cover(_: u32) {}
#[no_mangle] pub extern "C-unwind" fn sym_expect_panic(c: bool) { st(|s| s.expect = c) }
#[no_mangle] pub extern "C-unwind" fn sym_expect_refusal(c: bool) { st(|s| s.expect = c) }
#[no_mangle] pub extern "C-unwind" fn sym_param(i: u64) -> u64 { st(|s| if i == 1000 { 0 } else if i == 1001 { s.prop as u64 } else { s.params.get(i as usize).copied().unwrap_or(0) }) }
#[no_mangle] pub unsafe extern "C-unwind" fn sym_trace(m: *const u8, n: usize, v: u64) { if st(|s| s.trace) { eprintln!("trace: {} = {}", String::from_utf8_lossy(std::slice::from_raw_parts(m, n)), v) } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let nums = |s: &str| -> Vec<u64> { s.split(|c| c == ',' || c == ' ').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse::<i128>().expect("number") as u64).collect() };
    *ST.lock().unwrap() = Some(St { prop: a[1].parse().unwrap(), params: nums(&a[3]), inputs: nums(&a[4]), next: 0, expect: false, failed: vec![], known: vec![], trace: std::env::var("TRACE").is_ok(), assumed: false, missing: false });
    let f: fn() = match a[2].as_str() { "run" => || harness::run(), "order" => || harness::order(), "sink" => || harness::sink(), "counts" => || harness::counts(), "config" => || harness::config(), "limits" => || harness::limits(), "variants" => || harness::variants(), "tags" => || harness::tags(), "lengths" => || harness::lengths(), "proto" => || harness::protos::proto(), x => { eprintln!("unknown entry {}", x); std::process::exit(64) } };
    let msg = std::sync::Arc::new(Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| { if let Ok(mut m) = m2.lock() { *m = format!("{}", i).replace('\n', " "); } }));
    let r = std::panic::catch_unwind(f);
    let (expect, assumed, missing, failed, known) = st(|s| (s.expect, s.assumed, s.missing, std::mem::take(&mut s.failed), std::mem::take(&mut s.known)));
    for k in known { println!("KNOWN {}", k); }
    let mut bad = false;
    for (p, t) in &failed { println!("REPRODUCED check property {}: {}", p, t); bad = true; }
    match r {
        Err(e) if e.is::<Stop>() => { if !bad { println!("{}", if assumed { "inputs violate an assumption" } else if missing { "the run leaves the recorded path" } else { "stopped" }); std::process::exit(3) } }
        Err(_) if expect => println!("panic, as expected: {}", msg.lock().unwrap()),
        Err(_) => { println!("REPRODUCED panic: {}", msg.lock().unwrap()); bad = true; }
        Ok(()) => if !bad { println!("nothing fails") },
    }
    std::process::exit(bad as i32);
}
