//! symex IR-FILE JOBS-FILE OUT.json [--prop N] [--thorough] [--workers N] [--time SECONDS] [--trace] [--stop-at N] [--inputs a,b,c]
//! Symbolic execution of `entry(params)` for each job line "entry p0 p1 ..." of the jobs file.
extern crate zstd_sys;
mod exec; mod ir; mod solver; mod term;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32; fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn _exit(c: i32) -> !; fn alarm(s: u32) -> u32; fn signal(n: i32, h: usize) -> usize; }
extern "C" fn on_alarm(_: i32) { solver::interrupt(); unsafe { alarm(2); } }

struct Shared { active: AtomicI64, started: AtomicI64, ended: AtomicI64, viols: AtomicI64, errs: AtomicI64 }

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

/// one worker's results as lines "key\tfields"
fn dump(ex: &Ex) -> String {
    let r = &ex.r; let s = &ex.s.stats; let mut o = String::new();
    let mut n = |k: &str, v: u64| o.push_str(&format!("n\t{}\t{}\n", k, v));
    n("paths_done", r.paths_done); n("paths_assumed", r.paths_assumed); n("paths_panic_expected", r.paths_panic_ok); n("forks", r.forks); n("instructions", r.instrs); n("checks", r.checks); n("checks_constant", r.checks_const); n("check_queries", r.check_queries);
    n("unknown", r.unknown); n("killed", r.killed); n("merged", r.merged);
    n("queries", s.queries); n("sat", s.sat); n("unsat", s.unsat); n("solver_unknown", s.unknown); n("cached", s.cached); n("cored", s.cored); n("solver_us", s.time_us); n("workers", 1);
    o.push_str(&format!("x\tsolver_max_us\t{}\nx\tpath_instructions_max\t{}\n", s.max_us, r.steps_max));
    for j in &r.killed_jobs { o.push_str(&format!("k\t{}\n", j)); }
    for f in &r.funcs { o.push_str(&format!("f\t{}\n", ex.m.funcs[*f as usize].name)); }
    for ((j, c), k) in &r.covers { o.push_str(&format!("c\t{}\t{}\t{}\n", j, c, k)); }
    for (j, k) in &r.job_paths { o.push_str(&format!("j\t{}\t{}\n", j, k)); }
    for (j, e) in &r.errors { o.push_str(&format!("e\t{}\t{}\n", j, e.replace(['\n', '\t'], " "))); }
    for (j, i) in &r.samples { o.push_str(&format!("s\t{}\t{}\n", j, i.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))); }
    for v in &r.violations { o.push_str(&format!("v\t{}\t{}\t{}\t{}\t{}\t{}\n", v.job, v.kind, v.prop, v.known as u8, v.msg.replace(['\n', '\t'], " "), v.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))); }
    o
}

fn explore(ex: &mut Ex, sh: &Shared, max: i64, dir: &str, root: bool) {
    loop {
        let mut st = match ex.work.pop() { Some(s) => s, None => break };
        if sh.viols.load(SeqCst) >= ex.stop_at_violations as i64 || sh.errs.load(SeqCst) >= 20 { ex.kill(st.job); break; }
        let nv = ex.r.violations.iter().filter(|v| !v.known).count();
        let end = ex.run(&mut st);
        ex.r.steps_max = ex.r.steps_max.max(st.steps);
        match end {
            End::Done => {
                ex.r.paths_done += 1; *ex.r.job_paths.entry(st.job).or_default() += 1;
                for &c in st.covers.iter() { *ex.r.covers.entry((st.job, c)).or_default() += 1; }
                let k = ex.r.job_paths[&st.job];
                if k == 1 || (k.is_power_of_two() && ex.r.samples.len() < 400) { let i = st.inputs.iter().map(|&t| ex.d.eval(t, &st.model)).collect(); ex.r.samples.push((st.job, i)); }
            }
            End::Assumed => ex.r.paths_assumed += 1,
            End::PanicOk => { ex.r.paths_panic_ok += 1; *ex.r.job_paths.entry(st.job).or_default() += 1; for &c in st.covers.iter() { *ex.r.covers.entry((st.job, c)).or_default() += 1; } }
            End::Panic(what) => { let m = st.model.clone(); ex.violation(&st, &m, "panic", what, 0, false); }
            End::Err(e) => { let i: Vec<String> = st.inputs.iter().map(|&t| ex.d.eval(t, &st.model).to_string()).collect(); let tr: Vec<String> = st.frames.iter().rev().take(6).map(|f| format!("{}:{}", f.f.name, f.f.blocks[f.block as usize].name)).collect(); ex.r.errors.push((st.job, format!("{} [{}] at {}", e, i.join(","), tr.join(" < ")))); sh.errs.fetch_add(1, SeqCst); }
            End::Stop => { ex.kill(st.job); break; }
        }
        let nv2 = ex.r.violations.iter().filter(|v| !v.known).count();
        if nv2 > nv { sh.viols.fetch_add((nv2 - nv) as i64, SeqCst); }
        // hand half of the pending states to a forked worker when one is idle
        while ex.work.len() >= 2 && sh.active.load(SeqCst) < max {
            if sh.active.fetch_add(1, SeqCst) >= max { sh.active.fetch_sub(1, SeqCst); break; }
            let id = sh.started.fetch_add(1, SeqCst);
            match unsafe { fork() } {
                0 => {
                    unsafe { alarm(ex.deadline.map_or(0, |d| d.saturating_duration_since(std::time::Instant::now()).as_secs() as u32 + 3)); }
                    let w = std::mem::take(&mut ex.work);
                    ex.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, s)| s).collect();
                    ex.r = Results { ..Default::default() }; ex.s.stats = Default::default();
                    explore(ex, sh, max, dir, false);
                    let ok = std::fs::write(format!("{}/w-{}", dir, id), dump(ex)).is_ok();
                    if ok { sh.ended.fetch_add(1, SeqCst); }
                    sh.active.fetch_sub(1, SeqCst);
                    unsafe { _exit(if ok { 0 } else { 3 }) }
                }
                p if p < 0 => { sh.active.fetch_sub(1, SeqCst); sh.started.fetch_sub(1, SeqCst); break; }
                _ => { let w = std::mem::take(&mut ex.work); ex.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|(_, s)| s).collect(); }
            }
        }
    }
    let _ = root;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { eprintln!("usage: symex IR JOBS OUT [--prop N] [--thorough] [--workers N] [--time S] [--trace] [--stop-at N]"); std::process::exit(64); }
    let mut prop = 0u32; let mut thorough = false; let mut workers = 8i64; let mut time = 600u64; let mut trace = false; let mut stop = 4usize; let mut prof = false;
    let mut i = 4;
    while i < a.len() { match a[i].as_str() { "--prop" => { i += 1; prop = a[i].parse().unwrap() } "--thorough" => thorough = true, "--workers" => { i += 1; workers = a[i].parse().unwrap() } "--time" => { i += 1; time = a[i].parse().unwrap() } "--trace" => trace = true, "--prof" => prof = true, "--stop-at" => { i += 1; stop = a[i].parse().unwrap() } x => { eprintln!("unknown option {}", x); std::process::exit(64) } } i += 1; }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&a[1]).unwrap_or_else(|e| { eprintln!("IR parse error: {}", e); std::process::exit(65) });
    let jobs: Vec<Job> = std::fs::read_to_string(&a[2]).expect("jobs file").lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')).map(|l| { let mut w = l.split_whitespace(); Job { entry: w.next().unwrap().into(), params: w.by_ref().take_while(|x| *x != "=").map(|x| x.parse::<i64>().expect("job param") as u64).collect(), inputs: if l.contains(" =") { Some(l.split(" =").nth(1).unwrap().split_whitespace().map(|x| x.parse::<u128>().expect("input")).collect()) } else { None } } }).collect();
    let njobs = jobs.len();
    let mut ex = Ex::new(m, jobs, prop, thorough).unwrap_or_else(|e| { eprintln!("{}", e); std::process::exit(65) });
    ex.trace = trace; ex.stop_at_violations = stop;
    ex.deadline = Some(t0 + std::time::Duration::from_secs(time));
    ex.start().unwrap_or_else(|e| { eprintln!("{}", e); std::process::exit(65) });
    let load_s = t0.elapsed().as_secs_f64();
    let dir = format!("{}.parts-{}", a[3], std::process::id());
    let _ = std::fs::remove_dir_all(&dir); std::fs::create_dir_all(&dir).expect("parts dir");
    let sh: &Shared = unsafe { let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0); assert!(p as isize != -1); &*(p as *const Shared) };
    sh.active.store(1, SeqCst);
    unsafe { prctl(36, 1, 0, 0, 0); }
    unsafe { signal(14, on_alarm as usize); alarm(time as u32 + 3); }
    explore(&mut ex, sh, workers, &dir, true);
    sh.active.fetch_sub(1, SeqCst);
    let mut crashed = 0u64;
    loop { let mut s = 0; let p = unsafe { waitpid(-1, &mut s, 0) }; if p < 0 { break; } if s != 0 { crashed += 1; } }
    let lost = sh.started.load(SeqCst) - sh.ended.load(SeqCst);
    if prof { let mut v: Vec<(u64, &str)> = ex.prof.iter().zip(&ex.m.funcs).map(|(c, f)| (*c, f.name.as_str())).collect(); v.sort_by(|a, b| b.cmp(a)); for (c, n) in v.iter().take(40) { eprintln!("{:>12} {}", c, n); } }
    // merge
    let mut parts = vec![dump(&ex)];
    let mut ents: Vec<_> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).collect(); ents.sort();
    for p in ents { parts.push(std::fs::read_to_string(&p).unwrap_or_default()); let _ = std::fs::remove_file(&p); }
    let _ = std::fs::remove_dir(&dir);
    let mut nums: BTreeMap<String, u64> = BTreeMap::new(); let mut funcs: BTreeSet<String> = BTreeSet::new(); let mut cov: BTreeMap<(u64, u64), u64> = BTreeMap::new(); let mut jp: BTreeMap<u64, u64> = BTreeMap::new();
    let mut killed: BTreeSet<u64> = BTreeSet::new(); let mut errs: Vec<String> = vec![]; let mut viols: Vec<String> = vec![]; let mut seen: BTreeSet<String> = BTreeSet::new(); let mut samples: Vec<String> = vec![];
    for p in &parts { for l in p.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "n" => *nums.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
            "x" => { let e = nums.entry(f[1].into()).or_default(); *e = (*e).max(f[2].parse().unwrap()); }
            "f" => { funcs.insert(f[1].into()); }
            "c" => *cov.entry((f[1].parse().unwrap(), f[2].parse().unwrap())).or_default() += f[3].parse::<u64>().unwrap(),
            "j" => *jp.entry(f[1].parse().unwrap()).or_default() += f[2].parse::<u64>().unwrap(),
            "k" => { killed.insert(f[1].parse().unwrap()); }
            "e" => errs.push(format!("{{\"job\":{},\"error\":{}}}", f[1], esc(f[2]))),
            "s" => samples.push(format!("{{\"job\":{},\"inputs\":[{}]}}", f[1], f[2])),
            "v" => if seen.insert(format!("{}|{}|{}|{}", f[1], f[2], f[4], f[5])) { viols.push(format!("{{\"job\":{},\"kind\":{},\"prop\":{},\"known\":{},\"msg\":{},\"inputs\":[{}]}}", f[1], esc(f[2]), f[3], if f[4] == "1" { "true" } else { "false" }, esc(f[5]), f[6].split(',').filter(|x| !x.is_empty()).map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))); },
            _ => {}
        }
    } }
    let mut o = String::from("{\n");
    for (k, v) in &nums { o.push_str(&format!("\"{}\":{},\n", k, v)); }
    o.push_str(&format!("\"crashed_workers\":{},\n\"lost_workers\":{},\n\"wall_s\":{:.3},\n\"load_s\":{:.3},\n\"z3\":{},\n", crashed, lost, t0.elapsed().as_secs_f64(), load_s, esc(&solver::z3_version())));
    o.push_str(&format!("\"jobs\":[{}],\n", (0..njobs).map(|j| format!("{{\"entry\":{},\"params\":{:?},\"paths\":{},\"covers\":{{{}}}}}", esc(&ex.jobs[j].entry), ex.jobs[j].params.iter().map(|&x| x as i64).collect::<Vec<_>>(), jp.get(&(j as u64)).copied().unwrap_or(0), cov.iter().filter(|((a, _), _)| *a == j as u64).map(|((_, c), k)| format!("\"{}\":{}", c, k)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n")));
    o.push_str(&format!("\"killed_jobs\":{:?},\n", killed.iter().collect::<Vec<_>>()));
    o.push_str(&format!("\"functions\":[{}],\n", funcs.iter().map(|f| esc(f)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"errors\":[{}],\n\"violations\":[{}],\n\"samples\":[{}]\n}}\n", errs.join(",\n"), viols.join(",\n"), samples.join(",\n")));
    std::fs::File::create(&a[3]).and_then(|mut f| f.write_all(o.as_bytes())).expect("write output");
}
