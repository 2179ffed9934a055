#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property of /repo's current tree by symbolic execution of its code.

 1. builds the engine (engine/), re-emits the LLVM IR of harness + orc-format + everything below from /repo's working tree,
    and builds the native replay program from the same tree;
 2. runs every job of checks/jobs.py for the property through the engine (solver verdicts over all inputs within the job's bounds);
 3. replays every counterexample natively: exit 1 and a VIOLATION line only for what the real code reproduces;
 4. replays samples of explored paths natively and requires the same outcome; writes evidence/<property>.json.
Exit 0 held, 1 violation, 2 no answer."""
import sys, os, json, subprocess, time, threading, shutil, signal, re, random, glob
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import jobs as J
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=os.environ.get('RUSTUP_TOOLCHAIN', 'stable-x86_64-unknown-linux-gnu'), CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'): ENV.pop(k, None)
ENGINE = f'{ROOT}/engine/target/release/symex'
HT = f'{ROOT}/harness/target'
BUILD = f'{ROOT}/build'

class Fail(Exception): pass

def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); raise Fail(f'{" ".join(cmd)}: no end within {timeout} s')
    return p.returncode, out

def cargo(args, cwd, timeout=600):
    rc, out = sh(['cargo'] + args, cwd, timeout)
    if rc: raise Fail('cargo ' + ' '.join(args) + f' failed in {cwd}\n' + '\n'.join(out.splitlines()[-40:]))
    return out

def build_engine(): cargo(['build', '--release', '--offline', '-q'], f'{ROOT}/engine')
def stale(profile):
    """forget what was built from /repo and from the harness, so that both are compiled again from the current files"""
    d = 'debug' if profile == 'dev' else profile
    for pat in ('orc-format-*', 'harness-*'):
        for p in glob.glob(f'{HT}/{d}/.fingerprint/{pat}'): shutil.rmtree(p, ignore_errors=True)
def emit_ir():
    stale('release')
    for p in glob.glob(f'{HT}/release/deps/harness-*.ll'): os.remove(p)
    cargo(['rustc', '--release', '--offline', '-q', '--lib', '--crate-type', 'staticlib', '--target-dir', HT, '--', '--emit=llvm-ir'], f'{ROOT}/harness')
    l = glob.glob(f'{HT}/release/deps/harness-*.ll')
    if len(l) != 1: raise Fail(f'{len(l)} IR files instead of one')
    return l[0]
# the replay builds live in their own target directory: cargo locks a target directory while it builds
def build_replay(profile):
    t = f'{BUILD}/replay-target'; d = 'debug' if profile == 'dev' else profile
    for pat in ('orc-format-*', 'harness-*'):
        for p in glob.glob(f'{t}/{d}/.fingerprint/{pat}'): shutil.rmtree(p, ignore_errors=True)
    cargo(['build', '--offline', '-q', '--profile', profile, '--bin', 'replay', '--target-dir', t], f'{ROOT}/harness')
    return f'{t}/{d}/replay'

def replay(binary, prop, entry, params, inputs, timeout=60):
    """(exit code or 'hang'/'crash', output) of the real code on these inputs"""
    cmd = ['bash', '-c', 'ulimit -v 8000000; exec "$@"', 'x', binary, str(prop), entry, ','.join(map(str, params)) or '-', ','.join(map(str, inputs)) or '-']
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True, cwd='/tmp')
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.communicate(); return 'hang', 'no end within %d s' % timeout
    return ('crash' if p.returncode < 0 or p.returncode in (101, 134) else p.returncode), out

def run_engine(ir, jl, prop, thorough, seconds, tag):
    jf, of = f'{BUILD}/{prop}-{tag}.jobs', f'{BUILD}/{prop}-{tag}.json'
    open(jf, 'w').write(''.join(j.line() + '\n' for j in jl))
    if os.path.exists(of): os.remove(of)
    for d in glob.glob(of + '.parts-*'): shutil.rmtree(d, ignore_errors=True)
    rc, out = sh([ENGINE, ir, jf, of, '--prop', str(int(prop[1:])), '--time', str(int(seconds)), '--workers', str(os.cpu_count() or 8)] + (['--thorough'] if thorough else []), ROOT, seconds + 60)
    if rc or not os.path.exists(of): raise Fail(f'the engine ended with {rc}: ' + '\n'.join(out.splitlines()[-20:]))
    return json.load(open(of))

def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True) if shutil.which('c++filt') else None
    l = r.stdout.split('\n') if r and r.returncode == 0 else names
    out = set()
    for n in l:
        m = re.search(r'orc_format(?:\[[0-9a-f]+\])?::', n)
        n = re.sub(r'\[[0-9a-f]{8,}\]', '', n)
        if m: out.add(n)
    return sorted(out)

def known_findings():
    out = {}
    for l in open(f'{HERE}/known-findings.txt'):
        m = re.match(r'known: property=(C\d+) id=(\d+) (.*)', l)
        if m: out[(m[1], int(m[2]))] = m[3].strip()
    return out

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    thorough = tier == 'thorough'; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pnum = int(prop[1:])
    os.makedirs(BUILD, exist_ok=True); os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    ev_path = f'{ROOT}/evidence/{prop}.json'
    if os.path.exists(ev_path): os.remove(ev_path)
    res, errs = {}, []
    def par(name, f):
        def g():
            try: res[name] = f()
            except Fail as e: errs.append(str(e))
            except Exception as e: errs.append(f'{name}: {e!r}')
        t = threading.Thread(target=g); t.start(); return t
    ts = [par('engine', build_engine), par('ir', emit_ir), par('dev', lambda: build_replay('dev'))]
    for t in ts: t.join()
    if errs: raise Fail('\n'.join(errs))
    build_s = time.time() - T0
    jl = J.jobs(prop, tier)
    budget = (2400 if thorough else 780)  # seconds from the start of the check
    left = lambda: budget - (time.time() - T0)
    main_s = max(60, (left() * 0.8 if not thorough else left() - 60))
    o = run_engine(res['ir'], jl, prop, thorough, main_s, tier)
    runs = [o]
    undecided = set(o['killed_jobs']) | {e['job'] for e in o['errors']}
    lost = bool(o['crashed_workers'] or o['lost_workers'])
    if lost: undecided = set(range(len(jl)))
    viols = [v for v in o['violations']]
    if not [v for v in viols if not v['known']] and undecided and left() > 40:
        # decide what is left one job at a time
        for j in sorted(undecided):
            if left() < 40: break
            p = run_engine(res['ir'], [jl[j]], prop, thorough, max(20, min(left() - 20, 120)), tier + '-again')
            runs.append(p)
            for v in p['violations']: viols.append(dict(v, job=j))
            if not (p['killed_jobs'] or p['errors'] or p['crashed_workers'] or p['lost_workers']): undecided.discard(j); o['jobs'][j] = dict(p['jobs'][0])
            if [v for v in viols if not v['known']]: break
    # ---- counterexamples against the real code
    real, bogus, known_seen = [], [], {}
    bins = {'dev': res['dev']}
    def binary(p):
        if p not in bins: bins[p] = build_replay(p)
        return bins[p]
    n_known_replayed = 0
    for v in viols:
        entry, params = jl[v['job']].entry, jl[v['job']].p
        if v['known']:
            kid = int(v['msg'])
            if kid in known_seen: continue
            rc, out = replay(bins['dev'], pnum, entry, params, v['inputs'])
            if f'KNOWN {kid}' in out: known_seen[kid] = (v, out); n_known_replayed += 1
            else: bogus.append((v, rc, out))
            continue
        if len(real) >= 3: continue
        ok = None
        for prof in ('dev', 'replay'):
            rc, out = replay(binary(prof), pnum, entry, params, v['inputs'])
            if rc in (1, 'hang', 'crash'): ok = (prof, rc, out); break
        if ok: real.append((v, ok))
        elif v['msg'].startswith('overflow in place of a refusal'): print(f"note: {jl[v['job']].name}: what an overflow check stops is refused without it as well ({v['msg'][:160]})")
        else: bogus.append((v, rc, out))
    kf = known_findings(); unlisted_known = [k for k in known_seen if (prop, k) not in kf]
    for k in unlisted_known: v, out = known_seen[k]; real.append((v, ('dev', 1, out)))
    # ---- sampled paths against the real code
    rnd = random.Random(seed); samples = [s for s in o['samples']]; rnd.shuffle(samples)
    byjob = {}
    for s in samples: byjob.setdefault(s['job'], []).append(s)
    pick = []
    while len(pick) < (400 if thorough else 120) and any(byjob.values()):
        for j in sorted(byjob):
            if byjob[j]: pick.append(byjob[j].pop())
    agreed, disagree = 0, []
    if not real:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for s, (rc, out) in zip(pick, ex.map(lambda s: replay(bins['dev'], pnum, jl[s['job']].entry, jl[s['job']].p, s['inputs']), pick)):
                if rc == 0: agreed += 1
                elif rc == 1 and 'REPRODUCED' in out: real.append((dict(job=s['job'], kind='replay', msg='the engine found nothing on this path', inputs=s['inputs'], known=False, prop=pnum), ('dev', rc, out)))
                else: disagree.append((s, rc, out[-300:]))
    # ---- report
    vac = [i for i, j in enumerate(o['jobs']) if i not in undecided and (j['paths'] == 0)]
    tot = lambda k: sum(r.get(k, 0) for r in runs)
    funcs = demangle(sorted({f for r in runs for f in r['functions']}))
    cov = {
        'states': tot('paths_done') + tot('paths_panic_expected') + tot('paths_assumed'),
        'transitions': tot('instructions'),
        'traces_validated_against_impl': agreed + n_known_replayed + sum(1 for _ in real),
        'meaning': 'states: ends of symbolic paths, each standing for all inputs that follow it; transitions: IR instructions executed symbolically; traces: solver models of explored paths re-run natively with the same outcome',
        'samples': [{'job': jl[s['job']].name, 'inputs': s['inputs'][:60]} for s in pick[:12]],
        'functions_encoded': funcs, 'functions_encoded_total': len({f for r in runs for f in r['functions']}),
        'bounds': [{'job': j.name, 'paths': o['jobs'][i]['paths'], 'decided': i not in undecided, 'cover': o['jobs'][i]['covers']} for i, j in enumerate(jl)],
        'bounds_legend': 'DESIGN.md, "Jobs and bounds": rows = batch sizes, tail = which symbolic values, null = null pattern, aux = lengths/tags/windows, prefix = concrete values before the symbolic ones, comp/block/limit/stride = configuration',
        'assertions_evaluated': tot('checks'), 'assertions_decided_by_simplification': tot('checks_constant'), 'assertions_decided_by_solver': tot('check_queries'),
        'solver': o['z3'], 'queries': tot('queries'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'cached': tot('cached') + tot('cored'), 'unknown': tot('unknown'), 'solver_s': round(tot('solver_us') / 1e6, 3), 'solver_max_s': max(r['solver_max_us'] for r in runs) / 1e6,
        'forks': tot('forks'), 'merges': tot('merged'), 'jobs': len(jl), 'jobs_undecided': [jl[j].name for j in sorted(undecided)],
        'engine_errors': [e['error'][:200] for r in runs for e in r['errors']][:10], 'replay_disagreements': [d[2] for d in disagree][:5], 'counterexamples_not_reproduced': [b[0]['msg'] + ': ' + b[2][-200:] for b in bogus][:5],
        'known_findings_seen': sorted(known_seen), 'build_s': round(build_s, 1), 'engine_wall_s': round(sum(r['wall_s'] for r in runs), 2),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['LLVM IR emitted by rustc (opt-level 1, overflow checks on) means what the engine gives it; z3 answers correctly', 'zstd (C code) is run concretely on concrete bytes and otherwise stands in as an uninterpreted, invertible frame', 'inputs outside the listed jobs are not covered'],
          'wall_s': round(time.time() - T0, 1), 'violations': len(real)}
    json.dump(ev, open(ev_path, 'w'), indent=1)
    for k in sorted(known_seen):
        if (prop, k) in kf: print(f'KNOWN-FINDING: property={prop} {kf[(prop, k)]}')
    if real:
        for i, (v, (prof, rc, out)) in enumerate(real[:3]):
            path = f'{BUILD}/replay-{prop}-{i}.sh'
            entry, params = jl[v['job']].entry, jl[v['job']].p
            open(path, 'w').write('#!/bin/sh\n# %s\n# job: %s\n# %s: %s\n# natively (%s profile): %s\ncd %s/harness && exec cargo run --offline -q --profile %s --bin replay --target-dir %s/replay-target -- %d %s %s %s\n' % (prop, jl[v['job']].name, v['kind'], v['msg'], prof, ' | '.join(out.strip().splitlines()[:4]) or rc, ROOT, prof, BUILD, pnum, entry, ','.join(map(str, params)) or '-', ','.join(map(str, v['inputs'])) or '-'))
            os.chmod(path, 0o755)
            print(f'{prop}: {v["kind"]}: {v["msg"]} [job: {jl[v["job"]].name}] natively: {(out.strip().splitlines() or [str(rc)])[0][:300]}')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    for j in sorted(undecided): print(f'{prop}: UNDECIDED within the time limit or not encodable: job {jl[j].name}')
    for e in cov['engine_errors'][:5]: print(f'{prop}: engine: {e}')
    if bogus: print(f'{prop}: a counterexample is not reproduced by the real code: ' + cov['counterexamples_not_reproduced'][0]); return 2
    if disagree: print(f'{prop}: engine and real code disagree on a sampled path: {disagree[0][1]} {disagree[0][2]}'); return 2
    if vac: print(f'{prop}: jobs without a single finished path: ' + ', '.join(jl[i].name for i in vac)); return 2
    if len(undecided) * 2 > len(jl): print(f'{prop}: most jobs are undecided'); return 2
    print(f'{prop}: held on {len(jl) - len(undecided)} of {len(jl)} jobs, {cov["states"]} paths, {cov["queries"]} queries, {agreed} traces validated, {ev["wall_s"]} s')
    return 0

if __name__ == '__main__':
    try: rc = main()
    except Fail as e: print('no answer: ' + str(e)); rc = 2
    sys.exit(rc)
