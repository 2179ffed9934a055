#!/usr/bin/env python3
"""development aid: time every job of a property alone.  sweep.py PROP quick|thorough [TIME] [substring]"""
import sys, json, subprocess, os
sys.path.insert(0, os.path.dirname(__file__))
import jobs
def main():
    p, tier = sys.argv[1], sys.argv[2]; t = sys.argv[3] if len(sys.argv) > 3 else '60'
    pat = sys.argv[4] if len(sys.argv) > 4 else ''
    here = os.path.dirname(os.path.abspath(__file__)); eng = os.environ.get('ENG', here + '/../engine/target/release/symex')
    ir = os.environ.get('IR', '/tmp/h.ll'); tot = 0
    for j in jobs.jobs(p, tier):
        if pat not in j.name: continue
        jf = f'/tmp/sw-{os.getpid()}'; out = jf + '.json'
        open(jf, 'w').write(j.line() + '\n')
        subprocess.run([eng, ir, jf, out, '--prop', str(int(p[1:])), '--time', t] + (['--thorough'] if tier == 'thorough' else []))
        o = json.load(open(out)); tot += o['wall_s']
        print(f"{p} {j.name:44s} {o['wall_s']:7.1f}s paths {o['paths_done']}+{o['paths_panic_expected']}p killed {o['killed']} unk {o['unknown']} chk {o['checks']}/{o['check_queries']} q {o['queries']} cov {list(o['jobs'][0]['covers'])} viol {[(v['kind'],v['msg'],v['known']) for v in o['violations']][:3]} err {[e['error'][:150] for e in o['errors']][:2]}", flush=True)
    print('total', round(tot, 1))
    os.system(f'rm -f {jf} {out}')
main()
