#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OFF = set()   # properties not claimed
NOTE = "Every path of harness + orc-format (LLVM IR of the current tree) within the bounds listed in the evidence is explored symbolically and every assertion decided by Z3 for all inputs of the path; counterexamples are reported only after they fail natively. Bounded: inputs, lengths, schemas and configurations outside checks/jobs.py are not covered. Trusted: rustc's IR, the engine's semantics (validated by native re-runs of sampled paths), Z3, the harness's ORC reader; Zstd's C code is not encoded."
def main():
    props = [json.loads(l) for l in open(f'{ROOT}/properties.jsonl')]
    m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py',
         'checks': [{'property': p['id'], 'quick_cmd': f"python3 checks/check.py {p['id']} quick", 'thorough_cmd': f"python3 checks/check.py {p['id']} thorough", 'evidence_file': f"evidence/{p['id']}.json",
                     'technique': 'symbolic execution of the LLVM IR of the real code, SMT (Z3) verdicts, native replay of counterexamples', 'level': 'model_checking', 'level_note': NOTE} for p in props if p['id'] not in OFF],
         'not_applicable': []}
    json.dump(m, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1); open(f'{ROOT}/MANIFEST.json', 'a').write('\n')
main()
