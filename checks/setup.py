#!/usr/bin/env python3
"""builds the engine and, once, everything the harness depends on (every check builds again what depends on /repo)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C, threading
def main():
    os.makedirs(C.BUILD, exist_ok=True); errs = []
    def g(f):
        try: f()
        except Exception as e: errs.append(str(e))
    t = [threading.Thread(target=g, args=(f,)) for f in (C.build_engine, C.emit_ir, lambda: C.build_replay('dev'))]
    for x in t: x.start()
    for x in t: x.join()
    for e in errs: print(e)
    sys.exit(1 if errs else 0)
main()
