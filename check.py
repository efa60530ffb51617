#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--thorough]: decide one property on /repo's current tree."""
import sys, os
H=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(H,'gluv')); sys.path.insert(0,os.path.join(H,'props'))
os.environ.setdefault('OMP_NUM_THREADS','2'); os.environ.setdefault('OPENBLAS_NUM_THREADS','1')
sys.dont_write_bytecode=True
import importlib, traceback
def main():
    pid=sys.argv[1]
    if pid=='--setup':
        import z3, spec, build; build.module('Matrix_Ops/U_Nops.c','nc3'); print('setup ok'); return
    from spec import Check
    ck=Check(pid,sys.argv)
    try:
        m=importlib.import_module(pid)
        m.run(ck)
    except Exception as e:
        traceback.print_exc()
        ck.ob('verifier',False,None,'verifier error: %r'%(e,))
    sys.exit(ck.finish())
if __name__=='__main__': main()
