#!/usr/bin/env python3-vt
"""replay.py PROPERTY HARNESS INPUTFILE: rebuild the harness natively against /repo's
current tree and run it on the recorded counterexample (exit 1 if it still violates)."""
import os, sys, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vfe import driver as D
import suites

prop, h, inp = sys.argv[1:4]
P = suites.PROPS[prop]
os.makedirs(HERE + '/.work', exist_ok=True)
work = tempfile.mkdtemp(prefix='replay-', dir=HERE + '/.work')
rc = 2
try:
    if P.get('prepare'):
        P['prepare'](work)
    for u in P.get('units', []):
        n = D.harness_names(u)
        if h in n:
            r, out = D.replay(D.build_native(work, u, n, san=u.get('san', False)), h, inp)
            print(r)
            print(out)
            rc = 0 if r == 'ok' else 1
    if P.get('cbmc'):
        from vfe import cbmcdrv
        for u in P['cbmc']:
            if h in cbmcdrv.harness_names(u):
                r, out = cbmcdrv.replay(work, u, h, inp)
                print(r)
                print(out)
                rc = 0 if r == 'ok' else 1
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(rc)
