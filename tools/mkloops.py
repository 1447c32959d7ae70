#!/usr/bin/env python3-vt
"""writes contracts/loops.json: the loops met while checking every contract against the unchanged tree"""
import sys, os, json, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.setrecursionlimit(20000)
os.environ['NOLOOPBASE'] = '1'
import check
from irv import contract
L = check.load(); d = tempfile.mkdtemp()
import time
res = check.prove(L, d, range(len(L.CHECKS)), time.time() + 7200, 10000, {}, None)
shutil.rmtree(d)
out = {}
for i, r in res.items():
    c = L.CHECKS[i]
    if isinstance(c, contract.Lemma): continue
    k = contract.conkey(c)
    for x in r.get('loopinfo', []):
        x = [x[0], x[2], x[3], x[4]]
        if x not in out.setdefault(k, []): out[k].append(x)
    out.setdefault(k, [])
json.dump({k: sorted(v) for k, v in sorted(out.items()) if v}, open(H + '/contracts/loops.json', 'w'), indent=0)
print(len(out))
