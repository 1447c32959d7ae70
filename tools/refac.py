#!/usr/bin/env python3
"""behaviour-preserving edits: applies each to a copy of the sources and runs the checks on it"""
import sys, os, shutil, subprocess, glob
HERE = os.path.dirname(os.path.abspath(__file__)); R = []
for f in sorted(glob.glob(HERE + '/refac/*.py')):
    g = {}; exec(open(f).read(), g); R += g['R']
harness = '--harness' in sys.argv; pats = [a for a in sys.argv[1:] if not a.startswith('-')]
for id, props, file, subs in R:
    if pats and not any(p in id for p in pats): continue
    d = '/tmp/refac_' + id; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copytree('/repo/lube', d + '/lube')
    p = d + '/lube/' + file; s = open(p).read()
    for a, b in subs:
        if a not in s: print(id, 'DOES NOT APPLY', repr(a[:60])); break
        s = s.replace(a, b, 1)
    else:
        open(p, 'w').write(s)
        for pr in props:
            r = subprocess.run(['python3-vt', HERE + '/../check.py', pr] + ([] if harness else ['--noharness']), capture_output=True, text=True, env=dict(os.environ, LUBE_REPO=d))
            l = [x[:230] for x in r.stdout.split('\n') if x.startswith(('FAILED', 'UNDEC', 'UNKNOWN', 'PROOF', 'BOUND', 'VIOL'))]
            print(id, pr, 'ALARM' if r.returncode else 'quiet', (r.stdout + r.stderr).strip().split('\n')[-1][:120], flush=True)
            for x in l[:6]: print('    ', x)
    shutil.rmtree(d)
