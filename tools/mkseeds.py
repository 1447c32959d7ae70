#!/usr/bin/env python3
"""Writes seeded/<id>/ from the list in tools/seeds/*.py; a planted bug changes original lines only."""
import os, subprocess, json, tempfile, shutil, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
def seed(id, prop, file, edits, demo, needs, breaks, pre=''):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks, pre=pre))
DEMO_SH = '''#!/bin/bash
# builds demo.cpp against the library in /repo/_build and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
cd "$T" || exit 3
g++ -std=gnu++17 -O0 -g -w -I/repo -o demo "$D/demo.cpp" -L/repo/_build/lube -lube -Wl,-rpath,/repo/_build/lube || { find "$T" -delete; exit 3; }
timeout 60 ./demo
r=$?
cd /
find "$T" -delete
exit $r
'''
HEAD = '''#include <lube/lube.h>
#include <lube/config.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
using namespace libube;
static int bad = 0;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\\n", #x); bad = 1; } } while (0)
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
'''
def main():
    for f in sorted(glob.glob(HERE + '/tools/seeds/*.py')): exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
    base = subprocess.run('git log --format=%H | tail -1', shell=True, cwd='/repo', capture_output=True, text=True).stdout.strip()
    only = sys.argv[1:]
    for s in SEEDS:
        if only and s['id'] not in only: continue
        d = HERE + '/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
        files = s['file'] if isinstance(s['file'], list) else [s['file']]
        eds = s['edits'] if isinstance(s['file'], list) else [s['edits']]
        out = ''
        for fn, ed in zip(files, eds):
            src = open('/repo/' + fn).read(); new = src
            for old, nw in ed:
                if new.count(old) != 1: print(s['id'], 'occurrences', new.count(old), repr(old[:60])); break
                new = new.replace(old, nw)
            else:
                t = tempfile.mkdtemp()
                os.makedirs(t + '/a/' + os.path.dirname(fn)); os.makedirs(t + '/b/' + os.path.dirname(fn))
                open(t + '/a/' + fn, 'w').write(src); open(t + '/b/' + fn, 'w').write(new)
                p = subprocess.run(['diff', '-u', 'a/' + fn, 'b/' + fn], cwd=t, capture_output=True, text=True).stdout
                p = '\n'.join(l.split('\t')[0] if l.startswith(('--- ', '+++ ')) else l for l in p.split('\n'))
                shutil.rmtree(t); out += p
                # removed lines must be original
                bl = subprocess.run(['git', 'blame', '-l', '-s', fn], cwd='/repo', capture_output=True, text=True).stdout.split('\n')
                import re
                ln = 0; 
                for l in p.split('\n'):
                    m = re.match(r'@@ -(\d+)', l)
                    if m: ln = int(m[1]); continue
                    if l.startswith('-') and not l.startswith('---'):
                        if not bl[ln-1].lstrip('^').startswith(base[:38]): print(s['id'], 'NOT ORIGINAL:', l)
                        ln += 1
                    elif l.startswith(' '): ln += 1
        open(d + '/patch.diff', 'w').write(out)
        open(d + '/demo.cpp', 'w').write(s['pre'] + HEAD + s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
main()
