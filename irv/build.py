"""Extracts LLVM IR from /repo's current sources (mechanically, on every run)."""
import os, subprocess, tempfile, concurrent.futures as cf
REPO = os.environ.get('LUBE_REPO', '/repo')
FILES = 'var heap view func math clapack string utf8 stream config json'.split()
CLANG = ['clang++-18', '-std=gnu++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
         '-DNDEBUG', '-DHAVE_MKL', '-DHAVE_BACKTRACE', '-w', '-I' + REPO, '-isystem', '/usr/include/mkl', '-S', '-emit-llvm']
OPT = '/usr/lib/llvm-18/bin/opt'
class BuildError(Exception): pass
def one(f, d, src=None, name=None):
    src = src or '%s/lube/%s.cpp' % (REPO, f)
    f = name or f
    a, b = '%s/%s.0.ll' % (d, f), '%s/%s.ll' % (d, f)
    r = subprocess.run(CLANG + [src, '-o', a], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    r = subprocess.run([OPT, '-S', '-passes=mem2reg', a, '-o', b], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    os.unlink(a)
    return b
# what the headers define inline is extracted by using it
USE = '''#include <lube/var.h>
#include <lube/config.h>
using namespace libube;
bool use1(var& a, var& b) { return a == b; }
bool use2(var& a, var& b) { return a > b; }
bool use3(var& a, var& b) { return a <= b; }
bool use4(var& a, var& b) { return a >= b; }
void use5(var& a, var& b) { a += b; }
void use6(var& a, var& b) { a -= b; }
void use7(var& a, var& b) { a *= b; }
void use8(var& a, var& b) { a /= b; }
var use9(var& a, var& b) { return a + b; }
var use10(var& a, var& b) { return a - b; }
var use11(var& a, var& b) { return a * b; }
var use12(var& a, var& b) { return a / b; }
var use13(var& a) { return -a; }
var use14(const var& a, int i) { return a[i]; }
var use15(var& a) { return a.top(); }
bool use16(var& a) { return bool(a); }
var use17(var& a, var& b) { return (a, b); }
'''
def inst(d):
    s = d + '/inst.cpp'
    with open(s, 'w') as f: f.write(USE)
    try: return one(s[:-4], d, s, 'inst')
    except BuildError: pass         # the functions concerned are then reported as not found
    b = d + '/inst.ll'
    with open(b, 'w') as f: f.write('')
    return b
def extract(d, files=None):
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda f: inst(d) if f == 'inst' else one(f, d), files or FILES + ['inst']))
