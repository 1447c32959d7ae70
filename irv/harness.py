"""Builds the library's sources and a harness, in a scratch directory, and runs it."""
import os, re, json, subprocess, concurrent.futures as cf, hashlib, glob
REPO = os.environ.get('LUBE_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'var heap view module math func string config clapack json utf8 stream dft-mkl transpose-mkl'.split()
CXX = ['clang++-18', '-std=gnu++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,float-cast-overflow,nonnull-attribute',
       '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-w', '-DNDEBUG', '-DHAVE_MKL', '-DHAVE_BACKTRACE', '-I' + REPO, '-isystem', '/usr/include/mkl']
LIBS = '-lmkl_intel_lp64 -lmkl_sequential -lmkl_core -lboost_regex -lboost_system -lm -ldl -lpthread'.split()
class HarnessError(Exception): pass
def cc(src, obj, extra=()):
    r = subprocess.run(CXX + list(extra) + ['-c', src, '-o', obj], capture_output=True, text=True)
    if r.returncode: raise HarnessError(r.stderr[-3000:])
    return obj
# sources that are not part of the harness: loadable modules and the alternatives that this build does not use
OTHER = 'curl dft-kiss gedfile gnuplot graph path qwt sndfile throw transpose-adhoc txtfile xmlfile inifile'.split()
EXTRA = {'module': ['-Ddlopen=verif_dlopen', '-Ddlsym=verif_dlsym', '-Ddlclose=verif_dlclose'], 'inifile': ['-Dfactory=verif_ini_factory']}
def sources(prop):
    new = [os.path.basename(f)[:-4] for f in sorted(glob.glob(REPO + '/lube/*.cpp'))]
    return SRC + [f for f in new if f not in SRC and f not in OTHER] + (['inifile'] if prop == 'C20' else [])
def literals():
    """the constants that the library's sources mention, as raw material for the generators"""
    ss, ii = set(), set()
    for f in sorted(glob.glob(REPO + '/lube/*.cpp') + glob.glob(REPO + '/lube/*.h')):
        if os.path.basename(f)[:-4] in OTHER: continue
        try: t = open(f, errors='replace').read()
        except OSError: continue
        t = re.sub(r'/\*.*?\*/|//[^\n]*|^[ \t]*#[^\n]*', ' ', t, flags=re.S | re.M)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            if 0 < len(m.group(1)) <= 12: ss.add(m.group(1))
        t = re.sub(r'"((?:[^"\\\n]|\\.)*)"', ' ', t)
        for m in re.finditer(r"'((?:[^'\\\n]|\\[^0-9x]))'", t): ss.add(m.group(1) if m.group(1) != '"' else '\\"')
        for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?=[uUlL]*\b)(?![.\w])', re.sub(r'(?<=\d)[uUlL]+\b', '', t)):
            try: v = int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1), 8)
            except ValueError: continue
            if v < 1 << 62: ii.add(v)
    return ss, ii
def dictionary(d):
    ss, ii = literals()
    try: base = json.load(open(HERE + '/harness/literals.json'))
    except (OSError, ValueError): base = {'s': [], 'i': []}
    # those that are new come first: they are tried most often
    ns = sorted(ss - set(base['s'])); ni = sorted(ii - set(base['i']))
    with open(d + '/dict.inc', 'w') as f:
        f.write('static const char* const DS[] = {%s "none"};\nstatic const int NDS = %d;\n' % (' '.join('"%s",' % x for x in ns + sorted(ss - set(ns))), len(ns)))
        f.write('static const long DI[] = {%s 16};\nstatic const int NDI = %d;\n' % (' '.join('%dL,' % x for x in ni + sorted(ii - set(ni))), len(ni)))
def build(prop, d, hsrc=None):
    dictionary(d)
    hs = [('%s/lube/%s.cpp' % (REPO, f), '%s/%s.o' % (d, f)) for f in sources(prop.upper())]
    hs = [x for x in hs if os.path.exists(x[0])]
    hs += [('%s/harness/%s.cpp' % (HERE, prop.lower()), d + '/hc.o'), (HERE + '/harness/h.cpp', d + '/h.o')]
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda x: cc(*x, extra=['-I' + HERE + '/harness', '-I' + d] + EXTRA.get(os.path.basename(x[0])[:-4], [])), hs))
    out = d + '/harness'
    r = subprocess.run(CXX + objs + ['-o', out] + LIBS, capture_output=True, text=True)
    if r.returncode: raise HarnessError(r.stderr[-3000:])
    return out
