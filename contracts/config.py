"""Configuration and command-line options (C20, C21).

A var is known by what it stands for (ghost 'gv' of its slot).  A map is a value: lf('set', m, path.., v) is m with one
entry changed, has/entry ask for one.  What m[k] returns stands for a place, ref(slot, path): reading it reads the map
now in that slot, assigning to it changes that map at that path and nothing else (assumed here; the map itself is C09)."""
from .func import *
from .func import P, PK, TEN
CFG = dict(TEN)
def cn(name, args, spec, **k): CFG[name] = Contract(name + '@map', args, spec, **k)
SC = '_ZN6libubeL7sConfigE'
def cfgb(ctx): return ctx.gid([(m.path, SC) for m in ctx.prog.mods if SC in m.globals][0])
def lfn(t): return t.decl().name() if isinstance(t, z3.ExprRef) and z3.is_app(t) else ''
def key(x): return lf('key', x)
def isref(x):
    """(slot, path) when x stands for a place in a map"""
    n = lfn(x)
    if not n.startswith('ref'): return None
    a = [norm(t) for t in x.children()]; return Ptr(a[0], a[1]), a[2:]
def ref(s, path): return lf('ref%d' % len(path), s.b, s.o, *path)
def has(m, path): return lf('has%d' % len(path), m, *path, ret=B)
def entryof(m, path): return lf('entry%d' % len(path), m, *path)
def setm(ctx, m, path, v):
    """m with v at path; the place itself may have been made before (touched)"""
    r = lf('set%d' % len(path), m, *path, v)
    ctx.fact(has(r, path)); ctx.fact(eq(entryof(r, path), v)); ctx.fact(eq(entryof(touch(ctx, m, path), path), ite(has(m, path), entryof(m, path), 0)))
    ctx.fact(eq(lf('set%d' % len(path), touch(ctx, m, path), *path, v), r))
    if len(path) == 2: ctx.fact(lf('has1', r, path[0], ret=B)); ctx.fact(lf('defd', r, path[0], ret=B))
    return r
def touch(ctx, m, path):
    """m with an undefined entry at path if there was none"""
    r = lf('set%d' % len(path), m, *path, 0); ctx.fact(has(r, path)); ctx.fact(eq(entryof(r, path), 0))
    if len(path) == 2: ctx.fact(implies(has(m, path), lf('defd', m, path[0], ret=B)))
    return ite(has(m, path), m, r)
def value(st, x):
    """what x stands for now"""
    r = isref(x)
    if r is None: return x
    return entryof(tid(st, r[0]), r[1])
def m_index(c):
    r, s, k = c.a; st = c.pre; x = tid(st, s); q = isref(x); p = c.post(); begin(c, r, p); kk = key(value(st, tid(st, k)))
    slot, path = (q[0], q[1] + [kk]) if q else (s, [kk])
    put(p, r, ref(slot, path))
    # sections need not be told apart from those not there yet; an entry is made when it is asked for
    if len(path) == 2 or not isg(c, slot): put(p, slot, touch(c.ctx, tid(st, slot), path))
    c.case('', post=p)
def isg(c, s): return eq(s.b, cfgb(c.ctx)) is True
cn(P + 'ixES0_', ['sret', 'var', 'val'], m_index)
def m_assign(c):
    s, v = c.a; st = c.pre; p = c.post(); q = isref(tid(st, s)); x = value(st, tid(st, v))
    if q: put(p, q[0], setm(c.ctx, tid(st, q[0]), q[1], x))
    else: put(p, s, x)
    c.case('', ret=s, post=p)
cn(P + 'aSES0_', ['var', 'val'], m_assign)
def isdef(ctx, st, x):
    q = isref(x)
    if q and len(q[1]) == 1:
        m = tid(st, q[0]); return lf('defd', m, q[1][0], ret=B)
    return not_(undef(value(st, x)))
cn(PK + 'cvbEv', ['var'], lambda c: c.case('', ret=isdef(c.ctx, c.pre, tid(c.pre, c.a[0])))); cn(PK + '7definedEv', ['var'], lambda c: c.case('', ret=isdef(c.ctx, c.pre, tid(c.pre, c.a[0]))))
def m_find(c):
    s, k = c.a; st = c.pre; x = tid(st, s); q = isref(x); kk = key(value(st, tid(st, k)))
    h = has(tid(st, q[0]), q[1] + [kk]) if q else has(value(st, x), [kk])
    if q and len(q[1]) == 1: c.require(isdef(c.ctx, st, x), 'a map')
    n = c.unknown(lambda o: o.val, 'place'); c.ctx.fact(and_(ge(n, -1), lt(n, 1 << 31))) ; c.case('', ret=n, ensures=[eq(ge(n, 0), h)])
cn(PK + '5indexES0_', ['var', 'val'], m_find)
for k, m in MT.items():
    def m_cast(c, k=k):
        x = value(c.pre, tid(c.pre, c.a[0])); c.throws('no such conversion', nocast(k, x)); c.case('', not_(nocast(k, x)), ret=castv(c, k, x))
    cn('%s4castI%sEET_v' % (PK, m), ['var'], m_cast)
def nostr(x): return lf('nostr', x, ret=B)
def strof(c, x):
    b = lf('strof', x); c.ctx.mark_ext(b); c.ctx.fact(ge(b, 1)); return Ptr(b, 0)
def m_str(c):
    x = value(c.pre, tid(c.pre, c.a[0])); c.throws('no string', nostr(x)); c.case('', not_(nostr(x)), ret=strof(c, x))
cn(PK + '3strEv', ['var'], m_str)
# ------------------------------------------------------------------ Config
CF = '_ZN6libube6Config'
def cfg(c): return Ptr(cfgb(c.ctx), 0)
def nilv(c): return tid(c.pre, Ptr(c.ctx.gid('_ZN6libube3nilE'), 0))
def su_cfg(ex, a, st):
    su(ex, a, st); ctx = ex.ctx; n = tid(st, Ptr(ctx.gid('_ZN6libube3nilE'), 0)); ctx.fact(undef(n)); ctx.fact(eq(n, 0)); ex.st0 = st.copy()
def cf(name, args, spec, props=('C20',), **k):
    return fc(name, args, spec, list(props), local=k.pop('local', CFG), setup=k.pop('setup', su_cfg), **k)
def setting(c, k, r=None):
    """the path of entry k in the current section, the settings, and whether it is there"""
    th = c.a[-2] if len(c.a) == 3 and isinstance(c.a[1], Ptr) and r is not None else c.a[0]; st = c.pre; m = tid(st, cfg(c)); path = [key(tid(st, Ptr(th.b, th.o))), key(tid(st, k))]
    h = has(m, path); c.ctx.fact(implies(h, lf('defd', m, path[0], ret=B))); return path, m, h
def sp_config(c):
    r, th, k = c.a; path, m, h = setting(c, k, r)
    p = c.post(); begin(c, r, p); put(p, r, ref(cfg(c), path)); c.case('the setting', h, post=p)
    p = c.post(); begin(c, r, p); put(p, r, nilv(c)); c.case('no such setting', not_(h), post=p)
cf(CF + '6configENS_3varE', ['sret', 'obj', 'val'], sp_config)
for t, k in (('i', 2), ('l', 3), ('f', 4), ('d', 5)):
    def sp_configT(c, k=k):
        th, e, d = c.a; path, m, h = setting(c, e); v = entryof(m, path)
        c.throws('no such conversion', and_(h, nocast(k, v))); c.case('the setting, converted', and_(h, not_(nocast(k, v))), ret=castv(c, k, v)); c.case('the default', not_(h), ret=d)
    cf(CF + '6configI%sEET_NS_3varES2_' % t, ['obj', 'val', AK[k][0]], sp_configT)
def sp_configs(c):
    th, e, d = c.a; path, m, h = setting(c, e); v = entryof(m, path)
    c.throws('no string', and_(h, nostr(v))); c.case('the setting', and_(h, not_(nostr(v))), ret=strof(c, v)); c.case('the default', not_(h), ret=d)
cf(CF + '6configIPKcEET_NS_3varES4_', ['obj', 'val', 'ptr'], sp_configs)
def sp_cset(c):
    th, e, v = c.a; st = c.pre; s = tid(st, Ptr(th.b, th.o)); path, m, h = setting(c, e)
    c.case('no section', undef(s), post=c.post())
    p = c.post(); put(p, cfg(c), setm(c.ctx, m, path, tid(st, v))); c.case('that entry, and no other', not_(undef(s)), post=p)
cf(CF + '9configSetENS_3varES1_', ['obj', 'val', 'val'], sp_cset)
def csec(c, p, th, s):
    x = tid(c.pre, s); y = ite(undef(x), nilv(c), x); put(p, th, y); return y
def sp_csection(c):
    r, th, s = c.a; p = c.post(); begin(c, r, p); y = csec(c, p, th, s); put(p, r, ref(cfg(c), [key(y)])); c.case('', post=p)
cf(CF + '13configSectionENS_3varE', ['sret', 'obj', 'val'], sp_csection)
cn(CF + '13configSectionENS_3varE', ['sret', 'obj', 'val'], sp_csection)
def sp_cctor(c):
    th, s = c.a; p = c.post(); begin(c, th, p); csec(c, p, th, s); c.case('', post=p)
cf(CF + 'C2ENS_3varE', ['ctor', 'val'], sp_cctor, ctor=0)
# ---- merging a file: every entry of every section is set, in order, and nothing else
FM = '_ZN6libube10filemodule'
def mkey(x, i): return lf('mapkey', x, i)
def m_key(c):
    r, s, i = c.a; x = value(c.pre, tid(c.pre, s)); ok = and_(ge(i, 0), lt(i, size(c, x))); p = c.post(); begin(c, r, p); put(p, r, mkey(x, i)); c.throws('out of range', not_(ok)); c.case('', ok, post=p)
cn(PK + '3keyEi', ['sret', 'var', 'i32'], m_key)
def m_at(c):
    r, s, i = c.a; x = value(c.pre, tid(c.pre, s)); ok = and_(ge(i, 0), lt(i, size(c, x))); p = c.post(); begin(c, r, p); put(p, r, lf('elem', x, i)); c.throws('out of range', not_(ok)); c.case('', ok, post=p)
cn(P + 'ixEi', ['sret', 'var', 'i32'], m_at); cn(PK + '2atEi', ['sret', 'var', 'i32'], m_at)
cn(PK + '4sizeEv', ['var'], t_get(lambda c: size(c, value(c.pre, tid(c.pre, c.a[0])))))
FIL = dict(CFG)
def fn_(name, args, spec, **k): FIL[name] = Contract(name + '@file', args, spec, **k)
def f_nothing(c): c.case('', post=c.post())
fn_(FM + 'C2ENS_3varE', ['ptr', 'val'], f_nothing); fn_(FM + 'D2Ev', ['ptr'], f_nothing)
def f_create(c):
    b = lf('filehandler', c.a[0].b); c.ctx.mark_ext(b); c.ctx.fact(ge(b, 1)); c.case('', ret=Ptr(b, 0))
fn_(FM + '6createENS_3varE', ['ptr', 'val'], f_create)
def f_read(c):
    r, f, n = c.a; p = c.post(); begin(c, r, p); put(p, r, lf('contents', tid(c.pre, n))); c.case('', post=p)
fn_('V:file::read', ['sret', 'ptr', 'val'], f_read)
def f_index(c):
    """one of its own keys of a map: the value there"""
    r, s, k = c.a; st = c.pre; x, kx = tid(st, s), tid(st, k)
    if isref(x) or isg(c, s): return m_index(c)
    y = value(st, x); p = c.post(); begin(c, r, p); put(p, r, lf('mapval', y, kx))
    c.require(lf('keyof', y, kx, ret=B), 'a key of the map'); c.case('', post=p)
fn_(P + 'ixES0_', ['sret', 'var', 'val'], f_index)
def f_key(c):
    x = value(c.pre, tid(c.pre, c.a[1])); c.ctx.fact(implies(and_(ge(c.a[2], 0), lt(c.a[2], size(c, x))), lf('keyof', x, mkey(x, c.a[2]), ret=B))); m_key(c)
fn_(PK + '3keyEi', ['sret', 'var', 'i32'], f_key)
def merge(ctx, m, sec, y, j):
    """m after the first j entries of map y were set in section sec"""
    r = lf('merge', m, sec, y, j); e = mkey(y, j); v = lf('mapval', y, e); ctx.fact(eq(lf('merge', m, sec, y, 0), m))
    if not isc(j) or j >= 0: ctx.fact(implies(ge(j, 0), eq(lf('merge', m, sec, y, iadd(j, 1)), setm(ctx, r, [sec, key(e)], v))))
    return r
def mergeall(c, m, x, i):
    """m after the first i sections of x were merged"""
    ctx = c.ctx; r = lf('mergeall', m, x, i); sec, y = key(mkey(x, i)), lf('elem', x, i); n = size(c, y); ctx.fact(eq(lf('mergeall', m, x, 0), m))
    ctx.fact(implies(ge(i, 0), eq(lf('mergeall', m, x, iadd(i, 1)), merge(ctx, r, sec, y, n)))); return r
def fun_merge(lv):
    ex = lv.ex; class_ = type('X', (), {'ctx': ex.ctx})(); st = lv.st0; g = Ptr(cfgb(ex.ctx), 0); m0 = tid(ex.st0, g); m = tid(st, g); x = lf('contents', ex.fileid); out = [0, mergeall(class_, m0, x, lv.n)]
    ys = []
    for b in st.locals:
        t = norm(st.read('gv', b, 0))
        if lfn(t) == 'elem' or lfn(t).startswith('elem'): ys.append(t)
    for y in ys:
        a = y.children(); out.append(merge(ex.ctx, m, key(mkey(a[0], norm(a[1]))), y, lv.n))
    return out
def sp_cfile(c):
    th, f = c.a; x = lf('contents', tid(c.pre, f)); n = size(c, x); p = c.post(); put(p, cfg(c), mergeall(c, tid(c.pre, cfg(c)), x, n)); c.case('', post=p)
cf(CF + '10configFileENS_3varE', ['obj', 'val'], sp_cfile, local=FIL, opts={'slots': {2: 'V:file::read'}}, setup=lambda ex, a, st: (su_cfg(ex, a, st), setattr(ex, 'fileid', tid(st, a[1]))), loops={None: {'fun': fun_merge, 'cells': True}})
def lemma_merge():
    """merging changes only the entries named, and each of those to the value it has in what was merged"""
    M = z3.DeclareSort('Settings'); get = z3.Function('lookup', M, I, I, I); st_ = z3.Function('setone', M, I, I, I, M); mg = z3.Function('merged', I, M); ky = z3.Function('keyat', I, I); vl = z3.Function('valueat', I, I)
    m0 = z3.Const('m0', M); sec, s, e, j, q, n = z3.Ints('sec s e j q n'); m = z3.Const('m', M); a, b, v, c, d = z3.Ints('a b v c d')
    ax = [z3.ForAll([m, a, b, v, c, d], get(st_(m, a, b, v), c, d) == z3.If(z3.And(a == c, b == d), v, get(m, c, d)), patterns=[get(st_(m, a, b, v), c, d)]), mg(0) == m0, z3.ForAll([j], z3.Implies(j >= 0, mg(j + 1) == st_(mg(j), sec, ky(j), vl(j))), patterns=[mg(j + 1)])]
    named = lambda u: z3.And(s == sec, z3.Exists([q], z3.And(0 <= q, q < u, ky(q) == e)))
    yield 'others: start', ax, get(mg(0), s, e) == get(m0, s, e)
    yield 'others: step', ax + [n >= 0, z3.Or(s != sec, ky(n) != e), get(mg(n), s, e) == get(m0, s, e)], get(mg(n + 1), s, e) == get(m0, s, e)
    dis = [0 <= j, j < n, z3.ForAll([a], z3.Implies(z3.And(j < a), ky(a) != ky(j)))]
    yield 'named: set', ax + [j >= 0], get(mg(j + 1), sec, ky(j)) == vl(j)
    yield 'named: kept', ax + dis + [get(mg(n), sec, ky(j)) == vl(j)], get(mg(n + 1), sec, ky(j)) == vl(j)
CHECKS.append(Lemma('merging settings', lemma_merge, ['C20']))
# ------------------------------------------------------------------ Option
OPT = dict(CFG); OP = '_ZN6libube6Option'; OPK = '_ZNK6libube6Option'
def on(name, args, spec, **k): OPT[name] = Contract(name + '@option', args, spec, **k)
MNAME, ARGC, ARGV, OSTR, MOPT, OPTS, USAGE = 0, 16, 24, 32, 48, 56, 72
CALLS = 24      # how many times getopt was called: (LG, 24)
def gl(ctx, n): return Ptr(ctx.gid(n), 0)
def go(c, k):
    """what the k-th call of getopt returns: -1, or a character"""
    r = lf('getopt', k); c.ctx.fact(and_(ge(r, -1), le(r, 255))); return r
def oa(c, k):
    b = lf('optarg', k); c.ctx.mark_ext(b); c.ctx.fact(ge(b, 0)); return Ptr(b, 0)
def fld(th, o): return Ptr(th.b, iadd(th.o, o))
def ncalls(st): return st.read('i32', LG, CALLS)
def next_(c, p, st):
    n = ncalls(st); p.st('i32', LG, CALLS, iadd(n, 1)); p.stp(gl(c.ctx, 'optarg'), oa(c, n)); return go(c, n)
def o_getopt(c):
    n, v, s = c.a; st = c.pre; th = c.ex.option; x = value(st, tid(st, fld(th, OSTR)))
    c.require(and_(eq(n, st.read('i32', th.b, iadd(th.o, ARGC))), beq(v, st.ldp(fld(th, ARGV)))), 'the command line given'); c.require(beq(s, strof(c, x)), 'the options declared')
    p = c.post(); r = next_(c, p, st); c.case('', ret=r, post=p)
on('getopt', ['i32', 'ptr', 'ptr'], o_getopt)
def su_opt(ex, a, st):
    su_cfg(ex, a, st); ex.option = a[1] if ex.osret else a[0]; st.st('i32', LG, CALLS, 0); ex.st0 = st.copy()
    th = ex.option
    for o in (MNAME, OSTR, OPTS, USAGE): ex.ctx.fact(not_(ge(tid(st, fld(th, o)), 1 << 60)))
    ex.ctx.fact(not_(nostr(tid(st, fld(th, OSTR)))))
def of(name, args, spec, **k):
    sr = args[0] == 'sret'
    return fc(name, args, spec, ['C21'], local=k.pop('local', OPT), setup=k.pop('setup', lambda ex, a, st: (setattr(ex, 'osret', sr), su_opt(ex, a, st))), **k)
def sp_next(c):
    th = c.a[0]; p = c.post(); r = next_(c, p, c.pre); p.st('i32', th.b, iadd(th.o, MOPT), r); c.case('', ret=not_(eq(r, -1)), post=p)
of(OP + 'cvbEv', ['obj'], sp_next); on(OP + 'cvbEv', ['obj'], sp_next)
EXIT = 'exit'
def o_exit(c): c.throws('ends the program', True, exc=EXIT, post=c.post())
on('exit', ['i32'], o_exit); on(OP + '5usageEv', ['obj'], f_nothing)
of(OP + '5usageEi', ['obj', 'i32'], o_exit); on(OP + '5usageEi', ['obj', 'i32'], o_exit)
def sp_arg(c):
    r, th = c.a; q = c.pre.ldp(gl(c.ctx, 'optarg')); p = c.post(); begin(c, r, p); put(p, r, lf('text', q)); t = c.pre.copy(); t.havoc('gv', LG, 64 * FB, 1); c.throws('no argument', eq(q.b, 0), post=t); c.case('the argument', not_(eq(q.b, 0)), post=p)
def as_arg(c):
    q = c.pre.ldp(gl(c.ctx, 'optarg')); return [ge(q.b, 0), eq(q.o, 0)]
of(OPK + '3argEv', ['sret', 'obj'], sp_arg, assumes=as_arg); on(OPK + '3argEv', ['sret', 'obj'], sp_arg)
def o_strings(c):
    r, n, q = c.a; p = c.post(); begin(c, r, p); put(p, r, lf('strings', n, q)); c.case('', post=p)
on(P + 'C2EiPKPKc', ['ctor', 'i32', 'ptr'], o_strings)
def sp_args(c):
    r, th = c.a; st = c.pre; k = st.read('i32', c.ctx.gid('optind'), 0); n = st.read('i32', th.b, iadd(th.o, ARGC)); q = st.ldp(fld(th, ARGV)); p = c.post(); begin(c, r, p); put(p, r, lf('strings', isub(n, k), q.add(imul(k, 8)))); c.case('what follows the options', post=p)
of(OP + '4argsEv', ['sret', 'obj'], sp_args, assumes=lambda c: [ge(c.pre.read('i32', c.a[1].b, iadd(c.a[1].o, ARGC)), 0), ge(c.pre.read('i32', c.ctx.gid('optind'), 0), 0)])
# two characters are the same option when they are the same character
def chr_(v): return num(1, wrap(v, 8))
def o_eq(c):
    st = c.pre; x, y = value(st, tid(st, c.a[0])), value(st, tid(st, c.a[1]))
    if lfn(x).startswith('number') and lfn(y).startswith('number'):
        a, b = [norm(t) for t in x.children()], [norm(t) for t in y.children()]; c.case('', ret=and_(eq(a[0], b[0]), eq(a[1], b[1])))
    else: c.case('', ret=lf('equal', x, y, ret=B))
on(PK + 'eqES0_', ['var', 'val'], o_eq)
def parsed(c, m, n):
    """the options m after the first n answers of getopt: each stores its argument, or 1, under its character"""
    ctx = c.ctx; r = lf('parsed', m, n); a = oa(c, n); ctx.fact(eq(lf('parsed', m, 0), m))
    ctx.fact(implies(ge(n, 0), eq(lf('parsed', m, iadd(n, 1)), setm(ctx, r, [key(chr_(go(c, n)))], ite(eq(a.b, 0), num(2, 1), lf('text', a)))))); return r
def sp_parse(c):
    r, th, n, v = c.a; st = c.pre; N = c.unknown(lambda o: isub(ncalls(o.st), 1), 'n'); m = tid(st, fld(th, OPTS)); p = c.post(); g = go(c, N); bad = eq(wrap(g, 8), 63)
    p.st('i32', th.b, iadd(th.o, ARGC), n); p.stp(fld(th, ARGV), v); p.st('i32', LG, CALLS, iadd(N, 1)); p.stp(gl(c.ctx, 'optarg'), oa(c, N)); p.st('i32', th.b, iadd(th.o, MOPT), g)
    put(p, fld(th, OPTS), parsed(c, m, N)); q = p.copy(); begin(c, r, p); put(p, r, parsed(c, m, N)); oks = (0, N, lambda k: and_(not_(eq(go(c, k), -1)), not_(eq(wrap(go(c, k), 8), 63))))
    c.case('every option given, in order', not_(bad), post=p, ensures=[ge(N, 0), eq(g, -1)], foralls=[oks])
    c.throws('not an option: usage, and the program ends', bad, exc=EXIT, post=q)
class LC:
    def __init__(self, ex): self.ctx = ex.ctx; self.ex = ex
def fun_parse(lv):
    ex = lv.ex; c = LC(ex); m = tid(ex.st0, fld(ex.option, OPTS)); n = lv.n; k = isub(n, 1); g0 = ex.st0.read('i32', ex.option.b, iadd(ex.option.o, MOPT)); q0 = ex.st0.ldp(gl(ex.ctx, 'optarg'))
    return [0, parsed(c, m, n), n, ite(eq(n, 0), g0, go(c, k)), ite(eq(n, 0), q0.b, oa(c, k).b), ite(eq(n, 0), q0.o, 0)]
of(OP + '5parseEiPPc', ['sret', 'obj', 'i32', 'ptr'], sp_parse, loops={None: {'fun': fun_parse, 'cells': True}})
# ---- declaring an option
def o_push(c):
    s, v = c.a; st = c.pre; p = c.post(); put(p, s, lf('pushed', value(st, tid(st, s)), value(st, tid(st, v)))); c.case('', ret=s, post=p)
on(P + '4pushES0_', ['var', 'val'], o_push)
def pushc(x, ch): return lf('pushed', x, num(1, ch))
MSG = 40        # the text of a message so far: ('gv', LG + ., MSG)
def msg(st): return st.read('gv', LG, 64 * FB)
def add_(p, st, *v): p.st('gv', LG, 64 * FB, lf('written%d' % len(flatp(*v)), msg(st), *flatp(*v)))
def o_begin(c):
    p = c.post(); p.st('gv', LG, 64 * FB, 0); c.case('', post=p)
for n in ('_ZN6libube9varstreamC1ENS_3varE', '_ZN6libube9varstreamC2ENS_3varE'): on(n, ['ptr', 'val'], o_begin)
def o_ins(f):
    def sp(c):
        p = c.post(); add_(p, c.pre, f(c)); c.case('', ret=c.a[0], post=p)
    return sp
on('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc', ['ptr', 'ptr'], o_ins(lambda c: c.a[1])); on('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c', ['ptr', 'i8'], o_ins(lambda c: c.a[1]))
on('_ZN6libubelsERSoNS_3varE', ['ptr', 'val'], o_ins(lambda c: value(c.pre, tid(c.pre, c.a[1])))); on('_ZNSolsEi', ['ptr', 'i32'], o_ins(lambda c: c.a[1]))
on('_ZNK6libube9varstreamcvNS_3varEEv', ['sret', 'ptr'], t_new(lambda c: lf('message', msg(c.pre))))
def sp_declare(c):
    th, ch, de, df = c.a; st = c.pre; m = tid(st, fld(th, OPTS)); o = tid(st, fld(th, OSTR)); u = tid(st, fld(th, USAGE)); d = tid(st, df); x = tid(st, de); p = c.post()
    put(p, fld(th, OPTS), setm(c.ctx, m, [key(num(1, ch))], d)); o1 = pushc(o, ch); put(p, fld(th, OSTR), ite(undef(d), o1, pushc(o1, 58)))
    p.havoc('gv', LG, 64 * FB, 1); w = c.unknown(lambda oc: tid(oc.st, fld(th, USAGE)), 'usage'); put(p, fld(th, USAGE), w)
    t = p.copy(); c.case('declared', not_(nostr(x)), post=p)
    h = c.pre.copy(); put(h, fld(th, OPTS), setm(c.ctx, m, [key(num(1, ch))], d)); put(h, fld(th, OSTR), ite(undef(d), o1, pushc(o1, 58))); h.havoc('gv', LG, 64 * FB, 1); c.throws('the description is no string', nostr(x), post=h)
of(OP + 'clEcNS_3varES1_', ['obj', 'i8', 'val', 'val'], sp_declare)
# ---- construction
def ocons(c, p, th, argc, argv, os, name=0):
    p.st('i32', c.ctx.gid('optind'), 0, 1); p.st('i32', th.b, iadd(th.o, ARGC), argc); p.stp(fld(th, ARGV), argv); p.st('i32', th.b, iadd(th.o, MOPT), -1)
    for o, x in ((MNAME, name), (OSTR, os), (OPTS, 0), (USAGE, 0)): put(p, fld(th, o), x); p.st('lv', th.b, iadd(th.o, o), 1)
def isempty(st, x):
    """x was made from an empty string constant"""
    a = [norm(t) for t in x.children()] if lfn(x).startswith('text') else None
    return eq(st.read('i8', a[0], a[1]), 0) if a else False
def sp_ocons(c):
    th = c.a[0]; st = c.pre; p = c.post(); w = c.unknown(lambda oc: tid(oc.st, fld(th, OSTR)), 'empty')
    if len(c.a) == 1: ocons(c, p, th, 0, NULL, w); c.case('nothing declared', post=p, ensures=[isempty(p, w)]); return
    if len(c.a) == 2: ocons(c, p, th, 0, NULL, w, tid(st, c.a[1])); c.case('a name', post=p, ensures=[isempty(p, w)]); return
    _, n, v, s = c.a; x = tid(st, s); q = p.copy()
    ocons(c, p, th, n, v, w); c.case('nothing declared', undef(x), post=p, ensures=[isempty(p, w)])
    ocons(c, q, th, n, v, x); c.case('options declared', not_(undef(x)), post=q)
for n, a in (('C2Ev', ['ctor']), ('C2ENS_3varE', ['ctor', 'val']), ('C2EiPPcNS_3varE', ['ctor', 'i32', 'ptr', 'val'])): of(OP + n, a, sp_ocons, ctor=0, setup=lambda ex, a, st: su_cfg(ex, a, st))
def lemma_parse():
    """an option keeps its default until it is given, and then holds the argument given last"""
    M = z3.DeclareSort('Opts'); get = z3.Function('optof', M, I, I); st_ = z3.Function('setopt', M, I, I, M); mg = z3.Function('parsedopts', I, M); ky = z3.Function('optat', I, I); vl = z3.Function('argat', I, I)
    m0, m = z3.Consts('m0 m', M); e, j, n, a, v, d = z3.Ints('e j n a v d')
    ax = [z3.ForAll([m, a, v, d], get(st_(m, a, v), d) == z3.If(a == d, v, get(m, d)), patterns=[get(st_(m, a, v), d)]), mg(0) == m0, z3.ForAll([j], z3.Implies(j >= 0, mg(j + 1) == st_(mg(j), ky(j), vl(j))), patterns=[mg(j + 1)])]
    yield 'default: start', ax, get(mg(0), e) == get(m0, e)
    yield 'default: step', ax + [n >= 0, ky(n) != e, get(mg(n), e) == get(m0, e)], get(mg(n + 1), e) == get(m0, e)
    yield 'given', ax + [j >= 0], get(mg(j + 1), ky(j)) == vl(j)
    yield 'given last', ax + [0 <= j, j < n, ky(n) != ky(j), get(mg(n), ky(j)) == vl(j)], get(mg(n + 1), ky(j)) == vl(j)
CHECKS.append(Lemma('options given', lemma_parse, ['C21']))
