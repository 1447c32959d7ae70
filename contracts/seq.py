"""Arrays as sequences and maps as associations.

The methods below are written in terms of the other methods of var (at, size, resize, assignment,
comparison...).  They are verified against contracts of those at the level of a sequence: the ghost
map 'gv' holds the value of a slot, of an element (at (H, position) for the array H of *this) or of
a key.  The contracts of the callees at this level are assumed here; the memory-level contracts of
the same callees are the ones discharged in assign.py and mem.py."""
from .lib import *
from .heap import both
P = '_ZN6libube3var'; PK = '_ZNK6libube3var'; HP = '_ZN6libube4Heap'
NIL = 0
def lf(f, *a, ret=I): return app(f, *a, ret=ret)
class S:
    """the array of *this"""
    H = z3.Int('seqH'); KB = z3.Int('seqK'); T = z3.Int('seqT')
def val(st, s):
    """the value that the var at s stands for"""
    if not isc(s.b) and s.b.eq(S.KB): return st.read('gv', s.b, s.o)
    tag = st.read('i64', s.b, iadd(s.o, 8))
    ref = lt(tag, 0)
    own = st.read('gv', s.b, s.o)
    return own if ref is False else ite(ref, st.read('gv', S.H, isub(-1, tag)), own)
def isthis(c, s):
    """the array of *this: the slot itself, or a local var that refers to the same array"""
    st = c.pre; pb = norm(st.read('pb', s.b, s.o)); t = norm(st.read('i64', s.b, iadd(s.o, 8)))
    return not isc(pb) and pb.eq(S.H) and isc(t) and t == 0
def isref_(st, s): return lt(st.read('i64', s.b, iadd(s.o, 8)), 0)
def slen(st): return st.read('i32', S.H, 16)
def elem(st, i): return st.read('gv', S.H, i)
def key(st, i): return st.read('gv', S.KB, imul(i, 32))
def vsize(ctx, x):
    n = lf('sizeof', x); ctx.fact(ge(n, 0)); ctx.fact(lt(n, 1 << 28)); return n
def tagof(v):
    t = lf('tagof', v); return ite(lt(t, 0), 0, t)
def put(post, s, v):
    post.st('gv', s.b, s.o, v); post.st('i64', s.b, iadd(s.o, 8), tagof(v)); post.stp(s, Ptr(lf('heapof', v), 0))
def putref(post, s, i):
    post.st('gv', s.b, s.o, NIL); post.st('i64', s.b, iadd(s.o, 8), isub(-1, i)); post.stp(s, Ptr(S.H, 0))
def anyslot(p, v):
    p.havoc('gv', v.b, v.o, 1); p.havoc('i64', v.b, iadd(v.o, 8), 1); p.havoc('pb', v.b, v.o, 1); p.havoc('po', v.b, v.o, 1)
def notmodelled(what): raise Undecided('%s is outside the sequence level' % what)

def sq(name, args, spec, ctor=None, dtor=None):
    SEQ[name] = Contract(name + '@sequence', args, spec, ctor=ctor, dtor=dtor)
SEQ = {}
def s_default(c):
    r = c.a[0]; p = c.post(); put(p, r, NIL); p.st('i64', r.b, iadd(r.o, 8), 0); p.stp(r, NULL); begin(c, r, p); c.case('', post=p)
sq(P + 'C2Ev', ['ctor'], s_default)
def copyslot(p, st, v, r):
    p.st('gv', r.b, r.o, st.read('gv', v.b, v.o)); p.st('i64', r.b, iadd(r.o, 8), st.read('i64', v.b, iadd(v.o, 8))); p.stp(r, st.ldp(v))
def s_copyctor(c):
    r, v = c.a; st = c.pre; p = c.post()
    if not isc(v.b) and v.b.eq(S.KB): put(p, r, val(st, v))
    else: copyslot(p, st, v, r)
    begin(c, r, p); c.case('', post=p)
sq(P + 'C2ERKS0_', ['ctor', 'var'], s_copyctor)
def s_movector(c):
    r, v = c.a; st = c.pre; p = c.post()
    if isthis(c, v): notmodelled('a move of the array itself')
    copyslot(p, st, v, r); begin(c, r, p)
    p.st('gv', v.b, v.o, NIL); p.st('i64', v.b, iadd(v.o, 8), 0); p.stp(v, NULL); c.case('', post=p)
sq(P + 'C2EOS0_', ['ctor', 'var'], s_movector)
def s_str(c):
    r = c.a[0]; p = c.post(); put(p, r, lf('text', c.a[-1])); begin(c, r, p); c.case('', post=p)
sq(P + 'C2EPKc', ['ctor', 'ptr'], s_str)
def s_dtor(c):
    s = c.a[0]; p = c.post(); end(c, s, p); c.case('', post=p)
sq(P + 'D2Ev', ['var'], s_dtor)
for T, k in (('c', 1), ('i', 2), ('l', 3)):
    def s_num(c, k=k):
        r, v = c.a; p = c.post(); put(p, r, lf('number', k, v)); begin(c, r, p); c.case('', post=p)
    sq(P + 'C2E' + T, ['ctor', 'i32'], s_num)
def s_deref(c):
    s = c.a[0]; st = c.pre; p = c.post(); v = val(st, s)
    if isthis(c, s): c.case('', ret=s, post=p); return
    put(p, s, v); c.case('', ret=s, post=p)
sq(P + '11dereferenceEv', ['var'], s_deref)
def s_assign(c):
    s, v = c.a; st = c.pre; x = val(st, v)
    post = lambda: c.post()
    if isthis(c, s): notmodelled('assignment to the array itself')
    p0 = c.post()
    if not (not isc(v.b) and v.b.eq(S.KB)): put(p0, v, x)
    if not isc(s.b) and s.b.eq(S.KB):
        p0.st('gv', s.b, s.o, x); c.case('key', ret=s, post=p0); return
    r = isref_(st, s)
    if norm(r) is not False:
        i = isub(-1, st.read('i64', s.b, iadd(s.o, 8)))
        p = p0.copy(); p.st('gv', S.H, i, x)
        c.require(implies(r, and_(ge(i, 0), lt(i, slen(st)))), 'the element exists')
        # assigning to an element that is a view writes into what it views
        c.require(implies(and_(r, c.ex.seqgen), eq(st.read('gv', S.H, i), NIL)), 'the element assigned to holds nothing')
        c.case('element', r, ret=s, post=p)
    if norm(r) is not True:
        p = p0.copy(); put(p, s, x); c.case('var', not_(r), ret=s, post=p)
sq(P + 'aSES0_', ['var', 'val'], s_assign)
def s_clear(c):
    s = c.a[0]; st = c.pre
    if isthis(c, s): notmodelled('clear of the array itself')
    if not isc(s.b) and s.b.eq(S.KB):
        p = c.post(); p.st('gv', s.b, s.o, NIL); c.case('key', ret=s, post=p); return
    r = isref_(st, s)
    if norm(r) is not False:
        i = isub(-1, st.read('i64', s.b, iadd(s.o, 8))); p = c.post(); p.st('gv', S.H, i, NIL)
        c.require(implies(r, and_(ge(i, 0), lt(i, slen(st)))), 'the element exists'); c.case('element', r, ret=s, post=p)
    if norm(r) is not True:
        p = c.post(); put(p, s, NIL); c.case('var', not_(r), ret=s, post=p)
sq(P + '5clearEv', ['var'], s_clear)
def s_size(c):
    s = c.a[0]
    c.case('', ret=slen(c.pre) if isthis(c, s) else vsize(c.ctx, val(c.pre, s)))
sq(PK + '4sizeEv', ['var'], s_size)
def s_resize(c):
    s, n = c.a; st = c.pre
    if not isthis(c, s): notmodelled('resize of another value')
    c.require(ge(n, 0), 'length not negative')
    old = slen(st); p = c.post(); p.st('i32', S.H, 16, n)
    # elements that come into being are undefined in generic arrays
    f = z3.Function('newelem!%d' % next(c.ctx.cnt), I, I)
    def e(b, o): return ite(c.ex.seqgen, NIL, f(zv(o)))
    p.m['gv'] = RangeS(p.m['gv'], (lambda b, o: and_(eq(b, S.H), ge(o, ite(lt(n, old), n, old)))), e, False, [S.H])
    p.m['gv'] = RangeS(p.m['gv'], (lambda b, o: and_(eq(S.T, 9), eq(b, S.KB), ge(o, imul(ite(lt(n, old), n, old), 32)), eq(norm(zv(o) % 32), 0))), (lambda b, o: NIL), False, [S.KB])
    c.case('', ret=s, post=p)
sq(P + '6resizeEi', ['var', 'i32'], s_resize)
def inst(c, i):
    """what is assumed of every element, for element i"""
    f = getattr(c.ex, 'oninst', None)
    return [f(i)] if f else []
def s_at(c):
    r, s, i = c.a; st = c.pre; p = c.post()
    if isthis(c, s):
        inr = and_(ge(i, 0), lt(i, slen(st)))
        c.throws('out of range', not_(inr))
        putref(p, r, i); begin(c, r, p); c.case('', inr, post=p, ensures=inst(c, i)); return
    x = val(st, s); inr = and_(ge(i, 0), lt(i, vsize(c.ctx, x)))
    c.throws('out of range', not_(inr))
    put(p, r, lf('elemof', x, i)); begin(c, r, p); c.case('', inr, post=p)
sq(PK + '2atEi', ['sret', 'var', 'i32'], s_at)
def s_ix(c):
    r, s, i = c.a; st = c.pre
    if not isthis(c, s): s_at(c); return
    # one past the end, or more: the array grows
    n = slen(st); c.throws('negative index', lt(i, 0))
    p = c.post(); putref(p, r, i); begin(c, r, p); c.case('', and_(ge(i, 0), lt(i, n)), post=p)
    g = ge(i, n)
    p = c.post(); p.st('i32', S.H, 16, iadd(i, 1))
    f = z3.Function('newelem!%d' % next(c.ctx.cnt), I, I)
    p.m['gv'] = RangeS(p.m['gv'], (lambda b, o: and_(eq(b, S.H), ge(o, n))), (lambda b, o: ite(c.ex.seqgen, NIL, f(zv(o)))), False, [S.H])
    putref(p, r, i); begin(c, r, p); c.case('grown', g, post=p)
sq(P + 'ixEi', ['sret', 'var', 'i32'], s_ix)
def s_reference(c):
    r, s, i = c.a; p = c.post()
    if not isthis(c, s): notmodelled('reference() of another value')
    putref(p, r, i); begin(c, r, p); c.case('', post=p)
sq(PK + '9referenceEi', ['sret', 'var', 'i32'], s_reference)
def s_copy(c):
    r, s, ao = c.a; st = c.pre; p = c.post()
    if isthis(c, s): notmodelled('a deep copy of the array itself')
    put(p, r, val(st, s)); begin(c, r, p); c.case('', ao is False or norm(not_(ao)), post=p)
sq(PK + '4copyEb', ['sret', 'var', 'i1'], s_copy)
def s_heap(c):
    s = c.a[0]
    if isthis(c, s): c.case('', ret=Ptr(S.H, 0)); return
    notmodelled('the heap of another value')
sq(PK + '4heapEv', ['var'], s_heap)
def s_view(c):
    if not isthis(c, c.a[0]): notmodelled('view() of another value')
    c.case('', ret=False)
sq(PK + '4viewEv', ['var'], s_view)
def s_defined(c):
    s = c.a[0]
    c.case('', ret=True if isthis(c, s) else not_(eq(val(c.pre, s), NIL)))
sq(PK + '7definedEv', ['var'], s_defined)
def s_atype(c):
    if not isthis(c, c.a[0]): notmodelled('the element type of another value')
    c.case('', ret=S.T)
sq(PK + '5atypeEv', ['var'], s_atype)
def s_type(c):
    if isthis(c, c.a[0]): c.case('', ret=0); return
    v = val(c.pre, c.a[0]); t = lf('typeof', v); c.ctx.fact(ge(t, 0)); c.ctx.fact(le(t, 7)); c.case('', ret=t)
sq(PK + '4typeEv', ['var'], s_type)
def s_key(c):
    h, i = c.a; st = c.pre
    inr = and_(ge(i, 0), lt(i, slen(st)), eq(S.T, TYPE_PAIR))
    c.throws('no such key', not_(inr)); c.case('', inr, ret=Ptr(S.KB, imul(i, 32)), ensures=inst(c, i))
for n in ('V:', ''): sq(n + HP + '3keyEi', ['heap', 'i32'], s_key)
def less(c, x, y):
    """x < y, where y is the value searched for: the elements (keys of a map) are in order, so that those below y come first"""
    r = lf('less', x, y, ret=B)
    return r
def s_cmp(op):
    def sp(c):
        s, v = c.a; st = c.pre; x, y = val(st, s), val(st, v)
        L = lambda a, b: lf('less', a, b, ret=B); E = lambda a, b: lf('equal', a, b, ret=B)
        r = {'lt': lambda: L(x, y), 'gt': lambda: L(y, x), 'eq': lambda: E(x, y), 'ne': lambda: not_(E(x, y)), 'le': lambda: not_(L(y, x)), 'ge': lambda: not_(L(x, y))}[op]()
        p = c.post()
        if not isthis(c, v) and not (not isc(v.b) and v.b.eq(S.KB)): p.havoc('gv', v.b, v.o, 1); put(p, v, y)
        c.case('', ret=r, post=p)
    return sp
for op in ('lt', 'gt', 'eq', 'ne', 'le', 'ge'): sq(PK + op + 'ES0_', ['var', 'val'], s_cmp(op))

def su_seq(this=0, data=None, gen=None, T=None):
    def su(ex, args, st):
        s = args[this]; ctx = ex.ctx
        ex.seqthis = s; ex.seqdata = args[data] if data is not None else None
        for b, k in ((S.H, K_HEAP), (S.KB, K_OTHER)):
            ctx.mark_ext(b); ctx.fact(b >= 1); st.addkind(b, {k})
        ctx.fact(S.H != S.KB)
        ctx.fact(z3.And(S.T >= 1, S.T <= 9))
        if T is not None: st.assume(eq(S.T, T))
        ex.seqgen = ge(S.T, 8) if T is None else T >= 8
        if T == 'num': pass
        if not isc(s.b): st.addkind(s.b, {K_VAR}); st.assume(not_(eq(s.b, S.KB)))
        st.st('i64', s.b, iadd(s.o, 8), 0); st.stp(s, Ptr(S.H, 0))
        st.st('vt', S.H, 0, ctx.clsid(HEAPVT)); st.assume(and_(ge(slen(st), 0), lt(slen(st), 1 << 28)))
        st.read('i64', S.H, 24)
        nil = ctx.gid('_ZN6libube3nilE'); ctx.ginfo.setdefault(nil, {})
        st.st('gv', nil, 0, NIL); st.st('i64', nil, 8, 0); st.stp(Ptr(nil, 0), NULL)
    return su
def closed(name, args, spec, T=None, this=0, tag='', **kw):
    opts = dict(kw.pop('opts', {})); opts['closed'] = True
    base = su_seq(this, T=T)
    extra = kw.pop('setup', None)
    def su(ex, args, st):
        base(ex, args, st)
        if extra: extra(ex, args, st)
    con = Contract(name + '@' + (tag or 'sequence'), args, spec, local=SEQ, opts=opts, setup=su, **kw)
    CHECKS.append(con); return con
def plainarg(i):
    """the argument is a value or a reference to an element"""
    def f(c):
        s = c.a[i]; t = c.pre.read('i64', s.b, iadd(s.o, 8))
        return [implies(lt(t, 0), and_(lt(isub(-1, t), slen(c.pre)), eq(c.pre.read('pb', s.b, s.o), S.H), eq(c.pre.read('po', s.b, s.o), 0)))]
    return f

# ------------------------------------------------------------------ binary search
def ordered(c, y):
    """the number of elements (keys) below y; they come first because the array is in order"""
    p = lf('rank', y); c.ctx.fact(ge(p, 0)); c.ctx.fact(le(p, slen(c.ex.seq0))); return p
def rankfacts(ctx, st, y, mapp, k):
    p = lf('rank', y)
    x = key(st, k) if mapp is True else elem(st, k) if mapp is False else ite(mapp, key(st, k), elem(st, k))
    return implies(and_(le(0, k), lt(k, slen(st))), beq(lf('less', x, y, ret=B), lt(k, p)))
def sp_binary(c):
    s, v = c.a; st = c.pre; y = val(st, v)
    if not isthis(c, s): notmodelled('binary() of another value')
    p = c.post(); anyslot(p, v)
    if c.mode == 'use':
        # the order of the array is that at the start
        c.require(and_(eq(slen(st), slen(c.ex.seq0))), 'the array is as it was')
        if st.m['gv'] is not c.ex.seq0.m['gv']: c.ctx.fact(True)
    c.case('number of smaller elements', ret=ordered(c, y), post=p)
SEQ[PK + '6binaryES0_'] = Contract(PK + '6binaryES0_@sequence', ['var', 'val'], sp_binary)
def as_data(i, search=True, T=None):
    pa = plainarg(i)
    def f(c):
        y = val(c.pre, c.a[i]); c.ex.seqy = y; st0 = c.pre.copy(); c.ex.seq0 = st0; ctx = c.ctx
        if search:
            ordered(c, y)
            c.ex.oninst = lambda k: rankfacts(ctx, st0, y, eq(S.T, 9) if T is None else T == 9, k)
        return pa(c)
    return f
def base0(c): c.ex.seq0 = c.pre.copy(); return []
def cand_binary(lv):
    st = lv.st0; p = lf('rank', lv.ex.seqy); n = slen(st); out = []
    for i in lv.phis:
        v = lv.vals[i.dst]
        if isinstance(v, (Ptr, z3.BoolRef)): continue
        out += [le(v, p), le(p, v), ge(v, 0), le(v, n)]
        for j in lv.phis:
            w = lv.vals[j.dst]
            if j is not i and not isinstance(w, (Ptr, z3.BoolRef)): out.append(le(v, w))
    return out
NOTMAP = lambda a: (lambda c: a(c) + [lt(S.T, 9)])
TYPED = lambda a: (lambda c: a(c) + [lt(S.T, 8)])
closed(PK + '6binaryES0_', ['var', 'val'], sp_binary, tag='array', assumes=NOTMAP(as_data(1, T=8)), loops={None: {'cand': cand_binary}}, props=['C11', 'C09'])
closed(PK + '6binaryES0_', ['var', 'val'], sp_binary, T=9, tag='map', assumes=as_data(1, T=9), loops={None: {'cand': cand_binary}}, props=['C11', 'C09'])

# ------------------------------------------------------------------ the position of an element
EQ = lambda x, y: lf('equal', x, y, ret=B)
def sp_index(mapp):
    def sp(c):
        s, v = c.a; st = c.pre; y = val(st, v); n = slen(st)
        p = c.post(); anyslot(p, v)
        if mapp:
            r = ordered(c, y); f = and_(lt(r, n), EQ(key(st, r), y))
            c.case('position of the key', f, ret=r, post=p); c.case('no such key', not_(f), ret=-1, post=p); return
        r = c.unknown(lambda o: o.val, 'pos')
        c.case('', post=p, ret=r, ensures=[or_(eq(r, -1), and_(ge(r, 0), lt(r, n), EQ(elem(st, r), y)))], foralls=[(0, ite(lt(r, 0), n, r), lambda k: not_(EQ(elem(st, k), y)))])
    return sp
closed(PK + '5indexES0_', ['var', 'val'], sp_index(False), tag='array', assumes=NOTMAP(as_data(1, False)), props=['C11'])
closed(PK + '5indexES0_', ['var', 'val'], sp_index(True), T=9, tag='map', assumes=as_data(1, T=9), props=['C11', 'C09'])

# ------------------------------------------------------------------ insert and remove
def seqrange(post, b, lo, f, scale=1):
    post.m['gv'] = RangeS(post.m['gv'], (lambda bb, o: and_(eq(bb, b), ge(o, imul(lo, scale)), eq(norm(zv(o) % scale), 0) if scale > 1 else True)), (lambda bb, o: f(o if scale == 1 else norm(z3.simplify(zv(o) / scale)))), False, [b])
def junk(post, b, lo, scale=1):
    """positions at and after lo are not elements"""
    f = z3.Function('junk!%d' % next(post.ctx.cnt), I, I)
    post.m['gv'] = RangeS(post.m['gv'], (lambda bb, o: and_(eq(bb, b), ge(o, imul(lo, scale)))), (lambda bb, o: f(zv(o))), True, [b])
def lenset(post, n): post.st('i32', S.H, 16, n); junk(post, S.H, n); junk(post, S.KB, n, 32)
def sp_insert(c):
    s, v, i = c.a; st = c.pre; n = slen(st); y = val(st, v)
    if not isthis(c, s): notmodelled('insert() into another value')
    c.throws('negative position', lt(i, 0), RANGE)
    c.throws('position beyond the end', gt(i, n), RANGE)
    ok = and_(ge(i, 0), le(i, n)); T = S.T
    for nm, g in (('array of var', eq(T, 8)), ('map', eq(T, 9)), ('array of numbers', lt(T, 8))):
        g = and_(ok, g)
        if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [zv(g)]): continue
        p = c.post(); anyslot(p, v)
        m = vsize(c.ctx, y) if nm == 'array of numbers' else 1
        if nm == 'map':
            seqrange(p, S.KB, i, lambda k: ite(eq(k, i), y, key(st, isub(k, 1))), 32)
            seqrange(p, S.H, i, lambda k: ite(eq(k, i), NIL, elem(st, isub(k, 1))))
        elif m == 1: seqrange(p, S.H, i, lambda k: ite(eq(k, i), y, elem(st, isub(k, 1))))
        else: seqrange(p, S.H, i, lambda k: ite(lt(k, iadd(i, m)), lf('elemof', y, isub(k, i)), elem(st, isub(k, m))))
        lenset(p, iadd(n, m))
        c.case(nm, g, ret=s, post=p)
SEQ[P + '6insertES0_i'] = Contract(P + '6insertES0_i@sequence', ['var', 'val', 'i32'], sp_insert)
for tag, T, a in (('array of var', 8, as_data(1, False)), ('map', 9, as_data(1, False)), ('array of numbers', None, TYPED(as_data(1, False)))):
    closed(P + '6insertES0_i', ['var', 'val', 'i32'], sp_insert, T=T, tag=tag, assumes=a, props=['C08', 'C09', 'C03'] if T == 9 else ['C08', 'C03'])
def sp_remove(c):
    r, s, i = c.a; st = c.pre; n = slen(st)
    c.throws('no such element', or_(lt(i, 0), ge(i, n)), RANGE)
    p = c.post(); put(p, r, elem(st, i)); begin(c, r, p)
    seqrange(p, S.H, i, lambda k: elem(st, iadd(k, 1)))
    p.m['gv'] = RangeS(p.m['gv'], (lambda bb, o: and_(eq(S.T, 9), eq(bb, S.KB), ge(o, imul(i, 32)), eq(norm(zv(o) % 32), 0))), (lambda bb, o: key(st, iadd(norm(z3.simplify(zv(o) / 32)), 1))), False, [S.KB])
    lenset(p, isub(n, 1))
    c.case('removed', and_(ge(i, 0), lt(i, n)), post=p)
for tag, T, a in (('array of var', 8, base0), ('map', 9, base0), ('array of numbers', None, TYPED(base0))):
    closed(P + '6removeEi', ['sret', 'var', 'i32'], sp_remove, T=T, this=1, ctor=0, tag=tag, assumes=a, props=['C08', 'C09', 'C03'] if T == 9 else ['C08', 'C03'])
def sp_pop(c):
    r, s = c.a; st = c.pre; n = slen(st)
    c.throws('empty', lt(n, 1), RANGE)
    p = c.post(); put(p, r, elem(st, isub(n, 1))); begin(c, r, p); lenset(p, isub(n, 1))
    c.case('last element', ge(n, 1), post=p)
closed(P + '3popEv', ['sret', 'var'], sp_pop, this=1, ctor=0, assumes=base0, props=['C08', 'C03'])
def sp_push(c):
    s, v = c.a; st = c.pre; n = slen(st)
    p = c.post(); y = val(st, v); anyslot(p, v); p.st('gv', S.H, n, y); lenset(p, iadd(n, 1))
    c.case('last element', ret=s, post=p)
closed(P + '4pushES0_', ['var', 'val'], sp_push, assumes=as_data(1, False), props=['C08'])
# ------------------------------------------------------------------ maps
def sp_lookup(c):
    r, s, v = c.a; st = c.pre; y = val(st, v); n = slen(st)
    q = ordered(c, y); f = and_(lt(q, n), EQ(key(st, q), y))
    p = c.post(); anyslot(p, v); putref(p, r, q); begin(c, r, p); c.case('the entry', f, post=p)
    p = c.post(); anyslot(p, v); put(p, r, NIL); p.st('i64', r.b, iadd(r.o, 8), 0); p.stp(r, NULL); begin(c, r, p); c.case('absent', not_(f), post=p)
closed(PK + '2atES0_', ['sret', 'var', 'val'], sp_lookup, T=9, this=1, ctor=0, assumes=as_data(2, T=9), props=['C09', 'C20'])
def sp_mapix(c):
    r, s, v = c.a; st = c.pre; y = val(st, v); n = slen(st)
    q = ordered(c, y); f = and_(lt(q, n), EQ(key(st, q), y)); u = eq(y, NIL)
    p = c.post(); anyslot(p, v); put(p, r, NIL); p.st('i64', r.b, iadd(r.o, 8), 0); p.stp(r, NULL); begin(c, r, p); c.case('undefined key', u, post=p)
    p = c.post(); anyslot(p, v); putref(p, r, q); begin(c, r, p); c.case('the entry', and_(not_(u), f), post=p)
    p = c.post(); anyslot(p, v); putref(p, r, q); begin(c, r, p)
    seqrange(p, S.KB, q, lambda k: ite(eq(k, q), y, key(st, isub(k, 1))), 32)
    seqrange(p, S.H, q, lambda k: ite(eq(k, q), NIL, elem(st, isub(k, 1))))
    lenset(p, iadd(n, 1))
    c.case('a new entry in its place', and_(not_(u), not_(f)), post=p)
closed(P + 'ixES0_', ['sret', 'var', 'val'], sp_mapix, T=9, this=1, ctor=0, assumes=as_data(2, T=9), props=['C09'])
def sp_keyof(c):
    r, s, i = c.a; st = c.pre; inr = and_(ge(i, 0), lt(i, slen(st)))
    c.throws('no such key', not_(inr))
    p = c.post(); put(p, r, key(st, i)); begin(c, r, p); c.case('key', inr, post=p)
closed(PK + '3keyEi', ['sret', 'var', 'i32'], sp_keyof, T=9, this=1, ctor=0, assumes=base0, props=['C09', 'C03'])

# ------------------------------------------------------------------ results that are built by adding elements
LG = z3.Int('seqL')
def islog(c, s):
    b = getattr(c.ex, 'logslot', None)
    return b is not None and isc(s.b) == isc(b.b) and (s.b == b.b if isc(s.b) else s.b.eq(b.b))
def loglen(st): return st.read('i32', LG, 16)
def su_log(ex, args, st):
    ex.logslot = args[0]; ex.ctx.mark_ext(LG); ex.ctx.fact(LG >= 1); ex.ctx.fact(LG != S.H); ex.ctx.fact(LG != S.KB); st.addkind(LG, {K_OTHER}); st.st('i32', LG, 16, 0)
def lctor(c):
    if not islog(c, c.a[0]): return s_default(c)
    p = c.post(); begin(c, c.a[0], p); c.case('', post=p)
def lsize(c):
    if islog(c, c.a[0]): c.case('', ret=loglen(c.pre))
    else: s_size(c)
def lpresize(c):
    if not islog(c, c.a[0]): notmodelled('presize')
    c.case('', ret=c.a[0])
def lput(c, y):
    st = c.pre; n = loglen(st); p = c.post(); p.st('gv', LG, n, y); p.st('i32', LG, 16, iadd(n, 1)); return p
def lbinary(c):
    if not islog(c, c.a[0]): return sp_binary(c)
    y = val(c.pre, c.a[1]); c.case('', ret=lf('place', loglen(c.pre), y))
def linsert(c):
    if not islog(c, c.a[0]): notmodelled('insert')
    y = val(c.pre, c.a[1]); c.require(eq(c.a[2], lf('place', loglen(c.pre), y)), 'inserted where binary search puts it')
    c.case('', ret=c.a[0], post=lput(c, y))
def lpush(c):
    if not islog(c, c.a[0]): notmodelled('push')
    c.case('', ret=c.a[0], post=lput(c, val(c.pre, c.a[1])))
def lplus(c):
    s, v = c.a; st = c.pre; c.require(not_(isref_(st, s)), 'not an element of another array'); p = c.post(); put(p, s, lf('plus', val(st, s), val(st, v))); c.case('', ret=s, post=p)
LOG = dict(SEQ)
def lg(name, args, spec, **k): LOG[name] = Contract(name + '@sequence', args, spec, **k)
lg(P + 'C2Ev', ['ctor'], lctor); lg(PK + '4sizeEv', ['var'], lsize); lg(P + '7presizeEi', ['var', 'i32'], lpresize); lg(PK + '6binaryES0_', ['var', 'val'], lbinary)
lg(P + '6insertES0_i', ['var', 'val', 'i32'], linsert); lg(P + '4pushES0_', ['var', 'val'], lpush); lg(P + 'pLES0_', ['var', 'val'], lplus)
def dcopy(c):
    s, v = c.a; st = c.pre; p = c.post()
    if islog(c, v): notmodelled('copying the result')
    s_copyctor(c)
lg(P + 'C2ERKS0_', ['ctor', 'var'], dcopy)
def sp_sort(c):
    st = c.pre; n = slen(st); p = c.post(); begin(c, c.a[0], p)
    p.m['gv'] = RangeS(p.m['gv'], (lambda b, o: and_(eq(b, LG), ge(o, 0), lt(o, n))), (lambda b, o: elem(st, o)), False, [LG])
    p.st('i32', LG, 16, n); c.case('every element once, where it belongs', post=p)
con = Contract(PK + '4sortEv', ['sret', 'var'], sp_sort, local=LOG, ctor=0, opts={'closed': True}, setup=lambda ex, a, st: (su_seq(1)(ex, a, st), su_log(ex, a, st)), props=['C11'])
CHECKS.append(con)
def iterfacts(ctx, lo, step, n):
    t = lf('term', n); ctx.fact(eq(lf('term', 0), lo)); ctx.fact(implies(ge(n, 0), eq(lf('term', iadd(n, 1)), lf('plus', t, step)))); return t
def sp_range(incl):
    def sp(c):
        st = c.pre; lo, hi, step = [val(st, c.a[k]) for k in (1, 2, 3)]; N = c.unknown(lambda o: loglen(o.st), 'n')
        go = (lambda x: not_(lf('less', hi, x, ret=B))) if incl else (lambda x: lf('less', x, hi, ret=B))
        p = c.post(); begin(c, c.a[0], p)
        for k in (1, 2, 3): anyslot(p, c.a[k])
        p.m['gv'] = RangeS(p.m['gv'], (lambda b, o: and_(eq(b, LG), ge(o, 0), lt(o, N))), (lambda b, o: iterfacts(c.ctx, lo, step, o)), False, [LG])
        p.st('i32', LG, 16, N)
        c.case('lo, lo+step, ... while within', post=p, ensures=[ge(N, 0), not_(go(iterfacts(c.ctx, lo, step, N)))], foralls=[(0, N, lambda k: go(iterfacts(c.ctx, lo, step, k)))])
    return sp
def fun_range(lv):
    lo, step = lv.ex.rng; t = iterfacts(lv.ex.ctx, lo, step, lv.n); return [t, tagof(t), lf('heapof', t)]
def as_range(c):
    c.ex.rng = (val(c.pre, c.a[1]), val(c.pre, c.a[3])); st = c.pre; out = []
    return [implies(isref_(st, c.a[k]), ge(isub(-1, st.read('i64', c.a[k].b, 8)), 0)) for k in (1, 2, 3)]
def su_rng(ex, a, st):
    ctx = ex.ctx
    for b, k in ((S.H, K_HEAP), (S.KB, K_OTHER)): ctx.mark_ext(b); ctx.fact(b >= 1); st.addkind(b, {k})
    ctx.fact(S.H != S.KB); ex.seqgen = True; su_log(ex, a, st); ex.seq0 = st
for n, incl in (('_ZN6libube5rangeENS_3varES0_S0_', True), ('_ZN6libube6irangeENS_3varES0_S0_', False)):
    CHECKS.append(Contract(n, ['sret', 'val', 'val', 'val'], sp_range(incl), local=LOG, ctor=0, assumes=as_range, opts={'closed': True}, setup=su_rng, loops={None: {'fun': fun_range, 'cells': True}}, props=['C11']))

# ------------------------------------------------------------------ why sort() sorts
def lemma_sorted():
    """inserting where binary search says keeps an ordered array ordered and the other elements"""
    V = z3.DeclareSort('Value'); less = z3.Function('lessthan', V, V, z3.BoolSort()); a = z3.Function('a', I, V); b = z3.Function('b', I, V); y = z3.Const('y', V)
    n, p, i, j, k = z3.Ints('n p i j k'); u, v, w = z3.Consts('u v w', V)
    hyps = [z3.ForAll([u, v], z3.Implies(less(u, v), z3.Not(less(v, u)))),
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(less(a(j), a(i))))), 0 <= p, p <= n,
            z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), less(a(k), y) == (k < p))),                       # contract of binary()
            z3.ForAll([k], b(k) == z3.If(k < p, a(k), z3.If(k == p, y, a(k - 1))))]                            # contract of insert()
    x, z = z3.Ints('x z')
    yield 'ordered after insertion', hyps, z3.Implies(z3.And(0 <= x, x < z, z <= n), z3.Not(less(b(z), b(x))))
    yield 'the new element is there', hyps, b(p) == y
    yield 'every old element is there once', hyps, z3.Implies(z3.And(0 <= x, x < n), z3.And(b(z3.If(x < p, x, x + 1)) == a(x), z3.If(x < p, x, x + 1) != p))
CHECKS.append(Lemma('sorted insertion', lemma_sorted, ['C11', 'C09']))
def lemma_map():
    """what binary(), insert() and operator[](var) do keeps the keys distinct and in order; a key looked up is the one stored"""
    V = z3.DeclareSort('Key'); less = z3.Function('keyless', V, V, z3.BoolSort()); same = z3.Function('keysame', V, V, z3.BoolSort())
    a = z3.Function('ka', I, V); b = z3.Function('kb', I, V); va = z3.Function('va', I, I); vb = z3.Function('vb', I, I); y = z3.Const('y', V)
    n, p, i, j, k, w = z3.Ints('n p i j k w'); u, v, t = z3.Consts('u v t', V)
    order = [z3.ForAll([u, v], z3.Implies(less(u, v), z3.Not(less(v, u)))), z3.ForAll([u, v, t], z3.Implies(z3.And(less(u, v), less(v, t)), less(u, t))),
             z3.ForAll([u, v], z3.Or(less(u, v), less(v, u), same(u, v))), z3.ForAll([u, v], z3.Implies(same(u, v), z3.And(z3.Not(less(u, v)), z3.Not(less(v, u)), same(v, u)))), z3.ForAll([u, v, t], z3.Implies(z3.And(same(u, v), less(t, u)), less(t, v)))]
    inc = [n >= 0, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), less(a(i), a(j))))]
    place = [0 <= p, p <= n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), less(a(k), y) == (k < p)))]
    absent = [z3.Not(z3.And(p < n, same(a(p), y)))]
    ins = [z3.ForAll([k], b(k) == z3.If(k < p, a(k), z3.If(k == p, y, a(k - 1)))), z3.ForAll([k], vb(k) == z3.If(k < p, va(k), z3.If(k == p, w, va(k - 1))))]
    x, z = z3.Ints('x z')
    yield 'a key that is there is found', order + inc + place, z3.Implies(z3.And(0 <= x, x < n, same(a(x), y)), z3.And(p < n, same(a(p), y), x == p))
    yield 'keys distinct and in order after a new entry', order + inc + place + absent + ins, z3.Implies(z3.And(0 <= x, x < z, z <= n), less(b(x), b(z)))
    yield 'the new entry has the value stored', ins + place, z3.And(b(p) == y, vb(p) == w)
    yield 'other entries keep key and value', ins + place, z3.Implies(z3.And(0 <= x, x < n), z3.And(b(z3.If(x < p, x, x + 1)) == a(x), vb(z3.If(x < p, x, x + 1)) == va(x)))
    rem = [0 <= p, p < n, z3.ForAll([k], b(k) == z3.If(k < p, a(k), a(k + 1))), z3.ForAll([k], vb(k) == z3.If(k < p, va(k), va(k + 1)))]
    yield 'keys distinct and in order after removal', order + inc + rem, z3.Implies(z3.And(0 <= x, x < z, z < n - 1), less(b(x), b(z)))
    yield 'other entries survive removal', rem, z3.Implies(z3.And(0 <= x, x < n, x != p), z3.And(b(z3.If(x < p, x, x - 1)) == a(x), vb(z3.If(x < p, x, x - 1)) == va(x)))
CHECKS.append(Lemma('associations', lemma_map, ['C09']))
