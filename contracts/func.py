"""Functors: operators and broadcasting.

A var is known here by what it stands for (ghost 'gv' of its slot).  Shape, size, stride, element type, elements and
the address of the data of a value are uninterpreted functions of it; the contracts of the var methods used say
which exception is raised when there is no such thing (assumed at this level).  Operations on parts are recorded in a
log, in order, with their offsets; library calls are recorded as events."""
from .lib import *
from .seq import lf, SEQ
P = '_ZN6libube3var'; PK = '_ZNK6libube3var'
LG = z3.Int('opL')
TEN = {}
def tn(name, args, spec, **k): TEN[name] = Contract(name + '@tensor', args, spec, **k)
def tid(st, s): return st.read('gv', s.b, s.o)
def put(p, s, v):
    p.st('gv', s.b, s.o, v)
def nofact(ctx, f): ctx.fact(f)
def dim(c, x):
    d = lf('dim', x); c.ctx.fact(ge(d, 1)); c.ctx.fact(lt(d, 1 << 20)); return d
def size(c, x):
    n = lf('vsize', x); c.ctx.fact(ge(n, 0)); c.ctx.fact(lt(n, 1 << 28)); return n
def stride(c, x, i):
    n = lf('stride', x, i); c.ctx.fact(ge(n, 0)); c.ctx.fact(lt(n, 1 << 28)); return n
def shape(c, x, i):
    d = dim(c, x); j = ite(lt(i, 0), iadd(i, d), i)
    n = lf('shape', x, j); c.ctx.fact(ge(n, 0)); c.ctx.fact(lt(n, 1 << 28)); return n
def vtype(c, x):
    t = lf('vtype', x); c.ctx.fact(ge(t, 0)); c.ctx.fact(le(t, 7)); return t
def atype(c, x):
    t = lf('atype', x); c.ctx.fact(ge(t, 1)); c.ctx.fact(le(t, 9)); return t
def undef(x): return lf('undef', x, ret=B)
def data(c, x):
    b = lf('data', x); c.ctx.mark_ext(b); c.ctx.fact(ge(b, 1)); c.pre.addkind(b, {K_DATA}); return b
def same(x, y): return lf('same', x, y, ret=B)

# ---- life
def t_new(f):
    def sp(c):
        r = c.a[0]; p = c.post(); put(p, r, f(c)); begin(c, r, p); c.case('', post=p)
    return sp
def t_move(c):
    r, v = c.a; p = c.post(); put(p, r, tid(c.pre, v)); begin(c, r, p); p.havoc('gv', v.b, v.o, 1); c.case('', post=p)
tn(P + 'C2Ev', ['ctor'], t_new(lambda c: 0)); tn(P + 'C2ERKS0_', ['ctor', 'var'], t_new(lambda c: tid(c.pre, c.a[1]))); tn(P + 'C2EOS0_', ['ctor', 'var'], t_move)
tn(P + 'C2EPKc', ['ctor', 'ptr'], t_new(lambda c: lf('text', c.a[-1])))
MT = {1: 'c', 2: 'i', 3: 'l', 4: 'f', 5: 'd', 6: 'St7complexIfE', 7: 'St7complexIdE'}
AK = {1: ['i8'], 2: ['i32'], 3: ['i64'], 4: ['f32'], 5: ['f64'], 6: ['cf32'], 7: ['f64', 'f64']}
def flat(*a):
    out = []
    for x in a: out += flat(*x) if isinstance(x, tuple) else [x]
    return out
def num(k, *v): return lf('number', k, *flat(*v))
for k, m in MT.items(): tn(P + 'C2E' + m, ['ctor'] + AK[k], t_new(lambda c, k=k: num(k, *c.a[1:])))
def t_dtor(c):
    s = c.a[0]; p = c.post(); end(c, s, p); c.case('', post=p)
tn(P + 'D2Ev', ['var'], t_dtor)
def t_assign(c):
    s, v = c.a; p = c.post(); put(p, s, tid(c.pre, v)); c.case('', ret=s, post=p)
tn(P + 'aSES0_', ['var', 'val'], t_assign)
# ---- questions
def t_get(f, ret=I):
    def sp(c): c.case('', ret=f(c))
    return sp
tn(PK + '3dimEv', ['var'], t_get(lambda c: dim(c, tid(c.pre, c.a[0]))))
tn(PK + '4sizeEv', ['var'], t_get(lambda c: size(c, tid(c.pre, c.a[0]))))
tn(PK + '4typeEv', ['var'], t_get(lambda c: vtype(c, tid(c.pre, c.a[0]))))
def t_atype(c):
    x = tid(c.pre, c.a[0]); c.throws('undefined', undef(x)); c.case('', not_(undef(x)), ret=atype(c, x))
tn(PK + '5atypeEv', ['var'], t_atype)
def t_stride(c):
    s, i = c.a; x = tid(c.pre, s); ok = and_(ge(i, 0), lt(i, dim(c, x)))
    c.throws('no such dimension', not_(ok)); c.case('', ok, ret=stride(c, x, i))
tn(PK + '6strideEi', ['var', 'i32'], t_stride)
def inshape(c, x, i):
    d = dim(c, x); return and_(ge(i, isub(0, d)), lt(i, d))
def t_shape(c):
    s, i = c.a; x = tid(c.pre, s); ok = inshape(c, x, i)
    f = getattr(c.ex, 'onshape', None)
    c.throws('no such dimension', not_(ok)); c.case('', ok, ret=shape(c, x, i), ensures=f(c, x, i) if f else [])
tn(PK + '5shapeEi', ['var', 'i32'], t_shape)
def t_shapes(c):
    r, s = c.a; p = c.post(); put(p, r, lf('shapes', tid(c.pre, s))); begin(c, r, p); c.case('', post=p)
tn(PK + '5shapeEv', ['sret', 'var'], t_shapes)
def t_at(c):
    r, s, i = c.a; x = tid(c.pre, s); ok = and_(ge(i, 0), lt(i, size(c, x))); p = c.post(); put(p, r, lf('elem', x, i)); begin(c, r, p)
    c.throws('out of range', not_(ok)); c.case('', ok, post=p)
tn(PK + '2atEi', ['sret', 'var', 'i32'], t_at)
def t_copy(c):
    r, s, ao = c.a; p = c.post(); put(p, r, lf('alike', tid(c.pre, s)) if ao is True else lf('copy', tid(c.pre, s))); begin(c, r, p); c.case('', post=p)
tn(PK + '4copyEb', ['sret', 'var', 'i1'], t_copy)
def t_is(c): c.case('', ret=same(tid(c.pre, c.a[0]), tid(c.pre, c.a[1])))
tn(PK + '2isERS0_', ['var', 'var'], t_is)
def t_defined(c): c.case('', ret=not_(undef(tid(c.pre, c.a[0]))))
tn(PK + '7definedEv', ['var'], t_defined); tn(PK + 'cvbEv', ['var'], t_defined)
def value(f, k, x):
    return tuple(lf('%s_%s_%d' % (f, k, q), x) for q in (0, 1)) if k > 5 else lf('%s_%s' % (f, k), x)
def facts(c, k, v):
    if k <= 3:
        n = {1: 8, 2: 32, 3: 64}[k]; c.ctx.fact(ge(v, -(1 << (n - 1)))); c.ctx.fact(lt(v, 1 << (n - 1)))
    return v
def getv(c, k, x): return facts(c, k, value('get', k, x))
def castv(c, k, x): return facts(c, k, value('cast', k, x))
def nocast(k, x): return lf('nocast', k, x, ret=B)
for k, m in MT.items():
    # get<T>() is asked of a value of that type only
    def t_getT(c, k=k):
        x = tid(c.pre, c.a[0]); c.require(or_(eq(vtype(c, x), k), cdone(c, x)) if k == 7 else eq(vtype(c, x), k), 'a value of that type'); c.case('', ret=getv(c, k, x))
    tn('%s3getI%sEET_v' % (PK, m), ['var'], t_getT)
    def t_castT(c, k=k):
        x = tid(c.pre, c.a[0]); c.throws('no such conversion', nocast(k, x)); c.case('', not_(nocast(k, x)), ret=castv(c, k, x))
    tn('%s4castI%sEET_v' % (PK, m), ['var'], t_castT)
    def t_ptr(c, k=k):
        s, i = c.a; x = tid(c.pre, s)
        bad = and_(lf('hasheap', x, ret=B), not_(eq(atype(c, x), k)))
        c.throws('other type', bad); c.case('', not_(bad), ret=Ptr(data(c, x), imul(i, ESIZE[k])))
    tn('%s3ptrI%sEEPT_NS_3indE' % (P, m), ['var', 'i64'], t_ptr)
def wrongtype(c, x, k): return and_(lf('hasheap', x, ret=B), not_(eq(atype(c, x), k)))
# ---- messages (trusted: they only build the text of an exception)
def t_msg(c):
    s = c.a[0]; p = c.post(); c.case('', post=p)
for n in ('_ZN6libube9varstreamC1ENS_3varE', '_ZN6libube9varstreamC2ENS_3varE'): tn(n, ['ptr', 'val'], t_msg)
for n in ('_ZN6libube9varstreamD1Ev', '_ZN6libube9varstreamD2Ev'): tn(n, ['ptr'], t_msg)
def t_ins(c): c.case('', ret=c.a[0])
for n in ('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc', '_ZNSolsEi', '_ZNSolsEd', '_ZNSolsEPFRSoS_E', '_ZN6libubelsERSoNS_3varE'): tn(n, ['ptr', 'ptr'], t_ins)
tn('_ZNK6libube9varstreamcvNS_3varEEv', ['sret', 'ptr'], t_new(lambda c: lf('message', c.ctx.fresh('msg'))))
# ---- standard library (trusted)
def cx(st, p, k):
    w = 4 if k == 6 else 8; kd = 'f32' if k == 6 else 'f64'
    return tuple(st.read(kd, p.b, iadd(p.o, q * w)) for q in (0, 1))
def cfun(nm, k, *v): return tuple(lf('%s_%d_%d' % (nm, k, q), *flat(*v)) for q in (0, 1))
for k, m in ((6, 'f'), (7, 'd')):
    for sym, nm in (('_ZStpl', 'cadd'), ('_ZStmi', 'csub'), ('_ZStml', 'cmul'), ('_ZStdv', 'cdiv'), ('_ZSt3pow', 'cpow')):
        tn('%sI%sESt7complexIT_ERKS2_S4_' % (sym, m), ['ptr', 'ptr'], t_get(lambda c, k=k, nm=nm: cfun(nm, k, cx(c.pre, c.a[0], k), cx(c.pre, c.a[1], k))))
def rfun(nm, k, *v): return lf('%s_%d' % (nm, k), *flat(*v))
tn('_ZSt3powff', ['f32', 'f32'], t_get(lambda c: rfun('pow', 4, *c.a))); tn('pow', ['f64', 'f64'], t_get(lambda c: rfun('pow', 5, *c.a)))

# ---- the log of operations
def loglen(st): return st.read('i32', LG, 16)
SCALAR, VECTOR, BROADCAST, SUPER, SCALE = 1, 2, 3, 4, 5
FB = 1 << 40        # field q of entry n is at q * FB + n
def logput(p, st, *f):
    n = loglen(st)
    for q, x in enumerate(f): p.st('gv', LG, iadd(q * FB, n), x)
    p.st('i32', LG, 16, iadd(n, 1))
def logged(c, lo, hi, fs):
    """post state in which entries lo..hi-1 (added to an empty log) are fs(i)"""
    p = c.post()
    if isc(lo) and isc(hi):
        for i in range(lo, hi):
            for q, x in enumerate(fs(i)): p.st('gv', LG, q * FB + i, x)
        p.st('i32', LG, 16, hi); return p
    for q in range(len(fs(z3.Int('m')))):
        p.m['gv'] = RangeS(p.m['gv'], lambda b, o, q=q: and_(eq(b, LG), ge(isub(o, q * FB), lo), lt(isub(o, q * FB), hi)), lambda b, o, q=q: fs(isub(o, q * FB))[q], False, [LG])
    p.st('i32', LG, 16, hi); return p
def unspecified(c):
    """the log after a refusal"""
    p = c.post(); p.havoc('gv', LG, 0, 16 * FB); p.havoc('i32', LG, 16, 1); return p
def su(ex, a, st):
    ex.ctx.mark_ext(LG); ex.ctx.fact(LG >= 1); st.addkind(LG, {K_OTHER}); st.st('i32', LG, 16, 0)
    if isinstance(a[0], Ptr): ex.functor = a[0]
UN, BN, AR = '_ZTVN6libube12UnaryFunctorE', '_ZTVN6libube13BinaryFunctorE', '_ZTVN6libube17ArithmeticFunctorE'
def slot(n): return 'V:' + n
def v_log(kind, ops):
    def sp(c):
        st = c.pre; p = c.post(); c.require(eq(c.a[0].b, c.ex.functor.b), 'the same functor')
        logput(p, st, kind, *[tid(st, c.a[i]) if k == 'v' else c.a[i] for i, k in ops]); c.case('', post=p)
    return sp
NU, NB, NA = '_ZNK6libube12UnaryFunctor', '_ZNK6libube13BinaryFunctor', '_ZNK6libube17ArithmeticFunctor'
tn('V:' + NU + '6scalarERKNS_3varERS1_', ['obj', 'var', 'var'], v_log(SCALAR, [(1, 'v'), (2, 'v')]))
tn('V:' + NU + '9broadcastENS_3varERS1_', ['obj', 'val', 'var'], v_log(BROADCAST, [(1, 'v'), (2, 'v')]))
tn('V:' + NU + '6vectorENS_3varENS_3indERS1_S2_', ['obj', 'val', 'i64', 'var', 'i64'], v_log(VECTOR, [(1, 'v'), (2, 'i'), (3, 'v'), (4, 'i')]))
tn('V:' + NU + '6vectorENS_3varERS1_', ['obj', 'val', 'var'], v_log(VECTOR, [(1, 'v'), (2, 'v')]))
tn('V:' + NU + '5allocENS_3varE', ['sret', 'obj', 'val'], t_new(lambda c: lf('space', tid(c.pre, c.a[2]))))
tn('V:' + NB + '6scalarERKNS_3varES3_RS1_', ['obj', 'var', 'var', 'var'], v_log(SCALAR, [(1, 'v'), (2, 'v'), (3, 'v')]))
for n in (NB, NA): tn('V:' + n + '9broadcastENS_3varES1_RS1_', ['obj', 'val', 'val', 'var'], v_log(BROADCAST, [(1, 'v'), (2, 'v'), (3, 'v')]))
tn('V:' + NB + '6vectorENS_3varENS_3indES1_S2_RS1_S2_', ['obj', 'val', 'i64', 'val', 'i64', 'var', 'i64'], v_log(VECTOR, [(1, 'v'), (2, 'i'), (3, 'v'), (4, 'i'), (5, 'v'), (6, 'i')]))
tn('V:' + NB + '6vectorENS_3varES1_RS1_', ['obj', 'val', 'val', 'var'], v_log(VECTOR, [(1, 'v'), (2, 'v'), (3, 'v')]))
tn('V:' + NB + '5allocENS_3varES1_', ['sret', 'obj', 'val', 'val'], t_new(lambda c: lf('space', tid(c.pre, c.a[2]), tid(c.pre, c.a[3]))))
def conf(x, y): return lf('conformable', x, y, ret=B)
def rsize(c, x, y):
    n = lf('resultsize', x, y); c.ctx.fact(ge(n, 0)); c.ctx.fact(lt(n, 1 << 28)); return n
def v_conf(c):
    x, y = tid(c.pre, c.a[1]), tid(c.pre, c.a[2]); c.require(le(dim(c, y), dim(c, x)), 'the second has no more dimensions'); c.case('', ret=conf(x, y))
tn('V:' + NA + '11conformableENS_3varES1_', ['obj', 'val', 'val'], v_conf)
tn('V:' + NA + '10resultSizeENS_3varES1_', ['obj', 'val', 'val'], t_get(lambda c: rsize(c, tid(c.pre, c.a[1]), tid(c.pre, c.a[2]))))

def fc(name, args, spec, props, **k):
    o = dict(closed=True, absdiv=True, iface=k.pop('iface', AR)); o.update(k.pop('opts', {}))
    if args[0] == 'sret': k.setdefault('ctor', 0)
    con = Contract(name, args, spec, local=k.pop('local', TEN), opts=o, setup=k.pop('setup', su), props=props, **k); CHECKS.append(con); return con
mdim = lambda c: c.pre.read('i32', c.a[0].b, 8)
def tdiv(a, b): return ite(gt(b, 0), app('sdiv', a, b), 0)
# ------------------------------------------------------------------ broadcasting
def sp_ubroadcast(c):
    th, v, o = c.a; st = c.pre; x, y = tid(st, v), tid(st, o); D = mdim(c); d, e = dim(c, x), dim(c, y); n, m = size(c, x), size(c, y)
    z = eq(D, 0)
    c.throws('output too small for the elements', and_(z, lt(m, n)), post=unspecified(c))
    c.case('each element', and_(z, ge(m, n)), post=logged(c, 0, n, lambda i: (SCALAR, lf('elem', x, i), lf('elem', y, i))))
    c.throws('too few dimensions', and_(not_(z), gt(D, d)))
    si = ite(gt(d, D), stride(c, x, isub(isub(d, D), 1)), n); so = ite(gt(e, D), stride(c, y, isub(isub(e, D), 1)), m)
    k = tdiv(n, si); small = and_(gt(k, 0), ge(imul(so, isub(k, 1)), m)); g = and_(not_(z), le(D, d))
    c.throws('output too small', and_(g, small))
    c.case('each sub-array', and_(g, not_(small)), post=logged(c, 0, k, lambda i: (VECTOR, x, imul(si, i), y, imul(so, i))))
as_dim = lambda c: [ge(mdim(c), 0), lt(mdim(c), 1 << 20)]
fc(NU + '9broadcastENS_3varERS1_', ['obj', 'val', 'var'], sp_ubroadcast, ['C15'], iface=UN, assumes=as_dim)
def sp_bbroadcast(c):
    th, v, w, o = c.a; st = c.pre; x, y, z = tid(st, v), tid(st, w), tid(st, o); D = mdim(c); d = dim(c, x); cd = isub(d, D)
    bad = or_(undef(x), undef(y), not_(eq(atype(c, x), atype(c, y))), lt(cd, 0))
    c.throws('types differ or too few dimensions', bad)
    one = and_(not_(bad), eq(cd, 0)); more = and_(not_(bad), gt(cd, 0)); i = isub(cd, 1)
    e = lt(0, size(c, y)); c.throws('nothing in the second operand', and_(one, not_(e)))
    c.case('whole', and_(one, e), post=logged(c, 0, 1, lambda i: (VECTOR, x, 0, y, 0, z, 0)))
    nd = and_(more, or_(ge(i, dim(c, y)), ge(i, dim(c, z)))); c.throws('no such dimension', nd)
    s1, s2, so = stride(c, x, i), stride(c, y, i), stride(c, z, i); k = tdiv(size(c, x), s1); g = and_(more, not_(nd)); short_ = and_(gt(k, 0), ge(imul(s2, isub(k, 1)), size(c, y)))
    c.throws('second operand too short', and_(g, short_))
    c.case('each sub-array', and_(g, not_(short_)), post=logged(c, 0, k, lambda i: (VECTOR, x, imul(s1, i), y, imul(s2, i), z, imul(so, i))))
fc(NB + '9broadcastENS_3varES1_RS1_', ['obj', 'val', 'val', 'var'], sp_bbroadcast, ['C15'], iface=BN, assumes=as_dim)
def sp_abroadcast(c):
    th, v, w, o = c.a; st = c.pre; x, y, z = tid(st, v), tid(st, w), tid(st, o); D = mdim(c); d, e, f = dim(c, x), dim(c, y), dim(c, z); n, m, q = size(c, x), size(c, y), size(c, z)
    one = and_(eq(D, 0), eq(e, 1), eq(m, 1))
    c.throws('output too small for the elements', and_(one, lt(q, n)), post=unspecified(c))
    c.case('each element', and_(one, ge(q, n)), post=logged(c, 0, n, lambda i: (SCALAR, lf('elem', x, i), y, lf('elem', z, i))))
    bad = or_(gt(e, d), undef(x), undef(y), not_(eq(atype(c, x), atype(c, y))), not_(conf(x, y)))
    c.throws('operands do not match', and_(not_(one), bad))
    s1 = ite(gt(d, e), stride(c, x, isub(isub(d, e), 1)), n); so = ite(gt(f, e), stride(c, z, isub(isub(f, e), 1)), q); k = tdiv(n, s1); r = rsize(c, x, y); g = and_(not_(one), not_(bad))
    small = or_(and_(gt(k, 1), lt(so, r)), and_(gt(k, 0), gt(iadd(imul(so, isub(k, 1)), r), q)))
    c.throws('output too small', and_(g, small))
    c.case('each sub-array', and_(g, not_(small)), post=logged(c, 0, k, lambda i: (VECTOR, x, imul(s1, i), y, 0, z, imul(so, i))))
fc(NA + '9broadcastENS_3varES1_RS1_', ['obj', 'val', 'val', 'var'], sp_abroadcast, ['C14', 'C15'], assumes=as_dim)
# ------------------------------------------------------------------ scalar operations
def cdone(c, x): return and_(not_(undef(x)), eq(atype(c, x), 7), eq(size(c, x), 1))
tn(PK + '5atypeISt7complexIdEEEbv', ['var'], t_get(lambda c: and_(not_(undef(tid(c.pre, c.a[0]))), eq(atype(c, tid(c.pre, c.a[0])), 7))))
def kindof(c, x): return ite(cdone(c, x), 7, vtype(c, x))
def store(p, c, y, k, v, i=0):
    b = data(c, y); e = ESIZE[k]; kd = {1: 'i8', 2: 'i32', 3: 'i64', 4: 'f32', 5: 'f64', 6: 'f32', 7: 'f64'}[k]; o = imul(i, e)
    if k > 5:
        for q in (0, 1): p.st(kd, b, iadd(o, q * (e // 2)), v[q])
    else: p.st(kd, b, o, v)
def fl(op, k, a, b): return app('%s_%s' % (op, 'f32' if k in (4, 6) else 'f64'), a, b)
def sq(a, b):
    a_, b_ = zv(a), zv(b); return app('sdiv', a_, b_)
INT = {'add': iadd, 'sub': isub, 'mul': imul, 'div': sq}
def compute(c, op, k, a, b):
    if op == 'set': return b
    if op == 'pow': return rfun('pow', k, a, b) if k < 6 else cfun('cpow', k, a, b)
    if k in (4, 5): return fl('f' + op, k, a, b)
    if k > 5: return cfun('c' + op, k, a, b)
    r = INT[op](a, b); return wrap(r, 8) if k == 1 else r
def isget(c, k, x): c.ctx.fact(z3.Implies(zv(eq(kindof(c, x), k)), zv(not_(wrongtype(c, x, k)))) ) if False else None
def scalar3(cls, op, kinds=range(1, 8), sel=1, assign=False):
    def sp(c):
        th, v, w, o = c.a; st = c.pre; x, y, z = tid(st, v), tid(st, w), tid(st, o); t = kindof(c, x if sel == 1 else z)
        p = c.post(); logput(p, st, BROADCAST, x, y, z); c.case('an array: broadcast', eq(t, 0), post=p)
        for k in kinds:
            g = eq(t, k)
            if sel == 1 and k == 7: pass
            bad = nocast(k, y)
            if not assign: bad = or_(bad, wrongtype(c, z, k))
            c.throws('no such conversion %d' % k, and_(g, bad))
            r = compute(c, op, k, getv(c, k, x) if sel == 1 else None, castv(c, k, y)); p = c.post()
            if assign: put(p, o, num(k, r))
            else: store(p, c, z, k, r)
            c.case('values of type %d' % k, and_(g, not_(bad)), post=p)
        c.throws('not an operand', not_(or_(eq(t, 0), *[eq(t, k) for k in kinds])))
    fc('_ZNK6libube3%s6scalarERKNS_3varES3_RS1_' % cls, ['obj', 'var', 'var', 'var'], sp, ['C13'], opts={'rawget': True})
for cls, op in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div')): scalar3(cls, op)
scalar3('Set', 'set', sel=2); scalar3('Pow', 'pow', range(4, 8), assign=True)
# ------------------------------------------------------------------ unary scalars
CK = {4: '_ZSt3%sf', 5: '%s', 6: '_ZSt%d%sIfESt7complexIT_ERKS2_', 7: '_ZSt%d%sIdESt7complexIT_ERKS2_'}
for f in ('sin', 'cos', 'tan', 'atan', 'sqrt', 'log', 'exp', 'floor'):
    for k, a in ((4, 'f'), (5, 'd')):
        for nm in ('_ZSt%d%s%s' % (len(f), f, a), f + ('f' if k == 4 else ''), 'llvm.%s.f%d' % (f, 32 if k == 4 else 64)): tn(nm, [AK[k][0]], t_get(lambda c, k=k, f=f: rfun(f, k, c.a[0])))
    for k, a in ((6, 'f'), (7, 'd')): tn('_ZSt%d%sI%sESt7complexIT_ERKS2_' % (len(f), f, a), ['ptr'], t_get(lambda c, k=k, f=f: cfun(f, k, cx(c.pre, c.a[0], k))))
for k, a in ((6, 'f'), (7, 'd')):
    tn('_ZSt4atanI%sESt7complexIT_ERKS2_' % a, ['ptr'], t_get(lambda c, k=k: cfun('atan', k, cx(c.pre, c.a[0], k))))
    for f in ('abs', 'arg', 'norm', 'real', 'imag'): tn('_ZSt%d%sI%sET_RKSt7complexIS0_E' % (len(f), f, a), ['ptr'], t_get(lambda c, k=k, f=f: (cx(c.pre, c.a[0], k)[f == 'imag'] if f in ('real', 'imag') else rfun(f, k, cx(c.pre, c.a[0], k)))))
for f in ('abs', 'arg', 'norm', 'real', 'imag'):
    for a, k in (('f', 4), ('d', 5)):
        for nm in ('_ZSt%d%s%s' % (len(f), f, a), '_ZSt%d%sI%sEN9__gnu_cxx11__promoteIT_XsrSt12__is_integerIS2_E7__valueEE6__typeES2_' % (len(f), f, a), '_ZSt%d%sI%sEN9__gnu_cxx9__promoteIT_Xsr3std12__is_integerIS2_EE7__valueEE6__typeES2_' % (len(f), f, a)):
            tn(nm, [AK[k][0]], t_get(lambda c, f=f, k=k: c.a[0] if f == 'real' else 0 if False else rfun(f, k, c.a[0])))
def scalar1(cls, f, kinds):
    def sp(c):
        th, v, o = c.a; st = c.pre; x, y = tid(st, v), tid(st, o); t = kindof(c, x)
        p = c.post(); logput(p, st, BROADCAST, x, y); c.case('an array: broadcast', eq(t, 0), post=p)
        for k in kinds:
            g = eq(t, k); a = getv(c, k, x); p = c.post()
            if f in ('real', 'imag') and k > 5: put(p, o, num(k - 2, a[f == 'imag']))
            elif f == 'real': put(p, o, num(k, a))
            elif f in ('abs', 'arg', 'norm'): put(p, o, num(k - 2 if k > 5 else k, rfun(f, k, a)))
            elif k > 5: put(p, o, num(k, cfun(f, k, a)))
            else: put(p, o, num(k, rfun(f, k, a)))
            c.case('value of type %d' % k, g, post=p)
        c.throws('not an operand', not_(or_(eq(t, 0), *[eq(t, k) for k in kinds])))
    fc('_ZNK6libube%d%s6scalarERKNS_3varERS1_' % (len(cls), cls), ['obj', 'var', 'var'], sp, ['C13'], iface=UN)
for cls in ('Sin', 'Cos', 'Tan', 'ATan', 'Sqrt', 'Log', 'Exp', 'Floor', 'Real', 'Imag', 'Abs', 'Arg', 'Norm'): scalar1(cls, cls.lower(), range(4, 6) if cls == 'Floor' else range(4, 8))
# ------------------------------------------------------------------ vector operations: what the library is asked to do
COPY, SWAP, AXPY, SCAL, TBMV, SBMV, GEMM = range(10, 17)
FK = {4: 'f', 5: 'd', 6: 'St7complexIfE', 7: 'St7complexIdE'}
def flatp(*a):
    out = []
    for x in a: out += [x.b, x.o] if isinstance(x, Ptr) else list(x) if isinstance(x, tuple) else [x]
    return out
def b_log(op, k, n=0):
    """n: number of leading arguments that are the parts of one complex number from position 1"""
    def sp(c):
        p = c.post(); logput(p, c.pre, op, k, *flatp(*c.a)); c.case('', post=p)
    return sp
for k, m in FK.items():
    r = k < 6; S1, S2 = ('S1_', 'S2_') if r else ('S3_', 'S4_'); B_ = '_ZN4blas'
    tn('%s4swapI%sEEvlPT_%s' % (B_, m, S2), ['i64', 'ptr', 'ptr'], b_log(SWAP, k)); tn('%s4copyI%sEEvlPT_%s' % (B_, m, S2), ['i64', 'ptr', 'ptr'], b_log(COPY, k))
    tn('%s4axpyI%sEEvlT_P%s%s' % (B_, m, S1, S2), ['i64'] + AK[k] + ['ptr', 'ptr'], b_log(AXPY, k))
    tn('%s3dotI%sEET_lP%s%s' % (B_, m, S1, S2), ['i64', 'ptr', 'ptr'], t_get(lambda c, k=k: rfun('dot', k, *flatp(*c.a)) if k < 6 else cfun('dot', k, *flatp(*c.a))))
    tn('%s5iamaxI%sEEllPT_' % (B_, m), ['i64', 'ptr'], t_get(lambda c, k=k: rfun('iamax', k, *flatp(*c.a))))
    if r:
        f = AK[k][0]
        tn('%s4scalI%sEEvlT_P%s' % (B_, m, S1), ['i64', f, 'ptr'], b_log(SCAL, k)); tn('%s4asumI%sEET_lP%s' % (B_, m, S1), ['i64', 'ptr'], t_get(lambda c, k=k: rfun('asum', k, *flatp(*c.a))))
        tn('%s4tbmvI%sEEvllPT_S2_' % (B_, m), ['i64', 'i64', 'ptr', 'ptr'], b_log(TBMV, k))
        tn('%s4sbmvI%sEEvllT_PS1_S2_S1_S2_' % (B_, m), ['i64', 'i64', f, 'ptr', 'ptr', f, 'ptr'], b_log(SBMV, k))
        tn('%s4gemmI%sEEvlllT_PS1_S2_S1_S2_' % (B_, m), ['i64', 'i64', 'i64', f, 'ptr', 'ptr', f, 'ptr'], b_log(GEMM, k))
def at(c, x, k, i): return Ptr(data(c, x), imul(i, ESIZE[k]))
def lit(k, v):
    f = fltcode(v, 32 if k in (4, 6) else 64); return f if k < 6 else (f, fltcode(0.0, 32 if k == 6 else 64))
from irv.exe import fltcode
def entry(p, *f):
    logput(p, p, *flatp(*f))
def vec(cls, kinds, props, f, pre=None, unary=False):
    """f(c, k, x, i, y, j, z, o): cases (name, when, refused, log entries, value stored or None)"""
    def sp(c):
        st = c.pre
        if unary: th, v, i, ov, o = c.a; x = tid(st, v); y = j = None
        else: th, v, i, w, j, ov, o = c.a; x, y = tid(st, v), tid(st, w)
        z = tid(st, ov); ok = True
        for nm, g in (pre(c, x, y, z) if pre else []): c.throws(nm, and_(ok, g)); ok = and_(ok, not_(g))
        c.throws('undefined', and_(ok, undef(x))); ok = and_(ok, not_(undef(x))); t = atype(c, x)
        for k in kinds:
            for nm, e, bad, ents, r in f(c, k, x, i, y, j, z, o):
                g = and_(ok, eq(t, k), e); p = c.post()
                for l in ents: logput(p, p, *flatp(*l))
                if r: store(p, c, z, r[0], r[1], o)
                c.throws('%s: operand of another type %d' % (nm, k), and_(g, bad), post=unspecified(c))   # perhaps after part of the work
                c.case('%s: elements of type %d' % (nm, k), and_(g, not_(bad)), post=p)
        c.throws('unsupported type', and_(ok, not_(or_(*[eq(t, k) for k in kinds]))))
    args = ['obj', 'val', 'i64', 'var', 'i64'] if unary else ['obj', 'val', 'i64', 'val', 'i64', 'var', 'i64']
    nm = '_ZNK6libube%d%s6vector%s' % (len(cls), cls, 'ENS_3varENS_3indERS1_S2_' if unary else 'ENS_3varENS_3indES1_S2_RS1_S2_')
    fc(nm, args, sp, props, iface=UN if unary else AR)
def v_set(c, k, x, i, y, j, z, o):
    return [('copy', True, or_(wrongtype(c, y, k), wrongtype(c, z, k)), [(COPY, k, size(c, y), at(c, y, k, j), at(c, z, k, o))], None)]
def v_axpy(s):
    def f(c, k, x, i, y, j, z, o):
        n = size(c, y); e = same(x, z); bad = or_(wrongtype(c, y, k), wrongtype(c, z, k)); ax = (AXPY, k, n, lit(k, s), at(c, y, k, j), at(c, z, k, o))
        return [('in place', e, bad, [ax], None), ('to a new place', not_(e), or_(bad, wrongtype(c, x, k)), [(COPY, k, n, at(c, x, k, i), at(c, z, k, o)), ax], None)]
    return f
def v_mul(c, k, x, i, y, j, z, o):
    n = size(c, y); e = same(x, z); bad = or_(wrongtype(c, x, k), wrongtype(c, y, k))
    return [('in place', e, bad, [(TBMV, k, n, 0, at(c, y, k, j), at(c, x, k, i))], None), ('to a new place', not_(e), or_(bad, wrongtype(c, z, k)), [(SBMV, k, n, 0, lit(k, 1.0), at(c, y, k, j), at(c, x, k, i), lit(k, 0.0), at(c, z, k, o))], None)]
def v_swap(c, k, x, i, y, j, z, o):
    return [('swap', True, or_(wrongtype(c, x, k), wrongtype(c, y, k)), [(SWAP, k, shape(c, x, -1), at(c, x, k, i), at(c, y, k, j))], None)]
def p_swap(c, x, y, z): return [('sizes differ', not_(eq(size(c, x), size(c, y)))), ('shapes differ', not_(eq(shape(c, x, -1), shape(c, y, -1))))]
def v_dot(c, k, x, i, y, j, z, o):
    d = dim(c, y); bad = or_(wrongtype(c, x, k), wrongtype(c, y, k), wrongtype(c, z, k)); n = size(c, y)
    a = flatp(n, at(c, x, k, i), at(c, y, k, j))
    r = [('one dimension', eq(d, 1), bad, [], (k, rfun('dot', k, *a) if k < 6 else cfun('dot', k, *a)))]
    ok = and_(eq(d, 2), eq(shape(c, x, -1), shape(c, y, 0)))
    if k < 6:
        nd = not_(inshape(c, x, -2)); r.append(('matrix', ok, or_(bad, nd), [(GEMM, k, shape(c, x, -2), shape(c, y, 1), shape(c, x, -1), lit(k, 1.0), at(c, x, k, i), at(c, y, k, j), lit(k, 0.0), at(c, z, k, o))], None))
    else: r.append(('complex matrix', ok, True, [], None))
    return r
def p_dot(c, x, y, z):
    d = dim(c, y); return [('in place', same(x, z)), ('more than two dimensions', gt(d, 2)), ('inner sizes differ', and_(eq(d, 2), not_(eq(shape(c, x, -1), shape(c, y, 0)))))]
def v_asum(c, k, x, i, y, j, z, o):
    return [('sum of magnitudes', True, or_(wrongtype(c, x, k), wrongtype(c, z, k)), [], (k, rfun('asum', k, *flatp(shape(c, x, -1), at(c, x, k, i)))))]
def v_iamax(c, k, x, i, y, j, z, o):
    return [('largest magnitude', True, or_(wrongtype(c, x, k), wrongtype(c, z, 3)), [], (3, rfun('iamax', k, *flatp(shape(c, x, -1), at(c, x, k, i)))))]
R_, ALLF = (4, 5), (4, 5, 6, 7)
vec('Set', ALLF, ['C14'], v_set); vec('Add', ALLF, ['C14'], v_axpy(1.0)); vec('Sub', R_, ['C14'], v_axpy(-1.0)); vec('Mul', R_, ['C14'], v_mul)
vec('Swap', ALLF, ['C14', 'C15'], v_swap, p_swap); vec('Dot', ALLF, ['C14', 'C15'], v_dot, p_dot)
vec('ASum', R_, ['C15'], v_asum, unary=True); vec('IAMax', ALLF, ['C15'], v_iamax, lambda c, x, y, z: [('in place', same(x, z))], unary=True)
# ---- sums
def psum(k, q, p, n): return lf('psum_%d_%d' % (k, q), p.b, p.o, n)
KD1 = {4: 'f32', 5: 'f64', 6: 'f32', 7: 'f64'}
def sumfacts(ctx, st, k, p, n):
    e = ESIZE[k]; w = e if k < 6 else e // 2
    for q in ((0,) if k < 6 else (0, 1)):
        ctx.fact(eq(psum(k, q, p, 0), fltcode(0.0, 32 if k in (4, 6) else 64)))
        ctx.fact(eq(psum(k, q, p, iadd(n, 1)), fl('fadd', k, psum(k, q, p, n), st.read(KD1[k], p.b, iadd(iadd(p.o, imul(n, e)), q * w)))))
def sumres(k, p, n): return psum(k, 0, p, n) if k < 6 else (psum(k, 0, p, n), psum(k, 1, p, n))
for k, m in FK.items():
    nm = '_Z8sumArrayI%sET_iP%s' % (m, 'S0_' if k < 6 else 'S2_')
    def fun_sum(lv, k=k):
        p = lv.ex.sump; sumfacts(lv.ex.ctx, lv.st0, k, p, lv.n); r = sumres(k, p, lv.n); return list(r) if k > 5 else [r]
    def sp_sum(c, k=k):
        n, p = c.a; m = ite(gt(n, 0), n, 0); c.case('', ret=sumres(k, p, m))
    def su_sum(ex, a, st, k=k): ex.sump = a[1]; sumfacts(ex.ctx, st, k, a[1], 0)
    CHECKS.append(Contract(nm, ['i32', 'ptr'], sp_sum, props=['C15'], setup=su_sum, local={}, loops={None: {'fun': fun_sum, 'cells': True}}))
    tn(nm, ['i32', 'ptr'], t_get(lambda c, k=k: sumres(k, c.a[1], ite(gt(c.a[0], 0), c.a[0], 0))))
def v_sum(c, k, x, i, y, j, z, o):
    n = shape(c, x, -1); return [('sum', True, or_(wrongtype(c, x, k), wrongtype(c, z, k)), [], (k, sumres(k, at(c, x, k, i), ite(gt(n, 0), n, 0))))]
vec('Sum', ALLF, ['C15'], v_sum, unary=True)
# ---- scaling
def sp_mulb(c):
    th, v, w, o = c.a; x, y, z = tid(c.pre, v), tid(c.pre, w), tid(c.pre, o); g = and_(eq(dim(c, y), 1), eq(size(c, y), 1))
    p = c.post(); logput(p, p, SCALE, x, y, z, 0); c.case('one number: scaled', g, post=p)
    p = c.post(); logput(p, p, BROADCAST, x, y, z); c.case('otherwise: broadcast', not_(g), post=p)
tn('_ZNK6libube3Mul5scaleENS_3varES1_RS1_i', ['obj', 'val', 'val', 'var', 'i32'], v_log(SCALE, [(1, 'v'), (2, 'v'), (3, 'v'), (4, 'i')]))
tn(NA + '9broadcastENS_3varES1_RS1_', ['obj', 'val', 'val', 'var'], v_log(BROADCAST, [(1, 'v'), (2, 'v'), (3, 'v')]))
fc('_ZNK6libube3Mul9broadcastENS_3varES1_RS1_', ['obj', 'val', 'val', 'var'], sp_mulb, ['C14'])
def sp_scale(c):
    th, v, w, o, i = c.a; x, y, z = tid(c.pre, v), tid(c.pre, w), tid(c.pre, o); n = size(c, x); e = same(z, x)
    small = and_(not_(e), lt(size(c, z), n)); c.throws('output too small', small); ok = not_(small)
    c.throws('undefined', and_(ok, undef(x))); ok = and_(ok, not_(undef(x))); t = atype(c, x)
    for k in R_:
        g = and_(ok, eq(t, k)); a = castv(c, k, y); bad = or_(nocast(k, y), wrongtype(c, x, k), and_(not_(e), wrongtype(c, z, k)))
        c.throws('operand of another type %d' % k, and_(g, bad), post=unspecified(c)); g = and_(g, not_(bad))
        p = c.post(); logput(p, p, *flatp(SCAL, k, n, a, at(c, x, k, i))); c.case('in place: %d' % k, and_(g, e), post=p)
        p = c.post(); logput(p, p, *flatp(COPY, k, n, at(c, x, k, i), at(c, z, k, i))); logput(p, p, *flatp(SCAL, k, n, a, at(c, z, k, i))); c.case('to a new place: %d' % k, and_(g, not_(e)), post=p)
    c.throws('unsupported type', and_(ok, not_(or_(eq(t, 4), eq(t, 5)))))
fc('_ZNK6libube3Mul5scaleENS_3varES1_RS1_i', ['obj', 'val', 'val', 'var', 'i32'], sp_scale, ['C14'])
# ---- shapes
def sp_dotconf(c):
    x, y = tid(c.pre, c.a[1]), tid(c.pre, c.a[2]); c.case('', ret=eq(shape(c, x, -1), shape(c, y, 0)))
fc('_ZNK6libube3Dot11conformableENS_3varES1_', ['obj', 'val', 'val'], sp_dotconf, ['C14'])
def sp_dotsize(c):
    x, y = tid(c.pre, c.a[1]), tid(c.pre, c.a[2]); m = gt(dim(c, y), 1); bad = and_(m, lt(dim(c, x), 2))
    c.throws('not a matrix', bad); c.case('dot product', not_(m), ret=1); c.case('matrix', and_(m, not_(bad)), ret=imul(shape(c, x, -2), shape(c, y, 1)))
fc('_ZNK6libube3Dot10resultSizeENS_3varES1_', ['obj', 'val', 'val'], sp_dotsize, ['C14'])
def sp_rsize(c): c.case('', ret=size(c, tid(c.pre, c.a[2])))
fc(NA + '10resultSizeENS_3varES1_', ['obj', 'val', 'val'], sp_rsize, ['C14'])
def mism(x, y): return lf('mismatch', x, y)
def confat(ctx, c, x, y, i):
    """the first place, counted from the innermost dimension, where the shapes differ"""
    m = mism(x, y); d = dim(c, y); ctx.fact(ge(m, 1)); ctx.fact(le(m, iadd(d, 1)))
    a, b = shape(c, x, isub(dim(c, x), i)), shape(c, y, isub(d, i)); r = and_(ge(i, 1), le(i, d))
    ctx.fact(implies(and_(r, lt(i, m)), eq(a, b))); ctx.fact(implies(and_(r, eq(i, m)), not_(eq(a, b))))
def su_conf(ex, a, st):
    su(ex, a, st); x, y = tid(st, a[1]), tid(st, a[2])
    ex.cxy = (x, y)
    def hook(c, s, i):
        confat(c.ctx, c, x, y, isub(dim(c, s), i)); return []
    ex.onshape = hook
def cand_conf(lv):
    m = mism(*lv.ex.cxy); return [gt(m, lv.n), ge(m, iadd(lv.n, 1))]
def sp_conf(c):
    x, y = tid(c.pre, c.a[1]), tid(c.pre, c.a[2]); d = dim(c, y); confat(c.ctx, c, x, y, d); m = mism(x, y)
    c.case('', ret=gt(m, d))
fc(NA + '11conformableENS_3varES1_', ['obj', 'val', 'val'], sp_conf, ['C14'], setup=su_conf, loops={None: {'cand': cand_conf}}, assumes=lambda c: [le(dim(c, tid(c.pre, c.a[2])), dim(c, tid(c.pre, c.a[1])))])
# ------------------------------------------------------------------ applying a functor
def functor(c): return c.a[1] if c.contract.args[0] == 'sret' else c.a[0]
def result(c, r, v, *ents):
    p = c.post()
    for l in ents: logput(p, p, *l)
    put(p, r, v); begin(c, r, p); c.case('', post=p)
def sp_ucall(c):
    r, th, v = c.a; x = tid(c.pre, v); s = lf('space', x); result(c, r, s, (SCALAR, x, s))
def sp_ucallo(c):
    r, th, v, o = c.a; x, y = tid(c.pre, v), tid(c.pre, o); result(c, r, y, (SCALAR, x, y))
def sp_bcall(c):
    r, th, v, w = c.a; x, y = tid(c.pre, v), tid(c.pre, w); s = lf('space', x, y); result(c, r, s, (SCALAR, x, y, s))
def sp_bcallo(c):
    r, th, v, w, o = c.a; x, y, z = tid(c.pre, v), tid(c.pre, w), tid(c.pre, o); result(c, r, z, (SCALAR, x, y, z))
def su_s(ex, a, st): su(ex, a, st); ex.functor = a[1]
VS = dict(setup=su_s)
NN = '_ZNK6libube11NaryFunctor'; NI = '_ZTVN6libube11NaryFunctorE'
tn('V:' + NN + '6scalarERKNS_3varERS1_', ['obj', 'var', 'var'], v_log(SCALAR, [(1, 'v'), (2, 'v')]))
tn('V:' + NN + '9broadcastENS_3varERS1_', ['obj', 'val', 'var'], v_log(BROADCAST, [(1, 'v'), (2, 'v')]))
tn('V:' + NN + '6vectorENS_3varERS1_', ['obj', 'val', 'var'], v_log(VECTOR, [(1, 'v'), (2, 'v')]))
tn('V:' + NN + '5allocENS_3varE', ['sret', 'obj', 'val'], t_new(lambda c: lf('space', tid(c.pre, c.a[2]))))
for pre, i in ((NU, UN), (NN, NI)):
    fc(pre + 'clERKNS_3varE', ['sret', 'obj', 'var'], sp_ucall, ['C14', 'C15'], iface=i, **VS)
    fc(pre + 'clERKNS_3varERS1_', ['sret', 'obj', 'var', 'var'], sp_ucallo, ['C14', 'C15'], iface=i, **VS)
fc(NB + 'clERKNS_3varES3_', ['sret', 'obj', 'var', 'var'], sp_bcall, ['C13', 'C14', 'C15'], iface=BN, **VS)
fc(NB + 'clERKNS_3varES3_RS1_', ['sret', 'obj', 'var', 'var', 'var'], sp_bcallo, ['C13', 'C14', 'C15'], iface=BN, **VS)
def sp_dscalar(n):
    def sp(c):
        p = c.post(); logput(p, p, BROADCAST, *[tid(c.pre, c.a[i]) for i in range(1, n + 1)]); c.case('', post=p)
    return sp
fc(NU + '6scalarERKNS_3varERS1_', ['obj', 'var', 'var'], sp_dscalar(2), ['C15'], iface=UN); fc(NN + '6scalarERKNS_3varERS1_', ['obj', 'var', 'var'], sp_dscalar(2), ['C15'], iface=NI)
fc(NB + '6scalarERKNS_3varES3_RS1_', ['obj', 'var', 'var', 'var'], sp_dscalar(3), ['C15'], iface=BN)
def sp_alike(i):
    def sp(c): result(c, c.a[0], lf('alike', tid(c.pre, c.a[2])))
    return sp
fc(NU + '5allocENS_3varE', ['sret', 'obj', 'val'], sp_alike(1), ['C14', 'C15'], iface=UN, **VS); fc(NB + '5allocENS_3varES1_', ['sret', 'obj', 'val', 'val'], sp_alike(1), ['C14', 'C15'], iface=BN, **VS)
# the default vector operation works on views of the parts
def t_sub(c):
    r, s, n, o = c.a; x = tid(c.pre, s); bad = lf('nosubview', x, n, o, ret=B); p = c.post(); put(p, r, lf('subview', x, n, o)); begin(c, r, p)
    c.throws('no such part', bad); c.case('', not_(bad), post=p)
tn(P + '7subviewEiNS_3indE', ['sret', 'var', 'i32', 'i64'], t_sub)
def sp_uvec(c):
    th, v, i, w, o = c.a; x, y = tid(c.pre, v), tid(c.pre, w); D = mdim(c); n, m = D, isub(dim(c, y), isub(dim(c, x), D))
    bad = or_(lf('nosubview', x, n, i, ret=B), lf('nosubview', y, m, o, ret=B)); c.throws('no such part', bad)
    p = c.post(); logput(p, p, VECTOR, lf('subview', x, n, i), lf('subview', y, m, o)); c.case('', not_(bad), post=p)
fc(NU + '6vectorENS_3varENS_3indERS1_S2_', ['obj', 'val', 'i64', 'var', 'i64'], sp_uvec, ['C15'], iface=UN, assumes=as_dim)
def sp_novec(c): c.throws('not a vector operation', True)
fc(NU + '6vectorENS_3varERS1_', ['obj', 'val', 'var'], sp_novec, ['C15'], iface=UN); fc(NB + '6vectorENS_3varES1_RS1_', ['obj', 'val', 'val', 'var'], sp_novec, ['C15'], iface=BN); fc(NN + '6vectorENS_3varERS1_', ['obj', 'val', 'var'], sp_novec, ['C15'], iface=NI)
def t_idx(c):
    r, s, i = c.a; x = tid(c.pre, s); bad = or_(lt(i, 0), ge(i, size(c, x))); p = c.post(); put(p, r, lf('elem', x, i)); begin(c, r, p)
    c.throws('out of range', bad); c.case('', not_(bad), post=p)
tn(P + 'ixEi', ['sret', 'var', 'i32'], t_idx)
def sp_bvec(c):
    th, v, i, w, j, u, o = c.a; xs = [tid(c.pre, q) for q in (v, w, u)]; D = mdim(c); cd = isub(dim(c, xs[0]), D); bad = False; vs = []
    for x, off in zip(xs, (i, j, o)):
        e = eq(dim(c, x), cd); n = isub(dim(c, x), cd); off = wrap(off, 32)
        vs.append((e, lf('elem', x, off), lf('subview', x, n, off if False else off)))
        bad = or_(bad, ite(e, or_(lt(off, 0), ge(off, size(c, x))), lf('nosubview', x, n, off, ret=B)))
    c.throws('no such part', bad); p = c.post(); logput(p, p, VECTOR, *[ite(e, a, b) for e, a, b in vs]); c.case('', not_(bad), post=p)
fc(NB + '6vectorENS_3varENS_3indES1_S2_RS1_S2_', ['obj', 'val', 'i64', 'val', 'i64', 'var', 'i64'], sp_bvec, ['C15'], iface=BN, assumes=lambda c: as_dim(c) + [and_(ge(c.a[i], 0), lt(c.a[i], 1 << 28)) for i in (2, 4, 6)])
# ------------------------------------------------------------------ the operators of var
APPLY = 7
OPS = dict(TEN)
def op(name, args, spec, **k): OPS[name] = Contract(name + '@operators', args, spec, **k)
def o_call(c):
    r, f, x, y = c.a; st = c.pre; p = c.post(); logput(p, st, APPLY, f.b, tid(st, x), tid(st, y)); put(p, r, lf('applied', f.b, tid(st, x), tid(st, y))); begin(c, r, p); c.case('', post=p)
def o_callo(c):
    r, f, x, y, o = c.a; st = c.pre; p = c.post(); v = lf('applied', f.b, tid(st, x), tid(st, y)); logput(p, st, APPLY, f.b, tid(st, x), tid(st, y)); put(p, o, v); put(p, r, v); begin(c, r, p); c.case('', post=p)
op(NB + 'clERKNS_3varES3_', ['sret', 'obj', 'var', 'var'], o_call, ctor=0); op(NB + 'clERKNS_3varES3_RS1_', ['sret', 'obj', 'var', 'var', 'var'], o_callo, ctor=0)
def glob(c, n): return c.ctx.gid('_ZN6libube%d%sE' % (len(n), n))
def opspec(n, into):
    def sp(c):
        st = c.pre; s = c.a[0 if into else 1]; x, y = tid(st, s), tid(st, c.a[-1]); f = glob(c, n); p = c.post(); logput(p, st, APPLY, f, x, y); v = lf('applied', f, x, y)
        if into: put(p, s, v); c.case('', ret=s, post=p)
        else: put(p, c.a[0], v); begin(c, c.a[0], p); c.case('', post=p)
    return sp
for n, m in (('add', 'pl'), ('sub', 'mi'), ('mul', 'ml'), ('div', 'dv')):
    fc(P + m.replace(m[1], m[1].upper()) + 'ES0_', ['var', 'val'], opspec(n, True), ['C13', 'C14'], local=OPS)
    fc(PK + m + 'ES0_', ['sret', 'var', 'val'], opspec(n, False), ['C13', 'C14'], local=OPS)
def o_mul(c): opspec('mul', False)(c)
op(PK + 'mlES0_', ['sret', 'var', 'val'], o_mul, ctor=0)
def sp_neg(c):
    r, s = c.a; st = c.pre; x = tid(st, s); f = glob(c, 'mul'); y = num(2, -1); p = c.post(); logput(p, st, APPLY, f, x, y); put(p, r, lf('applied', f, x, y)); begin(c, r, p); c.case('', post=p)
fc(PK + 'ngEv', ['sret', 'var'], sp_neg, ['C13'], local=OPS)
