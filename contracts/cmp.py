"""Comparison: values, arrays, and the six operators."""
from .lib import *
from .heap import both
from .var import wfv, elem_at
from .assign import cells, valaddr, cdouble_at, TK
from .mem import sp_hat, as_hat, NUM
from irv.exe import BUILTIN, R
P = '_ZN6libube3var'; PK = '_ZNK6libube3var'; HP = '_ZN6libube4Heap'
def cabs(w, re, im): return app('cabs_' + w, re, im)
for w, m in (('f32', 'f'), ('f64', 'd')):
    def _cabs(ex, a, st, ins, w=w): return R(st, cabs(w, st.read(w, a[0].b, a[0].o), st.read(w, a[0].b, iadd(a[0].o, 4 if w == 'f32' else 8))))
    builtin('_ZSt3absI%sET_RKSt7complexIS0_E' % m)(_cabs)
def feq(w, x, y): return app('feq_' + w, x, y, ret=B)
def flt(w, x, y): return app('flt_' + w, x, y, ret=B)
def veq(T, x, y):
    """the language's == of two values of type T"""
    if T in (1, 2, 3): return eq(x, y)
    if T in (4, 5): return feq(TK[T][0], x, y)
    return and_(feq(TK[T][0], x[0], y[0]), feq(TK[T][0], x[1], y[1]))
def vlt(T, x, y):
    """the language's < of two values of type T (complex numbers by magnitude)"""
    if T in (1, 2, 3): return lt(x, y)
    if T in (4, 5): return flt(TK[T][0], x, y)
    return flt(TK[T][0], cabs(TK[T][0], *x), cabs(TK[T][0], *y))
def heapneq(st, h, g): return app('heapneq', h.b, g.b, st.ver, ret=B)
def heaplt(st, h, g): return app('heaplt', h.b, g.b, st.ver, ret=B)
def scal(st, s, T):
    ref, typed, h, i, t, rs = slot_parts(st, s)
    if T == 7: return cells(st, elem_at(st, h, i, 16), TK[7]) if ref is not False else None
    return cells(st, valaddr(st, s, ESIZE[T]), TK[T])
def bite(g, a, b):
    return ite(g, zv(a) if isinstance(a, bool) else a, zv(b) if isinstance(b, bool) else b)
def bz(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def neq_val(st, s, v):
    ts, tv = v_type(st, s), v_type(st, v); hs, hv = v_heap(st, s), v_heap(st, v)
    none = or_(eq(hs.b, 0), eq(hv.b, 0))
    r = or_(and_(none, not_(beq(v_undef(st, s), v_undef(st, v)))), and_(not_(none), heapneq(st, hs, hv)))
    for T in range(1, 8):
        x, y = scal(st, s, T), scal(st, v, T)
        if x is None or y is None: continue
        r = ite(eq(ts, T), bz(not_(veq(T, x, y))), bz(r))
    return or_(not_(eq(ts, tv)), not_(eq(v_size(st, s), v_size(st, v))), r)
def lt_val(st, s, v):
    ts, tv = v_type(st, s), v_type(st, v); hs, hv = v_heap(st, s), v_heap(st, v)
    none = or_(eq(hs.b, 0), eq(hv.b, 0))
    r = or_(and_(none, v_undef(st, s), not_(v_undef(st, v))), and_(not_(none), heaplt(st, hs, hv)))
    for T in range(1, 8):
        x, y = scal(st, s, T), scal(st, v, T)
        if x is None or y is None: continue
        r = ite(eq(ts, T), bz(vlt(T, x, y)), bz(r))
    return ite(eq(ts, tv), bz(r), bz(lt(ts, tv)))
def sp_neq(c): c.case('', ret=neq_val(c.pre, c.a[0], c.a[1]))
def sp_lt(c): c.case('', ret=lt_val(c.pre, c.a[0], c.a[1]))
for n, f in (('3neq', heapneq), ('2lt', heaplt)):
    # for the callers; what it is of arrays is said below
    CONTRACTS['V:' + HP + n + 'EPNS_5IHeapE'] = Contract('V:' + HP + n + 'EPNS_5IHeapE', ['heap', 'heap'], lambda c, f=f: c.case('', ret=f(c.pre, *c.a)))
reg(Contract(PK + 'neES0_', ['var', 'val'], sp_neq, assumes=wfv(0, 1), props=['C10']))
reg(Contract(PK + 'ltES0_', ['var', 'val'], sp_lt, assumes=wfv(0, 1), props=['C10', 'C09']))
# ---- the other four, by the first two
for op, f in (('eq', lambda st, s, v: not_(neq_val(st, s, v))), ('gt', lambda st, s, v: lt_val(st, v, s)), ('le', lambda st, s, v: not_(lt_val(st, v, s))), ('ge', lambda st, s, v: not_(lt_val(st, s, v)))):
    reg(Contract(PK + op + 'ES0_', ['var', 'val'], lambda c, f=f: c.case('', ret=f(c.pre, c.a[0], c.a[1])), assumes=wfv(0, 1), props=['C10']))

# ------------------------------------------------------------------ arrays
def el(st, h, i, T): return cells(st, elem_at(st, h, i, ESIZE[T]), TK[T])
def first(c, st, what, h, g, n):
    """the first position below n at which the two differ (n if there is none)"""
    c.ctx.keep = getattr(c.ctx, 'keep', []); c.ctx.keep.append(st)
    m = app('first_' + what, h.b, g.b, n); c.ctx.fact(ge(m, 0)); c.ctx.fact(implies(ge(n, 0), le(m, n))); return m
def atfirst(ctx, m, n, k, d):
    """its definition, at position k: d says whether the two differ there"""
    ctx.fact(implies(and_(le(0, k), lt(k, n), lt(k, m)), not_(d))); ctx.fact(implies(and_(lt(k, n), eq(k, m)), d))
class A: pass
def typed_heaps(T, T2=None):
    def su(ex, args, st):
        h, g = args; ex.cmp = a = A(); a.h, a.g = h, g; a.T, a.T2 = T, T2 or T
        a.st = st
    return su
def as_cmp(T, T2, same):
    def f(c):
        st = c.pre; h, g = c.a; c.ex.cmp.st = st.copy()
        return wf_any(st, h) + wf_any(st, g) + [eq(htype(st, h), T), eq(htype(st, g), T2)] + ([eq(hsize(st, h), hsize(st, g))] if same else [])
    return f
def smaller(a, b): return ite(lt(b, a), b, a)
def common(c, st):
    h, g = c.a[:2]; return smaller(hsize(st, h), hsize(st, g))
def cand_first(lv):
    a = lv.ex.cmp; return [ge(a.m, lv.n)]
def sp_heapneq(T, T2):
    def sp(c):
        h, g = c.a; st = c.pre; n = hsize(st, h)
        if T != T2: c.case('', ret=gt(n, 0)); return
        m = first(c, st, 'neq%d' % T, h, g, n); c.ex.cmp.m = m
        d = lambda k: not_(veq(T, el(st, h, k, T), el(st, g, k, T)))
        atfirst(c.ctx, m, n, m, d(m))
        c.ex.cmp.at = lambda k: atfirst(c.ctx, m, n, k, d(k))
        c.case('some element differs', ret=lt(m, n))
    return sp
def u8(x): return ite(lt(x, 0), iadd(x, 256), x)
def sp_heaplt(T, T2):
    def sp(c):
        h, g = c.a; st = c.pre; nh, ng = hsize(st, h), hsize(st, g); n = smaller(nh, ng)
        vt = lambda t: 0 if t == 7 else t
        if T != T2: c.case('', ret=ite(gt(n, 0), bz(lt(vt(T), vt(T2))), bz(lt(nh, ng)))); return
        x, y = (lambda k: el(st, h, k, T)), (lambda k: el(st, g, k, T))
        L = (lambda a, b: lt(u8(a), u8(b))) if T == 1 else (lambda a, b: vlt(T, a, b))
        d = lambda k: not_(eq(x(k), y(k))) if T == 1 else or_(L(x(k), y(k)), L(y(k), x(k)))
        if T == 7: d = lambda k: not_(feq('f64', cabs('f64', *x(k)), cabs('f64', *y(k))))
        m = first(c, st, 'lt%d' % T, h, g, n); c.ex.cmp.m = m
        atfirst(c.ctx, m, n, m, d(m)); c.ex.cmp.at = lambda k: atfirst(c.ctx, m, n, k, d(k))
        c.case('the first difference decides, then the length', ret=ite(lt(m, n), bz(L(x(m), y(m))), bz(lt(nh, ng))))
    return sp
@builtin('memcmp')
def _memcmp(ex, a, st, ins):
    p, q, n = a; c = ex.cmp
    n0 = smaller(hsize(c.st, c.h), hsize(c.st, c.g))
    x, y = elem_at(c.st, c.h, 0, 1), elem_at(c.st, c.g, 0, 1)
    ex.oblige('the two strings are compared, up to the shorter length', st.copy(), and_(peq(p, x), peq(q, y), eq(n, n0)))
    r = ex.ctx.fresh('memcmp'); m = c.m
    X, Y = u8(st.read('i8', p.b, iadd(p.o, m))), u8(st.read('i8', q.b, iadd(q.o, m)))
    st.assume(beq(eq(r, 0), eq(m, n0))); st.assume(implies(lt(m, n0), beq(lt(r, 0), lt(X, Y)))); st.assume(implies(lt(m, n0), beq(gt(r, 0), gt(X, Y))))
    return R(st, r)
def lat(sp):
    def f(c):
        sp(c); a = c.ex.cmp
        if c.mode == 'use' and hasattr(a, 'at'): a.at(c.a[2])
    return f
def lptr(con):
    def f(c):
        con.spec(c); a = c.ex.cmp
        if c.mode == 'use' and hasattr(a, 'at'): a.at(c.a[1])
    return f
AT = 'V:' + '_ZNK6libube4Heap2atEib'; PC = [k for k in CONTRACTS if k.startswith('V:') and '10ptrcdouble' in k][0]
LOCAL = {AT: Contract(AT, CONTRACTS[AT].args, lat(CONTRACTS[AT].spec), ctor=0), PC: Contract(PC, CONTRACTS[PC].args, lptr(CONTRACTS[PC]))}
LOCAL[AT[2:]] = Contract(AT[2:], CONTRACTS[AT].args, lat(CONTRACTS[AT].spec), ctor=0)
for n, mk, same in (('3neq', sp_heapneq, True), ('2lt', sp_heaplt, False)):
    for nm, T, sz, kd in NUM:
        for nm2, T2, _, _ in NUM:
            if T2 != T and T2 != (T % 7) + 1: continue
            slow = n == '2lt' and T == T2 and 1 < T < 7
            CHECKS.append(Contract(HP + n + 'EPNS_5IHeapE@%s%s' % (nm, '' if T == T2 else ' with ' + nm2), ['heap=Heap', 'heap=Heap'] if slow else ['heap', 'heap'], mk(T, T2), setup=typed_heaps(T, T2), assumes=as_cmp(T, T2, same), local=LOCAL, loops={None: {'cand': cand_first} if T == T2 else {}}, props=['C10']))

# ------------------------------------------------------------------ arrays of any element type, by the comparison of elements
from .seq import lf, s_dtor, s_copyctor, begin
GH, GG, GN = z3.Int('cmpH'), z3.Int('cmpG'), z3.Int('cmpN')
EL = {}
def le_(name, args, spec, **k): EL[name] = Contract(name + '@elements', args, spec, **k)
def e_id(st, s): return st.read('gv', s.b, s.o)
def e_size(c):
    n = lf('sizeofheap', c.a[0].b); c.ctx.fact(ge(n, 0)); c.ctx.fact(lt(n, 1 << 31)); c.case('', ret=n)
def e_at(c):
    r, h, i, k = c.a; ok = and_(ge(i, 0), lt(i, lf('sizeofheap', h.b)))
    c.throws('out of range', not_(ok), RANGE)
    p = c.post(); p.st('gv', r.b, r.o, lf('element', h.b, i)); begin(c, r, p); c.case('', ok, post=p)
    if c.mode == 'use': c.ex.cmp.at(i)
def e_cmp(rel): return lambda c: c.case('', ret=rel(e_id(c.pre, c.a[0]), e_id(c.pre, c.a[1])))
def ELT(x, y):
    """characters are ordered as bytes, everything else as it is by operator<"""
    ch = and_(eq(lf('chartype', x), 1), eq(lf('chartype', y), 1))
    return ite(ch, lt(u8(lf('charof', x)), u8(lf('charof', y))), lf('lessthan', x, y, ret=B))
ENE = lambda x, y: lf('notequal', x, y, ret=B)
for v in ('V:', ''):
    le_(v + HP + '4sizeEv', ['heap'], e_size)
    le_(v + '_ZNK6libube4Heap2atEib', ['sret', 'heap', 'i32', 'i1'], e_at, ctor=0)
    le_(v + HP + '4typeEv', ['heap'], lambda c: c.case('', ret=lf('typeofheap', c.a[0].b)))
for k in list(CONTRACTS):
    if k.startswith('V:') and k[2:] in ('_ZN6libube4Heap4sizeEv', '_ZNK6libube4Heap4sizeEv', '_ZNK6libube4Heap4typeEv', '_ZN6libube4Heap4typeEv') and k not in EL:
        for v in (k, k[2:]): le_(v, ['heap'], EL['V:' + HP + ('4sizeEv' if '4sizeEv' in k else '4typeEv')].spec)
le_(P + 'D2Ev', ['var'], s_dtor); le_(P + 'C2ERKS0_', ['ctor', 'var'], s_copyctor)
le_(PK + 'ltES0_', ['var', 'val'], e_cmp(lambda x, y: lf('lessthan', x, y, ret=B)))
def e_type(c): c.case('', ret=lf('chartype', e_id(c.pre, c.a[0])))
le_(PK + '4typeEv', ['var'], e_type)
def e_char(c): x = lf('charof', e_id(c.pre, c.a[0])); c.ctx.fact(and_(ge(x, -128), le(x, 127))); c.require(eq(lf('chartype', e_id(c.pre, c.a[0])), 1), 'a character'); c.case('', ret=x)
le_(PK + '3getIcEET_v', ['var'], e_char)
le_(PK + 'neES0_', ['var', 'val'], e_cmp(ENE))
le_(PK + 'eqES0_', ['var', 'val'], e_cmp(lambda x, y: not_(ENE(x, y)))); le_(PK + 'gtES0_', ['var', 'val'], e_cmp(lambda x, y: ELT(y, x)))
def sp_gen(which):
    def sp(c):
        h, g = c.a; X, Y = (lambda k: lf('element', h.b, k)), (lambda k: lf('element', g.b, k)); nh, ng = lf('sizeofheap', h.b), lf('sizeofheap', g.b)
        n = nh if which == 'neq' else smaller(nh, ng)
        d = (lambda k: ENE(X(k), Y(k))) if which == 'neq' else (lambda k: or_(ELT(X(k), Y(k)), ELT(Y(k), X(k))))
        m = first(c, c.pre, which, h, g, n); c.ex.cmp.m = m; atfirst(c.ctx, m, n, m, d(m)); c.ex.cmp.at = lambda k: atfirst(c.ctx, m, n, k, d(k))
        if which == 'neq': c.case('some element differs', ret=lt(m, n))
        else: c.case('the first difference decides, then the length', ret=ite(lt(m, n), ELT(X(m), Y(m)), bz(lt(nh, ng))))
    return sp
def as_gen(which):
    def f(c):
        h, g = c.a; th, tg = lf('typeofheap', h.b), lf('typeofheap', g.b); nh, ng = lf('sizeofheap', h.b), lf('sizeofheap', g.b)
        return [or_(gt(th, 7), not_(eq(th, tg)), and_(gt(th, 1), lt(th, 7))), ge(nh, 0), ge(ng, 0), lt(nh, 1 << 31), lt(ng, 1 << 31)] + ([eq(nh, ng)] if which == 'neq' else [])
    return f
for n, which in (('3neq', 'neq'), ('2lt', 'lt')):
    CHECKS.append(Contract(HP + n + 'EPNS_5IHeapE@elements', ['heap', 'heap'], sp_gen(which), setup=typed_heaps(0), assumes=as_gen(which), local=EL, opts={'closed': True}, loops={None: {'cand': cand_first}}, props=['C10']))
# ------------------------------------------------------------------ one order
def lemma_order():
    '''elements compare in one order, then so do arrays (nested arrays by induction on depth)'''
    V = z3.DeclareSort('Val'); less = z3.Function('less1', V, V, z3.BoolSort()); neq = z3.Function('neq1', V, V, z3.BoolSort())
    u, v, w = z3.Consts('u v w', V); k = z3.Int('k')
    order = [z3.ForAll([u, v], z3.Implies(less(u, v), z3.Not(less(v, u)))), z3.ForAll([u, v, w], z3.Implies(z3.And(less(u, v), less(v, w)), less(u, w))),
             z3.ForAll([u, v], neq(u, v) == z3.Or(less(u, v), less(v, u))),
             z3.ForAll([u, v, w], z3.Implies(z3.And(z3.Not(neq(u, v)), less(v, w)), less(u, w))), z3.ForAll([u, v, w], z3.Implies(z3.And(z3.Not(neq(u, v)), less(w, v)), less(w, u)))]
    A = [z3.Function('arr%d' % j, I, V) for j in range(3)]; N = [z3.Int('len%d' % j) for j in range(3)]
    def cmp_(i, j):
        '''(less, not equal) as the contracts of lt, neq and operator!= have them; with the first differences they speak of'''
        a, b = A[i], A[j]; n = z3.If(N[i] < N[j], N[i], N[j]); m, q = z3.Int('m%d%d' % (i, j)), z3.Int('q%d%d' % (i, j))
        d = lambda k: z3.Or(less(a(k), b(k)), less(b(k), a(k)))
        f = [0 <= m, m <= n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.Not(d(k)))), z3.Implies(m < n, d(m)),
             0 <= q, q <= N[i], z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < q, N[i] == N[j]), z3.Not(neq(a(k), b(k))))), z3.Implies(z3.And(N[i] == N[j], q < N[i]), neq(a(q), b(q)))]
        return z3.If(m < n, less(a(m), b(m)), N[i] < N[j]), z3.Or(N[i] != N[j], q < N[i]), f
    base = order + [x >= 0 for x in N]
    (l01, n01, f01), (l10, n10, f10), (l12, n12, f12), (l02, n02, f02), (l00, n00, f00) = cmp_(0, 1), cmp_(1, 0), cmp_(1, 2), cmp_(0, 2), cmp_(0, 0)
    yield 'not less both ways', base + f01 + f10, z3.Not(z3.And(l01, l10))
    yield 'unequal if and only if one is less', base + f01 + f10, n01 == z3.Or(l01, l10)
    yield 'equality is symmetric', base + f01 + f10, n01 == n10
    yield 'equality is reflexive', base + f00, z3.Not(n00)
    yield 'less is transitive', base + f01 + f12 + f02, z3.Implies(z3.And(l01, l12), l02)
    yield 'a proper prefix comes first', base + f01 + [N[0] < N[1], z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N[0]), z3.Not(neq(A[0](k), A[1](k)))))], l01
CHECKS.append(Lemma('one order', lemma_order, ['C10']))

def lemma_elements():
    """elements ordered by operator<, except characters, which are ordered as bytes, are in one order"""
    V = z3.DeclareSort('Val'); less0 = z3.Function('less0', V, V, z3.BoolSort()); neq = z3.Function('neq1', V, V, z3.BoolSort()); ty = z3.Function('typeof', V, I); by = z3.Function('byte', V, I)
    u, v, w = z3.Consts('u v w', V); a, b, c = z3.Consts('a b c', V)
    base = [z3.ForAll([u, v], z3.Implies(less0(u, v), z3.Not(less0(v, u)))), z3.ForAll([u, v, w], z3.Implies(z3.And(less0(u, v), less0(v, w)), less0(u, w))),
            z3.ForAll([u, v], neq(u, v) == z3.Or(less0(u, v), less0(v, u))), z3.ForAll([u, v, w], z3.Implies(z3.And(z3.Not(neq(u, v)), less0(v, w)), less0(u, w))), z3.ForAll([u, v, w], z3.Implies(z3.And(z3.Not(neq(u, v)), less0(w, v)), less0(w, u))),
            z3.ForAll([u, v], z3.Implies(ty(u) != ty(v), less0(u, v) == (ty(u) < ty(v)))),                      # operator<, by type first
            z3.ForAll([u, v], z3.Implies(z3.And(ty(u) == 1, ty(v) == 1), neq(u, v) == (by(u) != by(v))))]
    L = lambda x, y: z3.If(z3.And(ty(x) == 1, ty(y) == 1), by(x) < by(y), less0(x, y))
    yield 'not less both ways', base, z3.Implies(L(a, b), z3.Not(L(b, a)))
    yield 'less is transitive', base, z3.Implies(z3.And(L(a, b), L(b, c)), L(a, c))
    yield 'unequal if and only if one is less', base, neq(a, b) == z3.Or(L(a, b), L(b, a))
    yield 'equal elements are ordered alike', base, z3.Implies(z3.And(z3.Not(neq(a, b)), L(b, c)), L(a, c))
    yield 'equal elements are ordered alike (2)', base, z3.Implies(z3.And(z3.Not(neq(a, b)), L(c, b)), L(c, a))
CHECKS.append(Lemma('one order of elements', lemma_elements, ['C10']))
