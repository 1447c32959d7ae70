"""C15: what the row-major wrappers hand to the BLAS / LAPACK library.

Each external routine is a trusted contract: it reads its scalar arguments through the pointers it is
given, writes only its output operand (and returns a value of its own).  The contract of a wrapper says
which call must have been made, with which lengths, strides, operand order and leading dimensions."""
from .lib import *
from irv.exe import BUILTIN

SZ = {'s': 4, 'd': 8, 'c': 8, 'z': 16}
KD = {'s': ('f32',), 'd': ('f64',), 'c': ('f32',), 'z': ('f64',)}
# argument signature: n integer, h character, a scalar of the element type, p array, o output array, r result, w workspace, i info
SIG = {}
for t in 'sdcz':
    SIG[t + 'swap_'] = 'nonon'; SIG[t + 'copy_'] = 'npnon'; SIG[t + 'axpy_'] = 'napnon'
    SIG[t + 'scal_'] = 'naon'
    SIG['i%samax_' % t] = 'npn'; SIG[t + 'asum_'] = 'npn'
for t in 'sd':
    SIG[t + 'dot_'] = 'npnpn'
    SIG[t + 'tbmv_'] = 'hhhnnpnon'; SIG[t + 'sbmv_'] = 'hnnapnpnaon'
    SIG[t + 'gemm_'] = 'hhnnnapnpnaon'
    SIG[t + 'gees_'] = 'hhqnonioooNwnqi'; SIG[t + 'geev_'] = 'hhnonoooNoNwni'
for t in 'cz':
    SIG[t + 'dotc_'] = 'rnpnpn'
SIG['sgees_'] = SIG['dgees_']
def elt(name):
    return name[1] if name.startswith('i') else name[0]
def blas(name):
    t = elt(name)
    def f(ex, a, st, ins):
        ev = []
        for s, p in zip(SIG[name], a):
            if s in 'nN': ev.append(st.read('i64', p.b, p.o))
            elif s == 'h': ev.append(st.read('i8', p.b, p.o))
            elif s == 'a': ev.append(tuple(st.read(KD[t][0], p.b, iadd(p.o, o)) for o in ((0, SZ[t] // 2) if t in 'cz' else (0,))))
            else: ev.append(p)
        res = ex.ctx.fresh('blas')
        ret = res
        for s, p in zip(SIG[name], a):
            if s == 'o':
                if p is NULL or eq(p.b, 0) is True: continue
                st.havoc(KD[t][0], p.b, -(1 << 62), 1 << 63)
            elif s == 'r':
                ret = tuple(ex.ctx.fresh('blasr') for _ in range(2))
                for q, v in enumerate(ret): st.st(KD[t][0], p.b, iadd(p.o, q * SZ[t] // 2), v)
            elif s == 'i':
                v = ex.ctx.fresh('info'); st.st('i64', p.b, p.o, v); ret = v
            elif s == 'w': pass
        st.events.append(('blas', name, ev, ret))
        return [Outcome('ret', res, st)]
    BUILTIN[name] = f
for n in SIG: blas(n)

ch = ord
def same(x, w):
    if isinstance(w, Ptr): return peq(x, w) if isinstance(x, Ptr) else False
    if isinstance(w, tuple): return and_(*[eq(a, b) for a, b in zip(x, w)])
    return eq(x, w)
def wrapper(sym, args, routine, want, ret=None, outs=(), req=None):
    """want(c): the values that the routine must be given, None where anything will do"""
    t = elt(routine)
    def sp(c):
        if req: req(c)
        post = c.post()
        for o in outs:
            p = c.a[o]
            post.havoc(KD[t][0], p.b, -(1 << 62), 1 << 63)
        c.case('', post=post)
    def ev(c, k, out):
        es = [e for e in out.st.events if e[0] == 'blas']
        goals = [('exactly one library call', z3.BoolVal(len(es) == 1))]
        if len(es) != 1: return goals
        e = es[0]
        goals.append(('library routine %s' % routine, z3.BoolVal(e[1] == routine)))
        if e[1] != routine: return goals
        for i, (x, w) in enumerate(zip(e[2], want(c))):
            if w is None: continue
            goals.append(('%s argument %d' % (routine, i + 1), w(x, e[2]) if callable(w) else same(x, w)))
        if ret: 
            for g in ret(c, out, e[3]): goals.append(('result', g))
        return goals
    reg(Contract(sym, args, sp, props=['C15'], opts={'events': ev}), use=False)
M = {'s': 'f', 'd': 'd', 'c': 'St7complexIfE', 'z': 'St7complexIdE'}
AL = {'s': ['f32'], 'd': ['f64'], 'c': ['cf32'], 'z': ['f64', 'f64']}
def alpha(c, t, i): return (c.a[i],) if t in 'sd' else (c.a[i] if t == 'c' else (c.a[i], c.a[i + 1]))
def isret(f): return lambda c, out, r: [f(out.val, r)]
def veq(a, b):
    if isinstance(b, tuple) != isinstance(a, tuple): return z3.BoolVal(False)
    return and_(*[eq(x, y) for x, y in zip(a, b)]) if isinstance(b, tuple) else eq(a, b)
P_ = '_ZN4blas'
for t in 'sdcz':
    m = M[t]; r = t in 'sd'; S1, S2 = ('S1_', 'S2_') if r else ('S3_', 'S4_')
    na = len(AL[t])
    wrapper('%s4swapI%sEEvlPT_%s' % (P_, m, S2), ['i64', 'ptr', 'ptr'], t + 'swap_', lambda c: [c.a[0], c.a[1], 1, c.a[2], 1], outs=(1, 2))
    wrapper('%s4copyI%sEEvlPT_%s' % (P_, m, S2), ['i64', 'ptr', 'ptr'], t + 'copy_', lambda c: [c.a[0], c.a[1], 1, c.a[2], 1], outs=(2,))
    wrapper('%s4axpyI%sEEvlT_P%s%s' % (P_, m, S1, S2), ['i64'] + AL[t] + ['ptr', 'ptr'], t + 'axpy_', lambda c, t=t, na=na: [c.a[0], alpha(c, t, 1), c.a[1 + na], 1, c.a[2 + na], 1], outs=(2 + na,))
    if r: wrapper('%s4scalI%sEEvlT_P%s' % (P_, m, S1), ['i64', AL[t][0], 'ptr'], t + 'scal_', lambda c: [c.a[0], (c.a[1],), c.a[2], 1], outs=(2,))
    if r: wrapper('%s3dotI%sEET_lP%s%s' % (P_, m, S1, S2), ['i64', 'ptr', 'ptr'], t + 'dot_', lambda c: [c.a[0], c.a[1], 1, c.a[2], 1], ret=isret(veq))
    else: wrapper('%s3dotI%sEET_lP%s%s' % (P_, m, S1, S2), ['i64', 'ptr', 'ptr'], t + 'dotc_', lambda c: [None, c.a[0], c.a[1], 1, c.a[2], 1], ret=isret(veq))
    # a zero-based index from a one-based one
    wrapper('%s5iamaxI%sEEllPT_' % (P_, m), ['i64', 'ptr'], 'i%samax_' % t, lambda c: [c.a[0], c.a[1], 1], ret=isret(lambda v, x: eq(v, isub(x, 1))))
    if r:
        wrapper('%s4asumI%sEET_lP%s' % (P_, m, S1), ['i64', 'ptr'], t + 'asum_', lambda c: [c.a[0], c.a[1], 1], ret=isret(veq))
        wrapper('%s4tbmvI%sEEvllPT_S2_' % (P_, m), ['i64', 'i64', 'ptr', 'ptr'], t + 'tbmv_', lambda c: [ord('L'), ord('T'), ord('N'), c.a[0], c.a[1], c.a[2], 1, c.a[3], 1], outs=(3,))
        f = AL[t][0]
        wrapper('%s4sbmvI%sEEvllT_PS1_S2_S1_S2_' % (P_, m), ['i64', 'i64', f, 'ptr', 'ptr', f, 'ptr'], t + 'sbmv_',
                lambda c: [ord('L'), c.a[0], c.a[1], (c.a[2],), c.a[3], 1, c.a[4], 1, (c.a[5],), c.a[6], 1], outs=(6,))
        # C (m x n) = alpha A (m x k) B (k x n) + beta C, all row-major: the library computes C' = alpha B' A' + beta C'
        wrapper('%s4gemmI%sEEvlllT_PS1_S2_S1_S2_' % (P_, m), ['i64', 'i64', 'i64', f, 'ptr', 'ptr', f, 'ptr'], t + 'gemm_',
                lambda c: [ord('N'), ord('N'), c.a[1], c.a[0], c.a[2], (c.a[3],), c.a[5], c.a[1], c.a[4], c.a[2], (c.a[6],), c.a[7], c.a[1]], outs=(7,))
        def job(i): return lambda x, ev: None
        vn = lambda p: ite(eq(p.b, 0), ord('N'), ord('V'))
        wrk = lambda f: (lambda x, ev: ge(x, f))
        def okw(c, k): return lambda x, ev: and_(ge(x, imul(c.a[0], k)), ge(x, 1))
        def hasroom(c, li, esz):
            """the work space is as long as it is said to be"""
            def g(x, ev):
                sz = c.out.st.info.get(x.b, {}).get('size') if isc(x.b) else None
                if sz is None: return z3.BoolVal(False)
                return le(imul(ev[li], esz), isub(sz, x.o))
            return g
        nn = lambda c: c.require(ge(c.a[0], 0), 'order')
        if t == 's':
            wrapper('_ZN6lapack4geesI%sEEllPT_S2_S2_S2_' % m, ['i64', 'ptr', 'ptr', 'ptr', 'heap0'], t + 'gees_',
                    lambda c: [vn(c.a[4]), ord('N'), NULL, c.a[0], c.a[1], c.a[0], None, c.a[2], c.a[3], c.a[4], c.a[0], hasroom(c, 12, 4), okw(c, 3), NULL, None], outs=(1, 2, 3, 4), ret=isret(veq), req=nn)
        wrapper('_ZN6lapack4geevI%sEEllPT_S2_S2_S2_S2_' % m, ['i64', 'ptr', 'ptr', 'ptr', 'heap0', 'heap0'], t + 'geev_',
                lambda c, t=t: [vn(c.a[5]), vn(c.a[4]), c.a[0], c.a[1], c.a[0], c.a[2], c.a[3], c.a[5], c.a[0], c.a[4], c.a[0], hasroom(c, 12, SZ[t]), okw(c, 4), None], outs=(1, 2, 3, 4, 5), ret=isret(veq), req=nn)
