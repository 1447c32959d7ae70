"""Shared vocabulary of the contracts: the layout of Heap, View and var, and
specification functions over memory."""
import z3
from irv.ir import *
from irv.core import *
from irv.exe import *
from irv.contract import *

CONTRACTS = {}        # name -> Contract (checked or trusted)
CHECKS = []           # contracts to be verified, in order
def reg(con, check=True, use=True):
    if use: CONTRACTS[con.name] = con
    if check and not con.trusted: CHECKS.append(con)
    return con

TYPE_ARRAY, TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE, TYPE_VAR, TYPE_PAIR = range(10)
ESIZE = {1: 1, 2: 4, 3: 8, 4: 4, 5: 8, 6: 8, 7: 16, 8: 16, 9: 32}
TNAME = {1: 'char', 2: 'int', 3: 'long', 4: 'float', 5: 'double', 6: 'cfloat', 7: 'cdouble', 8: 'var', 9: 'pair'}
LEAFK = {1: ('i8',), 2: ('i32',), 3: ('i64',), 4: ('f32',), 5: ('f64',), 6: ('f32', 'f32'), 7: ('f64', 'f64')}
HEAPVT, VIEWVT = '_ZTVN6libube4HeapE', '_ZTVN6libube4ViewE'
ERROR, RANGE = '_ZTIN6libube5errorE', '_ZTISt11range_error'

# ---- Heap fields
def F(st, h, kind, off): return st.read(kind, h.b, iadd(h.o, off))
def msize(st, h): return F(st, h, 'i32', 16)
def mtype(st, h): return F(st, h, 'i64', 24)
def mcap(st, h): return F(st, h, 'i32', 32)
def mdata(st, h):
    p = st.ldp(h.add(8))
    return p
def isview(st, h):
    v = st.read('vt', h.b, h.o)
    return eq(v, st.ctx.clsid(VIEWVT))
def clsfact(st, h):
    """a heap object is a Heap or a View"""
    v = st.read('vt', h.b, h.o)
    return or_(eq(v, st.ctx.clsid(HEAPVT)), eq(v, st.ctx.clsid(VIEWVT)))
def vheap(st, h): return st.ldp(h.add(40))
def vdat(st, h, k): 
    d = mdata(st, h)
    return st.read('i32', d.b, iadd(d.o, imul(k, 4)))
def voff(st, h): return vdat(st, h, 0)
def vshape(st, h, d): return vdat(st, h, iadd(imul(d, 2), 1))
def vstride(st, h, d): return vdat(st, h, iadd(imul(d, 2), 2))
# ---- abstract heap (array or view)
def hbase(st, h): return ite(isview(st, h), vheap(st, h), h)
def hoff(st, h): return ite(isview(st, h), voff(st, h), 0)
def hsize(st, h):
    v = isview(st, h)
    return ite(v, zv(vshape(st, h, 0)) * zv(vstride(st, h, 0)), msize(st, h))
def htype(st, h): return ite(isview(st, h), mtype(st, vheap(st, h)), mtype(st, h))
def hdim(st, h):
    # (size-1)/2 of the descriptor for a view
    m = msize(st, h)
    return ite(isview(st, h), zv(isub(m, 1)) / 2, 1)
def hdata(st, h): return mdata(st, hbase(st, h)) if not isc(isview(st, h)) else (mdata(st, vheap(st, h)) if isview(st, h) else mdata(st, h))
# ---- well formedness
def wf_heap(st, h):
    """representation invariant of a plain heap"""
    d = mdata(st, h)
    need = ite(eq(mtype(st, h), TYPE_CHAR), iadd(msize(st, h), 1), msize(st, h))
    return [and_(ge(msize(st, h), 0), ge(mcap(st, h), 0), ge(mtype(st, h), 1), le(mtype(st, h), 9)),
            implies(eq(mcap(st, h), 0), and_(eq(d.b, 0), eq(d.o, 0))),
            implies(gt(mcap(st, h), 0), and_(ge(d.b, 1), ge(d.o, 0), or_(kindof(zv(d.b)) == K_DATA), le(need, mcap(st, h)))),
            eq(st.read('vt', h.b, h.o), st.ctx.clsid(HEAPVT))]
def wf_built(st, h):
    return wf_heap(st, h) + [gt(mcap(st, h), 0)]
def wf_view(st, h):
    d = mdata(st, h); m = msize(st, h)
    b = vheap(st, h)
    return [and_(eq(mtype(st, h), TYPE_INT), ge(m, 3), eq(zv(m) % 2, 1), ge(mcap(st, h), m), ge(d.b, 1), kindof(zv(d.b)) == K_DATA, ge(d.o, 0)),
            and_(ge(b.b, 1), eq(b.o, 0), kindof(zv(b.b)) == K_HEAP, not_(eq(b.b, h.b)), not_(eq(mdata(st, b).b, d.b))),
            eq(st.read('vt', h.b, h.o), st.ctx.clsid(VIEWVT)),
            and_(ge(voff(st, h), 0), ge(vshape(st, h, 0), 0), ge(vstride(st, h, 0), 0), le(zv(voff(st, h)) + zv(vshape(st, h, 0)) * zv(vstride(st, h, 0)), msize(st, b)))] + wf_built(st, b)
def wf_any(st, h):
    v = isview(st, h)
    if isc(v): return wf_view(st, h) if v else wf_built(st, h)
    return [clsfact(st, h)] + [implies(v, x) for x in wf_view(st, h)] + [implies(not_(v), x) for x in wf_built(st, h)]
# ---- var slots
def vtag(st, s): return st.read('i64', s.b, iadd(s.o, 8))
def vhp(st, s): return st.ldp(s)
def isref(st, s): return lt(vtag(st, s), 0)
def setvar(st, s, kindvals, tag):
    """writes payload cells and tag"""
    for kind, v in kindvals:
        if kind == 'p': st.stp(s, v)
        else: st.st(kind, s.b, s.o, v)
    st.st('i64', s.b, iadd(s.o, 8), tag)
def copyvar(st, src, dst, tag=None):
    snap = st.copy()
    st.copyrange(snap, src.b, src.o, dst.b, dst.o, 8, UNDEFCELLS + ('i16',))
    st.st('i64', dst.b, iadd(dst.o, 8), vtag(snap, src) if tag is None else tag)
def havocslot(st, s):
    for k in ('i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'pb', 'po'): st.havoc(k, s.b, s.o, 16)
def live(st, s): return eq(st.read('lv', s.b, s.o), 1)

# ---- values of vars
def notref(t): return isub(-1, t)            # ~tag
def slot_parts(st, s):
    """(ref, typed, h, i, t, rslot): rslot is the slot holding the value unless typed"""
    tag = vtag(st, s); ref = lt(tag, 0); h = vhp(st, s); i = notref(tag)
    if ref is False: return False, False, h, i, None, s
    t = htype(st, h)
    isv = and_(ref, eq(t, TYPE_VAR)); isp = and_(ref, eq(t, TYPE_PAIR))
    d = hdata(st, h); k = iadd(i, hoff(st, h))
    e16 = Ptr(d.b, iadd(d.o, imul(k, 16))); e32 = Ptr(d.b, iadd(d.o, iadd(imul(k, 32), 16)))
    rs = ite(isv, e16, ite(isp, e32, s))
    return ref, and_(ref, not_(isv), not_(isp)), h, i, t, rs
def v_type(st, s):
    ref, typed, h, i, t, rs = slot_parts(st, s)
    return ite(typed, t if t is not None else 0, vtag(st, rs))
def v_undef(st, s):
    ref, typed, h, i, t, rs = slot_parts(st, s)
    return and_(not_(typed), eq(vtag(st, rs), 0), eq(vhp(st, rs).b, 0))
def v_heap(st, s):
    ref, typed, h, i, t, rs = slot_parts(st, s)
    return ite(and_(not_(typed), eq(vtag(st, rs), 0)), vhp(st, rs), NULL)
def v_size(st, s):
    ref, typed, h, i, t, rs = slot_parts(st, s)
    hp = vhp(st, rs)
    return ite(typed, 1, ite(eq(vtag(st, rs), 0), ite(eq(hp.b, 0), 0, hsize(st, hp)), 1))
def v_atype(st, s):
    ref, typed, h, i, t, rs = slot_parts(st, s)
    hp = vhp(st, rs)
    return ite(typed, t if t is not None else 0, ite(eq(vtag(st, rs), 0), htype(st, hp), vtag(st, rs)))
def wf_hp(st, h):
    """pointer to a heap object (null excluded)"""
    return [and_(eq(h.o, 0), kindof(zv(h.b)) == K_HEAP)] + wf_any(st, h)
def wf_slot(st, s):
    """a stored (non reference) var"""
    hp = vhp(st, s)
    return [and_(ge(vtag(st, s), 0), le(vtag(st, s), 6))] + [implies(and_(eq(vtag(st, s), 0), not_(eq(hp.b, 0))), x) for x in wf_hp(st, hp)]
def wf_var(st, s, deep=True):
    """representation invariant of a live var (it may be a reference)"""
    tag = vtag(st, s)
    ref, typed, h, i, t, rs = slot_parts(st, s)
    out = [le(tag, 6), live(st, s)]
    hp = vhp(st, s)
    out += [implies(and_(le(tag, 0), not_(eq(hp.b, 0))), x) for x in wf_hp(st, hp)]
    out += [implies(ref, not_(eq(hp.b, 0)))]
    out += [implies(ref, and_(le(0, i), lt(iadd(i, hoff(st, hp)), ite(isview(st, hp), msize(st, vheap(st, hp)), msize(st, hp)))))]
    # a block of numbers holds no vars
    if ref is not False: out += [implies(typed, not_(eq(hdata(st, h).b, s.b)))]
    # elements are stored values
    out += [implies(and_(ref, not_(typed)), x) for x in wf_slot(st, rs) + [live(st, rs)]]
    return out
def var_kinds(st, s, deep=True):
    """type facts that speed up aliasing questions"""
    return []
# begin / end of life at call sites
def begin(c, slot, post):
    if c.mode == 'use':
        c.require(eq(c.pre.read('lv', slot.b, slot.o), 0), 'not yet constructed')
        post.st('lv', slot.b, slot.o, 1)
def end(c, slot, post):
    if c.mode == 'use':
        c.require(eq(c.pre.read('lv', slot.b, slot.o), 1), 'constructed')
        post.st('lv', slot.b, slot.o, 0)
UNDEFCELLS = ('i8', 'i32', 'i64', 'f32', 'f64', 'pb', 'po')
@builtin('strlen')
def _strlen(ex, a, st, ins):
    p = a[0]
    if isc(p.b) and p.b in ex.ctx.frozen and isc(p.o):
        k = 0
        while ex.ctx.ginfo[p.b].get(('i8', p.o + k), 0) != 0: k += 1
        return R(st, k)
    n = strlen(st, p)
    ex.ctx.fact(n >= 0); ex.ctx.fact(n < (1 << 31) - 1)
    st.assume(eq(st.read('i8', p.b, iadd(p.o, n)), 0))
    st.past.append(Forall(0, n, lambda k: not_(eq(st.read('i8', p.b, iadd(p.o, k)), 0))))
    return R(st, n)
def strlen(st, p):
    if isc(p.b) and p.b in st.ctx.frozen and isc(p.o):
        k = 0
        while st.ctx.ginfo[p.b].get(('i8', p.o + k), 0) != 0: k += 1
        return k
    return app('strlen', p)
