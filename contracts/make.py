"""Constructing arrays and views: copies, and views over an existing array."""
from .lib import *
from .mem import *
from .mem import NUM, RESIZE
from .view import P as VP, as_strides, sp_strides, prod, okf
P = '_ZN6libube4Heap'
RESD = Contract(P + '6resizeEi', ['heap', 'i32'], lambda c: sp_resize(c, True))       # the call is not virtual
LOC = {P + '6resizeEi': RESD}

# ------------------------------------------------------------------ resizing, of the descriptor of a view
def as_vresize(c):
    st = c.pre; h = c.a[0]
    return wf_heap(st, h)[:-1] + [eq(st.read('fr', mdata(st, h).b, 0), 0), implies(eq(mcap(st, h), 0), eq(msize(st, h), 0))]
CHECKS.append(Contract(P + '6resizeEi@descriptor of a view', ['heap=View', 'i32'], lambda c: sp_resize(c, True), assumes=as_vresize, setup=oftype(2), props=['C02', 'C04']))

# ------------------------------------------------------------------ a copy of an array
def blank(post, h, t, view=False):
    post.st('vt', h.b, h.o, post.ctx.clsid(VIEWVT if view else HEAPVT)); post.stp(h.add(8), NULL)
    post.st('i32', h.b, iadd(h.o, 16), 0); post.st('i32', h.b, iadd(h.o, 32), 0); post.st('i32', h.b, iadd(h.o, 36), 0)
    post.st('i64', h.b, iadd(h.o, 24), t)
def sp_hctor(c):
    h, g, only = c.a; st = c.pre; t = mtype(st, g); n = msize(st, g)
    c.require(not_(isview(st, g)), 'an array, not a view')
    p0 = c.post(); blank(p0, h, t)
    for k in sub(c, sp_resize, [h, n], p0):
        if norm(k.guard) is False: continue
        base = k.post
        s = mdata(base, g); d = mdata(base, h)
        p = base.copy(); copycells(p, base, s.b, s.o, d, n, t)
        if norm(only) is not True: c.case('copied: ' + k.name, and_(k.guard, not_(only)), post=p, ensures=k.ensures)
        if norm(only) is not False: c.case('allocated: ' + k.name, and_(k.guard, only), post=base, ensures=k.ensures)
def as_hctor(c):
    st = c.pre; g = c.a[1]
    return wf_built(st, g) + [le(msize(st, g), RESMAX)]
HC = P + 'C2ERKNS_5IHeapEb'
CONTRACTS[HC] = Contract(HC, ['newheap', 'heap', 'i1'], sp_hctor)
for nm, t, sz, k in NUM:
    CHECKS.append(Contract(HC + '@%s' % nm, ['newheap', 'heap=Heap', 'i1'], sp_hctor, assumes=as_hctor, setup=oftype(t, at=1), props=['C07', 'C01']))

# ------------------------------------------------------------------ a view of an array
def rc(st, h): return F(st, h, 'i32', 36)
def attach(c):
    h = c.a[0]; post = c.post(); r = iadd(rc(c.pre, h), 1); post.st('i32', h.b, iadd(h.o, 36), r); c.case('attach', ret=r, post=post)
LOC.update({'V:' + P + '6attachEv': Contract('V:' + P + '6attachEv', ['heap'], attach), P + '6attachEv': Contract(P + '6attachEv', ['heap'], attach)})
def detach(c):
    # an array that is being viewed still has an owner besides the view
    h = c.a[0]; st = c.pre; post = c.post(); r = isub(rc(st, h), 1)
    c.require(gt(rc(st, h), 1), 'the array has another owner')
    post.st('i32', h.b, iadd(h.o, 36), r); c.case('detach', ret=r, post=post)
LOC.update({'V:' + P + '6detachEv': Contract('V:' + P + '6detachEv', ['heap'], detach), P + '6detachEv': Contract(P + '6detachEv', ['heap'], detach)})
def over(c, v, g, p0):
    """the array underneath g, and the descriptor of v in the making"""
    st = c.pre; b = hbase(st, g)
    blank(p0, v, 2, True); p0.stp(v.add(40), b); p0.st('i32', b.b, iadd(b.o, 36), iadd(rc(st, b), 1))
    return b
def sp_vctor(c):
    v, g = c.a; st = c.pre
    p0 = c.post(); over(c, v, g, p0)
    for k in sub(c, lambda s: sp_resize(s, True), [v, 1], p0):
        if norm(k.guard) is False: continue
        d = mdata(k.post, v); k.post.st('i32', d.b, d.o, hoff(st, g))
        c.case('over the array, ' + k.name, k.guard, post=k.post, ensures=k.ensures)
def as_vctor(c):
    st = c.pre; g = c.a[1]; b = hbase(st, g)
    return wf_any(st, g) + [ge(rc(st, b), 1), lt(rc(st, b), IMAX), eq(st.read('fr', g.b, 0), 0), eq(st.read('fr', b.b, 0), 0)]
IMAX = (1 << 31) - 1
VC = VP + 'C2EPNS_5IHeapE'
LOC[VC] = Contract(VC, ['newheap', 'heap'], sp_vctor)
CHECKS.append(Contract(VC, ['newheap', 'heap'], sp_vctor, assumes=as_vctor, local=LOC, props=['C04', 'C07', 'C01']))

# ------------------------------------------------------------------ a view of given dimensions
from .view import unfold
DMAX = 1 << 20
def gone(c):
    """the view did not come to be: what it was made of is released, and the array is as it was"""
    p = c.post(); v = c.a[0]
    for k in ALLK: p.havoc(k, v.b, v.o, 48)
    return p
def shaped(c, v, g, d, off, dimof, base=None):
    """cases of a constructor given d dimensions, the k-th being dimof(k)"""
    st = base or c.pre; ctx = c.ctx
    b = hbase(st, g); n = iadd(imul(2, d), 1)
    p = st.copy(); blank(p, v, 2, True); p.stp(v.add(40), b); p.st('i32', b.b, iadd(b.o, 36), iadd(rc(st, b), 1))
    if c.mode == 'check' and c.out.kind == 'throw': blk, cap = Ptr(ctx.newbase(), 0), 0      # nothing was made
    else: blk = c.newref(lambda o: mdata(o.st, v)); cap = c.unknown(lambda o: mcap(o.st, v), 'cap')
    if c.mode == 'use': p.info[blk.b] = {'heap': 'callee'}
    p.stp(v.add(8), blk); p.st('i32', v.b, iadd(v.o, 16), n); p.st('i32', v.b, iadd(v.o, 32), cap)
    anyblock(p, blk)
    o = iadd(hoff(st, g), off)
    p.st('i32', blk.b, blk.o, o)
    def put(q, at, f):
        a0 = iadd(blk.o, at)
        q.m['i32'] = RangeS(q.m['i32'], (lambda b, x: and_(eq(b, blk.b), le(a0, x), lt(x, iadd(a0, imul(8, d))), eq(norm(zv(isub(x, a0)) % 8), 0))), (lambda b, x: f(norm(zv(isub(x, a0)) / 8))), False, [blk.b])
    put(p, 4, dimof); mid = p.copy()
    unfold(ctx, mid, v, d, 0); unfold(ctx, mid, v, d, d)
    def stride(k):
        unfold(ctx, mid, v, d, k); unfold(ctx, mid, v, d, iadd(k, 1))
        return prod(mid, v, d, iadd(k, 1))
    put(p, 8, stride)
    p.m['lv'] = RangeS(p.m['lv'], (lambda b, x: eq(b, blk.b)), (lambda b, x: 0), False, [blk.b])
    fits = and_(okf(mid, v, d, 0), le(prod(mid, v, d, 0), isub(msize(st, b), o)))
    ok = and_(ge(d, 1), ge(o, 0), le(o, msize(st, b)), fits)
    return p, blk, cap, ok, [c.isnew(blk), ge(cap, n)]
def sp_vlist(c):
    v, g, src, d, off = c.a; st = c.pre
    p, blk, cap, ok, ens = shaped(c, v, g, d, off, lambda k: st.read('i32', src.b, iadd(src.o, imul(4, k))))
    c.throws('does not lie within the array', not_(ok), ERROR, post=gone(c))
    c.case('row-major over the array', ok, post=p, ensures=ens)
def as_vlist(c):
    v, g, src, d, off = c.a; st = c.pre
    return as_vctor(c) + [ge(d, 0), lt(d, DMAX), le(-IMAX, iadd(hoff(st, g), off)), le(iadd(hoff(st, g), off), IMAX), kindof(zv(src.b)) != K_HEAP]
VL = VP + 'C2EPNS_5IHeapESt16initializer_listIiEi'
STR = Contract(VP + '10setStridesEi', ['heap', 'i32'], sp_strides)
CONTRACTS[VL] = Contract(VL, ['newheap', 'heap', 'ptr', 'i64', 'i32'], sp_vlist)
CHECKS.append(Contract(VL, ['newheap', 'heap', 'ptr', 'i64', 'i32'], sp_vlist, assumes=as_vlist, local=LOC, loops={None: {}}, props=['C04', 'C07', 'C01']))
# the same, the dimensions being the elements of a var
def g_size(c):
    n = lf('vsize', c.pre.read('gv', c.a[0].b, c.a[0].o)); c.ctx.fact(ge(n, 0)); c.ctx.fact(lt(n, DMAX)); c.case('', ret=n)
def g_index(c):
    r, s, i = c.a; p = c.post(); x = c.pre.read('gv', s.b, s.o)
    c.require(and_(ge(i, 0), lt(i, lf('vsize', x))), 'within the shape')
    p.st('gv', r.b, r.o, lf('elem', x, i)); begin(c, r, p); c.case('', post=p)
def g_int(c):
    x = c.pre.read('gv', c.a[0].b, c.a[0].o); bad = lf('notint', x, ret=B)
    c.throws('not an integer', bad, RANGE)
    c.case('', not_(bad), ret=dimval(c.ctx, x))
def dimval(ctx, x):
    n = lf('integer', x); ctx.fact(ge(n, -IMAX - 1)); ctx.fact(le(n, IMAX)); return n
def g_dtor(c):
    p = c.post(); end(c, c.a[0], p); c.case('', post=p)
V = '_ZN6libube3var'; VK = '_ZNK6libube3var'
from .seq import lf
def gl(n, args, f): LOC[n] = Contract(n + '@shape', args, f)
gl(VK + '4sizeEv', ['var'], g_size); gl(V + 'ixEi', ['sret', 'var', 'i32'], g_index); gl(VK + '3getIiEET_v', ['var'], g_int); gl(V + 'D2Ev', ['var'], g_dtor)
def sp_vvar(c):
    v, g, s, off = c.a; st = c.pre; x = st.read('gv', s.b, s.o)
    d = lf('vsize', x); c.ctx.fact(ge(d, 0)); c.ctx.fact(lt(d, DMAX))
    bad = c.unknown(lambda o: o.kind == 'throw' and o.exc == RANGE, 'refused', B)
    p, blk, cap, ok, ens = shaped(c, v, g, d, off, lambda k: dimval(c.ctx, lf('elem', x, k)))
    c.throws('a dimension is not an integer', bad, RANGE, post=gone(c))
    c.throws('does not lie within the array', and_(not_(bad), not_(ok)), ERROR, post=gone(c))
    c.case('row-major over the array', and_(not_(bad), ok), post=p, ensures=ens)
def as_vvar(c):
    v, g, s, off = c.a; st = c.pre
    return as_vctor(c) + [le(-IMAX, iadd(hoff(st, g), off)), le(iadd(hoff(st, g), off), IMAX)]
VV = VP + 'C2EPNS_5IHeapENS_3varEi'
CONTRACTS[VV] = Contract(VV, ['newheap', 'heap', 'val', 'i32'], sp_vvar)
CHECKS.append(Contract(VV, ['newheap', 'heap', 'val', 'i32'], sp_vvar, assumes=as_vvar, local=LOC, loops={None: {'fun': lambda lv: [0]}}, props=['C04', 'C07', 'C01']))

# ------------------------------------------------------------------ a copy of a view: of the whole array beneath, and of the descriptor
def sp_vcopy(c):
    v, g, only = c.a; st = c.pre; b = vheap(st, g); t = mtype(st, b)
    c.require(isview(st, g), 'a view')
    n = msize(st, g)
    h2 = c.newref(lambda o: o.st.ldp(v.add(40)))
    blk = c.newref(lambda o: mdata(o.st, v)); cap = c.unknown(lambda o: mcap(o.st, v), 'cap')
    p0 = c.post(); p0.st('vt', h2.b, 0, c.ctx.clsid(HEAPVT)); blank(p0, h2, t)
    if c.mode == 'use':
        for q in (h2, blk): p0.info[q.b] = {'heap': 'callee'}
    for k in sub(c, sp_resize, [h2, msize(st, b)], p0):
        if norm(k.guard) is False: continue
        for cp in (True, False):
            g2 = and_(k.guard, not_(only) if cp else only)
            if norm(g2) is False: continue
            p = k.post.copy(); s = mdata(p, b); d = mdata(p, h2)
            if cp: copycells(p, p.copy(), s.b, s.o, d, msize(st, b), t)
            p.st('i32', h2.b, 36, 1)
            blank(p, v, 2, True); p.stp(v.add(40), h2); p.stp(v.add(8), blk); p.st('i32', v.b, iadd(v.o, 16), n); p.st('i32', v.b, iadd(v.o, 32), cap)
            anyblock(p, blk)
            p.m['lv'] = RangeS(p.m['lv'], (lambda b_, x: eq(b_, blk.b)), (lambda b_, x: 0), False, [blk.b])
            p.m['lv'] = RangeS(p.m['lv'], (lambda b_, x: and_(eq(b_, h2.b), ge(x, 0), lt(x, 40))), (lambda b_, x: 0), False, [h2.b])
            sd = mdata(st, g); copycells(p, p.copy(), sd.b, sd.o, blk, n, 2)
            c.case('%s: %s' % ('copied' if cp else 'allocated', k.name), g2, post=p, ensures=k.ensures + [c.isnew(h2), c.isnew(blk), ge(cap, n)])
def as_vcopy(c):
    st = c.pre; g = c.a[1]; b = vheap(st, g)
    return wf_view(st, g) + [le(msize(st, b), RESMAX), le(mtype(st, b), 7), le(msize(st, g), RESMAX)]
VCC = VP + 'C2ERKNS_5IHeapEb'
CONTRACTS[VCC] = Contract(VCC, ['newheap', 'heap', 'i1'], sp_vcopy)
CHECKS.append(Contract(VCC, ['newheap', 'heap=View', 'i1'], sp_vcopy, assumes=as_vcopy, local=LOC, props=['C04', 'C07', 'C01']))

# ------------------------------------------------------------------ views and copies as values
def wrap(c, r, p, v):
    """r is made to refer to the new object v, its only owner"""
    if c.mode == 'use': p.info[v.b] = {'heap': 'callee'}
    p.st('i32', v.b, 36, 1); havocslot(p, r); p.stp(r, v); p.st('i64', r.b, iadd(r.o, 8), 0); begin(c, r, p)
def made(c, r):
    if c.mode == 'check' and c.out.kind == 'throw':
        # the object that was being made names the products of its dimensions
        new = [b for b, i in c.out.st.info.items() if i.get('heap') == 'new' and b not in c.pre.info]
        return Ptr(new[0] if new else c.ctx.newbase(), 0)
    v = c.newref(lambda o: o.st.ldp(r))
    return v
def sp_view(dims):
    def sp(c):
        r, s = c.a[:2]; st = c.pre; g = v_heap(st, s); nul = eq(g.b, 0)
        c.throws('not an array', nul, ERROR)
        if norm(nul) is True: return
        d, off, dimof, extra = dims(c)
        v = made(c, r); base = c.pre.copy(); base.m['lv'] = RangeS(base.m['lv'], (lambda b, x: and_(eq(b, v.b), ge(x, 0), lt(x, 48))), (lambda b, x: 0), False, [v.b])
        p, blk, cap, ok, ens = shaped(c, v, g, d, off, dimof, base)
        for k in ALLK: 
            if k not in ('pb', 'po', 'i32', 'i64', 'vt'): p.havoc(k, v.b, 0, 48)
        wrap(c, r, p, v)
        no = c.post()
        for k in ALLK: no.havoc(k, r.b, r.o, 16)
        bad = False
        if extra: bad = extra; c.throws('a dimension is not an integer', and_(not_(nul), bad), RANGE, post=no.copy())
        c.throws('does not lie within the array', and_(not_(nul), not_(bad), not_(ok)), ERROR, post=no)
        c.case('row-major over the array', and_(not_(nul), not_(bad), ok), post=p, ensures=ens + [c.isnew(v)])
    return sp
def as_view(c, off, more=[]):
    st = c.pre; s = c.a[1]; g = v_heap(st, s); b = hbase(st, g)
    return wf_var(st, s) + [implies(not_(eq(g.b, 0)), and_(x)) for x in [ge(rc(st, b), 1), lt(rc(st, b), IMAX), eq(st.read('fr', g.b, 0), 0), eq(st.read('fr', b.b, 0), 0), le(-IMAX, iadd(hoff(st, g), off)), le(iadd(hoff(st, g), off), IMAX)]] + more
def attachv(c):
    h = c.a[0]; post = c.post(); r = iadd(rc(c.pre, h), 1); post.st('i32', h.b, iadd(h.o, 36), r)
    post.bal = iadd(post.bal, ite(eq(h.b, c.ex.owner_heap), 1, 0)); c.case('attach', ret=r, post=post)
LOCV = {n: Contract(n, ['heap'], attachv) for n in ('V:' + P + '6attachEv', P + '6attachEv')}
ML_ = V + '4viewESt16initializer_listIiEi'
def sp_viewl(c):
    r, s, src, d, off = c.a; st = c.pre
    return sp_view(lambda c: (d, off, lambda k: st.read('i32', src.b, iadd(src.o, imul(4, k))), None))(c)
CHECKS.append(Contract(ML_, ['sret', 'var', 'ptr', 'i64', 'i32'], sp_viewl, assumes=lambda c: as_view(c, c.a[4], [ge(c.a[3], 0), lt(c.a[3], DMAX), kindof(zv(c.a[2].b)) != K_HEAP]), local=LOCV, ctor=0, props=['C04', 'C07', 'C01']))

def sp_viewv(c):
    r, s, x, off = c.a; xv = c.pre.read('gv', x.b, x.o)
    bad = c.unknown(lambda o: o.kind == 'throw' and o.exc == RANGE, 'refused', B)
    d = lf('vsize', xv); c.ctx.fact(ge(d, 0)); c.ctx.fact(lt(d, DMAX))
    return sp_view(lambda c: (d, off, lambda k: dimval(c.ctx, lf('elem', xv, k)), bad))(c)
def g_copy(c):
    r, x = c.a; p = c.post(); p.st('gv', r.b, r.o, c.pre.read('gv', x.b, x.o)); begin(c, r, p); c.case('', post=p)
LOCV[V + 'C2ERKS0_'] = Contract(V + 'C2ERKS0_@shape', ['ctor', 'var'], g_copy)
LOCV[V + 'D2Ev'] = Contract(V + 'D2Ev@shape', ['var'], g_dtor)
CHECKS.append(Contract(V + '4viewES0_i', ['sret', 'var', 'val', 'i32'], sp_viewv, assumes=lambda c: as_view(c, c.a[3]), local=LOCV, ctor=0, props=['C04', 'C07', 'C01']))

# ------------------------------------------------------------------ a copy of a value: shares nothing of the array it copies
from .assign import dcases
def fresh48(c, v, sz):
    base = c.pre.copy(); base.m['lv'] = RangeS(base.m['lv'], (lambda b, x: and_(eq(b, v.b), ge(x, 0), lt(x, sz))), (lambda b, x: 0), False, [v.b])
    return base
def sp_copyb(c):
    r, s, only = c.a; st = c.pre; g = v_heap(st, s); nul = eq(g.b, 0)
    if norm(nul) is not False:
        for nm, gd, f in dcases(c, s):
            g1 = and_(nul, gd)
            if norm(g1) is False: continue
            if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [zv(g1)]): continue
            post = c.post(); ens = f(post, [r]); begin(c, r, post); c.case('no array: ' + nm, g1, post=post, ensures=ens)
    if norm(nul) is True: return
    for nm, isv, spec, sz in (('array', not_(isview(st, g)), sp_hctor, 40), ('view', isview(st, g), sp_vcopy, 48)):
        gd = and_(not_(nul), isv)
        if norm(gd) is False: continue
        if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [zv(gd)]): continue
        v = made(c, r); rq = list(c.reqs)
        for k in sub(c, spec, [v, g, only], fresh48(c, v, sz)):
            if norm(k.guard) is False: continue
            p = k.post
            if c.mode == 'check':
                for kk in ALLK:
                    if kk not in ('pb', 'po', 'i32', 'i64', 'vt'): p.havoc(kk, v.b, 0, sz)
            wrap(c, r, p, v)
            c.case('%s: %s' % (nm, k.name), and_(gd, k.guard), post=p, ensures=k.ensures + [c.isnew(v)])
        c.reqs[:] = rq + [(implies(gd, f), w) for f, w in c.reqs[len(rq):]]
def as_copyb(c):
    st = c.pre; s = c.a[1]; g = v_heap(st, s); v = isview(st, g)
    num = [le(htype(st, g), 7), le(msize(st, g), RESMAX), implies(v, le(msize(st, vheap(st, g)), RESMAX)), eq(st.read('fr', g.b, 0), 0)]
    return wf_var(st, s) + [implies(not_(eq(g.b, 0)), x) for x in num]
for tp, nm in ((False, 'array'), (True, 'view')):
    def as_(c, tp=tp):
        g = v_heap(c.pre, c.a[1])
        return as_copyb(c) + [implies(not_(eq(g.b, 0)), beq(isview(c.pre, g), tp))]
    CHECKS.append(Contract(VK + '4copyEb@%s' % nm, ['sret', 'var', 'i1'], sp_copyb, assumes=as_, local={k: x for k, x in LOCV.items() if 'attach' in k}, ctor=0, props=['C07', 'C04', 'C01']))

# ------------------------------------------------------------------ arrays made of given data
def sp_hdata(T):
    sz, kd = TSZ[T], TK[T]
    def sp(c):
        h, n, src = c.a
        p0 = c.post(); blank(p0, h, T)
        c.require(and_(ge(n, 0), lt(n, RESMAX)), 'length')
        for k in sub(c, sp_append(T, sz, kd), [h, n, src], p0):
            if norm(k.guard) is False: continue
            more = [ge(mcap(c.fin, h), 8), lt(mcap(c.fin, h), 1 << 31), eq(mdata(c.fin, h).o, 0), implies(lt(n, 8), ge(mcap(c.fin, h), iadd(n, 1)))] if c.mode == 'check' else [implies(lt(n, 8), ge(mcap(k.post, h), iadd(n, 1)))]
            c.case(k.name, k.guard, post=k.post, ensures=k.ensures + more)
    return sp
from .assign import TSZ, TK
as_src = lambda c: [ge(c.a[2].b, 1), kindof(zv(c.a[2].b)) != K_HEAP]
MK = {}
for nm, T, cn in (('char', 1, 'PKc'), ('int', 2, 'PKi'), ('cdouble', 7, 'PKSt7complexIdE')):
    n = P + 'C2Ei' + cn
    MK[n] = Contract(n, ['newheap', 'i32', 'ptr'], sp_hdata(T))
    CHECKS.append(Contract(n, ['newheap', 'i32', 'ptr'], sp_hdata(T), assumes=as_src, props=['C02', 'C08', 'C01']))
# of a given length and type
def sp_hnew(c):
    h, n, t = c.a
    c.require(and_(ge(n, 0), le(n, RESMAX)), 'length not negative')
    p0 = c.post(); blank(p0, h, ite(eq(t, TYPE_ARRAY), TYPE_VAR, t))
    for k in sub(c, sp_resize, [h, n], p0): c.case(k.name, k.guard, post=k.post, ensures=k.ensures)
HN = P + 'C2EiNS_3indE'
for nm, t, sz, k in NUM:
    CHECKS.append(Contract(HN + '@%s' % nm, ['newheap', 'i32', 'i64=%d' % t], sp_hnew, props=['C02', 'C01']))
# strings and lists of numbers as values
def sp_vdata(T, sized=True):
    def sp(c):
        r = c.a[0]; src = c.a[-1]
        n = c.a[1] if sized else strlen(c.pre, src)
        if not sized: c.ctx.fact(implies(True, and_(ge(n, 0), lt(n, RESMAX))))
        c.require(and_(ge(n, 0), lt(n, RESMAX)), 'length')
        v = made(c, r)
        for k in sub(c, sp_hdata(T), [v, n, src], fresh48(c, v, 40)):
            if norm(k.guard) is False: continue
            p = k.post
            if c.mode == 'check':
                for kk in ALLK:
                    if kk not in ('pb', 'po', 'i32', 'i64', 'vt'): p.havoc(kk, v.b, 0, 40)
            wrap(c, r, p, v)
            c.case(k.name, k.guard, post=p, ensures=k.ensures + [c.isnew(v)])
    return sp
ATT = {k: x for k, x in LOCV.items() if 'attach' in k}
for T, cn in ((1, 'PKc'), (2, 'PKi')):
    n = V + 'C2Ei' + cn
    CHECKS.append(Contract(n, ['ctor', 'i32', 'ptr'], sp_vdata(T), assumes=as_src, ctor=0, local=dict(ATT, **MK), props=['C01', 'C02', 'C08']))
LS = {V + 'C2EiPKc': Contract(V + 'C2EiPKc', ['ctor', 'i32', 'ptr'], sp_vdata(1), ctor=0)}
CHECKS.append(Contract(V + 'C2EPKc', ['ctor', 'ptr'], sp_vdata(1, False), assumes=lambda c: [ge(c.a[1].b, 1), kindof(zv(c.a[1].b)) != K_HEAP, lt(strlen(c.pre, c.a[1]), RESMAX)], ctor=0, local=dict(ATT, **LS), props=['C01', 'C02', 'C08']))

# ------------------------------------------------------------------ may one view be written over another array
def samef(h, g, k): return app('same_from', h.b, g.b, k, ret=B)
def unfold_same(ctx, st, h, g, k):
    d = hdim(st, h)
    ctx.fact(beq(samef(h, g, k), ite(lt(k, d), and_(eq(vshape(st, h, k), vshape(st, g, k)), samef(h, g, iadd(k, 1))), True)))
def sp_copyable(c):
    h, g = c.a; st = c.pre
    c.case('an array is not written over', not_(isview(st, h)), ret=False)
    if isview(st, h) is False: return
    unfold_same(c.ctx, st, h, g, 0)
    d = hdim(st, h); gn = ite(isview(st, g), hdim(st, g), 1)
    r = and_(not_(eq(g.b, 0)), eq(htype(st, h), htype(st, g)), eq(d, hdim(st, g)), ite(eq(d, 1), eq(hsize(st, h), hsize(st, g)), samef(h, g, 0)))
    c.case('same type and shape', isview(st, h), ret=r)
def as_copyable(c):
    st = c.pre; h, g = c.a
    return wf_any(st, h) + [implies(not_(eq(g.b, 0)), x) for x in wf_any(st, g) + [eq(g.o, 0), kindof(zv(g.b)) == K_HEAP]] + [lt(msize(st, h), 1 << 28), lt(msize(st, g), 1 << 28)]
def su_cp(ex, a, st): ex.cp = a
def cand_cp(lv):
    h, g = lv.ex.cp; st = lv.st0; n = lv.n
    if n is None: return [True]
    unfold_same(lv.ex.ctx, st, h, g, n); unfold_same(lv.ex.ctx, st, h, g, isub(n, 1))
    return [beq(samef(h, g, 0), samef(h, g, n)), le(n, hdim(st, h))]
for nm, k in (('4Heap', 'heap=Heap'), ('4View', 'heap=View')):
    CHECKS.append(Contract('_ZN6libube%s8copyableEPNS_5IHeapE' % nm, [k, 'heap0'], sp_copyable, assumes=as_copyable, setup=su_cp, loops={None: {'cand': cand_cp}}, props=['C05', 'C14']))

# ------------------------------------------------------------------ what the strides are for
def lem_inside():
    """row-major strides: an index within the shape designates an element of the block (by induction over the
    dimensions, last to first), and different indices designate different elements"""
    P1, s, i, r, j, q = z3.Ints('below shape index rest index2 rest2')
    h = [P1 >= 1, s >= 0, i >= 0, i < s, r >= 0, r < P1]
    yield 'a further dimension: within the block', h, z3.And(i * P1 + r >= 0, i * P1 + r < s * P1)
    yield 'a further dimension: distinct', h + [j >= 0, j < s, q >= 0, q < P1, i < j], i * P1 + r < j * P1 + q
    o, n, p, e = z3.Ints('offset size product element')
    yield 'an element of the view is an element of the array', [o >= 0, p <= n - o, e >= 0, e < p], z3.And(o + e >= 0, o + e < n)
CHECKS.append(Lemma('row-major order', lem_inside, ['C04', 'C03']))

# ------------------------------------------------------------------ the end of an array, and of a view
from .heap import sp_detach
def sp_hdtor(view):
    def sp(c):
        h = c.a[0]; st = c.pre; t = mtype(st, h); d = mdata(st, h); nul = eq(d.b, 0)
        cs = [(None, True, c.post())]
        if view: cs = [(k.name, k.guard, k.post) for k in sub(c, sp_detach, [vheap(st, h)], st)]
        for nm, g, p in cs:
            if not (norm(nul) is True):
                q = p.copy(); release(q, d, t)
                for k in KINDS:
                    if k not in ('fr', 'lv'): q.havoc(k, h.b, h.o, 48)
                c.case('%sdata released' % (nm + ', ' if nm else ''), and_(g, not_(nul)), post=q)
            for k in KINDS:
                if k not in ('fr', 'lv'): p.havoc(k, h.b, h.o, 48)
            c.case('%sno data' % (nm + ', ' if nm else ''), and_(g, nul), post=p)
    return sp
def as_dtor(view):
    def f(c):
        st = c.pre; h = c.a[0]; d = mdata(st, h)
        out = [or_(eq(d.b, 0), and_(ge(d.b, 1), kindof(zv(d.b)) == K_DATA)), eq(st.read('fr', d.b, 0), 0), ge(mtype(st, h), 1), le(mtype(st, h), 7), eq(F(st, h, 'i32', 36), 0)]
        if view:
            b = vheap(st, h); out += [ge(b.b, 1), eq(b.o, 0), kindof(zv(b.b)) == K_HEAP, not_(eq(b.b, h.b)), clsfact(st, b), ge(rc(st, b), 1), eq(st.read('fr', b.b, 0), 0), eq(mtype(st, h), TYPE_INT)]
        return out
    return f
DET = {n: Contract(n, ['heap'], sp_detach) for n in ('V:' + P + '6detachEv', P + '6detachEv')}
CHECKS.append(Contract(P + 'D2Ev', ['heap=Heap'], sp_hdtor(False), assumes=as_dtor(False), props=['C01'], opts={'rcfield': True}))
CHECKS.append(Contract(VP + 'D2Ev', ['heap=View'], sp_hdtor(True), assumes=as_dtor(True), local=DET, props=['C01', 'C04'], opts={'rcfield': True}))
