from .lib import *

P = '_ZN6libube4Heap'; PK = '_ZNK6libube4Heap'
V = 'V:'

def both(mname, args, spec, assumes_heap=None, assumes_view=None, vname=None, heap=True, view=True, use=True, **kw):
    """One specification for a virtual method, checked against the Heap and the View implementation."""
    con = Contract('V:' + mname, args, spec, **kw)
    CONTRACTS[con.name] = con
    wfh = assumes_heap or (lambda c: wf_any(c.pre, c.a[hi]))
    wfv = assumes_view or (lambda c: wf_any(c.pre, c.a[hi]))
    hi = [i for i, a in enumerate(args) if a == 'heap'][0]
    vn = mname.replace('4Heap', '4View', 1) if vname is None else vname
    if heap:
        a2 = list(args); a2[hi] = 'heap=Heap'
        CHECKS.append(Contract(mname, a2, spec, assumes=wfh, **kw))
    if view:
        a2 = list(args); a2[hi] = 'heap=View'
        CHECKS.append(Contract(vn, a2, spec, assumes=wfv, **kw))
    return con

# ------------------------------------------------------------------ reference counts
def sp_attach(c):
    h = c.a[0]; st = c.pre
    rc = F(st, h, 'i32', 36)
    post = c.post()
    post.st('i32', h.b, iadd(h.o, 36), iadd(rc, 1))
    c.case('attach', ret=iadd(rc, 1), post=post)
def inv_rc(c): return [ge(F(c.pre, c.a[0], 'i32', 36), 0), lt(F(c.pre, c.a[0], 'i32', 36), (1 << 31) - 1)]
CHECKS.append(Contract(P + '6attachEv', ['heap'], sp_attach, assumes=inv_rc, props=['C01'], opts={'rcfield': True}))

def sp_detach(c):
    h = c.a[0]; st = c.pre
    rc = F(st, h, 'i32', 36)
    c.require(gt(rc, 0), 'reference count positive')
    c.require(eq(st.read('fr', h.b, 0), 0), 'not yet released')
    post = c.post()
    post.st('i32', h.b, iadd(h.o, 36), isub(rc, 1))
    c.case('still referenced', gt(rc, 1), ret=isub(rc, 1), post=post)
    p2 = c.post(); p2.st('fr', h.b, 0, 1)
    for k in KINDS:
        if k not in ('fr', 'lv', 'vt'): p2.havoc(k, h.b, h.o, 48)
    c.case('last reference', eq(rc, 1), ret=0, post=p2)
# destroying through the deleting destructor releases exactly this object, once
def sp_delete(c):
    h = c.a[0]
    c.require(eq(c.pre.read('fr', h.b, 0), 0), 'released once')
    c.require(eq(F(c.pre, h, 'i32', 36), 0), 'no reference left')
    post = c.post(); post.st('fr', h.b, 0, 1)
    for k in KINDS:
        if k not in ('fr', 'lv', 'vt'): post.havoc(k, h.b, h.o, 48)
    c.case('released', post=post)
dele = Contract('V:' + P + 'D0Ev', ['heap'], sp_delete, props=['C01'])
CHECKS.append(Contract(P + '6detachEv', ['heap'], sp_detach, assumes=inv_rc, props=['C01'], opts={'rcfield': True}, local={'V:' + P + 'D0Ev': dele}))

# the same two methods as seen by the callers: they count one owner more or less
def u_attach(c):
    post = c.post(); post.bal = iadd(post.bal, ite(eq(c.a[0].b, c.ex.owner_heap), 1, 0))
    r = c.ctx.fresh('rc'); c.case('attach', ret=r, post=post, ensures=[ge(r, 1)])
def u_detach(c):
    post = c.post(); post.bal = isub(post.bal, ite(eq(c.a[0].b, c.ex.owner_heap), 1, 0))
    r = c.ctx.fresh('rc'); c.case('detach', ret=r, post=post, ensures=[ge(r, 0)])
CONTRACTS['V:' + P + '6attachEv'] = Contract('V:' + P + '6attachEv', ['heap'], u_attach)
CONTRACTS['V:' + P + '6detachEv'] = Contract('V:' + P + '6detachEv', ['heap'], u_detach)
CONTRACTS[P + '6attachEv'] = Contract(P + '6attachEv', ['heap'], u_attach)
CONTRACTS[P + '6detachEv'] = Contract(P + '6detachEv', ['heap'], u_detach)

# ------------------------------------------------------------------ trivial accessors
both(PK + '4typeEv', ['heap'], lambda c: c.case('type', ret=htype(c.pre, c.a[0])), props=['C05'])
both(PK + '4sizeEv', ['heap'], lambda c: c.case('size', ret=hsize(c.pre, c.a[0])), props=['C05', 'C02'])
both(PK + '3dimEv', ['heap'], lambda c: c.case('dim', ret=hdim(c.pre, c.a[0])), props=['C05'])
both(PK + '6offsetEv', ['heap'], lambda c: c.case('offset', ret=hoff(c.pre, c.a[0])), props=['C04', 'C05'])
both(PK + '4viewEv', ['heap'], lambda c: c.case('view', ret=ite(isview(c.pre, c.a[0]), vheap(c.pre, c.a[0]), NULL)), props=['C04', 'C05'])
def elemptr(st, h, i, sz):
    d = hdata(st, h)
    return Ptr(d.b, iadd(d.o, imul(iadd(i, hoff(st, h)), sz)))
for T, sz in [('7ptrchar', 1), ('6ptrint', 4), ('7ptrlong', 8), ('8ptrfloat', 4), ('9ptrdouble', 8), ('10ptrcfloat', 8), ('11ptrcdouble'[0:2] and '10ptrcdouble', 16), ('6ptrvar', 16), ('7ptrpair', 32)]:
    T = {'10ptrcfloat': '9ptrcfloat'}.get(T, T)
    nm = [x for x in ['_ZNK6libube4Heap%sEi' % T]][0]
    both(nm, ['heap', 'i32'], (lambda c, sz=sz: c.case('element address', ret=elemptr(c.pre, c.a[0], c.a[1], sz))), props=['C05'])

# dimension accessors
def sp_shape(k):
    def sp(c):
        h, d = c.a; st = c.pre
        v = isview(st, h)
        c.throws('not a view', not_(v), ERROR)
        idx = iadd(imul(d, 2), k)
        inr = and_(ge(d, 0), lt(d, hdim(st, h)))
        c.throws('no such dimension', and_(v, not_(inr)), RANGE)
        dd = mdata(st, h)
        c.case('dimension', and_(v, inr), ret=Ptr(dd.b, iadd(dd.o, imul(idx, 4))))
    return sp
both(PK + '5shapeEi', ['heap', 'i32'], sp_shape(1), props=['C03', 'C05'])
both(PK + '6strideEi', ['heap', 'i32'], sp_shape(2), props=['C03', 'C05'])
