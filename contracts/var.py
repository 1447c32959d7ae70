from .lib import *
from .heap import both
P = '_ZN6libube3var'; PK = '_ZNK6libube3var'

def alias(name, con):
    CONTRACTS[name] = con

# ------------------------------------------------------------------ errors (trusted: they only build the message)
def sp_error(c):
    c.case('built')
for n in ('_ZN6libube5errorC2ENS_3varE', '_ZN6libube5errorC1ENS_3varE'):
    CONTRACTS[n] = Contract(n, ['ptr', 'val'], sp_error, trusted=True)
for n in ('_ZN6libube5errorD2Ev', '_ZN6libube5errorD1Ev'):
    CONTRACTS[n] = Contract(n, ['ptr'], sp_error, trusted=True)

def wfv(*idx):
    return lambda c: [f for i in idx for f in wf_var(c.pre, c.a[i])]

# ------------------------------------------------------------------ special members
def sp_default(c):
    s = c.a[0]; post = c.post()
    post.stp(s, NULL); post.st('i64', s.b, iadd(s.o, 8), 0)
    begin(c, s, post)
    c.case('undefined value', post=post)
reg(Contract(P + 'C2Ev', ['ctor'], sp_default, ctor=0, props=['C01', 'C12']))
def sp_dtor(c):
    s = c.a[0]; post = c.post()
    havocslot(post, s); end(c, s, post)
    c.case('destroyed', post=post)
reg(Contract(P + 'D2Ev', ['var'], sp_dtor, assumes=wfv(0), dtor=0, props=['C01']))
def sp_copy(c):
    s, v = c.a; post = c.post()
    copyvar(post, v, s); begin(c, s, post)
    if c.mode == 'use': c.require(live(c.pre, v), 'source constructed')
    c.case('same value', post=post)
reg(Contract(P + 'C2ERKS0_', ['ctor', 'var'], sp_copy, assumes=wfv(1), ctor=0, props=['C01', 'C06']))
def sp_move(c):
    s, v = c.a; post = c.post()
    copyvar(post, v, s); begin(c, s, post)
    post.stp(v, NULL); post.st('i64', v.b, iadd(v.o, 8), 0)
    c.case('value moved', post=post)
reg(Contract(P + 'C2EOS0_', ['ctor', 'var'], sp_move, assumes=wfv(1), ctor=0, props=['C01']))
for T, kind, a, tag in [('c', 'i8', 'i8', 1), ('i', 'i32', 'i32', 2), ('l', 'i64', 'i64', 3), ('f', 'f32', 'f32', 4), ('d', 'f64', 'f64', 5)]:
    def sp(c, kind=kind, tag=tag):
        s, v = c.a; post = c.post(); havocslot(post, s)
        post.st(kind, s.b, s.o, v); post.st('i64', s.b, iadd(s.o, 8), tag); begin(c, s, post)
        c.case('value and type', post=post)
    reg(Contract(P + 'C2E' + T, ['ctor', a], sp, ctor=0, props=['C12', 'C01']))
def sp(c):
    s, v = c.a; post = c.post(); havocslot(post, s)
    post.st('f32', s.b, s.o, v[0]); post.st('f32', s.b, iadd(s.o, 4), v[1]); post.st('i64', s.b, iadd(s.o, 8), 6); begin(c, s, post)
    c.case('value and type', post=post)
reg(Contract(P + 'C2ESt7complexIfE', ['ctor', 'cf32'], sp, ctor=0, props=['C12', 'C01']))

# strings: a new array of characters
def newheap(c, post, p, type_, size, rc=1, view=None):
    '''p: the fresh heap object; what its contents are is said by the caller'''
    post.st('vt', p.b, p.o, c.ctx.clsid(VIEWVT if view is not None else HEAPVT))
    post.st('i32', p.b, iadd(p.o, 16), size); post.st('i64', p.b, iadd(p.o, 24), type_); post.st('i32', p.b, iadd(p.o, 36), rc)
def sp_str(sized):
    def sp(c):
        s = c.a[0]; src = c.a[-1]; post = c.post(); havocslot(post, s)
        h = c.newref(lambda o: o.st.ldp(s))
        post.stp(s, h); post.st('i64', s.b, iadd(s.o, 8), 0)
        begin(c, s, post)
        n = c.a[1] if sized else strlen(c.pre, src)
        if sized: c.require(ge(n, 0), 'length')
        if c.mode == 'use':
            post.st('vt', h.b, 0, c.ctx.clsid(HEAPVT)); post.st('i32', h.b, 16, n); post.st('i64', h.b, 24, 1); post.st('i32', h.b, 36, 1)
            d = Ptr(c.ctx.newbase(), 0); post.stp(h.add(8), d)
            cap = c.ctx.fresh('cap'); post.st('i32', h.b, 32, cap)
            post.rng('i8', d.b, 0, n, lambda o: c.pre.read('i8', src.b, iadd(src.o, o)))
            post.st('i8', d.b, n, 0)
            c.case('string', post=post, ensures=[gt(cap, n)])
        else: c.case('string', post=post)
    return sp
CONTRACTS[P + 'C2EPKc'] = Contract(P + 'C2EPKc', ['ctor', 'ptr'], sp_str(False), ctor=0, props=['C01'])
CONTRACTS[P + 'C2EiPKc'] = Contract(P + 'C2EiPKc', ['ctor', 'i32', 'ptr'], sp_str(True), ctor=0, props=['C01'])
# ------------------------------------------------------------------ observers
reg(Contract(PK + '4typeEv', ['var'], lambda c: c.case('type', ret=v_type(c.pre, c.a[0])), assumes=wfv(0), props=['C12', 'C06']))
reg(Contract(PK + '4sizeEv', ['var'], lambda c: c.case('size', ret=v_size(c.pre, c.a[0])), assumes=wfv(0), props=['C02', 'C05']))
reg(Contract(PK + '7definedEv', ['var'], lambda c: c.case('defined', ret=not_(v_undef(c.pre, c.a[0]))), assumes=wfv(0), props=['C06']))
reg(Contract(PK + '4heapEv', ['var'], lambda c: c.case('heap', ret=v_heap(c.pre, c.a[0])), assumes=wfv(0), props=['C05']))
def sp_atype(c):
    u = v_undef(c.pre, c.a[0])
    c.throws('undefined', u, ERROR)
    c.case('element type', not_(u), ret=v_atype(c.pre, c.a[0]))
reg(Contract(PK + '5atypeEv', ['var'], sp_atype, assumes=wfv(0), props=['C12']))

# the same through the heap interface, for an element given by index
def esl(st, h, i):
    t = htype(st, h); d = hdata(st, h); k = iadd(i, hoff(st, h))
    isv = eq(t, TYPE_VAR); isp = eq(t, TYPE_PAIR)
    return isv, isp, ite(isv, Ptr(d.b, iadd(d.o, imul(k, 16))), ite(isp, Ptr(d.b, iadd(d.o, iadd(imul(k, 32), 16))), NULL))
def wf_elem(c):
    st = c.pre; h = c.a[0]
    isv, isp, e = esl(st, h, c.a[1])
    return wf_any(st, h) + [implies(or_(isv, isp), x) for x in wf_slot(st, e) + [live(st, e)]]
HP = '_ZN6libube4Heap'
both(HP + '5derefENS_3indE', ['heap', 'i64'], lambda c: c.case('element slot', ret=esl(c.pre, c.a[0], c.a[1])[2]), assumes_heap=wf_elem, assumes_view=wf_elem, props=['C05', 'C06'])
def edef(f, dflt):
    def sp(c):
        st = c.pre; isv, isp, e = esl(st, c.a[0], c.a[1])
        c.case('of the element', ret=ite(or_(isv, isp), f(st, e), dflt(st, c.a[0])))
    return sp
both(HP + '7definedENS_3indE', ['heap', 'i64'], edef(lambda st, e: not_(v_undef(st, e)), lambda st, h: True), assumes_heap=wf_elem, view=False, props=['C06'])
both(HP + '9derefSizeENS_3indE', ['heap', 'i64'], edef(v_size, lambda st, h: 1), assumes_heap=wf_elem, assumes_view=wf_elem, props=['C05'])
both(HP + '9derefTypeENS_3indE', ['heap', 'i64'], edef(v_type, htype), assumes_heap=wf_elem, assumes_view=wf_elem, props=['C05', 'C12'])
def sp_da(c):
    st = c.pre; isv, isp, e = esl(st, c.a[0], c.a[1])
    u = and_(or_(isv, isp), v_undef(st, e))
    c.throws('undefined', u, ERROR)
    c.case('of the element', not_(u), ret=ite(or_(isv, isp), v_atype(st, e), htype(st, c.a[0])))
both(HP + '10derefATypeENS_3indE', ['heap', 'i64'], sp_da, assumes_heap=wf_elem, assumes_view=wf_elem, props=['C05', 'C12'])
both(HP + '9derefHeapENS_3indE', ['heap', 'i64'], edef(v_heap, lambda st, h: NULL), assumes_heap=wf_elem, view=False, props=['C05'])

# ------------------------------------------------------------------ raw element pointers
def ptr_of(st, s, idx, sz):
    ref, typed, h, i, t, rs = slot_parts(st, s)
    hp = vhp(st, rs)
    own = ite(and_(eq(vtag(st, rs), 0), not_(eq(hp.b, 0))), elem_at(st, hp, idx, sz), rs)
    return ite(typed, elem_at(st, h, i, sz), own)
def elem_at(st, h, i, sz):
    d = hdata(st, h)
    return Ptr(d.b, iadd(d.o, imul(iadd(i, hoff(st, h)), sz)))
def sp_ptr(sz):
    def sp(c):
        c.require(and_(ge(c.a[1], -(1 << 31)), lt(c.a[1], 1 << 31)), 'index is an int')
        c.case('element address', ret=ptr_of(c.pre, c.a[0], c.a[1], sz))
    return sp
for T, sz in [('c', 1), ('i', 4), ('l', 8), ('f', 4), ('d', 8), ('St7complexIfE', 8)]:
    reg(Contract(P + '3ptrI%sEEPT_NS_3indE' % T, ['var', 'i64'], sp_ptr(sz), assumes=wfv(0), props=['C05', 'C06']))
