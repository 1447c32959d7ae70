"""Values of vars: reading an element, dereferencing, assignment."""
from .lib import *
from .heap import *
from .var import *
P = '_ZN6libube3var'; PK = '_ZNK6libube3var'

# ------------------------------------------------------------------ get<T>: the value stored in the slot or element
GT = [('c', 1, 1, ('i8',)), ('i', 2, 4, ('i32',)), ('l', 3, 8, ('i64',)), ('f', 4, 4, ('f32',)), ('d', 5, 8, ('f64',)), ('St7complexIfE', 6, 8, ('f32', 'f32'))]
KSZ = {'i8': 1, 'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8}
def cells(st, p, kinds):
    """the value of a leaf type at p (a tuple for complex)"""
    if len(kinds) == 1: return st.read(kinds[0], p.b, p.o)
    return tuple(st.read(k, p.b, iadd(p.o, j * KSZ[k])) for j, k in enumerate(kinds))
def valaddr(st, s, sz):
    ref, typed, h, i, t, rs = slot_parts(st, s)
    return ite(typed, elem_at(st, h, i, sz), rs)
def getname(T): return PK + ('3getI%sEET_v' % T if len(T) == 1 else '3getI%sEET_v' % T)
def sp_get(sz, kinds):
    def sp(c): c.case('value', ret=cells(c.pre, valaddr(c.pre, c.a[0], sz), kinds))
    return sp
for T, t, sz, kinds in GT:
    reg(Contract(getname(T), ['var'], sp_get(sz, kinds), assumes=wfv(0), props=['C12', 'C05', 'C13', 'C10']))
def cdouble_at(st, s):
    """(ok, (re, im)) of get<cdouble>"""
    ref, typed, h, i, t, rs = slot_parts(st, s)
    hp = vhp(st, rs)
    ok = or_(typed, and_(eq(vtag(st, rs), 0), not_(eq(hp.b, 0)), eq(ite(eq(hp.b, 0), 0, hsize(st, hp)), 1)))
    return ok, cells(st, ite(typed, elem_at(st, h, i, 16), elem_at(st, hp, 0, 16)), ('f64', 'f64'))
def sp_getcd(c):
    ok, v = cdouble_at(c.pre, c.a[0])
    c.throws('not a complex number', not_(ok), ERROR)
    c.case('value', ok, ret=v)
reg(Contract(PK + '3getISt7complexIdEEET_v', ['var'], sp_getcd, assumes=wfv(0), props=['C12', 'C05', 'C13', 'C10']))

# ------------------------------------------------------------------ varderef: the var that an element reference designates
def sp_varderef(c):
    st = c.pre; s = c.a[0]
    c.require(isref(st, s), 'is a reference')
    c.case('element slot, or itself', ret=slot_parts(st, s)[5])
reg(Contract(P + '8varderefEv', ['var'], sp_varderef, assumes=wfv(0), props=['C06', 'C05']))

# ------------------------------------------------------------------ new arrays (the callers' view; checked in mem.py)
def setheap(c, post, h, type_, size, cells=None, rc=1):
    """use mode: h is a plain array of the given type and size; cells(post, d) writes its elements"""
    if isc(h.b) and h.b not in post.info: post.info[h.b] = {'heap': 'callee'}
    post.st('vt', h.b, h.o, c.ctx.clsid(HEAPVT))
    d = Ptr(c.ctx.newbase(), 0); post.stp(h.add(8), d)
    cap = c.ctx.fresh('cap')
    post.st('i32', h.b, iadd(h.o, 16), size); post.st('i64', h.b, iadd(h.o, 24), type_); post.st('i32', h.b, iadd(h.o, 32), cap); post.st('i32', h.b, iadd(h.o, 36), rc)
    if cells: cells(post, d)
    return [ge(cap, iadd(size, 1)), ge(cap, 8), lt(cap, 1 << 31)]
HP = '_ZN6libube4Heap'
def plain(st, h, type_, size):
    """check mode: h is a plain array with this type and size"""
    return [eq(st.read('vt', h.b, h.o), st.ctx.clsid(HEAPVT)), eq(mtype(st, h), type_), eq(msize(st, h), size), ge(mcap(st, h), size)]
def sp_hcd(c):
    h, n, src = c.a; post = c.post()
    c.require(eq(n, 1), 'one value')
    if c.mode == 'use':
        v = cells(c.pre, src, ('f64', 'f64'))
        def w(p, d): p.st('f64', d.b, 0, v[0]); p.st('f64', d.b, 8, v[1])
        c.case('array of one', post=post, ensures=setheap(c, post, h, 7, 1, w, rc=0))
CONTRACTS[HP + 'C2EiPKSt7complexIdE'] = Contract(HP + 'C2EiPKSt7complexIdE', ['newheap', 'i32', 'ptr'], sp_hcd)

# ------------------------------------------------------------------ dereference: the value replaces the reference
TY = [('char', 1, 1, ('i8',)), ('int', 2, 4, ('i32',)), ('long', 3, 8, ('i64',)), ('float', 4, 4, ('f32',)), ('double', 5, 8, ('f64',)), ('cfloat', 6, 8, ('f32', 'f32'))]
def wcells(post, p, kinds, v):
    if len(kinds) == 1: post.st(kinds[0], p.b, p.o, v)
    else:
        for j, k in enumerate(kinds): post.st(k, p.b, iadd(p.o, j * KSZ[k]), v[j])
def dcases(c, s, reference=True):
    """the ways to dereference the var at s: (name, guard, f) where f(post, dsts) stores the value at every dst and
    returns what else is known.  A value is described by its cells."""
    st = c.pre
    ref, typed, h, i, t, rs = slot_parts(st, s)
    def plainv(post, dsts):
        snap = st
        for d in dsts:
            if d is not s and not (isc(d.b) and isc(s.b) and d.b == s.b): copyvar_from(post, st, s, d)
        return []
    yield 'value', not_(ref), plainv
    if ref is False: return
    def slotv(post, dsts):
        for d in dsts: copyvar_from(post, st, rs, d)
        return []
    yield 'stored var', and_(ref, not_(typed)), slotv
    for nm, tt, sz, kinds in TY:
        def tv(post, dsts, tt=tt, sz=sz, kinds=kinds):
            v = cells(st, elem_at(st, h, i, sz), kinds)
            for d in dsts:
                havocslot(post, d); wcells(post, d, kinds, v); post.st('i64', d.b, iadd(d.o, 8), tt)
            return []
        yield nm + ' element', and_(typed, eq(t, tt)), tv
    def cd(post, dsts):
        v = cells(st, elem_at(st, h, i, 16), ('f64', 'f64'))
        hn = c.newown(lambda o: o.st.ldp(dsts[0]))
        for d in dsts: havocslot(post, d); post.stp(d, hn); post.st('i64', d.b, iadd(d.o, 8), 0)
        if c.mode == 'use':
            def w(p, d): p.st('f64', d.b, 0, v[0]); p.st('f64', d.b, 8, v[1])
            return setheap(c, post, hn, 7, 1, w, rc=len(dsts))
        d2 = mdata(c.fin, hn)
        return [c.isnew(hn)] + plain(c.fin, hn, 7, 1) + reteq(cells(c.fin, d2, ('f64', 'f64')), v)
    yield 'cdouble element', and_(typed, eq(t, TYPE_CDOUBLE)), cd
def copyvar_from(post, st, src, dst):
    post.copyrange(st, src.b, src.o, dst.b, dst.o, 8, UNDEFCELLS + ('i16',))
    post.st('i64', dst.b, iadd(dst.o, 8), vtag(st, src))
def sp_dereference(c):
    s = c.a[0]; ref, typed, h, i, t, rs = slot_parts(c.pre, s)
    for nm, g, f in dcases(c, s):
        post = c.post()
        if norm(g) is False: continue
        if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [g]): continue
        ens = f(post, [s])
        c.case(nm, g, ret=rs if nm == 'stored var' else s, post=post, ensures=ens)
    if c.mode == 'check': c.case('exhaustive', False)
reg(Contract(P + '11dereferenceEv', ['var'], sp_dereference, assumes=wfv(0), props=['C06', 'C05', 'C01']))

# ------------------------------------------------------------------ conversion of a scalar to a number type
def ccast(op, frm, to, x):
    """one conversion of the language, as the extraction spells it"""
    ctx = None
    if op == 'fpext': return app('fpext', x)
    if op == 'fptrunc': return app('fptrunc', x)
def sitof(x, w): return fltcode(float(x), w) if isc(x) else app('sitofp_f%d' % w, x)
def conv1(ctx, k, x, T):
    """x of leaf kind k converted to the leaf kind T"""
    if k == T: return x
    ib = {'i8': 8, 'i32': 32, 'i64': 64}; fb = {'f32': 32, 'f64': 64}
    if k in ib and T in ib: return x if ib[T] >= ib[k] else wrap(x, ib[T])
    if k in ib and T in fb: return sitof(x, fb[T])
    if k in fb and T in ib:
        r = app('fptosi_f%d_i%d' % (fb[k], ib[T]), x)
        ctx.fact(z3.And(r >= -(1 << (ib[T] - 1)), r < (1 << (ib[T] - 1))))
        return r
    return app('fpext', x) if T == 'f64' else app('fptrunc', x)
TK = {1: ('i8',), 2: ('i32',), 3: ('i64',), 4: ('f32',), 5: ('f64',), 6: ('f32', 'f32'), 7: ('f64', 'f64')}
TSZ = {1: 1, 2: 4, 3: 8, 4: 4, 5: 8, 6: 8, 7: 16}
def convt(ctx, t, x, T):
    """value x of type t (a tuple for complex) as type T"""
    if t == T: return x
    re = x[0] if isinstance(x, tuple) else x
    k = TK[t][0]; K = TK[T][0]
    v = conv1(ctx, k, re, K)
    if T in (6, 7): return (v, fltcode(0.0, 32 if T == 6 else 64))
    return v
def tite(g, a, b): return tuple(tite(g, x, y) for x, y in zip(a, b)) if isinstance(a, tuple) else ite(g, a, b)
def scalarval(c, st, v, T):
    """the value of the var v, which is not an array, as type T"""
    t = v_type(st, v); out = None
    for k in (7, 6, 5, 4, 3, 2, 1):
        g = eq(t, k)
        if g is False: continue
        if k == 7:
            ref, typed, h, i, tt, rs = slot_parts(st, v)
            if ref is False: continue
            x = cells(st, elem_at(st, h, i, 16), TK[7])
        else: x = cells(st, valaddr(st, v, TSZ[k]), TK[k])
        x = convt(c.ctx, k, x, T)
        out = x if out is None else tite(g, x, out)
    return out
def retkind(T): return None
def unkval(c, T):
    """an unspecified value of type T"""
    if c.mode == 'use':
        out = []
        for k in TK[T]:
            x = c.ctx.fresh('cast')
            if k in ('i8', 'i32', 'i64'): c.ctx.fact(z3.And(x >= -(1 << (KSZ[k] * 8 - 1)), x < (1 << (KSZ[k] * 8 - 1))))
            out.append(x)
        return out[0] if len(out) == 1 else tuple(out)
    return c.out.val
def mayraise(c, name, guard):
    """a case in which whether an exception is raised is left open; returns the condition under which it is not"""
    b = c.unknown(lambda o: o.kind == 'throw', 'raised', B)
    c.throws(name + ' (refused)', and_(guard, b))
    return and_(guard, not_(b))
def casted(c, v, T):
    """the outcome of v.cast<T>(): list of (name, guard, kind, value)"""
    st = c.pre; ctx = c.ctx
    u = v_undef(st, v); hp = v_heap(st, v); nh = eq(hp.b, 0)
    out = [('undefined', u, ERROR, None)]
    sc = and_(not_(u), nh)
    out.append(('scalar', sc, None, scalarval(c, st, v, T) if sc is not False else None))
    if nh is True: return out
    ht = htype(st, hp); hs = hsize(st, hp)
    out.append(('not a single value', and_(not_(nh), not_(eq(ht, TYPE_CHAR)), not_(eq(hs, 1))), ERROR, None))
    for k in (2, 3, 4, 5, 6, 7):
        out.append(('one ' + TNAME[k], and_(not_(nh), eq(ht, k), eq(hs, 1)), None, convt(ctx, k, cells(st, elem_at(st, hp, 0, TSZ[k]), TK[k]), T)))
    out.append(('text or one var', and_(not_(nh), or_(eq(ht, TYPE_CHAR), and_(ge(ht, 8), eq(hs, 1)))), '?', None))
    return out
def sp_castscalar(T):
    def sp(c):
        for nm, g, kind, v in casted(c, c.a[0], T):
            g = norm(g)
            if g is False: continue
            if kind == '?':
                g2 = mayraise(c, nm, g)
                c.case(nm, g2, ret=unkval(c, T))
            elif kind is None: c.case(nm, g, ret=v)
            else: c.throws(nm, g, kind)
    return sp
CT = [('c', 1), ('i', 2), ('l', 3), ('f', 4), ('d', 5), ('St7complexIfE', 6), ('St7complexIdE', 7)]
def csname(T): return '_ZN6libubeL10castScalarI%sEET_RKNS_3varERKNS_4CastI%sEE' % (T, 'S1_' if len(T) == 1 else 'S3_')
for T, t in CT:
    reg(Contract(csname(T), ['var', 'obj=N6libube4CastI%sEE' % T], sp_castscalar(t), assumes=wfv(0), props=['C12', 'C13', 'C06']))
    reg(Contract(PK + '4castI%sEET_v' % T, ['var'], sp_castscalar(t), assumes=wfv(0), props=['C12']))

# ------------------------------------------------------------------ element access
def sp_at(c):
    r, s, i = c.a; st = c.pre
    u = v_undef(st, s)
    c.throws('undefined', u, ERROR)
    inr = and_(ge(i, 0), lt(i, v_size(st, s)))
    c.throws('out of range', and_(not_(u), not_(inr)), ERROR)
    hp = v_heap(st, s); ar = not_(eq(hp.b, 0))
    g = and_(not_(u), inr, ar)
    if norm(g) is not False:
        post = c.post()
        havocslot(post, r); post.stp(r, hp); post.st('i64', r.b, iadd(r.o, 8), isub(-1, i)); begin(c, r, post)
        c.case('element of an array', g, post=post)
    for nm, g0, f in dcases(c, s):
        g = and_(not_(u), inr, not_(ar) if nm != 'cdouble element' else True, g0)
        if norm(g) is False: continue
        post = c.post()
        if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [g]): continue
        if nm == 'cdouble element':
            # a double complex element is an array of one, of its own
            h2 = c.newown(lambda o: o.st.ldp(r))
            havocslot(post, r); post.stp(r, h2); post.st('i64', r.b, iadd(r.o, 8), -1); begin(c, r, post)
            v = cells(st, elem_at(st, v_h(st, s), v_i(st, s), 16), ('f64', 'f64'))
            if c.mode == 'use':
                def w(p, d): p.st('f64', d.b, 0, v[0]); p.st('f64', d.b, 8, v[1])
                ens = setheap(c, post, h2, 7, 1, w, rc=1)
            else: ens = [c.isnew(h2)] + plain(c.fin, h2, 7, 1) + reteq(cells(c.fin, mdata(c.fin, h2), ('f64', 'f64')), v)
        else:
            ens = f(post, [r]); begin(c, r, post)
        c.case('single value: ' + nm, g, post=post, ensures=ens)
def v_h(st, s): return slot_parts(st, s)[2]
def v_i(st, s): return slot_parts(st, s)[3]
reg(Contract(PK + '2atEi', ['sret', 'var', 'i32'], sp_at, assumes=wfv(1), ctor=0, props=['C03', 'C05', 'C06']))
def sp_reference(c):
    r, s, i = c.a; st = c.pre
    a = eq(v_type(st, s), 0)
    c.throws('not an array', not_(a), ERROR)
    post = c.post(); post.copyrange(st, s.b, s.o, r.b, r.o, 8, UNDEFCELLS + ('i16',))
    post.st('i64', r.b, iadd(r.o, 8), isub(-1, i)); begin(c, r, post)
    c.case('reference to the element', a, post=post)
def as_reference(c):
    # only arrays that exist are indexed, and not through an element
    return wf_var(c.pre, c.a[1]) + [implies(eq(v_type(c.pre, c.a[1]), 0), and_(eq(vtag(c.pre, c.a[1]), 0), not_(eq(vhp(c.pre, c.a[1]).b, 0)))), ge(c.a[2], 0)]
def sp_reference_u(c):
    s = c.a[1]; st = c.pre
    c.require(implies(eq(v_type(st, s), 0), and_(eq(vtag(st, s), 0), not_(eq(vhp(st, s).b, 0)))), 'is an array that exists')
    c.require(ge(c.a[2], 0), 'index not negative')
    sp_reference(c)
reg(Contract(PK + '9referenceEi', ['sret', 'var', 'i32'], sp_reference_u, assumes=wfv(1), ctor=0, props=['C03', 'C06']))

# ------------------------------------------------------------------ a cast functor applied to a value that is not an array
def functor_T(c, p):
    v = c.pre.read('vt', p.b, p.o)
    for t, (n, k) in enumerate(CT):
        if norm(eq(v, c.ctx.clsid('_ZTVN6libube4CastI%sEE' % n))) is True: return k
    return None
def sp_functor(c):
    r, f, s = c.a; st = c.pre
    T = functor_T(c, f)
    if T is None: raise Undecided('functor of unknown class')
    u = v_undef(st, s); hp = v_heap(st, s); sc = and_(not_(u), eq(hp.b, 0))
    def put(post, v):
        havocslot(post, r); begin(c, r, post)
        if T == 7:
            h2 = c.newown(lambda o: o.st.ldp(r)); post.stp(r, h2); post.st('i64', r.b, iadd(r.o, 8), 0)
            if c.mode == 'use':
                def w(p, d): p.st('f64', d.b, 0, v[0]); p.st('f64', d.b, 8, v[1])
                return setheap(c, post, h2, 7, 1, w, rc=1)
            return [c.isnew(h2)] + plain(c.fin, h2, 7, 1) + reteq(cells(c.fin, mdata(c.fin, h2), TK[7]), v)
        wcells(post, r, TK[T], v); post.st('i64', r.b, iadd(r.o, 8), T)
        return []
    post = c.post()
    if norm(sc) is not False:
        ens = put(post, scalarval(c, st, s, T)); c.case('scalar', sc, post=post, ensures=ens)
    g = mayraise(c, 'array, text or undefined', not_(sc))
    if norm(not_(sc)) is not False:
        post = c.post(); x = unkval(c, T) if c.mode == 'use' else cells(c.fin, r, TK[T]) if T != 7 else cells(c.fin, mdata(c.fin, c.fin.ldp(r)), TK[7])
        ens = put(post, x); c.case('array or text', g, post=post, ensures=ens)
CONTRACTS['_ZNK6libube12UnaryFunctorclERKNS_3varE'] = Contract('_ZNK6libube12UnaryFunctorclERKNS_3varE', ['sret', 'obj', 'var'], sp_functor, ctor=0)

# ------------------------------------------------------------------ assignment
def copyable(c, h, g): return app('copyable', h.b, g.b, c.pre.ver, ret=B)
def sp_copyable_u(c):
    """for the callers: true for some views, false for arrays and for nothing to copy from"""
    h, g = c.a; k = app('copyable', h.b, g.b, c.pre.ver, ret=B)
    c.ctx.fact(implies(or_(not_(isview(c.pre, h)), eq(g.b, 0)), not_(k)))
    c.case('copyable', ret=k)
CONTRACTS['V:_ZN6libube4Heap8copyableEPNS_5IHeapE'] = Contract('V:_ZN6libube4Heap8copyableEPNS_5IHeapE', ['heap', 'heap0'], sp_copyable_u)
def sp_setcall(c):
    """set(x, y, x) with x a view: the elements that x shows are overwritten, or an exception is raised"""
    r, f, x, y, o = c.a; st = c.pre
    h = v_heap(st, o); d = hdata(st, h)
    def hv(post):
        for k in ('i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'pb', 'po'): post.havoc(k, d.b, 0, 1 << 40)
        return post
    b = c.ctx.fresh('raised', B)
    c.throws('refused', b, post=hv(c.post()))
    p = hv(c.post()); copyvar(p, o, r); begin(c, r, p)
    c.case('elements set', not_(b), post=p)
SETCALL = '_ZNK6libube13BinaryFunctorclERKNS_3varES3_RS1_'
LSET = Contract(SETCALL, ['sret', 'obj', 'var', 'var', 'var'], sp_setcall, ctor=0)
def sp_assign(c):
    s, v = c.a; st = c.pre
    ref, typed, h, i, t, e = slot_parts(st, s)
    # an element of a typed array: the converted value
    for nm, tt, sz, kinds in TY + [('cdouble', 7, 16, ('f64', 'f64'))]:
        g = False if t is None else and_(typed, eq(t, tt))
        if norm(g) is False: continue
        if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [g]): continue
        dst = elem_at(st, h, i, sz)
        for cn, cg, kind, val in casted(c, v, tt):
            gg = norm(and_(g, cg)); lab = '%s element := %s' % (nm, cn)
            if gg is False: continue
            if kind == '?':
                gg = mayraise(c, lab, gg)
                val = unkval(c, tt) if c.mode == 'use' else cells(c.fin, dst, TK[tt])
            elif kind is not None: c.throws(lab, gg, kind); continue
            post = c.post()
            if len(kinds) > 1:
                for k in UNDEFCELLS + ('i16', 'vt'): post.havoc(k, dst.b, dst.o, sz)
            wcells(post, dst, TK[tt], val)
            c.case(lab, gg, ret=s, post=post)
    # a stored value: e is the slot
    eh = vhp(st, e); vh = v_heap(st, v)
    cp = and_(not_(typed), eq(vtag(st, e), 0), not_(eq(eh.b, 0)), app('copyable', eh.b, vh.b, st.ver, ret=B), ite(eq(eh.b, 0), False, isview(st, eh)), not_(eq(vh.b, 0)))
    if norm(cp) is not False:
        d = hdata(st, eh)
        def hv(post):
            for k in ('i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'pb', 'po'): post.havoc(k, d.b, 0, 1 << 40)
            return post
        b = c.unknown(lambda o: o.kind == 'throw', 'raised', B)
        c.throws('into the elements of a view (refused)', and_(cp, b), post=hv(c.post()))
        c.case('into the elements of a view', and_(cp, not_(b)), ret=s, post=hv(c.post()))
    for isr in (False, True):
        if norm(and_(ref if isr else not_(ref), not_(typed))) is False: continue
        for nm, g, f in dcases(c, v):
            gg = norm(and_(not_(typed), not_(cp), ref if isr else not_(ref), g))
            if gg is False: continue
            if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [gg]): continue
            post = c.post()
            ens = f(post, [e] if isr else [v, s])
            c.case(('element slot := ' if isr else 'var := ') + nm, gg, ret=s, post=post, ensures=ens)
    if c.mode == 'check': c.case('exhaustive', False)
ASSIGN = Contract(P + 'aSES0_', ['var', 'val'], sp_assign)
CONTRACTS[ASSIGN.name] = ASSIGN
def as_assign(cond):
    def f(c):
        s, v = c.a; return wf_var(c.pre, s) + wf_var(c.pre, v) + cond(c.pre, s, *slot_parts(c.pre, s))
    return f
for nm, tt, sz, kinds in TY + [('cdouble', 7, 16, None)]:
    CHECKS.append(Contract(P + 'aSES0_@%s element' % nm, ['var', 'val'], sp_assign, assumes=as_assign(lambda st, s, ref, typed, h, i, t, e, tt=tt: [typed, eq(t, tt)]), props=['C06', 'C05'], local={SETCALL: LSET}))
for nm, tt in (('var', 8), ('pair', 9)):
    CHECKS.append(Contract(P + 'aSES0_@%s element' % nm, ['var', 'val'], sp_assign, assumes=as_assign(lambda st, s, ref, typed, h, i, t, e, tt=tt: [ref, eq(t, tt)]), props=['C06', 'C05', 'C01'], local={SETCALL: LSET}))
CHECKS.append(Contract(P + 'aSES0_@var', ['var', 'val'], sp_assign, assumes=as_assign(lambda st, s, ref, typed, h, i, t, e: [not_(ref)]), props=['C06', 'C01', 'C05'], local={SETCALL: LSET}))
