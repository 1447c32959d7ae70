"""The memory of plain arrays: allocation, resizing, appending, shifting."""
from .lib import *
from .heap import both
from .var import wfv, elem_at, esl, wf_elem
from .assign import TY, TK, TSZ, cells, wcells, plain, casted, mayraise, unkval
P = '_ZN6libube4Heap'; PK = '_ZNK6libube4Heap'
NUM = [(nm, t, sz, k) for nm, t, sz, k in TY] + [('cdouble', 7, 16, ('f64', 'f64'))]
ALLK = UNDEFCELLS + ('i16', 'vt')

# ------------------------------------------------------------------ sizes
def sp_sizeof(c):
    t = c.a[0]
    for k in range(1, 10): c.case(TNAME[k], eq(t, k), ret=ESIZE[k])
    c.throws('unknown type', or_(lt(t, 1), gt(t, 9)), ERROR)
reg(Contract('_Z6sizeOfN6libube3indE', ['i64'], sp_sizeof, props=['C02', 'C07']))
NMAX = 1 << 30
def sp_allocsize(c):
    n = c.a[0]
    c.require(and_(ge(n, 0), le(n, NMAX)), 'size within range')
    r = c.unknown(lambda o: o.val, 'cap')
    c.case('room for the elements', ret=r, ensures=[ge(r, n), ge(r, 8), lt(r, 1 << 31)])
def cand_alloc(lv):
    x0 = lv.ex.asz; x0 = ite(lt(x0, 8), 8, x0)
    n0 = isub(x0, 1)
    xs = [i.dst for i in lv.phis]
    out = []
    for a in xs:
        va = lv.vals[a]
        out += [ge(va, 0), ge(va, 1), le(va, n0)]
        for b in xs:
            if a != b:
                vb = lv.vals[b]
                out += [ge(zv(iadd(va, 1)) * zv(vb), x0), le(zv(va) * zv(vb), n0), le(vb, zv(n0) * 2)]
    return out
def su_alloc(ex, args, st): ex.asz = args[0]
reg(Contract('_Z9allocSizei', ['i32'], sp_allocsize, props=['C02'], setup=su_alloc, loops={None: {'cand': cand_alloc}}))

# ------------------------------------------------------------------ blocks
BIG = 1 << 40
def esz(t): return ESIZE[t] if isc(t) else None
def tysize(t):
    if isc(t): return ESIZE[t]
    out = 32
    for k in range(8, 0, -1): out = ite(eq(t, k), ESIZE[k], out)
    return out
def anyblock(post, d):
    for k in ALLK: post.havoc(k, d.b, 0, BIG)
def sp_alloc(c):
    h, n = c.a; st = c.pre; t = mtype(st, h)
    c.require(and_(ge(n, 0), le(n, 1 << 31)), 'size within range')
    post = c.post(); post.stp(h.add(8), NULL)
    c.case('nothing', eq(n, 0), post=post)
    bad = or_(lt(t, 1), gt(t, 9))
    c.throws('unknown type', and_(gt(n, 0), bad), ERROR)
    g = and_(gt(n, 0), not_(bad))
    if norm(g) is False: return
    post = c.post(); d = c.newref(lambda o: mdata(o.st, h))
    gen = ge(t, 8)
    if c.mode == 'use':
        d = Ptr(d.b, ite(gen, 8, 0)); post.info[d.b] = {'heap': 'callee'}
        anyblock(post, d)
    post.stp(h.add(8), d)
    ens = [c.isnew(d), eq(d.o, ite(gen, 8, 0))]
    if c.mode == 'check': anyblock(post, d)
    post.m['lv'] = RangeS(post.m['lv'], (lambda b, o: eq(b, d.b)), (lambda b, o: 0), False, [d.b])
    if norm(gen) is not False:
        # generic elements start as undefined values
        slot = lambda b, o: and_(eq(b, d.b), gen, ge(o, d.o), lt(o, iadd(d.o, imul(n, tysize(t)))), eq(norm(zv(isub(o, d.o)) % 16), 0))
        for k, off, v in (('pb', 0, 0), ('po', 0, 0), ('i64', 8, 0), ('lv', 0, 1)):
            post.m[k] = RangeS(post.m[k], (lambda b, o, off=off: slot(b, isub(o, off))), (lambda b, o, v=v: v), False, [d.b])
        if c.mode == 'check': post.havoc('i64', d.b, 0, 8)
    c.case('a block of %s elements' % (TNAME.get(t, 'that many') if isc(t) else 'that many'), g, post=post, ensures=ens)
def oftype(t, at=0):
    def su(ex, args, st): st.st('i64', args[at].b, iadd(args[at].o, 24), t)
    return su
ALLOC = Contract(P + '5allocEi', ['heap', 'i32'], sp_alloc); CONTRACTS[ALLOC.name] = ALLOC
for nm, t, sz, k in NUM + [('var', 8, 16, None)]:
    CHECKS.append(Contract(P + '5allocEi@%s' % nm, ['heap=Heap', 'i32'], sp_alloc, setup=oftype(t), props=['C02', 'C01']))
def sp_dealloc(c):
    h, d = c.a; st = c.pre; t = mtype(st, h)
    nul = eq(d.b, 0)
    c.require(or_(nul, eq(st.read('fr', d.b, 0), 0)), 'not yet released')
    c.case('nothing', nul)
    bad = or_(lt(t, 1), gt(t, 9))
    c.throws('unknown type', and_(not_(nul), bad), ERROR)
    post = c.post(); post.st('fr', d.b, 0, 1)
    if norm(ge(t, 8)) is not False:
        anyblock(post, d)
        post.m['lv'] = RangeS(post.m['lv'], (lambda b, o: and_(eq(b, d.b), ge(t, 8))), (lambda b, o: 0), False, [d.b])
    c.case('released', and_(not_(nul), not_(bad)), post=post)
DEALLOC = Contract(P + '7deallocENS0_8dataTypeE', ['heap', 'heap0'], sp_dealloc); CONTRACTS[DEALLOC.name] = DEALLOC
for nm, t, sz, k in NUM:
    CHECKS.append(Contract(P + '7deallocENS0_8dataTypeE@%s' % nm, ['heap=Heap', 'ptr'], sp_dealloc, setup=oftype(t), props=['C01', 'C02']))

# ------------------------------------------------------------------ resizing
RESMAX = (1 << 30) - 1
def release(post, d, t):
    """the block d (of element type t) is given back; its contents are unknown afterwards"""
    post.st('fr', d.b, 0, 1)
    for k in ALLK: post.havoc(k, d.b, 0, BIG)
    if norm(ge(t, 8)) is not False:
        post.m['lv'] = RangeS(post.m['lv'], (lambda b, o: and_(eq(b, d.b), ge(t, 8))), (lambda b, o: 0), False, [d.b])
def nilslots(post, d, t, lo, hi, pairs=True):
    """the generic elements [lo,hi) of block d are undefined values"""
    if norm(ge(t, 8)) is False: return
    a = iadd(d.o, imul(lo, tysize(t))); e = iadd(d.o, imul(hi, tysize(t)))
    slot = lambda b, o: and_(eq(b, d.b), ge(t, 8), le(a, o), lt(o, e), eq(norm(zv(isub(o, a)) % 16), 0))
    for k, off, v in (('pb', 0, 0), ('po', 0, 0), ('i64', 8, 0), ('lv', 0, 1)):
        post.m[k] = RangeS(post.m[k], (lambda b, o, off=off: slot(b, isub(o, off))), (lambda b, o, v=v: v), False, [d.b])
def copycells(post, st, sb, so, d, n, t):
    """n elements of type t are copied to d (bytewise)"""
    ln = imul(n, tysize(t))
    for k in ALLK: post.copyrange(st, sb, so, d.b, d.o, ln, (k,))
def sp_resize(c, direct=False):
    h, n = c.a; st = c.pre; t = mtype(st, h)
    v = False if direct else isview(st, h)
    c.throws('a view has a fixed size', v, ERROR)
    if v is True: return
    if c.mode != 'check': c.require(or_(v, and_(ge(n, 0), le(n, RESMAX))), 'length not negative')
    else: c.require(and_(ge(n, 0), le(n, RESMAX)), 'length not negative')
    need = ite(eq(t, TYPE_CHAR), iadd(n, 1), n)
    cap = mcap(st, h); old = mdata(st, h); osz = msize(st, h)
    keep = ite(lt(osz, n), osz, n)
    moved = c.unknown(lambda o: not_(peq(mdata(o.st, h), old)), 'moved', B)
    gen = ge(t, 8)
    # in place
    g = and_(not_(v), not_(moved))
    post = c.post(); post.st('i32', h.b, iadd(h.o, 16), n)
    nilslots(post, old, t, n, osz)
    if norm(eq(t, TYPE_CHAR)) is not False:
        p = post.copy(); post.m['i8'] = RangeS(post.m['i8'], (lambda b, o: and_(eq(t, TYPE_CHAR), eq(b, old.b), eq(o, iadd(old.o, n)))), (lambda b, o: 0), False, [old.b])
    ens = [le(need, cap), gt(cap, 0)] if c.mode == 'use' else [le(need, mcap(c.fin, h))]
    c.case('in place', g, post=post, ensures=ens)
    # in a new block
    g = and_(not_(v), moved)
    post = c.post()
    d = c.newref(lambda o: mdata(o.st, h))
    if c.mode == 'use': d = Ptr(d.b, ite(gen, 8, 0)) if norm(gen) is not False else d; post.info[d.b] = {'heap': 'callee'}
    nc = c.unknown(lambda o: mcap(o.st, h), 'cap')
    post.st('i32', h.b, iadd(h.o, 16), n); post.st('i32', h.b, iadd(h.o, 32), nc)
    post.stp(h.add(8), d)
    post.m['lv'] = RangeS(post.m['lv'], (lambda b, o: eq(b, d.b)), (lambda b, o: 0), False, [d.b])
    anyblock(post, d)
    nilslots(post, d, t, 0, nc)
    copycells(post, st, old.b, old.o, d, keep, t)
    if norm(eq(t, TYPE_CHAR)) is not False:
        post.m['i8'] = RangeS(post.m['i8'], (lambda b, o: and_(eq(t, TYPE_CHAR), eq(b, d.b), eq(o, iadd(d.o, n)))), (lambda b, o: 0), False, [d.b])
    was = gt(cap, 0)
    if c.mode == 'use':
        p2 = post.copy(); release(p2, old, t)
        ens = [ge(nc, need), ge(nc, 8), lt(nc, 1 << 31), gt(need, cap)]
        c.case('moved', and_(g, was), post=p2, ensures=ens)
        c.case('first block', and_(g, not_(was)), post=post, ensures=[ge(nc, need), ge(nc, 8), lt(nc, 1 << 31), implies(gen, True)])
    else:
        # which case it is does not depend on the outcome
        p2 = post.copy(); release(p2, old, t)
        c.case('moved', and_(g, was), post=p2, ensures=[ge(nc, need), c.isnew(d)])
        c.case('first block', and_(g, not_(was)), post=post, ensures=[ge(nc, need), c.isnew(d)])
def as_resize(c): return wf_heap(c.pre, c.a[0]) + [eq(c.pre.read('fr', mdata(c.pre, c.a[0]).b, 0), 0), implies(eq(mcap(c.pre, c.a[0]), 0), eq(msize(c.pre, c.a[0]), 0))]
RESIZE = Contract('V:' + P + '6resizeEi', ['heap', 'i32'], sp_resize); CONTRACTS[RESIZE.name] = RESIZE
CONTRACTS[P + '6resizeEi'] = Contract(P + '6resizeEi', ['heap', 'i32'], sp_resize)
for nm, t, sz, k in NUM:
    CHECKS.append(Contract(P + '6resizeEi@%s' % nm, ['heap=Heap', 'i32'], sp_resize, assumes=as_resize, setup=oftype(t), props=['C02', 'C08']))

# ------------------------------------------------------------------ copying the data of an array
def sp_hcopy(c):
    h, g, n = c.a; st = c.pre; t = mtype(st, h)
    d = mdata(st, h); s = mdata(st, g)
    post = c.post(); copycells(post, st, s.b, s.o, d, msize(st, h), t)
    c.case('the elements', post=post)
def as_hcopy(c):
    st = c.pre; h, g, n = c.a
    return wf_built(st, h) + wf_built(st, g) + [not_(eq(h.b, g.b)), not_(eq(mdata(st, h).b, mdata(st, g).b)), eq(msize(st, h), n), eq(mtype(st, g), mtype(st, h)), eq(msize(st, g), n)]
CONTRACTS[P + '4copyEPKS0_i'] = Contract(P + '4copyEPKS0_i', ['heap', 'heap', 'i32'], sp_hcopy)
for nm, t, sz, k in NUM:
    CHECKS.append(Contract(P + '4copyEPKS0_i@%s' % nm, ['heap=Heap', 'heap=Heap', 'i32'], sp_hcopy, assumes=as_hcopy, setup=oftype(t), props=['C07']))

# ------------------------------------------------------------------ an element by position
def putval(c, post, r, T, v):
    """the value v of type T in slot r"""
    havocslot(post, r)
    if T == 7:
        h2 = c.newown(lambda o: o.st.ldp(r)); post.stp(r, h2); post.st('i64', r.b, iadd(r.o, 8), 0)
        if c.mode == 'use':
            def w(p, d): p.st('f64', d.b, 0, v[0]); p.st('f64', d.b, 8, v[1])
            return setheap(c, post, h2, 7, 1, w, rc=1)
        return [c.isnew(h2)] + plain(c.fin, h2, 7, 1) + reteq(cells(c.fin, mdata(c.fin, h2), TK[7]), v)
    wcells(post, r, TK[T], v); post.st('i64', r.b, iadd(r.o, 8), T)
    return []
from .assign import setheap, dcases, copyvar_from
def sp_hat(c):
    r, h, i, key = c.a; st = c.pre
    inr = and_(ge(i, 0), lt(i, hsize(st, h)))
    c.throws('out of range', not_(inr), RANGE)
    t = htype(st, h)
    for nm, T, sz, k in NUM:
        g = and_(inr, eq(t, T))
        if norm(g) is False: continue
        if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [g]): continue
        post = c.post()
        ens = putval(c, post, r, T, cells(st, elem_at(st, h, i, sz), k)); begin(c, r, post)
        c.case(nm, g, post=post, ensures=ens)
    for nm, T, sz, off in (('var', 8, 16, 0), ('pair: value', 9, 32, 16), ('pair: key', 9, 32, 0)):
        g = and_(inr, eq(t, T), True if T == 8 else (key if off == 0 else not_(key)))
        if norm(g) is False: continue
        if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [g]): continue
        post = c.post(); copyvar_from(post, st, elem_at(st, h, i, sz).add(off), r); begin(c, r, post)
        c.case(nm, g, post=post)
def as_hat(c):
    st = c.pre; r, h, i, key = c.a; t = htype(st, h); inr = and_(ge(i, 0), lt(i, hsize(st, h)))
    out = wf_any(st, h)
    for T, sz, off in ((8, 16, 0), (9, 32, 16), (9, 32, 0)):
        e = elem_at(st, h, i, sz).add(off)
        out += [implies(and_(inr, eq(t, T)), x) for x in wf_slot(st, e) + [live(st, e)]]
    return out
both(PK + '2atEib', ['sret', 'heap', 'i32', 'i1'], sp_hat, assumes_heap=as_hat, assumes_view=as_hat, ctor=0, props=['C03', 'C05', 'C07', 'C10'])
def sp_key(c):
    h, i = c.a; st = c.pre; t = htype(st, h)
    inr = and_(ge(i, 0), lt(i, hsize(st, h)))
    c.throws('out of range or not a map', or_(not_(inr), not_(eq(t, TYPE_PAIR))))
    c.case('key', and_(inr, eq(t, TYPE_PAIR)), ret=elem_at(st, h, i, 32))
both(P + '3keyEi', ['heap', 'i32'], sp_key, props=['C03', 'C09'])

# ------------------------------------------------------------------ appending, shifting and unshifting
def sub(c, spec, args, pre):
    """the cases of another specification, on the given state. What that one requires is not taken over: the call inside has
    to meet it, and the contract at hand says itself what it asks of its callers"""
    s = C(c.ex, c.contract, c.mode, args, pre, c.out); spec(s)
    c.wits += s.wits; c.owned += s.owned
    return s.cases
def add(c, k, name=None, f=None, **kw):
    if f: f(k.post)
    c.case(name or k.name, k.guard, kind=k.kind, ret=kw.get('ret'), exc=k.exc, post=k.post, ensures=k.ensures, foralls=k.foralls)
def sp_append(T, sz, kinds):
    def sp(c):
        h, n, src = c.a; st = c.pre
        c.require(eq(mtype(st, h), T), 'element type')
        c.require(and_(ge(n, 0), le(iadd(msize(st, h), n), RESMAX)), 'length not negative')
        c.require(not_(eq(src.b, mdata(st, h).b)), 'the source lies elsewhere')
        old = msize(st, h)
        for k in sub(c, sp_resize, [h, iadd(old, n)], st):
            if norm(k.guard) is False: continue
            d = mdata(k.post, h)
            def f(post):
                a = iadd(d.o, imul(old, sz))
                if T == 7:
                    for kk in ALLK: post.copyrange(st, src.b, src.o, d.b, a, imul(n, sz), (kk,))
                else: post.m[kinds[0]] = RangeS(post.m[kinds[0]], (lambda b, o: and_(eq(b, d.b), le(a, o), lt(o, iadd(a, imul(n, sz))), eq(norm(zv(isub(o, a)) % sz), 0))), (lambda b, o: st.read(kinds[0], src.b, iadd(src.o, isub(o, a)))), False, [d.b])
                if T == 1: post.m['i8'] = RangeS(post.m['i8'], (lambda b, o: and_(eq(b, d.b), eq(o, iadd(d.o, iadd(old, n))))), (lambda b, o: 0), False, [d.b])
            add(c, k, f=f)
    return sp
def as_append(c): return as_resize(c) + [ge(c.a[2].b, 1), kindof(zv(c.a[2].b)) != K_HEAP, lt(iadd(msize(c.pre, c.a[0]), c.a[1]), RESMAX)]
for nm, T, cn in (('char', 1, 'PKc'), ('int', 2, 'PKi'), ('cdouble', 7, 'PKSt7complexIdE')):
    sz, kd = TSZ[T], TK[T]
    CONTRACTS[P + '6appendEi' + cn] = Contract(P + '6appendEi' + cn, ['heap', 'i32', 'ptr'], sp_append(T, sz, kd))
    CHECKS.append(Contract(P + '6appendEi' + cn, ['heap=Heap', 'i32', 'ptr'], sp_append(T, sz, kd), assumes=as_append, setup=oftype(T), props=['C02', 'C08']))
def moveto(post, st, d, frm, to, n, sz):
    """n elements of size sz of block d move from position frm to position to"""
    for k in ALLK: post.copyrange(st, d.b, iadd(d.o, imul(frm, sz)), d.b, iadd(d.o, imul(to, sz)), imul(n, sz), (k,))
def sp_shift(c):
    r, h = c.a; st = c.pre; t = mtype(st, h); v = isview(st, h)
    c.throws('a view has a fixed size', v, ERROR)
    if v is True: return
    n = msize(st, h); d = mdata(st, h)
    c.require(or_(v, le(n, RESMAX)), 'length')
    c.throws('empty', and_(not_(v), lt(n, 1)), RANGE)
    for nm, T, sz, kd in NUM:
        g = and_(not_(v), ge(n, 1), eq(t, T))
        if norm(g) is False: continue
        mv = st.copy(); moveto(mv, st, d, 1, 0, isub(n, 1), sz)
        val = cells(st, d, kd)
        for k in sub(c, sp_resize, [h, isub(n, 1)], mv):
            if norm(k.guard) is False: continue
            k.guard = and_(k.guard, g)
            if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [zv(k.guard)]): continue
            k.ensures += putval(c, k.post, r, T, val); begin(c, r, k.post)
            add(c, k, '%s elements, %s' % (nm, k.name))
for nm, t, sz, k in NUM:
    CHECKS.append(Contract(P + '5shiftEv@%s' % nm, ['sret', 'heap=Heap'], sp_shift, assumes=lambda c: wf_built(c.pre, c.a[1]) + [eq(c.pre.read('fr', mdata(c.pre, c.a[1]).b, 0), 0)], ctor=0, setup=oftype(t, at=1), props=['C08']))
def sp_unshift(c):
    h, v = c.a; st = c.pre; t = mtype(st, h); n = msize(st, h)
    c.require(and_(ge(n, 0), le(n, RESMAX - 1)), 'length')
    for nm, T, sz, kd in NUM:
        g = eq(t, T)
        if norm(g) is False: continue
        cs = list(casted(c, v, T))
        for k in sub(c, sp_resize, [h, iadd(n, 1)], st):
            if norm(k.guard) is False: continue
            d = mdata(k.post, h); snap = k.post.copy(); moveto(k.post, snap, d, 0, 1, n, sz)
            k.guard = and_(k.guard, g)
            for cn, cg, kind, val in cs:
                gg = norm(and_(k.guard, cg))
                if gg is False: continue
                lab = '%s elements, %s, %s' % (nm, k.name, cn)
                if kind == '?':
                    b = c.unknown(lambda o: o.kind == 'throw', 'raised', B)
                    c.case(lab + ' (refused)', and_(gg, b), kind='throw', post=k.post.copy(), ensures=k.ensures)
                    gg = and_(gg, not_(b)); val = unkval(c, T) if c.mode == 'use' else cells(c.fin, mdata(c.fin, h), kd)
                elif kind is not None: c.case(lab, gg, kind='throw', exc=kind, post=k.post.copy(), ensures=k.ensures); continue
                post = k.post.copy()
                if len(kd) > 1 or T == 7: 
                    for kk in ALLK: post.havoc(kk, d.b, d.o, sz)
                wcells(post, d, kd, val)
                c.case(lab, gg, post=post, ensures=k.ensures)
for nm, t, sz, k in NUM:
    CHECKS.append(Contract(P + '7unshiftENS_3varE@%s, not from an array' % nm, ['heap=Heap', 'val'], sp_unshift, setup=oftype(t), assumes=lambda c: wf_built(c.pre, c.a[0]) + [eq(c.pre.read('fr', mdata(c.pre, c.a[0]).b, 0), 0), not_(isref(c.pre, c.a[1]))] + wf_var(c.pre, c.a[1]) + [eq(v_heap(c.pre, c.a[1]).b, 0), lt(msize(c.pre, c.a[0]), RESMAX - 1)], props=['C08']))
