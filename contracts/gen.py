"""The memory of generic arrays: their elements are vars."""
from .lib import *
from .mem import *
from .mem import NUM
from .make import rc
from .var import sp_dtor
P = '_ZN6libube4Heap'; V = '_ZN6libube3var'
PAY = UNDEFCELLS + ('i16',)
# ------------------------------------------------------------------ elements: vars that hold no reference
CELLS = [(k, 0) for k in PAY] + [('f32', 4)]
def cellcopy(p, st, v, s):
    """the payload as it can be read (each type at the start of the slot, a cfloat's second part at 4), the rest unknown"""
    for k in PAY: p.havoc(k, s.b, s.o, 8)
    for k, o in CELLS: p.st(k, s.b, iadd(s.o, o), st.read(k, v.b, iadd(v.o, o)))
    p.st('i64', s.b, iadd(s.o, 8), vtag(st, v))
def el_assign(c):
    """the instance of the contract of assignment (assign.py, 'var := value') for a target that holds nothing"""
    s, v = c.a; st = c.pre
    c.require(and_(eq(vtag(st, s), 0), eq(vhp(st, s).b, 0)), 'the target is undefined')
    c.require(ge(vtag(st, v), 0), 'the source is no reference'); c.require(and_(live(st, s), live(st, v)), 'both constructed')
    p = c.post(); cellcopy(p, st, v, s); c.case('value', ret=s, post=p)
EL = {V + 'aSES0_': Contract(V + 'aSES0_', ['var', 'val'], el_assign)}
def slots(ctx, st, d, lo, hi, f, w):
    """f(slot) for every slot of the elements [lo,hi) of block d, whose elements have w slots"""
    st.past.append(Forall(lo, hi, lambda k: and_(*[x for q in range(w) for x in f(st, Ptr(d.b, iadd(d.o, iadd(imul(k, 16 * w), 16 * q))))])))
def stored(st, e): return [live(st, e), ge(vtag(st, e), 0), le(vtag(st, e), 6)]
def nil(st, e): return [eq(vtag(st, e), 0), eq(vhp(st, e).b, 0), eq(vhp(st, e).o, 0)]
def as_gen(w, at=0):
  def f(c):
    h = c.a[at]; st = c.pre; d = mdata(st, h)
    slots(c.ctx, st, d, 0, mcap(st, h), stored, w); slots(c.ctx, st, d, msize(st, h), mcap(st, h), nil, w)
    return wf_heap(st, h) + [eq(st.read('fr', d.b, 0), 0), implies(eq(mcap(st, h), 0), eq(msize(st, h), 0)), implies(not_(eq(d.b, 0)), eq(d.o, 8)), le(mcap(st, h), 1 << 30)] + [implies(gt(mcap(st, h), 0), and_(*[x for q in range(w) for x in stored(st, d.add(16 * q))]))]
  return f
def each(post, w, k, d, lo, hi, off, val):
    """val at offset off of every slot of the elements [lo,hi) of block d"""
    a = iadd(d.o, imul(lo, 16 * w)); e = iadd(d.o, imul(hi, 16 * w))
    for q in range(w):
        inn = lambda b, x, q=q: and_(eq(b, d.b), le(a, x), lt(x, e), eq(norm(zv(isub(x, a)) % (16 * w)), off + 16 * q))
        post.m[k] = RangeS(post.m[k], inn, val, False, [d.b])
def copyslots(post, st, sb, so, d, n, w):
    """n elements: their values"""
    for k, off in CELLS + [('i64', 8)]: each(post, w, k, d, 0, n, off, lambda b, x, k=k: st.read(k, sb, iadd(so, isub(x, d.o))))
    each(post, w, 'lv', d, 0, n, 0, lambda b, x: 1)
def nils(post, d, lo, hi, w):
    for k, off, v in (('pb', 0, 0), ('po', 0, 0), ('i64', 8, 0), ('lv', 0, 1)): each(post, w, k, d, lo, hi, off, lambda b, x, v=v: v)
def sp_gresize(w):
  t = 7 + w
  def f(c):
    h, n = c.a; st = c.pre
    c.require(and_(ge(n, 0), le(n, RESMAX)), 'length not negative')
    cap = mcap(st, h); old = mdata(st, h); osz = msize(st, h)
    moved = c.unknown(lambda o: not_(peq(mdata(o.st, h), old)), 'moved', B)
    post = c.post(); post.st('i32', h.b, iadd(h.o, 16), n)
    for k in PAY: post.havoc(k, old.b, iadd(old.o, imul(n, 16 * w)), imul(ite(lt(n, osz), isub(osz, n), 0), 16 * w))
    nils(post, old, n, osz, w)
    c.case('in place', not_(moved), post=post, ensures=[le(n, mcap(c.fin, h))])
    post = c.post(); d = c.newref(lambda o: mdata(o.st, h)); nc = c.unknown(lambda o: mcap(o.st, h), 'cap')
    keep = ite(lt(osz, n), osz, n)
    post.st('i32', h.b, iadd(h.o, 16), n); post.st('i32', h.b, iadd(h.o, 32), nc); post.stp(h.add(8), d)
    post.m['lv'] = RangeS(post.m['lv'], (lambda b, o: eq(b, d.b)), (lambda b, o: 0), False, [d.b])
    anyblock(post, d); nils(post, d, 0, nc, w); copyslots(post, st, old.b, old.o, d, keep, w)
    was = gt(cap, 0); p2 = post.copy(); release(p2, old, t)
    c.case('moved', and_(moved, was), post=p2, ensures=[ge(nc, n), c.isnew(d)])
    c.case('first block', and_(moved, not_(was)), post=post, ensures=[ge(nc, n), c.isnew(d)])
  return f
def GL(w): return {None: {'fun': lambda lv: [0], 'cells': True, 'inst': lambda lv: [lv.n]}}
def GLD(w): return {None: {"fun": lambda lv: [0], "cells": True, "cand": lambda lv: [lt(lv.n, lv.st0.read("i64", z3.Int("arg1_b"), 0))]}}
def AT(w): return {'at': lambda o: [norm(z3.simplify((zv(o) - q) / (16 * w))) for q in (8, 16, 24, 32)[:2 * w]]}
def withdata(t, at=0):
    """the heap has a block of elements"""
    def su(ex, args, st):
        h = args[at]; oftype(t, at)(ex, args, st)
        d = z3.Int('data_b'); ex.ctx.mark_ext(d); ex.ctx.fact(d >= 1); st.addkind(d, {K_DATA}); st.stp(h.add(8), Ptr(d, 8)); st.assume(gt(mcap(st, h), 0))
    return su
def nodata(t, at=0):
    def su(ex, args, st): h = args[at]; oftype(t, at)(ex, args, st); st.stp(h.add(8), NULL); st.st('i32', h.b, iadd(h.o, 32), 0)
    return su
CHECKS.append(Contract(V + 'aSES0_@element', ['var', 'val'], el_assign, props=['C08', 'C05']))
for nm, w in (('var', 1), ('pair', 2)):
    for x, su in (('', withdata), (', first', nodata)):
        CHECKS.append(Contract(P + '6resizeEi@' + nm + x, ['heap=Heap', 'i32'], sp_gresize(w), assumes=as_gen(w), setup=su(7 + w), local=EL, loops=GL(w), opts=AT(w), props=['C02', 'C08', 'C09', 'C01'] if w == 2 else ['C02', 'C08', 'C01']))

# ------------------------------------------------------------------ giving the elements back
def as_gdealloc(c): return [eq(c.pre.read('fr', c.a[1].b, 0), 0)]
def su_d(w):
    """the block holds as many elements as were counted when it was allocated, each constructed, and nothing else"""
    def su(ex, args, st):
        oftype(7 + w)(ex, args, st); d = args[1].b; st.addkind(d, {K_DATA}); args[1] = Ptr(d, 8); K = st.read('i64', d, 0); st.assume(and_(ge(K, 0), le(K, 1 << 31)))
        slot = lambda o: and_(le(8, o), lt(o, iadd(8, imul(K, 16 * w))), eq(norm(zv(isub(o, 8)) % 16), 0))
        st.m['lv'] = RangeS(st.m['lv'], (lambda b, o: eq(b, d)), (lambda b, o: ite(slot(o), 1, 0)), False, [d])
    return su
for nm, w in (('var', 1), ('pair', 2)):
    CHECKS.append(Contract(P + '7deallocENS0_8dataTypeE@' + nm, ['heap=Heap', 'ptr'], sp_dealloc, assumes=as_gdealloc, setup=su_d(w), loops=GLD(w), props=['C01', 'C02']))
# ------------------------------------------------------------------ copying the elements
def sp_ghcopy(w):
  def f(c):
    h, g, n = c.a; st = c.pre; d = mdata(st, h); s = mdata(st, g)
    c.require(ge(n, 0), 'size')
    post = c.post(); 
    for k in PAY:
        post.m[k] = RangeS(post.m[k], (lambda b, x: and_(eq(b, d.b), le(d.o, x), lt(x, iadd(d.o, imul(n, 16 * w))))), (lambda b, x: 0), True, [d.b])
    copyslots(post, st, s.b, s.o, d, n, w)
    c.case('the elements', post=post)
  return f
def su_copy(t):
    def su(ex, args, st):
        h, g, n = args
        for i in (0, 1):
            oftype(t, i)(ex, args, st); d = z3.Int('data%d_b' % i); ex.ctx.mark_ext(d); ex.ctx.fact(d >= 1); st.addkind(d, {K_DATA}); st.stp(args[i].add(8), Ptr(d, 8)); st.assume(gt(mcap(st, args[i]), 0))
            st.st('i32', args[i].b, iadd(args[i].o, 16), n)
    return su
def as_ghcopy(w):
  def f(c):
    h, g, n = c.a; st = c.pre; d = mdata(st, h); s = mdata(st, g)
    slots(c.ctx, st, d, 0, n, lambda st, e: nil(st, e) + [live(st, e)], w); slots(c.ctx, st, s, 0, n, stored, w)
    return wf_built(st, h) + wf_built(st, g) + [not_(eq(h.b, g.b)), not_(eq(d.b, s.b)), ge(n, 0), le(n, 1 << 30)]
  return f
for nm, w in (('var', 1), ('pair', 2)):
    CHECKS.append(Contract(P + '4copyEPKS0_i@' + nm, ['heap=Heap', 'heap=Heap', 'i32'], sp_ghcopy(w), assumes=as_ghcopy(w), setup=su_copy(7 + w), local=EL, loops=GL(w), opts=AT(w), props=['C07']))

# ------------------------------------------------------------------ shifting the elements
def rawmove(ex, st, d, s, n):
    """elements are relocated bytewise: they live where they are moved to and no longer where they were; nothing alive is overwritten"""
    snap = st.copy(); o = ex.ctx.fresh('slot')
    ind = lambda o: and_(le(d.o, o), lt(o, iadd(d.o, n))); ins = lambda o: and_(le(s.o, o), lt(o, iadd(s.o, n)))
    ex.oblige('elements move within a block', st.copy(), eq(d.b, s.b)); st.assume(eq(d.b, s.b))
    ex.oblige('no living element is overwritten', snap.copy(), implies(and_(ind(o), not_(ins(o))), eq(snap.read('lv', d.b, o), 0)))
    st.m['lv'] = RangeS(st.m['lv'], (lambda b, x: and_(eq(b, d.b), or_(ind(x), ins(x)))), (lambda b, x: ite(ind(x), snap.read('lv', d.b, iadd(s.o, isub(x, d.o))), 0)), False, [d.b])
def slotlives(w, at=0):
    """the block's elements are alive and nothing else in it is"""
    def su(ex, args, st):
        h = args[at]; d = mdata(st, h); c = mcap(st, h)
        slot = lambda o: and_(le(8, o), lt(o, iadd(8, imul(c, 16 * w))), eq(norm(zv(isub(o, 8)) % 16), 0))
        st.m['lv'] = RangeS(st.m['lv'], (lambda b, o: eq(b, d.b)), (lambda b, o: ite(slot(o), 1, 0)), False, [d.b])
    return su
def both(*f):
    def su(ex, a, st):
        for g in f: g(ex, a, st)
    return su
def relocate(post, st, d, frm, to, n, w):
    moveto(post, st, d, frm, to, n, 16 * w)
def sp_gshift(w):
  def f(c):
    r, h = c.a; st = c.pre; n = msize(st, h); d = mdata(st, h)
    c.require(le(n, RESMAX), 'length')
    c.throws('empty', lt(n, 1), RANGE)
    g = ge(n, 1); mv = st.copy(); relocate(mv, st, d, 1, 0, isub(n, 1), w)
    last = isub(n, 1)
    for k in PAY: mv.havoc(k, d.b, iadd(d.o, imul(last, 16 * w)), 16 * w)
    nils(mv, d, last, n, w)
    for k in sub(c, sp_resize, [h, last], mv):
        if norm(k.guard) is False: continue
        k.guard = and_(k.guard, g)
        if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [zv(k.guard)]): continue
        cellcopy(k.post, st, elem_at(st, h, 0, 16 * w).add(16 * (w - 1)), r); begin(c, r, k.post)
        add(c, k, '%s, %s' % ('vars' if w == 1 else 'pairs', k.name))
  return f
for nm, w in (('var', 1), ('pair', 2)):
    CHECKS.append(Contract(P + '5shiftEv@' + nm, ['sret', 'heap=Heap'], sp_gshift(w), assumes=as_gen(w, 1), ctor=0, setup=both(withdata(7 + w, 1), slotlives(w, 1)), local=EL, opts=dict(AT(w), rawmove=rawmove), props=['C08']))
def sp_gunshift(w):
  def f(c):
    h, v = c.a; st = c.pre; n = msize(st, h)
    if w == 2: return c.throws('no place for a key', True, ERROR)
    c.require(and_(ge(n, 0), le(n, RESMAX - 1)), 'length'); c.require(ge(vtag(st, v), 0), 'no reference')
    for k in sub(c, sp_resize, [h, iadd(n, 1)], st):
        if norm(k.guard) is False: continue
        if c.mode == 'check' and not c.ctx.feasible(c.out.st.pc + [zv(k.guard)]): continue
        d = mdata(k.post, h); snap = k.post.copy(); relocate(k.post, snap, d, 0, 1, n, w); havocslot(k.post, d); cellcopy(k.post, st, v, d); begin(c, d, k.post)
        add(c, k)
  return f
def as_gunshift(w):
    f = as_gen(w)
    return lambda c: f(c) + wf_var(c.pre, c.a[1]) + [ge(vtag(c.pre, c.a[1]), 0), not_(eq(c.a[1].b, mdata(c.pre, c.a[0]).b))]
for nm, w in (('var', 1), ('pair', 2)):
    CHECKS.append(Contract(P + '7unshiftENS_3varE@' + nm, ['heap=Heap', 'val'], sp_gunshift(w), assumes=as_gunshift(w), setup=both(withdata(7 + w), slotlives(w)), local=EL, opts=dict(AT(w), rawmove=rawmove), props=['C08'] if w == 1 else ['C08', 'C09']))
