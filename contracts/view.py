"""Views: where they may lie, and what they refuse."""
from .lib import *
from .heap import both
from .var import wfv
P = '_ZN6libube4View'; PK = '_ZNK6libube4View'; HP = '_ZN6libube4Heap'
IMAX = (1 << 31) - 1

# ------------------------------------------------------------------ moving a view
def sp_offset(c):
    h, o = c.a; st = c.pre
    v = isview(st, h)
    c.throws('not a view', not_(v), ERROR)
    b = vheap(st, h)
    ok = and_(ge(o, 0), le(o, isub(msize(st, b), hsize(st, h))))
    c.throws('refused', and_(v, not_(ok)), ERROR)
    post = c.post(); d = mdata(st, h); post.st('i32', d.b, d.o, o)
    c.case('moved', and_(v, ok), ret=o, post=post)
both(HP + '6offsetEi', ['heap', 'i32'], sp_offset, props=['C04'])
# ------------------------------------------------------------------ operations that would change the length of a view
for m, args in [('6resizeEi', ['heap=View', 'i32']), ('5shiftEv', ['sret', 'heap=View']), ('7unshiftENS_3varE', ['heap=View', 'val'])]:
    reg(Contract(P + m, args, lambda c: c.throws('refused', True, ERROR), props=['C05', 'C08', 'C01']))
# ------------------------------------------------------------------ row-major strides
def prod(st, h, d, k): return app('dims_from', h.b, d, k)
def okf(st, h, d, k): return app('dims_ok_from', h.b, d, k, ret=B)
def unfold(ctx, st, h, d, k):
    """product of the dimensions from k on, and whether they are acceptable"""
    n = iadd(k, 1); s = vshape(st, h, k)
    inn = lt(k, d)
    ctx.fact(eq(prod(st, h, d, k), ite(inn, zv(prod(st, h, d, n)) * zv(s), 1)))
    ctx.fact(beq(okf(st, h, d, k), ite(inn, and_(okf(st, h, d, n), ge(s, 0), le(prod(st, h, d, n), IMAX)), True)))
    # okf(x) says that every dimension from x on is acceptable: it holds of later ones too; products of such are not negative
    if isc(k) and k == 0: return
    ctx.fact(implies(and_(okf(st, h, d, 0), ge(k, 0)), okf(st, h, d, k)))
    ctx.fact(implies(okf(st, h, d, k), ge(prod(st, h, d, k), 0)))
def sp_strides(c):
    h, d = c.a; st = c.pre
    blk = mdata(st, h); b = vheap(st, h); o = voff(st, h)
    unfold(c.ctx, st, h, d, 0); unfold(c.ctx, st, h, d, d)
    any_ = c.post(); any_.havoc('i32', blk.b, blk.o, imul(4, iadd(imul(2, d), 1)))
    c.throws('no dimensions', lt(d, 1), ERROR)
    oo = and_(ge(d, 1), or_(lt(o, 0), gt(o, msize(st, b))))
    c.throws('offset outside the array', oo, ERROR)
    fits = and_(okf(st, h, d, 0), le(prod(st, h, d, 0), isub(msize(st, b), o)))
    g = and_(ge(d, 1), ge(o, 0), le(o, msize(st, b)))
    c.throws('does not fit', and_(g, not_(fits)), ERROR, post=any_)
    post = c.post()
    snap = st
    def val(x):
        r = isub(x, iadd(blk.o, 8))
        k = norm(zv(r) / 8)
        unfold(c.ctx, snap, h, d, k); unfold(c.ctx, snap, h, d, iadd(k, 1))
        return ite(eq(norm(zv(r) % 8), 0), prod(st, h, d, iadd(k, 1)), snap.read('i32', blk.b, x))
    post.rng('i32', blk.b, iadd(blk.o, 8), isub(imul(8, d), 0), val)
    c.case('row-major strides', and_(g, fits), post=post)
def as_strides(c):
    h, d = c.a; st = c.pre; blk = mdata(st, h); b = vheap(st, h)
    return [eq(msize(st, h), iadd(imul(2, d), 1)), ge(mcap(st, h), msize(st, h)), ge(blk.b, 1), ge(blk.o, 0), kindof(zv(blk.b)) == K_DATA, kindof(zv(b.b)) == K_HEAP, eq(b.o, 0), not_(eq(b.b, h.b)), ge(d, 0), lt(d, 1 << 28)] + wf_built(st, b) + [not_(eq(mdata(st, b).b, blk.b))]
def su(ex, args, st): ex.vw = args
def fun_strides(lv):
    h, d = lv.ex.vw; st = lv.st0
    k = isub(d, lv.n)
    for x in (k, isub(k, 1), d): unfold(lv.ex.ctx, st, h, d, x)
    return [prod(st, h, d, k)]
def inv_strides(lv):
    h, d = lv.ex.vw; st = lv.st0; n = lv.n if lv.n is not None else None
    if n is None: return [True]
    k = isub(d, n)
    return [beq(okf(st, h, d, k), True), ge(k, 0), ge(prod(st, h, d, k), 0)]
reg(Contract(P + '10setStridesEi', ['heap=View', 'i32'], sp_strides, assumes=as_strides, setup=su, props=['C04'], loops={None: {'fun': fun_strides, 'cand': inv_strides}}))
