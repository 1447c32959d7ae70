from .lib import *
from .var import ptr_of, wfv
# ------------------------------------------------------------------ C16
def u8(st, p, k): return st.read('i8', p.b, iadd(p.o, k))
def cont(b): return and_(ge(b, -128), le(b, -65))            # 10xxxxxx
def seqlen(st, p):
    """bytes of the well-formed code point at p, 0 if there is none"""
    b = u8(st, p, 0)
    c1, c2, c3 = (cont(u8(st, p, k)) for k in (1, 2, 3))
    return ite(ge(b, 0), 1, ite(and_(ge(b, -64), le(b, -33)), ite(c1, 2, 0),
               ite(and_(ge(b, -32), le(b, -17)), ite(and_(c1, c2), 3, 0),
                   ite(and_(ge(b, -16), le(b, -9)), ite(and_(c1, c2, c3), 4, 0), 0))))
def sp_utf8len(c):
    c.case('bytes of the code point', ret=seqlen(c.pre, c.a[0]))
def rd(ex, st, p, n, what):
    # only bytes that follow non-zero bytes are read
    a = ex.u8arg
    if what == 'written' or not ex.ctx.same_base(p.b, a.b): return []
    k = norm(isub(p.o, a.o))
    if not isc(k): return [z3.BoolVal(False)]
    return [and_(ge(k, 0), *[not_(eq(st.read('i8', a.b, iadd(a.o, j)), 0)) for j in range(k)])]
def su(ex, args, st): ex.u8arg = args[0]
reg(Contract('_Z7utf8lenPKc', ['ptr'], sp_utf8len, props=['C16'], setup=su, opts={'bounds': rd}, loops={None: {'mode': 'unroll', 'max': 5}}))

def cnt(p, S, x): return app('codepoints', p, S, x)
def unfold(ctx, st, p, S, x):
    """the definition of the number of code points from byte x on (-1 if malformed)"""
    u = seqlen(st, p.add(x)); r = cnt(p, S, iadd(x, u))
    ctx.fact(eq(cnt(p, S, x), ite(eq(x, S), 0, ite(or_(gt(x, S), eq(u, 0)), -1, ite(lt(r, 0), -1, iadd(r, 1))))))
    ctx.fact(cnt(p, S, x) >= -1); ctx.fact(r >= -1)
def sp_len(c):
    st = c.pre; s = c.a[0]
    u = v_undef(st, s); ch = and_(not_(u), eq(v_atype(st, s), 1))
    c.case('not a string', not_(ch), ret=v_size(st, s))
    p = ptr_of(st, s, 0, 1); S = v_size(st, s)
    unfold(c.ctx, st, p, S, 0)
    c.case('string', ch, ret=cnt(p, S, 0))
def inv_len(lv):
    st = lv.st0; s = lv.ex.lenarg; p = ptr_of(st, s, 0, 1); S = v_size(st, s)
    xs = [i.dst for i in lv.phis if i.ty.k == 'int' and i.ty.n in (32, 64)]
    for x in xs: unfold(lv.ex.ctx, st, p, S, lv.vals[x])
    c0 = cnt(p, S, 0)
    out = []
    for x in xs:
        out.append(ge(lv.vals[x], 0))
        for y in xs:
            if x != y: out.append(eq(c0, ite(lt(cnt(p, S, lv.vals[x]), 0), -1, iadd(lv.vals[y], cnt(p, S, lv.vals[x])))))
    return out
def sl(ex, args, st): ex.lenarg = args[0]
reg(Contract('_ZN6libube3var3lenEv', ['var'], sp_len, assumes=wfv(0), props=['C16'], setup=sl, loops={None: {'cand': inv_len}}))
