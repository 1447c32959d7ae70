"""Strings: case, white space, splitting and joining (C18).

The characters of a value x lie at lf('data', x); positions in a text are offsets from there."""
from .func import *
from .func import P, PK, TEN, data
STR = dict(TEN)
def sn(name, args, spec, **k): STR[name] = Contract(name + '@text', args, spec, **k)
SF = '_ZTVN6libube13StringFunctorE'; NS = '_ZNK6libube13StringFunctor'
def ischars(x): return lf('ischars', x, ret=B)
sn(PK + '5atypeIcEEbv', ['var'], t_get(lambda c: ischars(tid(c.pre, c.a[0]))))
sn(PK + '2isERS0_', ['var', 'var'], t_get(lambda c: eq(tid(c.pre, c.a[0]), tid(c.pre, c.a[1]))))
sn('V:' + NS + '5allocENS_3varE', ['sret', 'obj', 'val'], t_new(lambda c: lf('space', tid(c.pre, c.a[2]))))
sn('V:' + NS + '9broadcastENS_3varERS1_', ['obj', 'val', 'var'], v_log(BROADCAST, [(1, 'v'), (2, 'v')]))
sn('V:' + NS + '6stringERKNS_3varERS1_', ['obj', 'var', 'var'], v_log(SCALAR, [(1, 'v'), (2, 'v')]))
def v_apply(c):
    r, th, v, o = c.a; st = c.pre; p = c.post(); c.require(eq(th.b, c.ex.functor.b), 'the same functor')
    logput(p, st, SUPER, tid(st, v), tid(st, o)); put(p, r, tid(st, o)); begin(c, r, p); c.case('', post=p)
sn(NS + 'clERKNS_3varERS1_', ['sret', 'obj', 'var', 'var'], v_apply)
def su1(ex, a, st): su(ex, a, st); ex.functor = a[1]
def sc(name, args, spec, **k):
    k.setdefault('setup', su1 if args[0] == 'sret' else su)
    return fc(name, args, spec, ['C18'], iface=SF, local=k.pop('local', STR), **k)
# ---- the functor: a string is handled as one, anything else element by element
def sp_salloc(c):
    r, th, v = c.a; p = c.post(); put(p, r, lf('alike', tid(c.pre, v))); begin(c, r, p); c.case('', post=p)
sc(NS + '5allocENS_3varE', ['sret', 'obj', 'val'], sp_salloc)
def sp_scall(c):
    r, th, v = c.a[:3]; st = c.pre; x = tid(st, v); out = len(c.a) == 4
    y = tid(st, c.a[3]) if out else lf('space', x)
    for g, e, nm in ((ischars(x), SCALAR, 'a string'), (not_(ischars(x)), BROADCAST, 'its elements')):
        p = logged(c, 0, 1, lambda i: (e, x, y)); put(p, r, y); begin(c, r, p); c.case(nm, g, post=p)
sc(NS + 'clERKNS_3varE', ['sret', 'obj', 'var'], sp_scall); sc(NS + 'clERKNS_3varERS1_', ['sret', 'obj', 'var', 'var'], sp_scall, local={k: v for k, v in STR.items() if k != NS + 'clERKNS_3varERS1_'})
def sp_sbroadcast(c):
    th, v, o = c.a; st = c.pre; x, y = tid(st, v), tid(st, o); n, m = size(c, x), size(c, y)
    c.throws('output too small', lt(m, n), post=unspecified(c))
    c.case('each element into its place', ge(m, n), post=logged(c, 0, n, lambda i: (SUPER, lf('elem', x, i), lf('elem', y, i))))
sc(NS + '9broadcastENS_3varERS1_', ['obj', 'val', 'var'], sp_sbroadcast)
def sp_sstring(c):
    th, v, o = c.a; st = c.pre; c.case('', post=logged(c, 0, 1, lambda i: (BROADCAST, tid(st, v), tid(st, o))))
sc(NS + '6stringERKNS_3varERS1_', ['obj', 'var', 'var'], sp_sstring)
# ---- characters
def chars(ctx, x):
    b = lf('data', x); ctx.mark_ext(b); ctx.fact(ge(b, 1)); return b
def notchars(c, x):
    c.ctx.fact(implies(ischars(x), not_(wrongtype(c, x, 1)))); return wrongtype(c, x, 1)
def tx_ptr(c):
    s, i = c.a; x = tid(c.pre, s); bad = notchars(c, x); c.throws('other type', bad); c.case('', not_(bad), ret=Ptr(data(c, x), i))
sn(P + '3ptrIcEEPT_NS_3indE', ['var', 'i64'], tx_ptr)
def tx_new(c):
    r = c.a[0]; x = lf('text', c.a[1]); c.ctx.fact(ischars(x)); c.ctx.fact(eq(lf('vsize', x), lf('lengthof', c.a[1]))); c.ctx.fact(zv(data(c, x)) != lf('data', c.ex.text)); p = c.post(); put(p, r, x); begin(c, r, p); c.case('', post=p)
sn(P + 'C2EPKc', ['ctor', 'ptr'], tx_new)
def tx_resize(c):
    s, n = c.a; x = tid(c.pre, s); c.require(ischars(x), 'a string'); c.require(ge(n, 0), 'a length'); y = lf('resized', x, n); p = c.post(); put(p, s, y)
    b, d = data(c, x), data(c, y); src = c.ex.text
    c.ctx.fact(ischars(y)); c.ctx.fact(eq(lf('vsize', y), n)); c.ctx.fact(ite(or_(eq(x, src), le(n, lf('vsize', x))), eq(d, b), zv(d) != lf('data', src)))     # storage of its own; kept when it shrinks
    c.case('', ret=s, post=p)
sn(P + '6resizeEi', ['var', 'i32'], tx_resize)
for f in ('toupper', 'tolower', 'isspace'):
    def cc(c, f=f): c.require(and_(ge(c.a[0], -128), le(c.a[0], 255)), 'a character'); c.case('', ret=mapc(c.ctx, f, c.a[0]))
    sn(f, ['i32'], cc)
def mapc(ctx, f, v):
    r = lf(f, v)
    if f == 'isspace': ctx.fact(eq(lf(f, 0), 0))
    else: ctx.fact(ge(r, -128)); ctx.fact(le(r, 127))
    return r
def su_text(ex, a, st):
    su(ex, a, st); x = tid(st, a[1]); y = tid(st, a[2]); ex.text = x; ex.ctx.fact(ischars(x)); b = chars(ex.ctx, x); st.addkind(b, {K_DATA})
def ch(st, b, k): return st.read('i8', b, k)
def as_text(c):
    st = c.pre; x, y = tid(st, c.a[1]), tid(st, c.a[2])
    return [ischars(x)]
def written(c, p, b, n, f):
    p.m['i8'] = RangeS(p.m['i8'], lambda bb, o: and_(eq(bb, b), ge(o, 0), lt(o, n)), lambda bb, o: f(o), False, [b]); return p
def sp_case(f):
    def sp(c):
        th, v, o = c.a; st = c.pre; x, y = tid(st, v), tid(st, o); n = size(c, x); b = data(c, x)
        g = lambda k: mapc(c.ctx, f, ch(st, b, k))
        c.case('in place', eq(x, y), post=written(c, c.post(), b, n, g))
        z = c.unknown(lambda q: tid(q.st, o), 'result'); d = data(c, z); p = c.post(); put(p, o, z)
        c.case('to a string of its own', not_(eq(x, y)), post=written(c, p, d, n, g), ensures=[eq(lf('vsize', z), n), ischars(z), zv(d) != b])
    return sp
for f, cls in (('toupper', 'ToUpper'), ('tolower', 'ToLower')):
    sc('_ZNK6libube7%s6stringERKNS_3varERS1_' % cls, ['obj', 'var', 'var'], sp_case(f), setup=su_text, assumes=as_text)
# ---- white space
def space(ctx, v): return not_(eq(mapc(ctx, 'isspace', v), 0))
def lead(ctx, st, b, n, o):
    """the first position from o on that is no white space, or n"""
    r = app('lead', b, n, o); ctx.fact(eq(r, ite(and_(lt(o, n), space(ctx, ch(st, b, o))), app('lead', b, n, iadd(o, 1)), o))); return r
def trail(ctx, st, b, n, l, k):
    """the number of white spaces that end n characters (no more than n-l), k of them seen"""
    r = app('trail', b, n, l, k); ctx.fact(eq(r, ite(and_(lt(k, isub(n, l)), space(ctx, ch(st, b, isub(isub(n, k), 1)))), app('trail', b, n, l, iadd(k, 1)), k))); return r
def strip_terms(lv):
    ex = lv.ex; st = ex.st0; x = ex.text; b, n = lf('data', x), lf('vsize', x); return st, b, n
def cand_strip(lv):
    st, b, n = strip_terms(lv); ctx = lv.ex.ctx; out = []; l = lead(ctx, st, b, n, 0)
    for i in lv.phis:
        v = lv.vals.get(i.dst)
        if v is None or isinstance(v, Ptr) or i.ty.k != 'int': continue
        out += [and_(eq(lead(ctx, st, b, n, v), l), le(v, n)), and_(eq(trail(ctx, st, b, n, l, v), trail(ctx, st, b, n, l, 0)), le(v, isub(n, l)))]
        k = isub(n, v); out.append(and_(eq(trail(ctx, st, b, n, l, k), trail(ctx, st, b, n, l, 0)), ge(v, l)))      # counting down from the end
    return out
def exit_strip(lv):
    st, b, n = strip_terms(lv); ctx = lv.ex.ctx; l = lead(ctx, st, b, n, 0); t = trail(ctx, st, b, n, l, 0); return [l, t, isub(n, t)]
def sp_strip(c):
    th, v, o = c.a; st = c.pre; x, y = tid(st, v), tid(st, o); n = size(c, x); b = data(c, x)
    l = lead(c.ctx, st, b, n, 0); m = isub(isub(n, l), trail(c.ctx, st, b, n, l, 0)); g = lambda k: ch(st, b, iadd(l, k))
    bad = notchars(c, y); c.throws('the result is an array of something else', bad); same = eq(x, y); c.ctx.fact(implies(same, ischars(y))); z = c.unknown(lambda q: tid(q.st, o), 'result'); d = data(c, z)
    p = c.post(); put(p, o, z); c.case('in place', and_(same, not_(bad)), post=written(c, p, b, m, g), ensures=[eq(lf('vsize', z), m), ischars(z), eq(d, b), ge(m, 0)])
    p = c.post(); put(p, o, z); c.case('to a string of its own', and_(not_(same), not_(bad)), post=written(c, p, d, m, g), ensures=[eq(lf('vsize', z), m), ischars(z), zv(d) != b])
def su_strip(ex, a, st): su_text(ex, a, st); ex.st0 = st
sc('_ZNK6libube5Strip6stringERKNS_3varERS1_', ['obj', 'var', 'var'], sp_strip, setup=su_strip, assumes=as_text, excl=lambda ex, kind, b, o, pre: [and_(kind not in ('i8', 'lv', 'fr', 'gv'), eq(b, lf('data', ex.text)))], loops={None: {'cand': cand_strip, 'exit': exit_strip}})
# ---- splitting at a separator: piece k is the text from cut(k) to the occurrence of the separator found from there on
SPL = dict(STR)
def pn(name, args, spec, **k): SPL[name] = Contract(name + '@pieces', args, spec, **k)
def isout(c, s): return isc(s.b) and isc(c.ex.outslot.b) and s.b == c.ex.outslot.b
def p_ctor(c):
    r = c.a[0]; p = c.post(); put(p, r, 0); begin(c, r, p); c.case('', post=p)
def p_push(c):
    s, v = c.a; st = c.pre; c.require(isout(c, s), 'to the result'); p = c.post(); logput(p, st, tid(st, v)); c.case('', ret=s, post=p)
def p_size(c):
    if isout(c, c.a[0]): c.case('', ret=loglen(c.pre))
    else: t_get(lambda c: size(c, tid(c.pre, c.a[0])))(c)
pn(P + '4pushES0_', ['var', 'val'], p_push); pn(PK + '4sizeEv', ['var'], p_size)
def piece(n, o): return lf('piece', n, o)
def p_piece(c):
    r, n, q = c.a; c.require(eq(q.b, c.ex.src), 'part of the text'); p = c.post(); put(p, r, piece(n, q.o)); begin(c, r, p); c.case('', post=p)
pn(P + 'C2EiPKc', ['ctor', 'i32', 'ptr'], p_piece)
def rest(o): return lf('rest', o)
def p_rest(c):
    r, q = c.a; c.require(eq(q.b, c.ex.src), 'part of the text'); p = c.post(); put(p, r, rest(q.o)); begin(c, r, p); c.case('', post=p)
pn(P + 'C2EPKc', ['ctor', 'ptr'], p_rest)
def p_str(c): c.case('', ret=Ptr(c.ex.src, 0))
pn(PK + '3strEv', ['var'], p_str)
def find(ctx, o):
    """where the separator occurs first in the text from o on, or -1"""
    r = lf('find', o); ctx.fact(or_(eq(r, -1), ge(r, o))); ctx.fact(lt(isub(r, o), 1 << 30)); return r
def p_strstr(c):
    t, q = c.a; c.require(and_(eq(t.b, c.ex.src), ge(t.o, 0)), 'searching the text'); c.require(and_(eq(q.b, c.ex.sep.b), eq(q.o, c.ex.sep.o)), 'for the separator')
    r = find(c.ctx, t.o); c.case('found', ge(r, 0), ret=Ptr(c.ex.src, r)); c.case('not found', lt(r, 0), ret=NULL)
pn('strstr', ['ptr', 'ptr'], p_strstr)
def su_split(ex, a, st):
    su(ex, a, st); ex.outslot = a[0]; ex.src = z3.Int('textP'); ex.ctx.mark_ext(ex.src); ex.ctx.fact(ex.src >= 1); st.addkind(ex.src, {K_DATA}); ex.st0 = st; ex.sep = a[2]
def cut(ctx, n, L):
    r = lf('cut', n); ctx.fact(eq(lf('cut', 0), 0)); ctx.fact(implies(and_(ge(n, 0), ge(find(ctx, r), 0)), eq(lf('cut', iadd(n, 1)), iadd(find(ctx, r), L)))); return r
def sp_split(c):
    r, s, sep, mx = c.a; st = c.pre; L = strlen(st, sep); c.ctx.fact(ge(L, 0)); c.ctx.fact(lt(L, (1 << 31) - 1)); ctx = c.ctx
    whole = or_(eq(mx, 1), eq(L, 0)); p = c.post(); begin(c, r, p); put(p, r, 0); p.st('gv', LG, 0, rest(0)); p.st('i32', LG, 16, 1); c.case('the whole text', whole, post=p)
    N = c.unknown(lambda o: isub(loglen(o.st), 1), 'n'); k = cut(ctx, N, L); p = c.post(); begin(c, r, p); put(p, r, 0)
    p.m['gv'] = RangeS(p.m['gv'], (lambda b, o: and_(eq(b, LG), ge(o, 0), lt(o, N))), (lambda b, o: piece(isub(find(ctx, cut(ctx, o, L)), cut(ctx, o, L)), cut(ctx, o, L))), False, [LG])
    p.st('gv', LG, N, rest(k)); p.st('i32', LG, 16, iadd(N, 1)); full = lambda n: and_(not_(eq(mx, 0)), ge(n, isub(mx, 1)), ge(n, 1))
    c.case('the pieces, and what is left', not_(whole), post=p, ensures=[ge(N, 0), or_(full(N), lt(find(ctx, k), 0))], foralls=[(0, N, lambda q: and_(not_(full(q)), ge(find(ctx, cut(ctx, q, L)), 0)))])
def fun_split(lv):
    ex = lv.ex; st = ex.st0; return [Ptr(ex.src, cut(ex.ctx, lv.n, strlen(st, ex.sep)))]
def cand_split(lv): return [ge(lv.vals[i.dst].o, 0) for i in lv.phis if isinstance(lv.vals.get(i.dst), Ptr)]
sc(PK + '5splitEPKci', ['sret', 'var', 'ptr', 'i32'], sp_split, setup=su_split, local=SPL, loops={None: {'fun': fun_split, 'cand': cand_split}})
# ---- splitting at white space: piece k is the k-th maximal run of other characters
def tch(ctx, st, o): return st.read('i8', ctx.src, o)
def skip(ctx, st, o):
    """the first position from o on that is no white space"""
    r = app('skipspace', o); ctx.fact(eq(r, ite(space(ctx, tch(ctx, st, o)), app('skipspace', iadd(o, 1)), o))); return r
def wend(ctx, st, o):
    """the first position from o on that is white space or the end"""
    v = tch(ctx, st, o); r = app('wordend', o); ctx.fact(eq(r, ite(or_(eq(v, 0), space(ctx, v)), o, app('wordend', iadd(o, 1))))); ctx.fact(lt(isub(r, o), 1 << 30)); return r
def word(ctx, st, n):
    b = lf('word', n); ctx.fact(eq(lf('word', 0), skip(ctx, st, 0))); ctx.fact(implies(ge(n, 0), eq(lf('word', iadd(n, 1)), skip(ctx, st, wend(ctx, st, b))))); return b
def fun_words(lv): return [Ptr(lv.ex.src, word(lv.ex.ctx, lv.ex.st0, lv.n)), lv.n, 0]
def cand_words(lv):
    ex = lv.ex; st = ex.st0; ctx = ex.ctx; out = []
    for i in lv.phis:
        v, u = lv.vals.get(i.dst), lv.inits.get(i.dst)
        if not isinstance(v, Ptr): continue
        out += [eq(skip(ctx, st, v.o), skip(ctx, st, u.o)), eq(wend(ctx, st, v.o), wend(ctx, st, u.o)), not_(space(ctx, tch(ctx, st, v.o))), ge(v.o, 0), ge(v.o, u.o)]
    return out
def exit_words(lv):
    ex = lv.ex; st = ex.st0; out = []
    for i in lv.phis:
        u = lv.inits.get(i.dst)
        if isinstance(u, Ptr): out += [skip(ex.ctx, st, u.o), wend(ex.ctx, st, u.o)]
    return out
def sp_words(c):
    r, s, mx = c.a; st = c.pre; ctx = c.ctx; C = c.unknown(lambda o: loglen(o.st), 'count'); cut_ = c.unknown(lambda o: 'rest' in str(o.st.read('gv', LG, isub(loglen(o.st), 1))), 'limited')
    M = isub(C, 1) if cut_ is True else C; b = lambda n: word(ctx, st, n); p = c.post(); begin(c, r, p); put(p, r, 0); full = lambda n: and_(not_(eq(mx, 0)), ge(n, isub(mx, 1)), ge(n, 1))
    p.m['gv'] = RangeS(p.m['gv'], (lambda bb, o: and_(eq(bb, LG), ge(o, 0), lt(o, M))), (lambda bb, o: piece(isub(wend(ctx, st, b(o)), b(o)), b(o))), False, [LG])
    if cut_ is True: p.st('gv', LG, M, rest(b(M)))
    p.st('i32', LG, 16, C); end_ = eq(tch(ctx, st, b(M)), 0)
    c.case('the words', post=p, ensures=[ge(M, 0), and_(full(M), not_(end_)) if cut_ is True else end_], foralls=[(0, M, lambda q: (b(isub(q, 1)), b(q), not_(full(q)))[2]), (0, M, lambda q: and_(not_(eq(tch(ctx, st, b(q)), 0)), not_(space(ctx, tch(ctx, st, b(q)))))), (0, M, lambda q: gt(wend(ctx, st, b(q)), b(q)))])
sc(PK + '5splitEi', ['sret', 'var', 'i32'], sp_words, setup=lambda ex, a, st: (su_split(ex, a + [a[1]], st), setattr(ex.ctx, 'src', ex.src)), local=SPL, loops={None: {'fun': fun_words, 'cells': True, 'cand': cand_words, 'exit': exit_words}})
# ---- joining: the elements in order, the separator before all but the first
JOI = dict(STR)
def jn(name, args, spec, **k): JOI[name] = Contract(name + '@pieces', args, spec, **k)
def phase(st): return st.read('i32', LG, 20)
def total(st): return lf('total', loglen(st), phase(st))
def j_text(c):
    r, q = c.a; p = c.post(); put(p, r, 0 if isout(c, r) else lf('text', q)); begin(c, r, p); c.case('', post=p)
def j_size(c):
    if isout(c, c.a[0]): c.case('', ret=total(c.pre))
    else: c.case('', ret=size(c, tid(c.pre, c.a[0])))
def j_insert(c):
    s, v, i = c.a; st = c.pre; n = loglen(st); c.require(isout(c, s), 'into the result'); c.require(or_(eq(i, total(st)), and_(eq(i, 0), eq(n, 0), eq(phase(st), 0))), 'at the end')
    x = tid(st, v); sep = eq(x, c.ex.septext)
    p = c.post(); p.st('gv', LG, iadd(FB, n), x); p.st('i32', LG, 20, 1); c.require(or_(not_(sep), eq(phase(st), 0)), 'one separator at a time'); c.case('the separator', sep, ret=s, post=p)
    p = c.post(); p.st('gv', LG, n, x); p.st('i32', LG, 16, iadd(n, 1)); p.st('i32', LG, 20, 0); c.case('an element', not_(sep), ret=s, post=p)
jn(P + 'C2EPKc', ['ctor', 'ptr'], j_text); jn(PK + '4sizeEv', ['var'], j_size); jn(P + '6insertES0_i', ['var', 'val', 'i32'], j_insert)
def j_at(c):
    c.ctx.fact(not_(eq(lf('elem', tid(c.pre, c.a[1]), c.a[2]), c.ex.septext))); t_at(c)
jn(PK + '2atEi', ['sret', 'var', 'i32'], j_at)
def su_join(ex, a, st):
    su(ex, a, st); ex.outslot = a[0]; ex.septext = lf('text', a[2]); st.st('i32', LG, 20, 0)
def sp_join(c):
    r, s, sep = c.a; st = c.pre; x = tid(st, s); n = size(c, x); p = c.post(); begin(c, r, p); put(p, r, x); c.case('a string: itself', ischars(x), post=p)
    p = c.post(); begin(c, r, p); put(p, r, 0); T = c.ex.septext
    def el(k): c.ctx.fact(not_(eq(lf('elem', x, k), T))); return lf('elem', x, k)
    p.m['gv'] = RangeS(p.m['gv'], (lambda b, o: and_(eq(b, LG), ge(o, 0), lt(o, n))), (lambda b, o: el(o)), False, [LG])
    p.m['gv'] = RangeS(p.m['gv'], (lambda b, o: and_(eq(b, LG), ge(o, FB + 1), lt(o, iadd(FB, n)))), (lambda b, o: (el(isub(o, FB)), T)[1]), False, [LG])
    p.st('i32', LG, 16, n); c.case('the elements with separators between them', not_(ischars(x)), post=p)
sc(PK + '4joinEPKc', ['sret', 'var', 'ptr'], sp_join, setup=su_join, local=JOI, loops={None: {'fun': lambda lv: [0], 'cells': True}})
def lemma_rejoin():
    """pieces between successive separators, joined with it, are the text again"""
    T = z3.DeclareSort('Text'); cat = z3.Function('cat', T, T, T); sub = z3.Function('sub', I, I, T); sep = z3.Const('sep', T); cutf = z3.Function('cutp', I, I); f = z3.Function('at', I, I); J = z3.Function('joined', I, T); end = z3.Int('end')
    a, b, c_, k, N, L = z3.Ints('a b c k N L')
    hyps = [L > 0, cutf(0) == 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), z3.And(f(k) >= cutf(k), sub(f(k), f(k) + L) == sep, cutf(k + 1) == f(k) + L)), patterns=[cutf(k)]),
            z3.ForAll([a, b, c_], z3.Implies(z3.And(a <= b, b <= c_), cat(sub(a, b), sub(b, c_)) == sub(a, c_)), patterns=[cat(sub(a, b), sub(b, c_))]),
            J(0) == sub(0, f(0)), z3.ForAll([k], z3.Implies(k >= 0, J(k + 1) == cat(cat(J(k), sep), z3.If(k + 1 < N, sub(cutf(k + 1), f(k + 1)), sub(cutf(k + 1), end)))), patterns=[J(k)])]
    i = z3.Int('i')
    yield 'step', hyps + [0 <= i, i + 1 < N, J(i) == sub(0, f(i)), cutf(i) >= 0, f(i) >= 0], z3.And(J(i + 1) == sub(0, f(i + 1)), cutf(i + 1) >= 0)
    yield 'what is left', hyps + [N >= 1, J(N - 1) == sub(0, f(N - 1)), cutf(N - 1) >= 0, cutf(N) <= end, f(N - 1) >= 0], J(N) == sub(0, end)
CHECKS.append(Lemma('split and join', lemma_rejoin, ['C18']))
