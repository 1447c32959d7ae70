"""JSON text (C19): what is read from and written to a stream, character by character.

The input is a function of the position: ch(p) is the character at p, or -1 from the end on.  The position and whether
reading has failed are ghost state.  The output is a value: lf('pushed', o, c) is o with character c behind it, the same
way a string grows."""
from .config import *
from .config import P, PK, TEN, lfn, isref, value
JS = dict(CFG); JP = '_ZN6libube4JSON'
def jn(name, args, spec, **k): JS[name] = Contract(name + '@json', args, spec, **k)
POS, FAIL = 28, 36      # ghost cells at LG
def pos(st): return st.read('i64', LG, POS)
def failed(st): return not_(eq(st.read('i32', LG, FAIL), 0))
def ch(ctx, p):
    r = lf('ch', p); ctx.fact(and_(ge(r, -1), le(r, 255))); return r
def ch8(ctx, p): return wrap(ch(ctx, p), 8)
def space8(ctx, v): return not_(eq(lf('isspace', v), 0))
def now(ctx, st): return ite(failed(st), -1, ch(ctx, pos(st)))
def i_peek(c): c.case('', ret=now(c.ctx, c.pre))
jn('_ZNSi4peekEv', ['ptr'], i_peek)
def i_get(c):
    st = c.pre; r = now(c.ctx, st); e = eq(r, -1); p = c.post(); p.st('i64', LG, POS, ite(e, pos(st), iadd(pos(st), 1))); p.st('i32', LG, FAIL, ite(e, 1, st.read('i32', LG, FAIL))); c.case('', ret=r, post=p)
jn('_ZNSi3getEv', ['ptr'], i_get)
def i_getc(c):
    s, q = c.a; st = c.pre; r = now(c.ctx, st); e = eq(r, -1); p = c.post(); p.st('i32', LG, FAIL, 1); c.case('nothing left', e, ret=s, post=p)
    p = c.post(); p.st('i64', LG, POS, iadd(pos(st), 1)); p.st('i8', q.b, q.o, wrap(r, 8)); c.case('', not_(e), ret=s, post=p)
jn('_ZNSi3getERc', ['ptr', 'ptr'], i_getc)
jn('_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv', ['ptr'], lambda c: c.case('', ret=not_(failed(c.pre))))
jn('isspace', ['i32'], lambda c: c.case('', ret=lf('isspace', c.a[0])))
jn('_ZN6libube5errorC1ENS_3varE', ['ptr', 'val'], f_nothing)
# ---- constant text
def lit8(st, q):
    """the characters of a constant, or None"""
    out = []
    for i in range(40):
        v = norm(st.read('i8', q.b, iadd(q.o, i)))
        if not isc(v): return None
        if v == 0: return out
        out.append(v)
def push8(x, *cs):
    for v in cs: x = lf('pushed', x, num(1, v))
    return x
EMPTY = 7001        # the empty string
def j_text(c):
    r, q = c.a; s = lit8(c.pre, q); p = c.post(); begin(c, r, p); put(p, r, push8(EMPTY, *s) if s is not None else lf('text', q)); c.ctx.fact(not_(undef(EMPTY))); c.case('', post=p)
jn(P + 'C2EPKc', ['ctor', 'ptr'], j_text)
def j_push(c):
    s, v = c.a; st = c.pre; p = c.post(); put(p, s, lf('pushed', value(st, tid(st, s)), value(st, tid(st, v)))); c.case('', ret=s, post=p)
jn(P + '4pushES0_', ['var', 'val'], j_push)
def su_js(ex, a, st):
    su_cfg(ex, a, st); ctx = ex.ctx; ex.st0 = st.copy(); ex.osret = None
    ctx.fact(eq(lf('isspace', -1), 0))
def jf(name, args, spec, **k):
    return fc(name, args, spec, ['C19'], local=k.pop('local', JS), setup=k.pop('setup', su_js), assumes=k.pop('assumes', lambda c: [not_(failed(c.pre)), ge(pos(c.pre), 0), lt(pos(c.pre), 1 << 60)]), **k)
def at_(p, x): p.st('i64', LG, POS, x)
def gone(c):
    """after a refusal the position is anywhere"""
    p = c.post(); p.havoc('i64', LG, POS, 1); p.havoc('i32', LG, FAIL, 1); return p
# ---- white space
def skip(ctx, p):
    """the first position from p on that is not white space"""
    r = lf('skip', p); ctx.fact(eq(r, ite(space8(ctx, ch8(ctx, p)), lf('skip', iadd(p, 1)), p))); ctx.fact(ge(r, p)); ctx.fact(lt(r, 1 << 60)); return r
def s_peek(c):
    st = c.pre; q = skip(c.ctx, pos(st)); p = c.post(); at_(p, ite(failed(st), pos(st), q)); c.case('', ret=ite(failed(st), -1, ch8(c.ctx, q)), post=p)
def fun_peek(lv):
    ex = lv.ex; ctx = ex.ctx; p = iadd(pos(ex.st0), lv.n); return [ch(ctx, p), ch8(ctx, p), p, 0]
def cand_peek(lv):
    ex = lv.ex; ctx = ex.ctx; return [eq(skip(ctx, pos(lv.st)), skip(ctx, pos(ex.st0))), eq(lv.st.read('i32', LG, FAIL), 0)]
jf(JP + '4peekERSi', ['obj', 'ptr'], s_peek, loops={None: {'fun': fun_peek, 'cells': True, 'cand': cand_peek, 'exit': lambda lv: [skip(lv.ex.ctx, pos(lv.ex.st0))]}})
jn(JP + '4peekERSi', ['ptr', 'ptr'], s_peek)
# ---- escapes
def between(v, a, b): return and_(ge(v, ord(a)), le(v, ord(b)))
def hexok(v): return or_(between(v, '0', '9'), between(v, 'a', 'f'), between(v, 'A', 'F'))
def hexval(v): return ite(between(v, '0', '9'), isub(v, 48), ite(between(v, 'a', 'f'), isub(v, 87), isub(v, 55)))
def hex4ok(ctx, p): return and_(*[hexok(ch8(ctx, iadd(p, i))) for i in range(4)])
def hex4(ctx, p):
    r = 0
    for i in range(4): r = iadd(imul(r, 16), hexval(ch8(ctx, iadd(p, i))))
    return r
def s_hex(c):
    ctx = c.ctx; p0 = pos(c.pre); ok = and_(not_(failed(c.pre)), hex4ok(ctx, p0)); p = c.post(); at_(p, iadd(p0, 4)); c.throws('not four hexadecimal digits', not_(ok), post=gone(c)); c.case('their value', ok, ret=hex4(ctx, p0), post=p)
jf(JP + '5doHexERSi', ['obj', 'ptr'], s_hex, loops={None: {'mode': 'unroll'}})
jn(JP + '5doHexERSi', ['ptr', 'ptr'], s_hex)
def sr(v): return and_(ge(v, 0xD800), lt(v, 0xDC00))
def esc_ok(ctx, p):
    """a unicode escape whose digits start at p is well formed"""
    lo = hex4(ctx, iadd(p, 6)); pair = and_(eq(ch(ctx, iadd(p, 4)), ord('\\')), eq(ch(ctx, iadd(p, 5)), ord('u')), hex4ok(ctx, iadd(p, 6)), ge(lo, 0xDC00), le(lo, 0xDFFF))
    return and_(hex4ok(ctx, p), or_(not_(sr(hex4(ctx, p))), pair))
def code(ctx, p):
    v = hex4(ctx, p); return ite(sr(v), iadd(iadd(0x10000, imul(isub(v, 0xD800), 1024)), isub(hex4(ctx, iadd(p, 6)), 0xDC00)), v)
def utf8(ctx, x, v):
    """x with the UTF-8 encoding of code point v behind it"""
    s = lambda k: z3.ToInt(zv(v) / k) if False else zv(v) / k      # (integer division)
    b = lambda h, k, m=64: wrap(iadd(h, norm(s(k)) if m == 0 else norm(s(k) % m)), 8)
    return ite(lt(v, 0x80), push8(x, wrap(v, 8)), ite(lt(v, 0x800), push8(x, b(0xC0, 64, 0), b(0x80, 1)), ite(lt(v, 0x10000), push8(x, b(0xE0, 4096, 0), b(0x80, 64), b(0x80, 1)), push8(x, b(0xF0, 262144, 0), b(0x80, 4096), b(0x80, 64), b(0x80, 1)))))
def s_unicode(c):
    th, s, o = c.a; st = c.pre; ctx = c.ctx; p0 = pos(st); ok = and_(not_(failed(st)), esc_ok(ctx, p0)); p = c.post(); at_(p, iadd(p0, ite(sr(hex4(ctx, p0)), 10, 4))); put(p, o, utf8(ctx, value(st, tid(st, o)), code(ctx, p0)))
    c.throws('malformed', not_(ok), post=gone(c)); c.case('its UTF-8 encoding', ok, post=p)
jf(JP + '9doUnicodeERSiRNS_3varE', ['obj', 'ptr', 'var'], s_unicode)
# ---- strings: from position p to q, one character or escape at a time
QUOTE, BS = 34, 92
SIMPLE = {'"': 34, '\\': 92, '/': 47, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}
# within a string an escape is known by where its digits start: escok, esclen and escval abbreviate esc_ok, its length and utf8(code)
def escok(p): return lf('escok', p, ret=B)
def esclen(ctx, p):
    r = lf('esclen', p); ctx.fact(or_(eq(r, 4), eq(r, 10))); return r
def escval(x, p): return lf('escval', x, p)
def s_escape(c):
    th, s, o = c.a; st = c.pre; ctx = c.ctx; p0 = pos(st); ok = and_(not_(failed(st)), escok(p0)); p = c.post(); at_(p, iadd(p0, esclen(ctx, p0))); put(p, o, escval(value(st, tid(st, o)), p0))
    c.throws('malformed', not_(ok), post=gone(c)); c.case('its UTF-8 encoding', ok, post=p)
jn(JP + '9doUnicodeERSiRNS_3varE', ['ptr', 'ptr', 'var'], s_escape)
def step_ok(ctx, p):
    """what stands at p is a character, or a well formed escape"""
    e = ch(ctx, iadd(p, 1))
    return and_(not_(eq(ch(ctx, p), -1)), not_(eq(ch(ctx, p), QUOTE)), or_(not_(eq(ch(ctx, p), BS)), *([eq(e, ord(k)) for k in SIMPLE] + [and_(eq(e, ord('u')), escok(iadd(p, 2)))])))
def step_to(ctx, p):
    return ite(not_(eq(ch(ctx, p), BS)), iadd(p, 1), ite(eq(ch(ctx, iadd(p, 1)), ord('u')), iadd(iadd(p, 2), esclen(ctx, iadd(p, 2))), iadd(p, 2)))
def step_val(ctx, a, p):
    e = ch(ctx, iadd(p, 1)); r = escval(a, iadd(p, 2))
    for k, v in SIMPLE.items(): r = ite(eq(e, ord(k)), push8(a, v), r)
    return ite(not_(eq(ch(ctx, p), BS)), push8(a, ch8(ctx, p)), r)
def spos(ctx, p0, n):
    """where step n starts"""
    r = lf('strpos', p0, n); ctx.fact(eq(lf('strpos', p0, 0), iadd(p0, 1))); ctx.fact(implies(ge(n, 0), eq(lf('strpos', p0, iadd(n, 1)), step_to(ctx, r)))); ctx.fact(ge(r, 0)); ctx.fact(lt(r, 1 << 60)); return r
def sacc(ctx, p0, n):
    """what the first n steps stand for"""
    r = lf('stracc', p0, n); ctx.fact(eq(lf('stracc', p0, 0), EMPTY)); ctx.fact(implies(ge(n, 0), eq(lf('stracc', p0, iadd(n, 1)), step_val(ctx, r, spos(ctx, p0, n))))); return r
def count(o): return o.st.past[-1].n if o.st.past else -1
def s_string(c):
    r, th, s = c.a; st = c.pre; ctx = c.ctx; p0 = pos(st); N = c.unknown(count, 'n'); q = spos(ctx, p0, N); start = and_(not_(failed(st)), eq(ch(ctx, p0), QUOTE)); end_ = eq(ch(ctx, q), QUOTE)
    steps = [(0, N, lambda k: step_ok(ctx, spos(ctx, p0, k)))]
    p = c.post(); begin(c, r, p); put(p, r, sacc(ctx, p0, N)); at_(p, iadd(q, 1)); c.case('the characters', and_(start, end_), post=p, ensures=[ge(N, 0)], foralls=steps)
    c.case('no string', not_(start), kind='throw', post=gone(c)); c.case('malformed', and_(start, not_(end_)), kind='throw', post=gone(c), ensures=[ge(N, 0), not_(step_ok(ctx, q))], foralls=steps)
def fun_str(lv):
    ex = lv.ex; p0 = pos(ex.st0); return [0, spos(ex.ctx, p0, lv.n), sacc(ex.ctx, p0, lv.n)]
jf(JP + '8doStringERSi', ['sret', 'obj', 'ptr'], s_string, loops={None: {'fun': fun_str, 'cells': True}})
# ---- bare words and numbers
DELIM = [ord(k) for k in ',[]{}'] + [0]
def rawch(ctx, p):
    """what stands at p belongs to a bare word"""
    v = ch8(ctx, p); return and_(not_(eq(ch(ctx, p), -1)), not_(space8(ctx, v)), *[not_(eq(v, k)) for k in DELIM])
def racc(ctx, p0, n):
    r = lf('rawacc', p0, n); ctx.fact(eq(lf('rawacc', p0, 0), EMPTY)); ctx.fact(implies(ge(n, 0), eq(lf('rawacc', p0, iadd(n, 1)), push8(r, ch8(ctx, iadd(p0, n)))))); return r
def j_strchr(c):
    q, v = c.a; s = lit8(c.pre, q); c.require(s is not None, 'a constant'); h = or_(*[eq(wrap(v, 8), k) for k in s + [0]]); c.case('there', h, ret=q); c.case('not there', not_(h), ret=NULL)
RAW = dict(JS)
def rn(name, args, spec): RAW[name] = Contract(name + '@json', args, spec)
rn('strchr', ['ptr', 'i32'], j_strchr)
rn('_ZNSt11char_traitsIcE3eofEv', [], lambda c: c.case('', ret=-1))
def r_push(c):
    # a string takes characters: an int that is pushed is cast
    s, v = c.a; st = c.pre; x = value(st, tid(st, v)); p = c.post()
    if lfn(x).startswith('number') and x.num_args() == 2: x = num(1, wrap(norm(x.arg(1)), 8))
    put(p, s, lf('pushed', value(st, tid(st, s)), x)); c.case('', ret=s, post=p)
rn(P + '4pushES0_', ['var', 'val'], r_push)
rn(PK + 'eqES0_', ['var', 'val'], lambda c: c.case('', ret=lf('equal', value(c.pre, tid(c.pre, c.a[0])), value(c.pre, tid(c.pre, c.a[1])), ret=B)))
def numeric(x, k): return lf('numeric%d' % k, x, ret=B)     # the whole text is one number of type k
def numval(ctx, x, k): return castv(WithCtx(ctx), k, lf('numval', x))
class WithCtx:
    def __init__(self, ctx): self.ctx = ctx
def number_of(ctx, x): return ite(numeric(x, 3), num(3, numval(ctx, x, 3)), ite(numeric(x, 5), num(5, numval(ctx, x, 5)), 0))
def r_number(c):
    r, s = c.a; x = value(c.pre, tid(c.pre, s)); p = c.post(); begin(c, r, p); v = number_of(c.ctx, x); put(p, r, v); c.ctx.fact(eq(undef(v), not_(or_(numeric(x, 3), numeric(x, 5))))); c.case('', post=p)
rn('_Z8toNumberN6libube3varE', ['sret', 'val'], r_number)
rn(P + '6appendES0_', ['var', 'val'], lambda c: c.case('', ret=c.a[0], post=(lambda p: (put(p, c.a[0], lf('appended', tid(c.pre, c.a[0]), tid(c.pre, c.a[1]))), p)[1])(c.post())))
WORDS = {'true': num(2, 1), 'false': num(2, 0), 'null': 0}
def word(w): return push8(EMPTY, *[ord(k) for k in w])
def s_raw(c):
    r, th, s = c.a; st = c.pre; ctx = c.ctx; p0 = pos(st); N = c.unknown(count, 'n'); x = racc(ctx, p0, N); p = c.post(); at_(p, iadd(p0, N)); e = p.copy(); begin(c, r, p)
    is_ = {w: lf('equal', x, word(w), ret=B) for w in WORDS}; v = number_of(ctx, x); bad = and_(not_(numeric(x, 3)), not_(numeric(x, 5)), *[not_(k) for k in is_.values()])
    for w in reversed(list(WORDS)): v = ite(is_[w], WORDS[w], v)
    ens = [ge(N, 0), not_(rawch(ctx, iadd(p0, N)))]; fa = [(0, N, lambda k: rawch(ctx, iadd(p0, k)))]
    put(p, r, v); c.case('the literal, or the number', not_(bad), post=p, ensures=ens, foralls=fa); c.case('neither', bad, kind='throw', post=e, ensures=ens, foralls=fa)
def fun_raw(lv):
    ex = lv.ex; p0 = pos(ex.st0); return [0, iadd(p0, lv.n), racc(ex.ctx, p0, lv.n), ch(ex.ctx, iadd(p0, lv.n))]
jf(JP + '5doRawERSi', ['sret', 'obj', 'ptr'], s_raw, local=RAW, loops={None: {'fun': fun_raw, 'cells': True}})
# a number: the text is read as a long from its start, and then, from its start again, as a double (trusted: what the library reads)
TXT, RPOS, RFAIL, REND = 70, 48, 52, 56
NUM = dict(JS)
def nn(name, args, spec): NUM[name] = Contract(name + '@json', args, spec)
def n_begin(c):
    p = c.post(); p.st('gv', LG, TXT * FB, tid(c.pre, c.a[1])); p.st('i32', LG, RPOS, 0); p.st('i32', LG, RFAIL, 0); p.st('i32', LG, REND, 0); c.case('', post=p)
for n in ('_ZN6libube9varstreamC1ENS_3varE', '_ZN6libube9varstreamC2ENS_3varE'): nn(n, ['ptr', 'val'], n_begin)
def n_end(c): p = c.post(); p.havoc('gv', LG, TXT * FB, 1); c.case('', post=p)
for n in ('_ZN6libube9varstreamD1Ev', '_ZN6libube9varstreamD2Ev'): nn(n, ['ptr'], n_end)
def n_read(k):
    def sp(c):
        s, q = c.a; st = c.pre; x = st.read('gv', LG, TXT * FB); c.require(and_(eq(st.read('i32', LG, RPOS), 0), eq(st.read('i32', LG, RFAIL), 0)), 'reading from the start')
        f = lf('reads%d' % k, x); e = lf('readsall%d' % k, x); p = c.post(); p.st('i32', LG, RPOS, 1); p.st('i32', LG, RFAIL, ite(eq(f, 0), 1, 0)); p.st('i32', LG, REND, e); p.st('i64' if k == 3 else 'f64', q.b, q.o, numval(c.ctx, x, k))
        c.ctx.fact(eq(numeric(x, k), and_(not_(eq(f, 0)), not_(eq(e, 0))))); c.case('', ret=s, post=p)
    return sp
nn('_ZNSirsERl', ['ptr', 'ptr'], n_read(3)); nn('_ZNSirsERd', ['ptr', 'ptr'], n_read(5))
nn('_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv', ['ptr'], lambda c: c.case('', ret=not_(eq(c.pre.read('i32', LG, RFAIL), 0))))
def n_peek(c):
    e = not_(eq(c.pre.read('i32', LG, REND), 0)); v = c.ctx.fresh('peek'); c.ctx.fact(and_(ge(v, 0), le(v, 255))); c.case('', ret=ite(e, -1, v))
nn('_ZNSi4peekEv', ['ptr'], n_peek); nn('_ZNSt11char_traitsIcE3eofEv', [], lambda c: c.case('', ret=-1))
def n_clear(c):
    p = c.post(); p.st('i32', LG, RFAIL, 0); c.case('', post=p)
nn('_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate', ['ptr', 'i32'], n_clear)
def n_seek(c):
    p = c.post(); p.st('i32', LG, RPOS, ite(eq(c.a[1], 0), 0, 1)); c.case('', ret=c.a[0], post=p)
def s_number(c):
    r, s = c.a; p = c.post(); begin(c, r, p); put(p, r, number_of(c.ctx, tid(c.pre, s))); p.havoc('gv', LG, TXT * FB, 1)
    for f in (RPOS, RFAIL, REND): p.havoc('i32', LG, f, 1)
    c.case('the number that all of the text is', post=p)
nn('_ZNSi5seekgESt4fposI11__mbstate_tE', ['ptr', 'i64', 'i64'], n_seek)
jf('_Z8toNumberN6libube3varE', ['sret', 'val'], s_number, local=NUM)
# ---- values: what stands at a position, and where it ends (the contract of each part says which)
def part(nm):
    """what is read from position p: whether it is well formed, the value, the position behind it"""
    def use(c):
        r, th, s = c.a; p0 = pos(c.pre); ok = and_(not_(failed(c.pre)), well(nm, p0)); p = c.post(); begin(c, r, p); at_(p, behind(c.ctx, nm, p0)); put(p, r, lf('val_' + nm, p0))
        c.throws('malformed', not_(ok), post=gone(c)); c.case('', ok, post=p)
    return use
def well(nm, p): return lf('well_' + nm, p, ret=B)
def behind(ctx, nm, p):
    r = lf('behind_' + nm, p); ctx.fact(ge(r, 0)); ctx.fact(lt(r, 1 << 60)); return r
VAL = dict(JS)
for nm, f in (('object', '8doObject'), ('array', '7doArray'), ('string', '8doString'), ('raw', '5doRaw'), ('value', '7doValue')): VAL[JP + f + 'ERSi'] = Contract(JP + f + 'ERSi@json', ['sret', 'ptr', 'ptr'], part(nm))
def s_value(c):
    r, th, s = c.a; ctx = c.ctx; q = skip(ctx, pos(c.pre)); v = ch8(ctx, q); other = True
    for nm, k in (('object', '{'), ('array', '['), ('string', '"'), ('raw', None)):
        g = and_(other, eq(v, ord(k))) if k else other; other = and_(other, not_(eq(v, ord(k)))) if k else other
        p = c.post(); begin(c, r, p); at_(p, behind(ctx, nm, q)); put(p, r, lf('val_' + nm, q)); w = well(nm, q); c.case('the ' + nm, and_(g, w), post=p); c.throws('malformed ' + nm, and_(g, not_(w)), post=gone(c))
jf(JP + '7doValueERSi', ['sret', 'obj', 'ptr'], s_value, local=VAL)
def s_top(c):
    r, th, s = c.a; p0 = pos(c.pre); p = c.post(); begin(c, r, p); at_(p, behind(c.ctx, 'value', p0)); put(p, r, lf('val_value', p0)); w = well('value', p0); c.case('the value', w, post=p); c.throws('malformed', not_(w), post=gone(c))
jf(JP + 'clERSi', ['sret', 'obj', 'ptr'], s_top, local=VAL)
TOP = dict(JS); TOP[JP + 'clERSi'] = Contract(JP + 'clERSi@json', ['sret', 'ptr', 'ptr'], part('value'))
def s_in(c):
    s, v = c.a; p0 = pos(c.pre); p = c.post(); at_(p, behind(c.ctx, 'value', p0)); put(p, v, lf('val_value', p0)); w = well('value', p0); c.case('the value', w, ret=s, post=p); c.throws('malformed', not_(w), post=gone(c))
jf('_ZN6libubersERSiRNS_3varE', ['ptr', 'var'], s_in, local=TOP)
# ---- arrays
NOELEM, NOENTRY = 7002, 7003        # an empty array of var; an empty map
ARR = dict(VAL)
def an(name, args, spec): ARR[name] = Contract(name + '@json', args, spec)
def a_resize(c):
    s, n = c.a; c.require(and_(eq(tid(c.pre, s), 0), eq(n, 0)), 'made empty'); p = c.post(); put(p, s, NOELEM); c.case('', ret=s, post=p)
an(P + '6resizeEi', ['var', 'i32'], a_resize)
an(JP + '7doDenseENS_3varE', ['sret', 'ptr', 'val'], t_new(lambda c: lf('dense', tid(c.pre, c.a[2]))))
def rec(ctx, nm, *a, start, step):
    """a sequence defined by its first element and the step from one to the next"""
    *a, n = a; r = lf(nm, *a, n); ctx.fact(eq(lf(nm, *a, 0), start)); s = step(r); ctx.fact(implies(ge(n, 0), eq(lf(nm, *a, iadd(n, 1)), s))); return r
def item(ctx, p0, n):
    """where element n is read: behind the bracket, then behind each comma"""
    r = rec(ctx, 'itempos', p0, n, start=skip(ctx, iadd(p0, 1)), step=lambda r: iadd(skip(ctx, behind(ctx, 'value', r)), 1)); ctx.fact(ge(r, 0)); ctx.fact(lt(r, 1 << 60)); return r
def items(ctx, p0, n): return rec(ctx, 'items', p0, n, start=NOELEM, step=lambda r: lf('pushed', r, lf('val_value', item(ctx, p0, n))))
def sep(ctx, p0, n): return ch8(ctx, skip(ctx, behind(ctx, 'value', item(ctx, p0, n))))
def s_array(c):
    r, th, s = c.a; ctx = c.ctx; p0 = pos(c.pre); N = c.unknown(count, 'n'); start = eq(ch(ctx, p0), ord('[')); q0 = skip(ctx, iadd(p0, 1)); empty = and_(start, eq(ch8(ctx, q0), ord(']'))); on = and_(start, not_(empty)); pN = item(ctx, p0, N)
    ctx.fact(eq(item(ctx, p0, 0), q0)); items(ctx, p0, N); fin = and_(well('value', pN), eq(sep(ctx, p0, N), ord(']'))); more = lambda k: and_(well('value', item(ctx, p0, k)), eq(sep(ctx, p0, k), ord(',')))
    p = c.post(); begin(c, r, p); at_(p, iadd(q0, 1)); put(p, r, NOELEM); c.case('empty', empty, post=p); c.throws('no array', not_(start), post=gone(c))
    p = c.post(); begin(c, r, p); at_(p, iadd(skip(ctx, behind(ctx, 'value', pN)), 1)); put(p, r, lf('dense', items(ctx, p0, iadd(N, 1)))); c.case('the elements, in order', and_(on, fin), post=p, ensures=[ge(N, 0)], foralls=[(0, N, more)])
    c.case('malformed', and_(on, not_(fin)), kind='throw', post=gone(c), ensures=[ge(N, 0), not_(more(N))], foralls=[(0, N, more)])
def fun_arr(lv):
    ex = lv.ex; ctx = ex.ctx; p0 = pos(ex.st0); return [0, item(ctx, p0, lv.n), items(ctx, p0, lv.n)]
jf(JP + '7doArrayERSi', ['sret', 'obj', 'ptr'], s_array, local=ARR, loops={None: {'fun': fun_arr, 'cells': True}})
# ---- objects
OBJ = dict(VAL)
def on_(name, args, spec): OBJ[name] = Contract(name + '@json', args, spec)
def o_index(c):
    r, s, k = c.a; st = c.pre; kv = value(st, tid(st, k)); p = c.post(); begin(c, r, p)
    if eq(kv, 0) is True or eq(kv, nilv(c)) is True:   # the entry of nil is none: an undefined var becomes an empty map
        c.require(eq(tid(st, s), 0), 'undefined'); put(p, s, NOENTRY); put(p, r, lf('none')); c.case('', post=p); return
    kk = key(kv); put(p, r, ref(s, [kk])); put(p, s, touch(c.ctx, tid(st, s), [kk])); c.case('', post=p)
on_(P + 'ixES0_', ['sret', 'var', 'val'], o_index)
def keypos(ctx, p0, n):
    """where key n is looked for: behind the brace, then behind each comma"""
    r = rec(ctx, 'keypos', p0, n, start=skip(ctx, iadd(p0, 1)), step=lambda r: iadd(osep(ctx, r), 1)); ctx.fact(ge(r, 0)); ctx.fact(lt(r, 1 << 60)); return r
def okey(ctx, r): return skip(ctx, r)
def ocolon(ctx, r): return skip(ctx, behind(ctx, 'string', okey(ctx, r)))
def ovalue(ctx, r): return iadd(ocolon(ctx, r), 1)
def osep(ctx, r): return skip(ctx, behind(ctx, 'value', ovalue(ctx, r)))
def okentry(ctx, r): return and_(eq(ch8(ctx, okey(ctx, r)), QUOTE), well('string', okey(ctx, r)), eq(ch8(ctx, ocolon(ctx, r)), ord(':')), well('value', ovalue(ctx, r)))
def entries(ctx, p0, n): return rec(ctx, 'entries', p0, n, start=NOENTRY, step=lambda m: setm(ctx, m, [key(lf('val_string', okey(ctx, keypos(ctx, p0, n))))], lf('val_value', ovalue(ctx, keypos(ctx, p0, n)))))
def s_object(c):
    r, th, s = c.a; ctx = c.ctx; p0 = pos(c.pre); N = c.unknown(count, 'n'); start = eq(ch(ctx, p0), ord('{')); q0 = skip(ctx, iadd(p0, 1)); empty = and_(start, eq(ch8(ctx, q0), ord('}'))); on = and_(start, not_(empty)); kN = keypos(ctx, p0, N)
    entries(ctx, p0, N); fin = and_(okentry(ctx, kN), eq(ch8(ctx, osep(ctx, kN)), ord('}'))); more = lambda k: and_(okentry(ctx, keypos(ctx, p0, k)), eq(ch8(ctx, osep(ctx, keypos(ctx, p0, k))), ord(',')))
    ctx.fact(eq(skip(ctx, q0), q0)); ctx.fact(eq(keypos(ctx, p0, 0), q0))
    p = c.post(); begin(c, r, p); at_(p, iadd(q0, 1)); put(p, r, NOENTRY); c.case('empty', empty, post=p); c.throws('no object', not_(start), post=gone(c))
    p = c.post(); begin(c, r, p); at_(p, iadd(osep(ctx, kN), 1)); put(p, r, entries(ctx, p0, iadd(N, 1))); c.case('the entries, in order', and_(on, fin), post=p, ensures=[ge(N, 0)], foralls=[(0, N, more)])
    c.case('malformed', and_(on, not_(fin)), kind='throw', post=gone(c), ensures=[ge(N, 0), not_(more(N))], foralls=[(0, N, more)])
def fun_obj(lv):
    ex = lv.ex; ctx = ex.ctx; p0 = pos(ex.st0); n = lv.n; return [0, keypos(ctx, p0, n), entries(ctx, p0, n), ite(eq(n, 0), 0, lf('val_string', okey(ctx, keypos(ctx, p0, isub(n, 1)))))]
jf(JP + '8doObjectERSi', ['sret', 'obj', 'ptr'], s_object, local=OBJ, loops={None: {'fun': fun_obj, 'cells': True}})
# ---- dense arrays
DEN = dict(JS)
def dn(name, args, spec): DEN[name] = Contract(name + '@json', args, spec)
def vt(ctx, x): return vtype(WithCtx(ctx), x)
dn(PK + '2atEi', ['sret', 'var', 'i32'], t_at); dn(P + '11dereferenceEv', ['var'], lambda c: c.case('', ret=c.a[0], post=c.post()))
def d_array(c):
    s = c.a[0]; p = c.post(); put(p, s, lf('asarray', tid(c.pre, s))); c.case('', ret=s, post=p)
dn(P + '5arrayEv', ['var'], d_array)
def dense(ctx, x, n):
    """element 0 as an array, with elements 1 to n behind it"""
    return rec(ctx, 'packed', x, n, start=lf('asarray', lf('elem', x, 0)), step=lambda r: lf('pushed', r, lf('elem', x, iadd(n, 1))))
def s_dense(c):
    r, th, s = c.a; ctx = c.ctx; x = tid(c.pre, s); n = size(c, x); N = c.unknown(lambda o: o.st.past[0].n if o.st.past else -1, 'alike'); t0 = vt(ctx, lf('elem', x, 0)); k = isub(n, 1); dense(ctx, x, k)
    same_ = and_(eq(N, n), gt(n, 0)); alike = (0, N, lambda i: and_(eq(vt(ctx, lf('elem', x, i)), t0), not_(eq(t0, 0))))
    p = c.post(); begin(c, r, p); put(p, r, dense(ctx, x, k)); c.case('all of one builtin type: packed', same_, post=p, foralls=[alike])
    p = c.post(); begin(c, r, p); put(p, r, x); c.case('as it is', not_(same_), post=p, ensures=[or_(eq(n, 0), and_(ge(N, 0), lt(N, n), or_(eq(t0, 0), not_(eq(vt(ctx, lf('elem', x, N)), t0)))))])
def fun_dense(lv):
    ex = lv.ex; x = tid(ex.st0, ex.arr); return [0, dense(ex.ctx, x, lv.n)]
def su_dense(ex, a, st): su_js(ex, a, st); ex.arr = a[2]; ex.ctx.fact(eq(T_ARRAY, 0)) if 'T_ARRAY' in globals() else None
jf(JP + '7doDenseENS_3varE', ['sret', 'obj', 'val'], s_dense, local=DEN, setup=su_dense, loops={None: {'fun': fun_dense, 'cells': True}})
# ------------------------------------------------------------------ what is written
OUT = 80        # the text written so far: ('gv', LG, OUT)
def out(st): return st.read('gv', LG, OUT * FB)
def to(p, x): p.st('gv', LG, OUT * FB, x)
FMT = dict(JS)
def wn(name, args, spec): FMT[name] = Contract(name + '@json', args, spec)
def wrote(x, *v): return lf('wrote%d' % len(flat(*v)), x, *flat(*v))
def w_text(c):
    s, q = c.a; t = lit8(c.pre, q); p = c.post(); c.require(t is not None, 'a constant'); to(p, push8(out(c.pre), *(t or []))); c.case('', ret=s, post=p)
def w_char(c):
    s, v = c.a; p = c.post(); to(p, push8(out(c.pre), v)); c.case('', ret=s, post=p)
wn('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc', ['ptr', 'ptr'], w_text); wn('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c', ['ptr', 'i8'], w_char)
def w_num(k):
    def sp(c):
        s, v = c.a; p = c.post(); to(p, wrote(out(c.pre), k, v)); c.case('', ret=s, post=p)
    return sp
def hexdigit(v): return ite(lt(v, 10), iadd(v, 48), iadd(v, 87))
def esc(v):
    """how byte v (-128 to 127) is written: the conditions, and the characters"""
    out_ = [(eq(v, b), [BS, ord(k)]) for k, b in SIMPLE.items() if k != '/']
    out_.append((and_(ge(v, 0), lt(v, 32)), [BS, ord('u'), 48, 48, hexdigit(norm(zv(v) / 16)), hexdigit(norm(zv(v) % 16))])); out_.append((True, [v])); return out_
def escaped(x, v):
    r = None
    for g, cs in reversed(esc(v)): r = push8(x, *cs) if r is None else ite(g, push8(x, *cs), r)
    return r
def quoted(ctx, st, q, o, n):
    """o, a quote, and the first n bytes at q, each escaped where it has to be"""
    return rec(ctx, 'quoted', q.b, q.o, o, n, start=push8(o, QUOTE), step=lambda r: escaped(r, st.read('i8', q.b, iadd(q.o, n))))
def s_fstring(c):
    th, s, q, n = c.a; st = c.pre; m = ite(lt(n, 0), 0, n); p = c.post(); to(p, push8(quoted(c.ctx, st, q, out(st), m), QUOTE)); quoted(c.ctx, st, q, out(st), isub(m, 1)); c.case('the string, quoted', post=p)
def fun_fs(lv):
    ex = lv.ex; return [quoted(ex.ctx, ex.st0, ex.arg, out(ex.st0), lv.n)]
def su_fs(ex, a, st): su_js(ex, a, st); ex.arg = a[2]
jf(JP + '12formatStringERSoPKci', ['obj', 'ptr', 'ptr', 'i32'], s_fstring, local=FMT, setup=su_fs, loops={None: {'fun': fun_fs, 'cells': True}})
def lemma_strings():
    """what formatString writes for a byte, doString reads as that byte, and goes on behind it; the text is a valid JSON string"""
    class Facts:
        def __init__(self): self.l = []
        def fact(self, f):
            f = norm(f)
            if f is not True: self.l.append(zv(f))
    v, p, a, k, p0 = z3.Ints('v p a k p0'); q = p + 2; other = True
    for i, (g, cs) in enumerate(esc(v)):
        g = and_(other, g); other = and_(other, not_(esc(v)[i][0])); ctx = Facts(); h = [v >= -128, v <= 127, p >= 0, k >= 0, zv(g)] + [ch(ctx, p + j) == zv(x) % 256 for j, x in enumerate(cs)]
        s_ = hex4(ctx, q); h += [escok(q) == zv(esc_ok(ctx, q)), zv(esclen(ctx, q)) == zv(ite(sr(s_), 10, 4)), escval(a, q) == zv(utf8(ctx, a, code(ctx, q)))]
        h += [zv(spos(ctx, p0, k)) == p, zv(sacc(ctx, p0, k)) == a]; nm = 'byte class %d: ' % i; f = list(ctx.l); h += f
        ctx2 = Facts(); ok, to_, vl = step_ok(ctx2, p), spos(ctx2, p0, k + 1), sacc(ctx2, p0, k + 1); h += ctx2.l
        yield nm + 'well formed', h, zv(ok)
        yield nm + 'read up to the next byte', h, zv(to_) == p + len(cs)
        yield nm + 'the same byte', h, zv(vl) == zv(push8(a, v))
        yield nm + 'no raw control character or quote', h, z3.And(*[ch(Facts(), p + j) >= 32 for j in range(len(cs))] + [ch(Facts(), p) != QUOTE])
    yield 'every byte is in one class', [], zv(or_(*[g for g, _ in esc(v)]))
    ctx = Facts(); e = step_ok(ctx, p); yield 'the closing quote ends the string', ctx.l + [ch(ctx, p) == QUOTE], zv(not_(e))
CHECKS.append(Lemma('strings written are read back', lemma_strings, ['C19']))
# ---- values
JF = JP + '6formatERSoNS_3varEi'; JA = JP + '11formatArrayERSoNS_3varEi'; JV = JP + '10formatViewERSoNS_3varEi'
FM_ = dict(FMT)
def fn2(name, args, spec): FM_[name] = Contract(name + '@json', args, spec)
def w_part(nm):
    def sp(c):
        th, s, v, n = c.a; p = c.post(); to(p, lf(nm, out(c.pre), value(c.pre, tid(c.pre, v)), n)); c.case('', post=p)
    return sp
fn2(JF, ['ptr', 'ptr', 'val', 'i32'], w_part('fmt')); fn2(JA, ['ptr', 'ptr', 'val', 'i32'], w_part('fmtarray')); fn2(JV, ['ptr', 'ptr', 'val', 'i32'], w_part('fmtview'))
def w_var(c):
    s, v = c.a; p = c.post(); to(p, lf('fmt', out(c.pre), value(c.pre, tid(c.pre, v)), 0)); c.case('', ret=s, post=p)
fn2('_ZN6libubelsERSoNS_3varE', ['ptr', 'val'], w_var)
for n, k in (('_ZNSolsEi', 2), ('_ZNSolsEl', 3), ('_ZNSolsEf', 4), ('_ZNSolsEd', 5)): fn2(n, ['ptr', AK[k][0]], w_num(k))
for n, k in (('f', 6), ('d', 7)):
    def w_cx(c, k=k):
        s, q = c.a; p = c.post(); to(p, wrote(out(c.pre), k, cx(c.pre, q, k))); c.case('', ret=s, post=p)
    fn2('_ZStlsI%scSt11char_traitsIcEERSt13basic_ostreamIT0_T1_ES6_RKSt7complexIT_E' % n, ['ptr', 'ptr'], w_cx)
def w_heap(c):
    x = tid(c.pre, c.a[0]); h = lf('heapof', x); c.ctx.mark_ext(h); c.ctx.fact(ge(h, 0)); c.case('', ret=Ptr(h, 0))
fn2(PK + '4heapEv', ['var'], w_heap); fn2(PK + '4viewEv', ['var'], t_get(lambda c: lf('isview', tid(c.pre, c.a[0]), ret=B)))
def s_format(c):
    th, s, v, n = c.a; st = c.pre; ctx = c.ctx; x = tid(st, v); t = vt(ctx, x); o = out(st); arr = eq(t, 0); h = lf('heapof', x); ctx.fact(ge(h, 0)); full = not_(eq(h, 0)); vw = lf('isview', x, ret=B)
    def case(nm, g, y): p = c.post(); to(p, y); c.case(nm, g, post=p)
    case('undefined', and_(arr, not_(full)), push8(o, *b'null')); case('a view', and_(arr, full, vw), lf('fmtview', o, x, n)); case('an array', and_(arr, full, not_(vw)), lf('fmtarray', o, x, n))
    case('a character', eq(t, 1), push8(o, 39, getv(c, 1, x), 39))
    for k in (2, 3, 4, 5, 6): case('a number', eq(t, k), wrote(o, k, getv(c, k, x)))
    c.case('not writable', gt(t, 6), kind='throw')
jf(JF, ['obj', 'ptr', 'val', 'i32'], s_format, local=FM_)
def s_out(c):
    s, v = c.a; p = c.post(); to(p, lf('fmt', out(c.pre), tid(c.pre, v), 0)); c.case('the text', ret=s, post=p)
jf('_ZN6libubelsERSoNS_3varE', ['ptr', 'val'], s_out, local={k: v for k, v in FM_.items() if k != '_ZN6libubelsERSoNS_3varE'})
# ---- arrays and maps
def spaces(ctx, o, n): return rec(ctx, 'spaces', o, n, start=o, step=lambda r: push8(r, 32))
def pad(ctx, o, n):
    spaces(ctx, o, n); return spaces(ctx, o, ite(lt(n, 0), 0, n))
def members(c, x, o, ind, n):
    """o, and the first n entries of map x, each on its own line, with commas between them"""
    ctx = c.ctx; N = size(c, x)
    def step(r):
        r = pad(ctx, push8(r, 10), iadd(ind, 2)); r = push8(lf('fmt', r, mkey(x, n), 0), 58, 32); r = lf('fmt', r, lf('elem', x, n), iadd(ind, 2)); return ite(lt(n, isub(N, 1)), push8(r, 44), r)
    return rec(ctx, 'members', x, o, ind, n, start=push8(o, 123), step=step)
def lines(c, x, o, ind, n, f, nm):
    ctx = c.ctx; N = size(c, x)
    def step(r):
        r = f(pad(ctx, r, iadd(ind, 2)), n); return push8(ite(lt(n, isub(N, 1)), push8(r, 44), r), 10)
    return rec(ctx, nm, x, o, ind, n, start=push8(o, 91, 10), step=step)
def elems(c, x, o, ind, n): return lines(c, x, o, ind, n, lambda r, i: lf('fmt', r, lf('elem', x, i), iadd(ind, 2)), 'elems')
def complexes(c, st, x, o, ind, n): return lines(c, x, o, ind, n, lambda r, i: wrote(r, 7, cx(st, Ptr(data(c, x), imul(i, 16)), 7)), 'complexes')
def row(c, x, o, n): return rec(c.ctx, 'row', x, o, n, start=push8(o, 91), step=lambda r: lf('fmt', ite(eq(n, 0), r, push8(r, 44, 32)), lf('elem', x, n), 0))
def s_farray(c):
    th, s, v, ind = c.a; st = c.pre; ctx = c.ctx; x = tid(st, v); o = out(st); n = size(c, x); t = atype(c, x); d = data(c, x); u = undef(x); q = Ptr(d, 0); k = isub(n, 1); ctx.fact(implies(not_(u), lf('hasheap', x, ret=B)))
    def case(nm, g, y): p = c.post(); to(p, y); c.case(nm, and_(not_(u), g), post=p)
    c.throws('undefined', u)
    quoted(ctx, st, q, o, k); case('a string', eq(t, 1), push8(quoted(ctx, st, q, o, n), QUOTE))
    ctx.fact(ge(n, 0)); members(c, x, o, ind, k); m = members(c, x, o, ind, n); case('a map', eq(t, TYPE_PAIR), push8(ite(eq(n, 0), m, pad(ctx, push8(m, 10), ind)), 125))
    elems(c, x, o, ind, k); case('an array of values', eq(t, TYPE_VAR), push8(pad(ctx, elems(c, x, o, ind, n), ind), 93))
    case('one complex number', and_(eq(t, 7), eq(n, 1)), wrote(o, 7, cx(st, q, 7))); complexes(c, st, x, o, ind, k); case('complex numbers', and_(eq(t, 7), not_(eq(n, 1))), push8(pad(ctx, complexes(c, st, x, o, ind, n), ind), 93))
    row(c, x, o, k); case('a dense array', and_(not_(eq(t, 1)), not_(eq(t, 7)), not_(eq(t, TYPE_PAIR)), not_(eq(t, TYPE_VAR))), push8(row(c, x, o, n), 93))
def fun_fa(lv):
    ex = lv.ex; c = WithCtx(ex.ctx); c.pre = ex.st0; s0 = ex.st0; x = tid(s0, ex.arr); o = out(s0); ind = ex.ind; n = lv.n
    return [spaces(ex.ctx, out(lv.st0), n), members(c, x, o, ind, n), elems(c, x, o, ind, n), complexes(c, s0, x, o, ind, n), row(c, x, o, n), 0]
def su_fa(ex, a, st): su_js(ex, a, st); ex.arr = a[2]; ex.ind = a[3]
TYPE_VAR, TYPE_PAIR = 8, 9
jf(JA, ['obj', 'ptr', 'val', 'i32'], s_farray, local=FM_, setup=su_fa, assumes=lambda c: [lt(c.a[3], 1 << 30), ge(c.a[3], 0)], loops={None: {'fun': fun_fa, 'cells': True}})
jn(JP + '12formatStringERSoPKci', ['ptr', 'ptr', 'ptr', 'i32'], s_fstring); FM_[JP + '12formatStringERSoPKci'] = JS[JP + '12formatStringERSoPKci']
