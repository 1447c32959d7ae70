"""Streams over values: the buffer of a varstream (C17)."""
from .seq import *
from .seq import S as SEQT
from .func import TEN, t_new, tid, put as tput
VB = '_ZN6libube6varbuf'
def charat(ctx, x):
    v = lf('charof', x); ctx.fact(ge(v, -128)); ctx.fact(le(v, 127)); return v
def unsigned(v): return ite(lt(v, 0), iadd(v, 256), v)
def s_getchar(c): c.case('', ret=charat(c.ctx, val(c.pre, c.a[0])))
def s_push(c):
    s, v = c.a; st = c.pre; n = slen(st)
    if not isthis(c, s): notmodelled('push() to another value')
    p = c.post(); y = val(st, v); anyslot(p, v); p.st('gv', S.H, n, y); lenset(p, iadd(n, 1)); c.case('', ret=s, post=p)
STR = dict(SEQ)
STR[PK + '3getIcEET_v'] = Contract(PK + '3getIcEET_v@sequence', ['var'], s_getchar)
STR[P + '4pushES0_'] = Contract(P + '4pushES0_@sequence', ['var', 'val'], s_push)
def ind_(st, b): return st.read('i32', b.b, 80)
def su_buf(ex, a, st):
    b = a[0]; ctx = ex.ctx; s = Ptr(b.b, 64)
    for h, k in ((S.H, K_HEAP), (S.KB, K_OTHER)): ctx.mark_ext(h); ctx.fact(h >= 1); st.addkind(h, {k})
    ctx.fact(S.H != S.KB); ctx.fact(b.b != S.H); ctx.fact(b.b != S.KB); ctx.fact(S.T == 1); ex.seqgen = False; ex.seq0 = st
    st.st('i64', s.b, 72, 0); st.stp(s, Ptr(S.H, 0)); st.st('lv', s.b, 64, 1)
    st.st('vt', S.H, 0, ctx.clsid(HEAPVT)); st.assume(and_(ge(slen(st), 0), lt(slen(st), 1 << 28)))
def as_buf(c): return [ge(ind_(c.pre, c.a[0]), 0), le(ind_(c.pre, c.a[0]), slen(c.pre))]
def vb(name, args, spec, assumes=as_buf, **k):
    o = {'closed': True}; o.update(k.pop('opts', {}))
    CHECKS.append(Contract(VB + name, args, spec, local=STR, opts=o, setup=su_buf, assumes=assumes, props=['C17'], **k))
def sp_overflow(c):
    b, i = c.a; st = c.pre; n = slen(st); e = eq(i, -1)
    c.case('end of file: nothing', e, ret=i)
    p = c.post(); p.st('gv', S.H, n, lf('number', 2, i)); lenset(p, iadd(n, 1)); c.case('appended', not_(e), ret=i, post=p)
vb('8overflowEi', ['obj', 'i32'], sp_overflow)
def sp_read(consume):
    def sp(c):
        b = c.a[0]; st = c.pre; i = ind_(st, b); more = lt(i, slen(st))
        p = c.post()
        if consume: p.st('i32', b.b, 80, iadd(i, 1))
        c.case('the next character', more, ret=unsigned(charat(c.ctx, elem(st, i))), post=p)
        c.case('end of file', not_(more), ret=-1)
    return sp
vb('5uflowEv', ['obj'], sp_read(True)); vb('9underflowEv', ['obj'], sp_read(False))
def sp_back(c):
    b, x = c.a; st = c.pre; i = ind_(st, b); p = c.post(); p.st('i32', b.b, 80, isub(i, 1))
    c.case('one back', gt(i, 0), ret=unsigned(charat(c.ctx, elem(st, isub(i, 1)))), post=p); c.case('at the start', le(i, 0), ret=-1)
vb('9pbackfailEi', ['obj', 'i32'], sp_back)
def sp_seek(c):
    b, off, state, mode = c.a; st = c.pre; ok = and_(ge(off, 0), le(off, slen(st)))
    p = c.post(); p.st('i32', b.b, 80, off); c.case('moved', ok, ret=(off, c.unknown(lambda o: o.val[1], 'state')), post=p)
    c.case('impossible', not_(ok), ret=(-1, c.unknown(lambda o: o.val[1], 'state')))
vb('7seekposESt4fposI11__mbstate_tESt13_Ios_Openmode', ['obj', 'i64', 'i64', 'i32'], sp_seek)
# ---- connecting: the buffer holds the value itself (as an array), at its beginning
CON = dict(TEN)
def cn(name, args, spec, **k): CON[name] = Contract(name + '@values', args, spec, **k)
def c_array(c):
    s = c.a[0]; p = c.post(); tput(p, s, lf('asarray', tid(c.pre, s))); c.case('', ret=s, post=p)
cn(P + '5arrayEv', ['var'], c_array)
for n in ('_ZNSt15basic_streambufIcSt11char_traitsIcEEC2Ev', '_ZNSt6localeC1Ev'): cn(n, ['ptr'], lambda c: c.case(''))
for n in ('_ZNSt15basic_streambufIcSt11char_traitsIcEED2Ev', '_ZNSt6localeD1Ev'): cn(n, ['ptr'], lambda c: c.case(''))
def c_text(c):
    s, t = c.a; p = c.post(); tput(p, s, lf('text', t)); begin(c, s, p); c.case('', post=p)
def c_area(c):
    for p in c.a[1:]: c.require(eq(p.b, 0), 'no area: every character goes through the buffer\'s own functions')
    c.case('')
cn('_ZNSt15basic_streambufIcSt11char_traitsIcEE4setpEPcS3_', ['ptr', 'ptr', 'ptr'], c_area); cn('_ZNSt15basic_streambufIcSt11char_traitsIcEE4setgEPcS3_S3_', ['ptr'] * 4, c_area)
cn(P + 'C2EPKc', ['ctor', 'ptr'], c_text)
def sp_connect(c):
    b, v = c.a; st = c.pre; x = tid(st, v); m = Ptr(b.b, 64); u = lf('undef', x, ret=B)
    def mk(y, arg):
        p = c.post(); tput(p, m, y); p.st('i32', b.b, 80, 0); p.st('lv', b.b, 64, 1)
        if arg is not None: tput(p, v, arg)
        return p
    y = lf('asarray', x)
    c.case('the value, as an array', not_(u), post=mk(y, y))
    e = c.unknown(lambda o: o.st.read('gv', b.b, 64), 'empty')
    c.case('nothing: an empty string', u, post=mk(e, None), ensures=[])
CHECKS.append(Contract(VB + 'C2ENS_3varE', ['ctor', 'val'], sp_connect, local=CON, opts={'closed': True}, props=['C17'], excl=lambda ex, kind, b, o, pre: [and_(kind == 'vt' or kind in ('pb', 'po'), eq(b, ex.vbuf.b), lt(o, 8)), and_(eq(b, ex.vbuf.b), ge(o, 56), lt(o, 64))], setup=lambda ex, a, st: setattr(ex, 'vbuf', a[0])))
