"""Path-wise symbolic execution of LLVM IR with contracts at calls and inferred,
inductively checked loop summaries."""
import os, z3, re
from .ir import *
from .core import *

class Outcome:
    __slots__ = ('kind', 'val', 'st', 'exc')
    def __init__(self, kind, val, st, exc=None): self.kind, self.val, self.st, self.exc = kind, val, st, exc

class Undecided(Exception):
    """The verifier cannot handle the code (not a refutation)."""

class SPtr(Ptr):
    """pointer into a var slot: slot is the Ptr of the var"""
    __slots__ = ('slot',)
    def __init__(self, b, o, slot): Ptr.__init__(self, b, o); self.slot = slot

EXC_BASES = {
    '_ZTIN6libube5errorE': ['_ZTISt9exception'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
}

VARTY = 'class.libube::var'
PAIRTY = 'struct.libube::pair'
HEAPTYS = {'class.libube::Heap', 'class.libube::View', 'class.libube::IHeap'}

def consts_of(t, cache={}):
    """names of uninterpreted constants in t"""
    if isc(t): return frozenset()
    if isinstance(t, Ptr): return consts_of(t.b) | consts_of(t.o)
    if not isinstance(t, z3.ExprRef): return frozenset()
    out = set(); seen = set(); stk = [t]
    while stk:
        x = stk.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name(): out.add(x.decl().name())
        stk.extend(x.children())
    return frozenset(out)
def cnum(name):
    m = re.search(r'!(\d+)$', name)
    return int(m.group(1)) if m else 0
def sub1(t, a, b):
    if isc(t): return t
    if isinstance(t, Ptr): return Ptr(sub1(t.b, a, b), sub1(t.o, a, b))
    return norm(z3.simplify(z3.substitute(t, (a, zv(b)))))

class Past:
    def __init__(self, n, f): self.n, self.f = n, f   # f(j): condition that held in iteration j, for 0<=j<n
    def inst(self, t):
        return implies(and_(le(0, t), lt(t, self.n)), self.f(t))

def loopsig(fr, header, region):
    """what a loop is made of, leaving out operands, constants, predicates and the names of callees"""
    n = {}
    for b in region:
        for i in fr.blocks[b].ins: n[i.op] = n.get(i.op, 0) + 1
    return '%d:' % len(region) + ' '.join('%s%d' % x for x in sorted(n.items()))
class Exec:
    def __init__(self, ctx, contracts, checking=None):
        self.ctx, self.prog = ctx, ctx.prog
        self.contracts = contracts      # canonical name -> Contract
        self.checking = checking
        self.loopspecs = {}
        self.depth = 0
        self.steps = 0
        self.maxsteps = 400000
        self.obl = []                   # pending obligations (name, pc, goal, state)
        self.inlined = set(); self.used = set()
        self.quiet = 0
        self.owner_heap = z3.Int('Hsk')
        self.opts = {}; self.loopinfo = []; self.loopbase = None
    def oblige(self, name, st, goal):
        if self.quiet: return
        goal = norm(goal)
        if goal is True: goal = z3.BoolVal(True)
        if goal is False: goal = z3.BoolVal(False)
        self.obl.append((name, st, goal))
    # ------------------------------------------------------------ values
    def val(self, fr, env, st, ty, v):
        k = v[0]
        if k == 'l':
            try: return env[v[1]]
            except KeyError: raise Undecided('use of undefined %' + v[1] + ' in ' + fr.name)
        if k == 'c': return v[1]
        if k == 'null': return NULL
        if k == 'undef': return self.undef(ty)
        if k == 'zero': return self.zero(ty)
        if k == 'f': return self.fconst(v[1], ty)
        if k == 'g': return self.gaddr(fr.mod, v[1], st)
        if k == 'gep':
            bt, base, idx = v[1], v[2], v[3]
            if base[0] == 'g' and base[1].startswith('_ZTV'): return VTA(base[1])
            p = self.val(fr, env, st, PTR, base)
            off = self.gepoff(fr, env, st, bt, idx)
            return p.add(off)
        if k == 'agg':
            return tuple(self.val(fr, env, st, t, x) for t, x in v[1])
        raise Undecided('constant ' + repr(v))
    def undef(self, ty):
        ty = self.prog.res(ty) if ty.k == 'named' else ty
        if ty.k == 'int': return self.ctx.fresh('undef', B if ty.n == 1 else I)
        if ty.k in ('float', 'double'): return self.ctx.fresh('undef')
        if ty.k == 'ptr': return Ptr(self.ctx.fresh('undef'), self.ctx.fresh('undef'))
        if ty.k == 'struct': return tuple(self.undef(f) for f in ty.fs)
        if ty.k == 'vec': return tuple(self.undef(ty.el) for _ in range(ty.n))
        raise Undecided('undef %r' % ty)
    def zero(self, ty):
        ty = self.prog.res(ty) if ty.k == 'named' else ty
        if ty.k == 'int': return False if ty.n == 1 else 0
        if ty.k == 'ptr': return NULL
        if ty.k in ('float', 'double'): return self.fconst('0.0', ty)
        if ty.k == 'struct': return tuple(self.zero(f) for f in ty.fs)
        if ty.k in ('vec', 'arr'): return tuple(self.zero(ty.el) for _ in range(ty.n))
        raise Undecided('zero %r' % ty)
    def fconst(self, s, ty):
        if s.startswith('0x'):
            bits = int(s[2:], 16); d = struct.unpack('>d', bits.to_bytes(8, 'big'))[0]
        else: d = float(s)
        return fltcode(d, 32 if ty.k == 'float' else 64)
    def gaddr(self, mod, name, st=None):
        name = self.prog.canon(name)
        if name in self.prog.funcs or name in mod.decls: return FPtr(name)
        if name.startswith('_ZTV'): return VTA(name)
        priv = name.startswith('.str') or name.startswith('__const') or mod.globals.get(name, '').startswith('internal ')
        key = (mod.path, name) if priv else name
        b = self.ctx.gid(key)
        if b not in self.ctx.ginfo:
            d = {}
            rest = (mod.globals if priv else self.prog.globals).get(name, mod.globals.get(name, ''))
            m = re.search(r'\bconstant \[(\d+) x i8\] (c"(?:[^"\\]|\\.)*"|zeroinitializer)', rest)
            if m:
                if m.group(2) == 'zeroinitializer': bs = bytes(int(m.group(1)))
                else:
                    s = m.group(2)[2:-1]
                    bs = bytearray(); i = 0
                    while i < len(s):
                        if s[i] == '\\' and s[i+1] == '\\': bs.append(92); i += 2
                        elif s[i] == '\\': bs.append(int(s[i+1:i+3], 16)); i += 3
                        else: bs.append(ord(s[i])); i += 1
                for i, c in enumerate(bs): d[('i8', i)] = c - 256 if c > 127 else c
                self.ctx.frozen.add(b)
            m = re.match(r'(?:internal |private |unnamed_addr |local_unnamed_addr |dso_local )*(global|constant) (i8|i32|i64) (-?\d+),', rest)
            if m and (m.group(1) == 'constant' or (rest.startswith('internal') and name not in mod.stored)):
                d[(m.group(2), 0)] = int(m.group(3)); self.ctx.frozen.add(b)
            self.ctx.ginfo[b] = d
        return Ptr(b, 0)
    def gepoff(self, fr, env, st, bt, idx):
        off = 0
        t = bt
        for n, (it, iv) in enumerate(idx):
            i = self.val(fr, env, st, it, iv)
            if n == 0:
                off = iadd(off, imul(i, self.prog.layout(t)[0])); continue
            r = self.prog.res(t)
            if r.k == 'struct':
                off = iadd(off, self.prog.layout(r)[2][i]); t = r.fs[i]
            elif r.k in ('arr', 'vec'):
                off = iadd(off, imul(i, self.prog.layout(r.el)[0])); t = r.el
            else: raise Undecided('gep into %r' % r)
        return off
    # ------------------------------------------------------------ memory
    LEAF = {'float': 'f32', 'double': 'f64'}
    def leafkind(self, t):
        if t.k == 'int':
            if t.n <= 8: return 'i8'
            if t.n in (16, 32, 64): return 'i%d' % t.n
        if t.k in self.LEAF: return self.LEAF[t.k]
        raise Undecided('memory access of type %r' % t)
    def load(self, st, ty, p, dst=''):
        if not isinstance(p, Ptr): raise Undecided('load through %r' % (p,))
        r = self.prog.res(ty)
        if 'bounds' in self.opts: self.bounds(st, p, self.prog.layout(ty)[0], 'read')
        if r.k == 'ptr':
            if dst.startswith('vtable'): return VTab(p)
            return self.wrapptr(st, st.ldp(p))
        if r.k == 'int' and r.n == 1:
            return ne0(st.ld('i8', p))
        if r.k in ('struct', 'vec', 'arr'):
            out = []
            if r.k == 'struct':
                for f, o in zip(r.fs, self.prog.layout(r)[2]): out.append(self.load(st, f, p.add(o)))
            else:
                s = self.prog.layout(r.el)[0]
                for i in range(r.n): out.append(self.load(st, r.el, p.add(i * s)))
            return tuple(out)
        return st.ld(self.leafkind(r), p)
    def wrapptr(self, st, p): 
        if isc(p.b) and p.b in self.ctx.gsyms and isinstance(self.ctx.gsyms[p.b], tuple) and self.ctx.gsyms[p.b][0] == 'fn':
            return FPtr(self.ctx.gsyms[p.b][1])
        return p
    def store(self, st, ty, p, v):
        if not isinstance(p, Ptr): raise Undecided('store through %r' % (p,))
        r = self.prog.res(ty)
        if r.k in ('struct', 'vec', 'arr'):
            if r.k == 'struct': offs = zip(r.fs, self.prog.layout(r)[2])
            else:
                s = self.prog.layout(r.el)[0]; offs = [(r.el, i * s) for i in range(r.n)]
            for x, (f, o) in zip(v, offs): self.store(st, f, p.add(o), x)
            return
        if 'bounds' in self.opts: self.bounds(st, p, self.prog.layout(ty)[0], 'written')
        own = self.pre_raw(st, p)
        if r.k == 'ptr':
            if isinstance(v, VTA): st.st('vt', p.b, p.o, self.ctx.clsid(v.sym))
            elif isinstance(v, FPtr): st.stp(p, Ptr(self.ctx.gid(('fn', v.name)), 0))
            elif isinstance(v, Ptr): st.stp(p, v)
            else: raise Undecided('store of %r' % (v,))
        elif r.k == 'int' and r.n == 1:
            st.st('i8', p.b, p.o, b2i(v))
        else: st.st(self.leafkind(r), p.b, p.o, v)
        self.post_raw(st, p, own)
        self.wrote(st, p)
    def bounds(self, st, p, n, what):
        if self.quiet: return
        if isc(p.b) and p.b in st.info:
            sz = st.info[p.b].get('size')
            if sz is None or (isc(sz) and isc(p.o) and isc(n) and 0 <= p.o and p.o + n <= sz): return
            self.oblige('memory %s lies inside its block' % what, st.copy(), or_(eq(n, 0), and_(le(0, p.o), le(iadd(p.o, n), sz))))
            return
        f = self.opts['bounds']
        if callable(f):
            for g in f(self, st, p, n, what): self.oblige('memory %s lies inside its block' % what, st.copy(), g)
    def wrote(self, st, p):
        if isc(p.b) and p.b < 0 and p.b in st.locals: return
        st.ver = self.ctx.fresh('ver')
    # ownership accounting of raw writes into var slots
    def owns(self, st, slot):
        H = self.owner_heap
        lv = st.read('lv', slot.b, slot.o)
        tag = st.read('i64', slot.b, iadd(slot.o, 8))
        pb = st.read('pb', slot.b, slot.o)
        return ite(and_(eq(lv, 1), le(tag, 0), eq(pb, H)), 1, 0)
    def pre_raw(self, st, p):
        if isinstance(p, SPtr): return self.owns(st, p.slot)
    def post_raw(self, st, p, own):
        if own is not None:
            st.bal = iadd(st.bal, isub(own, self.owns(st, p.slot)))
    def setlive(self, st, slot, live):
        """ghost: the var at slot begins / ends its life"""
        before = self.owns(st, slot)
        st.st('lv', slot.b, slot.o, 1 if live else 0)
        st.bal = iadd(st.bal, isub(before, self.owns(st, slot)))
    # ------------------------------------------------------------ functions
    def exec_func(self, fn, args, st):
        self.depth += 1
        if self.depth > 60: raise Undecided('inlining too deep at ' + fn.name)
        try:
            env = {}
            for p, a in zip(fn.params, args): env[p.name] = a
            if len(args) < len(fn.params): raise Undecided('argument count ' + fn.name)
            env['%va'] = args[len(fn.params):]
            fr = fn
            res = self.run_region(fr, fn.order[0], None, env, st, None, None)
            assert not res[0] and not res[1]
            return res[2]
        finally:
            self.depth -= 1
    def run_region(self, fr, start, prev, env, st, region, header, skipphi=False):
        """returns backs[(prev,env,st)], exits[(blk,prev,env,st)], outs[Outcome]"""
        backs, exits, outs = [], [], []
        work = [(start, prev, env, st, skipphi, True)]
        while work:
            b, pv, env, st, skp, first = work.pop()
            if not first or region is None:
                if region is not None and b == header: backs.append((pv, env, st)); continue
                if region is not None and b not in region: exits.append((b, pv, env, st)); continue
            if b in fr.loops and not (first and region is not None and b == header):
                ex, ou = self.do_loop(fr, b, pv, env, st)
                outs += ou
                for (b2, p2, e2, s2) in ex: work.append((b2, p2, e2, s2, False, False))
                continue
            for nxt in self.run_block(fr, b, pv, env, st, skp):
                if isinstance(nxt, Outcome): outs.append(nxt)
                else: work.append(nxt + (False, False))
        return backs, exits, outs
    def run_block(self, fr, b, pv, env, st, skp):
        """executes one block; yields successor tuples (blk, prev, env, st) or Outcomes"""
        blk = fr.blocks[b]
        # phis
        i = 0
        if not skp:
            new = {}
            for ins in blk.ins:
                if ins.op != 'phi': break
                for v, l in ins.x:
                    if l == pv: new[ins.dst] = self.val(fr, env, st, ins.ty, v); break
                else: raise Undecided('phi')
            if new: env = dict(env); env.update(new)
        states = [(env, st, 0)]
        results = []
        while states:
            env, st, i = states.pop()
            ins_list = blk.ins
            while i < len(ins_list):
                ins = ins_list[i]
                self.steps += 1
                if self.steps > self.maxsteps: raise Undecided('step limit')
                op = ins.op
                if op == 'phi': i += 1; continue
                if op in ('call', 'invoke'):
                    outs = self.do_call(fr, ins, env, st)
                    for o in outs:
                        if o.kind == 'ret':
                            e2 = dict(env)
                            if ins.dst is not None: e2[ins.dst] = o.val
                            if op == 'call': states.append((e2, o.st, i + 1))
                            else: results.append((ins.x['normal'], b, e2, o.st))
                        elif o.kind == 'throw':
                            if op == 'call': results.append(o)
                            else:
                                e2 = dict(env); e2['%exc'] = o.exc
                                results.append((ins.x['unwind'], b, e2, o.st))
                        else: results.append(o)
                    break
                if op == 'br':
                    if len(ins.x) == 1: results.append((ins.x[0], b, env, st)); break
                    c = norm(self.val(fr, env, st, INT(1), ins.x[0]))
                    if c is True: results.append((ins.x[1], b, env, st)); break
                    if c is False: results.append((ins.x[2], b, env, st)); break
                    c = norm(z3.simplify(c))
                    if isc(c): results.append((ins.x[1] if c else ins.x[2], b, env, st)); break
                    if ins.x[1] == ins.x[2]: results.append((ins.x[1], b, env, st)); break
                    t = self.ctx.feasible(st.pc + [c])
                    f = self.ctx.feasible(st.pc + [z3.Not(c)]) if t else True
                    if t and f:
                        s2 = st.copy(); s2.assume(z3.Not(c)); results.append((ins.x[2], b, dict(env), s2))
                        s1 = st; s1.assume(c); results.append((ins.x[1], b, env, s1))
                    elif t: st.assume(c); results.append((ins.x[1], b, env, st))
                    else: st.assume(z3.Not(c)); results.append((ins.x[2], b, env, st))
                    break
                if op == 'switch':
                    ty, v, d, cs = ins.x
                    v = self.val(fr, env, st, ty, v)
                    conds = []
                    hit = False
                    for c, l in cs:
                        e = eq(v, c[1])
                        if e is True:
                            if all(x[0] is False for x in conds): results.append((l, b, env, st)); hit = True; break
                        if e is False: continue
                        conds.append((e, l))
                    if hit: break
                    neg = []
                    for e, l in conds:
                        pc = st.pc + [e]
                        if self.ctx.feasible(pc):
                            s2 = st.copy(); s2.assume(e); results.append((l, b, dict(env), s2))
                        neg.append(not_(e))
                    if self.ctx.feasible(st.pc + neg):
                        for x in neg: st.assume(x)
                        results.append((d, b, env, st))
                    break
                if op == 'ret':
                    v = self.val(fr, env, st, ins.ty, ins.a[0]) if ins.a else None
                    results.append(Outcome('ret', v, st)); break
                if op == 'resume':
                    results.append(Outcome('throw', None, st, env.get('%exc'))); break
                if op == 'unreachable':
                    results.append(Outcome('stop', 'unreachable', st)); break
                self.simple(fr, ins, env, st)
                i += 1
        # deterministic order
        return results
    # ------------------------------------------------------------ simple instructions
    def simple(self, fr, ins, env, st):
        op = ins.op
        V = lambda ty, v: self.val(fr, env, st, ty, v)
        if op == 'alloca':
            size = self.prog.layout(ins.ty)[0]
            if ins.a:
                n = V(*ins.a)
                if not (isc(n) and n == 1):
                    self.oblige('length of a variable length array is not negative', st.copy(), ge(n, 0))
                    b = st.newobj({'size': imul(n, size), 'fn': fr.name, 'name': ins.dst})
                    env[ins.dst] = Ptr(b, 0); return
            b = st.newobj({'ty': ins.ty, 'size': size, 'fn': fr.name, 'name': ins.dst})
            st.rng('lv', b, 0, size, lambda o: 0)
            env[ins.dst] = Ptr(b, 0)
        elif op == 'load':
            p = V(PTR, ins.a[0])
            if isinstance(p, VSlot) and ins.ty.k == 'int': env[ins.dst] = app('vbase', p.p.b, p.i); return     # where a virtual base is
            if isinstance(p, VSlot): env[ins.dst] = VFn(p.p, p.i); return
            env[ins.dst] = self.load(st, ins.ty, p, ins.dst)
        elif op == 'store':
            self.store(st, ins.ty, V(PTR, ins.a[1]), V(ins.ty, ins.a[0]))
        elif op == 'getelementptr':
            p = V(PTR, ins.a)
            if isinstance(p, VTab):
                env[ins.dst] = VSlot(p.p, V(ins.x[0][0], ins.x[0][1])); return
            off = self.gepoff(fr, env, st, ins.ty, ins.x)
            if isinstance(p, VTA): env[ins.dst] = p; return
            if not isinstance(p, Ptr): raise Undecided('gep on %r' % (p,))
            nm = ins.ty.name if ins.ty.k == 'named' else None
            q = p.add(off)
            if nm == VARTY and len(ins.x) == 2:
                base = p.add(imul(V(ins.x[0][0], ins.x[0][1]), 16))
                q = SPtr(q.b, q.o, base)
            elif isinstance(p, SPtr) and off == 0 and isc(off): q = SPtr(q.b, q.o, p.slot)
            self.kind_fact(st, p, ins.ty)
            env[ins.dst] = q
        elif op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            env[ins.dst] = self.arith(st, op, ins.ty, V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1]), ins.x, ins)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            env[ins.dst] = fop(op, ins.ty, V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1]))
        elif op == 'fneg': env[ins.dst] = fop('fneg', ins.ty, V(ins.ty, ins.a[0]))
        elif op == 'icmp': env[ins.dst] = self.icmp(ins.x, ins.ty, V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1]))
        elif op == 'fcmp': env[ins.dst] = fcmp(ins.x, ins.ty, V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1]))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            env[ins.dst] = self.cast(op, ins.ty, V(ins.ty, ins.a[0]), ins.x)
        elif op == 'select':
            env[ins.dst] = ite(V(INT(1), ins.a[0]), V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2]))
        elif op == 'extractvalue':
            v = V(ins.ty, ins.a[0])
            for k in ins.x: v = v[k]
            env[ins.dst] = v
        elif op == 'insertvalue':
            v = V(ins.ty, ins.a[0]); e = None
            # element type unknown here; values are untyped
            e = self.val(fr, env, st, self.elty(ins.ty, ins.x), ins.a[1])
            v = list(v); v[ins.x[0]] = e; env[ins.dst] = tuple(v)
        elif op == 'extractelement':
            env[ins.dst] = V(ins.ty, ins.a[0])[V(INT(32), ins.a[1])]
        elif op == 'insertelement':
            v = list(V(ins.ty, ins.a[0])); v[V(INT(32), ins.a[2])] = V(ins.ty.el, ins.a[1]); env[ins.dst] = tuple(v)
        elif op == 'landingpad':
            exc = env.get('%exc')
            sel = 0
            toks = ins.x; n = len(toks); k = 0
            while k < n:
                if toks[k] == 'catch':
                    ti = toks[k + 2]
                    if ti == 'null': sel = -1; break
                    ti = unq(ti)[1:]
                    if exc is not None and (ti == exc or ti in EXC_BASES.get(exc, [])): sel = self.ctx.gid('typeid:' + ti); break
                    if exc is None: raise Undecided('unknown exception caught')
                k += 1
            if sel == -1: sel = self.ctx.gid('typeid:null')
            env[ins.dst] = (Ptr(self.ctx.gid('exc:' + str(exc)), 0), sel)
        elif op == 'freeze': env[ins.dst] = V(ins.ty, ins.a[0])
        else: raise Undecided('instruction %s' % ins.text)
    def elty(self, ty, idx):
        for k in idx:
            r = self.prog.res(ty)
            ty = r.fs[k] if r.k == 'struct' else r.el
        return ty
    def kind_fact(self, st, p, ty):
        if isc(p.b): return
        nm = ty.name if ty.k == 'named' else None
        if nm in HEAPTYS: st.addkind(p.b, {K_HEAP})
        elif nm in (VARTY, PAIRTY): st.addkind(p.b, {K_DATA, K_VAR})
        elif ty.k in ('float', 'double') or (ty.k == 'int' and ty.n in (32, 64)): st.addkind(p.b, {K_DATA, K_OTHER})
    def arith(self, st, op, ty, a, b, fl, ins):
        n = ty.n if ty.k == 'int' else None
        if n is None: raise Undecided('vector arithmetic')
        if n == 1:
            if op == 'xor': return norm(z3.simplify(z3.Xor(zv(a), zv(b)))) if not (isc(b) and b is True) else not_(a)
            if op == 'and': return and_(a, b)
            if op == 'or': return or_(a, b)
            raise Undecided('i1 ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr): return isub(a.o, b.o)
            raise Undecided('pointer arithmetic')
        if op in ('add', 'sub', 'mul'):
            r = {'add': iadd, 'sub': isub, 'mul': imul}[op](a, b)
            if isc(r): return wrapc(r, n)
            if 'nsw' in fl:
                if self.opts.get('overflow') and not self.quiet:
                    self.oblige('no-overflow', st.copy(), and_(ge(r, -(1 << (n-1))), lt(r, 1 << (n-1))))
                return r
            if n == 64: return r
            return wrap(r, n)
        if op in ('sdiv', 'srem'):
            if isc(a) and isc(b) and b != 0:
                q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                return q if op == 'sdiv' else a - q * b
            if not isc(b): 
                a_, b_ = zv(a), zv(b)
                if self.opts.get('absdiv'):     # the quotient is what it is
                    q = app('sdiv', a, b); self.ctx.fact(z3.Implies(z3.And(a_ >= 0, b_ > 0), z3.And(q >= 0, q <= a_))); return q if op == 'sdiv' else a_ - q * b_
                q = z3.If(b_ == 0, app('sdiv0', a), z3.If(a_ >= 0, z3.If(b_ > 0, a_ / b_, -(a_ / -b_)), z3.If(b_ > 0, -((-a_) / b_), (-a_) / (-b_))))
                return q if op == 'sdiv' else a_ - q * b_
            d = abs(b)
            q = z3.If(zv(a) >= 0, a / d, -((-a) / d))
            if b < 0: q = -q
            q = z3.simplify(q)
            return norm(q) if op == 'sdiv' else norm(z3.simplify(a - q * b))
        if op in ('udiv', 'urem'):
            if isc(a) and isc(b) and a >= 0 and b > 0: return a // b if op == 'udiv' else a % b
            ua = unsigned(a, n); ub = unsigned(b, n)
            q = zv(ua) / zv(ub)
            return norm(z3.simplify(q if op == 'udiv' else zv(ua) - q * zv(ub)))
        if op == 'shl':
            if isc(b):
                r = imul(a, 1 << b)
                return wrapc(r, n) if isc(r) else (r if n == 64 else wrap(r, n))
            raise Undecided('shl by variable')
        if op == 'ashr' and isc(b):
            return a >> b if isc(a) else norm(z3.simplify(a / (1 << b)))
        if op == 'lshr' and isc(b):
            ua = unsigned(a, n)
            return ua >> b if isc(ua) else norm(z3.simplify(ua / (1 << b)))
        if op in ('and', 'or', 'xor'):
            if isc(a) and isc(b): return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            if isc(a): a, b = b, a
            if isc(b):
                if op == 'xor' and b == -1: return isub(-1, a)
                if op == 'and':
                    if b == -1: return a
                    if b == 0: return 0
                    m = b & ((1 << n) - 1)
                    lo = (m & -m).bit_length() - 1; hi = m.bit_length()
                    if m == ((1 << hi) - (1 << lo)):
                        ua = a if b >= 0 else unsigned(a, n)
                        r = (ua % (1 << hi)) - (ua % (1 << lo)) if lo else (ua % (1 << hi))
                        r = z3.simplify(r)
                        return wrap(r, n) if hi == n else norm(r)
                if op == 'or' and b == 0: return a
            r = app('%s%d' % (op, n), a, b)
            self.ctx.fact(z3.And(r >= -(1 << (n - 1)), r < (1 << (n - 1))))
            if op == 'or' and isc(b) and b > 0: self.ctx.fact(z3.Implies(z3.And(zv(a) >= 0, zv(a) < (b & -b)), r == zv(a) + b))
            if op == 'and': self.ctx.fact(z3.And(z3.Implies(zv(a) >= 0, z3.And(r >= 0, r <= zv(a))), z3.Implies(zv(b) >= 0, z3.And(r >= 0, r <= zv(b)))))
            return r
        raise Undecided(op)
    def icmp(self, pr, ty, a, b):
        if isinstance(a, (VTA, FPtr)) or isinstance(b, (VTA, FPtr)):
            if isinstance(a, FPtr) and isinstance(b, FPtr): r = a.name == b.name
            else: r = False
            return r if pr == 'eq' else not r
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pr == 'eq': return peq(a, b)
            if pr == 'ne': return not_(peq(a, b))
            return {'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge}[pr](a.o, b.o)
        if ty.n == 1:
            a, b = b2i(a), b2i(b)
        if pr == 'eq': return eq(a, b)
        if pr == 'ne': return not_(eq(a, b))
        if pr[0] == 's': return {'slt': lt, 'sle': le, 'sgt': gt, 'sge': ge}[pr](a, b)
        a, b = unsigned(a, ty.n), unsigned(b, ty.n)
        return {'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge}[pr](a, b)
    def cast(self, op, t1, v, t2):
        if op == 'zext':
            if t1.n == 1: return b2i(v)
            return unsigned(v, t1.n)
        if op == 'sext':
            if t1.n == 1: return ite(v, -1, 0)
            return v
        if op == 'trunc':
            if isinstance(v, Ptr): raise Undecided('trunc ptr')
            if t2.n == 1:
                if isc(v): return bool(v & 1)
                return norm(z3.simplify(z3.Not(zv(v) % 2 == 0)))
            return wrapc(v, t2.n) if isc(v) else wrap(v, t2.n)
        if op in ('ptrtoint', 'inttoptr', 'bitcast'): return v
        if op in ('sitofp', 'uitofp'):
            w = 32 if t2.k == 'float' else 64
            if isc(v):
                return fltcode(float(v), w)
            return app('%s_f%d' % (op, w) if op == 'sitofp' else '%s_i%d_f%d' % (op, t1.n, w), v)
        if op in ('fptosi', 'fptoui'):
            r = app('%s_f%d_i%d' % (op, 32 if t1.k == 'float' else 64, t2.n), v)
            self.ctx.fact(z3.And(r >= -(1 << (t2.n - 1)), r < (1 << (t2.n - 1))))
            return r
        if op == 'fpext': return app('fpext', v)
        if op == 'fptrunc': return app('fptrunc', v)
        raise Undecided(op)
    # ------------------------------------------------------------ calls
    def do_call(self, fr, ins, env, st):
        cv = ins.x['callee']
        if cv[0] == 'l' or cv[0] == 'g':
            tgt = env.get(cv[1]) if cv[0] == 'l' else FPtr(self.prog.canon(cv[1]))
        else: raise Undecided('callee')
        args = []
        for ty, v, at in ins.a:
            args.append(self.val(fr, env, st, ty, v))
        if isinstance(tgt, VFn): return self.vcall(tgt, args, st, ins)
        if isinstance(tgt, FPtr): return self.call(tgt.name, args, st, ins, fr)
        raise Undecided('indirect call ' + ins.text)
    def vcall(self, tgt, args, st, ins):
        cls = norm(st.read('vt', tgt.p.b, tgt.p.o))
        if isc(cls) and cls in self.ctx.clsnames:
            vt = self.prog.vtable(self.ctx.clsnames[cls])
            if vt is None: raise Undecided('vtable ' + self.ctx.clsnames[cls])
            nm = vt[2 + tgt.i]
            return self.call(self.prog.canon(nm), args, st, ins, None)
        # unknown class: by the heap interface
        nm = self.opts.get('slots', {}).get(tgt.i)
        if nm is None: nm = 'V:' + self.prog.vtable(self.opts.get('iface', '_ZTVN6libube4HeapE'))[2 + tgt.i]
        c = self.contracts.get(nm)
        if c is None: raise Undecided('virtual call to %s has no contract' % nm)
        return self.use_contract(c, args, st)
    def call(self, name, args, st, ins, fr):
        c = self.contracts.get(name)
        if c is not None and not (self.checking is not None and self.checking == name and self.depth == 0):
            return self.use_contract(c, args, st)
        h = BUILTIN.get(name)
        if h is None and name.startswith('llvm.'):
            for k, f in BUILTIN.items():
                if k.endswith('*') and name.startswith(k[:-1]): h = f; break
        if h is not None: return h(self, args, st, ins)
        fn = self.prog.func(name)
        if fn is not None:
            self.inlined.add(name)
            return self.exec_func(fn, args, st)
        raise Undecided('call to %s, which has neither body nor contract' % name)
    def use_contract(self, c, args, st):
        self.used.add(c.name)
        return c.use(self, args, st)
    # ------------------------------------------------------------ loops
    def do_loop(self, fr, header, prev, env, st):
        hi = [b for b in fr.rpo if b in fr.loops].index(header)
        spec = self.loopspecs.get((fr.name, hi)) or self.loopspecs.get((fr.name, None)) or {}
        if not spec and self.loopbase is not None and fr.name not in self.loopbase[0]: spec = self.loopspecs.get((self.loopbase[1], None)) or {}    # a loop moved to a new helper
        region = fr.loops[header]
        if spec.get('mode') == 'unroll': return self.unroll(fr, header, prev, env, st, region, spec.get('max', 40))
        # concrete iterations
        snap = (prev, env, st.copy())
        cur = (prev, env, st); exits = []
        for it in range(70):
            p, e, s = cur
            npc = len(s.pc)
            try:
                self.quiet += 1
                backs, exs, outs = self.run_region(fr, header, p, dict(e), s.copy(), region, header)
            except Undecided: 
                break
            finally: self.quiet -= 1
            if len(backs) + len(exs) + len(outs) != 1: break
            r = (backs + exs + outs)[0]
            rs = r.st if isinstance(r, Outcome) else r[-1]
            if len(rs.pc) != npc: break
            # re-run aloud for obligations
            backs, exs, outs = self.run_region(fr, header, p, dict(e), s, region, header)
            if exs or outs: return exs, outs
            cur = backs[0]
            snap = (cur[0], cur[1], cur[2].copy())
        prev, env, st = snap
        return self.summarise(fr, header, prev, env, st, region, spec, hi)
    def unroll(self, fr, header, prev, env, st, region, mx):
        work = [(prev, env, st)]; exits = []; outs = []
        for it in range(mx + 1):
            nw = []
            for p, e, s in work:
                b, x, o = self.run_region(fr, header, p, e, s, region, header)
                nw += b; exits += x; outs += o
            work = nw
            if not work: return exits, outs
        raise Undecided('loop in %s exceeds the unrolling bound %d' % (fr.name, mx))
    def phisym(self, ty, init, hv, nm):
        if ty.k == 'int' and ty.n == 1: return self.ctx.fresh('phi_' + nm, B)
        if ty.k == 'ptr':
            if not isinstance(init, Ptr): return init
            b = self.ctx.fresh('phib_' + nm) if hv else init.b
            return Ptr(b, self.ctx.fresh('phi_' + nm))
        if ty.k in ('int', 'float', 'double'):
            s = self.ctx.fresh('phi_' + nm)
            if ty.k == 'int': self.ctx.fact(z3.And(s >= -(1 << (ty.n - 1)), s < (1 << (ty.n - 1))))
            return s
        raise Undecided('phi type %r' % ty)
    def summarise(self, fr, header, prev, env0, st0, region, spec, hi):
        ctx = self.ctx
        phis = [i for i in fr.blocks[header].ins if i.op == 'phi']
        inits = {}
        for ins in phis:
            for v, l in ins.x:
                if l == prev: inits[ins.dst] = self.val(fr, env0, st0, ins.ty, v); break
            else: raise Undecided('phi')
        base0 = next(ctx.cnt); neg0 = -ctx.newbase()
        def old(t): return all(cnum(c) < base0 for c in consts_of(t))
        def dead(b): return isc(b) and b < 0 and -b > neg0 and b > -1000000
        cells = {}      # (kind,b,o) -> init ; b,o python ints or z3 (by key repr)
        hr = {}         # havocked ranges
        hvptr = set()
        key = lambda k, b, o: (k, b if isc(b) else b.get_id(), o if isc(o) else o.get_id())
        cellterm = {}
        def setup(vals, cellvals, s, havoc_hr=True):
            env = dict(env0); env.update(vals)
            for kx, (kind, b, o, ln) in hr.items():
                if kind == 'lv': s.rng('lv', b, o, ln, lambda x: 0) if False else s.havoc(kind, b, o, ln)
                else: s.havoc(kind, b, o, ln)
            for kx, (kind, b, o) in cellterm.items(): s.st(kind, b, o, cellvals[kx])
            return env
        self.quiet += 1
        try:
            purged = False
            for rnd in range(14):
                vals = {i.dst: self.phisym(i.ty, inits[i.dst], i.dst in hvptr, i.dst) for i in phis}
                cvals = {kx: ctx.fresh('cell') for kx in cellterm}
                for kx, (kind, b, o) in cellterm.items():
                    n = IRANGE.get(kind)
                    if n: ctx.fact(z3.And(cvals[kx] >= -(1 << (n-1)), cvals[kx] < (1 << (n-1))))
                s1 = st0.copy()
                env = setup(vals, cvals, s1)
                tops = dict(s1.m)
                if spec.get('inv'):
                    for f in spec['inv'](LoopView(self, fr, phis, vals, inits, s1, st0, None)): s1.assume(f)
                backs, exs, outs = self.run_region(fr, header, None, env, s1.copy(), region, header, skipphi=True)
                changed = False; seen = set()
                for p, e, s in backs:
                    for i in phis:
                        if i.ty.k == 'ptr':
                            bv = self.backval(fr, i, p, e, s)
                            if not isinstance(bv, Ptr): raise Undecided('loop pointer phi')
                            if not ctx.same_base(bv.b, vals[i.dst].b) and i.dst not in hvptr: hvptr.add(i.dst); changed = True
                    for kind in KINDS:
                        for nd in self.nodes_since(s.m[kind], tops[kind]):
                            if isinstance(nd, Store):
                                if dead(nd.b): continue
                                if old(nd.b) and old(nd.o):
                                    kx = key(kind, nd.b, nd.o); seen.add(kx)
                                    if kx not in cellterm:
                                        cellterm[kx] = (kind, nd.b, nd.o); changed = True
                                        if not isc(nd.b): ctx.keep.append(nd.b)
                                        if not isc(nd.o): ctx.keep.append(nd.o)
                            elif isinstance(nd, RangeN):
                                if dead(nd.b): continue
                                if old(nd.b) and old(nd.start) and isc(nd.ln) and nd.ln <= 64:
                                    kx = key(kind, nd.b, nd.start) + (nd.ln,)
                                    if kx not in hr: hr[kx] = (kind, nd.b, nd.start, nd.ln); changed = True
                if not changed:
                    # addresses that were only met with the initial values
                    stale = [kx for kx in cellterm if kx not in seen]
                    if not stale or purged: break
                    purged = True; print('STALE', fr.name, [cellterm[k] for k in stale], len(cellterm)) if os.environ.get('DBG') else None
                    for kx in stale: del cellterm[kx]
            else: raise Undecided('loop in %s: discovery did not converge' % fr.name)
            # lv cells inside havocked ranges are exact cells where possible: handled by cells
            # ---- classification
            n = ctx.fresh('n')
            ctx.fact(n >= 0)
            cls = {}
            loopsyms = set()
            for x in list(vals.values()) + list(cvals.values()): loopsyms |= {c for c in consts_of(x) if cnum(c) >= base0}
            def classify(sym, init, bvs):
                if not bvs: return ('inv',)
                if all(self.same(b, sym) for b in bvs): return ('inv',)
                if not isinstance(sym, z3.BoolRef) and not any(isinstance(b, (bool, z3.BoolRef)) for b in bvs):
                    st_ = [norm(z3.simplify(zv(b) - sym)) for b in bvs]
                    if all(isc(x) for x in st_) and len(set(st_)) == 1: return ('iv', st_[0])
                if all(old(b) for b in bvs):
                    if all(self.same(b, bvs[0]) for b in bvs): return ('after', bvs[0])
                # entailed step?
                return ('havoc',)
            for i in phis:
                bvs = [self.backval(fr, i, p, e, s) for p, e, s in backs]
                sym = vals[i.dst]
                if isinstance(sym, Ptr):
                    co = classify(sym.o, inits[i.dst].o, [b.o for b in bvs])
                    cls[i.dst] = ('ptr', ('inv',) if i.dst not in hvptr else ('havoc',), co)
                else: cls[i.dst] = classify(sym, inits[i.dst], bvs)
            ccls = {}
            cinit = {}
            for kx, (kind, b, o) in cellterm.items():
                cinit[kx] = st0.read(kind, b, o)
                ccls[kx] = classify(cvals[kx], cinit[kx], [s.read(kind, b, o) for p, e, s in backs])
            hv = spec.get('havoc', ())
            def at(c, init, t, h):
                if c[0] == 'inv': return init
                if c[0] == 'iv': return iadd(init, imul(t, c[1]))
                if c[0] == 'after': return ite(eq(t, 0), init, c[1])
                return h
            hsyms = {}
            def values(t, nm):
                vs = {}
                for i in phis:
                    c = cls[i.dst]; init = inits[i.dst]
                    if c[0] == 'ptr':
                        kb = (i.dst, 'b', nm); ko = (i.dst, 'o', nm)
                        hb = hsyms.setdefault(kb, ctx.fresh('hb')) if c[1][0] == 'havoc' else None
                        ho = hsyms.setdefault(ko, ctx.fresh('ho')) if c[2][0] == 'havoc' else None
                        vs[i.dst] = Ptr(at(c[1], init.b, t, hb), at(c[2], init.o, t, ho))
                    else:
                        h = None
                        if c[0] == 'havoc': h = hsyms.setdefault((i.dst, nm), self.phisym(i.ty, init, False, i.dst))
                        if c[0] == 'fun': continue
                        vs[i.dst] = at(c, init, t, h)
                for i in phis:
                    c = cls[i.dst]
                    if c[0] == 'fun': vs[i.dst] = spec['fun'](LoopView(self, fr, phis, vs, inits, st0, st0, t))[c[1]]
                return vs
            def cellvalues(t, nm):
                vs = {}
                for kx, (kind, b, o) in cellterm.items():
                    c = ccls[kx]
                    h = hsyms.setdefault((kx, nm), ctx.fresh('hc')) if c[0] == 'havoc' else None
                    if c[0] == 'fun': vs[kx] = spec['fun'](LoopView(self, fr, phis, {}, inits, st0, st0, t))[c[1]]; continue
                    vs[kx] = at(c, cinit[kx], t, h)
                return vs
            ranges = []     # (kind, b, a, stride, ln, condfn, valfn(j, delta))
            def build(t, s):
                """memory after t iterations on top of st0"""
                for (kind, b, a, sd, ln, cond, valf, isany) in ranges:
                    def pred(bb, oo, b=b, a=a, sd=sd, ln=ln, cond=cond, t=t):
                        e = eq(bb, b)
                        if e is False: return False
                        d = isub(oo, a) if sd > 0 else isub(a, oo)
                        if ln == 0:
                            m = abs(sd)
                            j = d if m == 1 else (d // m if isc(d) else d / m)
                            c0 = True if m == 1 else eq(norm(d % m), 0)
                        else:
                            m = abs(sd)
                            if sd < 0: d = iadd(d, 0)
                            j = (d // m if isc(d) else norm(z3.simplify(zv(d) / m)))
                            if sd > 0: c0 = lt(norm(d % m), ln)
                            else:
                                # cells a - m*j + r, 0<=r<ln ; o = a - m j + r -> j = ceil((a-o)/m)
                                d2 = iadd(d, m - 1); j = (d2 // m if isc(d2) else norm(z3.simplify(zv(d2) / m)))
                                r = isub(oo, isub(a, imul(j, m))); c0 = and_(ge(r, 0), lt(r, ln))
                        c = and_(e, c0, le(0, j), lt(j, t))
                        if cond is not None and c is not False: c = and_(c, cond(j))
                        return c
                    def val(bb, oo, b=b, a=a, sd=sd, ln=ln, valf=valf):
                        d = isub(oo, a) if sd > 0 else isub(a, oo)
                        m = abs(sd)
                        if ln and sd < 0: d = iadd(d, m - 1)
                        j = d if m == 1 else (d // m if isc(d) else norm(z3.simplify(zv(d) / m)))
                        return valf(j, oo)
                    s.m[kind] = RangeS(s.m[kind], pred, val, isany, [b])
            def enter(t, nm, quantified=True):
                s = st0.copy()
                build(t, s)
                vs = values(t, nm)
                env = setup(vs, cellvalues(t, nm), s)
                return env, s, vs
            def run(nm):
                env, s, vs = enter(n, nm)
                s.ver = st0.ver if not verch else ctx.fresh('ver')
                npc = len(s.pc)
                if spec.get('inv'):
                    for f in spec['inv'](LoopView(self, fr, phis, vs, inits, s, st0, n)): s.assume(f)
                if active:
                    for q, f in enumerate(spec['cand'](LoopView(self, fr, phis, vs, inits, s, st0, n))):
                        if q in active: s.assume(f)
                for ps in past: s.assume(implies(gt(n, 0), ps.f(isub(n, 1))))
                if spec.get('inst'):       # what was known of all elements before the loop, at those of this iteration
                    for t in spec['inst'](LoopView(self, fr, phis, vs, inits, s, st0, n)):
                        for ps in st0.past: s.assume(ps.inst(t))
                top = s.copy()
                s.trace.append(('loop', fr.name, hi))
                r = self.run_region(fr, header, None, env, s, region, header, skipphi=True)
                return top, npc, r
            verch = any(not self.same(s.ver, s1.ver) for p, e, s in backs)
            past = []
            active = set()
            def prune():
                # candidate invariants: keep the largest set that is inductive
                while active:
                    top, npc, (bk, _, _) = run('x')
                    bad = set()
                    for p, e, s in bk:
                        vb = {i.dst: self.backval(fr, i, p, e, s) for i in phis}
                        for q, f in enumerate(spec['cand'](LoopView(self, fr, phis, vb, inits, s, st0, n + 1))):
                            if q in active and q not in bad and ctx.check(list(s.pc) + [not_(f)])[0] != 'unsat': bad.add(q)
                    if not bad: break
                    active.difference_update(bad)
            if spec.get('fun'):
                # values given as a function of the iteration: keep what is inductive
                base = {k: v for k, v in inits.items() if cls[k][0] != 'havoc'}; ptrcls = {}
                f0 = spec['fun'](LoopView(self, fr, phis, base, inits, st0, st0, 0))
                todo = {}
                for i in phis:
                    if cls[i.dst][0] == 'ptr' and 'havoc' in (cls[i.dst][1][0], cls[i.dst][2][0]):
                        ok = [q for q, f in enumerate(f0) if isinstance(f, Ptr) and ctx.check(list(st0.pc) + [not_(beq(inits[i.dst], f))])[0] == 'unsat']
                        if ok: todo[i.dst] = ok; ptrcls[i.dst] = cls[i.dst]; cls[i.dst] = ('fun', ok[0])
                    elif cls[i.dst][0] == 'havoc':
                        ok = [q for q, f in enumerate(f0) if type(f) in (int, bool, type(inits[i.dst])) or isinstance(f, z3.ExprRef) and not isinstance(inits[i.dst], Ptr)]
                        ok = [q for q in ok if isinstance(f0[q], z3.BoolRef) == isinstance(zv(inits[i.dst]), z3.BoolRef) and ctx.check(list(st0.pc) + [not_(beq(inits[i.dst], f0[q]))])[0] == 'unsat']
                        if ok: todo[i.dst] = ok; cls[i.dst] = ('fun', ok[0])
                for kx in ccls:
                    if ccls[kx][0] == 'havoc' and spec.get('cells'):
                        ok = [q for q, f in enumerate(f0) if not isinstance(f, (Ptr, tuple, bool, z3.BoolRef)) and ctx.check(list(st0.pc) + [not_(beq(cinit[kx], f))])[0] == 'unsat']
                        if ok: todo[kx] = ok; ccls[kx] = ('fun', ok[0])
                joint = bool(spec.get('cand'))
                if joint:
                    for q, f in enumerate(spec['cand'](LoopView(self, fr, phis, dict(inits), inits, st0, st0, 0))):
                        if ctx.check(list(st0.pc) + [not_(f)])[0] == 'unsat': active.add(q)
                while todo:
                    top, npc, (bk, _, _) = run('x')
                    if joint:
                        badq = set()
                        for p, e, s in bk:
                            vb = {i.dst: self.backval(fr, i, p, e, s) for i in phis}
                            for q, f in enumerate(spec['cand'](LoopView(self, fr, phis, vb, inits, s, st0, n + 1))):
                                if q in active and q not in badq and ctx.check(list(s.pc) + [not_(f)])[0] != 'unsat': badq.add(q)
                        active.difference_update(badq)
                    nv = values(iadd(n, 1), 'y'); nc = cellvalues(iadd(n, 1), 'y')
                    bad = set()
                    for p, e, s in bk:
                        for i in phis:
                            if i.dst in todo and i.dst not in bad and ctx.check(list(s.pc) + [not_(beq(self.backval(fr, i, p, e, s), nv[i.dst]))])[0] != 'unsat': bad.add(i.dst)
                        for kx in todo:
                            if kx in cellterm and kx not in bad and ctx.check(list(s.pc) + [not_(beq(s.read(*cellterm[kx]), nc[kx]))])[0] != 'unsat': bad.add(kx)
                    if not bad:
                        if joint and badq: continue
                        break
                    for d in bad:
                        todo[d].pop(0)
                        if d in ccls:
                            if todo[d]: ccls[d] = ('fun', todo[d][0])
                            else: ccls[d] = ('havoc',); del todo[d]
                            continue
                        if todo[d]: cls[d] = ('fun', todo[d][0])
                        else: cls[d] = ptrcls.get(d, ('havoc',)); del todo[d]
            if spec.get('cand'):
                if not (spec.get('fun') and joint):
                  for q, f in enumerate(spec['cand'](LoopView(self, fr, phis, dict(inits), inits, st0, st0, 0))):
                      if ctx.check(list(st0.pc) + [not_(f)])[0] == 'unsat': active.add(q)
                prune()
            top, npc, (backs2, _, _) = run('x')
            # variable-address stores
            badsym = lambda t: any(cnum(c) >= base0 and c != n.decl().name() for c in consts_of(t))
            npaths = len(backs2)
            for p, e, s in backs2:
                conj = s.pc[len(top.pc):]
                good = [c for c in conj if not badsym(c)]
                cond = None
                if npaths > 1:
                    if len(good) != len(conj): condok = False
                    else: condok = True
                    cterm = and_(*good)
                    cond = (lambda j, ct=cterm: sub1(ct, n, j))
                else: condok = True
                for kind in KINDS:
                    for nd in reversed(list(self.nodes_since(s.m[kind], top.m[kind]))):
                        if isinstance(nd, RangeS) and nd.bases and all(dead(x) for x in nd.bases): continue
                        if isinstance(nd, RangeS): raise Undecided('nested loop memory summary in a loop (%s)' % fr.name)
                        if dead(nd.b): continue
                        start = nd.o if isinstance(nd, Store) else nd.start
                        kx = key(kind, nd.b, start)
                        if isinstance(nd, Store) and kx in cellterm: continue
                        if isinstance(nd, RangeN) and isc(nd.ln) and kx + (nd.ln,) in hr: continue
                        if not condok and os.environ.get('DBG'): print('COND', npaths, [str(c)[:300] for c in conj if badsym(c)], {d: str(v)[:80] for d, v in values(n, 'q').items()})
                        if not condok: raise Undecided('conditional store in loop (%s)' % fr.name)
                        if badsym(nd.b) or badsym(start): raise Undecided('loop store address (%s)' % fr.name)
                        if not (isc(nd.b) or n.decl().name() not in consts_of(nd.b)): raise Undecided('loop store base varies (%s)' % fr.name)
                        a = sub1(start, n, 0)
                        sd = norm(z3.simplify(z3.substitute(zv(start), (n, n + 1)) - zv(start)))
                        if not isc(sd) or sd == 0: raise Undecided('loop store stride (%s)' % fr.name)
                        if isinstance(nd, Store):
                            if badsym(nd.v): raise Undecided('loop store value (%s) %s: %s' % (fr.name, kind, str(nd.v)[:200]))
                            ranges.append((kind, nd.b, a, sd, 0, cond, (lambda j, o, v=nd.v: sub1(v, n, j)), False))
                        else:
                            if not isc(nd.ln) or nd.ln > abs(sd): raise Undecided('loop range store (%s)' % fr.name)
                            o_ = ctx.fresh('o')
                            vt = nd.val(o_)
                            if nd.any: ranges.append((kind, nd.b, a, sd, nd.ln, cond, (lambda j, o, nd=nd: nd.val(o)), True)); continue
                            if any(cnum(c) >= base0 and c not in (n.decl().name(), o_.decl().name()) for c in consts_of(vt)): raise Undecided('loop range value (%s)' % fr.name)
                            ranges.append((kind, nd.b, a, sd, nd.ln, cond, (lambda j, o, vt=vt, o_=o_: sub1(sub1(vt, n, j), o_, o)), False))
            if ranges:
                top, npc, (backs2, _, _) = run('x')
            # past facts
            def mkpast(bs, top):
                cs = []
                for p, e, s in bs:
                    cs.append(and_(*[c for c in s.pc[len(top.pc):] if not badsym(c)]))
                t = or_(*cs) if cs else False
                iv = [(q, f) for q, f in enumerate(spec['cand'](LoopView(self, fr, phis, values(n, 'x'), inits, top, st0, n))) if q in active and not isc(f) and not badsym(f)] if active else []
                def fact(j):
                    u = and_(t, *[f for q, f in iv if q in active])
                    return sub1(zv(u), n, j) if not isinstance(u, bool) else u
                return Past(n, fact)
            past.append(mkpast(backs2, top))
            if spec.get('cand'): prune()
            hav = sum(1 for c in cls.values() if 'havoc' in repr(c)) + sum(1 for c in ccls.values() if c[0] == 'havoc')
            self.loopinfo.append((fr.name, hi, loopsig(fr, header, region), hav, len(active)))
        finally: self.quiet -= 1
        # ---- final run, aloud, with the past facts, and inductive check
        top, npc, (backs3, exs, outs) = run('x')
        tag = 'loop%d of %s' % (hi, short(fr.name))
        if spec.get('inv'):
            envi, si, vsi = enter(0, 'init')
            vsi = dict(inits)
            for q, f in enumerate(spec['inv'](LoopView(self, fr, phis, vsi, inits, st0, st0, 0))):
                self.oblige('%s: invariant %d holds initially' % (tag, q), st0.copy(), f)
        for p, e, s in backs3:
            env2, s2, vs2 = enter(n + 1, 'y')
            for i in phis:
                bv = self.backval(fr, i, p, e, s)
                c = cls[i.dst]
                if c[0] == 'ptr':
                    if c[1][0] != 'havoc': self.mustprove(tag, s, eq(bv.b, vs2[i.dst].b))
                    if c[2][0] != 'havoc': self.mustprove(tag, s, eq(bv.o, vs2[i.dst].o))
                elif c[0] != 'havoc': self.mustprove(tag, s, beq(bv, vs2[i.dst]))
            if spec.get('inv'):
                vb = {i.dst: self.backval(fr, i, p, e, s) for i in phis}
                for q, f in enumerate(spec['inv'](LoopView(self, fr, phis, vb, inits, s, st0, n + 1))):
                    self.oblige('%s: invariant %d is maintained' % (tag, q), s.copy(), f)
            bs, os_ = ctx.fresh('skb'), ctx.fresh('sko')
            for kind in KINDS:
                if s.m[kind] is top.m[kind] and not any(r[0] == kind for r in ranges): continue
                if kind == 'fr' or kind == 'vt': pass
                ex = []
                for kx, (k2, b, o, ln) in hr.items():
                    if k2 == kind: ex.append(and_(eq(bs, b), le(o, os_), lt(os_, iadd(o, ln))))
                for kx, (k2, b, o) in cellterm.items():
                    if k2 == kind and ccls[kx][0] == 'havoc': ex.append(and_(eq(bs, b), eq(os_, o)))
                for b in s.locals:
                    if dead(b): ex.append(eq(bs, b))
                for (k2, b, a, sd, ln, cond, valf, isany) in ranges:
                    if k2 == kind and isany: ex.append(eq(bs, b))
                # bases that exist: anything except the dead ones
                lo = z3.Or(bs >= -neg0, bs <= -1000000)
                g = beq(s.read(kind, bs, os_), s2.read(kind, bs, os_))
                sx = s.copy(); sx.assume(lo)
                for x in ex: sx.assume(not_(x))
                self.mustprove(tag + ' memory(%s)' % kind, sx, g)
            if not self.same(s.bal, top.bal):
                self.oblige('%s: ownership balanced in every iteration' % tag, s.copy(), eq(s.bal, top.bal))
        # continue from the exits
        res = []; ro = []
        evs = None
        for p, e, s in backs3:
            if len(s.events) > len(top.events):
                if len(backs3) > 1: raise Undecided('events in a branching loop')
                evs = s.events[len(top.events):]
        for x in exs + outs:
            s = x.st if isinstance(x, Outcome) else x[3]
            s.bal = iadd(st0.bal, isub(s.bal, top.bal))
            s.past = list(s.past) + past
            if evs is not None:
                s.events = st0.events + [('loop', n, evs)] + s.events[len(top.events):]
        if spec.get('exit') and not ranges: exs = self.exitvalues(fr, spec['exit'], phis, inits, st0, n, top, exs, old)
        return exs, outs
    def exitvalues(self, fr, f, phis, inits, st0, n, top, exs, old):
        """a value at the exit that provably is a given function of the state at entry is replaced by it;
        what was known of the iteration count is then forgotten, and exits that no longer differ are one"""
        res = []; seen = set()
        for (b, p, e, s) in exs:
            e = dict(e); done = True; count = None; terms = f(LoopView(self, fr, phis, {i.dst: e[i.dst] for i in phis}, inits, s, st0, n))
            for i in phis:
                v = e[i.dst]; o = v.o if isinstance(v, Ptr) else v
                if isc(o) or old(o): continue
                for t in terms:
                    if self.ctx.check(list(s.pc) + [not_(eq(o, t))])[0] == 'unsat':
                        r = norm(z3.simplify(zv(o) - n))
                        if count is None and (isc(r) or old(r)): count = isub(t, r)
                        e[i.dst] = Ptr(v.b, t) if isinstance(v, Ptr) else t; break
                else: done = False
            if done:
                new = s.pc[len(st0.pc):]
                if count is not None: new = [c if isc(c) else sub1(c, n, count) for c in new] + [zv(ge(count, 0))]
                s.pc = s.pc[:len(st0.pc)] + [c for c in new if isc(c) or old(c)]
                s.past = list(st0.past)
                k = (b, tuple(str(c) for c in s.pc), tuple(id(s.m[k_]) for k_ in KINDS), tuple(str(e[i.dst]) for i in phis))
                if p is not None and not any(ins.op == 'phi' for ins in fr.blocks[b].ins):
                    if k in seen: continue
                    seen.add(k)
            res.append((b, p, e, s))
        return res
    def mustprove(self, tag, st, goal):
        """summary correctness; failure means the summary was wrong, not that the code is"""
        goal = norm(goal)
        if goal is True: return
        r, m = self.ctx.check(list(st.pc) + [not_(goal)])
        if r != 'unsat' and os.environ.get('DBG'): print(r, str(goal)[:3000], '\nMODEL', str(m)[:3000])
        if r != 'unsat': raise Undecided('%s: the inferred summary is not inductive' % tag)
        self.loopchecks = getattr(self, 'loopchecks', 0) + 1
    def same(self, a, b):
        if isc(a) and isc(b): return a == b
        if isc(a) or isc(b): return False
        return a.eq(b)
    def backval(self, fr, ins, p, e, s):
        for v, l in ins.x:
            if l == p: return self.val(fr, e, s, ins.ty, v)
        raise Undecided('phi')
    def nodes_since(self, node, top):
        out = []
        while node is not top:
            if isinstance(node, Root): raise Undecided('memory replaced')
            out.append(node); node = node.prev
        return out

class LoopView:
    """what a loop invariant may talk about"""
    def __init__(self, ex, fr, phis, vals, inits, st, st0, n):
        self.ex, self.phis, self.vals, self.inits, self.st, self.st0, self.n = ex, phis, vals, inits, st, st0, n
    def __getitem__(self, nm):
        for i in self.phis:
            if i.dst == nm or re.match(re.escape(nm) + r'(\.\d+|\d+)*$', i.dst): return self.vals[i.dst]
        raise Undecided('loop variable %s not found' % nm)
    def init(self, nm):
        for i in self.phis:
            if i.dst == nm or re.match(re.escape(nm) + r'(\.\d+|\d+)*$', i.dst): return self.inits[i.dst]
        raise Undecided('loop variable %s not found' % nm)

def short(nm):
    return demangle(nm).split('(')[0]
_dm = {}
def demangle(nm):
    if nm not in _dm:
        import subprocess
        pre = ''
        n = nm
        if n.startswith('V:'): pre, n = 'virtual ', n[2:]
        try: _dm[nm] = pre + subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
        except Exception: _dm[nm] = nm
    return _dm[nm]

def beq(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr): return and_(eq(a.b, b.b), eq(a.o, b.o))
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        if isc(a) and isc(b): return bool(a) == bool(b)
        return norm(z3.simplify(zv(a) == zv(b)))
    return eq(a, b)
def ne0(x): return not_(eq(x, 0))
def wrapc(x, n):
    x &= (1 << n) - 1
    return x - (1 << n) if x >> (n - 1) else x
def wrap(x, n):
    if isc(x): return wrapc(x, n)
    h = 1 << (n - 1); m = 1 << n
    return norm(z3.simplify(z3.If(z3.And(x >= -h, x < h), x, (x + h) % m - h)))
def unsigned(x, n):
    if isc(x): return x & ((1 << n) - 1)
    return z3.If(x >= 0, x, x + (1 << n))
def fltcode(d, w):
    bits = struct.unpack('<Q', struct.pack('<d', d))[0]
    return (1 << 80) + bits + (1 << 72 if w == 32 else 0)
def fop(op, ty, *a):
    return app('%s_%s' % (op, 'f32' if ty.k == 'float' else 'f64'), *a)
def fcmp(pr, ty, a, b):
    w = 'f32' if ty.k == 'float' else 'f64'
    L = lambda x, y: app('flt_' + w, x, y, ret=B)
    E = lambda x, y: app('feq_' + w, x, y, ret=B)
    N = lambda x, y: app('fun_' + w, x, y, ret=B)
    if pr == 'olt': return L(a, b)
    if pr == 'ogt': return L(b, a)
    if pr == 'oeq': return E(a, b)
    if pr == 'une': return not_(E(a, b))
    if pr == 'ole': return or_(L(a, b), E(a, b))
    if pr == 'oge': return or_(L(b, a), E(b, a))
    if pr == 'uno': return N(a, b)
    if pr == 'ord': return not_(N(a, b))
    if pr == 'one': return or_(L(a, b), L(b, a))
    if pr == 'ult': return or_(L(a, b), N(a, b))
    if pr == 'ugt': return or_(L(b, a), N(a, b))
    if pr == 'ule': return not_(L(b, a))
    if pr == 'uge': return not_(L(a, b))
    if pr == 'ueq': return or_(E(a, b), N(a, b))
    raise Undecided('fcmp ' + pr)

# ---------------------------------------------------------------- built-in models (trusted)
BUILTIN = {}
def builtin(*names):
    def d(f):
        for n in names: BUILTIN[n] = f
        return f
    return d
R = lambda st, v=None: [Outcome('ret', v, st)]

UNIONCELLS = ('i8', 'i32', 'i64', 'f32', 'f64', 'pb', 'po')
def leaves(prog, ty, off=0):
    """leaf cells of a type: (offset, size, kinds), kinds None where any kind may be stored; None if unknown"""
    if ty.k == 'named':
        nm = ty.name
        if nm == VARTY: return [(off, 8, None), (off + 8, 8, ('i64',))]
        if nm.startswith('union.'): return [(off, prog.layout(ty)[0], None)]
        if nm not in PLAIN and not re.match(r'struct.libube::pair|class.libube::ind|(struct|class).std::complex|class.libube::', nm): return None
        ty = prog.named(nm)
    if ty.k == 'struct':
        out = []
        for f, o in zip(ty.fs, prog.layout(ty)[2]):
            l = leaves(prog, f, off + o)
            if l is None: return None
            out += l
        return out
    if ty.k == 'ptr': return [(off, 8, ('pb', 'po'))]
    if ty.k == 'int' and ty.n in (8, 16, 32, 64): return [(off, ty.n // 8, ('i%d' % ty.n,))]
    if ty.k == 'float': return [(off, 4, ('f32',))]
    if ty.k == 'double': return [(off, 8, ('f64',))]
    if ty.k in ('arr', 'vec') and ty.n <= 8:
        out = []
        for i in range(ty.n):
            l = leaves(prog, ty.el, off + i * prog.layout(ty.el)[0])
            if l is None: return None
            out += l
        return out
    return None
PLAIN = set()
def leaves_at(ex, st, p, n):
    """the leaf cells that n bytes at p cover, where the type of the storage is known"""
    if isinstance(p, SPtr):
        d = norm(isub(p.o, p.slot.o))
        if not isc(d): return None
        l = [(0, 8, None), (8, 8, ('i64',))]
        o = d
    else:
        if not (isc(p.b) and isc(p.o)): return None
        inf = st.info.get(p.b, {})
        ty = inf.get('ty')
        if ty is None: return None
        l = leaves(ex.prog, ty); o = p.o
    if l is None: return None
    out = []
    for a, ln, k in l:
        if a >= o + n or a + ln <= o: continue
        if a < o or a + ln > o + n: return None
        out.append((a - o, ln, k))
    return out or None
@builtin('llvm.memcpy*', 'llvm.memmove*', 'memcpy', 'memmove')
def _memcpy(ex, a, st, ins):
    d, s, n = a[0], a[1], a[2]
    if isinstance(d, Ptr) and isinstance(s, Ptr):
        if isc(n) and n == 0: return R(st, d)
        if 'bounds' in ex.opts: ex.bounds(st, d, n, 'written'); ex.bounds(st, s, n, 'read')
        snap = st.copy()
        lv = None
        if isc(n) and n <= 64:
            lv = leaves_at(ex, st, d, n) or leaves_at(ex, st, s, n)
        if lv:
            own = ex.pre_raw(st, d)
            for off, ln, kinds in lv:
                for k in kinds or KINDS:
                    if k in ('lv', 'fr', 'vt', 'gv'): continue
                    if kinds is None: st.copyrange(snap, s.b, iadd(s.o, off), d.b, iadd(d.o, off), ln, (k,))
                    else: st.st(k, d.b, iadd(d.o, off), snap.read(k, s.b, iadd(s.o, off)))
            ex.post_raw(st, d, own)
        elif isinstance(d, SPtr):
            own = ex.pre_raw(st, d); st.copyrange(snap, s.b, s.o, d.b, d.o, n); ex.post_raw(st, d, own)
        else:
            h = ex.opts.get('rawmove')
            if h: h(ex, st, d, s, n)
            st.copyrange(snap, s.b, s.o, d.b, d.o, n)
        ex.wrote(st, d)
        return R(st, d)
    raise Undecided('memcpy')
@builtin('llvm.memset*')
def _memset(ex, a, st, ins):
    d, v, n = a[0], a[1], a[2]
    if not (isc(v) and v == 0): raise Undecided('memset non-zero')
    for k in ('i8', 'i16', 'i32', 'i64', 'pb', 'po'): st.rng(k, d.b, d.o, n, lambda o: 0)
    z32, z64 = fltcode(0.0, 32), fltcode(0.0, 64)
    st.rng('f32', d.b, d.o, n, lambda o: z32); st.rng('f64', d.b, d.o, n, lambda o: z64)
    ex.wrote(st, d)
    return R(st)
@builtin('llvm.lifetime*', 'llvm.stacksave*', 'llvm.stackrestore*', 'llvm.va_end*', 'llvm.assume*', 'llvm.dbg*')
def _nop(ex, a, st, ins): return R(st)
@builtin('llvm.expect*')
def _expect(ex, a, st, ins): return R(st, a[0])
@builtin('llvm.trap*', 'abort', '_ZSt9terminatev', '__clang_call_terminate')
def _trap(ex, a, st, ins): return [Outcome('stop', 'abort', st)]
@builtin('llvm.is.constant*')
def _isc(ex, a, st, ins): return R(st, False)
@builtin('llvm.umul.with.overflow*')
def _umulo(ex, a, st, ins): return R(st, (imul(a[0], a[1]), False))
@builtin('llvm.uadd.with.overflow*')
def _uaddo(ex, a, st, ins): return R(st, (iadd(a[0], a[1]), False))
@builtin('llvm.smax*')
def _smax(ex, a, st, ins): return R(st, ite(lt(a[0], a[1]), a[1], a[0]))
@builtin('llvm.eh.typeid.for*')
def _typeid(ex, a, st, ins):
    v = ins.a[0][1]
    return R(st, ex.ctx.gid('typeid:' + v[1]))
@builtin('__cxa_allocate_exception')
def _exalloc(ex, a, st, ins):
    b = st.newobj({'heap': 'exc'}); st.rng('lv', b, 0, 256, lambda o: 0)
    return R(st, Ptr(b, 0))
@builtin('__cxa_free_exception')
def _exfree(ex, a, st, ins): return R(st)
@builtin('__cxa_throw')
def _throw(ex, a, st, ins):
    v = ins.a[1][1]
    return [Outcome('throw', None, st, v[1])]
@builtin('__cxa_begin_catch')
def _bc(ex, a, st, ins): return R(st, a[0])
@builtin('__cxa_end_catch')
def _ec(ex, a, st, ins): return R(st)
@builtin('__cxa_rethrow')
def _rt(ex, a, st, ins):
    raise Undecided('rethrow')
@builtin('_ZNSt11range_errorC1EPKc', '_ZNSt11range_errorD1Ev', '_ZNSt13runtime_errorC1EPKc', '_ZNSt9exceptionC2Ev', '_ZNSt9exceptionD2Ev')
def _re(ex, a, st, ins): return R(st)
@builtin('_Znwm')
def _new(ex, a, st, ins):
    b = st.newobj({'heap': 'new', 'size': a[0]}, local=False)
    st.rng('lv', b, 0, a[0], lambda o: 0)
    return R(st, Ptr(b, 0))
@builtin('_Znam')
def _newa(ex, a, st, ins):
    b = st.newobj({'heap': 'new[]', 'size': a[0]}, local=False)
    st.m['lv'] = RangeS(st.m['lv'], (lambda bb, o: eq(bb, b)), (lambda bb, o: 0), False, [b])
    return R(st, Ptr(b, 0))
@builtin('_ZdlPv', '_ZdlPvm')
def _del(ex, a, st, ins):
    p = a[0]
    ex.oblige('released once', st.copy(), or_(eq(p.b, 0), eq(st.read('fr', p.b, 0), 0)))
    st.st('fr', p.b, 0, 1); st.events.append(('delete', p))
    return R(st)
@builtin('_ZdaPv', '_ZdaPvm')
def _dela(ex, a, st, ins):
    p = a[0]
    ex.oblige('released once', st.copy(), or_(eq(p.b, 0), eq(st.read('fr', p.b, 0), 0)))
    st.st('fr', p.b, 0, 1); st.events.append(('delete[]', p))
    return R(st)
