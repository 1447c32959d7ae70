"""Terms, memory and symbolic states.

Integers are mathematical integers in the signed canonical form of their width
(python int or z3 Int); i1 is python bool or z3 Bool; floating point values are
opaque Int codes combined by uninterpreted functions; a pointer is a pair
(base, offset).  Memory is one map per leaf type, keyed by (base, offset), kept
as a persistent chain of updates over a root (an uninterpreted function).
"""
import itertools, struct
import z3
from .ir import Unsupported

z3.set_param('auto_config', True)

def isc(x): return isinstance(x, (int, bool))

def iadd(a, b):
    if isc(a) and isc(b): return a + b
    if isc(b) and b == 0: return a
    if isc(a) and a == 0: return b
    return z3.simplify(a + b)
def isub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    return z3.simplify(a - b)
def imul(a, b):
    if isc(a) and isc(b): return a * b
    if isc(b) and b == 1: return a
    if isc(a) and a == 1: return b
    if (isc(a) and a == 0) or (isc(b) and b == 0): return 0
    return z3.simplify(a * b)
def norm(x):
    if isinstance(x, z3.ExprRef):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x
def eq(a, b):
    if isc(a) and isc(b): return a == b
    if not isc(a) and not isc(b) and a.eq(b): return True
    return norm(z3.simplify(a == b))
def lt(a, b):
    if isc(a) and isc(b): return a < b
    return norm(z3.simplify(a < b))
def le(a, b):
    if isc(a) and isc(b): return a <= b
    return norm(z3.simplify(a <= b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def not_(a):
    if isc(a): return not a
    return norm(z3.Not(a)) if not z3.is_not(a) else a.arg(0)
def and_(*xs):
    out = []
    for x in xs:
        x = norm(x)
        if x is True: continue
        if x is False: return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def or_(*xs):
    out = []
    for x in xs:
        x = norm(x)
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def implies(a, b): return or_(not_(a), b)
def ite(c, a, b):
    c = norm(c)
    if c is True: return a
    if c is False: return b
    if isinstance(a, Ptr): return Ptr(ite(c, a.b, b.b), ite(c, a.o, b.o))
    if isc(a) and isc(b) and a == b and type(a) == type(b): return a
    if not isc(a) and not isc(b) and a.eq(b): return a
    if isinstance(a, bool): a = z3.BoolVal(a)
    if isinstance(b, bool): b = z3.BoolVal(b)
    return z3.If(c, a, b)
def zv(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x
def b2i(b): return ite(b, 1, 0)

class Ptr:
    __slots__ = ('b', 'o')
    def __init__(self, b, o): self.b, self.o = b, o
    def __repr__(self): return 'Ptr(%s,%s)' % (self.b, self.o)
    def add(self, d): return Ptr(self.b, iadd(self.o, d))
NULL = Ptr(0, 0)
def peq(p, q):
    if isc(p.b) and p.b == 0: return eq(q.b, 0)
    if isc(q.b) and q.b == 0: return eq(p.b, 0)
    return and_(eq(p.b, q.b), eq(p.o, q.o))

class VTA:      # address inside a vtable
    def __init__(self, sym): self.sym = sym
class VTab:     # vtable pointer loaded from object
    def __init__(self, p): self.p = p
class VSlot:
    def __init__(self, p, i): self.p, self.i = p, i
class VFn:
    def __init__(self, p, i): self.p, self.i = p, i
class FPtr:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'FPtr(%s)' % self.name

KINDS = ('i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'pb', 'po', 'vt', 'lv', 'fr', 'gv')
IRANGE = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}

# kinds of objects (type based aliasing)
K_HEAP, K_DATA, K_VAR, K_OTHER, K_STREAM = 1, 2, 3, 4, 5
kindof = z3.Function('kindof', z3.IntSort(), z3.IntSort())

def fcode(bits32, val=None):
    return bits32

I = z3.IntSort(); B = z3.BoolSort()
_uf = {}
def uf(name, nargs, ret=I, sorts=None):
    k = (name, nargs, ret is B)
    if k not in _uf:
        _uf[k] = z3.Function(name, *([I] * nargs + [ret]))
    return _uf[k]
def app(name, *args, ret=I):
    """Uninterpreted function application over Int arguments."""
    a = []
    for x in args:
        if isinstance(x, Ptr): a += [zv(x.b), zv(x.o)]
        else:
            x = zv(x)
            if z3.is_bool(x): x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            a.append(x)
    return uf(name, len(a), ret)(*a)

class Node: __slots__ = ('prev', 'n')
class Root(Node):
    __slots__ = ('name', 'fn', 'const')
    def __init__(self, name, const=None):
        self.name, self.const, self.prev = name, const, None
        self.fn = z3.Function(name, I, I, I) if const is None else None
class Store(Node):
    __slots__ = ('b', 'o', 'v')
    def __init__(self, prev, b, o, v): self.prev, self.b, self.o, self.v = prev, b, o, v
class RangeN(Node):
    """all cells (b, start <= o < start+ln); the value is val(o)"""
    __slots__ = ('b', 'start', 'ln', 'val', 'any')
    def __init__(self, prev, b, start, ln, val, any=False):
        self.prev, self.b, self.start, self.ln, self.val, self.any = prev, b, start, ln, val, any
class RangeS(Node):
    """all cells with pred(b,o); value val(b,o)"""
    __slots__ = ('pred', 'val', 'any', 'bases')
    def __init__(self, prev, pred, val, any=False, bases=None):
        self.prev, self.pred, self.val, self.any, self.bases = prev, pred, val, any, bases

class Ctx:
    """Per-verification-task global context: facts, fresh names, solver, statistics."""
    def __init__(self, prog):
        self.prog = prog
        self.facts = []; self.factids = set()
        self.cnt = itertools.count(1)
        self.ext = set()          # ast ids of terms known to be external bases (>= 0)
        self.keep = []            # keep asts alive so that ids stay unique
        self.negid = itertools.count(1)
        self.gids = {}; self.gsyms = {}
        self.clsids = {}; self.clsnames = {}
        self.solver_s = 0.0; self.nq = 0
        self.timeout = 10000
        self.ginfo = {}
        self.frozen = set()       # base ids of constant globals
        self.flts = {}
    def fresh(self, name='v', sort=I):
        return z3.Const('%s!%d' % (name, next(self.cnt)), sort)
    def newbase(self): return -next(self.negid)
    def fact(self, f):
        f = norm(f)
        if f is True: return
        if f is False: f = z3.BoolVal(False)
        i = f.get_id()
        if i not in self.factids:
            self.factids.add(i); self.facts.append(f)
    def mark_ext(self, t):
        if not isc(t):
            self.ext.add(t.get_id()); self.keep.append(t)
            self.fact(t >= 0)
    def clsid(self, sym):
        if sym not in self.clsids:
            n = len(self.clsids) + 1
            self.clsids[sym] = n; self.clsnames[n] = sym
        return self.clsids[sym]
    def gid(self, key):
        if key not in self.gids:
            n = -(1000000 + len(self.gids)); self.gids[key] = n; self.gsyms[n] = key
        return self.gids[key]
    def flt(self, bits, width):
        """Code of a float constant: an Int constant per (value,width); distinct values distinct codes."""
        key = (bits, width)
        if key not in self.flts: self.flts[key] = 10**12 + len(self.flts)
        return 7 * 10**15 + (bits if width == 64 else bits + (1 << 70))
    # ------------------------------------------------------------ solving
    def check(self, fs, timeout=None):
        import time
        t = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for f in fs:
            f = norm(f)
            if f is True: continue
            if f is False:
                return 'unsat', None
            s.add(f)
        for f in self.facts: s.add(f)
        r = s.check()
        self.nq += 1
        self.solver_s += time.time() - t
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', s.model()
        return 'unknown', s
    def feasible(self, pc):
        return self.check(pc, 3000)[0] != 'unsat'
    def defdiff_base(self, a, b, kinds=None):
        if isc(a) and isc(b): return a != b
        if isc(a) and a < 0 and not isc(b) and b.get_id() in self.ext: return True
        if isc(b) and b < 0 and not isc(a) and a.get_id() in self.ext: return True
        if kinds and not isc(a) and not isc(b):
            ka, kb = kinds.get(a.get_id()), kinds.get(b.get_id())
            if ka and kb and not (ka & kb): return True
        return False
    def same_base(self, a, b):
        if isc(a) and isc(b): return a == b
        return not isc(a) and not isc(b) and a.eq(b)

class State:
    def __init__(self, ctx):
        self.ctx = ctx
        self.m = {}
        self.pc = []
        self.past = []       # quantified facts: objects with .inst(term) -> formula
        self.bal = 0         # balance accumulator for the skolem heap
        self.locals = set()  # bases of dead-on-return locals
        self.info = {}       # base -> dict(type,size,heap)
        self.ver = None
        self.events = []
        self.kinds = {}
        self.visible = set() # negative bases that the caller can see
        self.trace = []
    def copy(self):
        s = State.__new__(State)
        s.ctx = self.ctx; s.m = dict(self.m); s.pc = list(self.pc); s.past = list(self.past); s.bal = self.bal
        s.locals = set(self.locals); s.info = dict(self.info); s.ver = self.ver; s.events = list(self.events)
        s.kinds = dict(self.kinds); s.visible = set(self.visible); s.trace = list(self.trace)
        return s
    @staticmethod
    def initial(ctx, tag=''):
        s = State(ctx)
        for k in KINDS:
            if k == 'lv': s.m[k] = Root('lv' + tag, const=1)
            elif k == 'fr': s.m[k] = Root('fr' + tag, const=0)
            else: s.m[k] = Root(k + tag)
        s.ver = z3.Int('ver' + tag)
        return s
    def assume(self, f):
        f = norm(f)
        if f is True: return
        self.pc.append(f if not isc(f) else z3.BoolVal(f))
    def addkind(self, b, ks):
        if isc(b): return
        ks = frozenset(ks)
        old = self.kinds.get(b.get_id())
        if old is not None and old <= ks: return
        new = ks if old is None else old & ks
        self.kinds[b.get_id()] = new
        self.ctx.keep.append(b)
        if new: self.assume(or_(*[kindof(b) == k for k in new]))
        else: self.assume(False)
    # ------------------------------------------------------------ raw access
    def rootval(self, node, kind, b, o):
        ctx = self.ctx
        if node.const is not None: return node.const
        if isc(b) and b in ctx.frozen and isc(o):
            v = ctx.ginfo[b].get((kind, o))
            if v is not None: return v
        if isc(b) and b == 0: b = z3.IntVal(0)
        t = node.fn(zv(b), zv(o))
        if isc(b) and b in ctx.frozen and not isc(o):
            # a table of constants: its entry at o
            d = [(k[1], v) for k, v in ctx.ginfo[b].items() if k[0] == kind]
            if len(d) <= 64:
                for k, v in d: t = ite(eq(o, k), v, t)
                return t
        if kind in IRANGE:
            n = IRANGE[kind]
            ctx.fact(z3.And(t >= -(1 << (n - 1)), t < (1 << (n - 1))))
        elif kind == 'pb':
            if not node.name.startswith('any'):
                ctx.mark_ext(t)
        return t
    def read(self, kind, b, o, node=None):
        ctx = self.ctx
        if not isc(b) and z3.is_app_of(b, z3.Z3_OP_ITE):
            x, y = norm(b.arg(1)), norm(b.arg(2))
            if isc(x) and isc(y): return ite(b.arg(0), self.read(kind, x, o, node), self.read(kind, y, o, node))
        node = node if node is not None else self.m[kind]
        acc = []
        while True:
            if isinstance(node, Root):
                v = self.rootval(node, kind, b, o); break
            if isinstance(node, Store):
                if ctx.defdiff_base(node.b, b, self.kinds): node = node.prev; continue
                if ctx.same_base(node.b, b):
                    d = isub(o, node.o); d = norm(d)
                    if isc(d):
                        if d == 0: v = node.v; break
                        node = node.prev; continue
                    acc.append((eq(d, 0), node.v)); node = node.prev; continue
                c = and_(eq(node.b, b), eq(node.o, o))
                if c is False: node = node.prev; continue
                acc.append((c, node.v)); node = node.prev; continue
            if isinstance(node, RangeN):
                if ctx.defdiff_base(node.b, b, self.kinds): node = node.prev; continue
                c = and_(eq(node.b, b), le(node.start, o), lt(o, iadd(node.start, node.ln)))
                if c is False: node = node.prev; continue
                v1 = node.val(o)
                if c is True: v = v1; break
                acc.append((c, v1)); node = node.prev; continue
            if isinstance(node, RangeS):
                if node.bases is not None and all(ctx.defdiff_base(x, b, self.kinds) for x in node.bases):
                    node = node.prev; continue
                c = norm(node.pred(b, o))
                if c is False: node = node.prev; continue
                v1 = node.val(b, o)
                if c is True: v = v1; break
                acc.append((c, v1)); node = node.prev; continue
            raise AssertionError
        for c, x in reversed(acc): v = ite(c, x, v)
        return v
    def st(self, kind, b, o, v):
        self.m[kind] = Store(self.m[kind], b, o, v)
    def ld(self, kind, p): return self.read(kind, p.b, p.o)
    def ldp(self, p):
        b = self.read('pb', p.b, p.o); o = self.read('po', p.b, p.o)
        if not isc(b) and b.get_id() in self.ctx.ext:
            self.ctx.fact(z3.Implies(b == 0, zv(o) == 0))
        return Ptr(b, o)
    def stp(self, p, v):
        self.st('pb', p.b, p.o, v.b); self.st('po', p.b, p.o, v.o)
    def rng(self, kind, b, start, ln, val, any=False):
        self.m[kind] = RangeN(self.m[kind], b, start, ln, val, any)
    def havoc(self, kind, b, start, ln, tag='any'):
        f = z3.Function('any%s!%d' % (tag, next(self.ctx.cnt)), I, I)
        n = IRANGE.get(kind)
        ctx = self.ctx
        def val(o, f=f):
            t = f(zv(o))
            if n: ctx.fact(z3.And(t >= -(1 << (n - 1)), t < (1 << (n - 1))))
            return t
        self.rng(kind, b, start, ln, val, True)
    def copyrange(self, src, sb, so, db, do, ln, kinds=KINDS):
        """memory copy of ln bytes in every map; src is a snapshot State"""
        for k in kinds:
            if k in ('lv', 'fr', 'gv'): continue
            node = src.m[k]
            def val(o, node=node, k=k):
                return src.read(k, sb, iadd(so, isub(o, do)), node)
            self.rng(k, db, do, ln, val)
    def newobj(self, info=None, local=True):
        b = self.ctx.newbase()
        self.info[b] = info or {}
        if local: self.locals.add(b)
        return b

def _isany(self, kind, b, o, node=None):
    """condition under which the value of a cell is unspecified (comes from a havoc)"""
    ctx = self.ctx
    node = node if node is not None else self.m[kind]
    acc = []
    v = False
    while True:
        if isinstance(node, Root): break
        if isinstance(node, Store): c, x = and_(eq(node.b, b), eq(node.o, o)), False
        elif isinstance(node, RangeN): c, x = and_(eq(node.b, b), le(node.start, o), lt(o, iadd(node.start, node.ln))), node.any
        else: c, x = norm(node.pred(b, o)), node.any
        if c is True: v = x; break
        if c is not False: acc.append((c, x))
        node = node.prev
    for c, x in reversed(acc): v = ite(c, zv(x), zv(v)) if not (isc(v) and v == x) else v
    return v
State.isany = _isany
