import os
"""Contracts: used at call sites, and checked against the extracted bodies."""
import z3, time
from .ir import *
from .core import *
from .exe import *

class Case:
    def __init__(self, name, guard, kind, ret, exc, post, ensures, foralls):
        self.name, self.guard, self.kind, self.ret, self.exc, self.post = name, guard, kind, ret, exc, post
        self.ensures, self.foralls = ensures, foralls

class C:
    """evaluation context of a specification"""
    def __init__(self, ex, contract, mode, args, pre, out=None):
        self.ex, self.ctx, self.contract, self.mode, self.a, self.pre, self.out = ex, ex.ctx, contract, mode, args, pre, out
        self.cases = []; self.reqs = []; self.wits = []; self.owned = []
        self.vararg = []
    @property
    def fin(self):
        """final state in check mode"""
        return self.out.st
    def post(self): return self.pre.copy()
    def require(self, f, what=''): self.reqs.append((f, what))
    def case(self, name='', guard=True, kind='ret', ret=None, exc=None, post=None, ensures=(), foralls=()):
        self.cases.append(Case(name, guard, kind, ret, exc, post if post is not None else self.pre.copy(), list(ensures), list(foralls)))
    def throws(self, name, guard, exc=None, post=None):
        self.case(name, guard, kind='throw', exc=exc, post=post)
    def newref(self, observed, ty='new'):
        """a fresh object: the observed pointer in check mode, a new base in use mode"""
        if self.mode == 'use':
            b = self.ctx.newbase()
            return Ptr(b, 0)
        p = observed(self.out)
        self.wits.append(p)
        return p
    def newown(self, observed):
        """a fresh object whose contents the specification gives by ensures only (in check mode)"""
        if self.mode == 'use': return Ptr(self.ctx.newbase(), 0)
        p = observed(self.out); self.owned.append(p)
        return p
    def isnew(self, p):
        """p points to an object allocated by the call"""
        if self.mode == 'use': return True
        return or_(*[eq(p.b, b) for b, i in self.out.st.info.items() if i.get('heap') in ('new', 'new[]', 'callee') and b not in self.pre.info])
    def unknown(self, observed, name='r', sort=I):
        """a value the specification leaves open (constrained by ensures)"""
        if self.mode == 'use': return self.ctx.fresh(name, sort)
        return observed(self.out)
    def ret(self, sort=I, name='r'):
        if self.mode == 'use':
            if sort == 'ptr': return Ptr(self.ctx.fresh(name), self.ctx.fresh(name))
            return self.ctx.fresh(name, sort)
        return self.out.val

class Contract:
    def __init__(self, name, args, spec, assumes=None, ctor=None, dtor=None, loops=None, opts=None, props=(), setup=None,
                 trusted=False, keep=(), check_post=None, inline=(), title=None, covers=True, cls=None, excl=None, local=None):
        self.name, self.args, self.spec, self.assumes = name, args, spec, assumes
        self.ctor, self.dtor = ctor, dtor      # index of the var argument that begins / ends its life
        self.loops, self.opts, self.props, self.setup = loops or {}, opts or {}, list(props), setup
        self.trusted = trusted
        self.check_post = check_post
        self.excl = excl
        self.local = local or {}
        self.title = title
    # ------------------------------------------------------------ use
    def use(self, ex, args, st):
        c = C(ex, self, 'use', args, st)
        self.spec(c)
        for f, what in c.reqs:
            ex.oblige('precondition of %s%s' % (short(self.name), ': ' + what if what else ''), st.copy(), f)
        outs = []
        single = len(c.cases) == 1
        for k in c.cases:
            g = norm(k.guard)
            if g is False: continue
            s = k.post
            if not (g is True):
                if not single and not ex.ctx.feasible(st.pc + [g]): continue
                s.assume(g)
            for e in k.ensures: s.assume(e)
            for (lo, hi, f) in k.foralls: s.past.append(Forall(lo, hi, f))
            outs.append(Outcome(k.kind, k.ret, s, k.exc))
        if not outs: 
            # contradictory path
            return []
        return outs

class Lemma:
    """a fact about contracts alone, proved from their definitions"""
    trusted = False
    def __init__(self, name, f, props, title=None): self.name, self.f, self.props, self.title = name, f, list(props), title or name
def prove_lemma(con, timeout, res):
    for nm, hyps, goal in con.f():
        s = z3.Solver(); s.set('timeout', timeout); t = time.time()
        for h in hyps: s.add(h)
        s.add(z3.Not(goal)); r = str(s.check())
        st = {'unsat': 'discharged', 'sat': 'failed'}.get(r, 'unknown')
        s2 = z3.Solver(); s2.set('timeout', 2000)
        for h in hyps: s2.add(h)
        if str(s2.check()) == 'unsat': st = 'unknown'
        res['obligations'].append({'name': '%s / %s' % (con.title, nm), 'status': st, 'backend': 'z3', 't': round(time.time() - t, 4)})
    res['covered'] = {'lemma': 1}; res['paths'] = 1

class Forall:
    def __init__(self, lo, hi, f): self.lo, self.hi, self.f = lo, hi, f
    def inst(self, t): return implies(and_(le(self.lo, t), lt(t, self.hi)), self.f(t))

def mkargs(ex, con, st):
    """symbolic arguments of the function under verification"""
    ctx = ex.ctx
    out = []
    for i, a in enumerate(con.args):
        opt = None
        if '=' in a: a, opt = a.split('=', 1)
        nm = 'arg%d' % i
        if a == 'heap':
            b = z3.Int(nm + '_b'); ctx.mark_ext(b); ctx.fact(b >= 1)
            st.addkind(b, {K_HEAP})
            if opt: st.st('vt', b, 0, ctx.clsid('_ZTVN6libube%d%sE' % (len(opt), opt)))
            out.append(Ptr(b, 0))
        elif a == 'heap0':      # possibly null
            b = z3.Int(nm + '_b'); ctx.mark_ext(b)
            out.append(Ptr(b, 0))
        elif a == 'obj':        # object of class opt (mangled vtable class), base external
            b = z3.Int(nm + '_b'); ctx.mark_ext(b); ctx.fact(b >= 1)
            st.addkind(b, {K_STREAM})
            if opt: st.st('vt', b, 0, ctx.clsid('_ZTV' + opt))
            out.append(Ptr(b, 0))
        elif a == 'var':
            b, o = z3.Int(nm + '_b'), z3.Int(nm + '_o'); ctx.mark_ext(b); ctx.fact(b >= 1); ctx.fact(o >= 0)
            st.addkind(b, {K_DATA, K_VAR})
            out.append(Ptr(b, o))
        elif a in ('val', 'sret', 'ctor', 'loc'):
            b = ctx.newbase(); st.visible.add(b); st.info[b] = {'arg': nm}
            if a in ('sret', 'ctor', 'loc'): st.rng('lv', b, 0, 4096, lambda o: 0)
            else: st.rng('lv', b, 0, 16, lambda o: 1)
            out.append(Ptr(b, 0))
        elif a == 'newheap':    # object under construction
            b = ctx.newbase(); st.visible.add(b); st.info[b] = {'arg': nm}
            st.rng('lv', b, 0, 4096, lambda o: 0)
            out.append(Ptr(b, 0))
        elif a == 'ptr':
            b, o = z3.Int(nm + '_b'), z3.Int(nm + '_o'); ctx.mark_ext(b); ctx.fact(b >= 1); ctx.fact(o >= 0)
            out.append(Ptr(b, o))
        elif a in ('i32', 'i64', 'i8', 'i16'):
            if opt is not None: out.append(int(opt)); continue
            n = int(a[1:]); v = z3.Int(nm); ctx.fact(z3.And(v >= -(1 << (n-1)), v < (1 << (n-1)))); out.append(v)
        elif a == 'i1': out.append(z3.Bool(nm) if opt is None else opt == '1')
        elif a in ('f32', 'f64'): out.append(z3.Int(nm))
        elif a == 'cf32': out.append((z3.Int(nm + 're'), z3.Int(nm + 'im')))
        else: raise Exception('argument kind ' + a)
    return out

_LB = None
def loopbase():
    """the loops of the unchanged tree: contracts/loops.json, written by tools/mkloops.py"""
    global _LB
    if _LB is None:
        import json
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'loops.json')
        _LB = json.load(open(p)) if os.path.exists(p) and not os.environ.get('NOLOOPBASE') else {}
    return _LB
def conkey(con): return con.name + '/' + ','.join(con.args) + '/' + ','.join(con.props)
class Result:
    def __init__(self, name): self.name = name; self.status = None; self.detail = ''; self.backend = 'z3'; self.t = 0.0

def verify(prog, contracts, con, timeout=10000, variant=None, want=None):
    """Checks one contract against the body in prog.  Returns dict."""
    t0 = time.time()
    ctx = Ctx(prog); ctx.timeout = timeout
    res = {'function': con.name, 'title': short(con.name) if not con.title else con.title, 'obligations': [], 'undecided': None, 'paths': 0, 'covered': [], 'inlined': [], 'used': []}
    try:
        if isinstance(con, Lemma): prove_lemma(con, timeout, res)
        else: _verify(prog, contracts, con, ctx, res)
    except (Undecided, Unsupported) as e:
        res['undecided'] = str(e)
    except RecursionError:
        res['undecided'] = 'recursion limit'
    except z3.Z3Exception as e:
        res['undecided'] = 'z3: ' + str(e)
    res['solver_s'] = ctx.solver_s; res['queries'] = ctx.nq; res['wall_s'] = time.time() - t0
    return res

def _verify(prog, contracts, con, ctx, res):
    name = con.name[2:] if con.name.startswith('V:') else con.name
    name = name.split('@')[0]
    fn = prog.func(name)
    if fn is None: raise Undecided('function %s not found in the extracted code' % name)
    use = dict(contracts) if not con.opts.get('closed') else {k: v for k, v in contracts.items() if v is not None and v.trusted}
    use.update(con.local)
    if con.name in use and con.name.startswith('_Z') and '@' not in con.name: pass
    ex = Exec(ctx, {k: v for k, v in use.items() if v is not None}, checking=None)
    ex.contracts = {k: v for k, v in ex.contracts.items()}
    ex.loopspecs = {(name, k) if not isinstance(k, tuple) else k: v for k, v in con.loops.items()}
    ex.opts = dict(con.opts)
    base = loopbase().get(conkey(con), []) if loopbase() else None
    if base is not None: ex.loopbase = ({x[0] for x in base}, name)
    st = State.initial(ctx)
    args = mkargs(ex, con, st)
    ctx.fact(ex.owner_heap != 0)
    if con.setup: con.setup(ex, args, st)
    pre0 = None
    if con.assumes:
        for f in con.assumes(C(ex, con, 'check', args, st)): st.assume(f)
    creq = C(ex, con, 'req', args, st)
    # preconditions: evaluate the spec once in 'req' mode to collect them
    class Dummy: pass
    try:
        creq.out = Outcome('ret', None, st)
        con.spec(creq)
        reqs = creq.reqs
    except Exception:
        # specifications that inspect the outcome: collect the requires with a symbolic outcome
        creq2 = C(ex, con, 'use', args, st.copy()); con.spec(creq2); reqs = creq2.reqs
    for f, _ in reqs: st.assume(f)
    if not ctx.check(st.pc)[0] == 'sat':
        raise Undecided('precondition not satisfiable')
    pre = st.copy()
    run = st.copy()
    # arity: trailing struct-by-value etc. must match
    if len(args) != len(fn.params) and not fn.vararg: raise Undecided('parameters of %s changed' % name)
    exargs = list(args)
    if fn.vararg: exargs = args[:len(fn.params)]
    outs = ex.exec_func(fn, exargs, run)
    res['paths'] = len(outs)
    res['inlined'] = sorted(short(x) for x in ex.inlined); res['used'] = sorted(ex.used)
    res['loops'] = getattr(ex, 'loopchecks', 0); res['loopinfo'] = ex.loopinfo
    obl = list(ex.obl)
    covered = {}
    for out in outs:
        if out.kind == 'stop':
            obl.append(('does not abort or fall off the end (%s)' % out.val, out.st, z3.BoolVal(False))); continue
        c = C(ex, con, 'check', args, pre, out)
        ex.quiet += 1
        con.spec(c)
        ex.quiet -= 1
        guards = []
        for k in c.cases:
            g = norm(k.guard)
            guards.append(g)
            if g is False: continue
            s = out.st.copy(); s.assume(g)
            if g is not True and not ctx.feasible(s.pc): continue
            covered[k.name] = covered.get(k.name, 0) + 1
            lab = (k.name + ': ') if k.name else ''
            if k.kind != out.kind:
                obl.append((lab + ('must raise an exception' if k.kind == 'throw' else 'must return normally'), s, z3.BoolVal(False))); continue
            if k.kind == 'throw' and k.exc is not None and k.exc != out.exc:
                obl.append((lab + 'raises ' + k.exc, s, z3.BoolVal(False))); continue
            if k.kind == 'ret' and k.ret is not None:
                for g2 in reteq(out.val, k.ret): obl.append((lab + 'result', s, g2))
            for e in k.ensures: obl.append((lab + 'postcondition', s, e))
            for (lo, hi, f) in k.foralls:
                sk = ctx.fresh('sk')
                s3 = s.copy(); s3.assume(and_(le(lo, sk), lt(sk, hi)))
                obl.append((lab + 'postcondition (for all)', s3, f(sk), [sk, sk - 1]))
            # lives
            fin = out.st
            if con.ctor is not None and out.kind == 'ret':
                fin = fin.copy(); ex.setlive(fin, args[con.ctor], True)
                p = args[con.ctor]; k.post.st('lv', p.b, p.o, 1)
            if con.dtor is not None and out.kind == 'ret':
                fin = fin.copy(); ex.setlive(fin, args[con.dtor], False)
                p = args[con.dtor]; k.post.st('lv', p.b, p.o, 0)
            if out.kind == 'throw' and con.args and con.args[0] == 'sret' and isinstance(args[0], Ptr):
                # what an exception leaves in storage that holds no object is nobody's business
                k.post.havoc('gv', args[0].b, args[0].o, 1)
            for w, a in zip(con.args, args):
                # nor what is left of a parameter passed by value (it may be moved from)
                if w == 'val' and isinstance(a, Ptr): k.post.havoc('gv', a.b, a.o, 1)
            # memory
            wb = [w.b for w in c.wits if isinstance(w, Ptr)]
            for kind in KINDS:
                g3 = memgoal(ex, fin, k.post, pre, kind, s, wb, con.excl, con.opts.get('rcfield'))
                if g3 is None: continue
                s3, goal, ins = g3
                if con.opts.get('at'): ins = ins + con.opts['at'](ins[1])
                obl.append((lab + {'lv': 'lifetimes', 'fr': 'releases'}.get(kind, 'memory (%s) and frame' % kind), s3, goal, ins))
            if con.opts.get('bal', True):
                obl.append((lab + 'ownership: references taken equal references held', s, eq(fin.bal, k.post.bal)))
            if con.opts.get('events'):
                for nm, g4 in con.opts['events'](c, k, out): obl.append((lab + nm, s, g4))
            # temporaries destroyed
            for b in out.st.locals:
                inf = out.st.info.get(b, {})
                ty = inf.get('ty')
                if ty is None or not hasvar(prog, ty): continue
                offs = varoffs(prog, ty)
                g5 = and_(*[eq(out.st.read('lv', b, o), 0) for o in offs])
                if g5 is not True: obl.append((lab + 'temporary %s destroyed' % inf.get('name'), s, g5))
            for b, inf in out.st.info.items():
                if inf.get('heap') in ('new', 'new[]') and b not in pre.info:
                    alts = [eq(out.st.read('fr', b, 0), 1)] + [eq(w, b) for w in wb] + [eq(w.b, b) for w in c.owned]
                    g6 = or_(*alts)
                    if g6 is not True: obl.append((lab + 'allocation is owned or released', s, g6))
        cov = or_(*guards)
        if cov is not True: obl.append(('cases are exhaustive', out.st, cov))
    res['covered'] = covered
    if not outs: raise Undecided('no outcome')
    # vacuity: at least one outcome is reachable
    if not any(ctx.check(o.st.pc)[0] == 'sat' for o in outs[:20]): raise Undecided('no reachable outcome')
    # a failure that starts from an arbitrary state of a loop is not a counterexample when the loop was rewritten and what was
    # known about it on the unchanged tree could not be established again
    lost = set()
    if base is not None:
        for nm, hi, sig, hav, nact in ex.loopinfo:
            if any(sig == x[1] for x in base): continue
            if hav == 0 and not any(x[3] for x in base): continue
            lost.add((nm, hi))
    # discharge
    title = res['title']
    groups = {}
    for ob in obl:
        nm, s, g = ob[0], ob[1], ob[2]
        ins = ob[3] if len(ob) > 3 else []
        g = norm(g)
        r = {'name': '%s / %s' % (title, nm), 'status': None}
        t = time.time()
        if g is True: r['status'] = 'discharged'; r['backend'] = 'simplifier'
        else:
            fs = list(s.pc)
            for p in s.past:
                for x in ins: fs.append(p.inst(x))
                for x in getattr(s, 'insts', []): fs.append(p.inst(x))
            st_, m = ctx.check(fs + [not_(g)])
            r['backend'] = 'z3'
            if st_ == 'unknown':
                st_ = cvc5_check(ctx, fs + [not_(g)]); r['backend'] = 'cvc5'
            if st_ == 'unsat': r['status'] = 'discharged'
            elif st_ == 'sat':
                r['status'] = 'failed'
                if any(('loop',) + x in s.trace for x in lost): r['status'] = 'unknown'; r['name'] += ' (the loop was rewritten and its invariant is not established)'
                r['model'] = modelstr(m)
                if os.environ.get('DBG'): r['model'] = debug(m, g, fs)
            else: r['status'] = 'unknown'
        r['t'] = round(time.time() - t, 4)
        res['obligations'].append(r)

def cvc5_check(ctx, fs):
    import subprocess, tempfile, os
    s = z3.Solver()
    for f in fs + ctx.facts:
        f = norm(f)
        if f is True: continue
        if f is False: return 'unsat'
        s.add(f)
    fd, p = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as fh: fh.write('(set-logic ALL)\n' + s.to_smt2())
    try:
        o = subprocess.run(['cvc5', '--tlimit=10000', p], capture_output=True, text=True).stdout.split()
    finally: os.unlink(p)
    return o[0] if o and o[0] in ('unsat', 'sat') else 'unknown'

def debug(m, g, fs):
    out = ['GOAL ' + str(zv(g))]
    seen = set(); todo = [zv(g)]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or len(out) > 60: continue
        seen.add(t.get_id())
        if not z3.is_int_value(t): out.append('  %s  =  %s' % (str(t).replace('\n', ' ')[:160], m.eval(t)))
        todo += t.children()
    return '\n'.join(out)
def modelstr(m):
    if m is None: return ''
    out = []
    for d in m.decls():
        if d.arity() == 0 and ('arg' in d.name() or 'sk' in d.name() or 'n!' in d.name()): out.append('%s=%s' % (d.name(), m[d]))
    return ', '.join(sorted(out))[:600]

def hasvar(prog, ty):
    return bool(varoffs(prog, ty))
def varoffs(prog, ty, off=0):
    if ty.k == 'named':
        if ty.name == VARTY: return [off]
        if not ty.name.startswith(('class.libube', 'struct.libube')) : return []
        r = prog.named(ty.name)
    else: r = ty
    if r.k == 'struct':
        out = []
        for f, o in zip(r.fs, prog.layout(r)[2]): out += varoffs(prog, f, off + o)
        return out
    if r.k == 'arr':
        s = prog.layout(r.el)[0]; out = []
        for i in range(r.n): out += varoffs(prog, r.el, off + i * s)
        return out
    return []

def reteq(v, w):
    if isinstance(w, Ptr):
        if not isinstance(v, Ptr): return [z3.BoolVal(False)]
        return [and_(eq(v.b, w.b), or_(eq(v.b, 0), eq(v.o, w.o)))]
    if isinstance(w, tuple):
        return [x for a, b in zip(v, w) for x in reteq(a, b)]
    return [beq(v, w)]

def relevant(st, node, root, locs):
    out = []
    while node is not root:
        if isinstance(node, Root): return None
        b = getattr(node, 'b', None)
        if isinstance(node, RangeS):
            bs = node.bases
            if bs is None or any(not (isc(x) and x in locs) for x in bs): out.append(node)
        elif not (isc(b) and b in locs): out.append(node)
        node = node.prev
    return out

def memgoal(ex, fin, post, pre, kind, s, wb, excl, rcfield=False):
    ctx = ex.ctx
    if kind in ('vt',) and fin.m[kind] is pre.m[kind] and post.m[kind] is pre.m[kind]: return None
    a = relevant(fin, fin.m[kind], pre.m[kind], fin.locals)
    b = relevant(post, post.m[kind], pre.m[kind], fin.locals)
    newobjs = {x for x, i in fin.info.items() if i.get('heap') in ('new', 'new[]', 'exc', 'callee') and x not in pre.info}
    if a is not None: a = [n for n in a if not (not isinstance(n, RangeS) and isc(n.b) and n.b in newobjs and not any(not isc(w) or w == n.b for w in wb))]
    if a == [] and b == []: return None
    bs, os_ = ctx.fresh('skb'), ctx.fresh('sko')
    dom = [bs >= 0, bs <= -1000000] + [bs == v for v in pre.visible] + [bs == zv(w) for w in wb]
    s3 = s.copy()
    s3.assume(z3.Or(*dom))
    for v in fin.locals: s3.assume(bs != v)
    if kind == 'i32' and not rcfield: s3.assume(z3.Not(z3.And(kindof(bs) == K_HEAP, os_ == 36)))
    an = post.isany(kind, bs, os_)
    s3.assume(not_(an))
    if excl:
        for x in excl(ex, kind, bs, os_, pre): s3.assume(not_(x))
    g = beq(fin.read(kind, bs, os_), post.read(kind, bs, os_))
    return s3, g, [bs, os_]
