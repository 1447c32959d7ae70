"""Parser for the textual LLVM IR that clang produces from /repo's sources.

Nothing is dropped except debug/attribute metadata: every instruction of every
function body is parsed (on demand), and an instruction that the executor does
not understand raises Unsupported rather than being skipped.
"""
import re

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"
 | [%@]"(?:[^"\\]|\\.)*"
 | [%@!#][-a-zA-Z$._0-9]+
 | "(?:[^"\\]|\\.)*"
 | 0x[KMLHR]?[0-9A-Fa-f]+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | -?\d+
 | \.\.\.
 | [A-Za-z_][A-Za-z_0-9.]*
 | [\[\]{}()<>,=*:|!]
''', re.X)

def tokenize(s):
    return TOK.findall(s)

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'fs', 'packed', 'name')
    def __init__(self, k, n=0, el=None, fs=None, packed=False, name=None):
        self.k, self.n, self.el, self.fs, self.packed, self.name = k, n, el, fs, packed, name
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.el)
        if self.k == 'named': return '%' + self.name
        if self.k == 'struct': return '{%s}' % ', '.join(map(repr, self.fs))
        return self.k

VOID = Ty('void'); PTR = Ty('ptr'); F32 = Ty('float'); F64 = Ty('double'); F80 = Ty('x86_fp80')
OTHER = Ty('other')
INTS = {}
def INT(n):
    if n not in INTS: INTS[n] = Ty('int', n)
    return INTS[n]

def unq(t):
    return t[0] + t[2:-1] if len(t) > 1 and t[1] == '"' else t

class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise Unsupported('parse: expected %s got %s in %s' % (x, y, ' '.join(self.t)[:200]))
    def type(self):
        t = self.next()
        ty = None
        if t == 'void': ty = VOID
        elif t == 'ptr': ty = PTR
        elif t == 'float': ty = F32
        elif t == 'double': ty = F64
        elif t == 'x86_fp80': ty = F80
        elif t in ('metadata', 'token', 'label', 'opaque'): ty = OTHER
        elif re.match(r'i\d+$', t): ty = INT(int(t[1:]))
        elif t[0] == '%': ty = Ty('named', name=unq(t)[1:])
        elif t == '[':
            n = int(self.next()); self.expect('x'); el = self.type(); self.expect(']')
            ty = Ty('arr', n, el)
        elif t == '<' and self.peek() != '{':
            n = int(self.next()); self.expect('x'); el = self.type(); self.expect('>')
            ty = Ty('vec', n, el)
        elif t == '<' or t == '{':
            packed = t == '<'
            if packed: self.expect('{')
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            if packed: self.expect('>')
            ty = Ty('struct', fs=fs, packed=packed)
        else:
            raise Unsupported('parse: type %r in %s' % (t, ' '.join(self.t)[:200]))
        if self.peek() == '(' and ty.k != 'ptr':   # function type
            j = self.i; depth = 0
            # only a function type if followed later by a value; caller handles
        return ty
    ATTRW = {'noundef', 'nonnull', 'noalias', 'signext', 'zeroext', 'writable', 'inreg', 'returned',
             'nocapture', 'readonly', 'readnone', 'writeonly', 'immarg', 'swiftself', 'nofree', 'dead_on_unwind'}
    ATTRP = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'captures', 'range', 'nofpclass',
             'elementtype'}
    def attrs(self):
        out = {}
        while True:
            p = self.peek()
            if p in self.ATTRW: out[self.next()] = True
            elif p in self.ATTRP:
                a = self.next()
                if a == 'align' and self.peek() != '(':
                    out[a] = self.next(); continue
                self.expect('('); d = 1; s = []
                while d:
                    x = self.next()
                    if x == '(': d += 1
                    if x == ')': d -= 1
                    if d: s.append(x)
                out[a] = s
            else: return out
    # values: ('l',name) ('g',name) ('c',int) ('f',str) ('null',) ('undef',) ('zero',) ('gep',...) ('agg',[..])
    def value(self, ty):
        t = self.next()
        if t[0] == '%': return ('l', unq(t)[1:])
        if t[0] == '@': return ('g', unq(t)[1:])
        if t in ('true', 'false'): return ('c', t == 'true')
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if re.match(r'-?\d+$', t):
            if ty.k in ('float', 'double'): return ('f', t)
            return ('c', int(t))
        if t.startswith('0x') or re.match(r'-?\d+\.', t): return ('f', t)
        if t[:2] == 'c"': return ('str', t[2:-1])
        if t in ('getelementptr',):
            inb = False
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            self.expect('(')
            bt = self.type(); self.expect(',')
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type(); idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', bt, base, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext'):
            self.expect('('); t1 = self.type(); v = self.value(t1); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('cast', t, t1, v, t2)
        if t == '<' or t == '{' or t == '[':
            packed = False
            if t == '<' and self.peek() == '{': packed = True; self.next()
            close = {'<': '>', '{': '}', '[': ']'}[t]
            if packed: close = '}'
            vs = []
            if not self.accept(close):
                while True:
                    et = self.type(); vs.append((et, self.value(et)))
                    if self.accept(close): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', vs)
        if t in ('sub', 'add', 'mul', 'icmp', 'select'):
            raise Unsupported('constant expression ' + t)
        raise Unsupported('parse: value %r in %s' % (t, ' '.join(self.t)[:200]))
    def tv(self):
        ty = self.type(); a = self.attrs(); v = self.value(ty)
        return ty, v, a

class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'text')
    def __init__(self, op, dst, text): self.op, self.dst, self.text = op, dst, text; self.ty = None; self.a = None; self.x = None
    def __repr__(self): return self.text

class Block:
    def __init__(self, name): self.name = name; self.ins = []
    @property
    def term(self): return self.ins[-1]
    def succ(self):
        t = self.term
        if t.op == 'br': return [t.x[-1]] if len(t.x) == 1 else [t.x[1], t.x[2]]
        if t.op == 'switch': return [t.x[2]] + [l for _, l in t.x[3]]
        if t.op == 'invoke': return [t.x['normal'], t.x['unwind']]
        return []

class Param:
    def __init__(self, ty, name, attrs): self.ty, self.name, self.attrs = ty, name, attrs

class Func:
    def __init__(self, name, lines, mod):
        self.name, self.lines, self.mod = name, lines, mod
        self._parsed = False
    def parse(self):
        if self._parsed: return self
        self._parsed = True
        hdr = self.lines[0]
        m = re.search(r'@("[^"]+"|[-\w$.]+)\(', hdr)
        pre = hdr[:m.start()]
        # return type: last type in the prefix (skip linkage words)
        toks = tokenize(pre)
        SKIP = {'define', 'dso_local', 'linkonce_odr', 'internal', 'weak_odr', 'hidden', 'mustprogress', 'noundef', 'nonnull',
                'signext', 'zeroext', 'noalias', 'private', 'available_externally', 'extern_weak', 'weak', 'local_unnamed_addr', 'unnamed_addr', 'comdat', 'preemptable'}
        p = Parser(toks)
        while p.peek() in SKIP or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null'):
            w = p.next()
            if w in ('align',): p.next()
            elif w.startswith('dereferenceable'): p.next(); p.next(); p.next()
        self.ret = p.type()
        # params
        d = 0; j = m.end() - 1; k = j
        inq = False
        while True:
            ch = hdr[k]
            if ch == '"': inq = not inq
            if not inq:
                if ch == '(': d += 1
                if ch == ')':
                    d -= 1
                    if d == 0: break
            k += 1
        p = Parser(tokenize(hdr[j + 1:k]))
        self.params = []; self.vararg = False
        while p.peek() is not None:
            if p.accept('...'): self.vararg = True; break
            ty = p.type(); at = p.attrs(); nm = None
            if p.peek() and p.peek()[0] == '%': nm = unq(p.next())[1:]
            self.params.append(Param(ty, nm, at))
            if not p.accept(','): break
        # body
        self.blocks = {}; self.order = []
        cur = None
        body = self.lines[1:]
        i = 0
        nparam = len(self.params)
        while i < len(body):
            ln = body[i]; i += 1
            if not ln.strip() or ln.lstrip().startswith(';'): continue
            m = re.match(r'^("(?:[^"]+)"|[-\w$.]+):', ln)
            if m:
                nm = m.group(1).strip('"')
                cur = Block(nm); self.blocks[nm] = cur; self.order.append(nm); continue
            if cur is None:
                cur = Block('%entry'); self.blocks['%entry'] = cur; self.order.append('%entry')
            s = ln.strip()
            if re.search(r'(^|= )switch ', s):
                while not s.rstrip().endswith(']') and ']' not in s.split('[', 1)[1]:
                    s += ' ' + body[i].strip(); i += 1
            if re.search(r'(^|= )invoke ', s) and ' unwind label ' not in s:
                s += ' ' + body[i].strip(); i += 1
            if '= landingpad' in s:
                while i < len(body) and re.match(r'\s+(cleanup|catch|filter)\b', body[i]):
                    s += ' ' + body[i].strip(); i += 1
            s = re.sub(r',? ![-\w.]+ !\d+', '', s)
            cur.ins.append(parse_ins(s))
        self.preds = {b: [] for b in self.blocks}
        for b in self.order:
            for t in self.blocks[b].succ():
                self.preds[t].append(b)
        self._loops()
        self.lines = None
        return self
    def _loops(self):
        entry = self.order[0]
        # dominators (iterative)
        rpo = []; seen = set()
        st = [(entry, iter(self.blocks[entry].succ()))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for t in it:
                if t not in seen:
                    seen.add(t); st.append((t, iter(self.blocks[t].succ()))); break
            else:
                rpo.append(b); st.pop()
        rpo.reverse()
        dom = {b: set(rpo) for b in rpo}; dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in self.preds[b] if p in dom]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        self.loops = {}
        for b in rpo:
            for t in self.blocks[b].succ():
                if t in dom[b]:
                    body = self.loops.setdefault(t, {t})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body: continue
                        body.add(x); stk.extend(p for p in self.preds[x] if p in dom)
        self.rpo = rpo

FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'atomic', 'disjoint', 'nneg', 'nusw', 'samesign'}

def parse_ins(s):
    toks = tokenize(s)
    p = Parser(toks)
    dst = None
    if p.peek(1) == '=':
        dst = unq(p.next())[1:]; p.next()
    op = p.next()
    I = Ins(op, dst, s)
    while op in ('tail', 'musttail', 'notail'):
        op = p.next(); I.op = op
    fl = set()
    while p.peek() in FLAGS: fl.add(p.next())
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        I.ty, I.a, I.x = ty, (a, b), fl
    elif op == 'fneg':
        ty = p.type(); I.ty, I.a = ty, (p.value(ty),)
    elif op in ('icmp', 'fcmp'):
        pr = p.next()
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        I.ty, I.a, I.x = ty, (a, b), pr
    elif op == 'alloca':
        I.ty = p.type(); I.a = None
        if p.accept(','):
            if p.peek() != 'align': t = p.type(); I.a = (t, p.value(t))
    elif op == 'load':
        ty = p.type(); p.expect(','); pt, v, _ = p.tv()
        I.ty, I.a = ty, (v,)
    elif op == 'store':
        ty, v, _ = p.tv(); p.expect(','); pt, q, _ = p.tv()
        I.ty, I.a = ty, (v, q)
    elif op == 'getelementptr':
        bt = p.type(); p.expect(','); pt, base, _ = p.tv(); idx = []
        while p.accept(','):
            it = p.type(); idx.append((it, p.value(it)))
        I.ty, I.a, I.x = bt, base, idx
    elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
        t1 = p.type(); v = p.value(t1); p.expect('to'); t2 = p.type()
        I.ty, I.a, I.x = t1, (v,), t2
    elif op == 'br':
        if p.accept('label'): I.x = [unq(p.next())[1:]]
        else:
            ty = p.type(); c = p.value(ty); p.expect(','); p.expect('label'); a = unq(p.next())[1:]
            p.expect(','); p.expect('label'); b = unq(p.next())[1:]
            I.x = [c, a, b]
    elif op == 'switch':
        ty = p.type(); v = p.value(ty); p.expect(','); p.expect('label'); d = unq(p.next())[1:]
        p.expect('['); cs = []
        while not p.accept(']'):
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); cs.append((c, unq(p.next())[1:]))
        I.x = (ty, v, d, cs)
    elif op == 'ret':
        ty = p.type(); I.ty = ty
        I.a = (p.value(ty),) if ty.k != 'void' else ()
    elif op == 'resume':
        ty = p.type(); I.ty = ty; I.a = (p.value(ty),)
    elif op == 'unreachable': pass
    elif op == 'phi':
        ty = p.type(); I.ty = ty; I.x = []
        while True:
            p.expect('['); v = p.value(ty); p.expect(','); l = unq(p.next())[1:]; p.expect(']')
            I.x.append((v, l))
            if not p.accept(','): break
    elif op == 'select':
        t = p.type(); c = p.value(t); p.expect(','); t1 = p.type(); a = p.value(t1); p.expect(','); t2 = p.type(); b = p.value(t2)
        I.ty, I.a = t1, (c, a, b)
    elif op in ('extractvalue', 'insertvalue', 'extractelement', 'insertelement'):
        ty = p.type(); v = p.value(ty); I.ty = ty
        if op == 'extractvalue':
            idx = []
            while p.accept(','): idx.append(int(p.next()))
            I.a, I.x = (v,), idx
        elif op == 'insertvalue':
            p.expect(','); t2 = p.type(); e = p.value(t2); idx = []
            while p.accept(','): idx.append(int(p.next()))
            I.a, I.x = (v, e), idx
        elif op == 'extractelement':
            p.expect(','); t2 = p.type(); e = p.value(t2); I.a = (v, e)
        else:
            p.expect(','); t2 = p.type(); e = p.value(t2); p.expect(','); t3 = p.type(); k = p.value(t3); I.a = (v, e, k)
    elif op == 'landingpad':
        I.ty = p.type(); I.x = toks
    elif op in ('call', 'invoke'):
        while p.peek() in ('fastcc', 'ccc', 'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'align', 'dereferenceable', 'dereferenceable_or_null', 'reassoc', 'nsz'):
            w = p.next()
            if w == 'align': p.next()
            elif w.startswith('deref'): p.next(); p.next(); p.next()
        rt = p.type()
        vararg = False
        if p.peek() == '(':     # full function type
            d = 0
            while True:
                x = p.next()
                if x == '...': vararg = True
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
        if p.peek() == 'asm':
            I.op = 'asm'; return I
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                if p.peek() == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x == '(': d += 1
                        if x == ')': d -= 1
                else:
                    args.append(p.tv())
                if p.accept(')'): break
                p.expect(',')
        I.ty = rt; I.a = args; I.x = {'callee': callee, 'vararg': vararg}
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.expect('label'); I.x['normal'] = unq(p.next())[1:]
            p.expect('unwind'); p.expect('label'); I.x['unwind'] = unq(p.next())[1:]
    elif op in ('atomicrmw',):
        k = p.next(); pt = p.type(); q = p.value(pt); p.expect(','); ty = p.type(); v = p.value(ty)
        I.ty, I.a, I.x = ty, (q, v), k
    elif op in ('cmpxchg', 'fence', 'freeze'):
        if op == 'freeze':
            ty = p.type(); I.ty = ty; I.a = (p.value(ty),)
    else:
        raise Unsupported('instruction ' + s)
    return I

class Module:
    def __init__(self, path):
        self.path = path
        self.funcs = {}; self.types = {}; self.globals = {}; self.alias = {}; self.decls = set()
        with open(path) as f: lines = f.read().split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]+"|[-\w$.]+)\(', l)
                nm = m.group(1).strip('"')
                self.funcs[nm] = Func(nm, lines[i:j], self)
                i = j + 1; continue
            if l.startswith('declare'):
                m = re.search(r'@("[^"]+"|[-\w$.]+)\(', l); self.decls.add(m.group(1).strip('"'))
            elif l.startswith('%'):
                m = re.match(r'%("[^"]+"|[-\w$.:]+) = type (.*)$', l)
                if m: self.types[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'@("[^"]+"|[-\w$.]+) = (.*)$', l)
                nm = m.group(1).strip('"'); rest = m.group(2)
                ma = re.search(r'\balias .*?, ptr @("[^"]+"|[-\w$.]+)', rest)
                if ma and ' alias ' in ' ' + rest.split('(')[0]: self.alias[nm] = ma.group(1).strip('"')
                else: self.globals[nm] = rest
            i += 1
        self.stored = set(re.findall(r'^  store .*, ptr @("[^"]+"|[-\w$.]+)', '\n'.join(lines), re.M))

class Program:
    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.funcs = {}; self.types = {}; self.globals = {}; self.alias = {}
        for m in self.mods:
            for k, v in m.funcs.items(): self.funcs.setdefault(k, v)
            for k, v in m.types.items():
                if v != 'opaque' or k not in self.types: self.types[k] = v
            for k, v in m.globals.items():
                if m.path and (k.startswith('.str') or k.startswith('__const')): continue
                if k not in self.globals or self.globals[k].startswith('external'): self.globals[k] = v
            self.alias.update(m.alias)
        self._ty = {}; self._lay = {}; self._vt = {}
    def func(self, name):
        seen = set()
        while name in self.alias and name not in seen:
            seen.add(name); name = self.alias[name]
        f = self.funcs.get(name)
        return f.parse() if f else None
    def canon(self, name):
        while name in self.alias: name = self.alias[name]
        return name
    # -- layout
    def named(self, nm):
        if nm not in self._ty:
            s = self.types.get(nm)
            if s is None or s == 'opaque': raise Unsupported('opaque type ' + nm)
            self._ty[nm] = Parser(tokenize(s)).type()
        return self._ty[nm]
    def res(self, ty):
        while ty.k == 'named': ty = self.named(ty.name)
        return ty
    def layout(self, ty):
        """(size, align, offsets)"""
        ty = self.res(ty)
        k = ty.k
        if k == 'int':
            b = max(1, 1 << ((ty.n + 7) // 8 - 1).bit_length()) if ty.n > 8 else 1
            return b, min(b, 16), None
        if k == 'float': return 4, 4, None
        if k in ('double', 'ptr'): return 8, 8, None
        if k == 'x86_fp80': return 16, 16, None
        if k == 'arr':
            s, a, _ = self.layout(ty.el); return s * ty.n, a, s
        if k == 'vec':
            s, a, _ = self.layout(ty.el); return s * ty.n, s * ty.n, s
        if k == 'struct':
            key = id(ty)
            if key in self._lay: return self._lay[key][0]
            off = 0; al = 1; offs = []
            for f in ty.fs:
                s, a, _ = self.layout(f)
                if ty.packed: a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += s; al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
            self._lay[key] = (r, ty)
            return r
        raise Unsupported('layout of %r' % ty)
    def leaves(self, ty, off=0):
        """leaf cells (offset, leaf type)"""
        t = self.res(ty)
        if t.k in ('arr', 'vec'):
            s = self.layout(t.el)[0]
            out = []
            for i in range(t.n): out += self.leaves(t.el, off + i * s)
            return out
        if t.k == 'struct':
            out = []
            for f, o in zip(t.fs, self.layout(t)[2]): out += self.leaves(f, off + o)
            return out
        return [(off, t)]
    # -- vtables
    def vtable(self, sym):
        if sym not in self._vt:
            rest = self.globals.get(sym)
            out = None
            if rest:
                m = re.search(r'\{ \[\d+ x ptr\] \[(.*?)\]', rest)
                if m: out = re.findall(r'ptr (null|@"[^"]+"|@[-\w$.]+|inttoptr[^,]*)', m.group(1))
            self._vt[sym] = [x[1:].strip('"') if x[0] == '@' else None for x in out] if out else None
        return self._vt[sym]
