"""Reader for textual LLVM IR (LLVM 18, opaque pointers): functions, blocks,
instructions, types with their layout, constant globals, debug locations."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:(c"(?:[^"])*")|("(?:[^"])*")|([%@]"[^"]*"|[%@][-\w.$]+)|(![\w.]+\(?|!)|(0x[KLMH]?[0-9A-Fa-f]+)|(-?\d+\.\d+e[+-]\d+)|(-?\d+)(?![\w.])|([A-Za-z_][\w.]*)|(\#\d+)|(\.\.\.)|(.))''')

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            break
        t = m.group(m.lastindex) if m.lastindex else None
        if t is not None and t.strip():
            out.append(t)
        i = m.end()
    return out

class Ty:
    __slots__ = ('k', 'a', 'n')
    def __init__(self, k, a=None, n=None):
        self.k, self.a, self.n = k, a, n
    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.a)
        if self.k == 'named': return self.n
        return self.k
    def __eq__(self, o): return repr(self) == repr(o)
    def __hash__(self): return hash(repr(self))

SCALARS = {'float': 4, 'double': 8, 'half': 2, 'x86_fp80': 16, 'ptr': 8}
PATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
          'inreg', 'returned', 'immarg', 'dead_on_unwind', 'writable', 'nofree', 'nest', 'swiftself', 'allocptr', 'noreturn'}

class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'dbg', 'bb', 'idx', 'text')
    def __init__(self, op, res=None, ty=None, args=(), x=None):
        self.op, self.res, self.ty, self.args, self.x = op, res, ty, list(args), x
        self.dbg = None; self.bb = None; self.idx = 0; self.text = ''
    def __repr__(self): return self.text or f'{self.res}={self.op} {self.args}'

class Val:
    """('r', name) local | ('g', name) global | ('c', python value) | ('u',) undef | ('z',) zeroinit | ('ce', op, ...)"""

class Block:
    def __init__(self, name):
        self.name = name; self.instrs = []; self.preds = []; self.succs = []

class Func:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = []; self.bmap = {}; self.ret = None; self.dbg = None

class P:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        t = self.peek(); self.i += 1; return t
    def eat(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        t = self.next()
        if t != x:
            raise ValueError('expected %r got %r in %s' % (x, t, ' '.join(self.t)[:300]))
    def is_type(self):
        t = self.peek()
        if t is None: return False
        return bool(re.fullmatch(r'i\d+', t)) or t in SCALARS or t in ('void', '[', '<', '{', 'label', 'metadata', 'token') or \
            (t.startswith('%') and t[1:].strip('"') in self.m.types)
    def type(self):
        t = self.next()
        if re.fullmatch(r'i\d+', t): r = Ty('i', None, int(t[1:]))
        elif t in SCALARS or t in ('void', 'label', 'metadata', 'token'): r = Ty(t)
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); r = Ty('arr', e, n)
        elif t == '<':
            if self.peek() == '{':
                self.next(); fs = self.fields('}'); self.expect('>'); r = Ty('struct', fs, 'packed')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); r = Ty('vec', e, n)
        elif t == '{':
            r = Ty('struct', self.fields('}'))
        elif t.startswith('%'):
            r = Ty('named', None, t[1:].strip('"'))
        elif t == 'opaque':
            r = Ty('opaque')
        else:
            raise ValueError('type? %r in %s' % (t, ' '.join(self.t)[:200]))
        # addrspace / function type suffix
        if self.peek() == '(' and r.k != 'label':
            # function type: skip
            d = 0
            save = self.i
            while True:
                x = self.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
            self.fnty = True
        return r
    def fields(self, close):
        fs = []
        while not self.eat(close):
            fs.append(self.type()); self.eat(',')
        return fs
    def value(self, ty):
        t = self.next()
        if t.startswith('%'): return ('r', t[1:].strip('"'))
        if t.startswith('@'): return ('g', t[1:].strip('"'))
        if t == 'true': return ('c', 1)
        if t == 'false': return ('c', 0)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('u',)
        if t == 'zeroinitializer': return ('z',)
        if t == 'none': return ('u',)
        if re.fullmatch(r'-?\d+', t):
            return ('c', int(t))
        if t.startswith('0x'):
            if ty.k in ('float', 'double'):
                v = struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]
                return ('f', v)
            return ('f', 0.0)
        if re.fullmatch(r'-?\d+\.\d+e[+-]\d+', t):
            return ('f', float(t))
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            self.expect('(')
            st = self.type(); self.expect(',')
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.eat(','):
                self.eat('inrange')
                it = self.type(); idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', st, base, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'sub', 'add', 'icmp'):
            d = 0
            while True:
                x = self.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
            return ('u',)
        if t == '[' or t == '{' or t == '<':
            close = {'[': ']', '{': '}', '<': '>'}[t]
            packed = False
            if t == '<' and self.peek() == '{':
                self.next(); close = '}'; packed = True
            vs = []
            while not self.eat(close):
                et = self.type(); vs.append((et, self.value(et))); self.eat(',')
            if packed: self.expect('>')
            return ('agg', vs)
        if t.startswith('c"'):
            return ('str', parse_cstr(t[2:-1]))
        if t == 'asm':
            return ('u',)
        if t.startswith('!') or t == 'metadata':
            return ('u',)
        raise ValueError('value? %r in %s' % (t, ' '.join(self.t)[:200]))
    def attrs(self):
        while True:
            t = self.peek()
            if t in PATTRS: self.next()
            elif t in ('align',): self.next(); self.next() if self.peek() != '(' else self.paren()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'nofpclass', 'memory', 'captures', 'initializes', 'preallocated', 'inalloca', 'byref'):
                self.next(); self.paren()
            else: return
    def paren(self):
        self.expect('('); d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1

def parse_cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode(); i += 1
    return bytes(out)

BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'inbounds', 'volatile', 'samesign', 'nusw'}

class Module:
    def __init__(self, path, want=None):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = set()
        self.loc = {}; self.scope = {}; self.files = {}
        self.want = want
        self.lazy = {}
        self.read(path)

    # ---- layout ----
    def resolve(self, ty):
        return self.types[ty.n] if ty.k == 'named' else ty
    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty.n, 8)
        if ty.k in SCALARS: return SCALARS[ty.k]
        if ty.k in ('arr', 'vec'): return self.align(ty.a)
        if ty.k == 'struct':
            if ty.n == 'packed': return 1
            return max([self.align(f) for f in ty.a] or [1])
        return 1
    def size(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'i': return max(1, (ty.n + 7) // 8)
        if ty.k in SCALARS: return SCALARS[ty.k]
        if ty.k in ('arr', 'vec'): return ty.n * self.size(ty.a)
        if ty.k == 'struct':
            off = 0
            for f in ty.a:
                if ty.n != 'packed':
                    al = self.align(f); off = (off + al - 1) // al * al
                off += self.size(f)
            if ty.n != 'packed':
                al = self.align(ty); off = (off + al - 1) // al * al
            return off
        return 0
    def field_off(self, ty, i):
        ty = self.resolve(ty); off = 0
        for j, f in enumerate(ty.a):
            if ty.n != 'packed':
                al = self.align(f); off = (off + al - 1) // al * al
            if j == i: return off, f
            off += self.size(f)
        raise IndexError

    def const_cells(self, name):
        """byte offset -> (type, value) for a constant global with an initialiser"""
        g = self.globals.get(name)
        if not g: return None
        if 'cells' in g: return g['cells']
        if g['init'] is None or not g['const']:
            g['cells'] = None; return None
        cells = {}
        def rec(ty, v, off):
            t = self.resolve(ty)
            if v[0] == 'agg':
                if t.k in ('arr', 'vec'):
                    for i, (et, ev) in enumerate(v[1]): rec(et, ev, off + i * self.size(t.a))
                else:
                    for i, (et, ev) in enumerate(v[1]):
                        o, _ = self.field_off(t, i); rec(et, ev, off + o)
            elif v[0] == 'str':
                for i, b in enumerate(v[1]): cells[off + i] = (Ty('i', None, 8), b if b < 128 else b - 256)
            elif v[0] == 'z':
                if t.k in ('arr', 'vec'):
                    for i in range(t.n): rec(t.a, v, off + i * self.size(t.a))
                elif t.k == 'struct':
                    for i, f in enumerate(t.a):
                        o, ft = self.field_off(t, i); rec(ft, v, off + o)
                elif t.k in ('float', 'double'): cells[off] = (t, Fraction(0))
                else: cells[off] = (t, 0)
            elif v[0] == 'c': cells[off] = (t, v[1])
            elif v[0] == 'f': cells[off] = (t, fconst(v[1]))
            else:
                cells[off] = (t, None)
                if v[0] == 'g': g.setdefault('ptrs', {})[off] = v[1]
        rec(g['ty'], g['init'], 0)
        g['cells'] = cells
        return cells

    def cstring(self, name):
        g = self.globals.get(name)
        if g and g['init'] and g['init'][0] == 'str':
            return g['init'][1].rstrip(b'\0').decode(errors='replace')
        if g and g['init'] and g['init'][0] == 'z': return ''
        return None

    # ---- reading ----
    def read(self, path):
        lines = open(path).read().split('\n')
        i = 0; n = len(lines)
        # first: named types (needed by the type parser)
        tl = [l for l in lines if l.startswith('%') and ' = type ' in l]
        for l in tl:
            nm = l.split(' = ')[0][1:].strip('"'); self.types[nm] = Ty('opaque')
        for l in tl:
            nm, body = l.split(' = type ', 1)
            self.types[nm[1:].strip('"')] = P(tokenize(body), self).type()
        while i < n:
            l = lines[i]
            if l.startswith('@'):
                self.rd_global(l)
            elif l.startswith('define '):
                j = i
                while lines[j] != '}': j += 1
                m = re.match(r'define [^@]*@("[^"]+"|[\w.$]+)\(', l)
                self.lazy[m.group(1).strip('"')] = lines[i:j]
                i = j
            elif l.startswith('declare '):
                m = re.match(r'declare [^@]*@("[^"]+"|[\w.$]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?!(\w+)\((.*)\)$', l)
                if m:
                    k = m.group(2)
                    if k == 'DILocation':
                        d = dict(re.findall(r'(\w+): (!?\d+)', m.group(3)))
                        self.loc[m.group(1)] = (int(d.get('line', 0)), int(d.get('column', 0)), d['scope'][1:], d.get('inlinedAt', '')[1:])
                    elif k in ('DISubprogram', 'DILexicalBlock', 'DILexicalBlockFile'):
                        f = re.search(r'file: !(\d+)', m.group(3)); nm = re.search(r'name: "([^"]*)"', m.group(3))
                        sc = re.search(r'scope: !(\d+)', m.group(3))
                        self.scope[m.group(1)] = (k, f.group(1) if f else None, nm.group(1) if nm else '', sc.group(1) if sc else None)
                    elif k == 'DIFile':
                        f = re.search(r'filename: "([^"]*)", directory: "([^"]*)"', m.group(3))
                        self.files[m.group(1)] = f.group(1) if f.group(1).startswith('/') else f.group(2) + '/' + f.group(1)
            i += 1

    def rd_global(self, l):
        m = re.match(r'@("[^"]+"|[-\w.$]+) = (.*)$', l)
        if not m: return
        name = m.group(1).strip('"'); rest = m.group(2)
        m2 = re.search(r'\b(constant|global) ', rest)
        if not m2: return
        const = m2.group(1) == 'constant'; body = rest[m2.end():]
        ext = 'external' in rest[:m2.start()]
        try:
            p = P(tokenize(body), self); ty = p.type()
            init = None
            if not ext and p.peek() not in (None, ','): init = p.value(ty)
        except Exception:
            ty, init = Ty('opaque'), None
        self.globals[name] = {'ty': ty, 'init': init, 'const': const, 'external': ext, 'tls': 'thread_local' in rest[:m2.start()]}

    def func(self, name):
        if name in self.funcs: return self.funcs[name]
        ls = self.lazy.get(name)
        if ls is None: return None
        f = self.parse_func(name, ls); self.funcs[name] = f
        return f

    def where(self, dbg, prefer=None):
        """innermost location whose file satisfies prefer (else innermost)"""
        d = dbg; first = None
        seen = 0
        while d and d in self.loc and seen < 60:
            seen += 1
            line, col, sc, ia = self.loc[d]
            f = None; fn = ''
            s = sc
            while s and s in self.scope:
                k, fi, nm, par = self.scope[s]
                if f is None and fi: f = self.files.get(fi)
                if k == 'DISubprogram': fn = nm; break
                s = par
            item = (f or '?', line, fn)
            if first is None: first = item
            if prefer is None or (f and prefer(f)): return item
            d = ia
        return first or ('?', 0, '')

    def parse_func(self, name, ls):
        f = Func(name)
        hdr = ls[0]
        m = re.search(r' !dbg !(\d+)', hdr); f.dbg = m.group(1) if m else None
        # params
        start = hdr.index('@')
        i = hdr.index('(', start + (len(name) + 2 if hdr[start + 1] == '"' else len(name)))
        d = 0; j = i
        while True:
            if hdr[j] == '(': d += 1
            elif hdr[j] == ')':
                d -= 1
                if d == 0: break
            j += 1
        p = P(tokenize(hdr[i + 1:j]), self)
        while p.peek() is not None:
            if p.peek() == '...': p.next(); continue
            ty = p.type(); p.attrs(); nm = p.next()
            f.params.append((nm[1:].strip('"'), ty)); p.eat(',')
        cur = None
        k = 1
        if not re.match(r'^("[^"]+"|[-\w.$]+):', ls[1] if len(ls) > 1 else ''):
            cur = Block('%entry'); f.blocks.append(cur); f.bmap[cur.name] = cur
        while k < len(ls):
            l = ls[k]; k += 1
            if not l.strip() or l.startswith(';'): continue
            m = re.match(r'^("[^"]+"|[-\w.$]+):', l)
            if m:
                cur = Block(m.group(1).strip('"')); f.blocks.append(cur); f.bmap[cur.name] = cur
                continue
            if l.rstrip().endswith('['):  # switch
                while not ls[k].strip().startswith(']'):
                    l += ' ' + ls[k].strip(); k += 1
                l += ' ' + ls[k].strip(); k += 1
            if re.match(r'^\s+(cleanup|catch|filter)\b', l): continue
            if (' invoke ' in l or l.startswith('  invoke ')) and k < len(ls) and ls[k].lstrip().startswith('to label '):
                l = re.sub(r', !\w[\w.]* !\d+', '', l) + ' ' + ls[k].strip(); k += 1
            ins = self.parse_instr(l)
            if ins is None: continue
            ins.bb = cur; cur.instrs.append(ins)
        for b in f.blocks:
            t = b.instrs[-1]
            ss = []
            if t.op == 'br': ss = [t.x[0]] if len(t.x) == 1 else [t.x[0], t.x[1]]
            elif t.op == 'switch': ss = [t.x[0]] + [s for _, s in t.x[1]]
            elif t.op == 'invoke': ss = [t.x[2], t.x[3]]
            b.succs = ss
        for b in f.blocks:
            for s in dict.fromkeys(b.succs): f.bmap[s].preds.append(b.name)
        # reachable only
        seen = set(); st = [f.blocks[0].name]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += f.bmap[x].succs
        f.blocks = [b for b in f.blocks if b.name in seen]
        f.bmap = {b.name: b for b in f.blocks}
        for b in f.blocks: b.preds = [q for q in b.preds if q in seen]
        return f

    def parse_instr(self, l):
        dbg = None
        m = re.search(r', !dbg !(\d+)', l)
        if m: dbg = m.group(1)
        # strip metadata
        body = re.sub(r', !\w[\w.]* !\d+', '', l).strip()
        body = re.sub(r', !\w[\w.]* !\{[^}]*\}', '', body)
        t = tokenize(body)
        p = P(t, self)
        res = None
        if len(t) > 2 and t[1] == '=':
            res = t[0][1:].strip('"'); p.i = 2
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        def flags():
            while p.peek() in FLAGS: p.next()
        I = None
        if op in BIN:
            flags(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            I = Instr(op, res, ty, [a, b])
        elif op == 'fneg':
            flags(); ty = p.type(); I = Instr(op, res, ty, [p.value(ty)])
        elif op in CAST:
            flags(); ty = p.type(); a = p.value(ty); p.expect('to'); t2 = p.type()
            I = Instr(op, res, t2, [a], ty)
        elif op in ('icmp', 'fcmp'):
            flags(); pr = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            I = Instr(op, res, Ty('i', None, 1), [a, b], (pr, ty))
        elif op == 'select':
            flags(); ct = p.type(); c = p.value(ct); p.expect(','); ty = p.type(); a = p.value(ty); p.expect(','); p.type(); b = p.value(ty)
            I = Instr(op, res, ty, [c, a, b])
        elif op == 'freeze':
            ty = p.type(); I = Instr(op, res, ty, [p.value(ty)])
        elif op == 'phi':
            flags(); ty = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(ty); p.expect(','); b = p.next()[1:].strip('"'); p.expect(']')
                inc.append((v, b))
                if not p.eat(','): break
            I = Instr(op, res, ty, [], inc)
        elif op == 'load':
            if p.peek() == 'atomic': p.next()
            flags(); ty = p.type(); p.expect(','); p.type(); a = p.value(Ty('ptr'))
            I = Instr(op, res, ty, [a])
        elif op == 'store':
            if p.peek() == 'atomic': p.next()
            flags(); ty = p.type(); v = p.value(ty); p.expect(','); p.type(); a = p.value(Ty('ptr'))
            I = Instr(op, None, ty, [v, a])
        elif op == 'getelementptr':
            flags(); ty = p.type(); p.expect(','); pt = p.type(); a = p.value(pt); idx = []
            while p.eat(','):
                it = p.type(); idx.append((it, p.value(it)))
            I = Instr(op, res, Ty('ptr'), [a] + [v for _, v in idx], (ty, [t_ for t_, _ in idx]))
        elif op == 'alloca':
            ty = p.type(); I = Instr(op, res, Ty('ptr'), [], ty)
        elif op == 'br':
            if p.peek() == 'label':
                p.next(); I = Instr(op, None, None, [], [p.next()[1:].strip('"')])
            else:
                ty = p.type(); c = p.value(ty); p.expect(','); p.next(); a = p.next()[1:].strip('"'); p.expect(','); p.next(); b = p.next()[1:].strip('"')
                I = Instr(op, None, None, [c], [a, b])
        elif op == 'switch':
            ty = p.type(); c = p.value(ty); p.expect(','); p.next(); d = p.next()[1:].strip('"'); p.expect('[')
            cs = []
            while p.peek() != ']':
                ct = p.type(); v = p.value(ct); p.expect(','); p.next(); cs.append((v[1], p.next()[1:].strip('"')))
            I = Instr(op, None, ty, [c], (d, cs))
        elif op == 'ret':
            ty = p.type(); I = Instr(op, None, ty, [] if ty.k == 'void' else [p.value(ty)])
        elif op == 'unreachable' or op == 'resume':
            I = Instr('unreachable')
        elif op == 'call' or op == 'invoke':
            flags()
            while p.peek() in ('fastcc', 'ccc', 'coldcc'): p.next()
            p.attrs()
            ty = p.type(); p.attrs()
            cal = p.value(Ty('ptr')) if not (p.peek() == 'asm') else ('u',)
            args = []
            if p.peek() == '(':
                p.next()
                while not p.eat(')'):
                    at = p.type(); p.attrs(); 
                    if at.k == 'metadata':
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            if x == '(' or x.endswith('('): d += 1
                            elif x == ')': d -= 1
                        args.append((at, ('u',)))
                    else:
                        args.append((at, p.value(at)))
                    p.eat(',')
            if op == 'invoke':
                m = re.search(r' to label %("[^"]+"|[-\w.$]+) unwind label %("[^"]+"|[-\w.$]+)', body)
                I = Instr(op, res, ty, [v for _, v in args], (cal, [t_ for t_, _ in args], m.group(1).strip('"'), m.group(2).strip('"')))
            else: I = Instr(op, res, ty, [v for _, v in args], (cal, [t_ for t_, _ in args]))
        elif op == 'extractvalue':
            ty = p.type(); a = p.value(ty); ix = []
            while p.eat(','): ix.append(int(p.next()))
            t2 = ty
            for q in ix:
                r = self.resolve(t2); t2 = r.a if r.k == 'arr' else r.a[q]
            I = Instr(op, res, t2, [a], (ix, ty))
        elif op == 'insertvalue':
            ty = p.type(); a = p.value(ty); p.expect(','); t2 = p.type(); b = p.value(t2); ix = []
            while p.eat(','): ix.append(int(p.next()))
            I = Instr(op, res, ty, [a, b], (ix, t2))
        elif op == 'landingpad':
            I = Instr(op, res, Ty('opaque'), [])
        elif op == 'fence':
            return None
        else:
            I = Instr('?' + op, res, Ty('opaque'), [])
        I.dbg = dbg; I.text = body
        return I

def fconst(x):
    if x != x: return ('inf', 0)
    if x in (float('inf'), float('-inf')): return ('inf', 1 if x > 0 else -1)
    return Fraction(x)

# ---- CFG helpers ---------------------------------------------------------------
def rpo(f):
    seen = set(); out = []
    st = [(f.blocks[0].name, iter(f.blocks[0].succs))]
    seen.add(f.blocks[0].name)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(f.bmap[s].succs))); break
        else:
            out.append(n); st.pop()
    out.reverse()
    return out

def dominators(f, order):
    idx = {n: i for i, n in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for n in order[1:]:
            new = None
            for p in f.bmap[n].preds:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while idx[a] > idx[b]: a = idom[a]
                            while idx[b] > idx[a]: b = idom[b]
                        new = a
            if idom.get(n) != new: idom[n] = new; ch = True
    return idom

class Loop:
    def __init__(self, h):
        self.h = h; self.blocks = {h}; self.parent = None; self.latches = []; self.children = []; self.depth = 1
        self.exits = []

def loops(f, order, idom):
    def dom(a, b):
        while True:
            if a == b: return True
            if b == order[0]: return False
            b = idom[b]
    ls = {}
    for n in order:
        for s in f.bmap[n].succs:
            if dom(s, n):
                L = ls.setdefault(s, Loop(s)); L.latches.append(n)
                st = [n]
                while st:
                    x = st.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); st += f.bmap[x].preds
    lst = sorted(ls.values(), key=lambda L: len(L.blocks))
    for i, L in enumerate(lst):
        for M in lst[i + 1:]:
            if L.h in M.blocks and L is not M:
                L.parent = M; M.children.append(L); break
    for L in lst:
        d = 1; q = L.parent
        while q: d += 1; q = q.parent
        L.depth = d
        for b in f.bmap:
            if b in L.blocks:
                for s in dict.fromkeys(f.bmap[b].succs):
                    if s not in L.blocks: L.exits.append((b, s))
    inner = {}
    for L in reversed(lst):
        for b in L.blocks: inner[b] = L
    return lst, inner

def retarget(t, old, new):
    """the terminator t jumps to new where it jumped to old"""
    r = lambda s: new if s == old else s
    if t.op == 'br': t.x = [r(s) for s in t.x]
    elif t.op == 'switch': t.x = (r(t.x[0]), [(v, r(s)) for v, s in t.x[1]])
    elif t.op == 'invoke': t.x = list(t.x[:2]) + [r(t.x[2]), r(t.x[3])]
