"""Value graph of a function (gated SSA with explicit memory).

Every scalar and every memory object of a function is expressed as an acyclic
expression over: function inputs, the loop-carried symbols mu (one per value or
memory object that a loop changes) and the exit operator eta.  Control flow
becomes selection on reach conditions, so statement order, helper functions and
the spelling of branches and loops leave no trace in the graph.
"""
import re
from fractions import Fraction
import ir
from ir import Ty, fconst

class Unsupported(Exception):
    pass

I1 = 'i1'

def tyname(ty):
    return repr(ty)

class Graph:
    """hash-consed nodes; a node is an int, its description self.n[id]"""
    def __init__(self):
        self.n = []; self.h = {}; self.src = {}; self.cur = None
        self.mu = {}      # node -> dict(init,next,loop,ty)
        self.loops = {}   # lid -> dict(parent, exit, depth, where, blocks)
        self.nl = 0
        self.consts = set(); self.signed = set()
        self.mk('c', 0, 'i64')      # node 0
    def mk(self, *t):
        i = self.h.get(t)
        if i is None:
            i = len(self.n); self.n.append(t); self.h[t] = i
            if self.cur is not None: self.src[i] = self.cur
        return i
    def c(self, v, ty):
        if ty[0] == 'i' and not isinstance(v, int): return self.mk('undef', ty)      # floating-point data read as an integer
        return self.mk('c', v, ty)
    def true(self): return self.c(1, I1)
    def false(self): return self.c(0, I1)
    def isc(self, a, v=None):
        d = self.n[a]
        return d[0] == 'c' and (v is None or d[1] == v)
    def And(self, a, b):
        if self.isc(a, 1): return b
        if self.isc(b, 1): return a
        if self.isc(a, 0) or self.isc(b, 0): return self.false()
        if a == b: return a
        return self.mk('op', 'and', I1, a, b)
    def Or(self, a, b):
        if self.isc(a, 0): return b
        if self.isc(b, 0): return a
        if self.isc(a, 1) or self.isc(b, 1): return self.true()
        if a == b: return a
        if self.Not(a) == b: return self.true()
        # (x&c)|(x&!c) = x
        da, db = self.n[a], self.n[b]
        if da[:2] == ('op', 'and') and db[:2] == ('op', 'and'):
            for i in (3, 4):
                for j in (3, 4):
                    if da[i] == db[j] and self.Not(da[7 - i]) == db[7 - j]: return da[i]
        return self.mk('op', 'or', I1, a, b)
    def Not(self, a):
        d = self.n[a]
        if d[0] == 'c': return self.c(1 - d[1], I1)
        if d[0] == 'not': return d[1]
        return self.mk('not', a)
    def sel(self, c, a, b, ty):
        if a == b: return a
        if self.isc(c, 1): return a
        if self.isc(c, 0): return b
        if ty == I1:
            if self.isc(a, 1): return self.Or(c, b)
            if self.isc(a, 0): return self.And(self.Not(c), b)
            if self.isc(b, 0): return self.And(c, a)
            if self.isc(b, 1): return self.Or(self.Not(c), a)
        return self.mk('sel', ty, c, a, b)
    def add(self, a, b, ty):
        da, db = self.n[a], self.n[b]
        if da[0] == 'c' and db[0] == 'c': return self.c(wrap(da[1] + db[1], ty), ty)
        if da[0] == 'c' and da[1] == 0: return b
        if db[0] == 'c' and db[1] == 0: return a
        return self.mk('op', 'add', ty, a, b)
    def mul(self, a, b, ty):
        da, db = self.n[a], self.n[b]
        if da[0] == 'c' and db[0] == 'c': return self.c(wrap(da[1] * db[1], ty), ty)
        if da[0] == 'c' and da[1] == 1: return b
        if db[0] == 'c' and db[1] == 1: return a
        return self.mk('op', 'mul', ty, a, b)

def wrap(v, ty):
    n = int(ty[1:])
    if n == 1: return v & 1
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v

class NoVirt(Exception):
    """the loop with this header cannot be read as a quantifier after all"""

class Ptr:
    """pointer value: object, key prefix (nodes), byte offset node"""
    __slots__ = ('obj', 'pre', 'off')
    def __init__(self, obj, pre, off):
        self.obj, self.pre, self.off = obj, tuple(pre), off
    def key(self):
        # elements at the start of an object have the same key in an array and in a vector
        return (self.off,) if not any(self.pre) else self.pre + (self.off,)
    def __eq__(self, o): return isinstance(o, Ptr) and (self.obj, self.pre, self.off) == (o.obj, o.pre, o.off)
    def __hash__(self): return hash((self.obj, self.pre, self.off))
    def __repr__(self): return f'Ptr({self.obj},{self.pre},{self.off})'

class Agg:
    def __init__(self, vals): self.vals = vals
    def __eq__(self, o): return isinstance(o, Agg) and self.vals == o.vals
    def __hash__(self): return hash(tuple(sorted(self.vals.items())))

ELEM = {'int': 4, 'float': 4, 'double': 8, 'unsigned char': 1, 'signed char': 1, 'char': 1, 'short': 2, 'unsigned short': 2,
        'long': 8, 'unsigned long': 8, 'unsigned int': 4, 'cc::state': 1, 'std::thread': 8, 'bool': 1, 'unsigned short int': 2}

def elem_size(t):
    t = t.strip()
    if t in ELEM: return ELEM[t]
    m = re.fullmatch(r'std::array<(.*), (\d+)ul>', t)
    if m: return elem_size(m.group(1)) * int(m.group(2))
    if t.startswith('std::vector<'): return 24
    if t.endswith('*'): return 8
    m = re.fullmatch(r'std::pair<(\w+), (\w+)>', t)
    if m: return elem_size(m.group(1)) + elem_size(m.group(2))
    raise Unsupported('element size of ' + t)

def split_top(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([{': d += 1
        elif ch in '>)]}': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Sig:
    """demangled callee: base (without template arguments), params, const"""
    cache = {}
    def __init__(self, dm):
        self.dm = dm
        s = dm
        # find parameter list: last top-level '('
        self.const = s.endswith(' const') or s.endswith(' const&')
        if s.endswith(' const'): s = s[:-6]
        self.params = []; self.base = s; self.targs = ''
        if s.endswith(')'):
            d = 0; i = len(s) - 1
            while i >= 0:
                if s[i] == ')': d += 1
                elif s[i] == '(':
                    d -= 1
                    if d == 0: break
                i -= 1
            self.params = split_top(s[i + 1:-1]); head = s[:i]
        else: head = s
        # strip template args of head and return type
        m = re.search(r'operator\s*(<<|>>|<=|>=|<|>|->)', head)
        protect = None
        if m:
            protect = m.group(1)
            head = head[:m.start(1)] + '@OP@' + head[m.end(1):]
        out = ''; d = 0
        for ch in head:
            if ch == '<': d += 1
            elif ch == '>': d -= 1
            elif d == 0: out += ch
        if protect: out = out.replace('@OP@', protect)
        self.full_head = head
        # drop return type: last space-separated token outside operator names
        o = out.strip()
        k = o.rfind('operator')
        if k >= 0:
            pre = o[:k]; pre = pre.split(' ')[-1] if ' ' in pre else pre
            o = pre + o[k:]
        else:
            o = o.split(' ')[-1] if ' ' in o else o
        self.base = o

PURE = {'floorf': 'floor', 'floor': 'floor', 'fmodf': 'fmod', 'fmod': 'fmod', 'truncf': 'trunc', 'trunc': 'trunc',
        'sqrtf': 'sqrt', 'sqrt': 'sqrt', 'fabsf': 'fabs', 'fabs': 'fabs', 'ceilf': 'ceil', 'ceil': 'ceil',
        'fminf': 'fmin', 'fmaxf': 'fmax', 'fmin': 'fmin', 'fmax': 'fmax', 'powf': 'pow', 'pow': 'pow', 'roundf': 'round', 'round': 'round'}
INTR = {'llvm.floor': 'floor', 'llvm.trunc': 'trunc', 'llvm.sqrt': 'sqrt', 'llvm.fabs': 'fabs', 'llvm.ceil': 'ceil',
        'llvm.minnum': 'fmin', 'llvm.maxnum': 'fmax', 'llvm.round': 'round', 'llvm.pow': 'pow',
        'llvm.smin': 'smin', 'llvm.smax': 'smax', 'llvm.umin': 'umin', 'llvm.umax': 'umax', 'llvm.abs': 'iabs',
        'llvm.ctpop': 'ctpop'}

class Builder:
    def __init__(self, mod, g, dm, fname, opts=None):
        self.mod, self.g, self.dm = mod, g, dm
        self.f = mod.func(fname)
        if self.f is None: raise Unsupported('no function ' + fname)
        self.fname = fname
        self.opts = opts or {}
        self.order = ir.rpo(self.f)
        self.idom = ir.dominators(self.f, self.order)
        self.prune()
        self.unnest()
        self.order = ir.rpo(self.f)
        self.idom = ir.dominators(self.f, self.order)
        self.loops, self.inner = ir.loops(self.f, self.order, self.idom)
        self.lid = {}
        for L in sorted(self.loops, key=lambda L: L.depth):
            i = g.nl; g.nl += 1
            self.lid[L.h] = i
            g.loops[i] = {'parent': self.lid[L.parent.h] if L.parent else None, 'depth': L.depth, 'h': L.h, 'fn': fname}
        self.anc = {}
        for i, l in g.loops.items():
            a = {i}; x = l['parent']
            while x is not None: a.add(x); x = g.loops[x]['parent']
            self.anc[i] = a
        self.elem = {}; self.bufsize = {}; self.cinit = {}
        self.W = {L.h: set() for L in self.loops}   # memory objects written in loop
        self.calls = []    # (callee base, args, cond, loop, dbg)
        self.affine_phi = self.find_affine()
        self.acc = {}      # obj -> set of accessed scalar types
        self.run()

    # ---- remove edges that only lead to 'unreachable' -------------------------
    def prune(self):
        f = self.f
        dead = set(b.name for b in f.blocks if b.instrs[-1].op == 'unreachable' and not (self.opts.get('throws') and self.ends(b)))
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                if b.name not in dead and b.succs and all(s in dead for s in b.succs):
                    dead.add(b.name); ch = True
        for b in f.blocks:
            if b.name in dead: continue
            b.succs = [s for s in b.succs if s not in dead]
        entry = f.blocks[0].name
        seen = set(); st = [entry]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += f.bmap[x].succs
        f.blocks = [b for b in f.blocks if b.name in seen]
        f.bmap = {b.name: b for b in f.blocks}
        for b in f.blocks: b.preds = []
        for b in f.blocks:
            for s in dict.fromkeys(b.succs): f.bmap[s].preds.append(b.name)
        self.dead = dead

    # ---- undo the split of a loop with several back edges into two nested ones (loop-simplify) ------
    def unnest(self):
        f = self.f
        for _ in range(8):
            order = ir.rpo(f); loops, _i = ir.loops(f, order, ir.dominators(f, order))
            for L in loops:
                o = f.bmap[L.h]
                if not re.search(r'\.outer\d*$', L.h) or o.instrs[-1].op != 'br' or len(o.succs) != 1: continue
                if any(i.op != 'phi' for i in o.instrs[:-1]): continue
                C = [c for c in loops if c.h == o.succs[0] and c.parent is L]
                if not C: continue
                h = f.bmap[C[0].h]
                if any(b not in C[0].blocks and b != o.name for b in h.preds): continue
                back_o = [b for b in o.preds if b in L.blocks]; back_i = [b for b in h.preds if b in C[0].blocks]
                ent = [b for b in o.preds if b not in L.blocks]
                ophi = {i.res: dict((b, v) for v, b in i.x) for i in o.instrs[:-1]}
                m = ir.Block(o.name + '.latch'); new = []
                def phi(res, ty, x, like, bb):
                    i = ir.Instr('phi', res, ty, [], x); i.dbg = like.dbg; i.text = like.text; i.bb = bb; return i
                mi = []
                hphis = [i for i in h.instrs if i.op == 'phi']
                for i in hphis:
                    src = dict((b, v) for v, b in i.x); vo = src[o.name]
                    at = lambda b: ophi[vo[1]][b] if vo[0] == 'r' and vo[1] in ophi else vo
                    mi.append(phi(i.res + '.m', i.ty, [(at(b), b) for b in back_o] + [(src[b], b) for b in back_i], i, m))
                    new.append(phi(i.res, i.ty, [(at(b), b) for b in ent] + [(('r', i.res + '.m'), m.name)], i, h))
                for i in o.instrs[:-1]:
                    src = ophi[i.res]
                    mi.append(phi(i.res + '.m', i.ty, [(src[b], b) for b in back_o] + [(('r', i.res), b) for b in back_i], i, m))
                    new.append(phi(i.res, i.ty, [(src[b], b) for b in ent] + [(('r', i.res + '.m'), m.name)], i, h))
                br = o.instrs[-1]; br.x = [h.name]; br.bb = m
                m.instrs = mi + [br]; m.succs = [h.name]; m.preds = back_o + back_i
                h.instrs = new + [i for i in h.instrs if i.op != 'phi']; h.preds = ent + [m.name]
                for b in back_o + back_i + ent:
                    B = f.bmap[b]; old, to = (h.name, m.name) if b in back_i else (o.name, m.name if b in back_o else h.name)
                    B.succs = [to if s == old else s for s in B.succs]
                    ir.retarget(B.instrs[-1], old, to)
                f.blocks[f.blocks.index(o)] = m; del f.bmap[o.name]; f.bmap[m.name] = m
                break
            else: return

    ENDS = re.compile(r'^(__cxa_throw|exit|_Exit|quick_exit|abort|_ZSt9terminatev|_ZSt\d+__throw_\w+)$')
    def ends(self, b):
        """the call that leaves the analysed function for good, of a block that ends in unreachable"""
        for i in reversed(b.instrs):
            if i.op == 'call' and i.x[0][0] == 'g' and self.ENDS.match(i.x[0][1]): return i
        return None

    def find_affine(self):
        """header phis whose next value is phi + constant: name -> step sign"""
        f = self.f; defs = {}
        for b in f.blocks:
            for i in b.instrs:
                if i.res: defs[i.res] = i
        out = {}
        for L in self.loops:
            for i in f.bmap[L.h].instrs:
                if i.op != 'phi': break
                for v, b in i.x:
                    if b in L.blocks and v[0] == 'r' and v[1] in defs:
                        d = defs[v[1]]
                        # look through lcssa/merge phis of one value
                        k = 0
                        while d.op == 'phi' and len(set(x for x, _ in d.x)) == 1 and k < 8:
                            x = d.x[0][0]
                            if x[0] != 'r' or x[1] not in defs: break
                            d = defs[x[1]]; k += 1
                        # arithmetic of a narrow counter in a wider type
                        if d.op == 'trunc' and d.args[0][0] == 'r' and d.args[0][1] in defs:
                            w = defs[d.args[0][1]]
                            if w.op == 'add' and w.args[0][0] == 'r' and w.args[1][0] == 'c' and w.args[0][1] in defs:
                                z = defs[w.args[0][1]]
                                if z.op in ('sext', 'zext') and z.args[0] == ('r', i.res): out[i.res] = (L.h, w.args[1][1]); continue
                        if d.op == 'add' and d.args[0] == ('r', i.res) and d.args[1][0] == 'c':
                            out[i.res] = (L.h, d.args[1][1])
                        elif d.op == 'getelementptr' and d.args[0] == ('r', i.res) and all(a[0] == 'c' for a in d.args[1:]):
                            try: o = self.gep(Ptr(None, (), self.g.c(0, 'i64')), d.x[0], [(t, self.g.c(a[1], 'i64')) for t, a in zip(d.x[1], d.args[1:])]).off
                            except Exception: continue
                            out[i.res] = (L.h, self.g.n[o][1])
        return {k: (h, int(st)) for k, (h, st) in out.items() if st == int(st)}

    # ---- driver -----------------------------------------------------------------
    def run(self):
        self.novirt = set(); k = 0
        while True:
            self.changed = False
            try: self.once()
            except NoVirt as e: self.novirt.add(e.args[0]); continue
            if not self.changed: break
            k += 1
            if k == 12: raise Unsupported('memory objects of loops do not stabilise')

    def once(self):
        g = self.g
        self.env = {}; self.cond = {}; self.memout = {}; self.rets = []; self.calls = []
        self.objinit = {}
        self.edges = {}
        for k, (nm, ty) in enumerate(self.f.params):
            if ty.k == 'ptr': self.env[nm] = Ptr(('arg', k), (), g.c(0, 'i64'))
            else: self.env[nm] = g.mk('arg', k, tyname(ty))
        self.nalloca = 0
        self.region(None, self.f.blocks[0].name, {})
        self.final()

    def region(self, L, entry, mem0):
        """process the blocks of loop L (or of the function) in topological order"""
        f = self.f
        blocks = [b for b in self.order if (self.inner.get(b) is L if L else b not in self.inner)]
        children = [C for C in self.loops if C.parent is L]
        items = {b: ('b', b) for b in blocks}
        owner = {}
        for b in blocks: owner[b] = b
        for C in children:
            for b in C.blocks: owner[b] = C.h
        chs = {C.h: C for C in children}
        nodes = set(owner.values())
        succ = {x: set() for x in nodes}; indeg = {x: 0 for x in nodes}
        inside = L.blocks if L else set(self.f.bmap)
        for b in inside:
            for s in f.bmap[b].succs:
                if s not in inside: continue
                if L and s == L.h: continue
                a, c = owner[b], owner[s]
                if a != c and c not in succ[a]: succ[a].add(c); indeg[c] += 1
        ready = [x for x in nodes if indeg[x] == 0]
        pos = {b: i for i, b in enumerate(self.order)}
        done = 0
        while ready:
            ready.sort(key=lambda x: -pos[x]); x = ready.pop(); done += 1
            if x in chs:
                self.do_loop(chs[x])
            else:
                self.do_block(x, L, entry, mem0)
            for y in succ[x]:
                indeg[y] -= 1
                if indeg[y] == 0: ready.append(y)
        if done != len(nodes): raise Unsupported('irreducible control flow')

    def crossing(self, src, dst):
        """loops left by the edge, innermost first"""
        out = []; L = self.inner.get(src)
        while L and dst not in L.blocks: out.append(L); L = L.parent
        return out

    def edge(self, src, dst):
        """(cond, mem, wrap) of an edge as seen at dst's level"""
        g = self.g
        k = (src, dst)
        if k in self.edges: return self.edges[k]
        c = g.And(self.cond[src], self.brcond(src, dst))
        m = self.memout[src]
        cr = self.crossing(src, dst)
        for C in cr:
            lid = self.lid[C.h]
            nex = [e for e in C.exits if e[1] in self.f.bmap and e[0] in self.f.bmap]
            if len(nex) > 1: c = self.eta(lid, c, I1)
            else: c = g.true()
            # the loop itself is entered under the condition of its preheader
            c = g.And(self.entry_cond[C.h], c)
            m2 = dict(m)
            for o in self.W[C.h]:
                if o in m: m2[o] = self.meta(lid, m[o])
            m = m2
        r = (c, m, [self.lid[C.h] for C in cr])
        self.edges[k] = r
        return r

    def depends(self, node, lid, memo=None):
        """does node depend on the symbols of loop lid?"""
        g = self.g
        if not hasattr(self, '_dep'): self._dep = {}
        st = [node]; 
        key = (node, lid)
        if key in self._dep: return self._dep[key]
        seen = set(); res = False
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            d = g.n[x]
            if d[0] in ('mu', 'mmu') and lid in self.anc[d[1]]: res = True; break
            if (x, lid) in self._dep:
                if self._dep[(x, lid)]: res = True; break
                continue
            st += children(d)
        if not res:
            for x in seen: self._dep[(x, lid)] = False
        self._dep[key] = res
        return res

    def eta(self, lid, x, ty):
        g = self.g
        if isinstance(x, Ptr):
            return Ptr(x.obj, [self.eta(lid, p, 'i64') for p in x.pre], self.eta(lid, x.off, 'i64'))
        if isinstance(x, Agg):
            return Agg({k: self.eta(lid, v[0] if isinstance(v, tuple) else v, None) for k, v in x.vals.items()})
        if g.n[x][0] in ('c', 'str', 'undef', 'fn'): return x
        if not self.depends(x, lid): return x
        ct = g.loops[lid].get('count')
        t = ty or self.nty(x)
        if g.loops[lid].get('virt'): return self.veta(lid, x)
        if ct is not None and t and t[0] == 'i' and t != I1:
            a = self.aff(x, lid)
            if a:
                v = g.mul(ct, a[1], 'i64')
                return g.add(a[0], v if t == 'i64' else self.cast('trunc', v, 'i64', t), t)
        return g.mk('eta', lid, x, t)
    def meta(self, lid, m):
        if not self.depends(m, lid): return m
        r = self.g.loops[lid].get('range', {}).get(m)
        if r is not None: return r
        return self.g.mk('meta', lid, m)

    def nty(self, x):
        d = self.g.n[x]
        k = d[0]
        if k == 'c': return d[2]
        if k == 'arg': return d[2]
        if k in ('op',): return d[2] if d[1] not in ('icmp', 'fcmp') else I1
        if k in ('cmp', 'fcmp', 'not'): return I1
        if k == 'sel': return d[1]
        if k == 'cast': return d[2]
        if k == 'ld': return d[1]
        if k == 'mu': return d[3]
        if k == 'eta': return d[3]
        if k == 'callv': return d[1]
        if k in ('fn1', 'sum'): return d[2]
        if k in ('any', 'pcmp'): return I1
        return 'i64'

    def brcond(self, src, dst):
        g = self.g
        t = self.f.bmap[src].instrs[-1]
        live = list(dict.fromkeys(self.f.bmap[src].succs))
        if len(live) == 1: return g.true()
        if t.op == 'br':
            if t.x[0] == t.x[1]: return g.true()
            L = self.inner.get(src)
            if L and (t.x[0] in L.blocks) != (t.x[1] in L.blocks) and all(self.dom(src, b) for b in L.latches):
                c = self.cont_cond(L, src, t)
                if c is not None: return c if dst in L.blocks else g.Not(c)
            c = self.branch_cond(src, t)
            return c if dst == t.x[0] else g.Not(c)
        if t.op == 'switch':
            v = self.val(t.args[0], t.ty); ty = tyname(t.ty)
            d, cs = t.x
            res = g.false()
            for cv, cb in cs:
                if cb == dst: res = g.Or(res, self.cmp('eq', v, g.c(wrap(cv, ty), ty), ty))
            if d == dst and d in live:
                r = g.true()
                for cv, cb in cs:
                    if cb != d and cb in live: r = g.And(r, g.Not(self.cmp('eq', v, g.c(wrap(cv, ty), ty), ty)))
                res = g.Or(res, r) if not g.isc(res, 0) else r
            elif d not in live:
                # default unreachable: last case is the complement is not needed
                pass
            return res
        raise Unsupported('terminator ' + t.op)

    def dom(self, a, b):
        while b is not None and b != a:
            n = self.idom.get(b)
            if n == b: return False
            b = n
        return b == a

    def cont_cond(self, L, src, t):
        """a counted test made in every iteration, over the number of the iteration: origin,
        direction, step and type of the counter do not matter"""
        g = self.g; lid = self.lid[L.h]; lp = g.loops[lid]
        if src not in lp['cont']:
            c = self.branch_cond(src, t)
            c = c if t.x[0] in L.blocks else g.Not(c)
            ct = self.trip(lid, [g.Not(c)]); also = g.true()
            lp['cont'][src] = None
            if ct is None:       # one of several conditions is the count
                cs = self.conjuncts(c)
                for k, x in enumerate(cs if len(cs) > 1 else []):
                    ct = self.trip(lid, [g.Not(x)])
                    if ct is not None:
                        for y in cs[:k] + cs[k + 1:]: also = g.And(also, y)
                        break
            if ct is not None:
                it = g.mk('mu', lid, 'it', 'i64')
                g.mu[it] = {'init': g.c(0, 'i64'), 'next': g.add(it, g.c(1, 'i64'), 'i64'), 'step': g.c(1, 'i64'), 'loop': lid, 'ty': 'i64', 'dbg': None, 'name': 'iteration'}
                lp['limit'] = ct if lp['limit'] is None else g.sel(self.cmp('ult', ct, lp['limit'], 'i64'), ct, lp['limit'], 'i64')
                lt = g.mk('cmp', 'ult', 'i64', it, ct)
                lp['run'][src] = lt; lp['also'][src] = also
                lp['cont'][src] = g.And(lt, also)
        return lp['cont'][src]

    def conjuncts(self, x):
        g = self.g; d = g.n[x]
        if d[0] == 'op' and d[1] == 'and' and d[2] == I1: return self.conjuncts(d[3]) + self.conjuncts(d[4])
        if d[0] == 'not' and g.n[d[1]][0] == 'op' and g.n[d[1]][1:3] == ('or', I1):
            e = g.n[d[1]]; return self.conjuncts(g.Not(e[3])) + self.conjuncts(g.Not(e[4]))
        return [x]

    def branch_cond(self, src, t):
        """condition of a br; an exit test i != n on a unit-step counter is read as i < n"""
        return self.val(t.args[0], Ty('i', None, 1))

    def do_loop(self, L):
        g = self.g; f = self.f
        lid = self.lid[L.h]
        # entry
        pre = [p for p in f.bmap[L.h].preds if p not in L.blocks]
        es = [self.edge(p, L.h) for p in pre]
        if not hasattr(self, 'entry_cond'): self.entry_cond = {}
        c = g.false()
        for e in es: c = g.Or(c, e[0])
        self.entry_cond[L.h] = c
        mem = self.merge_mem(es)
        env = self.env
        phis = []
        for i in f.bmap[L.h].instrs:
            if i.op != 'phi': break
            inits = []
            for v, b in i.x:
                if b not in L.blocks:
                    e = self.edge(b, L.h)
                    x = self.val(v, i.ty)
                    for l in e[2]: x = self.eta(l, x, tyname(i.ty) if i.ty.k != 'ptr' else None)
                    inits.append((e[0], x))
            init = self.merge_vals(inits, i.ty)
            phis.append((i, init))
            ty = tyname(i.ty)
            k = ('%d' % len(phis))
            if isinstance(init, Ptr):
                mu = g.mk('mu', lid, k, 'i64')
                env[i.res] = Ptr(init.obj, init.pre, mu)
                g.mu[mu] = {'init': init.off, 'loop': lid, 'ty': 'i64', 'dbg': i.dbg, 'name': i.res}
            elif isinstance(init, Agg):
                raise Unsupported('aggregate loop value')
            else:
                mu = g.mk('mu', lid, k, ty)
                env[i.res] = mu
                g.mu[mu] = {'init': init, 'loop': lid, 'ty': ty, 'dbg': i.dbg, 'name': i.res}
            g.mu[mu]['step'] = None
            if i.res in self.affine_phi and self.affine_phi[i.res][0] == L.h: g.mu[mu]['step'] = g.c(self.affine_phi[i.res][1], g.mu[mu]['ty'])
        g.loops[lid].update(limit=None, cont={}, run={}, also={}, pure=False)
        mem_in = dict(mem)
        mmus = {}
        for o in sorted(self.W[L.h], key=repr):
            m = g.mk('mmu', lid, repr(o))
            g.mu[m] = {'init': self.getmem(mem, o), 'loop': lid, 'ty': 'mem', 'obj': o, 'dbg': None, 'name': repr(o)}
            mem_in[o] = m; mmus[o] = m
        self.loop_mem_in = getattr(self, 'loop_mem_in', {}); self.loop_mem_in[L.h] = mem_in
        ncalls = len(self.calls)
        self.region(L, L.h, mem_in)
        # next values
        les = [(b, self.edge(b, L.h)) for b in L.latches]
        for i, init in phis:
            nx = []
            for v, b in i.x:
                if b in L.blocks:
                    e = self.edge(b, L.h); nx.append((e[0], self.val(v, i.ty)))
            n = self.merge_vals(nx, i.ty)
            mu = env[i.res]
            if isinstance(mu, Ptr):
                if not isinstance(n, Ptr) or n.obj != mu.obj or n.pre != mu.pre: raise Unsupported('pointer changes object in loop')
                g.mu[mu.off]['next'] = n.off; m = mu.off
            else:
                if isinstance(n, (Ptr, Agg)): raise Unsupported('phi type')
                g.mu[mu]['next'] = n; m = mu
            nd = g.n[g.mu[m]['next']]
            if nd[0] == 'op' and nd[1] == 'add' and nd[3] == m and not self.depends(nd[4], lid): g.mu[m]['step'] = nd[4]
            elif nd[0] == 'op' and nd[1] == 'add' and nd[4] == m and not self.depends(nd[3], lid): g.mu[m]['step'] = nd[3]
            elif g.mu[m]['step'] is None:
                # a value that follows a counter one iteration behind
                a = self.aff(g.mu[m]['next'], lid) if g.mu[m]['ty'][0] == 'i' and g.mu[m]['ty'] != I1 else None
                ty = g.mu[m]['ty']
                if a and a[0] != g.mu[m]['next'] and g.n[a[1]][0] == 'c' and g.add(g.mu[m]['init'], g.c(g.n[a[1]][1], ty), ty) == a[0]: g.mu[m]['step'] = g.c(g.n[a[1]][1], ty)
        nm = self.merge_mem([e for _, e in les])
        for o, m in mmus.items():
            g.mu[m]['next'] = self.getmem(nm, o)
        # exit condition
        ex = g.false(); exl = []
        for (b, s) in L.exits:
            if b not in f.bmap or s not in f.bmap: continue
            ce = self.raw_edge_cond(b, s, L)
            ex = g.Or(ex, ce); exl.append(ce)
        g.loops[lid]['exit'] = ex
        hex_ = [e for e in L.exits if e[0] in f.bmap and e[1] in f.bmap]
        g.loops[lid]['count'] = None; g.loops[lid]['range'] = {}
        # the test comes before anything is written: a loop of no iterations does nothing
        tests = [b for b, c in g.loops[lid]['cont'].items() if c is not None]
        g.loops[lid]['pure'] = len(tests) == 1 and all(self.memout[tests[0]].get(o) == m for o, m in mem_in.items()) and all(self.dom(tests[0], e[0]) for e in hex_)
        if len(hex_) == 1 and all(g.isc(x, 1) for x in g.loops[lid]['also'].values()):
            ct = g.loops[lid]['limit']
            g.loops[lid]['count'] = ct
            if ct is not None and g.loops[lid]['pure']: g.loops[lid]['range'] = self.ranges(lid, mmus, ct)
        g.loops[lid]['exits'] = exl
        g.loops[lid]['entry'] = self.entry_cond[L.h]
        g.loops[lid]['virt'] = self.virtual(L, lid, phis, hex_, exl, tests, ncalls) if self.opts.get('virt') and L.h not in self.novirt else None
        hdr = f.bmap[L.h]
        g.loops[lid]['where'] = self.mod.where(hdr.instrs[-1].dbg, self.opts.get('prefer'))

    # ---- loops that only look: their results are quantifiers and sums over the iterations -----
    def virtual(self, L, lid, phis, edges, exl, tests, ncalls):
        g = self.g; lp = g.loops[lid]; f = self.f
        if self.W[L.h] or len(self.calls) != ncalls or lp['limit'] is None or not lp['pure'] or len(tests) != 1: return None
        if any(not g.loops[self.lid[C.h]].get('virt') for C in self.loops if C.parent is L): return None
        n = lp['limit']; bv = g.mk('bv', lid)
        at = {}; flags = {}; sums = {}; rest = []
        it = g.mk('mu', lid, 'it', 'i64')
        at[it] = bv
        for i, init in phis:
            mu = self.env[i.res]; mu = mu.off if isinstance(mu, Ptr) else mu
            d = g.mu[mu]; ty = d['ty']
            if d['step'] is not None:
                if ty[0] != 'i': return None
                v = g.mul(bv, self.w64(d['step']), 'i64')
                at[mu] = g.add(d['init'], v if ty == 'i64' else self.cast('trunc', v, 'i64', ty), ty)
            elif ty == I1 or ty == 'i8' and self.delta(d['next'], mu, ty) is None: flags[mu] = d
            elif ty[0] == 'i': sums[mu] = d
            else: return None
        early = [(e, c) for e, c in zip(edges, exl) if e[0] != tests[0]]
        if len(edges) - len(early) != 1: return None
        dest = [e[1] for e in edges]
        same = len(set(dest)) == 1 and all(self.same_in(dest[0], [e[0] for e in edges]))
        res = {'n': n, 'at': at, 'early': {}, 'fin': {}, 'any': None}
        try:
            also = list(lp['also'].values())
            if any(not g.isc(x, 1) for x in also):
                # the test also asks for a flag
                if early or sums or len(flags) != 1: return None
                (mu, d), = flags.items()
                res['fin'][mu] = self.sticky(lid, mu, d, n, at, g.Not(also[0]))
                res['early'][exl[0]] = g.true()
                return res
            if not early:
                for mu, d in flags.items(): res['fin'][mu] = self.sticky(lid, mu, d, n, at, None)
                for mu, d in sums.items():
                    x = self.delta(d['next'], mu, d['ty'])
                    if x is None: return None
                    x = self.subst(x, at)
                    if self.depends(x, lid): return None
                    res['fin'][mu] = g.add(d['init'], g.mk('sum', lid, d['ty'], n, x), d['ty'])
                return res
            if sums: return None
            if flags and same and len(flags) == 1 and len(early) == 1:
                (mu, d), = flags.items(); ex = early[0][1]
                if g.isc(self.subst(ex, {mu: g.c(0, d['ty'])}), 0):
                    res['fin'][mu] = self.sticky(lid, mu, d, n, at, ex)
                    for k, c in enumerate(exl): res['early'][c] = g.true() if k == 0 else g.false()
                    return res
            ds = {e[1] for e, c in early}
            if len(ds) > 1: return None
            # flags that change only in the iteration that leaves
            sub = {}
            left = g.false()
            for e, c in early: left = g.Or(left, c)
            run = {c: g.true() for c in lp['run'].values()}
            for mu, d in flags.items():
                di = g.n[d['init']]
                for u in ([di[1]] if di[0] == 'c' else [0, 1] if di[0] == 'undef' else []):
                    ty = d['ty']; s = dict(run); s[mu] = g.c(u, ty)
                    nx = self.boolval(self.subst(d['next'], s), ty); ex = self.subst(left, s)
                    if self.taut(g.Or(ex, nx if u else g.Not(nx))):
                        sub[mu] = g.c(u, ty)
                        if self.taut(g.Or(g.Not(ex), g.Not(nx) if u else nx)): res['fin'][d['next']] = g.c(1 - u, ty)
                        break
                else: return None
            res['fin'].update(sub)
            if len(early) > 1 and not self.leave_alike(early, lid, sub, res['fin']): return None
            al = g.false()
            for e, c in early:
                b = self.subst(self.subst(c, sub), at)
                if self.depends(b, lid): return None
                q = g.mk('any', lid, n, b); res['early'][c] = q; al = g.Or(al, q)
            for e, c in zip(edges, exl):
                if e[0] == tests[0]: res['early'][c] = g.Not(al)
            return res
        except Unsupported: return None

    def leave_alike(self, early, lid, sub, fin):
        """whichever way the loop is left, the same values leave"""
        g = self.g
        for i in self.f.bmap[early[0][0][1]].instrs:
            if i.op != 'phi': break
            if len({repr(v) for v, b in i.x if b in [e[0] for e, c in early]}) == 1: continue
            if i.ty.k != 'int' and tyname(i.ty)[0] != 'i': return False
            out = set(); via = {}
            for e, c in early:
                for v, b in i.x:
                    if b != e[0]: continue
                    x = self.val(v, i.ty); r = self.subst(x, sub)
                    if self.depends(r, lid):
                        lv = self.leaves(r)
                        if not lv: return False
                        ok = {w for q, w in lv if not self.taut(g.Not(g.And(self.subst(c, sub), q)))}
                        if len(ok) != 1: return False
                        r = ok.pop()
                    out.add(r); via[x] = r
            if len(out) != 1: return False
            for x, r in via.items():
                if x not in sub: fin[x] = r
                elif sub[x] != r: return False
        return True

    def same_in(self, dest, srcs):
        for i in self.f.bmap[dest].instrs:
            if i.op != 'phi': break
            yield len({repr(v) for v, b in i.x if b in srcs}) == 1

    def boolval(self, x, ty):
        """a value that is 0 or 1, as a truth value"""
        g = self.g
        if ty == I1: return x
        d = g.n[x]
        if d[0] == 'c' and d[1] in (0, 1): return g.c(d[1], I1)
        if d[0] == 'cast' and d[1] == 'zext': return self.boolval(d[3], d[4])
        if d[0] == 'cast' and d[1] == 'trunc': return self.boolval(d[3], d[4])
        if d[0] == 'sel': return g.sel(d[2], self.boolval(d[3], ty), self.boolval(d[4], ty), I1)
        if d[0] == 'op' and d[1] in ('and', 'or', 'xor'):
            a, b = self.boolval(d[3], ty), self.boolval(d[4], ty)
            return g.And(a, b) if d[1] == 'and' else g.Or(a, b) if d[1] == 'or' else g.Or(g.And(a, g.Not(b)), g.And(g.Not(a), b))
        raise Unsupported('flag')

    def logic(self, x):
        """truth values kept in wider types, as truth values"""
        g = self.g; d = g.n[x]
        if d[0] == 'not': return g.Not(self.logic(d[1]))
        if d[0] == 'sel' and d[1] == I1: return g.sel(*[self.logic(y) for y in d[2:5]], I1)
        if d[0] == 'op' and d[2] == I1 and d[1] in ('and', 'or'): return (g.And if d[1] == 'and' else g.Or)(self.logic(d[3]), self.logic(d[4]))
        try:
            if d[0] == 'cast' and d[1] == 'trunc' and d[2] == I1: return self.logic(self.boolval(d[3], d[4]))
            if d[0] == 'cmp' and d[1] == 'eq' and g.isc(d[4], 0): return g.Not(self.logic(self.boolval(d[3], d[2])))
        except Unsupported: pass
        return x

    def taut(self, x):
        """true for every truth value of its atoms"""
        g = self.g; at = []; x = self.logic(x)
        def atoms(x):
            d = g.n[x]
            if d[0] == 'c': return
            if d[0] == 'not' or d[0] == 'op' and d[2] == I1 or d[0] == 'sel':
                for y in children(d): atoms(y)
            elif x not in at: at.append(x)
        atoms(x)
        if len(at) > 10: return False
        def ev(x, v):
            d = g.n[x]
            if d[0] == 'c': return d[1] & 1
            if d[0] == 'not': return 1 - ev(d[1], v)
            if d[0] == 'sel' and d[1] == I1: return ev(d[3], v) if ev(d[2], v) else ev(d[4], v)
            if d[0] == 'op' and d[2] == I1 and d[1] in ('and', 'or', 'xor'):
                a, b = ev(d[3], v), ev(d[4], v)
                return a & b if d[1] == 'and' else a | b if d[1] == 'or' else a ^ b
            return v[x]
        return all(ev(x, {y: k >> i & 1 for i, y in enumerate(at)}) for k in range(1 << len(at)))

    def sticky(self, lid, mu, d, n, at, ex):
        """final value of a flag that stays once it is set (or cleared)"""
        g = self.g; ty = d['ty']; T, F = g.c(1, ty), g.c(0, ty)
        n0, n1 = (self.boolval(self.subst(d['next'], {mu: v}), ty) for v in (F, T))
        init = self.boolval(d['init'], ty)
        left = lambda v: g.false() if ex is None else self.subst(ex, {mu: v})
        out = lambda r: r if ty == I1 else self.cast('zext', r, I1, ty)
        run = {c: g.true() for c in g.loops[lid]['run'].values()}
        never = lambda v: self.taut(g.Not(self.subst(left(v), run)))
        if never(F) and self.taut(self.subst(g.Or(left(T), n1), run)):
            b = self.subst(n0, at)
            if self.depends(b, lid): raise Unsupported('flag')
            return out(g.Or(init, g.mk('any', lid, n, b)))
        if never(T) and self.taut(self.subst(g.Or(left(F), g.Not(n0)), run)):
            b = self.subst(g.Not(n1), at)
            if self.depends(b, lid): raise Unsupported('flag')
            return out(g.And(init, g.Not(g.mk('any', lid, n, b))))
        raise Unsupported('flag')

    def delta(self, x, mu, ty):
        """x - mu, where x is mu plus something"""
        g = self.g; d = g.n[x]
        if x == mu: return g.c(0, ty)
        if d[0] == 'op' and d[1] == 'add':
            for u, v in ((d[3], d[4]), (d[4], d[3])):
                if not self.contains(v, mu):
                    r = self.delta(u, mu, ty)
                    return None if r is None else g.add(r, v, ty)
        if d[0] == 'sel' and not self.contains(d[2], mu):
            a, b = self.delta(d[3], mu, ty), self.delta(d[4], mu, ty)
            return None if a is None or b is None else g.sel(d[2], a, b, ty)
        return None

    def contains(self, x, y):
        g = self.g; st = [x]; seen = set()
        while st:
            z = st.pop()
            if z == y: return True
            if z in seen: continue
            seen.add(z); st += children(g.n[z])
        return False

    def subst(self, x, m):
        g = self.g; memo = dict(m)
        def go(x):
            if x in memo: return memo[x]
            d = g.n[x]; k = d[0]
            ch = children(d)
            nw = [go(y) for y in ch]
            if nw == ch: r = x
            elif k == 'not': r = g.Not(nw[0])
            elif k == 'sel': r = g.sel(nw[0], nw[1], nw[2], d[1])
            elif k == 'op' and d[2] == I1 and d[1] in ('and', 'or'): r = (g.And if d[1] == 'and' else g.Or)(*nw)
            elif k == 'op' and d[2][0] == 'i': r = self.binop(d[1], d[2], *nw)
            elif k == 'op': r = g.mk('op', d[1], d[2], *nw)
            elif k == 'cmp': r = self.cmp(d[1], nw[0], nw[1], d[2])
            elif k == 'fcmp': r = g.mk('fcmp', d[1], d[2], *nw)
            elif k == 'cast': r = self.cast(d[1], nw[0], d[4], d[2])
            elif k == 'ld': r = g.mk('ld', d[1], *nw)
            elif k == 'fn1': r = g.mk('fn1', d[1], d[2], *nw)
            elif k == 'tab': r = g.mk('tab', d[1], d[2], nw[0])
            elif k == 'callv': r = g.mk('callv', d[1], d[2], d[3], tuple(nw))
            elif k == 'any': r = g.mk('any', d[1], *nw)
            elif k == 'sum': r = g.mk('sum', d[1], d[2], *nw)
            elif k in ('ptr', 'ptrv', 'ptoi'): r = g.mk(k, d[1], *nw)
            elif k == 'pcmp': r = g.mk(k, d[1], *nw)
            elif k == 'xv': r = g.mk('xv', d[1], nw[0], *d[3:])
            else: raise Unsupported('substitution in ' + k)
            if x in g.signed: g.signed.add(r)
            memo[x] = r; return r
        return go(x)

    def veta(self, lid, x):
        g = self.g; v = g.loops[lid]['virt']; h = g.loops[lid]['h']
        if x in v['early']: return v['early'][x]
        if x in v['fin']: return v['fin'][x]
        try:
            if v['early']:
                r = self.subst(x, v['fin'])
            else:
                m = dict(v['fin']); n = v['n']
                for mu, e in v['at'].items(): m[mu] = self.subst(e, {g.mk('bv', lid): n})
                r = self.subst(x, m)
        except Unsupported: raise NoVirt(h, x)
        if self.depends(r, lid):
            # one of several constants, but only one of them in the iteration that leaves
            lv = self.leaves(r) if v['early'] else None
            if lv:
                left = g.false()
                for c, q in v['early'].items():
                    if g.n[q][0] == 'any': left = g.Or(left, self.subst(c, v['fin']))
                ok = {w for c, w in lv if not self.taut(g.Not(g.And(left, c)))}
                if len(ok) == 1: return ok.pop()
            raise NoVirt(h, x)
        return r

    def leaves(self, x, k=0):
        """[(condition, constant)] of a selection among constants"""
        g = self.g; d = g.n[x]
        if d[0] == 'c': return [(g.true(), x)]
        if d[0] != 'sel' or k > 6: return None
        a, b = self.leaves(d[3], k + 1), self.leaves(d[4], k + 1)
        if a is None or b is None: return None
        return [(g.And(d[2], c), w) for c, w in a] + [(g.And(g.Not(d[2]), c), w) for c, w in b]

    def raw_edge_cond(self, b, s, L):
        """condition of the exit edge in terms of one iteration of L"""
        g = self.g
        c = g.And(self.cond[b], self.brcond(b, s))
        C = self.inner.get(b)
        while C is not L:
            lid = self.lid[C.h]
            nex = [e for e in C.exits if e[1] in self.f.bmap]
            c = self.eta(lid, c, I1) if len(nex) > 1 else g.true()
            c = g.And(self.entry_cond[C.h], c)
            C = C.parent
        return c

    def merge_vals(self, lst, ty):
        """lst of (cond, value), conditions exclusive and exhaustive"""
        g = self.g
        if not lst: raise Unsupported('phi without operands')
        r = lst[-1][1]
        for c, v in reversed(lst[:-1]): r = self.selv(c, v, r, ty)
        return r

    def selv(self, c, a, b, ty):
        g = self.g
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj or len(a.pre) != len(b.pre):
                if b.obj == ('null',): return a
                if a.obj == ('null',): return b
                raise Unsupported('pointer to one of two objects')
            return Ptr(a.obj, [g.sel(c, x, y, 'i64') for x, y in zip(a.pre, b.pre)], g.sel(c, a.off, b.off, 'i64'))
        if isinstance(a, Agg) or isinstance(b, Agg):
            if a == b: return a
            raise Unsupported('aggregate select')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if g.n[a if not isinstance(a, Ptr) else b][0] == 'undef': return a if isinstance(a, Ptr) else b
            raise Unsupported('pointer/int select')
        return g.sel(c, a, b, tyname(ty))

    def getmem(self, mem, o):
        if o in mem: return mem[o]
        n = self.objname(o)
        return self.g.mk('m0', ('local',) if n == ('vec', ('local',)) else n)      # fresh elements: wherever they live

    def objname(self, o):
        """name of an object that is meaningful across programs (locals are anonymous)"""
        if o[0] == 'arg': return ('arg', o[1])
        if o[0] == 'alloca': return ('local',)
        if o[0] in ('vec', 'vsz', 'deref', 'par'): return (o[0], self.objname(o[1]))
        if o[0] == 'map': return ('map', self.objname(o[1]), o[2])
        if o == ('g', '_ZSt4cout'): return ('stdout',)
        if o in (('g', '_ZSt4cerr'), ('g', '_ZSt4clog')): return ('stderr',)
        if o[0] == 'ret': return ('ret', o[1])
        return o

    def merge_mem(self, es):
        g = self.g
        if len(es) == 1: return dict(es[0][1])
        objs = set()
        for e in es: objs |= set(e[1])
        out = {}
        for o in objs:
            r = self.getmem(es[-1][1], o)
            for e in reversed(es[:-1]):
                m = self.getmem(e[1], o)
                if m != r: r = g.mk('msel', e[0], m, r)
            out[o] = r
        return out

    def do_block(self, b, L, entry, mem0):
        g = self.g; f = self.f
        blk = f.bmap[b]
        if b == entry:
            self.cond[b] = g.true(); self.mem = dict(mem0)
            skip_phi = L is not None
        else:
            es = [self.edge(p, b) for p in blk.preds]
            c = g.false()
            for e in es: c = g.Or(c, e[0])
            self.cond[b] = c
            self.mem = self.merge_mem(es)
            skip_phi = False
        self.bb = b; self.L = L
        for i in blk.instrs:
            g.cur = i.dbg
            if i.op == 'phi':
                if b == entry and L is not None: continue
                lst = []
                for v, p in i.x:
                    if p not in f.bmap or p not in blk.preds: continue
                    e = self.edge(p, b); x = self.val(v, i.ty)
                    for l in e[2]: x = self.eta(l, x, tyname(i.ty) if i.ty.k != 'ptr' else None)
                    lst.append((e[0], x))
                self.env[i.res] = self.merge_vals(lst, i.ty)
            elif i.op == 'ret':
                v = self.val(i.args[0], i.ty) if i.args else None
                self.rets.append((self.cond[b], v, i.ty, self.mem))
            elif i.op == 'unreachable' and self.opts.get('throws'):
                e = self.ends(blk); nm = e.x[0][1]
                rt = next((x.ty for q in self.f.blocks for x in q.instrs if x.op == 'ret' and x.args), None)
                v = g.mk('undef', tyname(rt)) if rt is not None and rt.k in ('i', 'float', 'double') else None
                if nm in ('exit', '_Exit', 'quick_exit') and v is not None and rt.k == 'i':
                    a = self.val(e.args[0], Ty('i', None, 32))
                    v = self.cast('zext', g.Not(self.cmp('eq', a, g.c(0, 'i32'), 'i32')), I1, tyname(rt))
                elif self.opts['throws'] == 'status' and v is not None and rt.k == 'i': v = g.c(1, tyname(rt))
                else:
                    what = repr(e.args[1]) if nm == '__cxa_throw' else nm
                    what = self.opts['throws'](what) if callable(self.opts['throws']) else 'thrown'
                    self.setmem(('g', 'outcome'), g.mk('m0', ('outcome', what)))
                if v is None and rt is not None and rt.k == 'ptr': v = Ptr(('null',), (), g.c(0, 'i64'))
                self.rets.append((self.cond[b], v, rt, self.mem))
            elif i.op in ('br', 'switch', 'unreachable'):
                pass
            else:
                self.instr(i)
        self.memout[b] = self.mem

    def final(self):
        g = self.g
        if not self.rets: raise Unsupported('function never returns')
        c, v, ty, m = self.rets[-1]
        for c2, v2, ty2, m2 in reversed(self.rets[:-1]):
            if v is not None: v = self.selv(c2, v2, v, ty)
            m = self.merge_mem([(c2, m2), (g.Not(c2), m)])
        self.ret = v; self.retty = ty; self.mem_final = m
        obs = {}
        if v is not None:
            obs['return'] = self.as_nodes(v)
        for o, mm in m.items():
            if self.visible(o): obs[self.objname(o)] = mm
        self.obs = obs

    def as_nodes(self, v):
        if isinstance(v, Ptr): return self.g.mk('ptr', self.objname(v.obj), *v.key())
        if isinstance(v, Agg): return self.g.mk('aggv', *[x for _, x in sorted(v.vals.items())])
        return v

    def visible(self, o):
        if o[0] in ('arg', 'g'): return True
        if o[0] == 'alloca': return False
        if o[0] in ('vec', 'vsz', 'deref', 'par', 'map'): return self.visible(o[1])
        if o[0] == 'ret': return False
        return True

    # ---- values -----------------------------------------------------------------
    def val(self, v, ty):
        g = self.g
        k = v[0]
        if k == 'r':
            return self.env[v[1]]
        if k == 'c':
            t = tyname(ty)
            return g.c(wrap(v[1], t), t)
        if k == 'f':
            c = fconst(v[1])
            return g.c(c, tyname(ty))
        if k == 'u':
            return g.mk('undef', tyname(ty))
        if k == 'null': return Ptr(('null',), (), g.c(0, 'i64'))
        if k == 'z':
            if ty.k == 'i': return g.c(0, tyname(ty))
            if ty.k in ('float', 'double'): return g.c(Fraction(0), tyname(ty))
            return g.mk('undef', 'agg')
        if k == 'g':
            s = self.mod.cstring(v[1])
            if v[1] in self.mod.lazy or v[1] in self.mod.decls:
                return Ptr(('g', 'fn:' + Sig(self.dm(v[1])).base), (), g.c(0, 'i64'))
            gg = self.mod.globals.get(v[1])
            nm = v[1]
            if gg and gg['const'] and gg['init']: return Ptr(('cg', nm), (), g.c(0, 'i64'))
            return Ptr(('g', nm), (), g.c(0, 'i64'))
        if k == 'gep':
            base = self.val(v[2], Ty('ptr'))
            return self.gep(base, v[1], [(t, self.val(x, t)) for t, x in v[3]])
        raise Unsupported('value ' + repr(v)[:60])

    def to64(self, x, ty):
        g = self.g
        t = tyname(ty)
        if t == 'i64': return x
        d = g.n[x]
        if d[0] == 'c': return g.c(d[1], 'i64')
        return g.mk('cast', 'sext', 'i64', x, t)

    def gep(self, base, ty, idx):
        g = self.g
        if not isinstance(base, Ptr): raise Unsupported('gep on non-pointer')
        off = base.off
        t = ty
        for n, (it, x) in enumerate(idx):
            x = self.to64(x, it)
            if n == 0:
                sz = self.mod.size(t)
                off = g.add(off, g.mul(x, g.c(sz, 'i64'), 'i64'), 'i64')
            else:
                r = self.mod.resolve(t)
                if r.k in ('arr', 'vec'):
                    t = r.a; off = g.add(off, g.mul(x, g.c(self.mod.size(t), 'i64'), 'i64'), 'i64')
                elif r.k == 'struct':
                    o, t = self.mod.field_off(r, g.n[x][1]); off = g.add(off, g.c(o, 'i64'), 'i64')
                else: raise Unsupported('gep type')
        return Ptr(base.obj, base.pre, off)

    def cmp(self, pred, a, b, ty):
        g = self.g
        da, db = g.n[a], g.n[b]
        if da[0] == 'c' and db[0] == 'c':
            return g.c(int(icmp(pred, da[1], db[1], ty)), I1)
        if a == b and pred in ('eq', 'ule', 'uge', 'sle', 'sge'): return g.true()
        if a == b: return g.false()
        if pred == 'ne': return g.Not(self.cmp('eq', a, b, ty))
        if pred in ('sgt', 'ugt', 'sge', 'uge'):
            return self.cmp({'sgt': 'slt', 'ugt': 'ult', 'sge': 'sle', 'uge': 'ule'}[pred], b, a, ty)
        if pred in ('sle', 'ule'):
            return g.Not(self.cmp('slt' if pred == 'sle' else 'ult', b, a, ty))
        if pred == 'eq':
            if ty == I1:
                if g.isc(b, 1): return a
                if g.isc(b, 0): return g.Not(a)
            for x, y in ((a, b), (b, a)):
                s = self.unit_counter(x)
                if s and not self.depends(y, s[0]):
                    # equality exit test of a counter: read as the ordering test
                    return g.Not(self.cmp('slt', x, y, ty)) if s[1] > 0 else g.Not(self.cmp('slt', y, x, ty))
        for e in (da, db):
            if isinstance(e[1], int) and e[0] == 'c': g.consts.add((e[1], ty))
        return g.mk('cmp', pred, ty, a, b)

    def unit_counter(self, x):
        """x is (an affine function of) a counter of the loop whose exit is being decided"""
        if not self.exit_test: return None
        L, names = self.exit_test
        g = self.g
        d = g.n[x]
        if d[0] == 'mu' and d[1] == self.lid[L] and x in names: return (d[1], names[x])
        if d[0] == 'op' and d[1] in ('add', 'sub'):
            a = self.aff(x, self.lid[L])
            if a and g.n[a[1]][0] == 'c' and g.n[a[1]][1] and self.depends(x, self.lid[L]): return (self.lid[L], g.n[a[1]][1])
        return None
    exit_test = None

    # ---- memory -----------------------------------------------------------------
    def mark(self, o):
        L = self.inner.get(self.bb)
        while L:
            if o not in self.W[L.h]:
                self.W[L.h].add(o); self.changed = True
            L = L.parent

    def load(self, p, ty):
        g = self.g
        if not isinstance(p, Ptr): raise Unsupported('load from non-pointer')
        if p.obj[0] == 'cg':
            cells = self.mod.const_cells(p.obj[1])
            d = g.n[p.off]
            if cells is not None and d[0] == 'c' and d[1] in cells:
                cv = cells[d[1]][1]
                if isinstance(cv, (int, Fraction)): return g.c(cv, tyname(ty))
            if cells is None: raise Unsupported('constant table')
            tab = tuple(sorted((o, c[1]) for o, c in cells.items() if c[1] is not None))
            return g.mk('tab', tyname(ty), tab, p.off)
        m = self.getmem(self.mem, p.obj)
        if ty.k == 'ptr':
            v = self.forward(m, p)
            if v is not None: return v
            return Ptr(('deref', p.obj), p.key(), g.c(0, 'i64'))
        v = self.forward(m, p)
        if v is not None and not isinstance(v, (Ptr, Agg)) and self.nty(v) == tyname(ty): return v
        self.touch(p.obj, ty)
        return g.mk('ld', tyname(ty), m, *p.key())

    def forward(self, m, p):
        g = self.g
        k = p.key()
        for _ in range(400):
            d = g.n[m]
            if d[0] == 'st':
                if d[4:] == k:
                    v = d[2]
                    dv = g.n[v]
                    if dv[0] == 'ptrv': return self.ptrs[v]
                    return v
                # constant, different offsets: independent
                kk = d[4:]
                if len(kk) == len(k) and kk[:-1] == k[:-1] and g.n[kk[-1]][0] == 'c' and g.n[k[-1]][0] == 'c':
                    m = d[1]; continue
                return None
            return None
        return None
    ptrs = {}

    def store(self, p, v, ty):
        g = self.g
        if not isinstance(p, Ptr): raise Unsupported('store to non-pointer')
        if self.opts.get('stub2') and p.obj in (('g', '_ZSt4cout'), ('g', '_ZSt4cerr'), ('g', '_ZSt4clog')): return     # text of messages
        if isinstance(v, Ptr):
            n = g.mk('ptrv', self.objname(v.obj), *v.key()); self.ptrs = dict(self.ptrs); self.ptrs[n] = v; v = n
        elif isinstance(v, Agg):
            raise Unsupported('aggregate store')
        sz = self.mod.size(ty)
        if ty.k != 'ptr': self.touch(p.obj, ty)
        self.setmem(p.obj, g.mk('st', self.getmem(self.mem, p.obj), v, sz, *p.key()))

    def touch(self, o, ty):
        s = self.acc.setdefault(o, set()); t = tyname(ty)
        if t not in s: s.add(t); self.changed = True

    def log(self, base, args, i, outs=()):
        self.calls.append({'callee': base, 'args': args, 'bb': self.bb, 'loop': self.lid[self.L.h] if self.L else None,
                           'cond': self.cond[self.bb], 'dbg': i.dbg, 'outs': list(outs)})

    def range_fill(self, p, v, ty, sz, count, step, vstep=None):
        g = self.g
        m = g.mk('rfill', ty, sz, self.getmem(self.mem, p.obj), v, vstep if vstep is not None else g.c(0, 'i64'), count, step, *p.key())
        self.setmem(p.obj, m)
    def range_copy(self, d, s, ty, sz, count, dstep, sstep):
        g = self.g
        m = g.mk('rcopy', ty, sz, len(d.key()), self.getmem(self.mem, d.obj), self.getmem(self.mem, s.obj), count, dstep, sstep, *(d.key() + s.key()))
        self.setmem(d.obj, m)

    # ---- counted loops ------------------------------------------------------------
    def aff(self, x, lid):
        """(init, step) of a value that is affine in the iteration number of loop lid"""
        g = self.g; d = g.n[x]
        if not self.depends(x, lid): return (x, g.c(0, 'i64'))
        if d[0] in ('op', 'mu') and (d[2] if d[0] == 'op' else d[3])[0] != 'i': return None
        if d[0] == 'mu' and d[1] == lid:
            st = g.mu[x].get('step')
            return (g.mu[x]['init'], self.w64(st)) if st is not None else None
        if d[0] == 'cast' and d[1] in ('sext', 'zext', 'trunc') and d[4] != I1:
            a = self.aff(d[3], lid)
            return (self.cast(d[1], a[0], d[4], d[2]), a[1]) if a else None
        if d[0] == 'op' and d[1] in ('add', 'sub'):
            a, b = self.aff(d[3], lid), self.aff(d[4], lid)
            if not a or not b: return None
            return (self.binop(d[1], d[2], a[0], b[0]), self.binop(d[1], 'i64', a[1], b[1]))
        if d[0] == 'op' and d[1] == 'mul':
            for u, v in ((d[3], d[4]), (d[4], d[3])):
                if not self.depends(v, lid):
                    a = self.aff(u, lid)
                    return (g.mul(a[0], v, d[2]), g.mul(a[1], self.w64(v), 'i64')) if a else None
        return None
    def w64(self, x):
        t = self.nty(x)
        return x if t == 'i64' else self.cast('sext', x, t, 'i64')

    def trip(self, lid, exl):
        """number of iterations of a loop whose only exit is a test of an affine counter"""
        g = self.g
        if len(exl) != 1: return None
        c = exl[0]; neg = True
        if g.n[c][0] == 'not': c = g.n[c][1]; neg = False     # loop continues while c
        d = g.n[c]
        if d[0] != 'cmp' or d[1] not in ('slt', 'ult'): return None
        x, y = self.aff(d[3], lid), self.aff(d[4], lid)
        if not x or not y: return None
        sx, sy = g.n[x[1]], g.n[y[1]]
        if sx[0] != 'c' or sy[0] != 'c': return None
        s = sy[1] - sx[1]      # y - x changes by s per iteration
        x0, y0 = self.ext(x[0], d[1]), self.ext(y[0], d[1])
        diff = self.binop('sub', 'i64', y0, x0)
        uns = d[1] == 'ult' and d[2] == 'i64'
        if not neg:            # while x < y
            if s >= 0: return None
            n = diff if s == -1 else self.binop('sdiv', 'i64', g.add(diff, g.c(-s - 1, 'i64'), 'i64'), g.c(-s, 'i64'))
            if uns: return g.sel(self.cmp('ult', x0, y0, 'i64'), n, g.c(0, 'i64'), 'i64')
        else:                  # while y <= x
            if s <= 0: return None
            if uns and g.isc(y0, 0): return None
            n = self.binop('sub', 'i64', g.c(0, 'i64'), diff)
            n = g.add(n if s == 1 else self.binop('sdiv', 'i64', n, g.c(s, 'i64')), g.c(1, 'i64'), 'i64')
            if uns: return g.sel(self.cmp('ult', x0, y0, 'i64'), g.c(0, 'i64'), n, 'i64')
        return g.sel(self.cmp('slt', n, g.c(0, 'i64'), 'i64'), g.c(0, 'i64'), n, 'i64')
    def ext(self, x, pred):
        t = self.nty(x)
        return x if t == 'i64' else self.cast('sext' if pred == 'slt' else 'zext', x, t, 'i64')

    def ranges(self, lid, mmus, count):
        """closed form of the memory written by a counted loop, per object"""
        g = self.g; out = {}
        for o, m in mmus.items():
            x = g.mu[m]['next']; sts = []
            if self.opts.get('gen'):
                r = self.comprehension(lid, m, count)
                if r is not None: out[m] = r
            while g.n[x][0] == 'st': sts.append(g.n[x]); x = g.n[x][1]
            if x != m or not sts: continue
            res = g.mu[m]['init']; ok = True
            recs = []
            for d in reversed(sts):
                key = d[4:]; val = d[2]; sz = d[3]
                if any(self.depends(k, lid) for k in key[:-1]) : ok = False; break
                a = self.aff(key[-1], lid)
                if not a or g.n[a[1]][0] != 'c' or g.n[a[1]][1] == 0: ok = False; break
                ty = self.nty(val); dv = g.n[val]
                va = self.aff(val, lid) if not dv[0] == 'ptrv' else None
                if dv[0] == 'ptrv': ok = False; break
                if va and (ty[0] == 'i' or g.n[va[1]] == ('c', 0, 'i64')):
                    recs.append(['f', ty, sz, va[0], va[1], key[:-1], a[0], g.n[a[1]][1], count])
                elif dv[0] == 'ld' and not self.depends(dv[2], lid) and not any(self.depends(k, lid) for k in dv[3:-1]):
                    b = self.aff(dv[-1], lid)
                    if not b or g.n[b[1]][0] != 'c': ok = False; break
                    recs.append(['c', dv[1], sz, dv[2], dv[3:-1], key[:-1], a[0], g.n[a[1]][1], count, b[0], g.n[b[1]][1]])
                else: ok = False; break
            if not ok: continue
            for r in self.interleave(recs):
                if r[0] == 'f': res = g.mk('rfill', r[1], r[2], res, r[3], r[4], r[8], g.c(r[7], 'i64'), *(r[5] + (r[6],)))
                else: res = g.mk('rcopy', r[1], r[2], len(r[5]) + 1, res, r[3], r[8], g.c(r[7], 'i64'), g.c(r[10], 'i64'), *(r[5] + (r[6],) + r[4] + (r[9],)))
            if ok: out[m] = res
        return out

    def comprehension(self, lid, m, count):
        """memory written by a counted loop whose conditions, values and places are functions of the iteration number"""
        g = self.g; bv = g.mk('bv', lid); at = {g.mk('mu', lid, 'it', 'i64'): bv}
        for x, d in g.mu.items():
            if d['loop'] != lid or g.n[x][0] != 'mu' or d.get('step') is None or d['ty'][0] != 'i': continue
            v = g.mul(bv, self.w64(d['step']), 'i64')
            at[x] = g.add(d['init'], v if d['ty'] == 'i64' else self.cast('trunc', v, 'i64', d['ty']), d['ty'])
        run = {c: g.true() for c in g.loops[lid]['run'].values()}
        recs = []
        def walk(x, c):
            d = g.n[x]
            if x == m: return True
            if d[0] == 'st':
                if g.n[d[2]][0] == 'ptrv' or not walk(d[1], c): return False
                recs.append((c, d[2], d[4:])); return True
            if d[0] == 'msel': return walk(d[2], g.And(c, d[1])) and walk(d[3], g.And(c, g.Not(d[1])))
            return False
        if not walk(g.mu[m]['next'], g.true()) or not recs or len(recs) > 12: return None
        gs = []
        try:
            for c, v, key in recs:
                ys = [self.subst(self.subst(y, run) if y == c else y, at) for y in (c, v) + tuple(key)]
                if any(self.depends(y, lid) for y in ys): return None
                gs.append(g.mk('gst', self.nty(v), *ys))
        except Unsupported: return None
        self.ngen = getattr(self, 'ngen', 0) + 1
        return g.mk('rgen', lid, g.mu[m]['init'], count, *gs)

    def base_off(self, x):
        """x = base + constant"""
        g = self.g; k = 0
        while True:
            d = g.n[x]
            if d[0] == 'c' and isinstance(d[1], int): return (None, k + d[1])
            if d[:2] == ('op', 'add') and g.n[d[4]][0] == 'c': k += g.n[d[4]][1]; x = d[3]
            elif d[:2] == ('op', 'add') and g.n[d[3]][0] == 'c': k += g.n[d[3]][1]; x = d[4]
            else: return (x, k)

    def interleave(self, recs):
        """s strided ranges that tile one dense range are that range (element-wise copies of records)"""
        g = self.g
        if len(recs) < 2: return recs
        z = recs[0][2]; s = recs[0][7]
        if s != z * len(recs) or any(r[0] != recs[0][0] or r[1] != recs[0][1] or r[2] != z or r[7] != s or r[5] != recs[0][5] for r in recs): return recs
        offs = [(self.base_off(r[6]), r) for r in recs]
        if len({o[0][0] for o in offs}) != 1: return recs
        offs.sort(key=lambda o: o[0][1])
        if any(o[0][1] != offs[0][0][1] + z * i for i, o in enumerate(offs)): return recs
        n = g.mul(recs[0][8], g.c(len(recs), 'i64'), 'i64')
        r0 = list(offs[0][1]); r0[7] = z; r0[8] = n
        if r0[0] == 'f':
            if any(r[3] != r0[3] or g.n[r[4]] != ('c', 0, 'i64') for r in recs): return recs
            return [r0]
        src = [self.base_off(o[1][9]) for o in offs]
        if len({x[0] for x in src}) != 1 or any(r[3] != r0[3] or r[4] != r0[4] or r[10] != s for r in recs): return recs
        if any(x[1] != src[0][1] + z * i for i, x in enumerate(src)): return recs
        r0[10] = z
        return [r0]

    def setmem(self, o, m):
        self.mem[o] = m; self.mark(o)

    # ---- instructions -------------------------------------------------------------
    def instr(self, i):
        g = self.g; op = i.op
        if op == 'alloca':
            self.nalloca += 1
            self.env[i.res] = Ptr(('alloca', i.res), (), g.c(0, 'i64')); return
        if op == 'load':
            self.env[i.res] = self.load(self.val(i.args[0], Ty('ptr')), i.ty); return
        if op == 'store':
            self.store(self.val(i.args[1], Ty('ptr')), self.val(i.args[0], i.ty), i.ty); return
        if op == 'getelementptr':
            sty, its = i.x
            base = self.val(i.args[0], Ty('ptr'))
            self.env[i.res] = self.gep(base, sty, [(t, self.val(v, t)) for t, v in zip(its, i.args[1:])]); return
        if op == 'call':
            self.call(i); return
        if op in ir.BIN:
            ty = tyname(i.ty)
            a, b = self.val(i.args[0], i.ty), self.val(i.args[1], i.ty)
            self.env[i.res] = self.binop(op, ty, a, b); return
        if op == 'fneg':
            ty = tyname(i.ty); a = self.val(i.args[0], i.ty)
            self.env[i.res] = self.binop('fsub', ty, g.c(Fraction(0), ty), a); return
        if op == 'icmp':
            pr, ty = i.x
            a, b = self.val(i.args[0], ty), self.val(i.args[1], ty)
            self.set_exit_test(i)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('pointer compare')
                if a.obj == b.obj and len(a.pre) == len(b.pre):
                    r = self.cmp(pr, a.off, b.off, 'i64')
                    for x, y in zip(a.pre, b.pre):
                        if x != y: raise Unsupported('pointer compare across rows')
                else:
                    r = g.mk('pcmp', pr, self.as_nodes(a), self.as_nodes(b))
            else:
                r = self.cmp(pr, a, b, tyname(ty))
            self.exit_test = None
            self.env[i.res] = r; return
        if op == 'fcmp':
            pr, ty = i.x
            a, b = self.val(i.args[0], ty), self.val(i.args[1], ty)
            self.env[i.res] = self.fcmp(pr, a, b); return
        if op == 'select':
            c = self.val(i.args[0], Ty('i', None, 1))
            self.env[i.res] = self.selv(c, self.val(i.args[1], i.ty), self.val(i.args[2], i.ty), i.ty); return
        if op == 'freeze':
            self.env[i.res] = self.val(i.args[0], i.ty); return
        if op in ir.CAST:
            v = self.val(i.args[0], i.x)
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                if op == 'ptrtoint' and isinstance(v, Ptr):
                    self.ptoi = getattr(self, 'ptoi', {}); n = g.mk('ptoi', self.objname(v.obj), *v.key()); self.ptoi[n] = v
                    self.env[i.res] = n; return
                if op == 'inttoptr':
                    if v in getattr(self, 'ptoi', {}): self.env[i.res] = self.ptoi[v]; return
                    raise Unsupported('inttoptr')
                self.env[i.res] = v; return
            self.env[i.res] = self.cast(op, v, tyname(i.x), tyname(i.ty)); return
        if op == 'extractvalue':
            ix, ty = i.x; a = self.val(i.args[0], ty)
            if isinstance(a, Agg):
                k = tuple(ix)
                if k in a.vals: self.env[i.res] = a.vals[k]; return
            if isinstance(a, (Ptr, Agg)): raise Unsupported('extractvalue')
            self.env[i.res] = g.mk('xv', tyname(i.ty), a, *ix); return
        if op == 'insertvalue':
            ix, t2 = i.x; a = self.val(i.args[0], i.ty); b = self.val(i.args[1], t2)
            vals = dict(a.vals) if isinstance(a, Agg) else {}
            vals[tuple(ix)] = b
            self.env[i.res] = Agg(vals); return
        if op == 'landingpad':
            self.env[i.res] = g.mk('undef', 'agg'); return
        raise Unsupported('instruction ' + op)

    def set_exit_test(self, i):
        """mark an icmp that (through the branch of its block) decides leaving the innermost loop"""
        L = self.inner.get(self.bb)
        self.exit_test = None
        if not L: return
        t = self.f.bmap[self.bb].instrs[-1]
        if t.op != 'br' or len(t.x) != 2: return
        if t.args and t.args[0] == ('r', i.res) and any(s not in L.blocks for s in self.f.bmap[self.bb].succs):
            names = {}
            for nm, (h, st) in self.affine_phi.items():
                if h == L.h and nm in self.env:
                    e = self.env[nm]
                    names[e.off if isinstance(e, Ptr) else e] = st
            self.exit_test = (L.h, names)

    def binop(self, op, ty, a, b):
        g = self.g
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('pointer arithmetic')
        if op == 'sub' and g.n[a][0] == 'ptoi' and g.n[b][0] == 'ptoi':
            pa, pb = self.ptoi[a], self.ptoi[b]
            if pa.obj == pb.obj and pa.pre == pb.pre: return self.binop('sub', 'i64', pa.off, pb.off)
        if op == 'add': return g.add(a, b, ty)
        if op == 'mul': return g.mul(a, b, ty)
        if op == 'sub':
            if g.n[b][0] == 'c': return g.add(a, g.c(wrap(-g.n[b][1], ty), ty), ty)
            return g.mk('op', 'sub', ty, a, b)
        if op == 'shl' and g.n[b][0] == 'c' and 0 <= g.n[b][1] < 63:
            return g.mul(a, g.c(wrap(1 << g.n[b][1], ty), ty), ty)
        if ty == I1:
            if op == 'and': return g.And(a, b)
            if op == 'or': return g.Or(a, b)
            if op == 'xor':
                if g.isc(b, 1): return g.Not(a)
                if g.isc(a, 1): return g.Not(b)
        da, db = g.n[a], g.n[b]
        if da[0] == 'c' and db[0] == 'c':
            r = ev_bin(op, ty, da[1], db[1])
            if r is not None: return g.c(r, ty)
        return g.mk('op', op, ty, a, b)

    def fcmp(self, pr, a, b):
        g = self.g
        if pr == 'true': return g.true()
        if pr == 'false': return g.false()
        if pr in ('ord',): return g.true()
        if pr == 'uno': return g.false()
        p = pr[1:]   # ordered and unordered alike: NaN is outside the model
        if p == 'ne': return g.Not(self.fcmp('oeq', a, b))
        if p in ('gt', 'ge'): return self.fcmp('o' + {'gt': 'lt', 'ge': 'le'}[p], b, a)
        if p == 'le': return g.Not(self.fcmp('olt', b, a))
        if a == b: return g.true() if p == 'eq' else g.false()
        return g.mk('fcmp', p, 'float', a, b)

    def cast(self, op, v, t1, t2):
        g = self.g
        d = g.n[v]
        if op in ('fpext', 'fptrunc'): return v if d[0] != 'c' else g.c(d[1], t2)
        if d[0] == 'c':
            r = ev_cast(op, d[1], t1, t2)
            if r is not None: return g.c(r, t2)
        if op == 'trunc' and t2 != I1:
            # arithmetic modulo 2^n commutes with truncation
            if d[0] == 'op' and d[1] in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                return self.binop(d[1], t2, self.cast('trunc', d[3], t1, t2), self.cast('trunc', d[4], t1, t2))
            if d[0] == 'cast' and d[1] in ('zext', 'sext', 'trunc') and d[4] != I1:
                t0 = d[4]; a, b = int(t0[1:]), int(t2[1:])
                if a == b: return d[3]
                return self.cast('trunc' if a > b else d[1], d[3], t0, t2)
        return g.mk('cast', op, t2, v, t1)

    # ---- calls --------------------------------------------------------------------
    def call(self, i):
        import calls
        calls.handle(self, i)

def icmp(pred, a, b, ty):
    if pred[0] == 'u':
        n = 64 if ty == 'ptr' else int(ty[1:]); m = (1 << n) - 1
        a &= m; b &= m
        pred = 's' + pred[1:]
    return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]

def ev_bin(op, ty, a, b):
    try:
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv': return Fraction(a) / b if b != 0 else None
            return None
        n = int(ty[1:]); m = (1 << n) - 1
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul': r = a * b
        elif op == 'and': r = a & b
        elif op == 'or': r = a | b
        elif op == 'xor': r = a ^ b
        elif op == 'shl': r = a << b if 0 <= b < n else 0
        elif op == 'lshr': r = (a & m) >> b if 0 <= b < n else 0
        elif op == 'ashr': r = a >> b if 0 <= b < n else 0
        elif op in ('sdiv', 'srem'):
            if b == 0: return None
            q = abs(a) // abs(b); q = -q if (a < 0) != (b < 0) else q
            r = q if op == 'sdiv' else a - b * q
        elif op in ('udiv', 'urem'):
            a &= m; b &= m
            if b == 0: return None
            r = a // b if op == 'udiv' else a % b
        else: return None
        return wrap(r, ty)
    except (TypeError, ValueError):
        return None

def ev_cast(op, v, t1, t2):
    import math
    if op == 'sext': return wrap(v, t2) if t1 != I1 else wrap(-v, t2)
    if op == 'zext': return wrap(v & ((1 << int(t1[1:])) - 1), t2)
    if op == 'trunc': return wrap(v, t2)
    if op == 'sitofp': return Fraction(v) if t1 != I1 else Fraction(-v)
    if op == 'uitofp': return Fraction(v & ((1 << int(t1[1:])) - 1))
    if op in ('fptosi', 'fptoui'): return wrap(math.trunc(v), t2)
    return None

NODEARGS = {
    'op': lambda d: d[3:], 'not': lambda d: d[1:], 'sel': lambda d: d[2:], 'cast': lambda d: (d[3],),
    'cmp': lambda d: d[3:], 'fcmp': lambda d: d[3:], 'pcmp': lambda d: d[2:], 'ld': lambda d: d[2:],
    'st': lambda d: (d[1], d[2]) + d[4:], 'msel': lambda d: d[1:], 'eta': lambda d: (d[2],), 'meta': lambda d: (d[2],),
    'tab': lambda d: (d[3],), 'ptr': lambda d: d[2:], 'ptrv': lambda d: d[2:], 'ptoi': lambda d: d[2:], 'aggv': lambda d: d[1:],
    'xv': lambda d: (d[2],), 'fn1': lambda d: d[3:], 'callv': lambda d: d[4], 'mcall': lambda d: d[4],
    'vop': lambda d: d[3:], 'mcopy': lambda d: d[2:], 'mset': lambda d: d[1:], 'mput': lambda d: d[1:],
    'any': lambda d: d[2:], 'sum': lambda d: d[3:], 'rgen': lambda d: d[2:], 'gst': lambda d: d[2:],
    'rfill': lambda d: d[3:], 'rcopy': lambda d: d[4:], 'mview': lambda d: d[1:], 'out': lambda d: d[1:],
}
def children(d):
    f = NODEARGS.get(d[0])
    return list(f(d)) if f else []
