"""Dataflow rules over the type-checked, inlined program (LLVM IR).

Threads      which objects a worker shares with its parent, what parent and
             workers store into them while both run, and where workers are joined
Static state objects with static storage duration that workers or kernels write,
             and statics whose one-time initialiser depends on the call
"""
import os, re, tempfile, shutil
import build, ir
from errors import Undecided

class Fn:
    """one function with def-use helpers"""
    def __init__(self, mod, name, repo):
        self.m = mod; self.f = mod.func(name); self.repo = os.path.normpath(repo) + '/'
        self.defs = {}
        for b in self.f.blocks:
            for k, I in enumerate(b.instrs):
                I.idx = k
                if I.res is not None: self.defs[I.res] = I
        self.params = [p for p, _ in self.f.params]
        self._res = {}
    def where(self, I):
        w = self.m.where(I.dbg, lambda f: f.startswith(self.repo))
        return w[0], w[1]
    def instrs(self):
        for b in self.f.blocks: yield from b.instrs
    def gepoff(self, I):
        """constant byte offset of a getelementptr, or None"""
        return goff(self.m, I.x[0], list(zip(I.x[1], I.args[1:])))
    def base(self, v, seen=()):
        """set of (base, offset|None) a pointer can come from; a base is
        ('alloca', n) ('arg', n) ('g', n) ('data', base) ('load', base, off) ('?', n)"""
        if v[0] == 'g': return {(('g', v[1]), 0)}
        if v[0] == 'gep':
            o = goff(self.m, v[1], v[3])
            return {(b, add(q, o)) for b, q in self.base(v[2], seen)}
        if v[0] != 'r': return {(('?', v[0]), None)}
        n = v[1]
        if n in self._res: return self._res[n]
        if n in seen: return set()
        seen = seen + (n,)
        if n in self.params: r = {(('arg', n), 0)}
        else:
            I = self.defs.get(n)
            if I is None: r = {(('?', n), None)}
            elif I.op == 'alloca': r = {(('alloca', n), 0)}
            elif I.op == 'getelementptr':
                o = self.gepoff(I); r = {(b, add(q, o)) for b, q in self.base(I.args[0], seen)}
            elif I.op == 'phi':
                r = set()
                for w, _ in I.x: r |= self.base(w, seen)
                if len(r) > 1 and len({b for b, _ in r}) == 1: r = {(next(iter(r))[0], None)}
            elif I.op == 'select': r = self.base(I.args[1], seen) | self.base(I.args[2], seen)
            elif I.op in ('bitcast', 'freeze', 'addrspacecast'): r = self.base(I.args[0], seen)
            elif I.op == 'load': r = {(('load', b, q), 0) for b, q in self.base(I.args[0], seen)}
            elif I.op == 'call' and I.x[0] == ('g', '__sa_data'): r = {(('data', b, q), 0) for b, q in self.base(I.args[0], seen)}
            else: r = {(('?', n), None)}
        if len(seen) == 1: self._res[n] = r
        return r

def add(a, b): return None if a is None or b is None else a + b

def goff(m, ty, idx):
    o = 0; t = ty
    for k, (it, v) in enumerate(idx):
        if k == 0:
            if v[0] == 'z': continue
            if v[0] != 'c': return None
            o += v[1] * m.size(t); continue
        r = m.resolve(t)
        if v[0] not in ('c', 'z'): return None
        c = v[1] if v[0] == 'c' else 0
        if r.k == 'arr': o += c * m.size(r.a); t = r.a
        elif r.k == 'struct': q, t = m.field_off(t, c); o += q
        else: return None
    return o

def root_of(b):
    while b[0] in ('data', 'load'): b = b[1]
    return b

CALLS = ('call', 'invoke')
def callee(I): return I.x[0][1] if I.op in CALLS and I.x[0][0] == 'g' else None

# ---- the modules ----------------------------------------------------------------
class Mods:
    """inlined modules for the rules; one per driver"""
    cache = {}
    @classmethod
    def get(cls, src, threads, repo=build.REPO):
        k = (src, threads, repo)
        if k not in cls.cache:
            d = tempfile.mkdtemp(prefix='sa-f-')
            try:
                raw = os.path.join(d, 'u.ll'); out = os.path.join(d, 'p.ll')
                build.compile_ll(os.path.join(build.HERE, 'drv', src + '.cpp'), raw, defs=['-DSA_TF=float'],
                                 extra=['-I' + build.STUB3] if threads else [], repo=repo)
                keep = [o for o in build.OPAQUE if 'vtarg' in o or 'print' in o]
                build.prepare(raw, out, roots=r'^u_|^_Z14sa_thread_body', opaque=keep, repo=repo, unroll=False)
                m = ir.Module(out); cls.cache[k] = (m, build.demangle(list(m.lazy) + list(m.decls) + list(m.globals)))
            except build.BuildError as e: cls.cache[k] = Undecided('%s does not compile: %s' % (src, str(e)[:160]))
            except Exception as e: cls.cache[k] = Undecided('%s: %s' % (src, str(e)[:160]))
            finally: shutil.rmtree(d, ignore_errors=True)
        r = cls.cache[k]
        if isinstance(r, Exception): raise r
        return r

def spawns(F):
    """(spawn instruction, closure alloca, body) of a root"""
    out = []
    for I in F.instrs():
        if callee(I) == '__sa_spawn':
            b = F.base(I.args[1])
            if len(b) != 1 or I.args[2][0] != 'g': raise Undecided('a thread is started with a closure that cannot be followed')
            out.append((I, next(iter(b)), I.args[2][1]))
    return out

def captured(F, base, off=0, depth=0):
    """{offset in the closure: set of stored pointer targets, or None for a value}"""
    m = {}
    if depth > 4: return m
    for I in F.instrs():
        if I.op == 'store':
            for b, o in F.base(I.args[1]):
                if b == base and o is not None:
                    m.setdefault(o - off, set())
                    if I.ty.k == 'ptr': m[o - off] |= F.base(I.args[0])
                    else: m[o - off].add((('value',), None))
        elif I.op == 'call' and (callee(I) or '').startswith('llvm.memcpy'):
            for b, o in F.base(I.args[0]):
                if b == base and o is not None:
                    for sb, so in F.base(I.args[1]):
                        if sb[0] == 'alloca' and so is not None:
                            for k, v in captured(F, sb, so, depth + 1).items(): m.setdefault(k + o - off, set()).update(v)
                        else: m.setdefault(o - off, set()).add((('value',), None))
    return m

def barrier(F):
    """joins: [(instr, loop|None)] with the outermost loop that joins but does not spawn"""
    f = F.f; o = ir.rpo(f); d = ir.dominators(f, o); ls, inner = ir.loops(f, o, d)
    return ls

def reach(F, start, stop_edge, stop_instr=()):
    """instructions reachable after `start` (an instruction); never follows an edge in stop_edge or passes an instruction in stop_instr"""
    out = []; seen = set()
    def block(b, k):
        for I in b.instrs[k:]:
            if id(I) in stop_instr: return
            out.append(I)
        for s in b.succs:
            if (b.name, s) in stop_edge or s in seen: continue
            seen.add(s); st.append((F.f.bmap[s], 0))
    st = [(start.bb, start.idx + 1)]
    while st: block(*st.pop())
    return out

LOCK = re.compile(r'pthread_mutex|std::mutex|std::unique_lock|std::lock_guard|std::scoped_lock|__gthread')

def threads_rule(src, root, V, analysed, und):
    m, dm = Mods.get(src, True)
    F = Fn(m, root, build.REPO)
    sp = spawns(F)
    if not sp: raise Undecided('%s starts no threads' % root)
    joins = [I for I in F.instrs() if callee(I) == '__sa_join']
    for I in F.instrs():
        if callee(I) == '__sa_detach':
            w = F.where(I); V.append(dict(file=w[0], line=w[1], instance='%s detach' % root, what='a worker is detached, so nothing waits for it before its results are used'))
    loops = barrier(F)
    n = 0
    for S, (cb, co), body in sp:
        spl = [L for L in loops if S.bb.name in L.blocks]
        jl = []; stop_instr = set(); exits = []
        for J in joins:
            cand = [L for L in loops if J.bb.name in L.blocks and S.bb.name not in L.blocks]
            if cand: jl.append(max(cand, key=lambda L: len(L.blocks)))
            else: stop_instr.add(id(J)); exits.append(J)
        stop_edge = {(b, s) for L in jl for b in L.blocks for s in F.f.bmap[b].succs if s not in L.blocks}
        inline = bool(stop_instr)
        before = reach(F, S, stop_edge, stop_instr | {id(S)})
        # a barrier that every path takes needs no second thoughts; otherwise leave out
        # what it leads to without starting a worker again
        outer = {(q, L.h) for L in spl for q in F.f.bmap[L.h].preds if q not in L.blocks}
        sure = not any(I.op == 'ret' or any((I.bb.name, s) in outer for s in I.bb.succs) for I in before if I is I.bb.instrs[-1])
        after = set()
        for b, s in () if sure else stop_edge:
            blk = F.f.bmap[s]
            if not blk.instrs: continue
            class Z: pass
            z = Z(); z.bb = blk; z.idx = -1
            after |= {id(I) for I in reach(F, z, (), {id(S)})}
        for J in () if sure else exits: after |= {id(I) for I in reach(F, J, (), {id(S)})}
        w = F.where(S)
        if not joins or not (jl or exits):
            V.append(dict(file=w[0], line=w[1], instance='%s join' % root, what='the workers started here are never joined')); continue
        caps = captured(F, cb, co or 0)
        if not caps: raise Undecided('the closure of a worker of %s cannot be read' % root)
        B = Fn(m, body, build.REPO); B.dm = dm
        reads, writes, shared = body_uses(B, caps)
        objs = {}       # captured object of the parent -> closure offsets
        for off, ts in caps.items():
            for b, o in ts:
                if b[0] in ('alloca', 'arg', 'g', 'load', 'data'): objs.setdefault(b, []).append(off)
        n += len(caps); analysed.append('%s: worker started at line %s captures %d values, %d objects by reference, joined at line %s' % (
            root, w[1], len(caps), len(objs), ', '.join(str(F.where(J)[1]) for J in joins)))
        for I in before:
            if id(I) in after: continue
            if I.op == 'store':
                for b, o in F.base(I.args[1]):
                    hit = [k for k in objs if k == b or (b[0] == 'data' and b[1] == k)]
                    if not hit or b == cb: continue
                    offs = objs[hit[0]]
                    kind = 'data' if b[0] == 'data' else 'self'
                    if not any((x, kind) in reads or (x, kind) in writes or (x, 'any') in reads for x in offs): continue
                    u = F.where(I); V.append(dict(file=u[0], line=u[1], instance='%s %s' % (root, name_of(b)),
                        what='the parent stores into %s, which the workers started at line %s use, before they are joined' % (name_of(b), w[1])))
            elif I.op == 'load':
                for b, o in F.base(I.args[0]):
                    if b[0] == 'data' and b[1] in objs and any((x, 'data') in writes for x in objs[b[1]]):
                        u = F.where(I); V.append(dict(file=u[0], line=u[1], instance='%s %s' % (root, name_of(b)),
                            what='the parent reads %s, which the workers started at line %s write, before they are joined' % (name_of(b), w[1])))
                    elif b in objs and b[0] == 'alloca' and any((x, 'self') in writes for x in objs[b]):
                        u = F.where(I); V.append(dict(file=u[0], line=u[1], instance='%s %s' % (root, name_of(b)),
                            what='the parent reads %s, which the workers started at line %s write, before they are joined' % (name_of(b), w[1])))
            elif callee(I) and callee(I).startswith('llvm.lifetime.end'):
                for b, o in F.base(I.args[1]):
                    if b in objs and b != cb and any(x in (q for q, _ in reads | writes) for x in objs[b]):
                        u = F.where(I); V.append(dict(file=u[0], line=u[1] or w[1], instance='%s %s' % (root, name_of(b)),
                            what='%s is captured by reference by the worker started at line %s and ends its life before the worker is joined' % (name_of(b), w[1])))
        if inline: continue
        for I, b in shared:
            u = B.where(I); V.append(dict(file=u[0], line=u[1], instance='%s worker store' % root,
                what='every worker stores to the same place of an object shared by reference (%s)' % b))
        k = static_stores(B, dm, 'a worker thread')
        V += k[0]; n += k[1]
    return n

def name_of(b):
    if b[0] in ('data', 'load'): return 'the data of ' + name_of(b[1]) if b[0] == 'data' else name_of(b[1])
    return re.sub(r'\.(i|addr)\d*$', '', re.sub(r'(\.i\d*)+$', '', str(b[1]))) if len(b) > 1 else '?'

def body_uses(B, caps):
    """closure offsets the body reads/writes through, and stores whose address is the same for every worker"""
    P = B.params[0]
    reads, writes = set(), set()
    def path(b):
        """closure offset and kind of a base reached through the closure"""
        kind = 'self'
        while True:
            if b[0] == 'load' and b[1] == ('arg', P): return (b[2], kind)
            if b[0] == 'data': kind = 'data'; b = b[1]; continue
            if b[0] == 'load': kind = 'any'; b = b[1]; continue
            return None
    for I in B.instrs():
        if I.op == 'load':
            for b, o in B.base(I.args[0]):
                p = path(b)
                if p: reads.add(p)
                elif b == ('arg', P): reads.add((o, 'value'))
        elif I.op == 'store':
            for b, o in B.base(I.args[1]):
                p = path(b)
                if p: writes.add(p)
        elif I.op in CALLS:
            c = callee(I) or ''
            if c == '__sa_data' or c.startswith('llvm.lifetime') or c.startswith('llvm.dbg'): continue
            for v in I.args:
                if v[0] not in ('r', 'gep'): continue
                for b, o in B.base(v):
                    p = path(b)
                    if p: reads.add(p)
                    if p and c.startswith('llvm.mem') and v == I.args[0]: writes.add(p)
    # values that can differ between workers
    def fixed(o):
        """the pointer stored at this closure offset is the same for every worker"""
        ts = caps.get(o)
        return bool(ts) and all(b[0] in ('alloca', 'arg', 'g', 'load', 'data') and q is not None for b, q in ts)
    memo = {}
    def var(v, seen=frozenset()):
        if v[0] == 'gep': return var(v[2], seen)
        if v[0] != 'r': return False
        n = v[1]
        if n == P: return True
        if n in memo: return memo[n]
        if n in seen: return False
        s = seen | {n}
        I = B.defs.get(n)
        if I is None: return True
        if I.op == 'alloca': return True
        if I.op == 'load':
            bs = B.base(I.args[0])
            if all(b == ('arg', P) and o is not None for b, o in bs): r = not all(I.ty.k == 'ptr' and fixed(o) for _, o in bs)
            else: r = var(I.args[0], s)
        elif I.op == 'phi': r = any(var(w, s) for w, _ in I.x)
        elif I.op in CALLS:
            r = var(I.args[0], s) if callee(I) == '__sa_data' else True
        else: r = any(var(w, s) for w in I.args)
        if not seen or r: memo[n] = r
        return r
    locked = any(I.op in CALLS and LOCK.search(build_dm(B, callee(I))) for I in B.instrs())
    shared = []
    for I in B.instrs():
        if I.op == 'store' and ' atomic ' not in ' ' + I.text[:14] + ' ' and not locked:
            if any(path(b) for b, _ in B.base(I.args[1])) and not var(I.args[1]):
                shared.append((I, 'closure offset %s' % sorted({path(b)[0] for b, _ in B.base(I.args[1]) if path(b)})))
    return reads, writes, shared

def build_dm(B, n): return B.dm.get(n, n) if n else ''

SYNC = re.compile(r'std::atomic|std::(?:__\w+::)?\w*mutex|std::once_flag|std::condition_variable')
def mutable_static(m, dm, g):
    q = m.globals.get(g)
    if not q or q['const'] or q['tls'] or q['external']: return False
    d = dm.get(g, g)
    if d.startswith(('guard variable', 'std::', 'vtable', 'typeinfo', 'VTT')) or g.startswith(('__', 'llvm.', '.str')): return False
    if SYNC.search(repr(q['ty'])): return False
    return True

def guarded(F):
    """blocks only reached through the one-time initialisation of a static"""
    f = F.f; o = ir.rpo(f); d = ir.dominators(f, o)
    start = {}
    for b in f.blocks:
        for I in b.instrs:
            if callee(I) == '__cxa_guard_acquire':
                g = F.base(I.args[0])
                t = b.instrs[-1]
                if t.op == 'br' and len(t.x) == 2:
                    for s in t.x:
                        # the successor that ends in __cxa_guard_release before the join
                        if len(f.bmap[s].preds) == 1: start[s] = (I, next(iter(g))[0])
    rel = {b.name for b in f.blocks for I in b.instrs if callee(I) in ('__cxa_guard_release',)}
    dom = lambda a, b: a == b or (b in d and d.get(b) != b and d.get(b) is not None and dom(a, d[b]))
    out = {}
    # a guarded region: dominated by the taken successor, and able to reach the release
    canrel = set(); st = [n for n in rel]
    while st:
        x = st.pop()
        if x in canrel: continue
        canrel.add(x); st += f.bmap[x].preds
    for s, (I, g) in start.items():
        for b in f.blocks:
            if dom(s, b.name) and b.name in canrel: out[b.name] = (I, g)
    return out, rel

def static_stores(F, dm, who, only=None):
    """stores to mutable statics outside their one-time initialisation"""
    V = []; n = 0
    gd, rel = guarded(F)
    for b in F.f.blocks:
        g = gd.get(b.name); live = g is not None
        for I in b.instrs:
            if callee(I) == '__cxa_guard_release': live = False
            if only and not only(I): continue
            tg = None
            if I.op == 'store' and ' atomic ' not in ' ' + I.text[:14] + ' ': tg = I.args[1]
            elif I.op in CALLS and (callee(I) or '').startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')): tg = I.args[0]
            if tg is None: continue
            n += 1
            if live: continue
            for bb, o in F.base(tg):
                r = root_of(bb)
                if r[0] == 'g' and not any(x[0] == 'load' for x in chain(bb)) and mutable_static(F.m, dm, r[1]):
                    u = F.where(I); V.append(dict(file=u[0], line=u[1], instance='static %s' % dm.get(r[1], r[1])[:80],
                        what='%s stores into the static object %s, which all of them share' % (who, short(dm.get(r[1], r[1])))))
    return V, n

def chain(b):
    out = [b]
    while b[0] in ('data', 'load'): b = b[1]; out.append(b)
    return out
def short(s):
    m = re.search(r'([\w:~]+)$', s); return m.group(1) if m else s[:60]

# ---- C01 ---------------------------------------------------------------------
def c01_threads(tier):
    V = []; an = []; n = 0; und = []
    for src, root in (('tcpu', 'u_cpu'), ('tre', 'u_re')):
        try: n += threads_rule(src, root, V, an, und)
        except Undecided as e: und.append('%s: %s' % (root, e))
    # kernels: whatever a parallel_for reaches
    try:
        m, dm = Mods.get('tgpu', False)
        F = Fn(m, 'u_gpu', build.REPO)
        ink = lambda I: inlined_from(m, I.dbg, 'parallel_for')
        k = static_stores(F, dm, 'a kernel', ink); V += k[0]; n += k[1]
        an.append('u_gpu: %d stores of the host and kernel code' % k[1])
    except Undecided as e: und.append('u_gpu: %s' % e)
    if not n: raise Undecided('; '.join(und))
    return {'instances': n, 'violations': V, 'analysed': an + ['undecided: ' + u for u in und]}

def inlined_from(m, dbg, name):
    d = dbg; seen = 0
    while d and d in m.loc and seen < 60:
        seen += 1; line, col, sc, ia = m.loc[d]; s = sc
        while s and s in m.scope:
            k, fi, nm, par = m.scope[s]
            if k == 'DISubprogram':
                if name in nm: return True
                break
            s = par
        d = ia
    return False

# ---- C17: statics initialised from one call's arguments -------------------------
def depends(F, v, seen=frozenset()):
    """does a value depend on the arguments of the function (True), not (False), or unclear (None)"""
    if v[0] == 'gep': return depends(F, v[2], seen)
    if v[0] != 'r': return False
    n = v[1]
    if n in F.params: return True
    if n in seen: return False
    s = seen | {n}; I = F.defs.get(n)
    if I is None: return None
    if I.op == 'alloca':
        # a local object: depends on what was stored or built into it
        r = False
        for J in F.instrs():
            if J.op == 'store' and any(b == ('alloca', n) for b, _ in F.base(J.args[1])):
                q = depends(F, J.args[0], s)
                if q: return True
                if q is None: r = None
            elif J.op in CALLS and any(a[0] in ('r',) and any(b == ('alloca', n) for b, _ in F.base(a)) for a in J.args):
                c = callee(J) or ''
                if c.startswith(('llvm.', '__sa_data')): continue
                for a in J.args:
                    if a[0] == 'r' and not any(b == ('alloca', n) for b, _ in F.base(a)):
                        q = depends(F, a, s)
                        if q: return True
        return r
    rs = [depends(F, a, s) for a in ([w for w, _ in I.x] if I.op == 'phi' else I.args)]
    if any(rs): return True
    return None if any(q is None for q in rs) else False

def c17_statics(tier):
    V = []; an = []; n = 0; und = []
    for src, thr, pat in (('tcpu', True, r'^u_|sa_thread_body'), ('tre', True, r'^u_|sa_thread_body'), ('tgpu', False, r'^u_'), ('ttop', False, r'^u_')):
        try: m, dm = Mods.get(src, thr)
        except Undecided as e: und.append(str(e)); continue
        for name in [x for x in m.lazy if re.search(pat, x)]:
            F = Fn(m, name, build.REPO)
            gd, rel = guarded(F)
            n += 1; k = 0
            for b in F.f.blocks:
                if b.name not in gd: continue
                for I in b.instrs:
                    if callee(I) == '__cxa_guard_release': break
                    vals = []
                    if I.op == 'store' and any(root_of(x)[0] == 'g' for x, _ in F.base(I.args[1])): vals = [I.args[0]]
                    elif I.op in CALLS and not (callee(I) or '').startswith(('llvm.', '__cxa_')) and \
                         any(a[0] in ('g', 'gep', 'r') and any(root_of(x)[0] == 'g' and mutable_static(m, dm, root_of(x)[1]) for x, _ in F.base(a)) for a in I.args):
                        vals = [a for a in I.args if a[0] == 'r']
                    for v in vals:
                        k += 1
                        if depends(F, v):
                            u = F.where(I); V.append(dict(file=u[0], line=u[1], instance='static initialiser in %s' % short(dm.get(name, name)),
                                what='a static is initialised once from the arguments of the first call; later calls use the value of the first'))
            an.append('%s: %d values in one-time initialisers' % (short(name)[:40], k))
    if not n: raise Undecided('; '.join(und))
    return {'instances': n, 'violations': V, 'analysed': an}

# ---- C17: state kept between calls ------------------------------------------------
def c17_state(tier):
    """a static that is read before the call has written it, when anything but the static itself depends on what was read"""
    V = []; an = []; n = 0; und = []
    for src, thr, pat in (('tcpu', True, r'^u_|sa_thread_body'), ('tre', True, r'^u_|sa_thread_body'), ('tgpu', False, r'^u_'), ('ttop', False, r'^u_')):
        try: m, dm = Mods.get(src, thr)
        except Undecided as e: und.append(str(e)); continue
        for name in [x for x in m.lazy if re.search(pat, x)]:
            F = Fn(m, name, build.REPO); f = F.f
            order = ir.rpo(f); idom = ir.dominators(f, order)
            def dom(a, b):
                while True:
                    if a == b: return True
                    if b == order[0]: return False
                    b = idom[b]
            gd, rel = guarded(F)
            users = {}
            for I in F.instrs():
                for v in list(I.args) + ([w for w, _ in I.x] if I.op == 'phi' else []):
                    if v[0] == 'r': users.setdefault(v[1], []).append(I)
            st = {}; ld = {}
            for I in F.instrs():
                if I.op not in ('store', 'load'): continue
                for b, o in F.base(I.args[1 if I.op == 'store' else 0]):
                    if b[0] == 'g' and mutable_static(m, dm, b[1]) and 'vector' not in repr(m.globals[b[1]]['ty']) and I.bb.name not in gd:
                        (st if I.op == 'store' else ld).setdefault(b[1], []).append((I, o))
            n += 1
            for g, ls in ld.items():
                if g not in st: continue
                for L, o in ls:
                    if any(so == o and (S.bb is L.bb and S.idx < L.idx or S.bb is not L.bb and dom(S.bb.name, L.bb.name)) for S, so in st[g]): continue
                    # does the value reach anything but the static itself
                    seen = set(); work = [L]; leak = None
                    while work and leak is None:
                        x = work.pop()
                        for U in users.get(x.res, []):
                            if U.op == 'store':
                                if all(b == ('g', g) for b, _ in F.base(U.args[1])) and U.args[0] == ('r', x.res): continue
                                leak = U
                            elif U.op in ('br', 'switch', 'ret', 'call', 'invoke', 'getelementptr'): leak = U
                            elif U.res not in seen: seen.add(U.res); work.append(U)
                            if leak is not None: break
                    if leak is not None:
                        u = F.where(L); V.append(dict(file=u[0], line=u[1], instance='static %s' % short(dm.get(g, g)),
                            what='the static %s is read before this call has written it: the tessellation depends on an earlier one' % short(dm.get(g, g))))
            an.append('%s: %d mutable statics read' % (short(name)[:40], len(ld)))
    if not n: raise Undecided('; '.join(und))
    return {'instances': n, 'violations': V, 'analysed': an}
