"""Units of the code base, and the comparison of each with the reference model.

A unit is one driver root read twice: over /repo's headers and over sa/spec.
Its verdict:
  hold      the value graphs are congruent (every observable, loop and state)
  violation the loop skeletons and states correspond one to one, and a named
            obligation (entry / exit / initial value / step / observable) differs
  undecided the skeletons do not correspond, or the code uses a construct the
            analyser does not model; nothing is claimed about the unit
"""
import os, re, sys, time, tempfile, shutil, itertools
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
import build, ir, peg, ser, frame

_o = lambda *drop: [o for o in build.OPAQUE if not any(d in o for d in drop)]
BASE = _o('heap', 'boundary')
HEAP = _o('boundary')
BND = _o('heap')
# group -> driver source, variants [(opaque set, spec alternatives)], tried in order
GROUPS = {
    'geom':   ('geom', [(BASE, [0])]),
    'status': ('status', [(BASE, [0])]),
    'bnd':    ('bnd', [(BASE, [0])]),
    'heap':   ('heap', [(BASE, [0])]),
    'knn':    ('knn', [(HEAP, [0, 1, 4, 5]), (BASE, [0, 1, 4, 5])]),
    'cell':   ('cell', [(BND, [0, 2]), (BASE, [0, 2])]),
    'grid':   ('grid', [(BASE, [0])]),
    'dnn':    ('dnn', [(BASE, [0])], {'mono': [('vec', ('arg', 1))]}),
    'params': ('params', [(BASE, [0])]),
    'tfill':  ('tfill', [(BASE, [0, 1, 2, 3])]),
    'tcpu':   ('tcpu', [(BASE + [r'votess::tmpnn_fill<'], [0]), (BASE, [0, 1])]),
    'tre':    ('tre', [(BASE + [r'votess::tmpnn_fill<'], [0]), (BASE, [0, 1])]),
    'tgpu':   ('tgpu', [(BASE + [r'votess::tmpnn_fill<'], [0]), (BASE, [0, 1])]),
    'ttop':   ('ttop', [(BASE + [r'votess::__[cg]pu__\w+<'], [0])]),
    'conv':   ('conv', [(_o('vtarg', 'heap', 'boundary'), [0])], {'stub2': 1, 'throws': True, 'scale': 5}),
    'cli':    ('cli', [(BASE + [r'votess::tesellate<'], [0])], {'stub2': 1, 'throws': 'status', 'scale': 3}),
    'py':     ('py', [(BASE + [r'votess::tesellate<'], [0])], {'stub2': 1, 'throws': lambda w: 'index' if 'index_error' in w or 'out_of_range' in w else 'error', 'scale': 3}),
}
OPT = {g: (v[2] if len(v) > 2 else {}) for g, v in GROUPS.items()}

class Ctx:
    """compiled modules, shared by the units of one run"""
    def __init__(self, repo=build.REPO, tf='float', n=2000, seed=1, threads=8):
        self.repo, self.tf, self.n, self.seed, self.threads = repo, tf, n, seed, threads
        self.dir = tempfile.mkdtemp(prefix='sa-')
        self.mods = {}; self.err = {}; self.raw = {}
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

    def compile(self, src, alt, root=None, extra=()):
        k = (src, alt, root)
        if k not in self.raw:
            out = os.path.join(self.dir, '%s.%s.%s.u.ll' % (src, alt, root))
            path = os.path.join(HERE, 'drv', src + '.cpp')
            if root:       # a driver with this root only
                parts = re.split(r'(?m)^(?=U )', open(path).read())
                path = os.path.join(self.dir, '%s.%s.cpp' % (src, root))
                open(path, 'w').write((parts[0] + ''.join(q for q in parts[1:] if re.search(r'\b%s\(' % root, q))).replace('"common.hpp"', '"%s/drv/common.hpp"' % HERE))
            defs = ['-DSA_TF=' + self.tf] + ([] if alt is None else ['-DSA_SPEC', '-DSA_ALT=%d' % alt])
            if alt is not None and extra: defs += build.defaults(self.repo)
            try: build.compile_ll(path, out, defs=defs, repo=self.repo, extra=extra); self.raw[k] = out
            except build.BuildError as e: self.raw[k] = e
        if isinstance(self.raw[k], Exception): raise self.raw[k]
        return self.raw[k]

    def module(self, group, v, alt, root=None):
        """alt None: the repository; otherwise the reference model"""
        if root and alt is None:
            # one root that no longer compiles must not take the others along
            try: return self.module(group, v, alt)
            except build.BuildError: pass
            k = (group, v, alt, root)
        else: root = None; k = (group, v, alt)
        if k in self.err: raise self.err[k]
        if k not in self.mods:
            src, vs = GROUPS[group][:2]
            try:
                raw = self.compile(src, alt, root, ['-I' + build.STUB2] if OPT[group].get('stub2') else [])
                out = os.path.join(self.dir, '%s.%d.%s.%s.ll' % (group, v, alt, root))
                info = build.prepare(raw, out, opaque=vs[v][0], repo=self.repo)
                m = ir.Module(out); D = build.demangle(list(m.lazy) + list(m.decls))
                self.mods[k] = (m, (lambda n, D=D: D.get(n, n)), info)
            except Exception as e:
                self.err[k] = e; raise
        return self.mods[k]

    def prefetch(self, groups):
        jobs = [(g, 0, a) for g in groups for a in [None] + GROUPS[g][1][0][1][:1]]
        def one(j):
            try: self.module(*j)
            except Exception: pass
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))

    def roots(self, group):
        m = self.module(group, 0, GROUPS[group][1][0][1][0])[0]
        return sorted(n for n in m.lazy if n.startswith('u_'))

def idle_params(mods):
    """parameters of opaque functions that neither the code nor the reference uses"""
    out = None
    for m, dm, info in mods:
        d = {}
        for name, lines in m.lazy.items():
            if name.startswith('u_') or not lines: continue
            mm = re.match(r'define [^@]*@(?:"[^"]+"|[\w.$]+)\((.*)\)', lines[0])
            if not mm: continue
            args = re.findall(r'%("[^"]+"|[\w.$-]+)(?=, |$)', re.sub(r'\([^()]*\)', '', mm.group(1)))
            s = peg.Sig(dm(name))
            body = '\n'.join(lines[1:])
            u = {k for k, a in enumerate(args) if not re.search(r'%' + re.escape(a) + r'(?![\w.$-])', body)}
            k = (s.base, len(args))
            d[k] = d[k] & u if k in d else u
        out = d if out is None else {k: out[k] & d[k] for k in out if k in d}
    return {k: v for k, v in (out or {}).items() if v}

def graph(mod, root, opts=None):
    g = peg.Graph(); b = peg.Builder(mod[0], g, mod[1], root, opts)
    return b

def head(ctx, bs, n, extra=''):
    sets = [{c for c, ty in b.g.consts if isinstance(c, int)} for b in bs]
    pool = sorted(set().union(*sets))
    odd = sorted(set().union(*sets) - set.intersection(*sets))      # constants only one side compares with
    if odd: pool = sorted(pool + odd * max(1, 2 * len(pool) // len(odd)))
    extra = ''.join('hint %d %s\n' % (len(r), ' '.join('%d %d' % q for q in r)) for r in getattr(ctx, 'hints', [])) + extra
    extra = ''.join('mono %d\n' % ser.H(('m0', m)) for m in ctx.mono) + extra
    fp = set()
    for b in bs:
        for d in b.g.n:
            if d[0] == 'fcmp':
                for x in d[3:]:
                    e = b.g.n[x] if isinstance(x, int) else ('',)
                    if e[0] == 'c' and e[1] not in ('inf', '-inf', 'nan') and e[1] != 0: fp.add(ser.Fraction(e[1]))
    fp = sorted(fp)
    import calls
    txt = [{d[1] for d in b.g.n if d[0] == 'c' and d[1] in calls.TEXTS} for b in bs]
    odd = sorted(set().union(*txt) - set.intersection(*txt)); txt = sorted(set().union(*txt))
    if odd: txt = sorted(txt + odd * max(1, len(txt) // len(odd)))
    if txt: extra = 'tpool %d %s\n' % (len(txt), ' '.join(map(str, txt))) + extra
    extra = 'fpool %d %s\n' % (len(fp), ' '.join('%d %r' % (v.numerator * pow(v.denominator, -1, ser.P61) % ser.P61, float(v)) for v in fp)) + extra
    return 'threads %d\nselect 5\nN %d\nseed %d\npool %d %s\n%s' % (ctx.threads, n, ctx.seed, len(pool), ' '.join(map(str, pool)), extra)

def call_hints(bs):
    """results of modelled library functions take the values they are compared with"""
    con = {}
    for b in bs:
        g = b.g
        def src(x, k=0):
            d = g.n[x]
            if d[0] == 'callv': return {d[2]} if d[2].startswith('__sa_') or d[2] == 'text' else set()
            if k > 6: return set()
            if d[0] == 'cast': return src(d[3], k + 1)
            if d[0] == 'sel': return src(d[3], k + 1) | src(d[4], k + 1)
            return set()
        for d in list(g.n):
            if d[0] != 'cmp': continue
            for x, y in ((d[3], d[4]), (d[4], d[3])):
                if g.n[y][0] == 'c' and isinstance(g.n[y][1], int):
                    for nm in src(x): con.setdefault(nm, set()).add(g.n[y][1])
    hints, lst = {}, []
    for nm, p in (('__sa_scan_ok', 5), ('__sa_scan_eof', 1), ('__sa_open_ok', 4)):
        hints['call', nm] = len(lst); lst.append([(1, 1)] * p + [(0, 0)] * (6 - p)); con.pop(nm, None)
    for nm, cs in sorted(con.items()):
        if nm.startswith('__sa_h_'): continue
        hints['call', nm] = len(lst)
        n = len(cs)
        lst.append([(c, c) for c in sorted(cs)] * (2 if n < 4 else 1) + [(c - 1, c + 1) for c in sorted(cs)][:2] + [(0, 8)] * max(1, n // 4) + [(0, 4000)] * max(1, n // 8))
    return hints, lst

def opaque_sigs(b):
    return {c['callee'] for c in b.calls if not c['callee'].startswith('<<')}

def oname(k):
    """name of an observable for a reader"""
    if k == ('ret',): return 'return value'
    if k == ('stdout',): return 'standard output'
    if k == ('stderr',): return 'standard error'
    return repr(k).replace("'", '')

class Verdict(dict):
    __getattr__ = dict.get

def compare(ctx, group, root, v, alt, n=None, virt=False, gen=False):
    n = n or ctx.n * OPT[group].get('scale', 1)
    mi, ms = ctx.module(group, v, None, root), ctx.module(group, v, alt)
    if root not in mi[0].lazy and root not in getattr(mi[0], 'funcs', {}): raise peg.Unsupported('root is missing')
    own = os.path.normpath(ctx.repo) + '/'
    idle = idle_params((mi, ms))
    bi, bs = (graph(m, root, dict(OPT[group], idle=idle, virt=virt, gen=gen, prefer=lambda f: os.path.normpath(f).startswith(own))) for m in (mi, ms))
    # progress messages of the stages are not part of any property
    quiet = {('stdout',), ('stderr',)} if group in ('tcpu', 'tre', 'tgpu') else set()
    if OPT[group].get('stub2'): quiet = {('g', 'optarg'), ('g', '__sa_optpos'), ('stderr',)}
    # statics of the code itself are not results; what reads them before writing them still shows
    quiet |= {k for k in set(bi.obs) - set(bs.obs) if k[0] == 'g' and len(k) == 2 and k[1] in mi[0].globals and not mi[0].globals[k[1]].get('external')}
    keys = sorted((set(bi.obs) | set(bs.obs)) - quiet, key=repr)
    for b in (bi, bs):
        for k in keys:
            if k not in b.obs: b.obs[k] = b.g.mk('m0', k)
    hints, ctx.hints = call_hints((bi, bs))
    S = [ser.Ser(b.g, [b.obs[k] for k in keys], hints) for b in (bi, bs)]
    ctx.mono = OPT[group].get('mono', [])
    R = ser.run(S, head(ctx, (bi, bs), n))
    c = Cmp(ctx, group, root, v, alt, bi, bs, keys, S, R, n); c.virt = virt
    return c

class Cmp:
    def __init__(self, ctx, group, root, v, alt, bi, bs, keys, S, R, n):
        self.__dict__.update(ctx=ctx, group=group, root=root, v=v, alt=alt, b=(bi, bs), keys=keys, S=S, R=R, n=n)
        self.bad = [(k, d, c) for k, d, c in zip(keys, R['odiff'], R['ocmp']) if d]
        self.equal = R['fix'] and not self.bad and all(c for c in R['ocmp'])
    def nvirt(self): return sum(1 for b in self.b for l in b.g.loops.values() if l.get('virt'))
    def metrics(self):
        R = self.R
        return {'nodes': [len(s.nodes) for s in self.S], 'loops': [len(x) for x in R['lc']], 'states': [len(x) for x in R['mc']],
                'observables': len(self.keys), 'valuations': self.n, 'rounds': R['rounds'],
                'min_loop_activity': [min(x) if x else self.n for x in R['act']],
                'min_observable_comparisons': min(R['ocmp'], default=0)}

    # ---- correspondence of loops and states -----------------------------------
    def children(self, gi):
        ch = {}
        g = self.b[gi].g; s = self.S[gi]
        for i, l in enumerate(s.loops):
            p = g.loops[l]['parent']
            ch.setdefault(s.lidx[p] if p is not None else None, []).append(i)
        return ch
    def agree(self, kind, i, j):
        """number of refinement rounds after which two members are still together"""
        r = 0
        for h in self.R['history']:
            if h[kind][0][i] != h[kind][1][j]: break
            r += 1
        return r
    def shape(self, ch, l): return tuple(sorted(self.shape(ch, c) for c in ch.get(l, [])))

    def pair(self):
        ci, cs = self.children(0), self.children(1)
        LP = {}; why = []
        mus = [{}, {}]
        for gi in (0, 1):
            g = self.b[gi].g
            for j, m in enumerate(self.S[gi].mus): mus[gi].setdefault(self.S[gi].lidx[g.mu[m]['loop']], []).append(j)
        def rec(a, b):
            A, B = list(ci.get(a, [])), list(cs.get(b, []))
            if len(A) != len(B): why.append('%d loops where the reference has %d%s' % (len(A), len(B), self.lwhere(0, a))); return
            if len(A) > 1:
                # program order, unless the refinement or the shapes say otherwise
                cost = {}
                for x, i in enumerate(A):
                    for y, j in enumerate(B):
                        s = 40 * self.agree('lc', i, j) + (25 if self.shape(ci, i) == self.shape(cs, j) else 0)
                        s += 30 * len(set(self.objs(0, i)) & set(self.objs(1, j)))
                        s += 5 if x == y else 0
                        cost[i, j] = s
                best = None
                if len(A) <= 6:
                    for perm in itertools.permutations(B):
                        t = sum(cost[i, j] for i, j in zip(A, perm))
                        if best is None or t > best[0]: best = (t, perm)
                    B = list(best[1])
                else:
                    nb = []; left = list(B)
                    for i in A:
                        j = max(left, key=lambda j: cost[i, j]); nb.append(j); left.remove(j)
                    B = nb
            for i, j in zip(A, B):
                LP[i] = j; rec(i, j)
        rec(None, None)
        MP = []; extra = [[], []]
        ns = [set(), set()]
        gI, gS = self.b[0].g, self.b[1].g
        M = lambda gi, j: self.b[gi].g.mu[self.S[gi].mus[j]]
        stp = lambda gi, j: M(gi, j).get('step') is not None
        iv = lambda gi, j: self.R['inv'][gi][j] and not stp(gi, j)
        for i, j in LP.items():
            A = [m for m in mus[0].get(i, []) if not iv(0, m)]
            B = [m for m in mus[1].get(j, []) if not iv(1, m)]
            sA, sB = [m for m in A if stp(0, m)], [m for m in B if stp(1, m)]
            A, B = [m for m in A if not stp(0, m)], [m for m in B if not stp(1, m)]
            def ty(gi, m): return M(gi, m)['ty']
            cand = []
            for a in A:
                for b in B:
                    if ty(0, a) != ty(1, b) and not (ty(0, a) in ('i1', 'i8') and ty(1, b) in ('i1', 'i8')): continue
                    s = 10 * self.agree('mc', a, b) + (6 if ty(0, a) == ty(1, b) else 0)
                    if self.R['mc'][0][a] == self.R['mc'][1][b]: s += 1000
                    if ty(0, a) == 'mem':
                        oa, ob = self.b[0].objname(M(0, a)['obj']), self.b[1].objname(M(1, b)['obj'])
                        if oa == ob: s += 200
                        elif 'local' not in repr(oa) or 'local' not in repr(ob): continue
                    cand.append((-s, a, b))
            ua, ub = set(), set()
            for s, a, b in sorted(cand):
                if a in ua or b in ub: continue
                ua.add(a); ub.add(b); MP.append((a, b))
            for a in A:
                if a not in ua: extra[0].append(a)
            for b in B:
                if b not in ub: extra[1].append(b)
            # a state that lost (or gained) its closed form
            if len(extra[0]) or len(extra[1]):
                for src, steps, gi in ((extra[0], sB, 1), (extra[1], sA, 0)):
                    for a in list(src):
                        if M(1 - gi, a)['loop'] not in (self.S[1 - gi].loops[i if gi == 1 else j],): continue
                        c = [b for b in steps if b not in ns[gi] and ty(gi, b) == ty(1 - gi, a)]
                        if len(c) == 1:
                            src.remove(a); ns[gi].add(c[0]); MP.append((a, c[0]) if gi == 1 else (c[0], a))
        for gi in (0, 1):
            for a in extra[gi]: why.append('%sstate %s of the loop%s has no counterpart' % ('reference ' if gi else '', M(gi, a)['name'], self.lwhere(gi, self.S[gi].lidx[M(gi, a)['loop']])))
        return LP, MP, ns, extra, why

    def objs(self, gi, l):
        g = self.b[gi].g
        return [repr(self.b[gi].objname(g.mu[m]['obj'])) for m in self.S[gi].mus if g.mu[m]['ty'] == 'mem' and self.S[gi].lidx[g.mu[m]['loop']] == l
                and not self.R['inv'][gi][self.S[gi].midx[m]] and 'local' not in repr(self.b[gi].objname(g.mu[m]['obj']))]

    def lwhere(self, gi, l):
        if l is None: return ''
        w = self.b[gi].g.loops[self.S[gi].loops[l]]['where']
        return ' at %s:%s' % (w[0], w[1])

    def force(self, LP, MP, ns, neg=(), free=False, exact=False):
        lines = []
        for gi in (0, 1):
            for i in range(len(self.S[gi].loops)): lines.append('force %d l %d %d 0' % (gi, i, 100000 + 1000000 * gi + i))
            for j in range(len(self.S[gi].mus)):
                lines.append('force %d m %d %d %d' % (gi, j, 200000 + 1000000 * gi + j, self.R['inv'][gi][j]))
            for j in ns[gi]: lines.append('force %d n %d 0 0' % (gi, j))
        for i, j in LP.items():
            lines.append('force 0 l %d %d 0' % (i, 100 + i)); lines.append('force 1 l %d %d 0' % (j, 100 + i)); lines.append('pairl %d %d' % (i, j))
        for a, b in MP:
            for gi, x in ((0, a), (1, b)): lines.append('force %d m %d %d 0' % (gi, x, 50000 + a))
            lines.append('pairm %d %d %d' % (a, b, 1 if a in neg else 0))
        R = ser.run(self.S, head(self.ctx, self.b, self.n, 'mode forced' + ('\nfreeit' if free else '') + ('\nexactq' if exact else '')), '\n'.join(lines))
        out = []
        gi = self.b[0].g
        for (i, j), d in zip(LP.items(), R['pl']):
            w = self.b[0].g.loops[self.S[0].loops[i]]['where']
            if d[1]: out.append(('entry', i, None, d[1], d[0], w, 'condition for entering the loop'))
            if d[3]: out.append(('exit', i, None, d[3], d[2], w, 'condition for leaving the loop'))
        for (a, b), d in zip(MP, R['pm']):
            mu = gi.mu[self.S[0].mus[a]]; l = self.S[0].lidx[mu['loop']]
            w = gi.loops[mu['loop']]['where']
            if mu.get('dbg'):
                ww = self.b[0].mod.where(mu['dbg'], self.b[0].opts.get('prefer'))
                if ww and ww[0] == w[0]: w = ww
            if d[1]: out.append(('init', l, a, d[1], d[0], w, 'initial value of %s' % mu['name']))
            if d[3]: out.append(('next', l, a, d[3], d[2], w, 'value of %s after one iteration' % mu['name']))
        for k, d, c in zip(self.keys, R['odiff'], R['ocmp']):
            if d: out.append(('observable', None, k, d, c, self.fwhere(), oname(k)))
        return out, R

    def fwhere(self):
        """where the analysed function starts"""
        b = self.b[0]
        best = None
        for bl in b.f.blocks:
            for i in bl.instrs:
                if i.dbg:
                    w = b.mod.where(i.dbg, b.opts.get('prefer'))
                    if w and '/repo' in w[0] or w and w[0].startswith(self.ctx.repo):
                        if best is None or (w[0] == best[0] and int(w[1]) < int(best[1])): best = w
            if best: break
        return best or ('?', 0)

    def leaves(self, gi, k):
        """inputs an observable depends on, through data, control and loops"""
        b = self.b[gi]; g = b.g
        seen = set(); st = [b.obs[k]]; out = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); d = g.n[x]
            st += peg.children(d)
            l = None
            if d[0] == 'm0':
                if 'local' not in repr(d[1]) and 'ret' not in repr(d[1]): out.add(('m', d[1]))
            elif d[0] == 'arg': out.add(('arg', d[1]))
            elif d[0] in ('mu', 'mmu'):
                mu = g.mu[x]; st += [mu['init'], mu['next']]; l = d[1]
            if d[0] in ('eta', 'meta'): l = d[1]
            while l is not None:
                L = g.loops[l]; st += [L['exit'], L['entry']]; l = L['parent']
        return out
    def lost(self):
        """observables that no longer depend on an input the reference needs"""
        out = []
        for k in self.keys:
            a, b = self.leaves(0, k), self.leaves(1, k)
            a.discard(('m', k)); b.discard(('m', k))
            miss = b - a
            never = self.b[0].g.n[self.b[0].obs[k]] == ('m0', k) and self.b[1].g.n[self.b[1].obs[k]] != ('m0', k)
            if never: out.append(('observable', None, k, self.n, self.n, self.fwhere(), '%s (never written)' % oname(k)))
            elif miss: out.append(('observable', None, k, self.n, self.n, self.fwhere(), '%s (does not depend on %s)' % (oname(k), ', '.join(sorted(oname(m[1]) for m in miss))[:120])))
        return out

    def scans(self, gi, l):
        """arrays a loop walks without gaps: array -> bytes per iteration"""
        b = self.b[gi]; g = b.g; lid = self.S[gi].loops[l]
        def root(m):
            for _ in range(400):
                d = g.n[m]
                if d[0] == 'm0': return d[1]
                if d[0] == 'mmu': return b.objname(g.mu[m]['obj'])
                if d[0] in ('st',): m = d[1]
                elif d[0] in ('rfill',): m = d[3]
                elif d[0] == 'rcopy': m = d[4]
                elif d[0] in ('meta', 'msel'): m = d[2]
                elif d[0] == 'mcall': return d[:3]
                else: return None
        def lin(x, k=0):
            """x as a sum of multiples of atoms and a constant"""
            d = g.n[x]
            if d[0] == 'c' and isinstance(d[1], int): return {}, d[1]
            if k < 40:
                if d[0] == 'cast' and d[1] in ('sext', 'zext'): return lin(d[3], k + 1)
                if d[0] == 'op' and d[1] in ('add', 'sub'):
                    (p, u), (q, v) = lin(d[3], k + 1), lin(d[4], k + 1); s = 1 if d[1] == 'add' else -1
                    r = dict(p)
                    for a, c in q.items(): r[a] = r.get(a, 0) + s * c
                    return {a: c for a, c in r.items() if c}, u + s * v
                if d[0] == 'op' and d[1] == 'mul':
                    for y, z in ((d[3], d[4]), (d[4], d[3])):
                        if g.n[y][0] == 'c':
                            p, u = lin(z, k + 1); c = g.n[y][1]
                            return ({a: c * w for a, w in p.items()} if c else {}), c * u
            return {x: 1}, 0
        size = {'float': 4, 'double': 8}
        acc = {}
        for x in self.S[gi].nodes:
            d = g.n[x]
            if d[0] == 'ld': m, key, z = d[2], d[3:], size.get(d[1]) or max(1, int(d[1][1:]) // 8)
            elif d[0] == 'st': m, key, z = d[1], d[4:], d[3]
            else: continue
            if not b.depends(key[-1], lid): continue
            a = b.aff(key[-1], lid)
            if not a or g.n[a[1]][0] != 'c' or not g.n[a[1]][1]: continue
            base, off = lin(a[0])
            acc.setdefault((root(m), abs(g.n[a[1]][1]), z, tuple(sorted(base.items()))), set()).add(off)
        out = {}
        for (r, st, z, base), offs in acc.items():
            if r is not None and len(offs) * z == st and max(offs) - min(offs) == st - z: out.setdefault(r, set()).add(st)
        return out

    def reexpressed(self, LP, MP, ns, fails):
        """loops that do the same work in other portions: peeled, shifted or flattened"""
        for f in fails:
            if f[0] != 'exit': continue
            l = f[1]
            scal = lambda a: self.b[0].g.mu[self.S[0].mus[a]]['ty'] != 'mem'
            if {h[1] for h in fails if h[0] in ('entry', 'exit')} == {l} and any(h[0] == 'init' and h[1] == l and scal(h[2]) for h in fails): return 'the loop%s starts from another state and makes another number of iterations than the reference' % self.lwhere(0, l)
            a, b = self.scans(0, l), self.scans(1, LP[l])
            if any(not (a[r] & b[r]) for r in a if r in b): return 'the loop%s walks its data in other portions than the reference' % self.lwhere(0, l)
            up = self.b[0].g.loops[self.S[0].loops[l]]['parent']
            up = None if up is None else self.S[0].lidx.get(up)
            if up in LP and any(h[0] == 'exit' and h[1] == up for h in fails) and self.swapped(LP, MP, ns, l, up): return 'the loops%s and%s may have changed places' % (self.lwhere(0, up), self.lwhere(0, l))
        return None

    def swapped(self, LP, MP, ns, l, up):
        """a nest of two counted loops, each with the number of iterations of the other"""
        lp = lambda gi, i: self.b[gi].g.loops[self.S[gi].loops[i]]
        if any(lp(gi, i)['limit'] is None or len(lp(gi, i)['exits']) != 1 for gi, i in ((0, l), (0, up), (1, LP[l]), (1, LP[up]))): return False
        Q = dict(LP); Q[l], Q[up] = LP[up], LP[l]
        return not any(f[0] == 'exit' and f[1] in (l, up) for f in self.force(Q, MP, ns, (), True)[0])

    def diagnose(self):
        LP, MP, ns, extra, why = self.pair()
        if why:
            lost = self.lost()
            if lost: return Verdict(status='violation', fails=lost)
            return Verdict(status='undecided', why=why)
        fails, R = self.force(LP, MP, ns)
        if fails:
            # a flag kept with the opposite sense is the same state
            neg = set()
            M = lambda j: self.b[0].g.mu[self.S[0].mus[j]]
            flags = [a for a, b in MP if M(a)['ty'] in ('i1', 'i8') and any(f[0] in ('init', 'next') and f[2] == a for f in fails)]
            for r in range(1, min(3, len(flags)) + 1):
                for c in itertools.combinations(flags, r):
                    f2, R2 = self.force(LP, MP, ns, set(c))
                    if not f2: return Verdict(status='hold', how='states correspond, %d flag(s) with the opposite sense' % r)
        if not fails: return Verdict(status='hold', how='loops and states correspond')
        # blame: with iteration numbers that do not follow a wrong limit
        fails = self.force(LP, MP, ns, (), True)[0] or fails
        if self.virt:
            # what many iterations have in common is sampled: believe only what few iterations show
            fails = self.force(LP, MP, ns, (), True, True)[0] or self.force(LP, MP, ns, (), False, True)[0]
            if not fails: return Verdict(status='undecided', why=['a search over many iterations is written differently'])
        why = self.reexpressed(LP, MP, ns, fails)
        if why: return Verdict(status='undecided', why=[why])
        depth = lambda l: -1 if l is None else self.b[0].g.loops[self.S[0].loops[l]]['depth']
        fails.sort(key=lambda f: (-depth(f[1]), ['entry', 'exit', 'init', 'next', 'observable'].index(f[0])))
        return Verdict(status='violation', fails=fails)

def policy(a, b):
    """the verdicts with loops that only look as loops, and as quantifiers"""
    if a[1].status == b[1].status: return a if len(a[1].fails or a[1].why) <= len(b[1].fails or b[1].why) else b
    for x in (a, b): x[1]['mixed'] = (a[1].status, b[1].status)
    return a if a[1].status == 'undecided' else b

def decide(ctx, group, root):
    """verdict for one unit"""
    t0 = time.time()
    notes = []; best = {}
    for how in ('plain', 'virt', 'gen'):
        if how == 'gen':      # arrays given by iteration: only what the other readings leave undecided
            more = lambda w: (m := re.match(r'(\d+) loops where the reference has (\d+)', w)) and int(m[1]) > int(m[2])
            if not best or not all(x[1].status == 'undecided' and more((x[1].why or [''])[0]) for x in best.values()): break
        virt = how == 'virt'; cands = []
        for v, (op, alts) in enumerate(GROUPS[group][1]):
            for alt in alts:
                try: c = compare(ctx, group, root, v, alt, virt=virt, gen=how == 'gen')
                except Exception as e:      # not modelled: undecided
                    notes.append('%s: %s' % (type(e).__name__, str(e).split('error:')[-1].strip()[:300])); continue
                if virt and not c.nvirt() or how == 'gen' and not any(getattr(b, 'ngen', 0) for b in c.b): continue       # nothing new
                if c.equal:
                    return Verdict(status='hold', how='congruent', group=group, root=root, variant=v, alt=alt, metrics=c.metrics(), s=time.time() - t0)
                cands.append(c)
        for c in cands:
            # an opaque callee the reference does not know: its arguments cannot be compared
            if not opaque_sigs(c.b[0]) - {'x'} <= opaque_sigs(c.b[1]) | NEUTRAL(c.b[0]):
                notes.append('calls of %s are not part of the reference' % ', '.join(sorted(opaque_sigs(c.b[0]) - opaque_sigs(c.b[1]) - NEUTRAL(c.b[0]))[:3]))
                continue
            try: d = c.diagnose()
            except Exception as e: notes.append('%s: %s' % (type(e).__name__, str(e)[:300])); continue
            d.update(group=group, root=root, variant=c.v, alt=c.alt, metrics=c.metrics(), reading=how)
            if d.status == 'hold': d['s'] = time.time() - t0; return d
            key = (0 if d.status == 'violation' else 1, len(d.fails or d.why or []))
            if how not in best or key < best[how][0]: best[how] = (key, d)
    if 'gen' in best and best['gen'][1].status == 'violation': best = best['gen']
    elif 'plain' in best and 'virt' in best: best = policy(best['plain'], best['virt'])
    else: best = best.get('plain') or best.get('virt')
    if best is None: best = (None, Verdict(status='undecided', why=notes or ['nothing to compare'], group=group, root=root))
    d = best[1]; d['s'] = time.time() - t0; d['notes'] = notes
    if d.status == 'undecided': d['frame'] = unit_frame(ctx, group, root)
    return d

def unit_frame(ctx, group, root):
    """what the unit may touch, when what it computes cannot be compared"""
    best = None
    for v, (op, alts) in enumerate(GROUPS[group][1]):
        for alt in alts:
            try:
                mi, ms = ctx.module(group, v, None, root), ctx.module(group, v, alt)
                if mi[0].func(root) is None: continue
                new, n = frame.within((mi[0], mi[1], root), (ms[0], ms[1], root))
            except Exception: continue
            if best is None or len(new) < len(best[0]): best = (new, n)
    return best

def NEUTRAL(b):
    return {c['callee'] for c in b.calls if c['callee'].startswith('__sa_') or c['callee'].startswith('std::')}

def show(d):
    s = '%-8s %-16s %s' % (d.group, d.root, d.status)
    if d.status == 'violation':
        for f in d.fails[:6]: s += '\n      %s:%s  %s differs from the reference (%d of %d valuations)' % (f[5][0], f[5][1], f[6], f[3], f[4])
    elif d.status == 'undecided':
        for w in d.why[:4]: s += '\n      ' + w
    else: s += ' ' + (d.how or '')
    return s + ('  [%.1fs]' % d.s)

if __name__ == '__main__':
    gs = sys.argv[1:] or list(GROUPS)
    ctx = Ctx(n=int(os.environ.get('N', '2000')), repo=os.environ.get('VOTESS_REPO', '/repo'))
    t = time.time()
    try:
        ctx.prefetch(gs)
        print('prefetch %.1f' % (time.time() - t))
        for g in gs:
            try: rs = ctx.roots(g)
            except Exception as e: print(g, 'ERR', str(e)[:500]); continue
            for r in rs: print(show(decide(ctx, g, r)), flush=True)
    finally: ctx.close()
    print('total %.1f' % (time.time() - t))
