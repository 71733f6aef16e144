"""Value graphs -> input of the congruence engine (engine/sae.cpp)."""
import hashlib, json, os, subprocess, tempfile
from fractions import Fraction
import peg
from peg import children, I1

def H(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'little') >> 1

def tc(ty):
    """type class and width"""
    if ty in ('float', 'double'): return ('f', 0)
    if ty == 'mem': return ('m', 0)
    if isinstance(ty, str) and ty[:1] == 'i' and ty[1:].isdigit(): return ('i', int(ty[1:]))
    return ('o', 0)

P61 = (1 << 61) - 1
FB = {'fadd': 0, 'fsub': 1, 'fmul': 2, 'fdiv': 3, 'frem': 4}
FN = {'floor': 0, 'ceil': 1, 'trunc': 2, 'fabs': 3, 'fmin': 4, 'fmax': 5, 'fmod': 6}
CAST = {'sext': 0, 'zext': 1, 'trunc': 2, 'sitofp': 3, 'uitofp': 4, 'fptosi': 5, 'fptoui': 5}

class Ser:
    def __init__(self, g, obs, hints=None):
        self.g, self.obs, self.hints = g, list(obs), hints or {}
        self.collect()

    def collect(self):
        g = self.g
        seen = set(); st = list(self.obs); loops = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); d = g.n[x]
            st += children(d)
            l = None
            if d[0] in ('mu', 'mmu'):
                mu = g.mu[x]; st.append(mu['init'])
                if mu.get('step') is not None: st.append(mu['step'])
                st.append(mu['next']); l = d[1]
            if d[0] in ('eta', 'meta'): l = d[1]
            while l is not None and l not in loops:
                loops.add(l); L = g.loops[l]
                st += [L['exit'], L['entry']]; l = L['parent']
                if L.get('limit') is not None: st.append(L['limit'])
        self.loops = sorted(loops)
        self.vidx = {l: len(self.loops) + i for i, l in enumerate(sorted({g.n[x][1] for x in seen if g.n[x][0] in ('any', 'sum', 'bv', 'rgen')}))}
        self.lidx = {l: i for i, l in enumerate(self.loops)}
        self.nodes = sorted(seen)
        self.idx = {n: i for i, n in enumerate(self.nodes)}
        self.mus = [x for x in self.nodes if g.n[x][0] in ('mu', 'mmu')]
        self.midx = {x: i for i, x in enumerate(self.mus)}

    def vty(self, x):
        d = self.g.n[x]; k = d[0]
        if k in ('c', 'arg', 'op', 'cast', 'fn1'): return d[2]
        if k in ('cmp', 'fcmp', 'not', 'pcmp', 'any'): return I1
        if k == 'sum': return d[2]
        if k in ('sel', 'ld', 'callv', 'tab', 'xv', 'undef'): return d[1]
        if k in ('mu', 'eta'): return d[3]
        if k in ('ptr', 'ptrv', 'str', 'aggv', 'mview'): return 'o'
        return 'i64'

    def text(self):
        g = self.g; ix = self.idx; out = ['prog %d' % len(self.nodes)]
        A = lambda ys: ' '.join(str(ix[y]) for y in ys)
        hint = lambda k: self.hints.get(k, -1)
        for x in self.nodes:
            d = g.n[x]; k = d[0]
            if k == 'c':
                v = d[1]
                if d[2] in ('float', 'double'):
                    if isinstance(v, tuple): s = 'inf %d' % v[1]
                    else: v = Fraction(v); s = 'cf %d %s' % (v.numerator * pow(v.denominator, -1, P61) % P61, repr(float(v)))
                else: s = 'ci %d' % v
            elif k == 'op':
                if d[1] in FB: s = 'fbin %d %s' % (FB[d[1]], A(d[3:5]))
                else: s = 'bin %s %d %s' % (d[1], tc(d[2])[1], A(d[3:5]))
            elif k == 'not': s = 'not %s' % A(d[1:2])
            elif k == 'sel': s = 'sel ' + A(d[2:5])
            elif k == 'msel': s = 'sel ' + A(d[1:4])
            elif k == 'cmp': s = 'cmp %d %d %s' % ({'eq': 0, 'slt': 1, 'ult': 2}[d[1]], 64 if d[2] == 'ptr' else tc(d[2])[1], A(d[3:5]))
            elif k == 'fcmp': s = 'fcmp %d %s' % ({'eq': 0, 'lt': 1}[d[1]], A(d[3:5]))
            elif k == 'cast': s = 'cast %d %d %d %s' % (CAST[d[1]], tc(d[4])[1], tc(d[2])[1], A(d[3:4]))
            elif k == 'fn1':
                t = tc(d[2]); s = 'fn %d %d %s %d %d %s' % (FN.get(d[1], 7), H(('fn', d[1])), t[0], t[1], len(d) - 3, A(d[3:]))
            elif k == 'ld': t = tc(d[1]); s = 'ld %s %d %d %d %s' % (t[0], t[1], -2 if x in g.signed else -1, len(d) - 2, A(d[2:]))
            elif k == 'st': t = tc(self.vty(d[2])); s = 'st %s %d %d %s' % (t[0], t[1], len(d) - 2, A((d[1], d[2]) + d[4:]))
            elif k == 'm0': s = 'm0 %d' % H(('m0', d[1]))
            elif k == 'mz': s = 'mz'
            elif k == 'arg': t = tc(d[2]); s = 'arg %d %s %d %d' % (H(('arg', d[1])), t[0], t[1], hint(('arg', d[1])))
            elif k == 'undef': t = tc(d[1]); s = 'undef %s %d' % t
            elif k == 'str': s = 'hash %d' % H(('str', d[1]))
            elif k in ('mu', 'mmu'): s = 'mu %d' % self.midx[x]
            elif k in ('eta', 'meta'): s = 'eta %d %s' % (self.lidx[d[1]], A(d[2:3]))
            elif k == 'bv': s = 'bv %d' % self.vidx[d[1]]
            elif k == 'any': s = 'any %d %s' % (self.vidx[d[1]], A(d[2:4]))
            elif k == 'sum': s = 'sum %d %d %s' % (self.vidx[d[1]], tc(d[2])[1], A(d[3:5]))
            elif k == 'gst': t = tc(d[1]); s = 'gst %s %d %d %s' % (t[0], t[1], len(d) - 2, A(d[2:]))
            elif k == 'rgen': s = 'rgen %d %d %s' % (self.vidx[d[1]], len(d) - 2, A(d[2:]))
            elif k == 'callv': t = tc(d[1]); s = 'call %d %s %d %d %d %s' % (H(('cv', d[2], d[3])), t[0], t[1], -3 if d[2].startswith('__sa_h_') else hint(('call', d[2])), len(d[4]), A(d[4]))
            elif k == 'xv': t = tc(d[1]); s = 'call %d %s %d -1 1 %s' % (H(('xv', d[3:])), t[0], t[1], A(d[2:3]))
            elif k == 'mcall': s = 'mcall %d %d %s' % (H(('mc', d[1], d[2], d[3])), len(d[4]), A(d[4]))
            elif k == 'rfill': t = tc(d[1]); s = 'rfill %s %d %d %s' % (t[0], t[1], len(d) - 3, A(d[3:]))
            elif k == 'rcopy': t = tc(d[1]); s = 'rcopy %s %d %d %d %s' % (t[0], t[1], d[3], len(d) - 4, A(d[4:]))
            elif k == 'mview': s = 'tup %d %d %s' % (H('mview'), len(d) - 1, A(d[1:]))
            elif k == 'aggv': s = 'tup %d %d %s' % (H('aggv'), len(d) - 1, A(d[1:]))
            elif k in ('ptr', 'ptrv', 'ptoi'): s = 'tup %d %d %s' % (H(('ptr', d[1])), len(d) - 2, A(d[2:]))
            elif k == 'out': s = 'out ' + A(d[1:3])
            elif k == 'tab':
                t = tc(d[1]); tb = [(o, Fraction(v)) for o, v in d[2]]
                s = 'tab %s %d %d %s %s' % (t[0], t[1], len(tb), ' '.join('%d %d %s' % (o, v.numerator * pow(v.denominator, -1, P61) % P61 if t[0] == 'f' else int(v), repr(float(v))) for o, v in tb), A(d[3:4]))
            elif k == 'pcmp': s = 'pcmp %d %s' % ({'eq': 0, 'ne': 1}.get(d[1], 2 + H(d[1]) % 97), A(d[2:4]))
            else: raise peg.Unsupported('node ' + k)
            out.append(s)
        out.append(str(len(self.loops)))
        for l in self.loops:
            L = g.loops[l]
            out.append('%d %d %d %d %d %d' % (self.lidx[L['parent']] if L['parent'] is not None else -1, L['depth'], ix[L['entry']], ix[L['exit']], ix[L['limit']] if L.get('limit') is not None else -1, 1 if L.get('pure') else 0))
        out.append(str(len(self.mus)))
        for m in self.mus:
            mu = g.mu[m]; t = tc(mu['ty'])
            out.append('%d %d %s %d %d %d %d' % (ix[m], self.lidx[mu['loop']], t[0], t[1], ix[mu['init']], ix[mu['next']],
                       ix[mu['step']] if mu.get('step') is not None else -1))
        out.append('%d %s' % (len(self.obs), ' '.join(str(ix[o]) for o in self.obs)))
        return '\n'.join(out)

def engine():
    """path of the engine, built from its source next to this file"""
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(here, 'engine', 'sae.cpp')
    d = os.path.join(os.path.dirname(here), '.build')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(d, 'sae-' + h)
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        subprocess.run(['g++', '-O2', '-std=c++17', '-w', '-o', tmp, src, '-lpthread'], check=True)
        os.rename(tmp, exe)
    return exe

def run(sers, head, tail=''):
    exe = engine()
    with tempfile.NamedTemporaryFile('w', suffix='.vg', delete=False) as f:
        f.write(head + '\n' + '\n'.join(s.text() for s in sers) + '\n' + tail + '\n')
    try:
        p = subprocess.run([exe, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    finally:
        os.unlink(f.name)
    if p.returncode: raise RuntimeError('engine: ' + p.stderr.decode()[:500])
    return json.loads(p.stdout)
