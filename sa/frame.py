"""Frame of a unit: which parameters and globals its code may write directly and which outside functions it may call,
whatever the shape of its loops. Used when a unit cannot be matched with its model: it then decides only that the unit
touches nothing the model does not touch."""
import re

def frame(mod, dem, root):
    m = mod; seen = set(); args = set(); globs = set(); calls = set(); n = [0, 0]
    st = [(root, True)]
    while st:
        name, top = st.pop()
        if name in seen: continue
        seen.add(name)
        f = m.func(name)
        if f is None: continue
        defs = {i.res: i for b in f.blocks for i in b.instrs if i.res}
        pars = {p[0]: k for k, p in enumerate(f.params)}
        def bases(v, k=0, vis=None):
            vis = vis if vis is not None else set()
            if v[0] == 'g': return {('g', v[1])}
            if v[0] == 'ce': return set().union(*[bases(x, k, vis) for x in v[1:] if isinstance(x, tuple) and x and x[0] in ('g', 'ce')] or [set()])
            if v[0] != 'r' or v[1] in vis: return set()
            vis.add(v[1])
            if v[1] in pars: return {('a', pars[v[1]])} if top else set()
            i = defs.get(v[1])
            if i is None: return set()
            if i.op in ('getelementptr', 'bitcast', 'freeze', 'addrspacecast'): return bases(i.args[0], k, vis)
            if i.op == 'select': return bases(i.args[1], k, vis) | bases(i.args[2], k, vis)
            if i.op == 'phi': return set().union(*[bases(x, k, vis) for x, _ in i.x] or [set()])
            return set()
        for b in f.blocks:
            for i in b.instrs:
                tgt = None
                if i.op == 'store': tgt = i.args[1]
                elif i.op in ('call', 'invoke'):
                    cal = i.x[0]
                    if cal[0] == 'g':
                        c = cal[1]
                        if c.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')): tgt = i.args[0]
                        elif c.startswith('llvm.'): continue
                        elif m.func(c) is not None: st.append((c, False)); n[1] += 1
                        else: calls.add(short(dem(c))); n[1] += 1
                if tgt is not None:
                    n[0] += 1
                    for kind, x in bases(tgt):
                        (args if kind == 'a' else globs).add(x)
    return args, globs, calls, n

def short(n):
    n = re.sub(r'<.*', '', n.split('(')[0]); return n.split(' ')[-1] or n

ALLOW = re.compile(r'^(std::|__cxa_|_Unwind|operator|__gxx|__sa_|mem|str|__clang|__assert|sqrt|floor|ceil|fabs|fmin|fmax|abs$|free$|malloc$|pow|new$|delete$|new\[|delete\[|sin|cos|exp|log|round|trunc|lround)')

def within(impl, spec):
    a, b = frame(*impl), frame(*spec)
    new = sorted(map(str, a[1] - b[1])) + sorted(c for c in a[2] - b[2] if not ALLOW.match(c))
    if a[0] - b[0]: new += ['parameter %s' % x for x in sorted(a[0] - b[0])]
    return new, a[3]
