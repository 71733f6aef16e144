"""Standard output as a resource (C17): typestate of std::cout's buffer along all
paths of tesellate, exceptional ones included; output that bypasses or escapes
the redirection; sticky changes of std::cout or of the process."""
import os, re, tempfile, shutil
import build, ir
from errors import Undecided
from flow import Fn, goff, callee, CALLS

SET = '_ZNSt9basic_iosIcSt11char_traitsIcEE5rdbufEPSt15basic_streambufIcS1_E'
GET = '_ZNKSt9basic_iosIcSt11char_traitsIcEE5rdbufEv'
COUT = '_ZSt4cout'
LIBS = ('bits/unique_ptr.h', 'tuple', 'optional', 'bits/shared_ptr.h', 'bits/shared_ptr_base.h', 'bits/move.h', 'bits/invoke.h', 'bits/std_function.h',
        'bits/utility.h', 'bits/stl_pair.h', 'bits/refwrap.h', 'bits/ptr_traits.h', 'bits/enable_special_members.h', 'variant', 'functional',
        'bits/allocated_ptr.h', 'bits/alloc_traits.h', 'bits/allocator.h', 'bits/new_allocator.h', 'ext/aligned_buffer.h', 'ext/atomicity.h',
        'bits/stl_construct.h', 'bits/std_mutex.h', 'new', 'array')
OUTC = re.compile(r'^(printf|puts|putchar|vprintf|__printf_chk|putchar_unlocked|puts_unlocked)$')
STDOUT_ARG = re.compile(r'^(fprintf|fputs|fputc|putc|fwrite|vfprintf|__fprintf_chk|fflush)$')
PROCESS = re.compile(r'^(setlocale|srand|srandom|signal|sigaction|chdir|setenv|putenv|unsetenv|fesetround|feenableexcept|umask|freopen|dup2|atexit|'
                     r'std::locale::global\(.*|std::ios_base::sync_with_stdio\(.*|std::set_terminate\(.*|std::set_new_handler\(.*|std::set_unexpected\(.*)$')
STICKY_FN = {'fixed', 'scientific', 'hexfloat', 'defaultfloat', 'hex', 'oct', 'dec', 'boolalpha', 'noboolalpha', 'showpoint', 'noshowpoint', 'showpos', 'noshowpos',
             'left', 'right', 'internal', 'uppercase', 'nouppercase', 'showbase', 'noshowbase', 'unitbuf', 'nounitbuf', 'skipws', 'noskipws'}
STICKY_MEM = re.compile(r'^(?:\S.* )?std::(?:ios_base|basic_ios<.*?>)::(setf|unsetf|precision|fill|flags|exceptions|setstate|imbue|tie|copyfmt|clear|init|swap|move)\((?!\))(?!void\))')
STICKY_OP = re.compile(r'std::operator<<.*std::(_Setprecision|_Setfill<|_Setiosflags|_Resetiosflags|_Setbase)')

class Raw:
    mod = None
    @classmethod
    def get(cls, repo=build.REPO):
        if cls.mod is None:
            d = tempfile.mkdtemp(prefix='sa-o-')
            try:
                raw = os.path.join(d, 'u.ll')
                build.compile_ll(os.path.join(build.HERE, 'drv', 'sout.cpp'), raw, defs=['-DSA_TF=float'], repo=repo)
                cls.text = open(raw).read()
                cls.mod = cls(raw, repo)
            except build.BuildError as e: cls.mod = Undecided('the driver of tesellate does not compile: %s' % str(e)[:160])
            finally: shutil.rmtree(d, ignore_errors=True)
        if isinstance(cls.mod, Exception): raise cls.mod
        return cls.mod
    def __init__(self, path, repo):
        self.m = ir.Module(path); self.repo = os.path.normpath(repo) + '/'
        self.dm = build.demangle(list(self.m.lazy) + list(self.m.decls))
        self.refs = {}
        names = set(self.m.lazy) | set(self.m.decls) | {COUT, 'stdout'}
        for n, ls in self.m.lazy.items():
            self.refs[n] = {x.strip('"') for l in ls[1:] for x in re.findall(r'@("[^"]+"|[\w.$]+)', l)} & names
        self.file = {}
        for n, ls in self.m.lazy.items():
            q = re.search(r' !dbg !(\d+)', ls[0]); f = ''
            if q and q.group(1) in self.m.scope: f = self.m.files.get(self.m.scope[q.group(1)][1], '') or ''
            self.file[n] = os.path.normpath(f) if f else ''
    def reach(self, root):
        seen = {root}; st = [root]
        while st:
            for y in self.refs.get(st.pop(), ()):
                if y not in seen: seen.add(y); st.append(y)
        return seen
    def can(self, pred):
        """functions from which something satisfying pred is reachable"""
        rev = {}
        for a, bs in self.refs.items():
            for b in bs: rev.setdefault(b, set()).add(a)
        seen = {n for n in set(self.refs) | set(rev) if pred(n)}; st = list(seen)
        while st:
            for a in rev.get(st.pop(), ()):
                if a not in seen: seen.add(a); st.append(a)
        return seen
    def own(self, n): return self.file.get(n, '').startswith(self.repo)

# ---- calls that bypass the buffer or change more than it ---------------------------
def c17_calls(tier):
    R = Raw.get(); m = R.m
    live = [n for n in R.reach('u_out') if n in m.lazy]
    V = []; n = 0; und = []; fns = 0
    for name in sorted(live):
        if not R.own(name): continue
        fns += 1
        F = Fn(m, name, build.REPO)
        restores = any(callee(I) and re.search(r'::(flags|copyfmt|precision|fill|imbue|exceptions|setf|tie)\((?!\))', R.dm.get(callee(I), '')) and len(I.args) > 1 and I.args[1][0] == 'r' for I in F.instrs())
        def stream(v, d=0):
            """the stream a value refers to, as far as the expression shows"""
            if d > 200: return None
            if v[0] == 'g': return v[1]
            if v[0] == 'gep': return stream(v[2], d + 1)
            if v[0] != 'r' or v[1] not in F.defs: return None
            I = F.defs[v[1]]
            if I.op in ('getelementptr', 'bitcast', 'freeze'): return stream(I.args[0], d + 1)
            if I.op in CALLS and I.ty.k == 'ptr' and I.args and 'operator<<' in R.dm.get(callee(I) or '', '') : return stream(I.args[0], d + 1)
            if I.op == 'load':
                a = I.args[0]
                if a[0] == 'r' and a[1] in F.defs and F.defs[a[1]].op == 'alloca':
                    ss = [J.args[0] for J in F.instrs() if J.op == 'store' and J.args[1] == a]
                    if len(ss) == 1: return stream(ss[0], d + 1)
            return None
        def bad(I, what, inst):
            w = F.where(I); V.append(dict(file=w[0], line=w[1], instance='%s in %s' % (inst, fname(R.dm.get(name, name))), what=what))
        for I in F.instrs():
            c = callee(I)
            if not c or c.startswith('llvm.'): continue
            d = R.dm.get(c, c); n += 1
            if OUTC.match(c): bad(I, 'writes to the C standard output, which the redirection of std::cout does not cover', c)
            elif STDOUT_ARG.match(c) and any(stdout_arg(F, v) for v in I.args): bad(I, 'writes to the C standard output, which the redirection of std::cout does not cover', c)
            elif PROCESS.match(c) or PROCESS.match(d): bad(I, 'changes state of the whole process: %s' % d[:80], fname(d))
            elif I.args and any(v == ('g', '_ZSt5wcout') for v in I.args): bad(I, 'writes to std::wcout, which is not redirected', 'wcout')
            elif I.args and stream(I.args[0]) == COUT:
                k = None
                if STICKY_MEM.search(d): k = STICKY_MEM.search(d).group(1)
                elif STICKY_OP.search(d): k = STICKY_OP.search(d).group(1)
                elif 'operator<<' in d and len(I.args) > 1 and I.args[1][0] == 'g':
                    q = re.match(r'std::(\w+)\(std::ios_base&\)', R.dm.get(I.args[1][1], '')); k = q.group(1) if q and q.group(1) in STICKY_FN else None
                elif re.match(r'std::(\w+)\(std::ios_base&\)', d) and re.match(r'std::(\w+)\(', d).group(1) in STICKY_FN: k = re.match(r'std::(\w+)\(', d).group(1)
                if k:
                    if restores and k not in ('setstate',): und.append('%s: %s is applied to std::cout and something is set back' % (fname(name), k))
                    else: bad(I, 'changes the format or state of std::cout for good (%s)' % k, k)
    if not fns: raise Undecided('no function of the repository is reachable from tesellate')
    return {'instances': n, 'violations': V, 'analysed': ['%d functions of the repository reachable from tesellate, %d calls' % (fns, n)] + und}

def stdout_arg(F, v):
    if v == ('g', 'stdout'): return True
    I = F.defs.get(v[1]) if v[0] == 'r' else None
    return bool(I is not None and I.op == 'load' and I.args[0] == ('g', 'stdout'))

def fname(d):
    d = re.sub(r'\(.*', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', d)))
    return (d.split() or ['?'])[-1][:60]

# ---- typestate --------------------------------------------------------------------
def prepare(R, repo):
    """tesellate with every function that can touch the buffer inlined; exceptional edges kept"""
    near = R.can(lambda n: n == SET)
    lines = R.text.split('\n')
    noinl = {g for g, body in re.findall(r'^attributes (#\d+) = \{([^\n]*)\}', R.text, re.M) if re.search(r'\bnoinline\b|\boptnone\b', body)}
    for i, l in enumerate(lines):
        if not l.startswith('define ') or set(re.findall(r'#\d+', l)) & noinl: continue
        n = build.RE_DEF.match(l).group(1).strip('"')
        if n.startswith('u_'): continue
        f = R.file.get(n, '')
        lib = '/c++/' in f and any(f.endswith('/' + h) for h in LIBS)
        small = R.own(n) and n not in near and len(R.m.lazy[n]) < 80 and not R.dm.get(n, '').startswith('print') and 'vtarg' not in R.dm.get(n, '')
        if (n in near and (R.own(n) or lib)) or (lib and True) or small or f.startswith((build.STUB + '/', build.HERE + '/drv/')):
            lines[i] = re.sub(r'\) ((?:local_unnamed_addr |unnamed_addr )?)(#\d+)', r') \1alwaysinline \2', l, count=1)
    d = tempfile.mkdtemp(prefix='sa-o-')
    try:
        a, b = os.path.join(d, 'a.ll'), os.path.join(d, 'b.ll')
        open(a, 'w').write('\n'.join(lines))
        core = 'sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instsimplify,simplifycfg'
        build.run([f'{build.LLVM}/opt', '-S', f'-passes=always-inline,globaldce,function({core})', a, '-o', b])
        return ir.Module(b)
    finally: shutil.rmtree(d, ignore_errors=True)

def nounwind_groups(text):
    return {g for g, body in re.findall(r'^attributes (#\d+) = \{([^\n]*)\}', text, re.M) if re.search(r'\bnounwind\b', body)}

class Walk:
    LIMIT = 60000
    def __init__(self, R, m):
        self.R, self.m = R, m
        self.F = Fn(m, 'u_out', build.REPO)
        txt = R.text
        self.nu = nounwind_groups(txt)
        self.nuf = set()
        for l in txt.split('\n'):
            if l.startswith(('define ', 'declare ')):
                q = re.search(r'@("[^"]+"|[\w.$]+)\(.*\)[^()]*?(#\d+)', l)
                if q and q.group(2) in self.nu: self.nuf.add(q.group(1).strip('"'))
        self.prints = R.can(lambda n: n == COUT)
        self.uses = {}
        for I in self.F.instrs():
            for v in list(I.args) + ([w for w, _ in I.x] if I.op == 'phi' else []):
                if v[0] == 'r': self.uses[v[1]] = self.uses.get(v[1], 0) + 1
        self.viol = {}; self.und = set(); self.events = set(); self.ends = 0; self.states = 0

    def run(self):
        f = self.F.f
        init = (f.blocks[0].name, frozenset(), frozenset(), frozenset(), ('normal', None), False, False)
        seen = {init}; st = [init]
        while st:
            s = st.pop(); self.states += 1
            if self.states > self.LIMIT: raise Undecided('more than %d states' % self.LIMIT)
            for t in self.block(s):
                if t not in seen: seen.add(t); st.append(t)

    def val(self, v, env):
        if v[0] == 'r':
            if v[1] in env: return env[v[1]]
            if v[1] in self.F.params: return ('obj', 'arg:' + v[1], 0)
            I = self.F.defs.get(v[1])
            if I is not None and I.op == 'alloca': return ('obj', v[1], 0)
            return ('sym', v[1])
        if v[0] == 'g': return ('obj', '@' + v[1], 0)
        if v[0] == 'gep':
            b = self.val(v[2], env); o = goff(self.m, v[1], v[3])
            return ('obj', b[1], None if o is None or b[2] is None else b[2] + o) if b[0] == 'obj' else ('sym', '?')
        if v[0] == 'null': return ('c', 0)
        if v[0] == 'c': return ('c', v[1])
        if v[0] == 'z': return ('c', 0)
        return ('sym', '?')

    def cond(self, v):
        """value of type i1 -> (known bool) or (key, polarity)"""
        if v[0] == 'c': return bool(v[1])
        if v[0] == 'obj': return True
        if v[0] == 'not':
            c = self.cond(v[1])
            return (not c) if isinstance(c, bool) else (c[0], not c[1])
        if v[0] in ('sym', 'isnull'): return (v, True)
        return (('sym', '?'), True)

    def truth(self, v, asm):
        c = self.cond(v)
        if isinstance(c, bool): return c, None
        if c[0] in asm: return asm[c[0]] == c[1], None
        return None, c

    def block(self, s):
        name, env, mem, asm, mode, printed, lost = s
        env, mem, asm = dict(env), dict(mem), dict(asm)
        b = self.F.f.bmap[name]
        for I in b.instrs:
            op = I.op
            if op == 'phi': continue
            r = None
            if I.res is not None:
                env.pop(I.res, None)
                for k in [k for k in asm if k[1] == I.res]: del asm[k]
            if op == 'getelementptr':
                p = self.val(I.args[0], env)
                if p[0] == 'obj':
                    o = self.F.gepoff(I); r = ('obj', p[1], None if o is None or p[2] is None else p[2] + o)
            elif op in ('bitcast', 'freeze', 'zext', 'trunc', 'sext', 'ptrtoint', 'inttoptr'): 
                r = self.val(I.args[0], env)
                if r[0] == 'c' and op == 'trunc' and I.ty.n == 1: r = ('c', r[1] & 1)
            elif op == 'load':
                p = self.val(I.args[0], env)
                if p[0] == 'obj' and p[2] is not None and (p[1], p[2]) in mem: r = mem[(p[1], p[2])]
            elif op == 'store':
                p = self.val(I.args[1], env); v = self.val(I.args[0], env)
                if p[0] == 'obj':
                    if p[2] is None:
                        for k in [k for k in mem if k[0] == p[1]]: del mem[k]
                    elif v == ('sym', '?'): mem.pop((p[1], p[2]), None)
                    else: mem[(p[1], p[2])] = v
                elif v[0] == 'orig' or (v[0] == 'obj' and self.holds(v[1], mem)): lost = True
            elif op == 'select':
                t, _ = self.truth(self.val(I.args[0], env), asm)
                if t is not None: r = self.val(I.args[1 if t else 2], env)
                else:
                    x, y = self.val(I.args[1], env), self.val(I.args[2], env)
                    if x == y: r = x
            elif op == 'icmp':
                x, y = self.val(I.args[0], env), self.val(I.args[1], env)
                if I.x[0] in ('eq', 'ne'):
                    e = None
                    if x[0] == 'c' and y[0] == 'c': e = ('c', int(x[1] == y[1]))
                    elif ('c', 0) in (x, y):
                        z = y if x == ('c', 0) else x
                        if z[0] in ('obj', 'orig'): e = ('c', 0)
                        elif z[0] == 'sym' and z[1] != '?': e = ('isnull', z[1])
                        elif z[0] in ('isnull', 'not'): e = ('not', z)
                    elif x == y and x[0] != 'sym': e = ('c', 1)
                    elif x[0] == 'obj' and y[0] == 'obj' and x[1] != y[1]: e = ('c', 0)
                    if e is not None: r = e if I.x[0] == 'eq' else (('c', 1 - e[1]) if e[0] == 'c' else ('not', e) if e[0] != 'not' else e[1])
            elif op == 'xor' and I.ty.k == 'i' and I.ty.n == 1 and I.args[1] == ('c', 1): 
                x = self.val(I.args[0], env); r = ('c', 1 - x[1]) if x[0] == 'c' else ('not', x) if x[0] in ('sym', 'isnull') else x[1] if x[0] == 'not' else None
            elif op == 'and' and I.ty.k == 'i' and I.args[1] == ('c', 1): r = self.val(I.args[0], env)
            elif op in ('and', 'or') and I.ty.k == 'i' and I.ty.n == 1:
                xs = [self.truth(self.val(a, env), asm)[0] for a in I.args]
                if op == 'and' and False in xs: r = ('c', 0)
                elif op == 'or' and True in xs: r = ('c', 1)
                elif None not in xs: r = ('c', int(all(xs) if op == 'and' else any(xs)))
            elif op in CALLS:
                out = self.call(I, env, mem, mode, printed, lost)
                r, mode, printed, lost, throws = out
                if op == 'call' and throws: self.end(I, mode, lost, 'an exception leaves it')
            if op == 'ret': self.end(I, mode, lost, 'it returns'); return []
            if op == 'unreachable':
                if I.text.startswith('resume'): self.end(I, mode, lost, 'an exception leaves it')
                return []
            if r is not None and I.res is not None and r != ('sym', I.res): env[I.res] = r
        t = b.instrs[-1]
        succ = []
        if t.op == 'br' and len(t.x) == 2:
            k, c = self.truth(self.val(t.args[0], env), asm)
            if k is not None: succ = [(t.x[0 if k else 1], asm)]
            else:
                keep = c[0][1] != '?' and (self.uses.get(c[0][1], 0) > 1 or any(self.about(v, c[0][1]) for v in mem.values()))
                for q in (True, False):
                    a2 = dict(asm)
                    if keep: a2[c[0]] = q == c[1]
                    succ.append((t.x[0 if q else 1], a2))
        else: succ = [(x, asm) for x in dict.fromkeys(b.succs)]
        res = []
        for x, a2 in succ:
            e2 = dict(env); nb = self.F.f.bmap[x]; new = {}
            if t.op == 'invoke' and x == t.x[3] and t.res: e2.pop(t.res, None)
            if t.op == 'invoke' and x == t.x[3] and x != t.x[2]:
                md, pr, lo = self.inv_before
                if self.no_unwind(t): continue
            else: md, pr, lo = mode, printed, lost
            for I in nb.instrs:
                if I.op != 'phi': break
                v = [w for w, p in I.x if p == name][0]
                new[I.res] = self.val(v, env if not (t.op == 'invoke' and v == ('r', t.res)) else e2)
            for k, v in new.items():
                if v == ('sym', k) or v == ('sym', '?') : e2.pop(k, None)
                else: e2[k] = v
            # forget what can no longer be used
            res.append((x, frozenset((k, v) for k, v in e2.items() if self.livein(k, x)), frozenset(mem.items()), frozenset(a2.items()), md, pr, lo))
        return res

    def about(self, v, n): return v[0] in ('sym', 'isnull') and v[1] == n or v[0] == 'not' and self.about(v[1], n)
    def holds(self, o, mem): return any(k[0] == o and (v[0] == 'orig') for k, v in mem.items())

    _live = None
    def livein(self, reg, block):
        if self._live is None:
            f = self.F.f; use = {}; dfn = {}
            pu = {}
            for b in f.blocks:
                u = set(); d = set()
                for I in b.instrs:
                    if I.op == 'phi':
                        for w, p in I.x:
                            if w[0] == 'r': pu.setdefault(p, set()).add(w[1])
                        d.add(I.res); continue
                    for v in I.args:
                        w = v
                        while w[0] == 'gep': w = w[2]
                        if w[0] == 'r' and w[1] not in d: u.add(w[1])
                    if I.res is not None: d.add(I.res)
                use[b.name], dfn[b.name] = u, d
            phis = {b.name: {I.res for I in b.instrs if I.op == 'phi'} for b in f.blocks}
            li = {b.name: set(use[b.name]) for b in f.blocks}; ch = True
            while ch:
                ch = False
                for b in reversed(f.blocks):
                    o = set(pu.get(b.name, ()))
                    for s in b.succs: o |= li[s]
                    n = use[b.name] | (o - dfn[b.name])
                    if n != li[b.name]: li[b.name] = n; ch = True
            self._live = {n: li[n] | phis[n] for n in li}
        return reg in self._live[block]

    def no_unwind(self, I):
        c = callee(I)
        if c is None: return False
        if c in self.nuf or c.startswith('llvm.') or c.startswith('__cxa_') and c != '__cxa_rethrow' and c != '__cxa_throw': return True
        return bool(set(re.findall(r'#\d+', I.text)) & self.nu)

    def call(self, I, env, mem, mode, printed, lost):
        self.inv_before = (mode, printed, lost)
        c = callee(I)
        args = [self.val(a, env) for a in I.args]
        throws = not self.no_unwind(I)
        r = None
        cout = lambda v: v[0] == 'obj' and v[1] == '@' + COUT
        if c is None or c.startswith('llvm.'):
            if c and c.startswith('llvm.memcpy') and args[0][0] == 'obj' and args[1][0] == 'obj' and None not in (args[0][2], args[1][2]) and I.args[2][0] == 'c':
                n = I.args[2][1]; do, so = args[0][2], args[1][2]
                new = {(args[0][1], k[1] - so + do): v for k, v in mem.items() if k[0] == args[1][1] and k[1] is not None and so <= k[1] < so + n}
                for k in [k for k in mem if k[0] == args[0][1] and do <= k[1] < do + n]: del mem[k]
                mem.update(new)
            elif c and c.startswith('llvm.memset') and args[0][0] == 'obj':
                for k in [k for k in mem if k[0] == args[0][1]]: del mem[k]
            elif c and c.startswith('llvm.lifetime.end') and args[1][0] == 'obj':
                for k in [k for k in mem if k[0] == args[1][1]]: del mem[k]
            elif c and c.startswith('llvm.expect'): r = args[0]
            elif c is None and any(v[0] == 'orig' for v in mem.values()) and any(a[0] == 'obj' and not a[1].startswith(('@', 'arg:')) for a in args): lost = True
            return r, mode, printed, lost, c is None and throws
        if c == GET and args and cout(args[0]):
            r = ('orig',) if mode[0] != 'redirected' else None
            return r, mode, printed, lost, False
        if c == SET and args and cout(args[0]):
            if args[1][0] == 'orig':
                self.events.add(('restore', self.F.where(I))); r = None
                if mode[0] == 'redirected': mode = ('restored', mode[1])
            elif mode[0] == 'redirected' and args[1][0] == 'sym':
                self.und.add('a buffer of unknown origin is installed at line %s' % self.F.where(I)[1]); lost = True; mode = ('restored', mode[1])
            else:
                w = self.F.where(I); self.events.add(('redirect', w)); r = ('orig',) if mode[0] != 'redirected' else None
                if printed: self.bad('early', printed, 'prints to std::cout before it is redirected on a path that redirects it')
                mode = ('redirected', w)
            return r, mode, printed, lost, False
        if c in ('_Znwm', '_ZnwmSt11align_val_t'): return ('obj', 'new:' + I.res, 0), mode, printed, lost, throws
        if c.startswith('_Zdl') or c == '__cxa_begin_catch' or c == '__cxa_end_catch' or c == '__sa_data': return None, mode, printed, lost, False
        d = self.R.dm.get(c, c)
        if re.search(r'\bbasic_\w*stream<.*>::rdbuf\(\) const$', d) and args and args[0][0] == 'obj' and not args[0][1].startswith('@'):
            return ('obj', 'buffer of ' + args[0][1], 0), mode, printed, lost, False
        if any(cout(a) for a in args) and ('operator<<' in d or '::write(' in d or '::put(' in d or '::flush(' in d or 'std::endl' in d or '__ostream_insert' in d) or (c in self.prints and c in self.R.m.lazy):
            w = self.F.where(I)
            if mode[0] == 'restored': self.bad('late', w, 'prints to std::cout after the redirection was undone')
            elif mode[0] == 'normal' and not printed: printed = w
            if any(cout(a) for a in args) and I.ty.k == 'ptr': r = ('obj', '@' + COUT, 0)
        # an object handed to a call that is not followed
        if not re.search(r'\bstd::(?:__cxx11::)?basic_', d.split('(')[0]) and not d.rstrip().endswith(' const'):
            for a in args:
                if a[0] == 'obj' and not a[1].startswith(('@', 'arg:')):
                    for k in [k for k in mem if k[0] == a[1]]:
                        v = mem.pop(k)
                        if v[0] == 'orig' or v[0] == 'obj' and self.holds(v[1], mem): lost = True
        return r, mode, printed, lost, throws

    def bad(self, kind, w, what): self.viol.setdefault((kind, w), what)
    def end(self, I, mode, lost, how):
        self.ends += 1
        if mode[0] == 'redirected':
            if lost: self.und.add('the saved buffer cannot be followed to %s' % how); return
            self.bad('leak', mode[1], 'redirects std::cout, and on a path where %s (line %s) it is not restored' % (how, self.F.where(I)[1]))

def c17_stdout(tier):
    R = Raw.get()
    if SET not in R.reach('u_out'): raise Undecided('std::cout is not redirected by rdbuf')
    if any('std::_Sp_counted' in R.dm.get(n, '') for n in R.can(lambda n: n == SET)): raise Undecided('the redirection is owned by a reference count')
    W = Walk(R, prepare(R, build.REPO))
    W.run()
    V = [dict(file=w[0][0] if isinstance(w[0], tuple) else w[0], line=w[1], instance='%s line' % k, what=what) for (k, w), what in W.viol.items()]
    if not any(e[0] == 'redirect' for e in W.events) and not V: raise Undecided('no redirection of std::cout found on any path')
    if not V and W.und: raise Undecided('; '.join(sorted(W.und))[:200])
    return {'instances': len(W.events) + W.ends, 'violations': V,
            'analysed': ['%d abstract states, %d ways out, events: %s' % (W.states, W.ends, sorted('%s line %s' % (e[0], e[1][1]) for e in W.events))]}
