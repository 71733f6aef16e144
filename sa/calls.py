"""Meaning of call instructions that remain after inlining."""
import re
from fractions import Fraction
import ir
from ir import Ty
from peg import Ptr, Agg, Sig, PURE, INTR, Unsupported, wrap, tyname, I1

SIG = {}
def sig(b, name):
    s = SIG.get(name)
    if s is None:
        d = b.dm(name)
        s = SIG[name] = Sig(d)
    return s

IGNORE = re.compile(r'^llvm\.(lifetime|dbg|assume|experimental\.noalias|var\.annotation|invariant|donothing|prefetch)|^__clang_call_terminate|^_ZSt9terminatev')
STREAMS = {'_ZSt4cout': 'cout', '_ZSt4cerr': 'cerr', '_ZSt4clog': 'cerr'}

INTS = {'int': ('i32', 's'), 'unsigned int': ('i32', 'u'), 'long': ('i64', 's'), 'unsigned long': ('i64', 'u'),
        'short': ('i16', 's'), 'unsigned short': ('i16', 'u'), 'bool': ('i8', 'u'), 'char': ('i8', 's'),
        'unsigned char': ('i8', 'u'), 'signed char': ('i8', 's'), 'long long': ('i64', 's'), 'unsigned long long': ('i64', 'u')}

THREADS = {'__sa_spawn_begin': 'running', '__sa_spawn_end': None, '__sa_join': 'joined', '__sa_detach': 'detached',
           '__sa_joinable': None, '__sa_thread_none': None}

def handle(b, i):
    g = b.g
    cal, tys = i.x
    if cal[0] != 'g':
        return generic(b, i, None, tys)
    name = cal[1]
    if IGNORE.match(name): return
    if name.startswith('llvm.'): return intrinsic(b, i, name, tys)
    args = None
    if name in PURE:
        b.env[i.res] = g.mk('fn1', PURE[name], tyname(i.ty), *[b.val(v, t) for v, t in zip(i.args, tys)]); return
    if name == '__sa_data':
        p = b.val(i.args[0], Ty('ptr')); es = b.val(i.args[1], tys[1])
        o = ('vec', p.obj)
        b.elem[o] = g.n[es][1]
        b.env[i.res] = Ptr(o, p.key(), g.c(0, 'i64')); return
    if name == '__sa_buffer' or name in ('_Znwm', '_Znam', 'malloc'):
        b.bufsize[('alloca', i.res)] = b.val(i.args[0], tys[0])
        b.env[i.res] = Ptr(('alloca', i.res), (), g.c(0, 'i64')); return
    if name in ('_ZdlPv', '_ZdlPvm', 'free', '_ZdaPv'): return
    if name in THREADS:
        # which workers run: nothing -> running -> joined; part of what later calls depend on
        if THREADS[name]: b.setmem(('g', 'workers'), g.mk('m0', ('workers', THREADS[name])))
        b.log(name, [], i)
        if i.res: b.env[i.res] = g.c(1, I1)
        return
    if name in TEXT: return TEXT[name](b, i, tys)
    if name.startswith('__sa_ptr_'):
        key = tuple(b.as_nodes(b.val(v, t)) for v, t in zip(i.args, tys))
        b.env[i.res] = Ptr(('ret', name), key, g.c(0, 'i64')); return
    if name.startswith('__sa_'):
        vals = [b.val(v, t) for v, t in zip(i.args, tys)]
        b.log(name, [b.as_nodes(v) for v in vals], i)
        if i.res:
            b.env[i.res] = g.mk('callv', tyname(i.ty), name, '', tuple(b.as_nodes(v) for v in vals if not isinstance(v, Ptr)))
        return
    s = sig(b, name)
    base = s.base
    last = base.split('::')[-1]
    if last.startswith('~'):
        if 'basic_ofstream' in base or base.endswith('~ofstream'): close_file(b, i)
        return
    if 'new_allocator' in base or base.startswith('std::allocator'): return
    if last == 'basic_string' or 'basic_string' in base and last == 'basic_string':
        return string_ctor(b, i, s, tys)
    if base.startswith('votess::vtargs::operator[]'):
        p = b.val(i.args[0], Ty('ptr')); k = b.val(i.args[1], Ty('ptr'))
        v = b.forward(b.getmem(b.mem, k.obj), k)
        if v is None: v = b.load(k, Ty('i', None, 64))
        b.env[i.res] = Ptr(('par', p.obj), parkey(b, p) + (v,), g.c(0, 'i64')); return
    if base.startswith('votess::vtargref::'):
        if last == 'operator=': return vt_store(b, i, s, tys)
        if last == 'get' or last.startswith('operator '): return vt_load(b, i, s)
    if base in ('votess::vtargs::vtargs',) or (base.startswith('std::unordered_map') and last == 'unordered_map'):
        p = b.val(i.args[0], Ty('ptr'))
        if len(i.args) >= 2:
            q = b.val(i.args[1], Ty('ptr'))
            b.setmem(('par', p.obj), b.getmem(b.mem, ('par', q.obj)))
        else:
            b.setmem(('par', p.obj), g.mk('m0', ('defaults',)))
        return
    if last in ('operator<<',) and i.args and s.params is not None:
        if ostream(b, i, s, tys): return
    if base == 'std::setw':
        b.env[i.res] = b.val(i.args[0], tys[0]); return
    if last in ('basic_ofstream', 'ofstream'):
        p = b.val(i.args[0], Ty('ptr')); k = b.val(i.args[1], Ty('ptr')) if len(i.args) > 1 else None
        key = [] if k is None else [b.getmem(b.mem, k.obj)] + list(k.key())
        b.setmem(p.obj, g.mk('mcall', 'ofstream', 0, '', tuple(key)))
        return
    if last == 'close' and 'ofstream' in base: return      # the destructor closes a file that is still open
    if last in ('flush', 'endl') and 'ostream' in base:
        if i.res: b.env[i.res] = b.val(i.args[0], Ty('ptr'))
        return
    return generic(b, i, s, tys)

# ---- strings, streams and maps of the models in stub2 ---------------------------
def strid(t):
    import ser
    return ser.H(('text', t)) >> 1
def text_of(b, v, ty):
    """identity of the contents of a C string"""
    g = b.g
    cs = cstr(b, v)
    if cs is not None: return text_const(b, cs)
    p = b.val(v, ty)
    if not isinstance(p, Ptr): raise Unsupported('text of a non-pointer')
    if p.obj == ('ret', '__sa_ptr_cstr') and g.isc(p.off, 0): return p.pre[0]
    if p.obj[0] == 'ret': return g.mk('callv', 'i64', 'text', p.obj[1], p.key())
    return g.mk('callv', 'i64', 'text', repr(b.objname(p.obj)), (b.getmem(b.mem, p.obj),) + p.key())
TEXTS = {}
def text_const(b, t):
    i = strid(t); TEXTS[i] = t
    return b.g.c(i, 'i64')
def known(b, n):
    d = b.g.n[n]
    return TEXTS.get(d[1]) if d[0] == 'c' else None
def t_cstr(b, i, tys): b.env[i.res] = text_of(b, i.args[0], tys[0])
def t_concat(b, i, tys):
    x, y = (b.val(v, t) for v, t in zip(i.args, tys)); kx, ky = known(b, x), known(b, y)
    if kx is not None and ky is not None: r = text_const(b, kx + ky)
    elif kx == '': r = y
    elif ky == '': r = x
    else: r = b.g.mk('callv', 'i64', '__sa_h_concat', '', (x, y))
    b.env[i.res] = r
def t_fmt(b, i, tys):
    x = b.val(i.args[0], tys[0]); d = b.g.n[x]
    if d[0] == 'c': r = text_const(b, str(d[1]) if i.x[0][1] == '__sa_fmt_i' else chr(d[1] & 255))
    else: r = b.g.mk('callv', 'i64', '__sa_h_' + i.x[0][1][5:], '', (x,))
    b.env[i.res] = r
def t_strcmp(b, i, tys):
    g = b.g; x, y = (text_of(b, v, t) for v, t in zip(i.args, tys))
    b.env[i.res] = g.sel(b.cmp('eq', x, y, 'i64'), g.c(0, 'i32'), b.binop('or', 'i32', g.mk('callv', 'i32', 'strcmp', '', (x, y)), g.c(1, 'i32')), 'i32')
def t_atoi(b, i, tys):
    g = b.g; x = text_of(b, i.args[0], tys[0]); ten = g.c(10, 'i64')
    if len(i.args) > 1: ten = b.cast('sext', b.val(i.args[2], tys[2]), tyname(tys[2]), 'i64')
    v = g.sel(g.mk('callv', I1, '__sa_stol_ok', '', (x, ten)), g.mk('callv', 'i64', '__sa_stol', '', (x, ten)), g.c(0, 'i64'), 'i64')
    t = tyname(i.ty)
    b.env[i.res] = v if t == 'i64' else b.cast('trunc', v, 'i64', t)
def mapobj(b, v):
    p = b.val(v, Ty('ptr'))
    d = b.g.n[p.off]
    if p.pre or d[0] != 'c': raise Unsupported('map inside an array')
    return ('map', p.obj, d[1])
def t_slot(b, i, tys):
    b.env[i.res] = Ptr(mapobj(b, i.args[0]), (b.val(i.args[1], tys[1]),), b.g.c(0, 'i64'))
def t_mclear(b, i, tys): b.setmem(mapobj(b, i.args[0]), b.g.mk('mz'))
def t_mcopy(b, i, tys): b.setmem(mapobj(b, i.args[0]), b.getmem(b.mem, mapobj(b, i.args[1])))
def t_nop(b, i, tys): return
def t_optstring(b, i, tys):
    s = cstr(b, i.args[0])
    if s is None: raise Unsupported('option string is not a literal')
    lead = ''
    while s[:1] in ('+', '-', ':') and s: lead += s[0]; s = s[1:]
    ent = re.findall(r'[^:]:{0,2}', s)
    b.env[i.res] = text_const(b, '\0optstring ' + lead.replace(':', '') + ' ' + ' '.join(sorted(set(ent))))
def t_opttable(b, i, tys):
    """a table of long options, read as a set of entries up to the null entry"""
    g = b.g; p = b.val(i.args[0], Ty('ptr'))
    if p.obj[0] == 'cg': nm = p.obj[1]
    else: nm = b.cinit.get(b.getmem(b.mem, p.obj))
    if nm is None or not g.isc(p.off, 0): raise Unsupported('option table is not a constant')
    cells = b.mod.const_cells(nm); ptrs = b.mod.globals[nm].get('ptrs', {})
    ent = []; o = 0
    while o in cells or o in ptrs:
        if o not in ptrs: break
        if o + 16 in ptrs: raise Unsupported('option entry with a flag')
        ent.append('%s %s %s' % (b.mod.cstring(ptrs[o]), cells[o + 8][1], cells[o + 24][1])); o += 32
    else: raise Unsupported('option table without an end')
    b.env[i.res] = text_const(b, '\0opttable ' + '|'.join(sorted(set(ent))))
TEXT = {'__sa_cstr': t_cstr, '__sa_concat': t_concat, '__sa_fmt_i': t_fmt, '__sa_fmt_c': t_fmt, 'strcmp': t_strcmp, 'atoi': t_atoi, 'atol': t_atoi,
        'strtol': t_atoi, '__sa_slot': t_slot, '__sa_map_clear': t_mclear, '__sa_map_copy': t_mcopy, '__sa_print': t_nop,
        '__sa_optstring': t_optstring, '__sa_opttable': t_opttable, '__cxa_allocate_exception': lambda b, i, tys: b.env.__setitem__(i.res, Ptr(('alloca', i.res), (), b.g.c(0, 'i64'))),
        '__cxa_throw': t_nop, '__cxa_free_exception': t_nop}

def close_file(b, i):
    g = b.g
    p = b.val(i.args[0], Ty('ptr'))
    m = b.getmem(b.mem, p.obj)
    o = ('g', 'files')
    b.setmem(o, g.mk('mcall', 'file', 0, '', (b.getmem(b.mem, o), m)))

def string_ctor(b, i, s, tys):
    g = b.g
    p = b.val(i.args[0], Ty('ptr'))
    v = i.args[1] if len(i.args) > 1 else None
    if v is None: n = g.mk('str', '')
    else:
        cs = cstr(b, v)
        if cs is not None: n = g.mk('str', cs)
        else:
            q = b.val(v, tys[1])
            if isinstance(q, Ptr):
                n = b.forward(b.getmem(b.mem, q.obj), q)
                if n is None or isinstance(n, Ptr): n = g.mk('ld', 'i64', b.getmem(b.mem, q.obj), *q.key())
            else: n = q
    b.store(p, n, Ty('i', None, 64))

def cstr(b, v):
    if v[0] == 'g': return b.mod.cstring(v[1])
    if v[0] == 'r':
        e = b.env.get(v[1])
        if isinstance(e, Ptr) and e.obj[0] == 'cg' and b.g.isc(e.off, 0): return b.mod.cstring(e.obj[1])
    return None

def vt_load(b, i, s):
    g = b.g
    p = b.val(i.args[0], Ty('ptr'))
    if i.ty.k != 'i':
        if i.ty.k in ('float', 'double'):
            b.env[i.res] = g.mk('ld', 'float', b.getmem(b.mem, p.obj), *p.key()); return
        return generic(b, i, s, i.x[1])
    v = b.load(p, Ty('i', None, 64))
    if isinstance(v, Ptr): raise Unsupported('parameter value')
    g.signed.add(v)
    t = tyname(i.ty)
    if t != I1 and re.search(r'get<unsigned|operator unsigned|operator T<unsigned|<unsigned [a-z]+>', s.targs + ' ' + b.dm(i.x[0][1])):
        # a negative text read as an unsigned number wraps, by an amount nobody relies on
        v = b.g.sel(b.cmp('slt', v, g.c(0, 'i64'), 'i64'), b.cast('zext', g.mk('callv', 'i32', 'wrapped parameter', '', (v,)), 'i32', 'i64'), v, 'i64')
    if t == I1: b.env[i.res] = b.cmp('ne', v, g.c(0, 'i64'), 'i64')
    elif t == 'i64': b.env[i.res] = v
    else: b.env[i.res] = b.cast('trunc', v, 'i64', t)

def vt_store(b, i, s, tys):
    g = b.g
    p = b.val(i.args[0], Ty('ptr'))
    pt = re.sub(r' const&$|&$|&&$', '', s.params[0]).strip()
    q = b.val(i.args[1], tys[1])
    if pt in INTS:
        t, sg = INTS[pt]
        v = b.load(q, Ty('i', None, int(t[1:])))
        if t != 'i64': v = b.cast('sext' if sg == 's' else 'zext', v, t, 'i64')
    elif pt in ('float', 'double'):
        v = b.load(q, Ty(pt))
        v = g.mk('callv', 'i64', 'fpstr', '', (v,))
    else:
        v = g.mk('callv', 'i64', 'tostr', pt, (b.getmem(b.mem, q.obj),) + q.key())
    b.store(p, v, Ty('i', None, 64))
    if i.res: b.env[i.res] = p

def ostream(b, i, s, tys):
    g = b.g
    os = b.val(i.args[0], Ty('ptr'))
    if not isinstance(os, Ptr): return False
    o = os.obj
    if i.res: b.env[i.res] = os
    m = b.getmem(b.mem, o)
    v = i.args[1]; t = tys[1]
    pr = s.params[-1]
    if '(*)' in pr:
        n = ('str', '\n') if v[0] == 'g' and 'endl' in b.dm(v[1]) else None
        if n is None: return True
        item = g.mk('str', '\n')
    elif '_Setw' in pr:
        w = b.val(v, t)
        if not isinstance(w, (Ptr, Agg)) and g.n[w][0] == 'c' and g.n[w][1] <= 1: return True
        item = g.mk('callv', 'i64', 'setw', '', (b.as_nodes(w),))
    elif cstr(b, v) is not None: item = g.mk('str', cstr(b, v))
    elif t.k == 'ptr':
        q = b.val(v, t)
        if q.obj[0] == 'cg' or (q.obj[0] == 'g'): item = g.mk('str', repr(q.obj))
        else:
            item = b.forward(b.getmem(b.mem, q.obj), q)
            if item is None or isinstance(item, Ptr): item = g.mk('ld', 'i64', b.getmem(b.mem, q.obj), *q.key())
    else:
        x = b.val(v, t)
        if t.k == 'i' and t.n == 8 and g.n[x][0] == 'c' and ('char' in pr): item = g.mk('str', chr(g.n[x][1] & 255))
        else:
            if t.k == 'i' and t.n not in (64,):
                x = b.cast('zext' if 'unsigned' in pr or t.n == 1 else 'sext', x, tyname(t), 'i64')
            item = x
    d = g.n[m]
    if g.n[item][0] == 'str' and d[0] == 'out' and g.n[d[2]][0] == 'str':
        item = g.mk('str', g.n[d[2]][1] + g.n[item][1]); m = d[1]
    b.setmem(o, g.mk('out', m, item))
    b.log('<<' + repr(b.objname(o)), [item], i)
    return True

def gran(b, objs, n):
    ts = set()
    for o in objs: ts |= b.acc.get(o, set())
    ts = {t for t in ts if t != 'ptr'}
    def sz(t): return 4 if t == 'float' else 8 if t == 'double' else max(1, int(t[1:]) // 8)
    c = sorted((t for t in ts if n is None or n % sz(t) == 0), key=lambda t: (sz(t), t))
    if c: return c[0], sz(c[0])
    if n is not None and n % 4: return ('i8', 1)
    return ('i32', 4)

def tyof(t):
    return Ty(t) if t in ('float', 'double') else Ty('i', None, int(t[1:]))

def intrinsic(b, i, name, tys):
    g = b.g
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        d, s_, n = (b.val(i.args[k], tys[k]) for k in range(3))
        nd = g.n[n]
        if s_.obj[0] == 'cg' and g.isc(d.off, 0) and g.isc(s_.off, 0) and not d.pre and b.mod.const_cells(s_.obj[1]) is not None \
           and b.mod.globals[s_.obj[1]].get('ptrs'):
            m = g.mk('mcall', 'cinit', 0, s_.obj[1], ()); b.cinit[m] = s_.obj[1]
            b.setmem(d.obj, m); return
        if nd[0] == 'c':
            if nd[1] == 0: return
            t, z = gran(b, [d.obj, s_.obj], nd[1])
            if nd[1] // z <= 64:
                vals = []
                for k in range(0, nd[1], z):
                    vals.append(b.load(Ptr(s_.obj, s_.pre, g.add(s_.off, g.c(k, 'i64'), 'i64')), tyof(t)))
                for k, v in zip(range(0, nd[1], z), vals):
                    b.store(Ptr(d.obj, d.pre, g.add(d.off, g.c(k, 'i64'), 'i64')), v, tyof(t))
                return
        t, z = gran(b, [d.obj, s_.obj], None)
        b.range_copy(d, s_, t, z, b.binop('sdiv', 'i64', n, g.c(z, 'i64')), g.c(z, 'i64'), g.c(z, 'i64'))
        return
    if name.startswith('llvm.memset'):
        d, v, n = (b.val(i.args[k], tys[k]) for k in range(3))
        nd, vd = g.n[n], g.n[v]
        t, z = gran(b, [d.obj], nd[1] if nd[0] == 'c' else None)
        if vd[0] == 'c':
            byte = vd[1] & 255
            if t in ('float', 'double'):
                if byte: raise Unsupported('memset of floats')
                val = g.c(Fraction(0), t)
            else: val = g.c(wrap(int.from_bytes(bytes([byte]) * z, 'little'), t), t)
        elif z == 1: val = v; t = 'i8'
        else: raise Unsupported('memset value')
        if nd[0] == 'c' and nd[1] // z <= 16:
            for k in range(0, nd[1], z): b.store(Ptr(d.obj, d.pre, g.add(d.off, g.c(k, 'i64'), 'i64')), val, tyof(t))
            return
        b.range_fill(d, val, t, z, b.binop('sdiv', 'i64', n, g.c(z, 'i64')), g.c(z, 'i64'))
        return
    if name.startswith('llvm.expect'):
        b.env[i.res] = b.val(i.args[0], i.ty); return
    if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'):
        t = tyname(i.ty); a = [b.val(v, i.ty) for v in i.args]
        b.env[i.res] = b.binop('fadd', t, b.binop('fmul', t, a[0], a[1]), a[2]); return
    if name in ('llvm.trap', 'llvm.stacksave.p0', 'llvm.stackrestore.p0'): return
    for k, f in INTR.items():
        if name == k or name.startswith(k + '.'):
            a = [b.val(v, t) for v, t in zip(i.args, tys)]
            t = tyname(i.ty)
            if f == 'iabs':
                b.env[i.res] = g.sel(b.cmp('slt', a[0], g.c(0, t), t), b.binop('sub', t, g.c(0, t), a[0]), a[0], t); return
            if f in ('smin', 'smax', 'umin', 'umax'):
                c = b.cmp(f[0] + 'lt', a[0], a[1], t)
                b.env[i.res] = g.sel(c, a[0], a[1], t) if f[1:] == 'min' else g.sel(c, a[1], a[0], t); return
            b.env[i.res] = g.mk('fn1', f, t, *a); return
    if name.startswith('llvm.threadlocal.address'): b.env[i.res] = b.val(i.args[0], tys[0]); return
    raise Unsupported('intrinsic ' + name)

def parkey(b, p):
    return () if not p.pre and b.g.n[p.off][0] == 'c' else p.key()

def reach(b, p, ptype):
    """memory reachable through a pointer argument: [(object, prefix)], plus shape values"""
    g = b.g
    if 'std::vector<' in ptype:
        n = b.load(p, Ty('i', None, 64))
        o = ('vec', p.obj)
        return [(o, p.key())], [n]
    if 'accessor<' in ptype:
        q = b.load(p, Ty('ptr'))
        return [(q.obj, q.key())], [b.bufsize[q.obj]] if q.obj in b.bufsize else []
    if 'votess::vtargs' in ptype:
        return [(('par', p.obj), parkey(b, p))], []
    if 'basic_string' in ptype:
        return [(p.obj, p.key())], []
    if p.obj[0] == 'vec' and p.pre:      # elements of a vector: its length matters to the callee
        n = b.load(Ptr(p.obj[1], p.pre[:-1], p.pre[-1]), Ty('i', None, 64))
        return [(p.obj, p.key())], [n]
    return [(p.obj, p.key())], []

AFTER = re.compile(r'tmpnn_fill$')
PRINTS = re.compile(r'__[cg]pu__\w+$|print_device$|dnn::print$')

def generic(b, i, s, tys):
    """opaque call: results are functions of the arguments and of the memory they reach"""
    g = b.g
    if s is None: raise Unsupported('indirect call')
    sret = 'sret(' in i.text
    params = list(s.params)
    n = len(i.args) - (1 if sret else 0)
    ptypes = params
    if n == len(params) + 1: ptypes = ['this' + (' const' if s.const else '')] + params
    if n != len(ptypes) and not (n == 0): ptypes = ['?'] * n
    vals = [b.val(v, t) for v, t in zip(i.args, tys)]
    ret = None
    if sret: ret, vals = vals[0], vals[1:]
    nodes = []; outs = []
    idle = b.opts.get('idle', {}).get((s.base, len(i.args)), ())
    for k, (v, pt) in enumerate(zip(vals, ptypes)):
        if k + (1 if sret else 0) in idle: continue       # a parameter the callee does not use
        if isinstance(v, Ptr):
            if v.obj[0] in ('cg', 'null') or (v.obj[0] == 'g' and str(v.obj[1]).startswith('fn:')):
                cs = b.mod.cstring(v.obj[1]) if v.obj[0] == 'cg' else None
                nodes.append(g.mk('str', cs if cs is not None else repr(v.obj))); continue
            objs, extra = reach(b, v, pt)
            nodes += extra
            ro = ('const' in pt and 'accessor<' not in pt) or ('accessor<' in pt and 'mode)1024' in pt)
            for o, key in objs:
                # struct passed by const reference: its fields
                if pt.endswith('const&') and 'vector<' not in pt and 'accessor<' not in pt and 'string' not in pt and o[0] == 'alloca':
                    nodes.append(g.mk('mview', b.getmem(b.mem, o), *key))
                else:
                    nodes.append(b.getmem(b.mem, o)); nodes += list(key)
                if not ro: outs.append((k, o))
        elif isinstance(v, Agg): raise Unsupported('aggregate argument')
        else:
            t = b.nty(v)
            if t and t[0] == 'i' and t not in ('i64', I1):
                v = b.cast('sext', v, t, 'i64')
            nodes.append(v)
    base = s.base
    if PRINTS.search(base):
        o = ('g', '_ZSt4cout')
        nodes.append(b.getmem(b.mem, o)); outs.append(('out', o))
    if AFTER.search(base): nodes.append(b.getmem(b.mem, ('g', 'workers')))
    key = tuple(nodes)
    b.log(base, list(key), i, outs)
    for k, o in outs:
        b.setmem(o, g.mk('mcall', base, k, '', key))
    if ret is not None:
        b.setmem(ret.obj, g.mk('mcall', base, 'ret', '', key))
        b.setmem(('vec', ret.obj), g.mk('mcall', base, 'retvec', '', key))
    if i.res:
        if i.ty.k == 'ptr':
            b.env[i.res] = Ptr(('ret', base), (g.mk('callv', 'i64', base, 'p', key),), g.c(0, 'i64'))
        elif i.ty.k in ('i', 'float', 'double'):
            b.env[i.res] = g.mk('callv', tyname(i.ty), base, '', key)
        else:
            b.env[i.res] = g.mk('callv', 'i64', base, 'agg', key)
