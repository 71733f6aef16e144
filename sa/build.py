"""Source -> analysed IR.

clang (type-checked program, real headers) emits unoptimised IR for the driver
translation unit; every function defined under /repo, and the header-only
algorithm part of the standard library, is marked for inlining except for a
small set of *opaque* operations that the analyser models itself; LLVM's
always-inliner, SROA and CFG clean-up then give SSA form.  Nothing is linked
or executed.
"""
import os, re, subprocess, shutil, tempfile, hashlib, json, time

REPO = os.environ.get('VOTESS_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
HERE = os.path.dirname(os.path.abspath(__file__))

STUB = os.path.join(HERE, 'stub')
STUB3 = os.path.join(HERE, 'stub3')      # model of threads that keeps the closure apart
STUB2 = os.path.join(HERE, 'stub2')      # models of strings, streams, maps, getopt and pybind11

def flags(repo=REPO):
    return ['-std=c++17', '-w', f'-I{STUB}', f'-I{repo}/include', f'-I{repo}/src',
            f'-I{repo}/cmake']

# standard headers whose templates are inlined (pure control/data flow)
STD_INLINE_FILES = ('bits/stl_algobase.h', 'bits/stl_algo.h', 'bits/stl_numeric.h',
    'bits/stl_iterator.h', 'bits/stl_iterator_base_funcs.h',
    'bits/stl_iterator_base_types.h', 'bits/move.h', 'bits/utility.h',
    'cmath', 'bits/std_abs.h', 'array', 'bits/stl_pair.h', 'limits',
    'initializer_list', 'bits/range_access.h', 'bits/predefined_ops.h',
    'bits/cpp_type_traits.h', 'bits/stl_function.h', 'bits/ptr_traits.h',
    'tuple', 'bits/refwrap.h', 'bits/invoke.h', 'ext/type_traits.h', 'cstdlib')

# repo functions kept as calls (units of their own or modelled operations)
OPAQUE = [
    r'^(?:.* )?cci::compute<', r'^(?:.* )?knni::compute<',
    r'^(?:.* )?boundary::compute<',
    r'^(?:.* )?heap::maxheapify<', r'^(?:.* )?heap::sort<',
    r'^(?:.* )?xyzset::sort<', r'^(?:.* )?xyzset::validate_(?:xyzset|id|sort)<',
    r'votess::vtargs::(operator\[\]|vtargs|~vtargs|init)', r'votess::vtargref::',
    r'^(?:.* )?votess::dnn<[^>]*>::(print|savetxt)\(',
    r'^print_device\(',
]

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd[:3]), p.stderr.decode(errors='replace')[:4000]))
    return p.stdout

def demangle(names):
    names = list(names)
    out = run([f'{LLVM}/llvm-cxxfilt'], input='\n'.join(names).encode()).decode().split('\n')
    return dict(zip(names, out))

RE_DEF = re.compile(r'^define [^@]*@("[^"]+"|[\w.$]+)\(')
RE_DBG = re.compile(r' !dbg !(\d+)')

def compile_ll(src, out, defs=(), extra=(), repo=REPO):
    run([f'{LLVM}/clang++', *extra, *flags(repo), '-O1', '-Xclang', '-disable-llvm-passes',
         '-fno-discard-value-names', '-gline-tables-only', '-gcolumn-info', '-ffp-contract=off',
         *defs, '-S', '-emit-llvm', src, '-o', out])

def defaults(repo):
    """the documented default values, as the preprocessor sees them"""
    out = run([f'{LLVM}/clang++', *flags(repo), '-dM', '-E', '-x', 'c++', os.path.join(repo, 'include/arguments.hpp')]).decode(errors='replace')
    return ['-D%s=%s' % m for m in re.findall(r'^#define (ARGS_DEFAULT_\w+) (.+)$', out, re.M)]

def prepare(src_ll, out_ll, roots=r'^u_', opaque=OPAQUE, unroll=True, repo=REPO, keep_roots=None):
    txt = open(src_ll).read()
    al = dict(re.findall(r'^@("[^"]+"|[\w.$]+) = [^\n]*? alias [^\n]*, ptr @("[^"]+"|[\w.$]+)$', txt, re.M))
    if al:
        txt = re.sub(r'@("[^"]+"|[\w.$]+)\(', lambda m: '@' + al.get(m.group(1), m.group(1)) + '(', txt)
    lines = txt.split('\n')
    # metadata: subprogram -> file
    files, sps = {}, {}
    for l in lines:
        if l.startswith('!'):
            m = re.match(r'!(\d+) = !DIFile\(filename: "([^"]*)", directory: "([^"]*)"', l)
            if m:
                fn = m.group(2)
                files[m.group(1)] = fn if fn.startswith('/') else os.path.join(m.group(3), fn)
                continue
            m = re.match(r'!(\d+) = (?:distinct )?!DISubprogram\(name: "([^"]*)".*?file: !(\d+)', l)
            if m:
                sps[m.group(1)] = m.group(3)
    defs = {}
    for idx, l in enumerate(lines):
        if l.startswith('define '):
            m = RE_DEF.match(l)
            name = m.group(1).strip('"')
            d = RE_DBG.search(l)
            f = files.get(sps.get(d.group(1), ''), '') if d else ''
            defs[name] = (idx, os.path.normpath(f))
    dm = demangle(defs)
    ops = [re.compile(o) for o in opaque]
    info = {'inlined': 0, 'opaque': [], 'repo_functions': 0}
    opaque_syms = set()
    rr = re.compile(roots)
    for name, (idx, f) in defs.items():
        d = dm[name]
        inl = False
        if rr.match(name):
            continue
        if f.startswith((STUB + '/', STUB2 + '/', STUB3 + '/')) or f.startswith(HERE + '/drv/'):
            inl = True
        elif f.startswith(os.path.normpath(repo) + '/') or f.startswith(HERE + '/spec/'):
            info['repo_functions'] += 1
            if any(o.search(d) for o in ops) and not re.search(r'\)(?: const)?::', d):
                opaque_syms.add(name)
                info['opaque'].append(d)
            else:
                inl = True
        elif any(f.endswith('/' + h) for h in STD_INLINE_FILES) and '/c++/' in f:
            inl = True
        if 'std::initializer_list<' in d and '::' in d and f.endswith('/initializer_list'):
            inl = True
        if inl:
            info['inlined'] += 1
            l = lines[idx]
            lines[idx] = re.sub(r'\) ((?:local_unnamed_addr |unnamed_addr )?)(#\d+)', r') \1alwaysinline \2', l, count=1)
    # inside roots, opaque callees are inlined (one level)
    out = []
    inroot = False
    for l in lines:
        if l.startswith('define '):
            m = RE_DEF.match(l)
            inroot = bool(rr.match(m.group(1).strip('"')))
        elif l.startswith('}'):
            inroot = False
        # invoke -> call + br (exceptional edges are not analysed)
        if ' invoke ' in l or l.startswith('  invoke '):
            l = l.replace('invoke ', 'call ', 1)
        if l.startswith('          to label '):
            m = re.match(r'\s+to label (%\S+) unwind label [^,\s]+(.*)$', l)
            tail = m.group(2)
            prev = out.pop()
            # attach dbg of the invoke to the call
            out.append(prev + tail)
            l = f'  br label {m.group(1)}{tail}'
        if inroot and ' call ' in l and '@' in l:
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            if m and m.group(1).strip('"') in opaque_syms:
                l = re.sub(r'\)( #\d+)?((?:, ![^()]*)?)$', r') alwaysinline\1\2', l)
        out.append(l)
    mid = out_ll + '.mid.ll'
    open(mid, 'w').write('\n'.join(out))
    simp = 'simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=1;keep-loops>'
    core = f'sroa<modify-cfg>,early-cse<memssa>,{simp},instsimplify,jump-threading,{simp}'
    mid1 = out_ll + '.mid1.ll'
    run([f'{LLVM}/opt', '-S', f'-passes=always-inline,globaldce,function({core}),always-inline,function({core},loop-simplify,lcssa)', mid, '-o', mid1])
    if fold_same(mid1):
        run([f'{LLVM}/opt', '-S', f'-passes=function({core},loop-simplify,lcssa)', mid1, '-o', mid1 + '.n'])
        os.rename(mid1 + '.n', mid1)
    if unroll:
        passes = (f'function(loop(loop-rotate<no-header-duplication>),loop(loop-unroll-full),{core},'
                  f'{core},loop-simplify,lcssa)')
        for _ in range(4):      # innermost loops first
            if not mark_unroll(mid1, rr): break
            run([f'{LLVM}/opt', '-S', f'-passes={passes}', '-unroll-full-max-count=33', '-unroll-threshold=200000',
                 '-unroll-max-upperbound=33', mid1, '-o', mid1 + '.n'])
            os.rename(mid1 + '.n', mid1)
        shutil.copy(mid1, out_ll)
    else:
        shutil.copy(mid1, out_ll)
    os.unlink(mid1)
    os.unlink(mid)
    return info


def fold_same(path):
    """__sa_same(literal, literal) becomes a constant"""
    t = open(path).read()
    if '@__sa_same(' not in t: return False
    lit = dict(re.findall(r'^@("[^"]+"|[\w.$]+) = [^\n]*constant \[\d+ x i8\] c"((?:[^"\\]|\\..)*)\\00"', t, re.M))
    lit.update((m, '') for m in re.findall(r'^@("[^"]+"|[\w.$]+) = [^\n]*constant \[1 x i8\] zeroinitializer', t, re.M))
    def rep(m):
        a, b = lit.get(m.group(2)), lit.get(m.group(3))
        return m.group(0) if a is None or b is None else '%s = icmp eq i32 %d, 0%s' % (m.group(1), 0 if a == b else 1, m.group(4))
    t2 = re.sub(r'(%\S+) = (?:tail )?call [^@\n]*@__sa_same\(ptr [^@%\n]*@("[^"]+"|[\w.$]+), ptr [^@%\n]*@("[^"]+"|[\w.$]+)\)[^,\n]*((?:, ![^\n]*)?)', rep, t)
    open(path, 'w').write(t2)
    return t2 != t


def mark_unroll(path, rr, limit=32):
    """tag innermost loops of a small constant trip count, so that only those are rotated and unrolled"""
    import ir
    p = subprocess.run([f'{LLVM}/opt', '-passes=print<scalar-evolution>', '-scalar-evolution-classify-expressions=0',
                        '-disable-output', path], stderr=subprocess.PIPE)
    cand = {}; fn = None
    for l in p.stderr.decode(errors='replace').split('\n'):
        m = re.match(r'Determining loop execution counts for: @(.*)$', l)
        if m: fn = m.group(1).strip('"'); continue
        m = re.match(r'Loop %(\S+): (?:constant max )?backedge-taken count is (?:i\d+ )?(\d+)$', l)
        if m and fn and rr.match(fn) and 0 < int(m.group(2)) <= limit: cand.setdefault(fn, set()).add(m.group(1).strip('"'))
    if not cand: return False
    mod = ir.Module(path)
    latches = {}
    for fn, hs in cand.items():
        f = mod.func(fn)
        o = ir.rpo(f); d = ir.dominators(f, o); ls, inner = ir.loops(f, o, d)
        for L in ls:
            if L.h in hs and not any(C.parent is L for C in ls):
                for b in L.latches: latches.setdefault(fn, set()).add(b)
    if not latches: return False
    lines = open(path).read().split('\n')
    mx = max([int(m.group(1)) for l in lines for m in [re.match(r'!(\d+) = ', l)] if m], default=0)
    a, b_ = mx + 1, mx + 2
    cur = None; blk = None
    for n, l in enumerate(lines):
        if l.startswith('define '):
            m = RE_DEF.match(l); cur = latches.get(m.group(1).strip('"')); blk = 'entry'
        elif l.startswith('}'): cur = None
        elif cur:
            m = re.match(r'^("[^"]+"|[\w.$-]+):', l)
            if m: blk = m.group(1).strip('"')
            elif l.startswith('  br ') and blk in cur:
                l = re.sub(r', !llvm\.loop !\d+', '', l)
                lines[n] = l + f', !llvm.loop !{a}'
    lines.append(f'!{a} = distinct !{{!{a}, !{b_}}}')
    lines.append(f'!{b_} = !{{!"llvm.loop.vectorize.enable", i1 true}}')
    open(path, 'w').write('\n'.join(lines) + '\n')
    return True
