"""Rules over the type-checked program that are not unit comparisons.

A rule returns {'instances': n, 'violations': [{file, line, what, instance}],
'analysed': [...]}; it raises Undecided when the code is in a shape the rule
cannot read, and then claims nothing."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import build

REPO = build.REPO
from errors import Undecided
import flow, sout

# ---- C18: compile-fail and compile-pass witnesses ------------------------------
REAL = ['-isystem', '/opt/sycl/include', '-isystem', '/opt/sycl/include/sycl']
def _syntax(code, cxx='g++'):
    d = tempfile.mkdtemp(prefix='sa-w-')
    try:
        p = os.path.join(d, 'w.cpp'); open(p, 'w').write(code)
        r = subprocess.run([cxx, '-std=c++17', '-w', '-I%s/include' % REPO, '-I%s/src' % REPO, '-I%s/cmake' % REPO, *REAL, '-fsyntax-only', p],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode == 0, r.stdout.decode(errors='replace')
    finally: shutil.rmtree(d, ignore_errors=True)

def _loc(name):
    """file and line where an entity is defined, for reports"""
    for f in ('src/votess.ipp', 'src/dnn.ipp', 'src/knn.ipp'):
        p = os.path.join(REPO, f)
        if not os.path.exists(p): continue
        for n, l in enumerate(open(p, errors='replace'), 1):
            if re.search(name, l): return p, n
    return os.path.join(REPO, 'include/votess.hpp'), 1

W_TESS = '#include <votess.hpp>\nvoid w(std::vector<std::array<%(tf)s,3>>& x) { votess::tesellate<%(ti)s,%(tf)s>(x, votess::vtargs(), votess::device::cpu); }\n'
W_DNN0 = '#include <votess.hpp>\nvoid w() { votess::dnn<%(ti)s> d; }\n'
W_DNN1 = '#include <votess.hpp>\nvoid w(std::vector<%(ti)s>& a, std::vector<%(ti)s>& b) { votess::dnn<%(ti)s> d(a, b); }\n'
W_DNN2 = '#include <votess.hpp>\nvoid w(std::vector<%(ti)s> a, std::vector<%(ti)s> b) { votess::dnn<%(ti)s> d(std::move(a), std::move(b)); }\n'
W_KNN = '''#include <votess.hpp>
void w(std::vector<std::array<%(tf)s,3>>& x, std::vector<%(ti)s>& id, std::vector<%(tf)s>& pq, args::knn a)
{ knni::compute<%(ti)s,%(tf)s>(0, 0, x, 0, id, id, x, 0, id, pq, a); }
'''
W_KNND = '''#include <votess.hpp>
void w(device_accessor_read_t<%(tf)s>& x, device_accessor_read_t<%(ti)s>& id, device_accessor_readwrite_t<%(ti)s>& h, device_accessor_readwrite_t<%(tf)s>& pq, args::knn a)
{ knni::compute<%(ti)s,%(tf)s>(0, 0, x, 0, id, id, x, 0, h, pq%(o)s, a); }
'''
def c18(tier):
    ok = lambda t, **k: (t % k, True, k); bad = lambda t, **k: (t % k, False, k)
    base = [('tessellation', W_TESS, 'int', 'float')]
    J = []
    def add(what, t, ti, tf, want, loc, **k): J.append((what, t % dict(ti=ti, tf=tf, **k), ti, tf, want, loc))
    add('tessellation', W_TESS, 'int', 'float', True, r'^tesellate\(')
    for ti, tf in (('short', 'float'), ('int', 'double'), ('long', 'float'), ('long long', 'double')): add('tessellation', W_TESS, ti, tf, True, r'^tesellate\(')
    for ti in ('unsigned', 'unsigned short', 'unsigned long', 'bool', 'float', 'double') + (('unsigned char', 'unsigned long long', 'char32_t', 'long double') if tier == 'thorough' else ()):
        add('tessellation', W_TESS, ti, 'float', False, r'^tesellate\(')
        for n, w in (('default construction', W_DNN0), ('construction from vectors', W_DNN1), ('construction from moved vectors', W_DNN2)):
            if ti == 'bool' and w is not W_DNN0: continue
            add('result container, ' + n, w, ti, '-', False, r'dnn<Ti>::dnn\(')
    for ti in ('short', 'int', 'long', 'long long'):
        for n, w in (('default construction', W_DNN0), ('construction from vectors', W_DNN1), ('construction from moved vectors', W_DNN2)):
            add('result container, ' + n, w, ti, '-', True, r'dnn<Ti>::dnn\(')
    for tf in ('int', 'long', 'unsigned') + (('short', 'char', 'bool') if tier == 'thorough' else ()):
        add('tessellation', W_TESS, 'int', tf, False, r'^tesellate\(')
        if tf != 'bool': add('search', W_KNN, 'int', tf, False, r'knni::compute\(')
        if tf != 'bool':
            add('device search', W_KNND, 'int', tf, False, r'knni::compute\(', o='')
            add('device search with heap offset', W_KNND, 'int', tf, False, r'knni::compute\(', o=', 0')
    for tf in ('float', 'double'):
        add('search', W_KNN, 'int', tf, True, r'knni::compute\(')
        add('device search', W_KNND, 'int', tf, True, r'knni::compute\(', o='')
        add('device search with heap offset', W_KNND, 'int', tf, True, r'knni::compute\(', o=', 0')
    with ThreadPoolExecutor(8) as ex: R = list(ex.map(lambda j: _syntax(j[1]), J))
    if not R[0][0]: raise Undecided('the tessellation of int and float does not compile here: ' + R[0][1][:200])
    # a family of witnesses whose supported members do not compile any more says nothing about its rejections
    alive = {j[0] for j, r in zip(J, R) if j[4] and r[0]}
    V = []; n = 0; an = []
    for (what, code, ti, tf, want, loc), (got, log) in zip(J, R):
        if what.startswith(('search', 'device')) and what not in alive: continue     # internal signature changed
        n += 1; an.append('%s <%s, %s> %s' % (what, ti, tf, 'accepted' if got else 'rejected'))
        if got == want: continue
        f, l = _loc(loc)
        V.append({'file': f, 'line': l, 'instance': '%s <%s, %s>' % (what, ti, tf),
                  'what': '%s with index type %s and coordinate type %s %s' % (what, ti, tf, 'compiles although it must be rejected' if got else
                          'is rejected although it is supported: ' + (re.search(r'error: (.*)', log) or [0, ''])[1][:120])})
    return {'instances': n, 'violations': V, 'analysed': an}

RULES = {
    'C01': [('workers and their parent', flow.c01_threads)],
    'C17': [('typestate of standard output', sout.c17_stdout), ('calls that outlive the tessellation', sout.c17_calls),
            ('one-time initialisers', flow.c17_statics), ('state kept between calls', flow.c17_state)],
    'C18': [('compile-time witnesses', c18)],
}
