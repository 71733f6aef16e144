#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /repo's current source by static analysis; see DESIGN.md.
exit 0  nothing that was analysed breaks the property
exit 1  VIOLATION lines name the constructs that break it
exit 2  nothing could be analysed (never counts as a pass)
"""
import json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import units, rules

CELL = ['cell']; KNN = ['knn']; HEAP = ['heap']
UNITS = {      # property -> groups or single roots of units.GROUPS
    'C01': ['tcpu', 'tre', 'cell', 'knn', 'heap', 'bnd'],
    'C02': ['tcpu', 'tre'],
    'C03': ['cell', 'tcpu', 'tre', 'tgpu'],
    'C04': ['cell', 'tre', 'geom:u_sr_reached', 'geom:u_sr_update', 'ttop'],
    'C05': ['geom'],
    'C06': ['cell'],
    'C07': ['knn', 'heap'],
    'C08': ['heap'],
    'C09': ['grid:u_grid_sort'],
    'C10': ['grid', 'knn'],
    'C11': ['dnn'],
    'C12': ['cell', 'tfill', 'tcpu', 'tre', 'tgpu'],
    'C13': ['params', 'conv'],
    'C14': ['cli'],
    'C15': ['py', 'conv'],
    'C16': ['status'],
    'C17': ['ttop'],
    'C19': ['ttop'],
    'C20': ['heap', 'knn', 'bnd', 'cell', 'tgpu'],
    'C21': ['bnd'],
}

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    known = [l.rstrip('\n') for l in open(os.path.join(HERE, 'known-findings.txt'))] if os.path.exists(os.path.join(HERE, 'known-findings.txt')) else []
    kf = [k for k in known if k.startswith('finding: property=%s ' % pid)]
    results = []      # dict(status, where, rule, what, instance)
    explored = []; undecided = []; viol = []; framed = []
    sel = UNITS.get(pid, [])
    configs = [('float', 4000, seed)]
    if tier == 'thorough': configs = [('float', 16000, seed), ('double', 4000, seed), ('float', 4000, seed + 1000)]
    for tf, n, sd in configs:
        if not sel: break
        ctx = units.Ctx(tf=tf, n=n, seed=sd)
        try:
            groups = sorted({s.split(':')[0] for s in sel})
            ctx.prefetch(groups)
            for g in groups:
                try: roots = ctx.roots(g)
                except Exception as e:
                    print('internal: reference of %s: %s' % (g, str(e)[:300])); sys.exit(2)
                for r in roots:
                    if g not in sel and '%s:%s' % (g, r) not in sel: continue
                    d = units.decide(ctx, g, r)
                    rec = {'unit': r, 'group': g, 'verdict': d.status, 'coordinates': tf, 'seed': sd, 'seconds': round(d.s, 2)}
                    if d.metrics: rec.update(d.metrics)
                    if d.status == 'hold': rec['how'] = d.how; explored.append(rec)
                    elif d.status == 'undecided':
                        rec['why'] = (d.why or [])[:4]; undecided.append(rec)
                        if d.frame and not d.frame[0]: framed.append({'unit': r, 'group': g, 'verdict': 'frame only: writes no parameter or global and calls no outside function that its model does not', 'stores': d.frame[1][0], 'calls': d.frame[1][1]})
                    else:
                        rec['fails'] = [{'kind': f[0], 'file': f[5][0], 'line': f[5][1], 'what': f[6], 'differs_in': f[3], 'of': f[4]} for f in d.fails[:12]]
                        explored.append(rec)
                        f = d.fails[0]
                        viol.append({'rule': 'congruence with the reference model', 'instance': r, 'file': f[5][0], 'line': f[5][1],
                                     'what': '%s: %s differs from the reference in %d of %d valuations' % (r, f[6], f[3], f[4]), 'detail': rec})
        finally: ctx.close()
        if viol: break
    rstats = []
    for name, fn in rules.RULES.get(pid, []):
        try: r = fn(tier)
        except rules.Undecided as e: undecided.append({'rule': name, 'why': [str(e)[:300]]}); continue
        except Exception as e: undecided.append({'rule': name, 'why': ['%s: %s' % (type(e).__name__, str(e)[:300])]}); continue
        rstats.append({'rule': name, 'instances': r['instances'], 'analysed': r.get('analysed', [])[:40]})
        explored.append({'rule': name, 'instances': r['instances']})
        for v in r['violations']: viol.append(dict(v, rule=name))
    # identical reports once
    seen = set(); vs = []
    for v in viol:
        k = (v['rule'], v.get('instance'), v.get('file'), v.get('line'))
        if k not in seen: seen.add(k); vs.append(v)
    out = []; nk = 0
    for v in vs:
        key = '%s|%s' % (v['rule'], v.get('instance'))
        hit = [k for k in kf if ('[%s]' % key) in k]
        if hit: nk += 1; print('KNOWN-FINDING: property=%s %s' % (pid, hit[0].split('] ', 1)[-1])); continue
        out.append(v)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2), 'violations': len(out),
          'coverage': {'explanation': EXPL.get(pid, '') or EXPL['*'], 'units_compared': len([e for e in explored if 'unit' in e]),
                       'rule_instances': sum(e['instances'] for e in explored if 'rule' in e),
                       'units': [e for e in explored if 'unit' in e], 'rules': rstats, 'undecided': undecided, 'frames': framed,
                       'samples': ([e for e in explored if 'unit' in e][:2] + rstats[:2])},
          'assumptions': ASSUME}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for u in undecided: print('UNDECIDED %s: %s' % (u.get('unit') or u.get('rule'), '; '.join(u['why'])[:300]))
    if out:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % pid)
        with open(rp, 'w') as f: json.dump({'property': pid, 'command': 'python3 check.py %s %s' % (pid, tier), 'violations': out}, f, indent=1, default=str)
        for v in out: print('  %s:%s: [%s] %s' % (v.get('file'), v.get('line'), v['rule'], v['what']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    if not explored and not framed:
        print('property %s: nothing could be analysed' % pid); sys.exit(2)
    print('property %s holds on what was analysed: %d units, %d rule instances, %d undecided of which %d by their frame only (%.1fs)' % (
        pid, ev['coverage']['units_compared'], ev['coverage']['rule_instances'], len(undecided), len(framed), time.time() - t0))
    sys.exit(0)

EXPL = {'*': 'Each unit is a function of /repo, type-checked and lowered by clang together with everything it calls, turned into a '
        'value graph (one equation per loop state, memory object and observable) and proved congruent, by partition refinement with '
        'random-interpretation hashing, to the reference model in sa/spec. Nothing of /repo is linked or run. A unit without a one-to-one '
        'correspondence of loops and states is listed under undecided and claims nothing. Rules are syntactic or dataflow rules over '
        'the type-checked program; each reports its number of instances.'}
ASSUME = ['floating-point expressions are compared as real-number expressions (rounding is not modelled)',
          'standard containers and SYCL accessors behave as the models in sa/stub say; exceptional edges of calls are not followed in units',
          'congruence by random interpretation errs with probability below 2^-50 per comparison towards accepting',
          'vector sizes and positions are below 2^63']
NOTE = {'*': 'all inputs, no bounds on sizes or iterations; the property is decided as congruence of the type-checked code with a reference model of it, over real-number arithmetic; a restructured unit that cannot be matched is reported as undecided and claims nothing',
        '-': 'decided by rules over the type-checked program; each rule reports the instances it covered'}
if __name__ == '__main__': main()
