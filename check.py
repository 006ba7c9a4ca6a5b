#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of the library from /repo's current source and writes
evidence/<property>.json.  Exit 0: no violation; exit 1: VIOLATION line(s)."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.path.insert(0, ROOT)

import driver
from props import PROPS


def load_known():
    out = []
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e.get('status') == 'open':
                out.append(e)
    return out


def match(k, v):
    return all(k[x] in (v.get(x) or '') if x == 'detail' else k[x] == v.get(x) for x in ('property', 'scenario', 'kind', 'func', 'detail') if x in k)


def main():
    if sys.argv[1] == '--setup':
        print(driver.extractor())
        print(driver.tool('lint'))
        return 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = PROPS[pid]
    t0 = time.time()
    viol, undecided, cov = [], [], {}
    obligations = discharged = 0
    if P.get('units'):
        limit = P.get('limit', 40) if tier == 'quick' else 600
        pre = P['scenarios']
        want = (lambda n: True) if pre == '*' else (lambda n: n.split('_')[0] in pre)
        res, diags, wall = driver.run(P["units"], want, limit, deep=tier == "thorough", kinds=P.get("kinds"))
        kinds = P.get('kinds')
        funcs, seen = set(), set()
        nsc = 0
        for r in res:
            nsc += 1
            if r['error']:
                undecided.append({'scenario': r['scenario'], 'why': r['error'][:300]})
            for o in r['obls']:
                if kinds and o['kind'] not in kinds:
                    continue
                if not kinds and o['kind'] in P.get('skip_kinds', ()):
                    continue
                obligations += 1
                if o['func']:
                    funcs.add(o['func'])
                if o['status'] == 'proved':
                    discharged += 1
                elif o['status'] == 'violated':
                    v = dict(o, property=pid, scenario=r['scenario'])
                    key = (o['kind'], o['file'], o['line'], o['func'], o['detail'][:60]) if kinds else (r['scenario'], o['kind'], o['line'], o['detail'][:60])
                    if key not in seen:
                        seen.add(key)
                        viol.append(v)
                else:
                    k = (r['scenario'], o['kind'], o['line'])
                    if k not in seen:
                        seen.add(k)
                        undecided.append({'scenario': r['scenario'], 'kind': o['kind'], 'file': o['file'], 'line': o['line'], 'func': o['func'], 'detail': o['detail'][:300]})
        if nsc == 0 or obligations == 0:
            raise driver.CheckError('no scenario of %s could be analysed: %s' % (pid, ' '.join(d[-800:] for d in diags.values())))
        cov.update(scenarios=nsc, paths=sum(r['paths'] for r in res), functions_with_obligations=sorted(funcs)[:200], compile_diagnostics=[d[-600:] for d in diags.values() if d.strip()],
                   samples=[{'scenario': r['scenario'], 'obligations': len(r['obls']), 'proved': sum(1 for o in r['obls'] if o['status'] == 'proved'), 'paths': r['paths']} for r in res[:200]])
    for f in P.get('lints', ()):
        out = f(tier)
        obligations += out['obligations']
        discharged += out['discharged']
        for v in out['violations']:
            viol.append(dict(v, property=pid))
        undecided += out.get('undecided', [])
        cov.setdefault('analyses', []).append({k: out[k] for k in out if k not in ('violations', 'undecided')})
    known = load_known()
    new = []
    for v in viol:
        ks = [k for k in known if match(k, v)]
        if ks:
            ks[0]['hit'] = True
        else:
            new.append(v)
    printed = set()
    for k in known:
        if k['property'] == pid and k.get('hit') and k['what'] not in printed:
            printed.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    cov.update(obligations=obligations, discharged=discharged, checker_cmd='python3-vt check.py %s --tier %s' % (pid, tier),
               trusted_base=['clang 18 front end (AST)', 'engine/*.py abstract interpreter and its models of the standard library', 'witness/*.cpp specification scenarios'],
               explanation=P['explanation'], undecided_count=len(undecided), undecided=undecided[:60], known_findings=sorted(printed))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov, 'assumptions': P.get('assumptions', []) + ASSUME,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s tier=%s obligations=%d discharged=%d undecided=%d violations=%d known=%d wall=%.1fs' % (pid, tier, obligations, discharged, len(undecided), len(new), len(printed), time.time() - t0))
    if new:
        rp = os.path.join(ROOT, 'evidence', pid + '.violations.json')
        json.dump(new, open(rp, 'w'), indent=1)
        for v in new[:20]:
            print('  %s:%s in %s: [%s] %s%s%s' % (v.get('file'), v.get('line'), v.get('func'), v.get('kind'), v.get('detail', '')[:400], ' for ' + v['witness'] if v.get('witness') else '', ' (scenario %s)' % v['scenario'] if v.get('scenario') else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


ASSUME = ['sizes are small enough that index arithmetic does not overflow', 'floating-point values are treated as real numbers; no NaN inputs', 'allocation succeeds unless the scenario injects a failure']

if __name__ == '__main__':
    try:
        sys.exit(main())
    except driver.CheckError as e:
        print('ERROR: %s' % e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
