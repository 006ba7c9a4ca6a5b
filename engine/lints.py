"""Whole-program analyses over the type-checked syntax tree (tool/lint.cpp)."""
import json
import os
import re

import driver

API = os.path.join(driver.ROOT, 'witness', 'api.cpp')
CONFIGS = [('SUSA_NDEBUG',), (), ('SUSA_NDEBUG', 'SUSA_NASSERT')]


def _run(mode, defs):
    args = ['-std=c++17', '-I' + driver.REPO + '/inc', '-I' + driver.REPO, '-I' + os.path.join(driver.ROOT, 'witness'), '-ferror-limit=0', '-w'] + ['-D' + d for d in defs]
    r = driver.sh([driver.tool('lint'), mode, os.path.realpath(driver.REPO), API, '--'] + args + ['-resource-dir', driver.RES])
    if not r.stdout.strip():
        raise driver.CheckError('the effect analysis failed: ' + r.stderr[-800:])
    return json.loads(r.stdout), r.stderr


def shared(tier):
    """No modifiable state is shared between objects; constant operands are not modified."""
    counts, viol, und = {}, [], []
    for defs in CONFIGS:
        d, err = _run('shared', defs)
        for k, v in d['counts'].items():
            counts[k] = max(v, counts.get(k, 0))
        if d['errors']:
            und.append({'scenario': 'api.cpp ' + ' '.join(defs), 'why': '%d operations do not compile and were not analysed' % d['errors']})
        for v in d['violations']:
            if v not in viol:
                viol.append(v)
    n = counts.get('constant operands', 0) + counts.get('static variables', 0) + counts.get('atomic accesses', 0) + counts.get('library calls', 0)
    return dict(rule='effects on static storage, constant operands and atomics; non-reentrant library calls', obligations=n, discharged=n - len(viol), violations=viol, undecided=und, population=counts)


ERR = re.compile(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$')
NOTE = re.compile(r'^(\S+?):(\d+):\d+: note: in instantiation of (.*) requested here')


def usable(tier):
    """Every public operation type-checks for every supported element type."""
    src = open(API).read()
    uses = len(re.findall(r';', src[src.index('namespace api'):]))
    viol, n = [], 0
    root = os.path.realpath(driver.REPO) + '/'
    for defs in CONFIGS:
        d, err = _run('api', defs)
        n += uses
        cur = None
        for l in err.split('\n'):
            m = ERR.match(l)
            if m:
                f = m.group(1)
                cur = dict(kind='compile', file=f[len(root):] if f.startswith(root) else os.path.basename(f), line=int(m.group(2)), func='', detail=m.group(3) + (' [configuration %s]' % ' '.join(defs) if defs != CONFIGS[0] else ''))
                if not any(x['file'] == cur['file'] and x['line'] == cur['line'] for x in viol):
                    viol.append(cur)
                continue
            m = NOTE.match(l)
            if m and cur is not None and not cur['func']:
                cur['func'] = m.group(3)
    return dict(rule='each use of a public operation in witness/api.cpp type-checks', obligations=n, discharged=n - len(viol), violations=viol, configurations=[' '.join(c) or 'default' for c in CONFIGS])
