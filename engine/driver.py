"""Shared machinery of the checks: builds the AST extractor when it is missing,
extracts the specification scenarios together with the current library source,
and analyses every scenario in a pool of worker processes."""
import fcntl
import hashlib
import json
import itertools
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SUSA_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
LLVM = '/usr/lib/llvm-18'
CLANGXX = LLVM + '/bin/clang++'
RES = LLVM + '/lib/clang/18'

sys.path.insert(0, os.path.join(ROOT, 'engine'))


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def extractor():
    return tool('extract')


def tool(name):
    """Builds tool/<name>.cpp (once per content) against the installed clang libraries."""
    src = os.path.join(ROOT, 'tool', name + '.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, name + '-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        flags = sh([LLVM + '/bin/llvm-config', '--cxxflags']).stdout.split()
        flags = [f for f in flags if not f.startswith('-O') and not f.startswith('-std=')]
        tmp = out + '.tmp%d' % os.getpid()
        r = sh([CLANGXX, '-O0', '-std=c++17', '-fno-rtti', '-fno-exceptions'] + flags + [src, '-o', tmp, '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'])
        if r.returncode:
            raise CheckError('cannot build %s: %s' % (name, r.stderr[-2000:]))
        os.rename(tmp, out)
    return out


def clang_args(defs=()):
    return ['-std=c++17', '-I' + REPO + '/inc', '-I' + REPO, '-I' + os.path.join(ROOT, 'witness'), '-DSUSA_NDEBUG'] + ['-D' + d for d in defs]


def extract(src, defs=()):
    """-> (data, diagnostics)"""
    ex = extractor()
    path = src if os.path.isabs(src) else os.path.join(ROOT, 'witness', src)
    r = sh([ex, '--root=' + REPO, '--root=' + os.path.join(ROOT, 'witness'), path, '--'] + clang_args(defs) + ['-resource-dir', RES])
    if not r.stdout.strip():
        raise CheckError('nothing extracted from %s: %s' % (src, r.stderr[-1500:]))
    return json.loads(r.stdout), r.stderr


_progs = {}


def _load(unit):
    import interp
    if unit not in _progs:
        src, defs = unit
        data, diag = extract(src, defs)
        _progs[unit] = interp.Program(data)
        _progs[unit].diag = diag
        _progs[unit].raw = data
    return _progs[unit]


def scenarios(prog, data):
    return [(f['id'], f['n']) for f in data['functions'] if f['q'].startswith('spec::') and 'body' in f and len(f['n']) > 4 and f['n'][0] == 'P' and f['n'][1].isdigit()]


def _work(job):
    try:
        return _analyse(job)
    except Exception:
        return dict(scenario=job[2], unit=job[0], visited=[], paths=0, instances=0, error='internal: ' + traceback.format_exc()[-800:], wall=0, obls=[])


def _analyse(job):
    unit, fid, name, limit, deep, share = job
    import interp
    prog = _progs[unit]
    I = interp.Interp(prog, {'faults': True} if name.endswith('__fault') else None)
    t = time.time()
    I.deadline = t + limit
    err = ''
    n = 0
    try:
        if not sized(name):
            n = I.run_scenario(fid, name)
    except interp.TooComplex as ex:
        err = 'too complex: %s' % ex
    except interp.Unsupported as ex:
        err = 'unsupported: %s at %s' % (ex, getattr(I, 'lastwhere', ''))
    except MemoryError:
        err = 'memory'
    except RecursionError:
        err = 'too deep'
    except Exception as ex:
        err = 'internal: ' + traceback.format_exc()[-800:]
    if not name.endswith('__fault'):
        confirm(prog, fid, name, I, t + 3 * limit)
    ninst, left = 0, []
    if sized(name):
        quick = {'szm': 200, 'szu': 60, 'sz': 30}[sized(name)[0]]
        ninst, left = instances(prog, fid, name, I, quick if not deep else 400, 300 if not deep else 3000, keep=True, share=share)
        if not ninst:
            err = err or 'no fixed-size analysis finished'
    elif not name.endswith('__fault') and (deep or err or any(o.status == 'undecided' and interp.wanted(o.kind) for o in I.obls)):
        ninst, left = instances(prog, fid, name, I, 25 if not deep else 120, 150 if not deep else 1000)
    obls = []
    for o in I.obls:
        obls.append(dict(kind=o.kind, file=o.file, line=o.line, func=o.func, detail=o.detail, status=o.status, witness=repr(o.witness)[:400] if o.witness else None))
    vis = set()
    for x in I.visited:
        f = prog.funcs.get(x)
        if f and f.get('file', '').startswith(REPO):
            vis.add((os.path.relpath(f['file'], REPO), f.get('l', 0), f['q']))
    return dict(scenario=name, unit=unit, visited=sorted(vis), paths=n, instances=ninst, unfinished=['%s: %s' % x for x in left[:8]], error=err, wall=time.time() - t, obls=obls)


def confirm(prog, fid, name, I, deadline):
    """re-analyse each refutation at its witness sizes with every loop unrolled;
    one that does not reappear is a weakness of the analysis, not a finding"""
    import interp
    cache = {}
    for k, o in enumerate(list(I.obls)):
        if o.status != 'violated' or not isinstance(o.witness, dict) or not interp.wanted(o.kind):
            continue
        key = tuple(sorted((k, v) for k, v in o.witness.items() if isinstance(v, int)))
        r = cache.get(key)
        if r is None:
            J = interp.Interp(prog, {'fix': dict(key)})
            J.deadline = min(deadline, time.time() + 20)
            ok = True
            try:
                J.run_scenario(fid, name)
            except Exception:
                ok = False
            r = cache[key] = (J, ok)
        J, ok = r
        same = [p for p in J.obls if p.kind == o.kind and (p.line, p.func) == (o.line, o.func) and (o.kind != 'spec' or p.detail.split(':')[0] == o.detail.split(':')[0])]
        if any(p.status == 'violated' for p in same):
            continue
        if not same:
            same = [p for p in J.obls if p.kind == o.kind]
            if any(p.status == 'violated' for p in same):
                continue
        if not ok or any(p.status != 'proved' for p in same):
            continue
        I.obls[k] = o._replace(status='undecided', detail='not confirmed at %s: %s' % (dict(key), o.detail))


def sized(name):
    """suffix of a scenario analysed at fixed sizes only: (mode, number of parallel shares of the sizes)"""
    m = re.search(r'__(sz[mu]?)(\d*)$', name)
    return m and (m.group(1), int(m.group(2) or 1))


def instances(prog, fid, name, I, budget, count, keep=False, share=None):
    """the same analysis at a number of fixed sizes, every loop unrolled and the
    data still symbolic; adds the violations it finds to I.obls.
    Returns the number of finished assignments and the unfinished ones."""
    import interp
    import models
    import random
    t0 = time.time()
    suffix = (sized(name) or ('',))[0]
    tree = models.Choices(share)
    done = 0
    seen = set()
    slow = []

    def analyse(fix, tree, k, limit):
        J = interp.Interp(prog, {'fix': fix, 'choices': tree, 'inst': random.Random(k * 7919 + 13), 'lits': sorted(I.lits), 'hints': I.hints, 'big': (3, 2, 4, 2, 6, 2, 9, 2, 3, 40)[k % 10], 'tries': 120})
        if suffix == 'szm':
            J.opts.update(merge=True, tries=20)
        if not suffix:
            J.opts.update(sample=6, anyidx=k % 4 == 1)
        if suffix:
            J.opts.update(unroll=3000, paths=5000 if suffix == 'szu' else None)
        J.deadline = min(t0 + budget, time.time() + limit)
        why = ''
        try:
            J.finished = J.run_scenario(fid, name)
        except interp.TooComplex as ex:
            why = str(ex) or 'time'
        except Exception as ex:
            why = 'unsupported: %s' % ex
        I.lits |= J.lits
        I.visited |= J.visited
        return J, why or ('some paths only' if J.sampled else '')

    def record(J, fix, proved):
        for o in J.obls:
            if o.status == 'violated':
                w = dict(fix)
                if isinstance(o.witness, dict):
                    w.update(o.witness)
                I.obls.append(o._replace(witness=w))
            elif proved and keep:
                I.obls.append(o)
        return any(o.status == 'violated' and interp.wanted(o.kind) for o in J.obls)

    limit = budget if suffix == 'szm' else budget / 2 if suffix == 'szu' else budget / 4 if suffix else budget / 12
    runs = 0
    left = []
    for k in range(20 * count):
        if runs >= count or time.time() - t0 > budget:
            break
        fix = {}
        tree.start()
        t1 = time.time()
        J, why = analyse(fix, tree, k, limit)
        exhausted = tree.finish()
        runs += bool(J.obls) or time.time() - t1 > 0.05
        if not fix and k:
            break
        key = tuple(sorted(fix.items()))
        if key not in seen:
            seen.add(key)
            retry = why and time.time() - t1 > 0.9 * limit
            if retry:
                slow.append(dict(fix))
            elif why:
                left.append((fix, why))
            done += not why and J.finished > 0
            if record(J, fix, not retry):
                return done, left
        if exhausted:
            break
    for fix in slow:
        J = None
        if time.time() - t0 < budget:
            J, why = analyse(dict(fix), None, 0, budget)
            done += not why
            if why:
                left.append((fix, why))
            if record(J, fix, True):
                return done, left
        else:
            left.append((fix, 'time'))
    return done, left


def joined(rs):
    """one result for the shares of a scenario"""
    a = rs[0]
    for b in rs[1:]:
        a = dict(a, visited=sorted(set(a['visited']) | set(b['visited'])), instances=a['instances'] + b['instances'], unfinished=(a.get('unfinished', []) + b.get('unfinished', []))[:8],
                 error='' if a['instances'] + b['instances'] else a['error'] or b['error'], wall=max(a['wall'], b['wall']), obls=a['obls'] + b['obls'])
    return a


def run(units, want, limit, procs=8, deep=False, kinds=None):
    """units: [(src, defs)]; want(name) -> bool.  Returns results for all wanted scenarios."""
    t0 = time.time()
    with mp.Pool(min(procs, max(1, len(units)))) as p:
        datas = p.starmap(extract, units)
    import interp
    interp.KINDS[0] = set(kinds) if kinds else None
    jobs = []
    diags = {}
    for u, (data, diag) in zip(units, datas):
        prog = interp.Program(data)
        _progs[u] = prog
        diags[u] = diag
        for fid, name in scenarios(prog, data):
            if want(name):
                n = (sized(name) or (0, 1))[1]
                jobs += [(u, fid, name, limit, deep, (i, n)) for i in range(n)]
    heavy = ('awgn', 'nonuniform', 'mt_d', 'rng_d', 'shrink', 'convmtx', 'kron', 'det3', 'toeplitz2')
    jobs.sort(key=lambda j: (0 if any(h in j[2] for h in heavy) or j[5][1] > 1 else 1, j[2]))
    res = []
    ctx = mp.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=1) as p:
        for r in p.imap_unordered(_work, jobs, 1):
            res.append(r)
    res.sort(key=lambda r: (r['unit'], r['scenario']))
    res = [joined(list(g)) for _, g in itertools.groupby(res, key=lambda r: (r['unit'], r['scenario']))]
    return res, diags, time.time() - t0
