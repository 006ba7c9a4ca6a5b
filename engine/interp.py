"""Abstract interpreter over the resolved clang AST.

Trace-partitioned forward analysis; every loop is replaced by a summary
(closed forms, symbolic sums, folds, array region effects) that holds for all
trip counts; nothing is executed and no path condition is sent to a solver.
"""
import json
import random
import sys
import time
from collections import namedtuple, OrderedDict
from terms import *
from facts import *
import facts as F
from arrays import *
from cases import by_cases
from bits import has_bits, decide as bits_decide

sys.setrecursionlimit(20000)

LV = namedtuple('LV', 'loc path')
INT64 = ('int', 64, False)


class Unsupported(Exception):
    pass


class TooComplex(Unsupported):
    pass


DBG = False


class Ctl(Exception):
    pass


class ReturnEx(Ctl):
    def __init__(self, v):
        self.v = v


class BreakEx(Ctl):
    pass


class ContinueEx(Ctl):
    pass


class ThrowEx(Ctl):
    def __init__(self, v):
        self.v = v


class LoopExit(Ctl):
    pass


class AbortEx(Exception):
    def __init__(self, why):
        self.why = why


class Infeasible(Exception):
    pass


class Rec:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Rec(self.t, d)

    def vsubst(self, mp):
        return Rec(self.t, {k: vsubst(v, mp) for k, v in self.f.items()})

    def vfree(self):
        s = set()
        for v in self.f.values():
            s |= valfree(v)
        return s

    def __eq__(self, o):
        return isinstance(o, Rec) and self.f == o.f

    def __hash__(self):
        return hash(tuple(sorted(self.f.items(), key=lambda t: t[0])))

    def __repr__(self):
        return '{%s}' % ', '.join('%s=%r' % kv for kv in self.f.items())


class Ptr:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def vsubst(self, mp):
        if self.lv is None:
            return self
        return Ptr(LV(self.lv.loc, tuple(subst(p, mp) if isinstance(p, Poly) else p for p in self.lv.path)))

    def vfree(self):
        s = set()
        if self.lv is not None:
            for p in self.lv.path:
                if isinstance(p, Poly):
                    s |= free_syms(p)
        return s

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.lv == o.lv

    def __hash__(self):
        return hash(self.lv)

    def __repr__(self):
        return 'Ptr(%r)' % (self.lv,)


NULL = Ptr(None)


class RefV:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, RefV) and self.lv == o.lv

    def __hash__(self):
        return hash(self.lv)

    def vsubst(self, mp):
        return RefV(Ptr(self.lv).vsubst(mp).lv)

    def vfree(self):
        return Ptr(self.lv).vfree()


class Opaque:
    __slots__ = ('kind', 'data')

    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.kind == o.kind and self.data == o.data

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return 'Opaque(%s)' % self.kind


class Lambda:
    def __init__(self, fid, caps):
        self.fid, self.caps = fid, caps


Block = namedtuple('Block', 'n content ety alive kind uid')


class Objs(tuple):
    """content of a block of class objects (fixed number)"""


class State:
    __slots__ = ('mem', 'facts', 'ctr')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.ctr = 0

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.ctr = self.ctr
        return s


class Program:
    def __init__(self, data):
        self.types = data['types']
        self.funcs = {f['id']: f for f in data['functions']}
        self.recs = {r['id']: r for r in data['records']}
        self.globals = {g['d']: g for g in data['globals'] if 'd' in g}
        self.byname = {}
        for f in data['functions']:
            self.byname.setdefault(f['q'], []).append(f)

    def T(self, i):
        return self.types[i]

    def rec_of(self, t):
        ty = self.types[t]
        return self.recs.get(ty.get('rec'))


KINDS = [None]      # the kinds of obligation the current property is about; None: all


def wanted(kind):
    return KINDS[0] is None or kind in KINDS[0]


Obl = namedtuple('Obl', 'kind file line func detail status witness scenario')


class Interp:
    MAXPATHS = 160

    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = dict(assume_asserts=True, faults=False)
        self.lits = set()
        self.hints = {}
        self.opts.update(opts or {})
        self.st = State()
        self.trace, self.pos, self.pathconds = [], 0, []
        self.depth = 0
        self.sampled = False
        self.order = random.Random(5) if self.opts.get('inst') else None
        self.frames = []
        self.quiet = 0
        self.obls = []
        self.temps = []
        self.callstack = []
        self.scenario = ''
        self.nloops = 0
        self.misuse = False
        self.loops_havoc = []
        self.curline = None
        self.steps = 0
        self.maxsteps = 4000000
        self.deadline = None
        self.hooks = {}
        self.visited = set()
        self.static_locals = {}
        self.global_writes = []
        self.sites = {}
        import models
        self.models = models

    # ------------------------------------------------------------ exploration
    def explore(self, fn, base, maxpaths=None):
        saved = (self.trace, self.pos, self.pathconds, self.st, self.temps, list(self.frames))
        results = []
        trace = []
        n = 0
        sample = 0
        began = time.time()
        if self.order and not self.depth:
            sample = self.opts.get('sample', 0)
        self.depth += 1
        try:
            while True:
                n += 1
                if sample and (n > 2 * sample or n > 2 and time.time() - began > 0.5):
                    self.sampled = True
                    break
                if n > (maxpaths or self.opts.get('paths') or self.MAXPATHS):
                    raise TooComplex('path budget')
                self.trace, self.pos, self.pathconds = trace, 0, []
                self.st = base.copy()
                self.temps = []
                self.frames = [fr.copy() for fr in saved[5]]
                out = None
                try:
                    v = fn()
                    out = ('normal', v)
                except LoopExit:
                    out = ('exit', None)
                except BreakEx:
                    out = ('break', None)
                except ContinueEx:
                    out = ('continue', None)
                except ReturnEx as r:
                    out = ('return', r.v)
                except ThrowEx as r:
                    out = ('throw', r.v)
                except AbortEx as a:
                    out = ('abort', a.why)
                except Infeasible:
                    out = None
                if out is not None:
                    results.append((out[0], out[1], self.st, list(self.pathconds), [fr for fr in self.frames]))
                trace = self.trace
                while trace and trace[-1][1]:
                    trace.pop()
                if not trace:
                    break
                if sample and (n >= sample or time.time() - began > 0.3):
                    trace = []      # the rest: independent random paths
                else:
                    trace[-1] = (not trace[-1][0], True)
        finally:
            (self.trace, self.pos, self.pathconds, self.st, self.temps, fr) = saved
            self.frames = fr
            self.depth -= 1
        return results

    def choose(self, c):
        """fork on cond c (undecided)"""
        if self.pos < len(self.trace):
            b = self.trace[self.pos][0]
        else:
            # at fixed sizes the order is random: an exploration cut short has then seen either outcome of most conditions
            b = self.order.random() < 0.5 if self.order else True
            self.trace.append((b, False))
        self.pos += 1
        cc = c if b else c_not(c)
        self.st.facts.add(cc)
        self.pathconds.append(cc)
        return b

    def decide(self, c):
        q = self.st.facts.decide(c)
        if q is not None:
            return q
        if c.op in ('and', 'or') and self.quiet < 50:
            # structured fork keeps facts atomic
            if c.op == 'and':
                for x in c.args:
                    if not self.decide(x):
                        return False
                return True
            for x in c.args:
                if self.decide(x):
                    return True
            return False
        self.taint_check(c)
        return self.choose(c)

    def taint_check(self, c):
        u = undef_atoms(c)
        if u:
            self.oblige('uninit-branch', None, 'branch depends on a value that was never written: %r' % (c,), force=c)

    # ------------------------------------------------------------ obligations
    def where(self):
        for fr in reversed(self.frames):
            return fr.fn.get('file', '?').split('/')[-1], self.curline, fr.fn['q']
        return '?', 0, '?'

    def oblige(self, kind, cond, detail, force=None, extra=()):
        """cond: Cond which must hold.  records proven / violated / undecided"""
        if self.quiet:
            return
        f, l, q = self.where()
        if cond is not None:
            r = self.st.facts.decide(cond)
            if r is True:
                self.obls.append(Obl(kind, f, l, q, '', 'proved', None, self.scenario))
                return
        w = None
        status = 'undecided'
        conds = self.path_conditions()
        if conds is not None:
            bad = (lambda env: not ev_cond(cond, env)) if cond is not None else (lambda env: any_undef(force, env))
            polys = [] if cond is None else [p for p in self.polys_of(cond)]
            if not any_taint(list(conds) + [cond] if cond is not None else list(conds)):
                env = find_witness(conds, bad, polys=polys, tries=self.opts.get('tries', 250))
                if env is not None:
                    status = 'violated'
                    w = show_env(env)
        self.obls.append(Obl(kind, f, l, q, detail if cond is None else '%s: need %r' % (detail, cond), status, w, self.scenario))

    def polys_of(self, c):
        return [x for x in children(c.op, c.args) if isinstance(x, Poly)]

    def path_conditions(self):
        out = []
        for c in self.st.facts.conds:
            if has_havoc(c):
                if c.op in ('dgt', 'dge', 'deq') or (c.op == 'not' and c.args[0].op == 'deq') or c.op == 'exists':
                    continue
                return None
            out.append(c)
        return out

    # ------------------------------------------------------------ specification checks
    def check_eq(self, label, x, y):
        if not wanted('spec'):
            return
        if isinstance(x, Cond) or isinstance(y, Cond):
            x, y = (v if isinstance(v, Cond) else to_cond(v) for v in (x, y))
            return self.check_cond(label, c_iff(x, y))
        if isinstance(x, Cx) or isinstance(y, Cx):
            x, y = to_cx(x), to_cx(y)
            pairs = [(x.re, y.re), (x.im, y.im)]
        else:
            pairs = [(x, y)]
        for a, b in pairs:
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                raise Unsupported('eq of %r %r' % (a, b))
            self.st.facts.pin(free_syms(a) | free_syms(b))
            d = trig(simplify(a, self.st.facts) - simplify(b, self.st.facts))
            d = simplify(d, self.st.facts)
            if d is not ZERO and self.st.facts.sol:
                d = trig(simplify(subst(d, self.st.facts.sol), self.st.facts))
            if d is ZERO or self.st.facts.decide(c_eq(d, is_intlike(d))) is True or has_inv(d) and rational_zero(d) or self.by_bits(c_eq(d, True) if is_intlike(d) else None) or (
                    not self.quiet and by_cases(c_eq(d, is_intlike(d)), self.st.facts)):
                self.record('spec', 'proved', label, None)
                continue
            self.refute(label, '%s != %s' % (show(a)[:300], show(b)[:300]), [a, b],
                        lambda env, a=a, b=b: differs(a, b, env))

    def check_cond(self, label, c):
        if not wanted('spec'):
            return
        self.st.facts.pin(free_syms(c))
        c2 = simplify(c, self.st.facts)
        if self.st.facts.decide(c2) is True or self.by_bits(c2) or (not self.quiet and by_cases(c2, self.st.facts)):
            self.record('spec', 'proved', label, None)
            return
        self.refute(label, 'need %s' % show_cond(c)[:300], self.polys_of(c),
                    lambda env: not ev_cond(c, env), cond=c)

    def by_bits(self, c):
        if c is None or self.quiet or not has_bits(c):
            return False
        return bits_decide(self.st.facts.conds, c)[0] is True

    def refute(self, label, detail, polys, bad, cond=None):
        if self.quiet:
            return
        conds = self.path_conditions()
        w, status = None, 'undecided'
        terms = list(polys) + ([cond] if cond is not None else [])
        if conds is not None and not any_taint(conds) and not any_taint(terms) and not any(has_havoc(t) for t in terms):
            env = find_witness(conds, bad, polys=terms, tries=self.opts.get('tries', 250))
            if env is not None:
                status, w = 'violated', show_env(env)
        self.record('spec', status, label, w, detail)

    def record(self, kind, status, label, w, detail=''):
        if self.quiet:
            return
        f, l, q = self.where()
        self.obls.append(Obl(kind, f, l, q, (label + ': ' + detail) if detail else label, status, w, self.scenario))

    def run_scenario(self, fid, name):
        self.scenario = name
        base = State()

        TAB[0] = self.opts.get('fix') is not None
        F.NOLP[0] = bool(self.opts.get('merge'))

        def go():
            self.misuse = False
            self.escaped = set()
            try:
                return self.run_function(fid)
            finally:
                self.curline = None
        def wrapped():
            v = go()
            self.leak_check()
            return v
        res = self.explore(wrapped, base)
        for kind, v, st, pcs, fr in res:
            if kind == 'throw':
                self.st = st
                self.oblige('uncaught', FALSE, 'exception escapes: %r' % (v,))
        return len(res)

    def leak_check(self):
        roots = set()
        for k, lv in self.st.mem.items():
            if isinstance(k, tuple) and k[0] in ('static', 'glob') and isinstance(lv, LV):
                v = self.st.mem.get(lv.loc)
                if isinstance(v, Ptr) and v.lv is not None:
                    roots.add(v.lv.loc)
        for loc, v in self.st.mem.items():
            if isinstance(v, Block) and v.alive and v.kind in ('alloc', 'new', 'newarr', 'malloc') and loc not in roots:
                if v.uid in self.escaped:
                    self.record('leak', 'undecided', 'storage handed to unmodelled code', None)
                    return
                self.oblige('leak', FALSE, 'storage (%s of %s) obtained in %s is never released' % (v.kind, show(v.n), self.origin(v)))
                return
        self.record('leak', 'proved', 'all storage released', None)

    def origin(self, b):
        return self.sites.get(b.uid, '?')

    # ------------------------------------------------------------ memory
    def newloc(self, v, t=None):
        self.st.ctr += 1
        loc = self.st.ctr
        self.st.mem[loc] = v
        if t is not None:
            self.st.mem[('t', loc)] = t
        return loc

    def fresh(self, name, ty=INT64, n=None, taint=False, facts=None):
        self.st.ctr += 1
        nm = '%s.%d%s' % (name, self.st.ctr, '' if n is None else '.%d' % n.id)
        if n is None and facts is None:
            nm += '~'
        if facts is not None:
            nm += '~%d' % next(_ctr2)
        s = sym(nm, ty, taint=taint)
        if n is not None:
            add_sym_fact(s, n - 1 - s)
        if facts:
            add_sym_fact(s, *facts)
        return s

    def value_undef(self, t, uid):
        ty = self.prog.T(t)
        k = ty['k']
        if k in ('int', 'float'):
            return atom_poly(mk_atom('undef', (uid,), self.aty(t)))
        if k == 'bool':
            return Cond.make('batom', 'undef', uid)
        if k == 'ptr':
            return Opaque('undefptr', uid)
        if k == 'rec':
            if self.is_complex(t):
                return Cx(ZERO, ZERO)
            v = self.models.nested_init(self, t, uid)
            if v is not None:
                return v
            return self.rec_undef(t, uid)
        if k == 'array':
            return Block(P(ty['n']), undef(uid, self.is_complex(ty['to']), self.aty(ty['to'])), ty['to'], True, 'local', uid)
        return Opaque('undef', uid)

    def rec_undef(self, t, uid):
        r = self.prog.rec_of(t)
        f = {}
        if r and 'fields' in r:
            for b in r.get('bases', []):
                bv = self.rec_undef(b, uid)
                if isinstance(bv, Rec):
                    f.update(bv.f)
            for x in r['fields']:
                fv = self.value_undef(x['t'], '%s.%s' % (uid, x['n']))
                if self.prog.T(x['t'])['k'] == 'array':
                    # inline array: separate block
                    loc = self.newloc(fv)
                    fv = RefV(LV(loc, ()))
                f[x['n']] = fv
        return Rec(t, f)

    def is_complex(self, t):
        if t is None:
            return False
        ty = self.prog.T(t)
        return ty['k'] == 'rec' and ty.get('name') == 'std::complex'

    def aty(self, t):
        """atom type for elements of C++ type t"""
        if t is None:
            return ('int', 8, False)
        ty = self.prog.T(t)
        if ty['k'] == 'int':
            return ('int', ty['bits'], ty['sg'])
        if ty['k'] == 'bool':
            return ('int', 1, False)
        if self.is_complex(t) and ty.get('targs'):
            return self.aty(ty['targs'][0]['type'])
        return ('float',)

    def getpath(self, v, path, lv, want_t=None):
        for i, s in enumerate(path):
            if isinstance(v, RefV):
                v = self.load(v.lv)
            if isinstance(s, Poly):
                if isinstance(v, Block):
                    v = self.read_block(v, s)
                else:
                    if s is ZERO:
                        continue
                    raise Unsupported('index into scalar')
            else:
                if isinstance(v, Cx):
                    raise Unsupported('field of complex')
                if not isinstance(v, Rec):
                    raise Unsupported('field %s of %r' % (s, v))
                if s not in v.f:
                    raise Unsupported('no field %s' % s)
                v = v.f[s]
        return v

    def read_block(self, b, idx):
        self.check_access(b, idx, 'read')
        if isinstance(b.content, Objs):
            return b.content[self.obj_index(b, idx)]
        cx = self.is_complex(b.ety)
        if b.ety is None:
            raise Unsupported('access to untyped storage')
        k = self.prog.T(b.ety)['k']
        r = read(b.content, idx, self.st.facts, cx=cx, ty=self.aty(b.ety))
        if k == 'bool' and isinstance(r, Poly):
            r = to_cond(r)
        return r

    def obj_index(self, b, idx):
        idx = simplify(idx, self.st.facts)
        if idx.is_const():
            k = idx.const()
            if not 0 <= k < len(b.content):
                self.check_access(b, idx, 'use')
                raise Infeasible()
            return k
        self.check_access(b, idx, 'use')
        for i in range(len(b.content) - 1):
            if self.decide(c_eq(idx - i)):
                return i
        return len(b.content) - 1

    def check_access(self, b, idx, what):
        if not b.alive:
            self.oblige('use-after-free', FALSE, '%s of released storage' % what)
            raise Infeasible()
        c = c_and(c_ge(idx), c_ge(b.n - 1 - idx))
        self.oblige('bounds', c, '%s of element %s of a block of %s elements' % (what, show(idx), show(b.n)))
        q = self.st.facts.decide(c)
        if q is False:
            raise Infeasible()
        if q is None:
            self.st.facts.add(c)

    def load(self, lv):
        if lv is None:
            self.oblige('null', FALSE, 'null pointer dereferenced')
            raise Infeasible()
        if lv.loc not in self.st.mem:
            raise Unsupported('dangling loc')
        v = self.st.mem[lv.loc]
        v = self.getpath(v, lv.path, lv)
        if isinstance(v, RefV):
            # reference member
            return self.load(v.lv)
        return v

    def store(self, lv, val):
        if lv is None:
            self.oblige('null', FALSE, 'store through a null pointer')
            raise Infeasible()
        self.note_write(lv)
        if lv.loc not in self.st.mem:
            raise Unsupported('dangling loc')
        self.st.mem[lv.loc] = self.setpath(self.st.mem[lv.loc], lv.path, val)

    def note_write(self, lv):
        g = self.hooks.get('globals')
        if g and lv.loc in g:
            self.global_writes.append((g[lv.loc],) + self.where())

    def setpath(self, v, path, val):
        if isinstance(v, RefV) and path:
            self.store(LV(v.lv.loc, v.lv.path + path), val)
            return v
        if not path:
            if isinstance(v, RefV) and not isinstance(val, RefV):
                self.store(v.lv, val)
                return v
            if isinstance(v, Block) and not isinstance(val, Block):
                raise Unsupported('assign to array')
            return val
        s = path[0]
        if isinstance(s, Poly):
            if isinstance(v, Block):
                self.check_access(v, s, 'write')
                if isinstance(v.content, Objs):
                    i = self.obj_index(v, s)
                    o = list(v.content)
                    o[i] = val if len(path) == 1 else self.setpath(o[i], path[1:], val)
                    return v._replace(content=Objs(o))
                if len(path) == 1:
                    nv = val
                else:
                    cur = read(v.content, s, self.st.facts, cx=self.is_complex(v.ety), ty=self.aty(v.ety))
                    nv = self.setpath(cur, path[1:], val)
                if isinstance(nv, Cond):
                    nv = cond_to_poly(nv)
                return v._replace(content=store(v.content, s, nv))
            if s is ZERO:
                return self.setpath(v, path[1:], val)
            raise Unsupported('index store')
        if not isinstance(v, Rec):
            raise Unsupported('set field %s of %r' % (s, v))
        if s not in v.f:
            raise Unsupported('no field ' + s)
        return v.with_(s, self.setpath(v.f[s], path[1:], val))

    # ------------------------------------------------------------ allocation
    def alloc_block(self, n, ety, kind):
        self.st.ctr += 1
        uid = 'h%d' % self.st.ctr
        self.sites[uid] = '%s:%s (%s)' % self.where()
        content = undef(uid, self.is_complex(ety), self.aty(ety))
        loc = self.newloc(Block(P(n), content, ety, True, kind, uid))
        return Ptr(LV(loc, (ZERO,)))

    def free_block(self, p, kind, n=None):
        if isinstance(p, Opaque):
            self.oblige('bad-free', FALSE, 'release of an uninitialised pointer')
            raise Infeasible()
        if p.lv is None:
            if kind == 'alloc':
                # deallocate(nullptr, n) is not allowed by the allocator contract when n>0
                self.oblige('bad-free', FALSE if n is None or self.st.facts.decide(c_eq(n)) is not True else TRUE, 'allocator deallocate called with a null pointer')
            return
        b = self.st.mem.get(p.lv.loc)
        if not isinstance(b, Block):
            raise Unsupported('free of non-block')
        if not b.alive:
            self.oblige('double-free', FALSE, 'storage released twice')
            raise Infeasible()
        off = p.lv.path[-1] if p.lv.path else ZERO
        ok = {'alloc': 'alloc', 'delete': 'new', 'delete[]': 'newarr', 'free': 'malloc'}[kind]
        self.oblige('bad-free', TRUE if ok == b.kind and off is ZERO else FALSE, '%s used on storage from %s' % (kind, b.kind))
        if kind == 'alloc' and n is not None:
            self.oblige('dealloc-size', c_eq(n - b.n), 'storage of %s elements released as %s elements' % (show(b.n), show(n)))
        self.st.mem[p.lv.loc] = b._replace(alive=False)

    # ------------------------------------------------------------ frames
    def run_function(self, fid, this=None, args=(), node=None):
        """args: list of values/LVs matching parameters"""
        f = self.prog.funcs.get(fid)
        if f is None or 'body' not in f:
            raise Unsupported('no body: %s' % (f and f['q']))
        if len(self.callstack) > 60:
            raise TooComplex('call depth')
        if self.callstack.count(fid) >= 1 and f['q'] in self.hooks.get('recursive', ()):
            return self.hooks['recursive'][f['q']](self, f, args)
        if self.callstack.count(fid) >= (12 if self.opts.get('fix') is not None else 2):
            raise Unsupported('recursion: ' + f['q'])
        self.visited.add(fid)
        fr = Frame(f, this)
        if isinstance(this, LV) and not this.path:
            o = self.st.mem.get(this.loc)
            if isinstance(o, Opaque) and o.kind == 'lambda':
                fr.outer, fr.this = o.data.caps, o.data.caps.get('this')
        line0 = self.curline
        self.frames.append(fr)
        self.callstack.append(fid)
        ntemps = len(self.temps)
        depth = len(self.frames)
        adopted = []
        ret = None
        try:
            for p, a in zip(f['p'], args):
                self.bind_param(fr, p, a, adopted)
            try:
                if f.get('mk') == 'ctor':
                    self.run_inits(f, fr)
                self.exec(f['body'])
            except ReturnEx as r:
                ret = r.v
            except ThrowEx:
                self.unwind(self.frames[depth - 1], this, adopted, ntemps)
                raise
            if f.get('mk') == 'dtor':
                self.destroy_fields(this, f['cls'])
        finally:
            fr = self.frames[depth - 1]
            del self.frames[depth - 1:]
            self.callstack.pop()
            self.curline = line0
        for lv, t in reversed(adopted):
            self.destroy(lv, t)
        return ret

    def unwind(self, fr, this, adopted, ntemps):
        """an exception leaves a function: temporaries, members and bases built so far and parameters die"""
        self.end_temps(ntemps)
        for kind, x, t in reversed(fr.built):
            self.destroy(this if kind == 'base' else LV(this.loc, this.path + (x,)), t)
        for lv, t in reversed(adopted):
            self.destroy(lv, t)

    def bind_param(self, fr, p, a, adopted):
        ty = self.prog.T(p['t'])
        if ty['k'] == 'ref':
            if not isinstance(a, LV):
                a = LV(self.newloc(a), ())
            fr.env[p['d']] = a
        else:
            if isinstance(a, LV):   # record prvalue temp
                if a.loc in self.temps:
                    self.temps.remove(a.loc)
                    fr.env[p['d']] = a
                    adopted.append((a, p['t']))
                else:
                    v = self.load(a)
                    lv = LV(self.newloc(v, p['t']), ())
                    fr.env[p['d']] = lv
            else:
                fr.env[p['d']] = LV(self.newloc(a, p['t']), ())

    def run_inits(self, f, fr):
        this = fr.this
        for i in f.get('inits', []):
            if 'f' in i:
                self.init_field(this, i['f'], i['ft'], i['e'])
                if self.prog.T(i['ft'])['k'] == 'rec':
                    self.frames[-1].built.append(('field', i['f'], i['ft']))
            elif 'base' in i:
                e = i['e']
                if e is None:
                    continue
                if e['k'] == 'cleanups':
                    e = e['e']
                if e['k'] == 'ctor':
                    self.construct(e, this)
                    self.frames[-1].built.append(('base', None, e['t']))
            elif i.get('deleg'):
                e = i['e']
                if e['k'] == 'cleanups':
                    e = e['e']
                self.construct(e, this)
                self.frames[-1].built.append(('base', None, e['t']))

    def init_field(self, this, name, ft, e):
        lv = LV(this.loc, this.path + (name,))
        ty = self.prog.T(ft)
        n0 = len(self.temps)
        if e is None:
            return
        if e['k'] == 'cleanups':
            e = e['e']
        if ty['k'] == 'ref':
            x = self.eval(e)
            obj = self.st.mem[this.loc]
            cur = self.getpath(obj, this.path, this)
            self.st.mem[this.loc] = self.putraw(obj, this.path + (name,), RefV(x))
        elif ty['k'] == 'rec' and not self.is_complex(ft):
            self.init_record(lv, ft, e)
        elif ty['k'] == 'array':
            if e['k'] in ('initlist',):
                cur = self.getpath(self.st.mem[this.loc], this.path, this).f[name]
                b = self.st.mem[cur.lv.loc]
                self.st.mem[cur.lv.loc] = self.init_array(b, e)
            elif e['k'] == 'zero':
                cur = self.getpath(self.st.mem[this.loc], this.path, this).f[name]
                b = self.st.mem[cur.lv.loc]
                self.st.mem[cur.lv.loc] = b._replace(content=mkc('const', self.zero_of(b.ety)))
            elif e['k'] == 'ctor' and e.get('dc'):
                pass
            elif e['k'] == 'arrcopy':
                x = self.eval(e['e'])
                src = self.load(x) if isinstance(x, LV) else x
                if isinstance(src, Ptr):
                    src = self.st.mem[src.lv.loc]
                cur = self.getpath(self.st.mem[this.loc], this.path, this).f[name]
                if not isinstance(src, Block):
                    raise Unsupported('array copy')
                b = self.st.mem[cur.lv.loc]
                self.st.mem[cur.lv.loc] = b._replace(content=src.content)
            else:
                raise Unsupported('array field init ' + e['k'])
        else:
            v = self.rval(e, ft)
            self.st.mem[this.loc] = self.putraw(self.st.mem[this.loc], this.path + (name,), v)
        self.end_temps(n0)

    def putraw(self, v, path, val):
        if not path:
            return val
        s = path[0]
        if isinstance(s, Poly):
            if isinstance(v, Block) and isinstance(v.content, Objs):
                i = self.obj_index(v, s)
                o = list(v.content)
                o[i] = self.putraw(o[i], path[1:], val)
                return v._replace(content=Objs(o))
            return self.setpath(v, path, val)
        return v.with_(s, self.putraw(v.f.get(s), path[1:], val))

    def zero_of(self, t):
        ty = self.prog.T(t)
        if ty['k'] == 'bool':
            return ZERO
        if self.is_complex(t):
            return Cx(ZERO, ZERO)
        if ty['k'] == 'ptr':
            return NULL
        return ZERO

    def init_array(self, b, e):
        c = b.content
        if 'fill' in e or e['k'] == 'zero':
            c = mkc('const', self.zero_of(b.ety))
        for i, x in enumerate(e.get('a', [])):
            if x is None or x['k'] == 'zero':
                c = store(c, P(i), self.zero_of(b.ety))
            else:
                v = self.rval(x, b.ety)
                if isinstance(v, Cond):
                    v = cond_to_poly(v)
                c = store(c, P(i), v)
        n = b.n
        return b._replace(content=c)

    # ------------------------------------------------------------ destruction
    def destroy(self, lv, t):
        ty = self.prog.T(t)
        if ty['k'] != 'rec' or self.is_complex(t):
            return
        m = self.models.destroy_model(self, lv, t)
        if m is not None:
            return
        r = self.prog.rec_of(t)
        if r is None:
            return
        d = r.get('dtor')
        f = self.prog.funcs.get(d) if d else None
        if f and 'body' in f:
            self.run_function(d, lv, [])
        else:
            self.destroy_fields(lv, t)

    def destroy_fields(self, lv, t):
        r = self.prog.rec_of(t)
        if not r or 'fields' not in r:
            return
        for x in reversed(r['fields']):
            if self.prog.T(x['t'])['k'] == 'rec':
                self.destroy(LV(lv.loc, lv.path + (x['n'],)), x['t'])
        for b in reversed(r.get('bases', [])):
            self.destroy(lv, b)

    def end_temps(self, n0):
        while len(self.temps) > n0:
            loc = self.temps.pop()
            v = self.st.mem.get(loc)
            if isinstance(v, Rec):
                self.destroy(LV(loc, ()), v.t)

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.maxsteps:
            raise TooComplex('step budget')
        if self.deadline is not None and self.steps % 64 == 0:
            if time.time() > self.deadline:
                raise TooComplex('time budget')
        k = s['k']
        if 'l' in s:
            self.curline = s['l']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('stmt ' + k + ' ' + str(s.get('cls')))
        return m(s)

    def x_block(self, s):
        self.scope(lambda: [self.exec(b) for b in s['b']])

    def scope(self, fn):
        fr = self.frames[-1]
        mark = len(fr.locals)
        di = len(self.frames) - 1
        try:
            fn()
        except ReturnEx as r:
            self.leave(di, mark, keep=r.v)
            raise
        except Ctl:
            self.leave(di, mark)
            raise
        self.leave(di, mark)

    def leave(self, di, mark, keep=None):
        fr = self.frames[di]
        while len(fr.locals) > mark:
            lv, t = fr.locals.pop()
            if isinstance(keep, LV) and keep == lv:
                continue
            self.destroy(lv, t)

    def x_null(self, s):
        pass

    def x_expr(self, s):
        n0 = len(self.temps)
        self.eval(s['e'])
        self.end_temps(n0)

    def x_decl(self, s):
        for v in s['v']:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        t = v['t']
        ty = self.prog.T(t)
        self.curline = v['l']
        init = v.get('init')
        if v.get('static'):
            self.declare_static(v)
            return
        if ty['k'] == 'ref':
            n0 = len(self.temps)
            x = self.eval(init['e'] if init['k'] == 'cleanups' else init)
            if not isinstance(x, LV):
                x = LV(self.newloc(x), ())
            if x.loc in self.temps and not x.path:
                self.temps.remove(x.loc)
                vv = self.st.mem[x.loc]
                fr.env[v['d']] = x
                if isinstance(vv, Rec):
                    fr.locals.append((x, vv.t))
            else:
                fr.env[v['d']] = x
            self.end_temps(n0)
            return
        if ty['k'] == 'rec' and not self.is_complex(t):
            n0 = len(self.temps)
            e = init
            if e is not None and e['k'] == 'cleanups':
                e = e['e']
            loc = self.newloc(self.models.new_record(self, t), t)
            lv = LV(loc, ())
            if e is not None:
                lv = self.init_record(lv, t, e)
            fr = self.frames[-1]
            fr.env[v['d']] = lv
            fr.locals.append((lv, t))
            self.end_temps(n0)
            return
        self.st.ctr += 1
        uid = '%s@%s.%d' % (v['n'], v['l'], self.st.ctr)
        if self.opts.get('merge') and ty['k'] in ('int', 'float', 'bool'):
            old = fr.env.get(v['d'])
            if old is not None and not old.path:
                self.st.mem.pop(old.loc, None)      # the variable of the previous iteration
        loc = self.newloc(None, t)
        if init is None or (init['k'] == 'ctor' and init.get('dc') and not self.is_complex(t)):
            self.st.mem[loc] = self.value_undef(t, uid)
        elif ty['k'] == 'array':
            b = self.value_undef(t, uid)
            if init['k'] == 'initlist' or init['k'] == 'zero':
                b = self.init_array(b, init)
            elif init['k'] == 'str':
                b = b._replace(content=mkc('havoc', uid))
            self.st.mem[loc] = b
        else:
            n0 = len(self.temps)
            e = init['e'] if init['k'] == 'cleanups' else init
            self.st.mem[loc] = self.rval(e, t)
            self.end_temps(n0)
        self.frames[-1].env[v['d']] = LV(loc, ())

    def declare_static(self, v):
        d = v['d']
        key = ('static', d)
        if key not in self.st.mem:
            self.st.mem[key] = None
            t = v['t']
            ty = self.prog.T(t)
            if ty['k'] == 'rec' and not self.is_complex(t):
                loc = self.newloc(self.models.new_record(self, t))
                lv = LV(loc, ())
                e = v.get('init')
                if e is not None:
                    if e['k'] == 'cleanups':
                        e = e['e']
                    lv = self.init_record(lv, t, e)
            elif v.get('init') and literal(v['init']) and ty['k'] in ('array', 'int', 'float') and only_read(self.frames[-1].fn.get('body'), d):
                if ty['k'] == 'array':
                    val = self.init_array(self.value_undef(t, 'st:%s' % v['n']), v['init'])
                else:
                    val = self.rval(v['init'], t)
                lv = LV(self.newloc(val), ())
            else:
                # unknown prior value: any earlier call may have changed it
                if ty['k'] in ('int', 'float'):
                    val = sym('static:%s' % v['n'], self.aty(t), taint=True)
                elif ty['k'] == 'bool':
                    val = to_cond(sym('static:%s' % v['n'], ('int', 1, False), taint=True))
                elif ty['k'] == 'array':
                    val = Block(P(ty['n']), mkc('havoc', 'static:' + v['n']), ty['to'], True, 'local', 'st')
                else:
                    val = Opaque('static', v['n'])
                lv = LV(self.newloc(val), ())
            self.st.mem[key] = lv
            self.hooks.setdefault('globals', {})[lv.loc] = v['n']
        self.frames[-1].env[d] = self.st.mem[key]

    def x_if(self, s):
        if s.get('init') or s.get('cv'):
            def body():
                if s.get('init'):
                    self.exec(s['init'])
                if s.get('cv'):
                    self.exec(s['cv'])
                self.if_body(s)
            self.scope(body)
        else:
            self.if_body(s)

    def merge_if(self, s):
        """both branches of a simple conditional, joined into conditional values (no fork)"""
        if not (side_free(s['c']) and simple_stmt(s['x']) and simple_stmt(s.get('y'))):
            return False
        c = self.cond_value(s['c'])
        q = self.st.facts.decide(c)
        if q is not None:
            b = s['x'] if q else s.get('y')
            if b:
                self.exec_scoped(b)
            return True
        base, out, mark = self.st, [], len(self.obls)
        for cc, b in ((c, s['x']), (c_not(c), s.get('y'))):
            st = base.copy()
            st.facts.cache = {}
            st.facts.add(cc)
            res = self.explore((lambda b=b: self.exec_scoped(b)) if b else (lambda: None), st)
            if len(res) != 1 or res[0][0] != 'normal':
                if DBG: print('merge branch', [r[:2] for r in res])
                del self.obls[mark:]
                return False
            out.append(res[0][2])
        try:
            mem, m0, m1 = base.mem, out[0].mem, out[1].mem
            diff = [(l, v, m0[l], m1[l]) for l, v in mem.items() if m0[l] is not v or m1[l] is not v]
            new = [(l, merge_val(self, c, v, x, y)) for l, v, x, y in diff]
        except (Unsupported, KeyError) as ex:
            if DBG: print('merge', ex)
            del self.obls[mark:]
            return False
        self.taint_check(c)
        mem.update(new)
        base.ctr = max(o.ctr for o in out)
        return True

    def if_body(self, s):
        if self.opts.get('merge') and self.merge_if(s):
            return
        n0 = len(self.temps)
        b = self.branch(s['c'])
        self.end_temps(n0)
        if b:
            self.exec_scoped(s['x'])
        elif s.get('y'):
            self.exec_scoped(s['y'])

    def exec_scoped(self, s):
        if s is not None and s['k'] == 'decl':
            self.scope(lambda: self.exec(s))
        else:
            self.exec(s)

    def x_return(self, s):
        e = s.get('e')
        if e is None:
            raise ReturnEx(None)
        fr = self.frames[-1]
        rt = fr.fn['ret']
        ty = self.prog.T(rt)
        n0 = len(self.temps)
        if e['k'] == 'cleanups':
            e = e['e']
        if ty['k'] == 'ref':
            v = self.eval(e)
            self.end_temps(n0)
            raise ReturnEx(v)
        if ty['k'] == 'void':
            self.eval(e)
            self.end_temps(n0)
            raise ReturnEx(None)
        if ty['k'] == 'rec' and not self.is_complex(rt):
            if 'nrvo' in s and s['nrvo'] in fr.env:
                lv = fr.env[s['nrvo']]
                raise ReturnEx(lv)
            loc = self.newloc(self.models.new_record(self, rt))
            lv = self.init_record(LV(loc, ()), rt, e)
            self.end_temps(n0)
            raise ReturnEx(lv)
        v = self.rval(e, rt)
        self.end_temps(n0)
        raise ReturnEx(v)

    def x_break(self, s):
        raise BreakEx()

    def x_continue(self, s):
        raise ContinueEx()

    def x_try(self, s):
        frd = len(self.frames)
        n0 = len(self.temps)
        try:
            self.exec(s['b'])
        except ThrowEx as t:
            del self.frames[frd:]
            self.end_temps(n0)
            for h in s['h']:
                if 't' not in h or self.models.exc_matches(self, t.v, h.get('t')):
                    self.exec(h['b'])
                    return
            raise

    def x_switch(self, s):
        n0 = len(self.temps)
        v = self.rval(s['c'])
        self.end_temps(n0)
        if isinstance(v, Cond):
            v = cond_to_poly(v)
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        # flatten labels
        flat = []
        for st in body:
            while st is not None and st['k'] in ('case', 'default'):
                flat.append(('lab', None if st['k'] == 'default' else st['v']))
                st = st['b']
            flat.append(('st', st))
        target = None
        default = None
        for i, (k, x) in enumerate(flat):
            if k == 'lab':
                if x is None:
                    default = i
                elif target is None:
                    c = self.rval(x)
                    if isinstance(c, Cond):
                        c = cond_to_poly(c)
                    if self.decide(c_eq(v - c)):
                        target = i
        if target is None:
            target = default
        if target is None:
            return

        def run():
            for k, x in flat[target:]:
                if k == 'st':
                    self.exec(x)
        try:
            self.scope(run)
        except BreakEx:
            pass

    # ------------------------------------------------------------ loops
    def x_for(self, s):
        def body():
            if s.get('init'):
                self.exec(s['init'])
            cond = s.get('c')
            inc = s.get('inc')
            self.loop(s,
                      (lambda: self.branch(cond)) if cond is not None else (lambda: True),
                      lambda: self.exec_scoped(s['b']),
                      (lambda: self.full(inc)) if inc is not None else (lambda: None))
        self.scope(body)

    def full(self, e):
        n0 = len(self.temps)
        self.eval(e)
        self.end_temps(n0)

    def x_do(self, s):
        try:
            self.exec_scoped(s['b'])
        except ContinueEx:
            pass
        except BreakEx:
            return
        self.loop(s, lambda: self.branch(s['c']), lambda: self.exec_scoped(s['b']), lambda: None)

    def x_range(self, s):
        def body():
            for k in ('range', 'begin', 'end'):
                self.exec(s[k])

            def b():
                def inner():
                    self.exec(s['var'])
                    self.exec_scoped(s['b'])
                self.scope(inner)
            self.loop(s, lambda: self.branch(s['c']), b, lambda: self.full(s['inc']))
        self.scope(body)

    def loop(self, s, cond, body, inc):
        import loops
        loops.run_loop(self, s, cond, body, inc)

    # ------------------------------------------------------------ expressions
    def branch(self, e):
        """boolean context: fork structurally"""
        k = e['k']
        if k in ('cleanups', 'temp'):
            n0 = len(self.temps)
            r = self.branch(e['e'])
            if k == 'cleanups':
                self.end_temps(n0)
            return r
        if k == 'un' and e['op'] == '!':
            return not self.branch(e['x'])
        if k == 'bin' and e['op'] == '&&':
            return self.branch(e['x']) and self.branch(e['y'])
        if k == 'bin' and e['op'] == '||':
            return self.branch(e['x']) or self.branch(e['y'])
        v = self.rval(e)
        return self.decide(self.as_cond(v))

    def as_cond(self, v):
        if isinstance(v, Cond):
            return v
        if isinstance(v, Poly):
            return c_not(c_eq(v, is_intlike(v)))
        if isinstance(v, Ptr):
            return FALSE if v.lv is None else TRUE
        if isinstance(v, Opaque):
            if v.kind == 'undefptr':
                return Cond.make('batom', 'undef', v.data)
            return Cond.make('batom', 'opaque', str(v.kind), str(v.data))
        raise Unsupported('cond of %r' % (v,))

    def cond_value(self, e):
        """pure boolean value (no fork) when possible"""
        k = e['k']
        if k in ('cleanups', 'temp'):
            n0 = len(self.temps)
            r = self.cond_value(e['e'])
            if k == 'cleanups':
                self.end_temps(n0)
            return r
        if k == 'un' and e['op'] == '!':
            return c_not(self.cond_value(e['x']))
        if k == 'bin' and e['op'] in ('&&', '||'):
            x = self.cond_value(e['x'])
            q = self.st.facts.decide(x)
            if e['op'] == '&&':
                if q is False:
                    return FALSE
                y = self.pure_under(e['y'], x)
                return y if q is True else c_and(x, y)
            if q is True:
                return TRUE
            y = self.pure_under(e['y'], c_not(x))
            return y if q is False else c_or(x, y)
        return self.as_cond(self.rval(e))

    def pure_under(self, e, c):
        if self.st.facts.decide(c) is True:
            return self.cond_value(e)
        f = self.st.facts
        self.st.facts = f.copy()
        self.st.facts.add(c)
        try:
            return self.cond_value(e)
        finally:
            self.st.facts = f

    def rval(self, e, t=None):
        """evaluate to a scalar value (loads glvalues)"""
        v = self.eval(e)
        if isinstance(v, LV):
            if e.get('lv') or True:
                v = self.load(v)
        return v

    def eval(self, e):
        self.steps += 1
        l = e.get('l')
        if l:
            self.curline = l
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expr ' + e['k'] + ' ' + str(e.get('cls')))
        return m(e)

    def e_int(self, e):
        v = int(e['v'])
        if self.prog.T(e['t'])['k'] == 'bool':
            return TRUE if v else FALSE
        if 2 <= v <= 200:
            self.lits.add(v)
        return P(v)

    def e_float(self, e):
        x = e['v']
        try:
            return P(Fraction(x))
        except (ValueError, ZeroDivisionError):
            return fn(x, ())

    def e_str(self, e):
        return Opaque('str', e.get('v'))

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        t = e['t']
        ty = self.prog.T(t)
        if ty['k'] == 'bool':
            return FALSE
        if ty['k'] == 'ptr':
            return NULL
        if self.is_complex(t):
            return Cx(ZERO, ZERO)
        if ty['k'] == 'rec':
            raise Unsupported('zero record')
        return ZERO

    def e_this(self, e):
        return Ptr(self.frames[-1].this)

    def e_cleanups(self, e):
        n0 = len(self.temps)
        v = self.eval(e['e'])
        # the value itself may be a temp that the consumer adopts
        keep = None
        if isinstance(v, LV) and v.loc in self.temps[n0:] and not v.path:
            keep = v.loc
            self.temps.remove(keep)
        self.end_temps(n0)
        if keep is not None:
            self.temps.append(keep)
        return v

    def e_temp(self, e):
        v = self.eval(e['e'])
        if isinstance(v, LV):
            return v
        return LV(self.newloc(v), ())

    def e_stdil(self, e):
        x = e['e']
        while x['k'] not in ('initlist',) and 'e' in x:
            x = x['e']
        if x['k'] != 'initlist':
            raise Unsupported('stdil ' + x['k'])
        vals = [self.rval(a) for a in x['a']]
        if any(isinstance(v, Rec) for v in vals):
            raise Unsupported('initializer_list of objects')
        rec = self.models.vec_new(self, e['t'], P(len(vals)), None)
        loc = rec.f['#p'].lv.loc
        b = self.st.mem[loc]
        c = b.content
        for i, v in enumerate(vals):
            if isinstance(v, Cond):
                v = cond_to_poly(v)
            c = store(c, P(i), v)
        self.st.mem[loc] = b._replace(content=c)
        return rec

    def e_ref(self, e):
        dk = e['dk']
        if dk in ('parm', 'local', 'static'):
            for fr in reversed(self.frames):
                if e['d'] in fr.env:
                    return fr.env[e['d']]
                break
            fr = self.frames[-1]
            if fr.outer is not None and e['d'] in fr.outer:
                return fr.outer[e['d']]
            raise Unsupported('unbound ' + e['n'])
        if dk == 'global':
            return self.models.global_ref(self, e)
        if dk == 'func':
            return Opaque('func', e)
        raise Unsupported('ref ' + dk)

    def e_binding(self, e):
        return self.eval(e['e'])

    def e_mem(self, e):
        b = self.eval(e['b'])
        if e['arrow']:
            if isinstance(b, LV):
                b = self.load(b)
            if isinstance(b, Opaque):
                self.oblige('bad-pointer', FALSE, 'dereference of an uninitialised pointer')
                raise Infeasible()
            b = b.lv
            if b is None:
                self.oblige('null', FALSE, 'null pointer dereferenced')
                raise Infeasible()
        if not isinstance(b, LV):
            raise Unsupported('member of rvalue')
        v = self.st.mem.get(b.loc)
        fn_ = e['f']
        if fn_ in ('first', 'second'):
            try:
                rec = self.peek(v, b.path)
            except Unsupported:
                rec = None
            if isinstance(rec, Rec) and self.prog.T(rec.t).get('name') == 'std::pair':
                fn_ = '#0' if fn_ == 'first' else '#1'
        lv = LV(b.loc, b.path + (fn_,))
        try:
            raw = self.peek(v, lv.path)
        except Unsupported:
            raw = None
        if isinstance(raw, RefV):
            return raw.lv
        return lv

    def peek(self, v, path):
        for s in path:
            if isinstance(v, RefV):
                v = self.st.mem.get(v.lv.loc)
                if v is None:
                    raise Unsupported('peek')
            if isinstance(s, Poly):
                if isinstance(v, Block):
                    v = v.content[self.obj_index(v, s)] if isinstance(v.content, Objs) else read(v.content, s, self.st.facts, cx=self.is_complex(v.ety), ty=self.aty(v.ety))
                elif s is ZERO:
                    continue
                else:
                    raise Unsupported('peek idx')
            else:
                if not isinstance(v, Rec) or s not in v.f:
                    raise Unsupported('peek')
                v = v.f[s]
        return v

    def e_idx(self, e):
        b = self.eval(e['b'])
        if isinstance(b, LV):
            v = self.load_ptr(b)
        else:
            v = b
        i = self.rval(e['i'])
        if isinstance(i, Cond):
            i = cond_to_poly(i)
        return self.ptr_index(v, i)

    def load_ptr(self, lv):
        v = self.load(lv)
        if isinstance(v, Block):
            return Ptr(LV(lv.loc, lv.path + (ZERO,)))
        return v

    def ptr_index(self, p, i):
        if isinstance(p, Opaque):
            if p.kind in ('undefptr',):
                self.oblige('bad-pointer', FALSE, 'dereference of an uninitialised pointer')
                raise Infeasible()
            raise Unsupported('index opaque')
        if p.lv is None:
            self.oblige('null', FALSE, 'null pointer dereferenced')
            raise Infeasible()
        path = p.lv.path
        if path and isinstance(path[-1], Poly):
            return LV(p.lv.loc, path[:-1] + (strip_wrap(path[-1] + i),))
        if i is ZERO:
            return p.lv
        raise Unsupported('index scalar pointer')

    def e_un(self, e):
        op = e['op']
        if op == '&':
            v = self.eval(e['x'])
            if isinstance(v, LV):
                return Ptr(v)
            raise Unsupported('&')
        if op == '*':
            p = self.rval(e['x'])
            if isinstance(p, Opaque) and p.kind == 'func':
                return p
            if not isinstance(p, Ptr):
                return self.ptr_index(p, ZERO)
            if p.lv is None:
                self.oblige('null', FALSE, 'null pointer dereferenced')
                raise Infeasible()
            return p.lv
        if op in ('++', '--'):
            lv = self.eval(e['x'])
            v = self.load(lv)
            if isinstance(v, Ptr):
                d = ONE if op == '++' else -ONE
                nv = Ptr(LV(v.lv.loc, v.lv.path[:-1] + (v.lv.path[-1] + d,)))
            elif isinstance(v, Cond):
                raise Unsupported('bool ++')
            else:
                nv = self.arith('+' if op == '++' else '-', v, ONE, self.prog.T(e['x']['t']))
            self.store(lv, nv)
            return v if e['post'] else lv
        if op == '!':
            return c_not(self.cond_value(e['x']))
        v = self.rval(e['x'])
        ty = self.prog.T(e['t'])
        if isinstance(v, Cond):
            v = cond_to_poly(v)
        if op == '-':
            return self.fit(-v, ty) if ty['k'] == 'int' else -v
        if op == '+':
            return v
        if op == '~':
            if ty['sg']:
                return -v - 1
            if v.is_const():
                return P((~v.const()) & ((1 << ty['bits']) - 1))
            return P((1 << ty['bits']) - 1) - v
        raise Unsupported('unary ' + op)

    def fit(self, p, ty):
        if ty['k'] != 'int':
            return p
        return self.conv_int(p, ty)

    def conv_int(self, p, ty):
        bits, sg = ty['bits'], ty['sg']
        if p.is_const():
            if not isinstance(p.const(), int):
                return P(int(p.const()))
            return wrap(p, bits, sg)
        # strip an inner wrap of at least the same width
        if len(p.d) >= 1:
            q = strip_mod(p, bits)
            if q is not p:
                p = q
        if sg and bits >= 32 and not smallfail(p, 0, self.st.facts):
            return p
        return wrap_facts(p, bits, sg, self.st.facts)

    def arith(self, op, a, b, ty):
        if isinstance(a, Cond):
            a = cond_to_poly(a)
        if isinstance(b, Cond):
            b = cond_to_poly(b)
        if isinstance(a, Cx) or isinstance(b, Cx):
            if op == '+':
                return to_cx(a) + b
            if op == '-':
                return to_cx(a) - to_cx(b)
            if op == '*':
                return to_cx(a) * b
            if op == '/':
                return to_cx(a).div(b)
            raise Unsupported('complex ' + op)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('arith on opaque')
        isint = ty['k'] == 'int'
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b if isint else trig(a * b)
        elif op == '/':
            if isint:
                return self.idiv(a, b, ty)
            if ty['k'] == 'float':
                return rdiv(a, b)
            raise Unsupported('/')
        elif op == '%':
            d = self.idiv(a, b, ty, rem=True)
            return d
        elif op in ('&', '|', '^', '<<', '>>'):
            return self.bits(op, a, b, ty)
        else:
            raise Unsupported('arith ' + op)
        if isint:
            return self.conv_int(r, ty)
        return r

    def idiv(self, a, b, ty, rem=False):
        f = self.st.facts
        nz = c_not(c_eq(b))
        self.oblige('div-zero', nz, 'integer division by %s' % show(b))
        q = f.decide(nz)
        if q is False:
            raise Infeasible()
        if q is None:
            f.add(nz)
        if a.is_const() and b.is_const():
            x, y = a.const(), b.const()
            d = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            return P(x - y * d) if rem else P(d)
        if (not ty['sg'] or f.ge(a)) and (f.ge(b - 1) or (not ty['sg'])):
            if f.ge(b - 1) or not ty['sg']:
                d = fdiv_facts(a, b, f)
                return a - b * d if rem else d
        if not ty['sg']:
            d = idiv_floor(a, b)
            return a - b * d if rem else d
        if f.ge(b - 1):
            d = -fdiv_facts(-a, b, f) if f.ge(-a) else ite(c_ge(a), idiv_floor(a, b), -idiv_floor(-a, b))
            return a - b * d if rem else d
        if f.ge(-b - 1):
            d = -self.idiv(a, -b, ty)
            return a - b * d if rem else d
        at = mk_atom('tdiv', (a, b), ('int', ty['bits'], True))
        d = atom_poly(at)
        return a - b * d if rem else d

    def bits(self, op, a, b, ty):
        bits = ty['bits']
        if op in ('<<', '>>'):
            c = c_and(c_ge(b), c_ge(P(bits - 1) - b))
            self.oblige('shift', c, 'shift count %s for a %d-bit value' % (show(b), bits))
            q = self.st.facts.decide(c)
            if q is False:
                raise Infeasible()
            if q is None:
                self.st.facts.add(c)
            if op == '<<' and b.is_const():
                r = a * (2 ** b.const())
                if ty['sg'] or self.st.facts.ge(P((1 << bits) - 1) - r):
                    return r
            return bitop('shl' if op == '<<' else 'shr', a, b, bits)
        if ty['sg'] and not (self.st.facts.ge(a) and self.st.facts.ge(b)):
            if not (a.is_const() and b.is_const()):
                return atom_poly(mk_atom('fn', ('s' + op, a, b), ('int', bits, True)))
            x, y = a.const(), b.const()
            return P(x & y if op == '&' else x | y if op == '|' else x ^ y)
        return bitop({'&': 'and', '|': 'or', '^': 'xor'}[op], a, b, bits)

    def e_bin(self, e):
        op = e['op']
        if op == ',':
            self.eval(e['x'])
            return self.eval(e['y'])
        if op in ('&&', '||'):
            return self.cond_value(e)
        a = self.rval(e['x'])
        b = self.rval(e['y'])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, self.prog.T(e['x']['t']))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b)
        return self.arith(op, a, b, self.prog.T(e['t']))

    def ptr_arith(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Poly):
            if a.lv is None:
                if b is ZERO:
                    return a
                raise Unsupported('null arith')
            i = b if op == '+' else -b
            lv = self.ptr_index(a, i)
            return Ptr(lv)
        if isinstance(a, Poly) and isinstance(b, Ptr) and op == '+':
            return Ptr(self.ptr_index(b, a))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-':
            if a.lv and b.lv and a.lv.loc == b.lv.loc:
                return a.lv.path[-1] - b.lv.path[-1]
        raise Unsupported('pointer arithmetic')

    def hint(self, d):
        """the code compares a size with a constant: a size to look at"""
        k = d.d.get((), 0)
        for m, c in d.d.items():
            if len(m) == 1 and m[0][1] == 1 and len(d.d) == (2 if k else 1):
                at = atom_by_id(m[0][0])
                if at.op == 'sym' and (k % c == 0) and 0 <= -k // c <= 64:
                    self.hints.setdefault(at.args[0], set()).add(int(-k // c))

    def compare(self, op, a, b, ty):
        if isinstance(a, (Ptr, Opaque)) or isinstance(b, (Ptr, Opaque)):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if op in ('==', '!='):
                    if a.lv is None or b.lv is None:
                        r = TRUE if a.lv is b.lv else FALSE
                    elif a.lv.loc != b.lv.loc:
                        r = FALSE
                    elif a.lv.path == b.lv.path:
                        r = TRUE
                    elif a.lv.path and b.lv.path and isinstance(a.lv.path[-1], Poly) and isinstance(b.lv.path[-1], Poly):
                        r = c_eq(a.lv.path[-1] - b.lv.path[-1])
                    else:
                        r = FALSE
                    return r if op == '==' else c_not(r)
                if a.lv and b.lv and a.lv.loc == b.lv.loc:
                    return self.compare(op, a.lv.path[-1], b.lv.path[-1], {'k': 'int'})
            for x in (a, b):
                if isinstance(x, Opaque) and x.kind == 'undefptr':
                    self.oblige('uninit-branch', FALSE, 'comparison of an uninitialised pointer')
                    raise Infeasible()
            raise Unsupported('compare %r %r' % (a, b))
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = to_cx(a), to_cx(b)
            c = c_and(c_eq(a.re - b.re, False), c_eq(a.im - b.im, False))
            return c if op == '==' else c_not(c)
        if isinstance(a, Cond) and isinstance(b, Cond) and op in ('==', '!='):
            c = c_iff(a, b)
            return c if op == '==' else c_not(c)
        if isinstance(a, Cond):
            a = cond_to_poly(a)
        if isinstance(b, Cond):
            b = cond_to_poly(b)
        isint = ty['k'] in ('int', 'bool')
        d = a - b
        if isint and len(d.d) <= 2:
            self.hint(d)
        if op == '==':
            return c_eq(d, isint)
        if op == '!=':
            return c_not(c_eq(d, isint))
        if isint:
            return {'<': c_ge(-d - 1), '>': c_ge(d - 1), '<=': c_ge(-d), '>=': c_ge(d)}[op]
        return {'<': c_dgt(-d), '>': c_dgt(d), '<=': c_dge(-d), '>=': c_dge(d)}[op]

    def e_assign(self, e):
        # C++17: right operand first
        t = e['x']['t']
        v = self.rval(e['y'])
        lv = self.eval(e['x'])
        if not isinstance(lv, LV):
            raise Unsupported('assign')
        if isinstance(v, Cond) and self.prog.T(t)['k'] == 'int':
            v = cond_to_poly(v)
        self.store(lv, v)
        return lv

    def e_cassign(self, e):
        op = e['op'][:-1]
        b = self.rval(e['y'])
        lv = self.eval(e['x'])
        a = self.load(lv)
        if isinstance(a, Ptr):
            v = self.ptr_arith(op, a, b)
        else:
            lt = self.prog.T(e['x']['t'])
            ct = self.prog.T(e['rt'])
            if ct['k'] == 'int' and lt['k'] == 'int':
                a = self.conv_scalar(a, lt, ct)
            r = self.arith(op, a, b, ct)
            v = self.conv_scalar(r, ct, lt)
        self.store(lv, v)
        return lv

    def conv_scalar(self, v, frm, to):
        fk, tk = frm['k'], to['k']
        if tk == 'bool':
            return self.as_cond(v)
        if isinstance(v, Cond):
            v = cond_to_poly(v)
        if not isinstance(v, Poly):
            return v
        if tk == 'int':
            if fk == 'float':
                return self.f2i(v, to)
            if fk == 'int' and frm['bits'] <= to['bits'] and frm['sg'] == to['sg']:
                return v
            if fk == 'bool':
                return v
            if fk == 'int' and frm['bits'] < to['bits'] and not frm['sg'] and to['sg']:
                return v
            return self.conv_int(v, to)
        return v

    def f2i(self, v, to):
        if v.is_const():
            return P(int(v.const()))
        if is_intlike(v):
            return self.conv_int(v, to)
        at = mk_atom('fn', ('toint', v), ('int', to['bits'], True))
        p = atom_poly(at)
        return p

    def e_cond(self, e):
        # assertion idiom: cond ? (void)0 : noreturn-call
        t = self.prog.T(e['t'])
        if t['k'] == 'void' and self.is_noreturn(e['y']):
            c = self.cond_value(e['c'])
            self.assertion(c, e)
            return None
        if t['k'] == 'void' and self.is_noreturn(e['x']):
            c = c_not(self.cond_value(e['c']))
            self.assertion(c, e)
            return None
        if t['k'] == 'int' and not e.get('lv') and (pure(e['x']) and pure(e['y']) or self.opts.get('merge') and side_free(e['x']) and side_free(e['y'])):
            c = self.cond_value(e['c'])
            q = self.st.facts.decide(c)
            if q is not None:
                return self.eval(e['x'] if q else e['y'])
            f0 = self.st.facts
            self.st.facts = f0.copy()
            if self.opts.get('merge'):
                self.st.facts.cache = {}
            self.st.facts.add(c)
            a = self.rval(e['x'])
            self.st.facts = f0.copy()
            if self.opts.get('merge'):
                self.st.facts.cache = {}
            self.st.facts.add(c_not(c))
            b = self.rval(e['y'])
            self.st.facts = f0
            if isinstance(a, Poly) and isinstance(b, Poly):
                for (u, w, cc) in ((a, b, c_not(c)), (b, a, c)):
                    f = self.st.facts.copy()
                    f.cache = {}
                    f.add(cc)
                    if f.decide(c_eq(u - w)) is True:
                        return u
            self.taint_check(c)
            if self.opts.get('merge') and isinstance(a, Poly) and isinstance(b, Poly):
                return ite(c, a, b)
            return a if self.choose(c) else b
        if t['k'] in ('float',) or (self.is_complex(e['t']) and not e.get('lv')):
            try:
                c = self.cond_value(e['c'])
                q = self.st.facts.decide(c)
                if q is not None:
                    return self.eval(e['x'] if q else e['y'])
                f = self.st.facts
                mem0 = dict(self.st.mem)
                self.st.facts = f.copy()
                self.st.facts.add(c)
                a = self.rval(e['x'])
                self.st.facts = f.copy()
                self.st.facts.add(c_not(c))
                b = self.rval(e['y'])
                self.st.facts = f
                if all(self.st.mem.get(l) is v or self.st.mem.get(l) == v for l, v in mem0.items()) and mergeable(a) and mergeable(b):
                    self.taint_check(c)
                    return ite(c, a, b)
                self.st.mem = mem0
                return a if self.choose(c) else b
            finally:
                pass
        if self.branch(e['c']):
            return self.eval(e['x'])
        return self.eval(e['y'])

    def is_noreturn(self, e):
        while e is not None and e['k'] in ('cleanups', 'cast'):
            e = e['e']
        if e is None:
            return False
        if e['k'] == 'call':
            if e.get('noret'):
                return True
            return e.get('q') in ('susa::assert_log', '__assert_fail', 'abort', 'std::abort')
        if e['k'] == 'cond':
            return self.is_noreturn(e['y'])
        return False

    def assertion(self, c, e):
        q = self.st.facts.decide(c)
        if self.misuse:
            if q is False or q is None and not self.quiet and by_cases(c_not(c), self.st.facts):
                self.record('spec', 'proved', 'stopped', None, 'the misuse fails this assertion')
                raise AbortEx('assertion at line %s' % e.get('l'))
            if q is None:
                self.st.facts.add(c)
                self.pathconds.append(c)
            return
        if q is True:
            self.oblige('assert', TRUE, 'assertion')
            return
        if q is False and self.opts['faults']:
            self.record('spec', 'proved', 'reported', None, 'the failed allocation ends in this assertion')
            raise AbortEx('assertion at line %s' % e.get('l'))
        self.taint_check(c)
        self.oblige('assert', c, 'assertion may fail')
        if q is False:
            raise AbortEx('assertion at line %s' % e.get('l'))
        self.st.facts.add(c)
        self.pathconds.append(c)

    def e_cast(self, e):
        ck = e['ck']
        sub = e['e']
        if ck == 'ToVoid':
            if sub['k'] == 'int':
                return None
            self.eval(sub)
            return None
        if ck == 'LValueToRValue':
            v = self.eval(sub)
            if isinstance(v, LV):
                return self.load(v)
            return v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion', 'LValueBitCast', 'BuiltinFnToFnPtr'):
            return self.eval(sub)
        if ck == 'ArrayToPointerDecay':
            v = self.eval(sub)
            if isinstance(v, LV):
                return Ptr(LV(v.loc, v.path + (ZERO,)))
            return v
        if ck == 'FunctionToPointerDecay':
            return self.eval(sub)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck == 'BitCast':
            v = self.eval(sub)
            if isinstance(v, LV):
                v = self.load(v)
            return self.models.retype(self, v, e['t'])
        frm, to = self.prog.T(sub['t']), self.prog.T(e['t'])
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.as_cond(self.rval(sub))
        v = self.rval(sub)
        if isinstance(v, Ptr):
            return v
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'BooleanToSignedIntegral'):
            return self.conv_scalar(v, frm, to)
        raise Unsupported('cast ' + ck)

    def e_new(self, e):
        at = e['at']
        if e['pl']:
            raise Unsupported('placement new')
        if e['arr']:
            n = self.rval(e['n'])
            p = self.alloc_block(n, at, 'newarr')
            if e.get('init') is not None:
                i = e['init']
                if i['k'] == 'zero' or (i['k'] == 'initlist'):
                    b = self.st.mem[p.lv.loc]
                    self.st.mem[p.lv.loc] = b._replace(content=mkc('const', self.zero_of(at)))
                elif i['k'] == 'ctor':
                    if self.is_complex(at):
                        b = self.st.mem[p.lv.loc]
                        self.st.mem[p.lv.loc] = b._replace(content=mkc('const', Cx(ZERO, ZERO)))
                    else:
                        raise Unsupported('new[] of class')
            return p
        if self.opts['faults'] and self.fault():
            raise ThrowEx(Opaque('exc', 'std::bad_alloc'))
        p = self.alloc_block(ONE, at, 'new')
        ty = self.prog.T(at)
        i = e.get('init')
        if ty['k'] == 'rec' and not self.is_complex(at):
            # object: replace block contents by a record
            b = self.st.mem[p.lv.loc]
            loc = self.newloc(self.models.new_record(self, at))
            try:
                lv = self.init_record(LV(loc, ()), at, i) if i is not None else LV(loc, ())
            except ThrowEx:
                self.st.mem[p.lv.loc] = self.st.mem[p.lv.loc]._replace(alive=False)
                raise
            self.st.mem[p.lv.loc] = b._replace(content=store(b.content, ZERO, self.st.mem[lv.loc]))
            return p
        if i is not None:
            if i['k'] == 'initlist':
                v = self.rval(i['a'][0]) if i['a'] else self.zero_of(at)
            else:
                v = self.rval(i)
            if isinstance(v, Cond):
                v = cond_to_poly(v)
            b = self.st.mem[p.lv.loc]
            self.st.mem[p.lv.loc] = b._replace(content=store(b.content, ZERO, v))
        return p

    def fault(self):
        """may this allocation fail?"""
        self.st.ctr += 1
        return self.choose(Cond.make('batom', 'allocfail', self.st.ctr))

    def e_delete(self, e):
        p = self.rval(e['e'])
        if isinstance(p, Ptr) and p.lv is not None:
            ty = self.prog.T(e['at']) if e.get('at') is not None else None
            b = self.st.mem.get(p.lv.loc)
            if ty and ty['k'] == 'rec' and not self.is_complex(e['at']) and isinstance(b, Block) and b.alive and not e['arr']:
                self.destroy(LV(p.lv.loc, (ZERO,)), e['at'])
        self.free_block(p, 'delete[]' if e['arr'] else 'delete')
        return None

    def e_throw(self, e):
        if e.get('e') is None:
            raise ThrowEx(Opaque('exc', 'rethrow'))
        t = self.prog.T(e['e']['t'])
        raise ThrowEx(Opaque('exc', t.get('name', t['s'])))

    def e_lambda(self, e):
        caps = {}
        for c in e['caps']:
            if c.get('this'):
                caps['this'] = self.frames[-1].this
            elif c.get('byref'):
                caps[c['d']] = self.eval(c['e'])
            else:
                v = self.rval(c['e'])
                caps[c['d']] = LV(self.newloc(v), ())
        loc = self.newloc(Opaque('lambda', Lambda(e['f'], caps)))
        return LV(loc, ())

    def e_initlist(self, e):
        ty = self.prog.T(e['t'])
        if ty['k'] in ('int', 'float', 'bool', 'ptr'):
            if not e['a']:
                return self.e_zero(e)
            return self.rval(e['a'][0])
        if ty['k'] == 'array':
            b = self.value_undef(e['t'], 'il%d' % self.st.ctr)
            b = self.init_array(b, e)
            loc = self.newloc(b)
            return LV(loc, ())
        if ty['k'] == 'rec':
            loc = self.newloc(self.models.new_record(self, e['t']))
            r = self.init_record(LV(loc, ()), e['t'], e)
            self.temps.append(r.loc)
            return r
        raise Unsupported('initlist')

    # ------------------------------------------------------------ calls
    def eval_args(self, e, fdecl=None):
        out = []
        pts = e.get('pt') or []
        for i, a in enumerate(e['a']):
            if i < len(pts) and self.prog.T(pts[i])['k'] == 'ref':
                v = self.eval(a)
                if not isinstance(v, LV):
                    v = LV(self.newloc(v), ())
                out.append(v)
            elif i < len(pts) and self.prog.T(pts[i])['k'] == 'rec' and not self.is_complex(pts[i]):
                v = self.eval(a)
                out.append(v)
            else:
                v = self.rval(a)
                if i < len(pts) and isinstance(v, Cond) and self.prog.T(pts[i])['k'] == 'int':
                    v = cond_to_poly(v)
                out.append(v)
        return out

    def finish(self, e, v):
        """value returned by a call -> expression value"""
        if isinstance(v, LV) and not e.get('lv'):
            ty = self.prog.T(e['t'])
            if ty['k'] == 'rec' and not self.is_complex(e['t']) and not v.path:
                self.temps.append(v.loc)
                return v
            return self.load(v)
        return v

    def e_call(self, e):
        if 'f' not in e:
            callee = self.eval(e['callee'])
            if isinstance(callee, LV):
                callee = self.load(callee)
            if isinstance(callee, Opaque) and callee.kind == 'func':
                e2 = dict(e)
                e2['f'] = callee.data['d']
                e2['q'] = callee.data['q']
                return self.e_call(e2)
            raise Unsupported('indirect call')
        f = self.prog.funcs.get(e['f'])
        r = self.models.call_model(self, e, f)
        if r is not self.models.NOMODEL:
            return r
        if f is None or 'body' not in f:
            raise Unsupported('call ' + e.get('q', '?'))
        args = self.eval_args(e)
        v = self.run_function(e['f'], None, args, e)
        return self.finish(e, v)

    def e_mcall(self, e):
        f = self.prog.funcs.get(e['f'])
        r = self.models.mcall_model(self, e, f)
        if r is not self.models.NOMODEL:
            return r
        b = self.eval(e['b'])
        if e.get('arrow'):
            if isinstance(b, LV):
                b = self.load(b)
            if isinstance(b, Opaque):
                self.oblige('bad-pointer', FALSE, 'call through an uninitialised pointer')
                raise Infeasible()
            b = b.lv
        if not isinstance(b, LV):
            b = LV(self.newloc(b), ())
        if f is None or 'body' not in f:
            if f is not None and f.get('defaulted') and f['n'] == 'operator=':
                src = self.eval(e['a'][0])
                self.store(b, self.load(src))
                return b
            raise Unsupported('method ' + e.get('q', '?'))
        args = self.eval_args(e)
        v = self.run_function(e['f'], b, args, e)
        return self.finish(e, v)

    def e_ctor(self, e):
        t = e['t']
        if self.is_complex(t):
            return self.models.complex_ctor(self, e)
        ty = self.prog.T(t)
        if ty['k'] == 'array':
            raise Unsupported('array ctor')
        loc = self.newloc(self.models.new_record(self, t))
        lv = self.init_record(LV(loc, ()), t, e)
        self.temps.append(lv.loc)
        return lv

    def init_record(self, lv, t, e):
        """initialise record storage lv from expression e; returns the final
        location (may be an adopted temporary)"""
        while e['k'] in ('cleanups', 'temp') or (e['k'] == 'cast' and e['ck'] in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion')):
            e = e['e']
        if e['k'] == 'ctor':
            if e.get('elid') and e['a']:
                return self.init_record(lv, t, e['a'][0])
            self.construct(e, lv)
            return lv
        if e['k'] == 'initlist':
            if len(e['a']) == 1 and self.prog.T(e['a'][0]['t'])['k'] == 'rec' and e['a'][0]['t'] == t:
                return self.init_record(lv, t, e['a'][0])
            r = self.prog.rec_of(t)
            if r and 'fields' in r:
                for x, a in zip(r['fields'], e['a']):
                    self.init_field(lv, x['n'], x['t'], a)
                return lv
            return self.models.construct_model(self, e, lv, t) or lv
        v = self.eval(e)
        if isinstance(v, LV):
            if v.loc in self.temps and not v.path:
                self.temps.remove(v.loc)
                if lv.path == () :
                    return v
                self.st.mem[lv.loc] = self.putraw(self.st.mem[lv.loc], lv.path, self.st.mem[v.loc])
                return lv
            if e.get('lv') is False or True:
                # prvalue placed elsewhere
                self.st.mem[lv.loc] = self.putraw(self.st.mem[lv.loc], lv.path, self.load(v))
                return lv
        if isinstance(v, (Rec, Opaque, Ptr)):
            self.st.mem[lv.loc] = self.putraw(self.st.mem[lv.loc], lv.path, v)
            return lv
        raise Unsupported('init record from %r' % (v,))

    def construct(self, e, lv):
        t = e['t']
        r = self.models.construct_model(self, e, lv, t)
        if r is not None:
            return
        f = self.prog.funcs.get(e['f'])
        if f is None or 'body' not in f:
            if (e.get('cc') or e.get('mc')) and (e.get('triv') or (f and f.get('defaulted'))):
                src = self.eval(e['a'][0])
                self.st.mem[lv.loc] = self.putraw(self.st.mem[lv.loc], lv.path, self.load(src))
                return
            if e.get('dc') and (e.get('triv') or (f and f.get('implicit'))):
                return
            raise Unsupported('ctor ' + e.get('q', '?'))
        args = self.eval_args(e)
        # any member not mentioned keeps its indeterminate value
        self.run_function(e['f'], lv, args, e)


def only_read(x, d, load=False):
    """every mention of variable d below x is read as a value"""
    if isinstance(x, list):
        return all(only_read(y, d) for y in x)
    if not isinstance(x, dict):
        return True
    if x.get('k') == 'ref' and x.get('d') == d:
        return load
    if x.get('k') == 'cast' and 'e' in x:
        return only_read(x['e'], d, x.get('ck') == 'LValueToRValue' or load and x.get('ck') == 'ArrayToPointerDecay')
    for k, y in x.items():
        if not only_read(y, d, load and x.get('k') == 'idx' and k == 'b') if isinstance(y, dict) else not only_read(y, d):
            return False
    return True


def simple_stmt(s):
    if s is None or s['k'] in ('null', 'expr'):
        return True
    if s['k'] == 'block':
        return all(simple_stmt(x) for x in s['b'])
    if s['k'] == 'if':
        return not s.get('init') and not s.get('cv') and simple_stmt(s['x']) and simple_stmt(s.get('y'))
    return False


def merge_val(I, c, v0, a, b):
    if a is b or a == b:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly) or isinstance(a, Cx) and isinstance(b, Cx):
        return ite(c, a, b)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return c_or(c_and(c, a), c_and(c_not(c), b))
    if isinstance(a, Rec) and isinstance(b, Rec):
        for k in a.f:
            if a.f[k] is not b.f[k]:
                a = a.with_(k, merge_val(I, c, v0.f[k], a.f[k], b.f[k]))
        return a
    if isinstance(a, Block) and isinstance(b, Block) and a.alive == b.alive and a.n is b.n and isinstance(v0, Block):
        return a._replace(content=merge_content(I, c, a.ety, v0.content, a.content, b.content))
    raise Unsupported('merge')


def cells_since(x, base):
    out = {}
    while x is not base:
        if x.kind == 'store':
            out.setdefault(x.args[1], x.args[2])
            x = x.args[0]
        elif x.kind == 'tab':
            if base.kind == 'tab' and x.args[0] is base.args[0]:
                for i, v in x.args[1].d.items():
                    if base.args[1].d.get(i) is not v:
                        out.setdefault(P(i), v)
                return out
            for i, v in x.args[1].d.items():
                out.setdefault(P(i), v)
            x = x.args[0]
        else:
            raise Unsupported('merge')
    return out


def merge_content(I, c, ety, base, a, b):
    if a is b:
        return a
    if any(isinstance(x, Objs) for x in (base, a, b)):
        raise Unsupported('merge')
    ca, cb = cells_since(a, base), cells_since(b, base)
    for i in list(ca) + list(cb):
        if not i.is_const() and not (len(ca) <= 1 and len(cb) <= 1 and set(ca) == set(cb)):
            raise Unsupported('merge')
    r = base
    f = Facts()
    for i in dict.fromkeys(list(ca) + list(cb)):
        vs = []
        for x in (ca, cb):
            v = x.get(i)
            if v is None:
                v = read(base, i, f, cx=I.is_complex(ety), ty=I.aty(ety))
            vs.append(v)
        r = store(r, i, merge_val(I, c, None, *vs))
    return r


def pure(e):
    k = e['k']
    if k in ('int', 'float', 'this'):
        return True
    if k == 'ref':
        return True
    if k == 'cast':
        return pure(e['e'])
    if k == 'mem':
        return pure(e['b'])
    if k == 'bin' and e['op'] in ('+', '-', '*'):
        return pure(e['x']) and pure(e['y'])
    return False


def literal(e):
    k = e['k']
    if k in ('int', 'float', 'bool'):
        return True
    if k == 'initlist':
        return True
    if k == 'cast':
        return literal(e['e'])
    if k == 'un':
        return e['op'] in ('-', '+') and literal(e['x'])
    if k == 'bin':
        return e['op'] in ('+', '-', '*', '/') and literal(e['x']) and literal(e['y'])
    return False


def side_free(e):
    k = e['k']
    if k in ('int', 'float', 'this', 'ref'):
        return True
    if k == 'cast':
        return side_free(e['e'])
    if k == 'mem':
        return side_free(e['b'])
    if k == 'bin':
        return e['op'] != ',' and side_free(e['x']) and side_free(e['y'])
    if k == 'un':
        return e['op'] in ('!', '-', '~', '+', '*') and side_free(e['x'])
    if k == 'idx':
        return side_free(e['b']) and side_free(e['i'])
    return False


class Frame:
    __slots__ = ('fn', 'this', 'env', 'locals', 'outer', 'built')

    def __init__(self, fn, this):
        self.fn, self.this, self.env, self.locals, self.outer, self.built = fn, this, {}, [], None, []

    def copy(self):
        f = Frame(self.fn, self.this)
        f.env = dict(self.env)
        f.locals = list(self.locals)
        f.outer = self.outer
        f.built = list(self.built)
        return f


import itertools as _it
_ctr2 = _it.count()


def strip_wrap(p):
    """indices: an intermediate unsigned wrap cancels in pointer arithmetic"""
    return strip_mod(p, 64)


def strip_mod(p, bits):
    """replace wrap(q, b>=bits) atoms appearing linearly by q (equal modulo 2^bits)"""
    ch = False
    res = ZERO
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1:
            at = atom_by_id(m[0][0])
            if at.op == 'wrap' and at.args[1] >= bits and isinstance(c, int):
                res = res + at.args[0] * c
                ch = True
                continue
        res = res + Poly.make({m: c})
    return res if ch else p


_undef_cache = {}


def undef_atoms(x, _d=0):
    """undef atoms a term directly depends on"""
    if isinstance(x, (Poly, Cond)):
        r = _undef_cache.get(x)
        if r is not None:
            return r
        s = set()
        if isinstance(x, Poly):
            for m in x.d:
                for a, e in m:
                    at = atom_by_id(a)
                    if at.op == 'undef':
                        s.add(at)
                    elif at.op in ('sym', 'bound', 'elem', 'sel'):
                        pass
                    else:
                        for y in children(at.op, at.args):
                            if not isinstance(y, Content):
                                s |= undef_atoms(y)
        else:
            if x.op == 'batom' and x.args[0] == 'undef':
                s.add(x)
            for y in children(x.op, x.args):
                s |= undef_atoms(y)
        _undef_cache[x] = s
        return s
    if isinstance(x, Cx):
        return undef_atoms(x.re) | undef_atoms(x.im)
    return set()


def any_undef(c, env):
    """the outcome of condition c really varies with the values that were never written"""
    if any(isinstance(u, Cond) for u in undef_atoms(c)):
        return True
    out = set()
    try:
        for v in (0, 1, -1, 2, 3, 100, -100, 1 << 20, 'a', 'b', 'c', 'd'):
            F.UNDEF[0] = v
            env.memo = {}
            out.add(bool(ev_cond(c, env)))
            if len(out) > 1:
                return True
    finally:
        F.UNDEF[0] = None
        env.memo = {}
    return False


_havoc_cache = {}


def has_havoc(x):
    if isinstance(x, (Poly, Cond)):
        r = _havoc_cache.get(x)
        if r is not None:
            return r
        r = False
        if isinstance(x, Poly):
            for m in x.d:
                for a, e in m:
                    at = atom_by_id(a)
                    if at.op == 'sel':
                        if content_havoc(at.args[0]):
                            r = True
                    for y in children(at.op, at.args):
                        if not isinstance(y, Content) and has_havoc(y):
                            r = True
        else:
            if x.op == 'batom' and x.args[0] not in ('allocfail',):
                r = True
            for y in children(x.op, x.args):
                if has_havoc(y):
                    r = True
        _havoc_cache[x] = r
        return r
    if isinstance(x, Cx):
        return has_havoc(x.re) or has_havoc(x.im)
    return False


def content_havoc(c):
    while c.kind in ('store', 'effect', 'tab'):
        if c.kind == 'tab':
            if any(has_havoc(v) for v in c.args[1].d.values()):
                return True
            c = c.args[0]
            continue
        v = c.args[2] if c.kind == 'store' else c.args[4]
        if has_havoc(v):
            return True
        c = c.args[0]
    return c.kind in ('havoc', 'loop')


def any_taint(xs):
    for x in xs:
        if x is None:
            continue
        for a in free_syms(x):
            if a.op == 'sym' and syminfo[a].taint:
                return True
    return False
