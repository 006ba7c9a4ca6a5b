"""Loop summarisation: every loop is replaced by closed forms, sums, folds and
array region effects valid for an arbitrary number of iterations."""
from terms import *
from facts import *
from arrays import *
import facts as F_
import interp as X

UNROLL = 4
import os
DEBUG = os.environ.get('LDEBUG')
INT64 = ('int', 64, False)


def ptrish(v):
    return isinstance(v, (X.Ptr, X.Opaque, X.RefV)) or v is None


class Cell:
    """a modified location: kind scalar | block | ptr | blkn"""
    __slots__ = ('kind', 'loc', 'path', 'head', 'syms', 'v0', 'step', 'hk', 'fin', 'block', 't')

    def key(self):
        return (self.kind, self.loc, self.path)


def diff_val(a, b, loc, path, out, I):
    """collect cell keys where value b differs from a"""
    if a is b:
        return
    if isinstance(a, X.Block) and isinstance(b, X.Block):
        if a.alive != b.alive:
            raise X.Unsupported('storage released in a loop')
        if a.n is not b.n:
            out.add(('blkn', loc, path))
        if a.content is not b.content:
            out.add(('block', loc, path))
        return
    if isinstance(a, X.Rec) and isinstance(b, X.Rec):
        for k in a.f:
            diff_val(a.f[k], b.f.get(k), loc, path + (k,), out, I)
        return
    if a == b:
        return
    if isinstance(a, X.Ptr) and isinstance(b, X.Ptr):
        if a.lv and b.lv and a.lv.loc == b.lv.loc and a.lv.path and b.lv.path and \
                isinstance(a.lv.path[-1], Poly) and a.lv.path[:-1] == b.lv.path[:-1]:
            out.add(('ptr', loc, path))
            return
        out.add(('obj', loc, path))
        return
    if isinstance(a, X.Opaque) or isinstance(b, X.Opaque):
        if isinstance(a, X.Opaque) and isinstance(b, X.Opaque) and a.kind == 'undef':
            return
        out.add(('obj', loc, path))
        return
    out.add(('scalar', loc, path))


def get_raw(st, loc, path):
    v = st.mem[loc]
    for s in path:
        v = v.f[s]
    return v


def set_raw(st, loc, path, val):
    def go(v, p):
        if not p:
            return val
        return v.with_(p[0], go(v.f[p[0]], p[1:]))
    st.mem[loc] = go(st.mem[loc], path)


def sub_syms(v):
    return valfree(v)


def set_head(I, st, key, uid):
    """replace the cell in st by a fresh head value; returns Cell"""
    c = Cell()
    c.kind, c.loc, c.path = key
    c.step = c.hk = c.fin = c.block = None
    raw = get_raw(st, c.loc, c.path)
    c.v0 = raw
    c.syms = []
    name = 'x%s' % uid
    if c.kind == 'block':
        cx = I.is_complex(raw.ety)
        lc = mkc('loop', '%s.%d.%d%s' % (name, I.st.ctr, c.loc, ''.join('.%s' % (p.id if isinstance(p, Poly) else p) for p in c.path)), cx, I.aty(raw.ety))
        c.head = lc
        c.v0 = raw.content
        c.block = raw
        set_raw(st, c.loc, c.path, raw._replace(content=lc))
        return c
    if c.kind == 'blkn':
        x = sym(name + 'n', INT64, taint=True, fresh=True)
        c.head = x
        c.v0 = raw.n
        c.syms = [sym_atom(x)]
        set_raw(st, c.loc, c.path, raw._replace(n=x))
        return c
    if c.kind == 'ptr':
        x = sym(name + 'p', ('int', 64, True), taint=True, fresh=True)
        c.head = x
        c.v0 = raw.lv.path[-1]
        c.syms = [sym_atom(x)]
        c.block = raw
        set_raw(st, c.loc, c.path, X.Ptr(X.LV(raw.lv.loc, raw.lv.path[:-1] + (x,))))
        return c
    t = cell_type(I, st, c.loc, c.path)
    c.t = t
    if isinstance(raw, Cx) or (t is not None and I.is_complex(t)):
        at = I.aty(t) if t is not None else ('float',)
        x, y = sym(name + 're', at, taint=True, fresh=True), sym(name + 'im', at, taint=True, fresh=True)
        c.head = Cx(x, y)
        c.syms = [sym_atom(x), sym_atom(y)]
    elif isinstance(raw, Cond) or (t is not None and I.prog.T(t)['k'] == 'bool'):
        x = sym(name + 'b', ('int', 1, False), taint=True, fresh=True)
        c.head = to_cond(x)
        c.syms = [sym_atom(x)]
        add_sym_fact(x, P(1) - x)
    else:
        at = I.aty(t) if t is not None else (INT64 if is_intlike(raw) else ('float',))
        x = sym(name, at, taint=True, fresh=True)
        c.head = x
        c.syms = [sym_atom(x)]
    set_raw(st, c.loc, c.path, c.head)
    return c


def cell_type(I, st, loc, path):
    t = st.mem.get(('t', loc))
    v = st.mem.get(loc)
    for s in path:
        if not isinstance(v, X.Rec):
            return None
        t = field_type(I, v.t, s)
        v = v.f.get(s)
        if t is None:
            return None
    return t


def field_type(I, t, name):
    r = I.prog.rec_of(t)
    if not r or 'fields' not in r:
        return None
    for f in r['fields']:
        if f['n'] == name:
            return f['t']
    for b in r.get('bases', []):
        x = field_type(I, b, name)
        if x is not None:
            return x
    return None


def put(I, st, c, val):
    """store a plain value into the cell"""
    raw = get_raw(st, c.loc, c.path)
    if c.kind == 'block':
        set_raw(st, c.loc, c.path, raw._replace(content=val))
    elif c.kind == 'blkn':
        set_raw(st, c.loc, c.path, raw._replace(n=val))
    elif c.kind == 'ptr':
        set_raw(st, c.loc, c.path, X.Ptr(X.LV(raw.lv.loc, raw.lv.path[:-1] + (val,))))
    else:
        set_raw(st, c.loc, c.path, val)


def get(st, c):
    raw = get_raw(st, c.loc, c.path)
    if c.kind == 'block':
        return raw.content
    if c.kind == 'blkn':
        return raw.n
    if c.kind == 'ptr':
        return raw.lv.path[-1]
    return raw


_lc = {}
_E = frozenset()


def loops_in(x):
    """'loop' contents occurring in a term"""
    if isinstance(x, (Poly, Cond, C_, Atom)):
        r = _lc.get(x)
        if r is not None:
            return r
        s = set()
        if isinstance(x, Poly):
            for m in x.d:
                for a, e in m:
                    s |= loops_in(atom_by_id(a))
        elif isinstance(x, C_) and x.kind == 'loop':
            s.add(x)
        else:
            for y in x.args:
                s |= loops_in(y)
        r = frozenset(s) if s else _E
        _lc[x] = r
        return r
    if isinstance(x, Cx):
        return loops_in(x.re) | loops_in(x.im)
    if isinstance(x, tuple):
        s = _E
        for y in x:
            s = s | loops_in(y)
        return s
    if isinstance(x, X.Rec):
        s = _E
        for y in x.f.values():
            s = s | loops_in(y)
        return s
    return _E


def guard_of(pcs, common):
    return c_and(*[c for c in pcs if c not in common])


def run_loop(I, s, cond, body, inc):
    I.nloops += 1
    if I.opts.get('fix') is not None:
        # re-analysis of a refutation at its witness size: no summaries
        for _ in range(I.opts.get('unroll', 80)):
            if not cond():
                return
            try:
                body()
            except X.ContinueEx:
                pass
            except X.BreakEx:
                return
            inc()
        raise X.TooComplex('unrolling')
    uid = '%s' % s.get('l', '')
    quiet0 = I.quiet
    I.st.ctr += 1

    def iteration():
        if not cond():
            raise X.LoopExit()
        try:
            body()
        except X.ContinueEx:
            pass
        inc()

    base = I.st
    # ---- 1. which locations does an iteration modify?
    mods = set()
    I.quiet += 1
    try:
        for rnd in range(7):
            st = base.copy()
            cells = {}
            for key in sorted(mods, key=repr):
                cells[key] = set_head(I, st, key, uid)
            start = st.copy()
            res = I.explore(iteration, st)
            new = set()
            for kind, v, rst, pcs, frs in res:
                if kind not in ('normal', 'continue'):
                    continue
                for loc, val in start.mem.items():
                    if isinstance(loc, int) and loc in rst.mem:
                        diff_val(val, rst.mem[loc], loc, (), new, I)
            new -= mods
            if any(k[0] == 'obj' for k in new):
                ks = [k for k in new if k[0] == 'obj']
                raise X.Unsupported('loop at line %s re-seats an object (%s)' % (uid, ks[0][2]))
            if not new:
                break
            mods |= new
        else:
            raise X.Unsupported('loop modification fixpoint')
        cont = [r for r in res if r[0] in ('normal', 'continue')]
        headsyms = set()
        loopcs = set()
        for c in cells.values():
            headsyms |= set(c.syms)
            if c.kind == 'block':
                loopcs.add(c.head)
        # ---- 2. induction variables
        induct = {}
        for key, c in cells.items():
            if c.kind == 'block' or not cont:
                continue
            if not isinstance(c.head, Poly):
                continue
            d = None
            ok = True
            for r in cont:
                v = get(r[2], c)
                if not isinstance(v, Poly):
                    ok = False
                    break
                dd = v - c.head
                if not dd.is_const():
                    v = simplify(v, r[2].facts)
                    dd = v - c.head
                if d is None:
                    d = dd
                ok = ok and dd is d
            if ok and isinstance(c.v0, Poly) and not (free_syms(d) & headsyms) and not (loops_in(d) & loopcs) and not newer_syms(d, base):
                induct[key] = d
        # ---- 3. trip count
        k = I.fresh('kt', INT64)
        st2 = base.copy()
        for key in sorted(mods, key=repr):
            c2 = set_head(I, st2, key, uid)
            if key in induct:
                put(I, st2, cells[key], cells[key].v0 + induct[key] * k)
        start2 = st2.copy()
        cres = I.explore(lambda: cond(), st2)
    finally:
        I.quiet = quiet0
    ctrue = [r for r in cres if r[0] == 'normal' and r[1]]
    cfalse = [r for r in cres if r[0] == 'normal' and not r[1]]
    cond_effects = set()
    for r in cres:
        for loc, val in start2.mem.items():
            if isinstance(loc, int) and loc in r[2].mem:
                diff_val(val, r[2].mem[loc], loc, (), cond_effects, I)
    cond_effects = bool(cond_effects)

    def done():
        if cond_effects:
            if cond():
                raise X.Infeasible()

    bounds = []
    if ctrue and cfalse:
        common = set(ctrue[0][3])
        for r in ctrue[1:]:
            common &= set(r[3])
        k_at = sym_atom(k)
        for c in common:
            a = None
            if c.op == 'ge':
                ab = coef_of(c.args[0], k_at)
                if ab and ab[0].is_const() and ab[0].const() < 0 and not (free_syms(ab[1]) & headsyms) and not loops_in(ab[1]):
                    q = -ab[0].const()
                    a = ab[1]
                    if q == 1:
                        bounds.append((c, a, a + 1))
                    else:
                        bounds.append((c, a, 'div%d' % q))
            elif c.op == 'not' and c.args[0].op == 'eq':
                p = c.args[0].args[0]
                ab = coef_of(p, k_at)
                if ab and ab[0].is_const() and abs(ab[0].const()) == 1 and not (free_syms(ab[1]) & headsyms) and not loops_in(ab[1]):
                    n = -ab[1] * ab[0].const()
                    if I.st.facts.ge(n):
                        bounds.append((c, n - 1, n))
    if DEBUG:
        print('LOOP', uid, 'induct', induct, 'bounds', bounds, 'mods', sorted(mods, key=repr), 'ct', [r[3] for r in ctrue], 'cf', [r[3] for r in cfalse])
    if not ctrue:
        # never entered
        run_plain_cond(I, cond)
        return
    N = None
    for c, a, n in bounds:
        if not I.decide(c_ge(a)):
            if cond():
                raise X.Infeasible()
            return
    for c, a, n in bounds:
        if isinstance(n, str):
            n = fdiv_facts(a, P(int(n[3:])), I.st.facts) + 1
        if N is None:
            N = n
        elif not I.decide(c_ge(n - N)):
            N = n
    if N is not None and N.is_const() and N.const() <= UNROLL:
        for _ in range(N.const()):
            if not cond():
                return
            try:
                try:
                    body()
                except X.ContinueEx:
                    pass
            except X.BreakEx:
                return
            inc()
        done()
        return
    if not cont:
        # at most one iteration
        if not cond():
            return
        try:
            body()
        except X.BreakEx:
            return
        except X.ContinueEx:
            pass
        raise X.Infeasible()
    summarise(I, s, uid, cond, body, inc, iteration, base, mods, cells, induct, k, N, done)


def newer_syms(d, base):
    return False


def run_plain_cond(I, cond):
    if cond():
        raise X.Infeasible()


def summarise(I, s, uid, cond, body, inc, iteration, base, mods, cells0, induct, k, N, done):
    k = I.fresh('k', INT64, n=N)
    k_at = sym_atom(k)
    st = base.copy()
    cells = {}
    for key in sorted(mods, key=repr):
        c = set_head(I, st, key, uid)
        cells[key] = c
        if key in induct:
            put(I, st, c, c.v0 + induct[key] * k)
            c.hk = c.v0 + induct[key] * k
    if N is not None:
        st.facts.add(c_ge(N - 1 - k))
        st.facts.add(c_ge(N - 1))
    st.facts.cache = {}
    # Houdini-style bounds for the remaining integer scalars
    ints = [c for key, c in cells.items() if key not in induct and c.kind == 'scalar' and isinstance(c.head, Poly)
            and c.syms[0].ty[0] == 'int' and isinstance(c.v0, Poly) and not X.undef_atoms(c.v0)]
    start = st.copy()
    cand = []
    if ints:
        for c in ints:
            ups = [c.v0 + k]
            if N is not None:
                ups += [c.v0]
            for u in ups:
                cand.append((c, u - c.head))
            cand.append((c, c.head - c.v0))
            if I.st.facts.ge(c.v0):
                cand.append((c, c.head))
            cand.append((c, P(k) - c.head))
    # a loop left when a counter meets a bound has not passed it
    if N is None:
        hs = set()
        for c in cells.values():
            hs |= set(c.syms)
        for at in meets(I, iteration, start, k_at):
            if free_syms(at) & hs:
                continue
            cand.append((None, at - k))
    I.quiet += 1
    try:
        rounds = 0
        while cand and rounds < 5:
            rounds += 1
            stx = start.copy()
            for c, p in cand:
                stx.facts.add(c_ge(p))
            res = I.explore(iteration, stx)
            keep = []
            for c, p in cand:
                # initially true?
                p0 = subst(subst(p, {c.syms[0]: c.v0}) if c is not None else p, {k_at: ZERO})
                if not I.st.facts.ge(p0):
                    continue
                ok = True
                for r in res:
                    if r[0] not in ('normal', 'continue'):
                        continue
                    p1 = subst(p, {k_at: k + 1})
                    if c is not None:
                        v = get(r[2], c)
                        if not isinstance(v, Poly):
                            ok = False
                            break
                        p1 = replace_atom_sym(p1, c.syms[0], v)
                    if not r[2].facts.ge(p1):
                        ok = False
                        break
                if ok:
                    keep.append((c, p))
            if len(keep) == len(cand):
                break
            cand = keep
    finally:
        I.quiet -= 1
    for c, p in cand:
        start.facts.add(c_ge(p))
    # ---- final run of a generic iteration with obligations on
    ctr0 = start.ctr
    res = I.explore(iteration, start.copy())
    cont = [r for r in res if r[0] in ('normal', 'continue')]
    early = [r for r in res if r[0] in ('exit', 'break', 'return', 'throw')]
    for r in cont:
        if len(r[2].facts.ges) > 400:
            raise X.TooComplex('facts')
    if not cont and not early:
        raise X.Infeasible()
    if not cont:
        if not cond():
            return
        try:
            body()
        except X.BreakEx:
            return
        except X.ContinueEx:
            pass
        raise X.Infeasible()
    # verify the induction claims once more
    for key, d in induct.items():
        c = cells[key]
        for r in cont:
            v = get(r[2], c)
            if v is not c.v0 + d * (k + 1):
                v2 = simplify(v, r[2].facts)
                if v2 is not c.v0 + d * (k + 1) and r[2].facts.decide(c_eq(v2 - c.v0 - d * (k + 1))) is not True:
                    raise X.Unsupported('induction variable not confirmed at line %s' % uid)
    for r in cont:
        for loc, v in r[2].mem.items():
            if isinstance(loc, int) and loc not in start.mem and isinstance(v, X.Block) and v.alive and v.kind in ('alloc', 'new', 'newarr', 'malloc'):
                I.curline = s.get('l')
                sv = I.st
                I.st = r[2]
                I.oblige('leak', FALSE, 'storage allocated in the loop is not released', extra=())
                I.st = sv
                break
    common = set(cont[0][3])
    for r in cont[1:]:
        common &= set(r[3])
    S = Summary(I, uid, base, cells, induct, k, N, start, cont, common)
    S.solve()
    # ---- facts that hold after at least one iteration
    post = []
    for c in common:
        fs = free_syms(c)
        if fs & S.unk or loops_in(c) & S.loopcs:
            continue
        post.append(c)
    E = None
    if early:
        gs = []
        bad = False
        for r in early:
            g = c_and(*r[3])
            g = S.close(g)
            if free_syms(g) & S.unk or loops_in(g) & S.loopcs:
                bad = True
            gs.append(g)
        E = c_or(*gs)
        taintexit = bad
        if bad:
            I.st.ctr += 1
            ex = Cond.make('batom', 'havoc-exit', uid, I.st.ctr)
        else:
            bound = N if N is not None else P(2 ** 62)
            ex = c_exists(k, bound, E)
        take = True if N is None else None
        if take is None:
            q = I.st.facts.decide(ex)
            take = q if q is not None else I.choose(ex)
        if take:
            if bad:
                K = I.fresh('K', INT64, taint=True)
            else:
                dep = depth_of(E) + 1
                body_ = subst(E, {k_at: bound_sym(dep)})
                K = atom_poly(mk_atom('first', (dep, N if N is not None else P(2 ** 62), body_), INT64))
            I.st.facts.add(c_ge(K))
            if N is not None:
                I.st.facts.add(c_ge(N - 1 - K))
            if not bad:
                I.st.facts.add(subst(E, {k_at: K}))
            if I.decide(c_eq(K)):
                K = ZERO
            else:
                S.apply(I.st, K)
                instantiate(I, post, k_at, K)
            if not cond():
                return
            try:
                body()
            except X.BreakEx:
                return
            except X.ContinueEx:
                pass
            raise X.Infeasible()
    if N is None:
        raise X.Unsupported('unbounded loop at line %s' % uid)
    S.apply(I.st, N)
    instantiate(I, post, k_at, N)
    done()


def meets(I, iteration, start, k_at):
    """bounds a with an exit taken exactly when k == a"""
    out = []
    I.quiet += 1
    try:
        res = I.explore(iteration, start.copy())
    finally:
        I.quiet -= 1
    for r in res:
        if r[0] not in ('exit', 'break', 'return'):
            continue
        for c in r[3]:
            if c.op != 'eq':
                continue
            ab = coef_of(c.args[0], k_at)
            if ab and ab[0].is_const() and abs(ab[0].const()) == 1 and not loops_in(ab[1]):
                a = -ab[1] * ab[0].const()
                if all(b is not a for b in out):
                    out.append(a)
    return out


def instantiate(I, post, k_at, M):
    for c in post:
        if k_at in free_syms(c):
            for v in (ZERO, M - 1):
                I.st.facts.add(subst(c, {k_at: v}))
        else:
            I.st.facts.add(c)


def replace_atom_sym(p, at, v):
    return subst(p, {at: v})


def repl_atom(x, at, v, d=0):
    """replace an atom inside bit-level and conditional terms; None when it hides elsewhere"""
    if d > 12:
        return None
    if isinstance(x, Cond):
        if x in (TRUE, FALSE):
            return x
        mk = {'ge': c_ge, 'eq': c_eq, 'not': c_not, 'and': c_and, 'or': c_or}.get(x.op)
        if mk is None:
            return None
        ys = [repl_atom(y, at, v, d + 1) for y in x.args]
        return None if any(y is None for y in ys) else mk(*ys)
    r = ZERO
    for m, c in x.d.items():
        t = P(c)
        for a, e in m:
            y = atom_by_id(a)
            if y is at:
                w = v
            elif y.op in ('sym', 'elem', 'bound'):
                w = atom_poly(y)
            elif y.op in ('and', 'or', 'xor', 'shl', 'shr', 'wrap', 'ite', 'fdiv'):
                args = [repl_atom(z, at, v, d + 1) if isinstance(z, (Poly, Cond)) else z for z in y.args]
                if any(z is None for z in args):
                    return None
                w = REBUILD[y.op](y, args, {}) if y.op != 'ite' else ite(*args)
            else:
                w = atom_poly(y)
                if y.op == 'sel':
                    return None
            for _ in range(e):
                t = t * w
        r = r + t
    return r


class W:
    """one array write of a generic iteration"""
    __slots__ = ('binders', 'guard', 'idx', 'val')

    def __init__(self, binders, guard, idx, val):
        self.binders, self.guard, self.idx, self.val = binders, guard, idx, val


def chain(c, head):
    """writes from head to c, oldest first; None if c is not built on head"""
    out = []
    while c is not head:
        if c.kind == 'store':
            out.append(((), TRUE, c.args[1], c.args[2]))
        elif c.kind == 'effect':
            ren, nb = open_binders(c.args[1])
            out.append((nb, vsubst(c.args[2], ren), vsubst(c.args[3], ren), vsubst(c.args[4], ren)))
        else:
            return None
        c = c.args[0]
    out.reverse()
    return out


class Summary:
    def __init__(self, I, uid, base, cells, induct, k, N, start, cont, common):
        self.I, self.uid, self.base, self.cells, self.induct = I, uid, base, cells, induct
        self.k, self.N, self.start, self.cont, self.common = k, N, start, cont, common
        self.k_at = sym_atom(k)
        self.unk = set()
        self.loopcs = set()
        self.sub = {}
        self.facts = start.facts.copy()
        for c in common:
            if not free_syms(c) & self.unk:
                self.facts.add(c)
        for key, c in cells.items():
            if key in induct:
                continue
            self.unk |= set(c.syms)
            if c.kind == 'block':
                self.loopcs.add(c.head)
        self.replaced = {}     # loop content resolution cache
        self.lresolve = {}     # loop content -> resolver

    # -- merged step value over the continuing paths
    def merged(self, c):
        vals = [(guard_of(r[3], self.common), get(r[2], c)) for r in self.cont]
        v = vals[-1][1]
        for g, x in reversed(vals[:-1]):
            if x is v or x == v:
                continue
            if not (mergeable(x) and mergeable(v)):
                return None
            v = ite(g, x, v)
        return v

    def close(self, x, k=None):
        """substitute solved head values and resolvable loop reads"""
        for _ in range(6):
            y = x
            y = self.resolve(y)
            if self.sub and (free_syms(y) & self.sub.keys()):
                y = vsubst(y, self.sub)
            if y is x or y == x:
                return y
            x = y
        return x

    def dirty(self, x):
        return bool(valfree(x) & self.unk) or bool(loops_in(x) & self.loopcs)

    # ---- resolution of reads of loop-modified arrays
    def resolve(self, x):
        if not (loops_in(x) & self.loopcs):
            return x
        return self.rw(x)

    def rw(self, x):
        if isinstance(x, Cx):
            return Cx(self.rw(x.re), self.rw(x.im))
        if isinstance(x, Cond):
            if not (loops_in(x) & self.loopcs):
                return x
            o = x.op
            if o == 'exists':
                dep, n, b = x.args
                e = sym('e', fresh=True)
                add_sym_fact(e, n - 1 - e)
                b2 = subst(b, {mk_atom('bound', (dep,), INT64): e})
                return c_exists(e, self.rw(n), self.rw(b2))
            mk = {'ge': c_ge, 'eq': c_eq, 'deq': lambda p: c_eq(p, False), 'dgt': c_dgt, 'dge': c_dge, 'not': c_not, 'and': c_and, 'or': c_or}.get(o)
            if mk is None:
                return x
            return mk(*[self.rw(y) for y in x.args])
        if isinstance(x, Poly):
            if not (loops_in(x) & self.loopcs):
                return x
            v = self.replaced.get(x)
            if v is not None:
                return v
            res = ZERO
            for m, c in x.d.items():
                t = P(c)
                for a, e in m:
                    w = self.rw_atom(atom_by_id(a))
                    for _ in range(e):
                        t = t * w
                res = res + t
            res = cancel(res)
            self.replaced[x] = res
            return res
        return x

    def rw_atom(self, at):
        if not (loops_in(at) & self.loopcs):
            return atom_poly(at)
        o = at.op
        if o == 'sel':
            c, idx, part = at.args
            idx2 = self.rw(idx)
            v = self.read_loop(c, idx2, part, at)
            if v is None:
                return atom_poly(mk_atom('sel', (c, idx2, part), at.ty))
            return v
        if o == 'ite':
            return ite(self.rw(at.args[0]), self.rw(at.args[1]), self.rw(at.args[2]))
        if o == 'sum':
            j, n, b = open_sum(at)
            return mk_sum(j, self.rw(n), self.rw(b))
        if o == 'inv':
            return rdiv(ONE, self.rw(at.args[0]))
        if o == 'foldv':
            which, deps, n, inits, steps = at.args
            fresh = [sym('fp', fresh=True, ty=('int', 64, True)) for d in deps]
            bs = [mk_atom('bound', (d,), INT64) for d in deps]
            m1 = dict(zip(bs, fresh))
            steps2 = tuple(self.rw(subst(s_, m1)) for s_ in steps)
            return mk_fold(which, fresh[0], fresh[1:], self.rw(n), tuple(self.rw(i) for i in inits), steps2, at.ty)
        if o == 'first':
            return atom_poly(at)
        if o in REBUILD:
            return REBUILD[o](at, [self.rw(y) if isinstance(y, (Poly, Cond)) else y for y in at.args], {})
        return atom_poly(mk_atom(o, tuple(self.rw(y) if isinstance(y, (Poly, Cond)) else y for y in at.args), at.ty))

    def read_loop(self, c, idx, part, at):
        """element of a chain over loop-modified content, as seen at the head of iteration k"""
        if c.kind != 'loop':
            # store/effect chain on a loop content: re-read with facts first
            v = read(c, idx, self.facts, cx=bool(part), ty=at.ty)
            if isinstance(v, Cx):
                v = v.re if part == 're' else v.im
            if isinstance(v, Poly) and v is not atom_poly(at):
                return self.rw(v)
            # rebuild the chain on the pre-loop content when the base is untouched at every index: give up
            return None
        f = self.lresolve.get(c)
        if f is None:
            return None
        return f(idx, part, at)

    # ------------------------------------------------------------------
    def solve(self):
        I, k, N = self.I, self.k, self.N
        scal = {}
        blocks = {}
        for key, c in self.cells.items():
            if key in self.induct:
                c.fin = (lambda c, d: lambda M: c.v0 + d * M)(c, self.induct[key])
                continue
            if c.kind == 'block':
                blocks[key] = c
                c.step = self.collect(c)
            else:
                c.step = self.merged(c)
                scal[key] = c
        self.scal, self.blocks = scal, blocks
        # how can reads of each modified array be resolved?
        for key, c in blocks.items():
            self.plan_block(c)
        pending = dict(scal)
        progress = True
        while progress:
            progress = False
            for key, c in list(pending.items()):
                if c.step is None:
                    continue
                c.step = self.close(c.step)
                if self.solve_scalar(c):
                    del pending[key]
                    progress = True
            for key, c in blocks.items():
                self.retry_block(c)
            if not progress and pending:
                if self.solve_fold(pending):
                    progress = True
        for c in pending.values():
            c.fin = None
        for key, c in blocks.items():
            self.finish_block(c)

    def solve_scalar(self, c):
        k, k_at = self.k, self.k_at
        step = c.step
        own = set(c.syms)
        if not self.dirty(step):
            v0 = c.v0
            c.hk = self.shift(v0, step)
            c.fin = (lambda v0, step: lambda M: self.at_last(v0, step, M))(v0, step)
            self.learn(c)
            return True
        if isinstance(c.head, Poly) and isinstance(step, Poly) and isinstance(c.v0, Poly):
            g = self.addend(step, c.head)
            if g is not None and not self.dirty(g):
                c.hk = c.v0 + self.sum_to(g, k)
                c.fin = (lambda v0, g: lambda M: v0 + self.sum_to(g, M))(c.v0, g)
                self.learn(c)
                return True
        if isinstance(c.head, Cx) and isinstance(step, Cx):
            v0 = to_cx(c.v0)
            g1 = self.addend(step.re, c.head.re)
            g2 = self.addend(step.im, c.head.im)
            if g1 is not None and g2 is not None and not self.dirty(g1) and not self.dirty(g2):
                c.hk = Cx(v0.re + self.sum_to(g1, k), v0.im + self.sum_to(g2, k))
                c.fin = (lambda v0, g1, g2: lambda M: Cx(v0.re + self.sum_to(g1, M), v0.im + self.sum_to(g2, M)))(v0, g1, g2)
                self.learn(c)
                return True
        return False

    def addend(self, step, head):
        """step == head + g  (also under conditional values)"""
        h_at = sym_atom(head)
        g = step - head
        if h_at not in free_syms(g):
            return g
        # single conditional: ite(c, head+g1, head+g2)
        if len(step.d) == 1:
            (m, c), = step.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                at = atom_by_id(m[0][0])
                if at.op == 'ite' and h_at not in free_syms(at.args[0]):
                    a = self.addend(at.args[1], head)
                    b = self.addend(at.args[2], head)
                    if a is not None and b is not None:
                        return ite(at.args[0], a, b)
        return None

    def sum_to(self, g, M):
        j = sym('j', fresh=True)
        add_sym_fact(j, P(M) - 1 - j)
        return mk_sum(j, P(M), subst(g, {self.k_at: j}))

    def shift(self, v0, step):
        """head value at iteration k of a variable overwritten each iteration"""
        prev = vsubst(step, {self.k_at: self.k - 1})
        if prev is v0 or prev == v0:
            return v0
        if not (mergeable(v0) and mergeable(prev)):
            return None
        q = self.facts.decide(c_ge(self.k - 1))
        return ite(c_eq(self.k), v0, prev)

    def at_last(self, v0, step, M):
        return vsubst(step, {self.k_at: P(M) - 1})

    def learn(self, c):
        """record the closed form of the head value"""
        if c.hk is None:
            return
        if isinstance(c.head, Cx):
            hk = to_cx(c.hk)
            self.sub[c.syms[0]] = hk.re
            self.sub[c.syms[1]] = hk.im
        elif isinstance(c.head, Cond):
            self.sub[c.syms[0]] = cond_to_poly(c.hk) if isinstance(c.hk, Cond) else c.hk
        else:
            self.sub[c.syms[0]] = c.hk
        self.unk -= set(c.syms)
        self.replaced.clear()

    def solve_fold(self, pending):
        """mutually dependent scalars: an explicit fold"""
        group = {key: c for key, c in pending.items() if c.step is not None}
        while True:
            allowed = set()
            for c in group.values():
                allowed |= set(c.syms)
            drop = [key for key, c in group.items()
                    if not isinstance(c.head, (Poly, Cond, Cx)) or not mergeable(c.v0) or not mergeable(c.step)
                    or (valfree(c.step) & self.unk) - allowed or loops_in(c.step) & self.loopcs]
            if not drop:
                break
            for key in drop:
                del group[key]
        if not group:
            return False
        # restrict to one dependency-closed group: smallest first
        params, inits, steps, tys, own = [], [], [], [], []
        for key, c in sorted(group.items(), key=lambda t: repr(t[0])):
            if isinstance(c.head, Cx):
                v0, stp = to_cx(c.v0), to_cx(c.step)
                parts = [(c.syms[0], v0.re, stp.re), (c.syms[1], v0.im, stp.im)]
            elif isinstance(c.head, Cond):
                parts = [(c.syms[0], cond_to_poly(to_cond(c.v0)), cond_to_poly(to_cond(c.step)))]
            else:
                stp = c.step if isinstance(c.step, Poly) else cond_to_poly(c.step)
                v0 = c.v0 if isinstance(c.v0, Poly) else cond_to_poly(c.v0)
                parts = [(c.syms[0], v0, stp)]
            for a, i0, s0 in parts:
                own.append((c, len(params)))
                params.append(atom_poly(a))
                inits.append(i0)
                steps.append(s0)
                tys.append(a.ty)
        k = self.k

        def mk(which, M):
            # keep only the parameters this one depends on
            need = {which}
            while True:
                more = set(need)
                for i in need:
                    fs = free_syms(steps[i])
                    for j, p in enumerate(params):
                        if sym_atom(p) in fs:
                            more.add(j)
                if more == need:
                    break
                need = more
            order = sorted(need, key=lambda j: (j != which, repr(steps[j])))
            kk = sym('k', fresh=True)
            ps = [sym('fp', ty=params[j] and tys[j], fresh=True) for j in order]
            mp = {self.k_at: kk}
            for j, p in zip(order, ps):
                mp[sym_atom(params[j])] = p
            r = mk_fold(0, kk, ps, P(M), tuple(inits[j] for j in order), tuple(subst(steps[j], mp) for j in order), tys[which])
            self.fold_bounds(r, steps[which], params[which], inits[which], M)
            return r
        idxs = {}
        for c, i in own:
            idxs.setdefault(id(c), (c, []))[1].append(i)
        for c, ii in idxs.values():
            if isinstance(c.head, Cx):
                c.hk = Cx(mk(ii[0], k), mk(ii[1], k))
                c.fin = (lambda ii: lambda M: Cx(mk(ii[0], M), mk(ii[1], M)))(ii)
            elif isinstance(c.head, Cond):
                c.hk = to_cond(mk(ii[0], k))
                c.fin = (lambda ii: lambda M: to_cond(mk(ii[0], M)))(ii)
            else:
                c.hk = mk(ii[0], k)
                c.fin = (lambda ii: lambda M: mk(ii[0], M))(ii)
        for key in group:
            self.learn(group[key])
            pending.pop(key, None)
        return True

    def fold_bounds(self, r, step, param, init, M):
        """bounds of an integer fold whose step either keeps the value or sets it to
        a value inside [lo, hi]"""
        at = sym_atom_any(r)
        if at is None or at.ty[0] != 'int' or at.op != 'foldv' or at.facts is not None:
            return
        at.facts = []
        if len(at.ty) > 2 and not at.ty[2]:
            at.facts.append(r)
        M = P(M)
        for lo in (init, ZERO):
            # x >= lo inductive?
            f = self.facts.copy()
            f.add(c_ge(param - lo))
            if self.facts.ge(init - lo) and leafs_ge(step, lambda v, ff: ff.ge(v - lo), f):
                at.facts.append(r - lo)
                break
        f = self.facts.copy()
        f.cache = {}
        hi = init + M - 1
        # x <= init + k pattern / x <= M-1 pattern
        for hi, cond0 in ((init, init), (M - 1, init), (M, init)):
            f = self.facts.copy()
            f.cache = {}
            f.add(c_ge(hi - param))
            f.add(c_ge(M - 1 - self.k))
            if self.facts.ge(hi - init) or (hi is not init and f.ge(hi - init)):
                if leafs_ge(step, lambda v, ff: ff.ge(hi - v), f):
                    at.facts.append(hi - r)
                    break

    # ---------------------------------------------------------------- arrays
    def collect(self, c):
        """writes of a generic iteration: list of W, or None"""
        out = []
        for r in self.cont:
            ch = chain(get(r[2], c), c.head)
            if ch is None:
                return None
            g = guard_of(r[3], self.common)
            for b, gg, i, v in ch:
                out.append(W(b, c_and(g, gg), i, v))
        # identical unconditional writes on all paths
        if len(self.cont) > 1:
            out = self.merge_writes(c, out)
        return out

    def merge_writes(self, c, out):
        """one store per path at the same index -> a single conditional store"""
        chs = [chain(get(r[2], c), c.head) for r in self.cont]
        n = max(len(x) for x in chs)
        if n == 0:
            return []
        # all stores with the same index sequence?
        idxs = []
        for x in chs:
            for b, g, i, v in x:
                if b:
                    return out
                if i not in idxs:
                    idxs.append(i)
        if len(idxs) != 1:
            return out
        i = idxs[0]
        hv = read(c.head, i, self.facts, cx=c.head.args[1], ty=c.head.args[2])
        if not all(mergeable(x[-1][3]) for x in chs if x):
            return out
        v = None
        for r, x in reversed(list(zip(self.cont, chs))):
            val = x[-1][3] if x else hv
            v = val if v is None else ite(guard_of(r[3], self.common), val, v)
        return [W((), TRUE, i, v)]

    def conflicts(self, c, w, idx, strict=True):
        """may an earlier iteration k' < k write element idx (idx depends on k)?"""
        k2 = sym("k'", fresh=True)
        ren = {self.k_at: k2}
        mb = {}
        nb = []
        for b, n in w.binders:
            s_ = sym('b', fresh=True)
            mb[b] = s_
            nb.append((s_, n))
        mp = dict(ren)
        mp.update(mb)
        i2 = subst(w.idx, mp)
        f = self.facts.copy()
        f.cache = {}
        f.add(c_ge(self.k - 1 - k2))
        f.add(c_ge(self.k - 1))
        for s_, n in nb:
            add_sym_fact(s_, subst(n, mp) - 1 - s_)
        g = subst(w.guard, mp)
        if not self.dirty(g):
            f.add(g)
        for cc in self.common:
            if self.k_at in free_syms(cc) and not self.dirty(cc):
                f.add(subst(cc, ren))
        d = idx - i2
        return not f.neq0(d)

    def plan_block(self, c):
        """classify writes: invariant cell / disjoint"""
        c.hk = None
        ws = c.step
        if ws is None:
            return
        for w in ws:
            w.idx = self.resolve(w.idx)
        if any(self.dirty(w.idx) or any(self.dirty(n) for b, n in w.binders) for w in ws):
            # maybe solvable once scalars are closed
            c.hk = 'later'
            return
        # promoted cells: indices not depending on k nor binders
        if ws and all(not w.binders and self.k_at not in free_syms(w.idx) for w in ws):
            cells = []
            ok = True
            for w in ws:
                hit = None
                for j in cells:
                    q = self.facts.decide(c_eq(j - w.idx))
                    if q is True:
                        hit = j
                    elif q is None:
                        ok = False
                if hit is None:
                    cells.append(w.idx)
            if ok:
                c.hk = 'cells'
                self.promote(c, cells)
                return
        c.hk = 'disjoint'

        def res(idx, part, at, c=c, ws=ws):
            for w in ws:
                if self.conflicts(c, w, idx):
                    return None
            v = read(c.v0, idx, self.facts, cx=bool(part), ty=at.ty)
            if isinstance(v, Cx):
                v = v.re if part == 're' else v.im
            return v if isinstance(v, Poly) else None
        self.lresolve[c.head] = res

    def promote(self, c, cells):
        """treat fixed elements as scalar variables"""
        cx = c.head.args[1]
        ty = c.head.args[2]
        prom = []
        for n, j in enumerate(cells):
            pc = Cell()
            pc.kind, pc.loc, pc.path = 'elem', c.loc, c.path + (j,)
            pc.v0 = read(c.v0, j, self.facts, cx=cx, ty=ty)
            pc.block = c
            pc.hk = pc.fin = None
            pc.t = None
            if cx:
                x, y = sym('c.re', ty, taint=True, fresh=True), sym('c.im', ty, taint=True, fresh=True)
                pc.head, pc.syms = Cx(x, y), [sym_atom(x), sym_atom(y)]
            else:
                x = sym('c', ty, taint=True, fresh=True)
                pc.head, pc.syms = x, [sym_atom(x)]
            self.unk |= set(pc.syms)
            prom.append((j, pc))

        def res(idx, part, at):
            for j, pc in prom:
                q = self.facts.decide(c_eq(idx - j))
                if q is True:
                    if part:
                        return pc.head.re if part == 're' else pc.head.im
                    return pc.head
                if q is None:
                    return None
            v = read(c.v0, idx, self.facts, cx=bool(part), ty=at.ty)
            if isinstance(v, Cx):
                v = v.re if part == 're' else v.im
            return v if isinstance(v, Poly) else None
        self.lresolve[c.head] = res
        for j, pc in prom:
            # value at the end of an iteration, merged over the paths
            vals = []
            for r in self.cont:
                v = read(get(r[2], c), j, r[2].facts, cx=cx, ty=ty)
                vals.append((guard_of(r[3], self.common), v))
            v = vals[-1][1]
            for g, x in reversed(vals[:-1]):
                if x is not v and x != v:
                    if not (mergeable(x) and mergeable(v)):
                        v = None
                        break
                    v = ite(g, x, v)
            pc.step = v
            self.scal[('elem', c.loc, c.path, n_of(j))] = pc
        self.prom = getattr(self, 'prom', {})
        self.prom[c.key()] = prom

    def retry_block(self, c):
        if c.hk == 'later':
            ws = c.step
            for w in ws:
                w.idx = self.close(w.idx)
                w.binders = tuple((b, self.close(n)) for b, n in w.binders)
            if not any(self.dirty(w.idx) or any(self.dirty(n) for b, n in w.binders) for w in ws):
                c.hk = None
                self.plan_block(c)

    def finish_block(self, c):
        I = self.I
        I.st.ctr += 1
        hid = 'hv%s.%d' % (self.uid, I.st.ctr)
        cx, ty = c.head.args[1], c.head.args[2]

        def all_havoc(M):
            I.loops_havoc.append((self.uid, 'array'))
            return mkc('havoc', hid, cx, ty)
        if c.step is None or c.hk in (None, 'later'):
            c.fin = all_havoc
            return
        if c.hk == 'cells':
            prom = self.prom[c.key()]

            def fin(M):
                r = c.v0
                for j, pc in prom:
                    if pc.fin is None:
                        v = read(mkc('havoc', hid, cx, ty), j, self.facts, cx=cx, ty=ty)
                    else:
                        v = pc.fin(M)
                        if isinstance(v, Cond):
                            v = cond_to_poly(v)
                    r = store(r, j, v)
                return r
            c.fin = fin
            return
        ws = c.step
        for w in ws:
            w.val = self.close(w.val)
            w.guard = self.close(w.guard)
            w.idx = self.close(w.idx)
            w.binders = tuple((b, self.close(n)) for b, n in w.binders)
        # a later iteration may overwrite what an earlier one wrote, as long as the
        # writes can be ordered so that the last one in time is the last one in the
        # chain: edges i -> j mean "j may overwrite i"
        nw = len(ws)
        edge = set()
        ok = True
        clash = 0
        for a in range(nw):
            for b in range(nw):
                if a == b and invariant_write(ws[a], self.k_at):
                    continue
                if self.cross(ws[a], ws[b]):
                    clash += 1
                    if a == b:
                        ok = False
                        break
                    edge.add((a, b))
            if not ok:
                break
        if ok and clash:
            for a in range(nw):
                for b in range(a + 1, nw):
                    if self.meet(ws[a], ws[b]):
                        edge.add((a, b))
            order, left = [], list(range(nw))
            while left:
                free = [x for x in left if not any((y, x) in edge for y in left if y != x)]
                if not free:
                    ok = False
                    break
                order.append(free[0])
                left.remove(free[0])
            if ok:
                ws = c.step = [ws[x] for x in order]
        import os as _os
        if _os.environ.get('LDEBUG') and clash:
            print('ORDER', ok, edge)
            for w in ws: print('    W', [(repr(b),show(n)) for b,n in w.binders], w.guard, '[', show(w.idx), ']=', w.val)
        if not ok:
            # accumulation  a[idx] += g ?
            acc = self.accumulate(c, ws)
            if acc is None:
                acc = self.accumulate_fold(c, ws)
            if acc is not None:
                c.fin = acc
                return
            c.fin = all_havoc
            return

        def fin(M):
            r = c.v0
            for w in ws:
                kk = sym('k', fresh=True)
                add_sym_fact(kk, P(M) - 1 - kk)
                mp = {self.k_at: kk}
                g, i, v = subst(w.guard, mp), subst(w.idx, mp), vsubst(w.val, mp)
                if self.dirty(g):
                    g = TRUE
                    v = read(mkc('havoc', hid, cx, ty), i, self.facts, cx=cx, ty=ty)
                if self.dirty(v):
                    v = read(mkc('havoc', hid, cx, ty), i, self.facts, cx=cx, ty=ty)
                    I.loops_havoc.append((self.uid, 'values'))
                if isinstance(v, Cond):
                    v = cond_to_poly(v)
                bs = ((sym_atom(kk), P(M)),) + tuple((b, subst(n, mp)) for b, n in w.binders)
                used = free_syms(i) | valfree(v) | free_syms(g)
                for b, n in w.binders:
                    used |= free_syms(subst(n, mp))
                if sym_atom(kk) not in used:
                    bs = bs[1:]
                    if not bs:
                        if g is TRUE:
                            r = store(r, i, v)
                        else:
                            r = store(r, i, ite(g, v, read(r, i, self.facts, cx=cx, ty=ty)))
                        continue
                r = effect(r, bs, g, i, v)
            return r
        c.fin = fin

    def accumulate_fold(self, c, ws):
        """a[idx(k)] = F(a[idx(k)], k) with overlapping targets: one fold per cell"""
        if len(ws) != 1 or ws[0].binders:
            return None
        w = ws[0]
        cx, ty = c.head.args[1], c.head.args[2]
        if cx or self.dirty(w.idx) or self.dirty(w.guard):
            return None
        own = mk_atom('sel', (c.head, w.idx, ''), ty)
        p0 = sym('fp', ty=ty, fresh=True)
        v = w.val if isinstance(w.val, Poly) else cond_to_poly(w.val) if isinstance(w.val, Cond) else None
        if v is None:
            return None
        v = repl_atom(v, own, p0)
        if v is None or self.dirty(v):
            return None
        n = c.block.n

        def fin(M):
            j = sym('j', fresh=True)
            add_sym_fact(j, n - 1 - j)
            kk = sym('k', fresh=True)
            mp = {self.k_at: kk}
            hit = c_and(subst(w.guard, mp), c_eq(subst(w.idx, mp) - j))
            step = ite(hit, subst(v, mp), p0)
            pre = read(c.v0, j, self.facts, cx=cx, ty=ty)
            return effect(c.v0, ((sym_atom(j), n),), TRUE, j, mk_fold(0, kk, [p0], P(M), (pre,), (step,), ty))
        return fin

    def accumulate(self, c, ws):
        """a[idx(k,b)] = a[idx(k,b)] + g   with overlapping targets: gather form"""
        if len(ws) != 1:
            return None
        w = ws[0]
        cx, ty = c.head.args[1], c.head.args[2]
        parts = [('re', None), ('im', None)] if cx else [('', None)]
        gs = []
        for part, _ in parts:
            v = w.val if not cx else (to_cx(w.val).re if part == 're' else to_cx(w.val).im)
            own = mk_atom('sel', (c.head, w.idx, part), ty)
            g = v - atom_poly(own)
            if self.dirty(g):
                return None
            gs.append(g)
        if self.dirty(w.guard):
            return None
        # solve idx(k,b) == j for one binder with unit coefficient
        if len(w.binders) > 1:
            return None
        n = c.block.n

        def fin(M):
            j = sym('j', fresh=True)
            add_sym_fact(j, n - 1 - j)
            kk = sym('k', fresh=True)
            add_sym_fact(kk, P(M) - 1 - kk)
            mp = {self.k_at: kk}
            idx = subst(w.idx, mp)
            guard = subst(w.guard, mp)
            terms = [subst(g, mp) for g in gs]
            if w.binders:
                b, bn = w.binders[0]
                bn = subst(bn, mp)
                ab = coef_of(idx, b)
                if ab is None or not ab[0].is_const() or abs(ab[0].const()) != 1:
                    return mkc('havoc', 'acc%s' % self.uid, cx, ty)
                bv = (j - ab[1]) * ab[0].const()
                guard = c_and(subst(guard, {b: bv}), c_ge(bv), c_ge(bn - 1 - bv))
                terms = [subst(t, {b: bv}) for t in terms]
            else:
                guard = c_and(guard, c_eq(idx - j))
            pre = read(c.v0, j, self.facts, cx=cx, ty=ty)
            sums = [mk_sum(kk, P(M), ite(guard, t, ZERO)) for t in terms]
            if cx:
                pre = to_cx(pre)
                val = Cx(pre.re + sums[0], pre.im + sums[1])
            else:
                val = pre + sums[0]
            return effect(c.v0, ((sym_atom(j), n),), TRUE, j, val)
        return fin

    def cross(self, w1, w2):
        """may iterations k' < k touch the same element (w1 at k', w2 at k)?"""
        k1 = sym("k'", fresh=True)
        m1 = {self.k_at: k1}
        for b, n in w1.binders:
            s_ = sym('b', fresh=True)
            m1[b] = s_
        for b, n in w1.binders:
            add_sym_fact(m1[b], subst(n, m1) - 1 - m1[b])
        f = self.facts.copy()
        f.cache = {}
        f.add(c_ge(self.k - 1 - k1))
        f.add(c_ge(self.k - 1))
        for b, n in w2.binders:
            f.add(c_ge(n - 1 - atom_poly(b)))
        for g in (subst(w1.guard, m1), w2.guard):
            if not self.dirty(g):
                f.add(g)
        for cc in self.common:
            if self.k_at in free_syms(cc) and not self.dirty(cc):
                f.add(subst(cc, {self.k_at: k1}))
        d = subst(w1.idx, m1) - w2.idx
        return not (f.neq0(d) or f.infeasible())

    def meet(self, w1, w2):
        """may w1 and w2 touch the same element within one iteration?"""
        m1 = {}
        for b, n in w1.binders:
            m1[b] = sym('b', fresh=True)
        for b, n in w1.binders:
            add_sym_fact(m1[b], subst(n, m1) - 1 - m1[b])
        f = self.facts.copy()
        f.cache = {}
        for b, n in w2.binders:
            f.add(c_ge(n - 1 - atom_poly(b)))
        for g in (subst(w1.guard, m1), w2.guard):
            if not self.dirty(g):
                f.add(g)
        if f.infeasible():
            return False
        return not f.neq0(subst(w1.idx, m1) - w2.idx)

    # ---------------------------------------------------------------- result
    def apply(self, st, M):
        I = self.I
        for key, c in self.cells.items():
            v = c.fin(M) if c.fin is not None else None
            if v is None:
                I.loops_havoc.append((self.uid, 'scalar'))
                v = self.havoc_value(c)
            put(I, st, c, v)
        st.facts.cache = {}

    def havoc_value(self, c):
        if isinstance(c.head, Cx):
            return Cx(sym('hv', c.syms[0].ty, taint=True, fresh=True), sym('hv', c.syms[1].ty, taint=True, fresh=True))
        x = sym('hv', c.syms[0].ty, taint=True, fresh=True)
        if isinstance(c.head, Cond):
            return to_cond(x)
        return x


def n_of(p):
    return repr(p)


def invariant_write(w, k_at):
    """the same element gets the same value whichever iteration wrote last"""
    return k_at not in free_syms(w.idx) and k_at not in valfree(w.val) and k_at not in free_syms(w.guard) \
        and not any(k_at in free_syms(n) for b, n in w.binders)


def sym_atom_any(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return atom_by_id(m[0][0])
    return None


def leafs_ge(v, test, f):
    """test every leaf of a conditional value under its guard"""
    at = sym_atom_any(v) if isinstance(v, Poly) else None
    if at is not None and at.op == 'ite':
        c, a, b = at.args
        f1 = f.copy()
        f1.cache = {}
        f1.add(c)
        f2 = f.copy()
        f2.cache = {}
        f2.add(c_not(c))
        return leafs_ge(a, test, f1) and leafs_ge(b, test, f2)
    return test(v, f)


def ev_first(at, env):
    dep, n, body = at.args
    nv = ev(n, env)
    b = mk_atom('bound', (dep,), INT64)
    i = 0
    while i < nv:
        env.steps -= 20
        if env.steps < 0:
            raise Budget()
        if ev_cond(subst(body, {b: P(i)}), env):
            return i
        i += 1
    raise EvalError('no first')


EVALX['first'] = ev_first


def _rebuild_first(a, args, mp):
    dep, n, body = a.args
    e = sym('e', fresh=True)
    body = subst(subst(body, {mk_atom('bound', (dep,), INT64): e}), mp)
    d = depth_of(body) + 1
    return atom_poly(mk_atom('first', (d, subst(n, mp), subst(body, {sym_atom(e): bound_sym(d)})), INT64))


REBUILD['first'] = _rebuild_first
