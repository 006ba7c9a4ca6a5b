"""Array contents as chains of region effects, and reads through them."""
from terms import *
from facts import *
import facts as F_

_cintern = {}


class C_(Content):
    __slots__ = ('kind', 'args', '_f', '_d', 'id')

    def free(self):
        if self._f is None:
            s = set()
            if self.kind == 'effect':
                base, binders, guard, idx, val = self.args
                s |= free_syms(base)
                inner = free_syms(guard) | free_syms(idx) | valfree(val)
                for b, n in binders:
                    s |= free_syms(n)
                s |= inner - {b for b, n in binders}
            else:
                for y in self.args:
                    s |= valfree(y)   # also tables
            self._f = frozenset(s)
        return self._f

    def depth(self):
        if self._d is None:
            m = 0
            for y in self.args:
                if isinstance(y, (Poly, Cond, Cx, Content)):
                    m = max(m, depth_of(y))
                elif isinstance(y, tuple):
                    m = max(m, depth_of(tuple(t for t in y if not isinstance(t, str))))
            self._d = m
        return self._d

    def subst(self, mp):
        if not (self.free() & mp.keys()):
            return self
        k = self.kind
        if k == 'effect':
            base, binders, guard, idx, val = self.args
            # rename binders, so nothing is captured
            ren = {}
            nb = []
            m2 = dict(mp)
            for b, n in binders:
                m2.pop(b, None)
            for b, n in binders:
                n2 = subst(n, m2)
                s = sym('b', fresh=True)
                add_sym_fact(s, n2 - 1 - s)
                ren[b] = s
                nb.append((sym_atom(s), n2))
            f = lambda y: vsubst(vsubst(y, ren), m2)
            return effect(base.subst(mp), tuple(nb), f(guard), f(idx), f(val))
        return mkc(k, *[vsubst(y, mp) for y in self.args])

    def __repr__(self):
        if self.kind == 'store':
            return '%r{[%r]=%r}' % self.args
        if self.kind == 'effect':
            return '%r{for %s if %r: [%r]=%r}' % (self.args[0], ', '.join('%s<%r' % (b.args[0], n) for b, n in self.args[1]), self.args[2], self.args[3], self.args[4])
        return '%s%r' % (self.kind, self.args)


def valfree(y):
    if isinstance(y, (Poly, Cond, Cx, Content)):
        return free_syms(y)
    if hasattr(y, 'vfree'):
        return y.vfree()
    if isinstance(y, tuple):
        s = set()
        for t in y:
            s |= valfree(t)
        return s
    return frozenset()


def vsubst(y, mp):
    if hasattr(y, 'vsubst'):
        return y.vsubst(mp)
    if isinstance(y, tuple):
        return tuple(vsubst(t, mp) for t in y)
    return subst(y, mp)


def mkc(kind, *args):
    key = (kind, args)
    c = _cintern.get(key)
    if c is None:
        c = C_()
        c.kind, c.args, c._f, c._d = kind, args, None, None
        c.id = len(_cintern)
        _cintern[key] = c
    return c


def undef(uid, cx=False, ty=('float',)):
    return mkc('undef', uid, cx, ty)


TAB = [False]       # fixed-size analysis: long runs of stores at constant indices become tables


def store(base, idx, val):
    if base.kind == 'store' and base.args[1] is idx:
        base = base.args[0]
    if TAB[0] and idx.is_const():
        i = idx.const()
        if base.kind == 'tab':
            return mkc('tab', base.args[0], base.args[1].set(i, val))
        n, c = 0, base
        while c.kind == 'store' and c.args[1].is_const():
            n, c = n + 1, c.args[0]
        if n >= 24:
            d = c.args[1].d if c.kind == 'tab' else {}
            d = dict(d)
            ch = []
            c = base
            while c.kind == 'store' and c.args[1].is_const():
                ch.append((c.args[1].const(), c.args[2]))
                c = c.args[0]
            if c.kind == 'tab':
                c = c.args[0]
            for k, v in reversed(ch):
                d[k] = v
            d[i] = val
            return mkc('tab', c, Table(d))
    return mkc('store', base, idx, val)


class Table:
    """immutable mapping from constant index to value"""
    __slots__ = ('d', 'h')

    def __init__(self, d):
        self.d = d
        self.h = hash(frozenset((k, v) for k, v in d.items()))

    def set(self, i, v):
        d = dict(self.d)
        old = d.get(i)
        d[i] = v
        t = Table.__new__(Table)
        t.d = d
        t.h = hash(frozenset(d.items()))
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or isinstance(o, Table) and self.h == o.h and self.d == o.d

    def vfree(self):
        s = set()
        for v in self.d.values():
            s |= valfree(v)
        return s

    def vsubst(self, mp):
        return Table({k: vsubst(v, mp) for k, v in self.d.items()})

    def __repr__(self):
        return '{%d cells}' % len(self.d)


def effect(base, binders, guard, idx, val):
    for b, n in binders:
        if n.is_const() and n.const() <= 0:
            return base
    if guard is FALSE:
        return base
    return mkc('effect', base, binders, guard, idx, val)


def open_binders(binders):
    ren, nb = {}, []
    for b, n in binders:
        n2 = subst(n, ren)
        s = sym('b', fresh=True)
        add_sym_fact(s, n2 - 1 - s)
        ren[b] = s
        nb.append((sym_atom(s), n2))
    return ren, nb


def leaf_val(cx, f):
    if cx:
        return Cx(f('re'), f('im'))
    return f('')


def input_read(c, idx):
    name, cx, ty = c.args[0], c.args[1], c.args[2]
    return leaf_val(cx, lambda s: atom_poly(mk_atom('elem', (name + s,) + (idx,), ty)))


def undef_read(c, idx):
    uid, cx, ty = c.args
    return leaf_val(cx, lambda s: atom_poly(mk_atom('undef', (uid + s, idx), ty)))


def sel_atom(c, idx, cx, ty):
    return leaf_val(cx, lambda s: atom_poly(mk_atom('sel', (c, idx, s), ty)))


def root(c):
    while c.kind in ('store', 'effect', 'tab'):
        c = c.args[0]
    return c


def coef_of(p, at):
    """p = a*at + b ; returns (a, b) or None when not linear"""
    a, b = {}, {}
    for m, c in p.d.items():
        hit = False
        for i, e in m:
            if i == at.id:
                if e != 1:
                    return None
                hit = True
        if hit:
            a[tuple((i, e) for i, e in m if i != at.id)] = c
        else:
            b[m] = c
    A, B = Poly.make(a), Poly.make(b)
    if at in free_syms(A) or at in free_syms(B):
        return None
    return A, B


def pdivmod(p, a):
    """p = q*a + r for a polynomial stride a"""
    if len(a.d) == 1:
        return mono_divmod(p, a)
    lm = max(a.d, key=lambda m: (sum(e for _, e in m), m))
    lc = a.d[lm]
    if abs(lc) != 1:
        return ZERO, p
    q, r = ZERO, p
    need = dict(lm)
    for _ in range(24):
        hit = None
        for m, c in r.d.items():
            md = dict(m)
            if all(md.get(i, 0) >= e for i, e in need.items()):
                hit = (m, c, md)
                break
        if hit is None:
            return q, r
        m, c, md = hit
        for i, e in need.items():
            md[i] -= e
        t = Poly.make({tuple(sorted((i, e) for i, e in md.items() if e)): c * lc})
        q = q + t
        r = r - t * a
    return ZERO, p


def guard_bounds(binders, guard, facts):
    """candidate {binder: (lo, hi)} refinements by the conjuncts of a guard"""
    if guard is None or guard is TRUE:
        return []
    cs = guard.args if guard.op == 'and' else (guard,)
    bs = [b for b, n in binders]
    opts = []
    for b, n in binders:
        los, his = [ZERO], [n - 1]
        for c in cs:
            if c.op != 'ge':
                continue
            ab = coef_of(c.args[0], b)
            if ab is None or not ab[0].is_const() or any(x in free_syms(ab[1]) for x in bs):
                continue
            if ab[0].const() == 1 and facts.ge(-ab[1]):
                los.append(-ab[1])
            elif ab[0].const() == -1 and facts.ge(n - 1 - ab[1]):
                his.append(ab[1])
        opts.append([(b, l, h) for l in reversed(los) for h in reversed(his)][:4])
    out = [{}]
    for o in opts:
        out = [dict(g, **{}) | {b: (l, h)} for g in out for b, l, h in o][:12]
    return out


def range_of(p, binders, facts, gb=None):
    """(lo, hi) polys of p over the binders' ranges (each linear)"""
    lo = hi = p
    if gb:
        for b, n in binders:
            l, h = gb.get(b, (ZERO, n - 1))
            ab = coef_of(lo, b)
            a2 = coef_of(hi, b)
            if ab is None or a2 is None:
                return None
            if ab[0] is not ZERO:
                if facts.ge(ab[0]):
                    lo = ab[1] + ab[0] * l
                elif facts.ge(-ab[0]):
                    lo = ab[1] + ab[0] * h
                else:
                    return None
            if a2[0] is not ZERO:
                if facts.ge(a2[0]):
                    hi = a2[1] + a2[0] * h
                elif facts.ge(-a2[0]):
                    hi = a2[1] + a2[0] * l
                else:
                    return None
        return lo, hi
    for b, n in binders:
        for nm, tgt in (('lo', lo), ('hi', hi)):
            ab = coef_of(tgt, b)
            if ab is None:
                return None
            a, rest = ab
            if a is ZERO:
                continue
            if facts.ge(a):
                v = rest if nm == 'lo' else rest + a * (n - 1)
            elif facts.ge(-a):
                v = rest + a * (n - 1) if nm == 'lo' else rest
            else:
                return None
            if nm == 'lo':
                lo = v
            else:
                hi = v
    return lo, hi


def unify(fidx, target, binders, facts, guard=None):
    """solve fidx(binders) == target.
    returns ('none',) provably no solution | ('sol', {binder: poly}, extra_cond) | ('unk',)"""
    used = [(b, n) for b, n in binders if b in free_syms(fidx)]
    if not used:
        return ('sol', {}, c_eq(fidx - target))
    if len(used) == 1:
        b, n = used[0]
        ab = coef_of(fidx, b)
        if ab is None:
            return ('unk',)
        a, rest = ab
        d = target - rest
        if a.is_const():
            s = a.const()
            if s == 1:
                return ('sol', {b: d}, TRUE)
            if s == -1:
                return ('sol', {b: -d}, TRUE)
        if len(a.d) == 1:
            q, r = mono_divmod(d, a)
            if r is ZERO:
                return ('sol', {b: q}, TRUE)
            sg = 1
            if not facts.ge(a - 1):
                if facts.ge(-a - 1):
                    a, d, sg = -a, -d, -1
                    q, r = mono_divmod(d, a)
                else:
                    # a may be zero: only a hit when d==0 (any k)
                    return ('unk',)
            if facts.ge(r - 1) and facts.ge(a - 1 - r):
                return ('none',)
            if facts.ge(-r - 1) and facts.ge(a - 1 + r):
                return ('none',)
            if facts.ge(d):
                k = idiv_floor(d, a)
                return ('sol', {b: k}, c_eq(d - a * k))
            if facts.ge(-d - 1):
                return ('none',)
            return ('unk',)
        return ('unk',)
    # several binders: peel the binder with the largest stride
    cand = []
    for b, n in used:
        ab = coef_of(fidx, b)
        if ab is None:
            return ('unk',)
        a, rest = ab
        if len(a.d) >= 1:
            cand.append((a.degree(), len(a.d), abs(list(a.d.values())[0]), b, n, a, rest))
    cand.sort(key=lambda t: (-t[0], t[1], -t[2]))
    gb = guard_bounds(used, guard, facts)
    for dg, ln, cc, b, n, a, rest in cand:
        aa = a
        neg = False
        if not facts.ge(a - 1):
            if facts.ge(-a - 1):
                aa = -a
                neg = True
            else:
                continue
        others = [(x, m) for x, m in used if x is not b]
        tq, tr = pdivmod(target, aa)
        bq, br = pdivmod(rest, aa)
        rng = range_of(br, others, facts)
        if gb and (rng is None or not facts.ge(aa - 1 - (rng[1] - rng[0]))):
            for g in gb:
                r2 = range_of(br, others, facts, g)
                if r2 is not None and facts.ge(aa - 1 - (r2[1] - r2[0])):
                    rng = r2
                    break
        if rng is None:
            continue
        lo, hi = rng
        # br + aa*bq + (+-)aa*b == tr + aa*tq
        if not facts.ge(aa - 1 - (hi - lo)):
            continue
        for t in (0, 1, -1):
            cur = tr - aa * t
            if facts.ge(cur - lo) and facts.ge(lo + aa - 1 - cur):
                # unique alignment: quotients agree, remainder must match
                k = tq + t - bq
                if neg:
                    k = -k
                sub = unify(br, cur, others, facts, guard)
                if sub[0] != 'sol':
                    return sub
                m = dict(sub[1])
                m[b] = subst(k, m) if m else k
                return ('sol', m, sub[2])
        if len(aa.d) == 1 and facts.ge(lo) and facts.ge(aa - 1 - hi) and facts.ge(target - aa * bq):
            tt = target - aa * bq
            k = idiv_floor(tt, aa)
            r = tt - aa * k
            if neg:
                k = -k
            sub = unify(br, r, others, facts, guard)
            if sub[0] != 'sol':
                return sub
            m = dict(sub[1])
            m[b] = subst(k, m) if m else k
            return ('sol', m, sub[2])
    return ('unk',)


def read(c, idx, facts, cx=False, ty=('float',), fuel=60):
    """value of element idx of contents c under facts"""
    pend = []
    c0 = c
    res = None
    while True:
        fuel -= 1
        if fuel < 0:
            res = sel_atom(c, idx, cx, ty)
            break
        k = c.kind
        if k == 'undef':
            res = undef_read(c, idx)
            break
        if k == 'input':
            res = input_read(c, idx)
            break
        if k == 'const':
            res = c.args[0]
            break
        if k in ('loop', 'havoc'):
            res = sel_atom(c, idx, cx, ty)
            break
        if k == 'tab':
            if idx.is_const():
                v = c.args[1].d.get(idx.const())
                if v is not None:
                    res = v
                    break
                c = c.args[0]
                continue
            res = sel_atom(c, idx, cx, ty)
            break
        if k == 'store':
            base, i, v = c.args
            d = idx - i
            q = facts.decide(c_eq(d))
            if q is True:
                res = v
                break
            if q is False:
                c = base
                continue
            if not mergeable(v):
                res = sel_atom(c, idx, cx, ty)
                break
            pend.append((c_eq(d), v))
            c = base
            continue
        if k == 'effect':
            base, binders, guard, i, v = c.args
            ren, nb = open_binders(binders)
            i2 = vsubst(i, ren)
            u = unify(i2, idx, nb, facts, subst(guard, ren) if len(nb) > 1 else None)
            if u[0] == 'none':
                c = base
                continue
            if u[0] == 'unk':
                # maybe provably disjoint
                if disjoint(i2, idx, facts):
                    c = base
                    continue
                res = sel_atom(c, idx, cx, ty)
                break
            sol, extra = u[1], u[2]
            free_b = [b for b, n in nb if b not in sol]
            m = {b: v_ for b, v_ in sol.items()}
            v2 = vsubst(vsubst(v, ren), m)
            g2 = subst(subst(guard, ren), m)
            conds = [extra, g2]
            for b, n in nb:
                n2 = subst(n, m)
                if b in sol:
                    conds.append(c_ge(sol[b]))
                    conds.append(c_ge(n2 - 1 - sol[b]))
                else:
                    conds.append(c_ge(n2 - 1))
            if free_b:
                fs = set(free_b)
                if (valfree(v2) & fs) or (free_syms(g2) & fs):
                    res = sel_atom(c, idx, cx, ty)
                    break
            hit = TRUE
            dead = False
            for x in conds:
                q = facts.decide(x)
                if q is False:
                    dead = True
                    break
                if q is None:
                    hit = c_and(hit, x)
            if dead or hit is FALSE:
                c = base
                continue
            if hit is TRUE:
                res = v2
                break
            if not mergeable(v2):
                res = sel_atom(c, idx, cx, ty)
                break
            pend.append((hit, v2))
            c = base
            continue
        raise AssertionError(k)
    if len(pend) > 1 and res is not None and not idx.is_const():
        u = ubits(idx)
        if u is not None and len(pend) == 1 << u and all(h.op == 'eq' and (h.args[0] - idx).is_const() or h.op == 'eq' and (h.args[0] + idx).is_const() for h, v in pend):
            ks = {(idx - h.args[0]).const() if (idx - h.args[0]).is_const() else (h.args[0] + idx).const() for h, v in pend}
            if ks == set(range(1 << u)):
                res = pend.pop()[1]     # the stores cover every value of the index
    if pend and not mergeable(res):
        return sel_atom(c0, idx, cx, ty)
    for h, v in reversed(pend):
        res = ite(h, v, res)
    return res


def mergeable(v):
    return isinstance(v, (Poly, Cond, Cx))


def disjoint(i, j, facts):
    d = i - j
    if facts.ge(d - 1) or facts.ge(-d - 1):
        return True
    return facts.neq0(d)


# evaluation of selections at a point (for witnesses)
def ev_sel(at, env):
    c, idx, part = at.args
    i = ev(idx, env)
    return ev_read(c, i, env, part, at.ty)


def ev_read(c, i, env, part, ty):
    while True:
        env.steps -= 1
        if env.steps < 0:
            raise Budget()
        k = c.kind
        if k == 'undef':
            return ev_atom(mk_atom('undef', (c.args[0] + part, P(int(i))), c.args[2]), env)
        if k == 'input':
            return ev_atom(mk_atom('elem', (c.args[0] + part, P(int(i))), c.args[2]), env)
        if k == 'const':
            return pick(ev(c.args[0], env), part)
        if k in ('loop', 'havoc'):
            raise EvalError('havoc')
        if k == 'tab':
            v = c.args[1].d.get(int(i))
            if v is not None:
                return pick(ev(v, env), part)
            c = c.args[0]
            continue
        if k == 'store':
            if ev(c.args[1], env) == i:
                return pick(ev(c.args[2], env), part)
            c = c.args[0]
            continue
        base, binders, guard, ix, v = c.args
        hit = None
        for asg in enum(binders, env):
            e2 = Env.__new__(Env)
            e2.__dict__.update(env.__dict__)
            e2.memo = {}
            e2.vals = dict(env.vals)
            e2.vals.update(asg)
            env.steps -= 3
            if env.steps < 0:
                raise Budget()
            if ev(ix, e2) == i and ev_cond(guard, e2):
                hit = e2
        if hit is not None:
            return pick(ev(v, hit), part)
        c = base


def pick(v, part):
    if part == 're':
        return complex(v).real
    if part == 'im':
        return complex(v).imag
    return v


def enum(binders, env):
    if not binders:
        yield {}
        return
    (b, n) = binders[0]
    nv = int(ev(n, env))
    if nv > 200:
        raise Budget()
    for i in range(nv):
        e2 = Env.__new__(Env)
        e2.__dict__.update(env.__dict__)
        e2.memo = {}
        e2.vals = dict(env.vals)
        e2.vals[b] = i
        for r in enum(binders[1:], e2):
            d = {b: i}
            d.update(r)
            yield d


EVALX['sel'] = ev_sel


def _rebuild_sel(a, args, mp):
    c, idx, part = a.args
    return atom_poly(mk_atom('sel', (c.subst(mp), subst(idx, mp), part), a.ty))


REBUILD['sel'] = _rebuild_sel


# ---------------------------------------------------------------- simplify
def simplify(x, facts, depth=0):
    """re-normalise a term under facts"""
    if depth > 8:
        return x
    if isinstance(x, Cx):
        return Cx(simplify(x.re, facts, depth), simplify(x.im, facts, depth))
    if isinstance(x, Cond):
        if facts.sol:
            x = subst(x, facts.sol)
        q = facts.decide(x)
        if q is True:
            return TRUE
        if q is False:
            return FALSE
        o = x.op
        if o == 'and':
            return c_and(*[simplify(y, facts, depth + 1) for y in x.args])
        if o == 'or':
            return c_or(*[simplify(y, facts, depth + 1) for y in x.args])
        if o in ('ge', 'eq', 'deq', 'dgt', 'dge'):
            p = simplify(x.args[0], facts, depth + 1)
            if p is not x.args[0]:
                y = {'ge': c_ge, 'eq': c_eq, 'deq': lambda p: c_eq(p, False), 'dgt': c_dgt, 'dge': c_dge}[o](p)
                q = facts.decide(y)
                return TRUE if q is True else FALSE if q is False else y
            return x
        return x
    if not isinstance(x, Poly):
        return x
    if facts.sol:
        x = subst(x, facts.sol)
    key = ('simp', x)
    v = facts.cache.get(key)
    if v is not None:
        return v
    res = ZERO
    for m, c in x.d.items():
        t = P(c)
        for a, e in m:
            at = atom_by_id(a)
            s = simp_atom(at, facts, depth)
            for _ in range(e):
                t = t * s
        res = res + t
    res = cancel(res)
    facts.cache[key] = res
    return res


def simp_atom(at, facts, depth):
    o = at.op
    if o == 'ite':
        c = at.args[0]
        q = facts.decide(c)
        if q is None:
            c2 = simplify(c, facts, depth + 1)
            if c2 is not c:
                q = True if c2 is TRUE else False if c2 is FALSE else facts.decide(c2)
            c = c2
        if q is True:
            return simplify(at.args[1], facts, depth + 1)
        if q is False:
            return simplify(at.args[2], facts, depth + 1)
        f1 = facts.copy()
        f1.cache = {}
        f1.add(c)
        a = simplify(at.args[1], f1, depth + 1)
        f2 = facts.copy()
        f2.cache = {}
        f2.add(c_not(c))
        b = simplify(at.args[2], f2, depth + 1)
        # merging equal-valued branches under the condition
        if c.op == 'eq':
            s = solve_eq(c.args[0])
            if s and a is not b and subst(b, s) is subst(a, s):
                return b
        return ite(c, a, b)
    if o == 'fdiv':
        p = simplify(at.args[0], facts, depth + 1)
        q = simplify(at.args[1], facts, depth + 1)
        return fdiv_facts(p, q, facts)
    if o == 'sel':
        c, idx, part = at.args
        idx2 = simplify(idx, facts, depth + 1)
        v = read(c, idx2, facts, cx=bool(part), ty=at.ty)
        if isinstance(v, Cx):
            v = v.re if part == 're' else v.im
        if isinstance(v, Poly) and v is not atom_poly(at):
            return simplify(v, facts, depth + 1)
        return atom_poly(at)
    if o == 'sum':
        k, n, body = open_sum(at)
        f = facts.copy()
        f.cache = {}
        n2 = simplify(n, facts, depth + 1)
        f.add(c_ge(n2 - 1 - k))
        b2 = simplify(body, f, depth + 1)
        if n2 is n and b2 is body:
            return atom_poly(at)
        return mk_sum(k, n2, b2)
    if o in ('wrap',):
        p = simplify(at.args[0], facts, depth + 1)
        bits, sg = at.args[1], at.args[2]
        return wrap_facts(p, bits, sg, facts)
    if o in ('elem', 'undef'):
        return atom_poly(mk_atom(o, tuple(simplify(y, facts, depth + 1) if isinstance(y, Poly) else y for y in at.args), at.ty))
    if o == 'fn':
        return atom_poly(mk_atom(o, tuple(simplify(y, facts, depth + 1) if isinstance(y, Poly) else y for y in at.args), at.ty))
    if o == 'inv':
        return rdiv(ONE, simplify(at.args[0], facts, depth + 1))
    if o in ('and', 'or', 'xor', 'shl', 'shr'):
        return bitop(o, simplify(at.args[0], facts, depth + 1), simplify(at.args[1], facts, depth + 1), at.args[2])
    if o == 'foldv':
        which, deps, n, inits, steps = at.args
        n2 = simplify(n, facts, depth + 1)
        i2 = tuple(simplify(i, facts, depth + 1) for i in inits)
        if n2 is n and i2 == inits:
            return atom_poly(at)
        return atom_poly(mk_atom('foldv', (which, deps, n2, i2, steps), at.ty))
    return atom_poly(at)


def fdiv_facts(p, q, facts):
    if len(q.d) == 1:
        quo, rem = mono_divmod(p, q)
        if rem is ZERO:
            return quo
        if not quo is ZERO or True:
            for t in (0, 1, -1):
                r = rem - q * t
                if facts.ge(r) and facts.ge(q - 1 - r):
                    return quo + t
    if facts.ge(p) and facts.ge(q - 1 - p):
        return ZERO
    return idiv_floor(p, q)


def wrap_facts(p, bits, sg, facts):
    if sg:
        lo, hi = -(2 ** (bits - 1)), 2 ** (bits - 1) - 1
    else:
        lo, hi = 0, 2 ** bits - 1
    if p.is_const():
        return wrap(p, bits, sg)
    if facts.ge(p - lo):
        if bits >= 32 and not smallfail(p, hi, facts):
            return p
        if facts.ge(P(hi) - p):
            return p
    return wrap(p, bits, sg)


def smallfail(p, hi, facts):
    """True when p may legitimately exceed hi.  Sizes are assumed small: a
    polynomial over size symbols never overflows 31 bits; bit-level atoms and
    unbounded data may."""
    for m, c in p.d.items():
        if abs(c) > 1 << 20:
            return True
        for a, e in m:
            at = atom_by_id(a)
            if at.op in ('sym', 'bound', 'fdiv', 'ite', 'sum', 'foldv', 'sel', 'undef'):
                continue
            if at.op == 'fn' and at.args[0] == 'toint':
                continue
            if at.op in ('and', 'shr', 'or', 'xor', 'elem', 'wrap', 'shl'):
                if len(p.d) <= 1 and e == 1 and abs(c) == 1:
                    # a lone bit-level atom: check its own width below
                    return not facts.ge(P(hi) - p)
                return not facts.ge(P(hi) - p)
            return not facts.ge(P(hi) - p)
    return False
