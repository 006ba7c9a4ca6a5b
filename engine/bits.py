"""Bit-level value domain: an integer term becomes a vector of Boolean functions
(reduced ordered decision diagrams) of the bits of its symbols, so two terms
built from shifts, masks, parities and narrow additions can be compared exactly."""
import sys
from terms import Poly, Cond, atom_by_id, syminfo, P

W = 80
LIMIT = 60000
sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))


class NoBits(Exception):
    pass


class Bdd:
    def __init__(self, limit=LIMIT, coarse=False):
        self.coarse = coarse    # products modulo a power of two are opaque words
        self.nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.uniq = {}
        self.memo = {}
        self.limit = limit
        self.tmemo = {}
        self.cmemo = {}
        self.syms = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.nodes)
            if r > self.limit:
                raise NoBits('size')
            self.nodes.append(k)
            self.uniq[k] = r
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        N = self.nodes
        v = min(N[f][0], N[g][0], N[h][0])

        def co(x, b):
            n = N[x]
            return n[1 + b] if n[0] == v else x
        r = self.mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.memo[k] = r
        return r

    def not_(self, a):
        return self.ite(a, 0, 1)

    def and_(self, a, b):
        return self.ite(a, b, 0)

    def or_(self, a, b):
        return self.ite(a, 1, b)

    def xor(self, a, b):
        return self.ite(a, self.not_(b), b)

    # ---- words
    def const(self, c):
        c &= (1 << W) - 1
        return [(c >> i) & 1 for i in range(W)]

    def add(self, a, b, c=0):
        r = []
        for x, y in zip(a, b):
            p = self.xor(x, y)
            r.append(self.xor(p, c))
            c = self.or_(self.and_(x, y), self.and_(p, c)) if (x, y) != (0, 0) else 0
            if (x, y) == (1, 1):
                c = 1
        return r

    def neg(self, a):
        return self.add([self.not_(x) for x in a], self.const(1))

    def mul(self, a, b):
        if sum(1 for x in a if x != 0) < sum(1 for x in b if x != 0):
            a, b = b, a
        r = [0] * W
        for i, y in enumerate(b):
            if y != 0:
                r = self.add(r, [0] * i + [self.and_(x, y) for x in a[:W - i]])
        return r

    def leaf(self, at):
        t = at.ty
        if t is None or t[0] != 'int':
            raise NoBits('leaf')
        n, sg = t[1], t[2]
        if n > 64:
            raise NoBits('width')
        if at.op == 'sym' and at in syminfo and not sg:
            me = Poly.make({((at.id, 1),): 1})
            for f in syminfo[at].facts:
                s = f + me
                if isinstance(f, Poly) and s.is_const() and isinstance(s.const(), int) and s.const() >= 0:
                    n = min(n, s.const().bit_length())
        k = self.syms.setdefault(at, len(self.syms))
        if k > 4000:
            raise NoBits('symbols')
        v = [self.mk(i * 4096 + k, 0, 1) for i in range(n)]
        return v + [v[-1] if sg and n else 0] * (W - n)

    def term(self, p):
        r = self.tmemo.get(p)
        if r is not None:
            return r
        r = [0] * W
        for m, c in p.d.items():
            if not isinstance(c, int):
                raise NoBits('coefficient')
            t = None
            for a, e in m:
                w = self.atom(atom_by_id(a))
                for _ in range(e):
                    t = w if t is None else self.mul(t, w)
            if t is None:
                t = self.const(c)
            elif c < 0:
                t = self.neg(self.mul(t, self.const(-c)))
            elif c != 1:
                t = self.mul(t, self.const(c))
            r = self.add(r, t)
        self.tmemo[p] = r
        return r

    def atom(self, at):
        r = self.tmemo.get(at)
        if r is None:
            r = self.tmemo[at] = self.atom_(at)
        return r

    def cut(self, v, n, sg=False):
        return v[:n] + [v[n - 1] if sg else 0] * (W - n)

    def atom_(self, at):
        o = at.op
        if o in ('and', 'or', 'xor'):
            a, b = self.cut(self.term(at.args[0]), at.args[2]), self.cut(self.term(at.args[1]), at.args[2])
            f = {'and': self.and_, 'or': self.or_, 'xor': self.xor}[o]
            return [f(x, y) for x, y in zip(a, b)]
        if o in ('shl', 'shr'):
            n = at.args[2]
            a = self.cut(self.term(at.args[0]), n)
            s = at.args[1]
            if s.is_const():
                return self.shift(o, a, s.const(), n)
            sv = self.term(s)
            for i in range(7):
                if sv[i] != 0:
                    b = self.shift(o, a, 1 << i, n)
                    a = [self.ite(sv[i], y, x) for x, y in zip(a, b)]
            return a
        if o == 'wrap':
            if self.coarse and any(isinstance(c, int) and m and abs(c) > 255 for m, c in at.args[0].d.items()):
                return self.leaf(at)
            return self.cut(self.term(at.args[0]), at.args[1], at.args[2])
        if o == 'ite':
            c = self.cond(at.args[0])
            a, b = self.term(at.args[1]), self.term(at.args[2])
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if o in ('fdiv', 'mod', 'tdiv') and at.args[1].is_const() and isinstance(at.args[1].const(), int) and at.args[1].const() > 0:
            d = at.args[1].const()
            a = self.term(at.args[0])
            sg = a[W - 1]
            if d & (d - 1) == 0:
                k = d.bit_length() - 1
                if o == 'fdiv':
                    return a[k:] + [a[W - 1]] * k
                if sg == 0:
                    return self.cut(a, k) if o == 'mod' else a[k:] + [0] * k
                if o == 'mod':
                    m = self.neg(self.cut(self.neg(a), k))
                    return [self.ite(sg, x, y) for x, y in zip(m, self.cut(a, k))]
            if sg != 0:
                raise NoBits('signed division')
            q, r = self.divmod(a, d)
            return r if o == 'mod' else q
        if o == 'fn' and at.args[0] in ('s&', 's|', 's^'):
            a, b = self.term(at.args[1]), self.term(at.args[2])
            f = {'s&': self.and_, 's|': self.or_, 's^': self.xor}[at.args[0]]
            return [f(x, y) for x, y in zip(a, b)]
        if o == 'fn' and at.args[0] == 'toint' and isinstance(at.args[1], Poly) and at.ty[0] == 'int':
            from terms import is_intlike
            if is_intlike(at.args[1]):
                return self.term(at.args[1])
        if o == 'sum' and at.args[1].is_const() and at.args[1].const() <= 64:
            from terms import subst, mk_atom
            dep, n, body = at.args
            b = mk_atom('bound', (dep,), ('int', 64, False))
            r = [0] * W
            for i in range(n.const()):
                r = self.add(r, self.term(subst(body, {b: P(i)})))
            return r
        if o in ('sum', 'foldv', 'bound', 'undef'):
            raise NoBits(o)
        return self.leaf(at)

    def divmod(self, a, d):
        top = max([i for i, x in enumerate(a) if x != 0] + [-1]) + 1
        if top > 24:
            raise NoBits('division')
        r = [0] * W
        q = [0] * W
        nd = self.const(-d)
        for i in range(top - 1, -1, -1):
            r = [a[i]] + r[:-1]
            s = self.add(r, nd)
            ge = self.not_(s[W - 1])
            q[i] = ge
            r = [self.ite(ge, x, y) for x, y in zip(s, r)]
        return q, r

    def shift(self, o, a, s, n):
        if s < 0 or s >= n:
            return [0] * W
        if o == 'shl':
            return self.cut(([0] * s + a)[:W], n)
        return a[s:] + [0] * s

    def cond(self, c):
        r = self.cmemo.get(c)
        if r is None:
            r = self.cmemo[c] = self.cond_(c)
        return r

    def cond_(self, c):
        o, a = c.op, c.args
        if o == 'true':
            return 1
        if o == 'false':
            return 0
        if o == 'ge':
            return self.not_(self.term(a[0])[W - 1])
        if o == 'eq':
            return self.equal(a[0])
        if o == 'not':
            return self.not_(self.cond(a[0]))
        if o == 'and':
            r = 1
            for x in a:
                r = self.and_(r, self.cond(x))
            return r
        if o == 'or':
            r = 0
            for x in a:
                r = self.or_(r, self.cond(x))
            return r
        if o in ('dge', 'deq', 'dgt'):
            from terms import is_intlike
            if is_intlike(a[0]):
                if o == 'deq':
                    return self.equal(a[0])
                t = self.term(a[0])
                z = 1
                for x in t:
                    z = self.and_(z, self.not_(x))
                p = self.not_(t[W - 1])
                return p if o == 'dge' else self.and_(p, self.not_(z))
        raise NoBits('cond ' + o)

    def equal(self, p):
        """p == 0, comparing what is added with what is subtracted"""
        pos = Poly.make({m: c for m, c in p.d.items() if isinstance(c, int) and c > 0})
        r = 1
        for x, y in zip(self.term(pos), self.term(pos - p)):
            if x != y:
                r = self.and_(r, self.not_(self.xor(x, y)))
        return r

    def model(self, f):
        out = {}
        inv = {v: k for k, v in self.syms.items()}
        while f > 1:
            v, lo, hi = self.nodes[f]
            b = 0 if lo != 0 else 1
            at = inv[v % 4096]
            out[at] = out.get(at, 0) | (b << (v // 4096))
            f = hi if b else lo
        for at in self.syms:
            x = out.get(at, 0)
            if at.ty[2] and x >> (at.ty[1] - 1):
                x -= 1 << at.ty[1]
            out[at] = x
        return out


BITOPS = {'and', 'or', 'xor', 'shl', 'shr', 'wrap', 'mod', 'fdiv'}


def has_bits(x, seen=None, d=0):
    seen = set() if seen is None else seen
    if x in seen or d > 60:
        return False
    seen.add(x)
    if isinstance(x, Poly):
        for m in x.d:
            for a, e in m:
                at = atom_by_id(a)
                if at in seen:
                    continue
                seen.add(at)
                if at.op in BITOPS or at.op == 'fn' and at.args[0] in ('s&', 's|', 's^'):
                    return True
                for y in at.args:
                    if isinstance(y, (Poly, Cond)) and has_bits(y, seen, d + 1):
                        return True
        return False
    if isinstance(x, Cond):
        return any(has_bits(y, seen, d + 1) for y in x.args if isinstance(y, (Poly, Cond)))
    return False


def decide(conds, c, limit=LIMIT):
    """True: c holds whenever conds do; False with a model: it does not; None: not expressible"""
    b = Bdd(limit, True)
    try:
        if b.cond(c) == 1:
            return True, None
    except (NoBits, RecursionError):
        pass
    b = Bdd(limit)
    try:
        f = b.not_(b.cond(c))
        if f == 0:
            return True, None
        exact = True
        for p in conds:
            try:
                f = b.and_(f, b.cond(p))
            except NoBits:
                exact = False
            if f == 0:
                return True, None
        return False, (b.model(f) if exact else None)
    except (NoBits, RecursionError):
        return None, None
