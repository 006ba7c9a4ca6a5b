"""Value domain of the abstract interpreter.

Integers and real (floating-point) data are kept as multivariate polynomials
over hash-consed atoms (symbols, array elements, sums over symbolic ranges,
conditional values, uninterpreted functions...).  Floating point rounding is
deliberately abstracted: data arithmetic is interpreted over the reals.
"""
from fractions import Fraction
import itertools

_atoms = {}
_alist = []
_fresh = itertools.count()


class Atom:
    __slots__ = ('op', 'args', 'id', 'ty', 'facts', 'free', 'depth', 'taint')

    def __repr__(self):
        return show_atom(self)


def mk_atom(op, args, ty=None):
    """ty: ('int',bits,signed) | ('float',) | ('data',)"""
    key = (op, args, ty)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.op, a.args, a.ty = op, args, ty
        a.id = len(_alist)
        a.facts = None
        a.free = None
        a.depth = None
        a.taint = None
        _alist.append(a)
        _atoms[key] = a
    return a


def atom_by_id(i):
    return _alist[i]


class Poly:
    __slots__ = ('d', '_h', '_free', 'id')
    _intern = {}

    @staticmethod
    def make(d):
        d = {m: c for m, c in d.items() if c != 0}
        key = frozenset(d.items())
        p = Poly._intern.get(key)
        if p is None:
            # equal keys are one polynomial: a whole coefficient is an int whoever built it first
            p = Poly.__new__(Poly)
            p.d = {m: (c if type(c) is int else c.numerator if c.denominator == 1 else c) for m, c in d.items()} if not all(type(c) is int for c in d.values()) else d
            p._h = hash(key)
            p._free = None
            p.id = len(Poly._intern)
            Poly._intern[key] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __add__(self, o):
        o = P(o)
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Poly.make(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly.make({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if len(self.d) * len(o.d) > 4000:
            return atom_poly(mk_atom('fn', ('mul', self, o), ('float',)))
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mono_mul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return Poly.make(d)

    __rmul__ = __mul__

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)

    def atoms(self):
        """atoms appearing at top level of the monomials"""
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s

    def degree(self):
        return max([sum(e for a, e in m) for m in self.d] or [0])

    def __repr__(self):
        return show(self)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return atom_poly(x)
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fraction(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        x = x.numerator
    return Poly.make({(): x})


ZERO = Poly.make({})
ONE = Poly.make({(): 1})


def atom_poly(a):
    return Poly.make({((a.id, 1),): 1})


# ---------------------------------------------------------------- symbols
class SymInfo:
    def __init__(self):
        self.facts = []
        self.taint = False


syminfo = {}


def sym(name, ty=('int', 64, False), facts=(), taint=False, fresh=False):
    if fresh:
        name = '%s~%d' % (name, next(_fresh))
    a = mk_atom('sym', (name,), ty)
    if a not in syminfo:
        syminfo[a] = SymInfo()
    syminfo[a].taint = syminfo[a].taint or taint
    p = atom_poly(a)
    syminfo[a].facts.extend(facts)
    if ty[0] == 'int' and not ty[2]:
        if p not in syminfo[a].facts:
            syminfo[a].facts.append(p)
    return p


def sym_atom(p):
    (m, c), = p.d.items()
    (a, e), = m
    return atom_by_id(a)


def add_sym_fact(p, *facts):
    syminfo[sym_atom(p)].facts.extend(facts)


def bound_sym(depth, ty=None):
    a = mk_atom('bound', (depth,), ('int', 64, False))
    return atom_poly(a)


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('op', 'args', '_h', '_free', 'id')
    _intern = {}

    @staticmethod
    def make(op, *args):
        key = (op, args)
        c = Cond._intern.get(key)
        if c is None:
            c = Cond.__new__(Cond)
            c.op, c.args, c._h, c._free = op, args, hash(key), None
            c.id = len(Cond._intern)
            Cond._intern[key] = c
        return c

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_cond(self)


TRUE = Cond.make('true')
FALSE = Cond.make('false')


def is_intlike(p):
    """all atoms integer-typed and integral coefficients"""
    for m, c in p.d.items():
        if not isinstance(c, int):
            return False
        for a, e in m:
            t = atom_by_id(a).ty
            if t is None or t[0] != 'int':
                return False
    return True


def c_ge(p):
    """p >= 0 over the integers"""
    p = P(p)
    if p.is_const():
        return TRUE if p.const() >= 0 else FALSE
    from math import gcd
    g = 0
    for m, c in p.d.items():
        if m != ():
            if not isinstance(c, int):
                return Cond.make('dge', p)
            g = gcd(g, abs(c))
    if g > 1:
        d = {}
        for m, c in p.d.items():
            d[m] = c // g  # floor for the constant is sound & exact for ints
        p = Poly.make(d)
    r = rem_range(p)
    if r:
        if r[0] >= 0:
            return TRUE
        if r[1] < 0:
            return FALSE
    return Cond.make('ge', p)


def rem_range(p):
    """range of p when it is +-(x mod d) + constant, for a constant d"""
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1:
            at = atom_by_id(m[0][0])
            if at.op != 'fdiv' or not at.args[1].is_const() or at.args[1].const() != abs(c):
                continue
            s = -1 if c > 0 else 1
            d = abs(c)
            rest = p - s * (at.args[0] - atom_poly(at) * d)
            if rest.is_const():
                k = rest.const()
                return (k, k + d - 1) if s == 1 else (k - d + 1, k)
    return None


def ite_const(p):
    """(k, c, a, b) when p is k*ite(c, a, b) + const with constant branches"""
    if len(p.d) > 2:
        return None
    it = None
    k0 = 0
    for m, c in p.d.items():
        if m == ():
            k0 = c
        elif len(m) == 1 and m[0][1] == 1:
            at = atom_by_id(m[0][0])
            if it is not None or at.op != 'ite' or not at.args[1].is_const() or not at.args[2].is_const():
                return None
            it = (c, at)
        else:
            return None
    if it is None:
        return None
    k, at = it
    return at.args[0], k0 + k * at.args[1].const(), k0 + k * at.args[2].const()


def c_eq(p, isint=True):
    p = P(p)
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    ic = ite_const(p)
    if ic:
        c, a, b = ic
        return (TRUE if b == 0 else c) if a == 0 else (c_not(c) if b == 0 else FALSE)
    at = single(p)
    if at is not None:
        if at.op == 'foldv':
            r = or_fold(at)
            if r:
                i0, k, n, g, x = r
                return c_and(c_eq(i0), c_not(c_exists(k, n, c_and(g, c_not(c_eq(x))))))
        elif at.op == 'or':
            return c_and(c_eq(at.args[0]), c_eq(at.args[1]))
        elif at.op == 'shl' and at.args[0] is ONE:
            return FALSE
        elif at.op == 'ite' and (at.args[1] is ZERO or at.args[2] is ZERO):
            c, a, b = at.args
            return c_or(c_and(c, c_eq(a)), c_and(c_not(c), c_eq(b)))
    if isint and len(p.d) == 2:
        (m1, k1), (m2, k2) = p.d.items()
        if k1 == -k2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
            x, y = atom_by_id(m1[0][0]), atom_by_id(m2[0][0])
            if x.op == y.op == 'ite' and all(z.args[1] is ONE and z.args[2] is ZERO for z in (x, y)):
                return c_iff(x.args[0], y.args[0])
    # sign normalise: leading monomial positive
    if not isint:
        if ROOTS and len(p.d) <= 2:
            b, k = root_base(p)
            if k:
                return c_eq(b, False)
            r = root_sign(p)
            if r is not None:
                return c_eq(r, False)
        if huge(p):
            return FALSE
        p = dnorm(p)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if any(e > 1 for a, e in m):
                return c_eq(Poly.make({tuple((a, 1) for a, e in m): 1}), False)
    else:
        r = rem_range(p)
        if r and (r[0] > 0 or r[1] < 0):
            return FALSE
    lead = min(p.d)
    if p.d[lead] < 0:
        p = -p
    return Cond.make('eq' if isint else 'deq', p)


def huge(p):
    """sign of a value that is dominated by the largest floating-point number (data are assumed to be far below it)"""
    c = p.d.get(())
    if c is None or -HUGE < c < HUGE:
        return 0
    for m, k in p.d.items():
        if m != () and (not -HUGE < k < HUGE or any(atom_by_id(a).op == 'inv' for a, _ in m)):
            return 0
    return 1 if c > 0 else -1


HUGE = 1 << 100


def c_dgt(p):
    p = P(p)
    if p.is_const():
        return TRUE if p.const() > 0 else FALSE
    h = huge(p)
    if h:
        return TRUE if h > 0 else FALSE
    if ROOTS and len(p.d) <= 2:
        b, k = root_base(p)
        if k:
            return c_not(c_eq(b, False)) if k > 0 else FALSE
        r = root_sign(p)
        if r is not None:
            return c_dgt(r)
    return Cond.make('dgt', dnorm(p))


def c_dge(p):
    p = P(p)
    if p.is_const():
        return TRUE if p.const() >= 0 else FALSE
    h = huge(p)
    if h:
        return TRUE if h > 0 else FALSE
    if ROOTS and len(p.d) <= 2:
        b, k = root_base(p)
        if k:
            return TRUE if k > 0 else c_eq(b, False)
        r = root_sign(p)
        if r is not None:
            return c_dge(r)
    return Cond.make('dge', dnorm(p))


def dnorm(p):
    lead = abs(p.d[min(p.d)])
    if lead != 1:
        p = p * Fraction(1, 1) * (Fraction(1) / lead)
        p = P_norm(p)
    return p


def P_norm(p):
    return Poly.make({m: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in p.d.items()})


def c_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    o = c.op
    if o == 'ge':
        return c_ge(-c.args[0] - 1)
    if o == 'dgt':
        return c_dge(-c.args[0])
    if o == 'dge':
        return c_dgt(-c.args[0])
    if o == 'not':
        return c.args[0]
    if o == 'and':
        return c_or(*[c_not(x) for x in c.args])
    if o == 'or':
        return c_and(*[c_not(x) for x in c.args])
    return Cond.make('not', c)


def c_and(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if c.op == 'and':
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    for c in out:
        if c_not(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda c: c.id)
    return Cond.make('and', *out)


def c_or(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if c.op == 'or':
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    for c in out:
        if c_not(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda c: c.id)
    return Cond.make('or', *out)


def c_xor(a, b):
    return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))


def c_iff(a, b):
    return c_not(c_xor(a, b))


def c_exists(k, n, body):
    """exists k in [0,n): body   (k: Poly symbol)"""
    if body is FALSE:
        return FALSE
    dep = depth_of(body) + 1
    b = bound_sym(dep, sym_atom(k).ty)
    body2 = subst(body, {sym_atom(k): b})
    return Cond.make('exists', dep, P(n), body2)


# ---------------------------------------------------------------- derived
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, Cond) or isinstance(b, Cond):
        a = to_cond(a)
        b = to_cond(b)
        return c_or(c_and(c, a), c_and(c_not(c), b))
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = to_cx(a), to_cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    # canonical orientation
    n = c_not(c)
    if n.id < c.id:
        c, a, b = n, b, a
    if c.op == 'and' or c.op == 'or':
        pass
    ty = ('int', 64, True) if is_intlike(a) and is_intlike(b) else ('float',)
    return atom_poly(mk_atom('ite', (c, a, b), ty))


def to_cond(x):
    if isinstance(x, Cond):
        return x
    if isinstance(x, Poly):
        return c_not(c_eq(x, is_intlike(x)))
    raise TypeError(x)


def cond_to_poly(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return ite(c, ONE, ZERO)


class Cx:
    """complex value"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = P(re), P(im)

    def __eq__(self, o):
        return isinstance(o, Cx) and self.re is o.re and self.im is o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return 'Cx(%r,%r)' % (self.re, self.im)

    def __add__(self, o):
        o = to_cx(o)
        return Cx(self.re + o.re, self.im + o.im)

    def __sub__(self, o):
        o = to_cx(o)
        return Cx(self.re - o.re, self.im - o.im)

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __mul__(self, o):
        o = to_cx(o)
        return Cx(trig(self.re * o.re - self.im * o.im), trig(self.re * o.im + self.im * o.re))

    def div(self, o):
        o = to_cx(o)
        if o.im is ZERO:
            return Cx(rdiv(self.re, o.re), rdiv(self.im, o.re))
        n = o.re * o.re + o.im * o.im
        num = self * Cx(o.re, -o.im)
        return Cx(rdiv(num.re, n), rdiv(num.im, n))


def to_cx(x):
    return x if isinstance(x, Cx) else Cx(x, ZERO)


def rdiv(a, b):
    """real division a/b"""
    a, b = P(a), P(b)
    if b.is_const() and b.const() != 0:
        r = a * (Fraction(1) / Fraction(b.const()))
        return P_norm(r)
    if b is ZERO:
        return atom_poly(mk_atom('inv', (ZERO,), ('float',)))      # no real number
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    if len(b.d) == 1:
        # monomial: invert each atom
        (m, c), = b.d.items()
        r = a * (Fraction(1) / Fraction(c))
        for at, e in m:
            r = r * Poly.make({((inv_atom(atom_poly(atom_by_id(at))).id, e),): 1})
        return cancel(P_norm(r))
    lead = b.d[min(b.d)]
    if lead != 1:
        b = P_norm(b * (Fraction(1) / Fraction(lead)))
        a = P_norm(a * (Fraction(1) / Fraction(lead)))
    return cancel(a * atom_poly(inv_atom(b)))


COSQ = {}       # atom id -> fraction of a turn


def cosq(r):
    """cos(2 pi r), r rational"""
    r = Fraction(r) % 1
    if r > Fraction(1, 2):
        r = 1 - r
    if r > Fraction(1, 4):
        return -cosq(Fraction(1, 2) - r)
    if r == 0:
        return ONE
    if r == Fraction(1, 4):
        return ZERO
    if r == Fraction(1, 6):
        return P(Fraction(1, 2))
    a = mk_atom('fn', ('cosq', P(r)), ('float',))
    COSQ[a.id] = r
    return atom_poly(a)


_PI = Fraction('3.14159265358979323846264338327950288419716939937510')


def turns(c):
    """rational c as an exact rational multiple of 2 pi, or None"""
    q = Fraction(c) / (2 * _PI)
    f = q.limit_denominator(4096)
    return f if abs(q - f) <= Fraction(1, 10 ** 13) * max(1, abs(q)) else None


ROOTS = {}


def radic(p):
    """even powers of square roots and absolute values"""
    if not any(e > 1 and a in ROOTS for m in p.d for a, e in m):
        return p
    r = ZERO
    for m, c in p.d.items():
        t = P(c)
        for a, e in m:
            if e > 1 and a in ROOTS:
                for _ in range(e // 2):
                    t = t * ROOTS[a]
                e %= 2
            if e:
                t = t * Poly.make({((a, e),): 1})
        r = r + t
    return radic(r)


def root_base(p):
    """(argument, sign of the coefficient) when p is a multiple of one root"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in ROOTS:
            at = atom_by_id(m[0][0])
            if at.op == 'fn':
                return at.args[1], 1 if c > 0 else -1
    return None, 0


def root_sign(p):
    """a polynomial with the sign of p, for p a difference of multiples of two roots or a root and a constant"""
    if len(p.d) not in (1, 2):
        return None
    pos = neg = None
    for m, c in p.d.items():
        if m == ():
            q = P(c * c)
            if c < 0 and neg is None:
                neg = q
            elif c > 0 and pos is None:
                pos = q
            else:
                return None
            continue
        if len(m) != 1 or m[0][1] != 1 or m[0][0] not in ROOTS:
            return None
        q = ROOTS[m[0][0]] * (c * c)
        if c < 0 and neg is None:
            neg = q
        elif c > 0 and pos is None:
            pos = q
        else:
            return None
    return (pos or ZERO) - (neg or ZERO)


def trig(p):
    """products of cosines of rational angles as sums"""
    if ROOTS:
        p = radic(p)
    if not COSQ:
        return p
    hit = False
    for m in p.d:
        n = 0
        for a, e in m:
            if a in COSQ:
                n += e
        if n > 1:
            hit = True
            break
    if not hit:
        return p
    d = {}
    todo = list(p.d.items())
    while todo:
        m, c = todo.pop()
        cs = [a for a, e in m if a in COSQ for _ in range(e)]
        if len(cs) < 2:
            d[m] = d.get(m, 0) + c
            continue
        rest = tuple((a, e) for a, e in m if a not in COSQ)
        x, y = COSQ[cs[0]], COSQ[cs[1]]
        q = (cosq(x + y) + cosq(x - y)) * Fraction(1, 2)
        for z in cs[2:]:
            q = q * Poly.make({((z, 1),): 1})
        q = q * Poly.make({rest: c})
        todo.extend(q.d.items())
    return Poly.make(d)


def inv_atom(p):
    at = mk_atom('inv', (p,), ('float',))
    if ROOTS and at.id not in ROOTS:
        x = single(p)
        if x is not None and x.id in ROOTS:
            ROOTS[at.id] = rdiv(ONE, ROOTS[x.id])
    return at


def cancel(p):
    """x * inv(x) = 1"""
    d = {}
    ch = False
    for m, c in p.d.items():
        mm = dict(m)
        for a, e in m:
            at = atom_by_id(a)
            if at.op == 'inv':
                q = at.args[0]
                if len(q.d) == 1:
                    (qm, qc), = q.d.items()
                    if qc == 1 and len(qm) == 1:
                        x = qm[0][0]
                        if mm.get(x, 0) > 0 and mm.get(a, 0) > 0:
                            n = min(mm[x], mm[a])
                            mm[x] -= n
                            mm[a] -= n
                            ch = True
        m2 = tuple(sorted((a, e) for a, e in mm.items() if e))
        d[m2] = d.get(m2, 0) + c
    return Poly.make(d) if ch else p


def has_inv(p):
    return isinstance(p, Poly) and any(atom_by_id(a).op == 'inv' for m in p.d for a, e in m)


class _Big(Exception):
    pass


def rat(p, limit=6000):
    """numerator and denominator factors {poly: exponent} of a rational expression"""
    terms = []
    dens = {}
    for m, c in p.d.items():
        num = P(c)
        den = {}
        for a, e in m:
            at = atom_by_id(a)
            if at.op != 'inv':
                num = num * Poly.make({((a, e),): 1})
                continue
            qn, qd = rat(at.args[0], limit)
            den[qn] = den.get(qn, 0) + e
            for f, k in qd.items():
                for _ in range(k * e):
                    num = num * f
        terms.append((num, den))
        for f, k in den.items():
            dens[f] = max(dens.get(f, 0), k)
    tot = ZERO
    for num, den in terms:
        for f, k in dens.items():
            for _ in range(k - den.get(f, 0)):
                num = num * f
                if len(num.d) > limit:
                    raise _Big()
        tot = tot + num
    return tot, dens


def rational_zero(p):
    """is p identically zero as a rational function (where no denominator vanishes)?"""
    try:
        return rat(p)[0] is ZERO
    except _Big:
        return False


def cleared(p):
    """a polynomial without inverses that vanishes where p does, or None"""
    if not has_inv(p):
        return None
    try:
        return rat(p, 200)[0]
    except _Big:
        return None


def fn(name, args, ty=('float',)):
    if name in ('sqrt', 'abs') and len(args) == 1 and isinstance(args[0], Poly) and ty == ('float',):
        at = mk_atom('fn', (name,) + tuple(args), ty)
        ROOTS[at.id] = args[0] if name == 'sqrt' else args[0] * args[0]
        return atom_poly(at)
    return atom_poly(mk_atom('fn', (name,) + tuple(args), ty))


# -------- sums
def mk_sum(k, n, body):
    """sum_{k in [0,n)} body"""
    k_at = sym_atom(k)
    n = P(n)
    if n is ZERO:
        return ZERO
    if body is ZERO:
        return ZERO
    if n.is_const() and 0 < n.const() <= 4:
        r = ZERO
        for i in range(n.const()):
            r = r + subst(body, {k_at: P(i)})
        return r
    res = ZERO
    dep_part = {}
    for m, c in body.d.items():
        inside, outside = [], []
        for a, e in m:
            if k_at in free_syms_atom(atom_by_id(a)):
                inside.append((a, e))
            else:
                outside.append((a, e))
        out = Poly.make({tuple(outside): c})
        if not inside:
            res = res + out * n
            continue
        inn = Poly.make({tuple(inside): 1})
        if inn is k:
            # sum k = n(n-1)/2
            res = res + P_norm(out * n * (n - 1) * Fraction(1, 2))
            continue
        dep_part[inn] = dep_part.get(inn, ZERO) + out
    for inn, coef in dep_part.items():
        res = res + coef * atom_poly(sum_atom(k, n, inn))
    return P_norm(res)


def downs(x, k_at):
    """number of index polynomials in which k counts down"""
    r = 0
    for a in x.atoms():
        at = atom_by_id(a)
        for y in at.args:
            if isinstance(y, Poly) and k_at in free_syms(y):
                if any(c < 0 and len(m) == 1 and m[0][1] == 1 and atom_by_id(m[0][0]) is k_at for m, c in y.d.items()):
                    r += 1
    return r


def sum_atom(k, n, inn):
    ka = sym_atom(k)
    r0 = downs(inn, ka)
    if r0:
        rev = subst(inn, {ka: n - 1 - k})
        if downs(rev, ka) < r0:
            inn = rev
    dep = max(depth_of(inn), depth_of(n)) + 1
    k_at = sym_atom(k)
    b = bound_sym(dep, k_at.ty)
    body = subst(inn, {k_at: b})
    return mk_atom('sum', (dep, n, body), ('int', 64, True) if is_intlike(inn) else ('float',))


def open_sum(at):
    """returns (fresh symbol, n, body)"""
    dep, n, body = at.args
    b = mk_atom('bound', (dep,), ('int', 64, False))
    k = sym('k', fresh=True)
    add_sym_fact(k, n - 1 - k)
    return k, n, subst(body, {b: k})


# ---------------------------------------------------------------- traversal
def children(op, args):
    for x in args:
        if isinstance(x, (Poly, Cond, Cx, Content)):
            yield x
        elif isinstance(x, tuple):
            yield from children(op, x)


class Content:
    """array contents; subclasses are immutable and hashable by identity or key"""
    __slots__ = ()


_free_cache = {}


def free_syms(x):
    """set of 'sym'/'bound' atoms occurring (deeply)"""
    if isinstance(x, Poly):
        if x._free is None:
            s = set()
            for m in x.d:
                for a, e in m:
                    s |= free_syms_atom(atom_by_id(a))
            x._free = frozenset(s)
        return x._free
    if isinstance(x, Cond):
        if x._free is None:
            s = set()
            for y in children(x.op, x.args):
                s |= free_syms(y)
            if x.op == 'exists':
                s = {a for a in s if not (a.op == 'bound' and a.args[0] == x.args[0])}
            x._free = frozenset(s)
        return x._free
    if isinstance(x, Cx):
        return free_syms(x.re) | free_syms(x.im)
    if isinstance(x, Atom):
        return free_syms_atom(x)
    if isinstance(x, Content):
        return x.free()
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= free_syms(y)
        return s
    return frozenset()


def free_syms_atom(a):
    if a.free is None:
        if a.op in ('sym', 'bound'):
            a.free = frozenset([a])
        else:
            s = set()
            for y in children(a.op, a.args):
                s |= free_syms(y)
            if a.op in ('sum', 'first'):
                s = {b for b in s if not (b.op == 'bound' and b.args[0] == a.args[0])}
            if a.op == 'foldv':
                s = {b for b in s if not (b.op == 'bound' and b.args[0] in a.args[1])}
            a.free = frozenset(s)
    return a.free


def depth_of(x):
    d = 0
    for a in all_bound_depth(x):
        d = max(d, a)
    return d


_dcache = {}


def all_bound_depth(x):
    if isinstance(x, (Poly, Cond)):
        key = x
        r = _dcache.get(key)
        if r is not None:
            return (r,)
        m = 0
        if isinstance(x, Poly):
            for mm in x.d:
                for a, e in mm:
                    m = max(m, atom_depth(atom_by_id(a)))
        else:
            if x.op == 'exists':
                m = max(m, x.args[0])
            for y in children(x.op, x.args):
                m = max(m, depth_of(y))
        _dcache[key] = m
        return (m,)
    if isinstance(x, Cx):
        return (max(depth_of(x.re), depth_of(x.im)),)
    if isinstance(x, Content):
        return (x.depth(),)
    if isinstance(x, tuple):
        return (max([depth_of(y) for y in x] or [0]),)
    return (0,)


def atom_depth(a):
    if a.depth is None:
        m = 0
        if a.op == 'bound':
            m = a.args[0]
        else:
            if a.op in ('sum', 'first'):
                m = a.args[0]
            if a.op == 'foldv':
                m = max(a.args[1])
            for y in children(a.op, a.args):
                m = max(m, depth_of(y))
        a.depth = m
    return a.depth


_subst_memo = {}


def subst(x, mp, rebuild=None):
    """substitute atoms (sym/bound) by Polys.  mp: {Atom: Poly}"""
    if not mp:
        return x
    if isinstance(x, Poly):
        if not (free_syms(x) & mp.keys()):
            return x
        key = (x, tuple(sorted(((a.id, v) for a, v in mp.items()), key=lambda t: t[0])))
        r = _subst_memo.get(key)
        if r is not None:
            return r
        res = ZERO
        plain = {}
        for m, c in x.d.items():
            tr = False
            for a, e in m:
                if free_syms_atom(atom_by_id(a)) & mp.keys():
                    tr = True
                    break
            if not tr:
                plain[m] = c
                continue
            t = P(c)
            for a, e in m:
                v = subst_atom(atom_by_id(a), mp)
                for _ in range(e):
                    t = t * v
            res = res + t
        if plain:
            res = res + Poly.make(plain)
        res = cancel(res)
        if len(_subst_memo) > 400000:
            _subst_memo.clear()
        _subst_memo[key] = res
        return res
    if isinstance(x, Cond):
        if not (free_syms(x) & mp.keys()):
            return x
        o, a = x.op, x.args
        if o == 'ge':
            return c_ge(subst(a[0], mp))
        if o == 'eq':
            return c_eq(subst(a[0], mp))
        if o == 'deq':
            return c_eq(subst(a[0], mp), False)
        if o == 'dgt':
            return c_dgt(subst(a[0], mp))
        if o == 'dge':
            return c_dge(subst(a[0], mp))
        if o == 'not':
            return c_not(subst(a[0], mp))
        if o == 'and':
            return c_and(*[subst(y, mp) for y in a])
        if o == 'or':
            return c_or(*[subst(y, mp) for y in a])
        if o == 'exists':
            dep, n, body = a
            k = sym('e', fresh=True)
            b = mk_atom('bound', (dep,), ('int', 64, False))
            body = subst(subst(body, {b: k}), mp)
            return c_exists(k, subst(n, mp), body)
        return Cond.make(o, *[subst(y, mp) for y in a])
    if isinstance(x, Cx):
        return Cx(subst(x.re, mp), subst(x.im, mp))
    if isinstance(x, Content):
        return x.subst(mp)
    if isinstance(x, tuple):
        return tuple(subst(y, mp) for y in x)
    return x


def subst_atom(a, mp):
    v = mp.get(a)
    if v is not None:
        return v
    if not (free_syms_atom(a) & mp.keys()):
        return atom_poly(a)
    o = a.op
    if o == 'ite':
        return ite(subst(a.args[0], mp), subst(a.args[1], mp), subst(a.args[2], mp))
    if o == 'sum':
        k, n, body = open_sum(a)
        return mk_sum(k, subst(n, mp), subst(body, mp))
    if o == 'inv':
        return rdiv(ONE, subst(a.args[0], mp))
    if o in REBUILD:
        return REBUILD[o](a, [subst(y, mp) for y in a.args], mp)
    return atom_poly(mk_atom(o, tuple(subst(y, mp) for y in a.args), a.ty))


REBUILD = {}


# ---------------------------------------------------------------- int ops
def idiv_floor(p, q):
    """floor division of non-negative p by positive q (syntactic simplification only)"""
    p, q = P(p), P(q)
    if q is ONE:
        return p
    if p.is_const() and q.is_const() and q.const() != 0:
        return P(p.const() // q.const()) if p.const() >= 0 else P(-((-p.const()) // q.const()))
    if p is ZERO:
        return ZERO
    # exact divisibility by monomial q
    if len(q.d) == 1:
        quo, rem = mono_divmod(p, q)
        if rem is ZERO:
            return quo
    return atom_poly(mk_atom('fdiv', (p, q), ('int', 64, True)))


def mono_divmod(p, q):
    (qm, qc), = q.d.items()
    qd, rd = {}, {}
    for m, c in p.d.items():
        mm = dict(m)
        ok = isinstance(c, int) and isinstance(qc, int) and c % qc == 0
        for a, e in qm:
            if mm.get(a, 0) < e:
                ok = False
                break
            mm[a] -= e
        if ok:
            m2 = tuple(sorted((a, e) for a, e in mm.items() if e))
            qd[m2] = c // qc
        else:
            rd[m] = c
    return Poly.make(qd), Poly.make(rd)


def imod(p, q):
    p, q = P(p), P(q)
    if q is ONE:
        return ZERO
    if p.is_const() and q.is_const() and q.const() != 0:
        return P((abs(p.const()) % abs(q.const())) * (1 if p.const() >= 0 else -1))
    if len(q.d) == 1:
        quo, rem = mono_divmod(p, q)
        if rem is ZERO:
            return ZERO
    return atom_poly(mk_atom('mod', (p, q), ('int', 64, True)))


REBUILD['fdiv'] = lambda a, args, mp: idiv_floor(*args)
REBUILD['mod'] = lambda a, args, mp: imod(*args)


def _const(*ps):
    return all(isinstance(p, Poly) and p.is_const() for p in ps)


def single(p):
    """the atom of a polynomial that is exactly one atom"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return atom_by_id(m[0][0])
    return None


class _NoBit(Exception):
    pass


def bit_cond(x, b, st):
    """condition `bit b of x is set` (b >= 0); st counts the one-hot leaves"""
    st[1] += 1
    if st[1] > 40:
        raise _NoBit()
    if b.is_const() and b.const() < 0:
        return FALSE
    if x.is_const():
        c = x.const()
        if c < 0:
            return c_not(bit_cond(P(-1 - c), b, st))
        if b.is_const():
            return TRUE if (c >> b.const()) & 1 else FALSE
        if bin(c).count('1') > 8:
            raise _NoBit()
        r = FALSE
        for i in range(64):
            if (c >> i) & 1:
                r = c_or(r, c_eq(b - i))
        if c:
            st[0] += 1
        return r
    at = single(x)
    if at is not None:
        o = at.op
        if o == 'wrap':
            y, w, sg = at.args
            c = bit_cond(y, b, st)
            if b.is_const():
                return c if b.const() < w else _raise()
            return c_and(c_ge(P(w - 1) - b), c) if not sg else _raise()
        if o == 'or':
            return c_or(bit_cond(at.args[0], b, st), bit_cond(at.args[1], b, st))
        if o == 'and':
            return c_and(bit_cond(at.args[0], b, st), bit_cond(at.args[1], b, st))
        if o == 'xor':
            return c_xor(bit_cond(at.args[0], b, st), bit_cond(at.args[1], b, st))
        if o == 'shl':
            y, s, w = at.args
            if y is ONE:
                st[0] += 1
                return c_eq(b - s)
            return c_and(c_ge(b - s), bit_cond(y, b - s, st))
        if o == 'shr':
            return bit_cond(at.args[0], at.args[1] + b, st)
        if o == 'foldv':
            r = or_fold(at)
            if r:
                i0, k, n, g, x = r
                st[0] += 1
                return c_or(bit_cond(i0, b, st), c_exists(k, n, c_and(g, bit_cond(x, b, st))))
        if o == 'ite':
            c = at.args[0]
            return c_or(c_and(c, bit_cond(at.args[1], b, st)), c_and(c_not(c), bit_cond(at.args[2], b, st)))
    elif len(x.d) == 2 and x.d.get(()) == -1:
        y = P(-1) - x
        if single(y) is not None:
            return c_not(bit_cond(y, b, st))
    # opaque
    if b is ZERO:
        r = mk_atom('and', (ONE, x, 64) if ONE.id < x.id else (x, ONE, 64), ('int', 64, False))
    else:
        sh = atom_poly(mk_atom('shr', (x, b, 64), ('int', 64, False)))
        r = mk_atom('and', (ONE, sh, 64) if ONE.id < sh.id else (sh, ONE, 64), ('int', 64, False))
    return c_not(c_eq(atom_poly(r)))


def _raise():
    raise _NoBit()


def and_bit(m, x, bits):
    """m & x for a one-bit mask m, when the bit of x can be resolved"""
    try:
        st = [0, 0]
        if m is ONE:
            at = single(x)
            if at is not None and at.op == 'shr':
                c = bit_cond(at.args[0], at.args[1], st)
            else:
                c = bit_cond(x, ZERO, st)
            if st[0]:
                return cond_to_poly(c)
            return None
        at = single(m)
        if at is not None and at.op == 'shl' and at.args[0] is ONE:
            c = bit_cond(x, at.args[1], st)
            if st[0]:
                return ite(c, m, ZERO)
            return None
        if at is not None and at.op == 'wrap':
            # a narrowed one-bit mask
            return None
        if m.is_const() and m.const() > 0 and m.const() & (m.const() - 1) == 0 and not x.is_const():
            c = bit_cond(x, P(m.const().bit_length() - 1), st)
            if st[0]:
                return ite(c, m, ZERO)
    except _NoBit:
        return None
    return None


def bitop(op, p, q, bits=64):
    p, q = P(p), P(q)
    mask = (1 << bits) - 1
    if _const(p, q):
        a, b = p.const() & mask, q.const()
        if op == 'and':
            return P(a & (b & mask))
        if op == 'or':
            return P(a | (b & mask))
        if op == 'xor':
            return P(a ^ (b & mask))
        if op == 'shl' and 0 <= b < bits:
            return P((a << b) & mask)
        if op == 'shr' and 0 <= b < bits:
            return P(a >> b)
    if op in ('and', 'or', 'xor'):
        if op == 'and' and (p is ZERO or q is ZERO):
            return ZERO
        if op in ('or', 'xor'):
            if p is ZERO:
                return q
            if q is ZERO:
                return p
        if op == 'xor' and p is q:
            return ZERO
        if op in ('and', 'or') and p is q:
            return p
        if q.id < p.id:
            p, q = q, p
    if op == 'and':
        for x, y in ((p, q), (q, p)):
            if x.is_const() and x.const() > 0 and x.const() & (x.const() + 1) == 0:
                u = ubits(y)
                if u is not None and u <= x.const().bit_length():
                    return y
        r = and_bit(p, q, bits)
        if r is None:
            r = and_bit(q, p, bits)
        if r is not None:
            return r
    if op in ('shl', 'shr') and q is ZERO:
        return p
    if op in ('shl', 'shr') and p is ZERO:
        return ZERO
    if op == 'shr' and q.is_const():
        x = single(p)
        if x is not None and x.op == 'shr' and x.args[2] == bits and x.args[1].is_const():
            n = x.args[1].const() + q.const()       # one shift
            return bitop('shr', x.args[0], P(n), bits) if n < bits else ZERO
    return atom_poly(mk_atom(op, (p, q, bits), ('int', bits, False)))


for _o in ('and', 'or', 'xor', 'shl', 'shr'):
    REBUILD[_o] = (lambda o: lambda a, args, mp: bitop(o, args[0], args[1], a.args[2]))(_o)


def ubits(p, d=0):
    """number of bits of a value known (from its form) to be non-negative, else None"""
    if p.is_const():
        c = p.const()
        return c.bit_length() if isinstance(c, int) and c >= 0 else None
    at = single(p)
    if at is None:
        return None
    r = _ubits.get(at, -1)
    if r != -1:
        return r
    r = ubits_(at, d)
    if d <= 40:
        _ubits[at] = r
    return r


_ubits = {}


def ubits_(at, d):
    o = at.op
    if d > 40:
        return at.args[2] if o in ('or', 'xor', 'and', 'shr', 'shl') else None
    if o in ('or', 'xor'):
        a, b = ubits(at.args[0], d + 1), ubits(at.args[1], d + 1)
        return max(a, b) if a is not None and b is not None else at.args[2]
    if o == 'and':
        r = [x for x in (ubits(at.args[0], d + 1), ubits(at.args[1], d + 1)) if x is not None]
        return min(r) if r else at.args[2]
    if o == 'shr':
        r = ubits(at.args[0], d + 1)
        if r is None:
            r = at.args[2]
        return max(0, r - at.args[1].const()) if at.args[1].is_const() else r
    if o == 'shl' and at.args[0] is ONE:
        r = rem_range(at.args[1])
        return r[1] + 1 if r and r[0] >= 0 else None
    if o == 'shl':
        return at.args[2]
    if o == 'ite':
        a, b = ubits(at.args[1], d + 1), ubits(at.args[2], d + 1)
        return max(a, b) if a is not None and b is not None else None
    if o in ('wrap', 'elem', 'foldv', 'sel', 'sym') and at.ty and at.ty[0] == 'int' and not at.ty[2]:
        return at.ty[1]
    return None


def or_fold(at):
    """a fold that accumulates with `or`: (init, fresh k, n, guard, x)"""
    if at.op != 'foldv' or at.args[0] != 0 or len(at.args[3]) != 1:
        return None
    _, deps, n, inits, steps = at.args
    k = sym('k', fresh=True)
    p = sym('fp', fresh=True, ty=('int', 64, False))
    T = ('int', 64, False)
    step = subst(steps[0], {mk_atom('bound', (deps[0],), T): k, mk_atom('bound', (deps[1],), T): p})
    g = TRUE
    for _ in range(3):
        a = single(step)
        if a is not None and a.op == 'wrap' and not a.args[2] and ubits(inits[0]) is not None and ubits(inits[0]) <= a.args[1]:
            # the accumulator stays within the width of the type; the operand is cut to it
            w = single(a.args[0])
            if w is not None and w.op == 'or' and p in w.args[:2]:
                x = w.args[1] if w.args[0] is p else w.args[0]
                if sym_atom(p) in free_syms(x):
                    return None
                return inits[0], k, n, g, wrap(x, a.args[1], False)
            return None
        if a is not None and a.op == 'ite':
            if sym_atom(p) in free_syms(a.args[0]):
                return None
            if a.args[2] is p:
                g, step = c_and(g, a.args[0]), a.args[1]
                continue
            if a.args[1] is p:
                g, step = c_and(g, c_not(a.args[0])), a.args[2]
                continue
            return None
        if a is not None and a.op == 'or' and p in a.args[:2]:
            x = a.args[1] if a.args[0] is p else a.args[0]
            if sym_atom(p) in free_syms(x):
                return None
            return inits[0], k, n, g, x
        return None
    return None


def wrap(p, bits, signed):
    """reduce p to the range of the type (syntactic)"""
    p = P(p)
    u = ubits(p)
    if u is not None and u <= (bits - 1 if signed else bits):
        return p
    if p.is_const():
        c = p.const()
        c = int(c) & ((1 << bits) - 1)
        if signed and c >= 1 << (bits - 1):
            c -= 1 << bits
        return P(c)
    return atom_poly(mk_atom('wrap', (p, bits, signed), ('int', bits, signed)))


REBUILD['wrap'] = lambda a, args, mp: wrap(args[0], a.args[1], a.args[2])


# ---------------------------------------------------------------- printing
_depth = [0]


def show(p):
    if not isinstance(p, Poly):
        return repr(p)
    if _depth[0] > 14:
        return '..'
    _depth[0] += 1
    try:
        return show_(p)
    finally:
        _depth[0] -= 1


def show_(p):
    if not p.d:
        return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: (-sum(e for a, e in t[0]), t[0])):
        s = '*'.join((show_atom(atom_by_id(a)) + ('^%d' % e if e > 1 else '')) for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    r = out[0]
    for s in out[1:]:
        r += ' - ' + s[1:] if s.startswith('-') else ' + ' + s
    return r


def show_atom(a):
    o = a.op
    if o == 'sym':
        return a.args[0]
    if o == 'bound':
        return '#%d' % a.args[0]
    if o == 'elem':
        return '%s[%s]' % (a.args[0], ', '.join(show(x) for x in a.args[1:]))
    if o == 'ite':
        return '(%r ? %s : %s)' % (a.args[0], show(a.args[1]), show(a.args[2]))
    if o == 'sum':
        return 'SUM(#%d<%s: %s)' % (a.args[0], show(a.args[1]), show(a.args[2]))
    if o == 'fn':
        return '%s(%s)' % (a.args[0], ', '.join(show(x) for x in a.args[1:]))
    if o == 'foldv':
        return 'FOLD%d[n=%s]' % (a.args[0], show(a.args[2]))
    if o == 'sel':
        return 'sel(%s, %s)' % (a.args[0], show(a.args[1]))
    return '%s(%s)' % (o, ', '.join(show(x) if isinstance(x, Poly) else str(x) for x in a.args))


def show_cond(c):
    o = c.op
    if o in ('true', 'false'):
        return o
    if o in ('ge', 'dge'):
        return '%s >= 0' % show(c.args[0])
    if o in ('eq', 'deq'):
        return '%s == 0' % show(c.args[0])
    if o == 'dgt':
        return '%s > 0' % show(c.args[0])
    if o == 'not':
        return '!(%r)' % c.args[0]
    if o in ('and', 'or'):
        return '(' + (' && ' if o == 'and' else ' || ').join(map(repr, c.args)) + ')'
    if o == 'exists':
        return 'EX(#%d<%s: %r)' % (c.args[0], show(c.args[1]), c.args[2])
    return '%s%r' % (o, c.args)
