"""Numeric facts (conjunctions of polynomial inequalities plus atomic
conditions), entailment in a polyhedral domain extended with products
(Handelman certificates found by linear programming), and evaluation of terms
at a point (used only to exhibit a witness for a disagreement)."""
import math
import random
import numpy as np
from scipy.optimize import linprog
from fractions import Fraction
from terms import *

STATS = {'lp': 0, 'prove': 0}
_lp_cache = {}


def monos(p):
    return p.d.items()


def sym_facts(at):
    """definitional facts of an atom"""
    if at.op == 'sym':
        return syminfo[at].facts
    if at.op == 'bound':
        return [atom_poly(at)]
    if at.facts is not None:
        return at.facts
    at.facts = []
    x = atom_poly(at)
    f = []
    o = at.op
    if o == 'fdiv':
        p, q = at.args
        f = [x, p - q * x, q - 1 - p + q * x]
    elif o == 'and':
        f = [x]
        for y in at.args[:2]:
            f.append(y - x)
    elif o == 'shr':
        f = [x, at.args[0] - x]
        if at.args[1].is_const():
            k = 2 ** at.args[1].const()
            f += [at.args[0] - x * k, x * k + (k - 1) - at.args[0]]
    elif o in ('or', 'xor'):
        f = [x, at.args[0] + at.args[1] - x]
    elif o == 'shl':
        f = [x]
        if at.args[0] is ONE:
            f.append(x - 1)
    elif o == 'wrap':
        p, bits, sg = at.args
        if sg:
            f = [x + 2 ** (bits - 1), P(2 ** (bits - 1) - 1) - x]
        else:
            f = [x, P(2 ** bits - 1) - x]
    elif o == 'elem' and at.ty[0] == 'int':
        if not at.ty[2]:
            f = [x, P(2 ** at.ty[1] - 1) - x]
    elif o == 'fn' and at.ty[0] == 'int' and not at.ty[2]:
        f = [x]
    elif o == 'ite':
        pass
    elif o == 'foldv':
        if at.ty and at.ty[0] == 'int' and not at.ty[2]:
            f = [x, P(2 ** at.ty[1] - 1) - x]
    elif o == 'sum' and at.ty[0] == 'int':
        pass
    elif at.ty and at.ty[0] == 'int' and len(at.ty) > 2 and not at.ty[2]:
        f = [x]
    if o in ('and', 'or', 'xor', 'shl', 'shr') and at.ty and at.ty[0] == 'int' and not at.ty[2]:
        u = ubits(x)
        if u is not None and u <= 64:
            f.append(P(2 ** u - 1) - x)
    at.facts = f
    return f


NOLP = [False]
_hi = [None]


def solve_lp(c, A, b, keep=None):
    """min c.x, A x = b, x >= 0: (status, value); status 0 optimal, 2 infeasible, 3 unbounded.
    The solver is called directly, the checks of scipy's wrapper take most of its time."""
    if NOLP[0]:
        return 4, 0.0
    if _hi[0] is None:
        try:
            import scipy.optimize._highspy._core as h
            _hi[0] = (h, h._Highs())
            o = h.HighsOptions()
            o.output_flag = False
            o.log_to_console = False
            _hi[0][1].passOptions(o)
        except Exception:
            _hi[0] = False
    if _hi[0]:
        try:
            h, s = _hi[0]
            m, n = A.shape
            lp = h.HighsLp()
            lp.num_col_, lp.num_row_ = n, m
            lp.a_matrix_.num_col_, lp.a_matrix_.num_row_ = n, m
            lp.a_matrix_.format_ = h.MatrixFormat.kColwise
            lp.col_cost_ = c
            lp.col_lower_ = np.zeros(n)
            lp.col_upper_ = np.full(n, np.inf)
            lp.row_lower_ = lp.row_upper_ = b
            nz = A.T != 0
            lp.a_matrix_.start_ = np.concatenate(([0], np.cumsum(nz.sum(axis=1)))).astype(np.int32)
            lp.a_matrix_.index_ = np.nonzero(nz)[1].astype(np.int32)
            lp.a_matrix_.value_ = A.T[nz]
            s.clearModel()
            s.passModel(lp)
            s.run()
            st = s.getModelStatus()
            k = h.HighsModelStatus
            if st == k.kOptimal:
                if keep is not None:
                    keep.extend(s.getSolution().col_value)
                return 0, s.getInfo().objective_function_value
            return (2 if st == k.kInfeasible else 3 if st == k.kUnbounded else 4), 0.0
        except Exception:
            _hi[0] = False
    r = linprog(c, A_eq=A, b_eq=b, bounds=(0, None), method='highs')
    if keep is not None and r.status == 0:
        keep.extend(r.x)
    return r.status, r.fun


def lp_bound(p, facts):
    """True if p >= 0 (integer valued p) follows from facts by a certificate"""
    # facts: list of Poly; p: Poly, non-constant
    need = set(m for m in p.d if m != ())
    rows = {}
    cols = []
    for f in facts:
        cols.append(f)
        for m in f.d:
            if m != () and m not in rows:
                rows[m] = len(rows)
    for m in need:
        if m not in rows:
            return False
    n = len(cols)
    A = np.zeros((len(rows), n))
    c = np.zeros(n)
    for j, f in enumerate(cols):
        for m, v in f.d.items():
            if m == ():
                c[j] = float(v)
            else:
                A[rows[m], j] = float(v)
    b = np.zeros(len(rows))
    for m, v in p.d.items():
        if m != ():
            b[rows[m]] = float(v)
    if max(np.abs(A).max(initial=0), np.abs(c).max(initial=0)) > 1e12:
        # drop huge-constant facts
        keep = [j for j in range(n) if abs(c[j]) < 1e12 and np.abs(A[:, j]).max(initial=0) < 1e12]
        A = A[:, keep]
        c = c[keep]
        if not keep:
            return False
    else:
        keep = range(n)
    STATS['lp'] += 1
    big = wide(A, c)
    x = [] if big else None
    try:
        status, fun = solve_lp(c, A, b, x)
    except Exception:
        return False
    if status == 3:   # unbounded: facts infeasible
        return not big or exact_cert([cols[j] for j in keep], [False] * len(keep))
    if status != 0:
        return False
    if big:
        w = exact_weights([cols[j] for j in keep], list(rows), p, x)
        if w is not None:
            return p.d.get((), 0) - sum(v * cols[keep[j]].d.get((), 0) for j, v in w.items()) > -1
        return exact_cert([cols[j] for j in keep] + [-p - 1], [False] * (len(keep) + 1))
    p0 = float(p.d.get((), 0))
    return p0 - fun > -1 + 1e-6


def wide(A, c):
    """coefficients so far apart that the tolerance of the solver matters"""
    return max(np.abs(A).max(initial=0), np.abs(c).max(initial=0)) > 1e5


def exact_weights(cols, monos, p, x):
    """the weights of the combination of cols with the monomials of p near the approximate solution x,
    in rational arithmetic; None when they do not exist or one is negative"""
    from fractions import Fraction as Q
    top = max(x, default=0)
    S = [j for j, v in enumerate(x) if v > 1e-9 * max(1.0, top)]
    R = [[Q(cols[j].d.get(m, 0)) for j in S] + [Q(p.d.get(m, 0))] for m in monos]
    n = len(S)
    piv, r = {}, 0
    for j in range(n):
        k = next((i for i in range(r, len(R)) if R[i][j]), None)
        if k is None:
            continue
        R[r], R[k] = R[k], R[r]
        d = R[r][j]
        R[r] = [v / d for v in R[r]]
        for i in range(len(R)):
            if i != r and R[i][j]:
                e = R[i][j]
                R[i] = [a - e * b if b else a for a, b in zip(R[i], R[r])]
        piv[j] = r
        r += 1
    if any(R[i][n] for i in range(r, len(R))):
        return None
    free = {j: Q(x[S[j]]).limit_denominator(1000) for j in range(n) if j not in piv}
    out = {}
    for j in range(n):
        v = free[j] if j in free else R[piv[j]][n] - sum(R[piv[j]][k] * u for k, u in free.items())
        if v < 0:
            return None
        if v:
            out[S[j]] = v
    return out


def psd_kernel(G):
    """kernel basis of a positive semidefinite matrix, None when it is not one"""
    n = len(G)
    A = [r[:] for r in G]
    piv = []
    for i in range(n):
        if A[i][i] < 0:
            return None
        if A[i][i] == 0:
            if any(A[i][j] != 0 for j in range(n) if j not in piv):
                return None
            continue
        piv.append(i)
        for j in range(n):
            if j not in piv and A[j][i] != 0:
                f = A[j][i] / A[i][i]
                for k in range(n):
                    A[j][k] -= f * A[i][k]
    # a zero pivot may have been passed before it was eliminated: check the remainder
    rest = [i for i in range(n) if i not in piv]
    for i in rest:
        for j in rest:
            if A[i][j] != 0:
                return None
    # solve G[piv] x = 0 with each remaining variable set to one
    ker = []
    for r in rest:
        M = [[G[i][j] for j in piv] + [-G[i][r]] for i in piv]
        m = len(piv)
        for c in range(m):
            t = next(k for k in range(c, m) if M[k][c] != 0)
            M[c], M[t] = M[t], M[c]
            M[c] = [x / M[c][c] for x in M[c]]
            for k in range(m):
                if k != c and M[k][c] != 0:
                    M[k] = [x - M[k][c] * y for x, y in zip(M[k], M[c])]
        v = [Fraction(0)] * n
        v[r] = Fraction(1)
        for k, i in enumerate(piv):
            v[i] = M[k][m]
        ker.append(v)
    return ker


def align_sums(p, facts):
    """rewrite a sum as its first or last few terms and another sum that occurs in p"""
    for _ in range(4):
        sums = [atom_by_id(a) for a in p.atoms() if atom_by_id(a).op == 'sum']
        if len(sums) < 2:
            return p
        for s in sums:
            q = None
            n, body = s.args[1], s.args[2]
            for t in sums:
                if t is s or t.args[0] != s.args[0]:
                    continue
                d = n - t.args[1]
                if not d.is_const() or not 1 <= d.const() <= 3:
                    continue
                m, d = t.args[1], int(d.const())
                if not facts.ge(m):
                    continue
                kp = bound_sym(s.args[0])
                k = sym_atom(kp)
                if subst(body, {k: kp + d}) is t.args[2]:
                    q = atom_poly(t) + sum((subst(body, {k: P(i)}) for i in range(d)), ZERO)
                elif body is t.args[2]:
                    q = atom_poly(t) + sum((subst(body, {k: m + i}) for i in range(d)), ZERO)
                if q is not None:
                    break
            if q is not None:
                p = replace_atom(p, s, q)
                break
        else:
            return p
    return p


class Facts:
    def __init__(self):
        self.ges = []
        self.conds = []
        self.condset = set()
        self.neqs = []
        self.cache = {}
        self.ors = []
        self.eqs = []
        self.sol = {}
        self.exact = True
        self.indiv = False

    def copy(self):
        f = Facts()
        f.ges = list(self.ges)
        f.conds = list(self.conds)
        f.condset = set(self.condset)
        f.neqs = list(self.neqs)
        f.ors = list(self.ors)
        f.eqs = list(self.eqs)
        f.sol = self.sol
        f.cache = dict(self.cache)
        f.exact = self.exact
        return f

    def add(self, c):
        if c is TRUE:
            return
        if c.op == 'and':
            for x in c.args:
                self.add(x)
            return
        if c in self.condset:
            return
        self.condset.add(c)
        self.conds.append(c)
        self.cache = {k: v for k, v in self.cache.items() if v is not None and not (k.__class__ is tuple and k[0] == 'simp')}
        if c.op == 'ge':
            p = c.args[0]
            if len(p.d) <= 6 and not p.is_const() and self._ge(-p):
                self.ges.append(p)
                self.add_eq(p)
            else:
                self.ges.append(p)
            if self.neqs:
                self._tighten()
        elif c.op == 'eq':
            p = c.args[0]
            self.ges.append(p)
            self.ges.append(-p)
            self.add_eq(p)
        elif c.op == 'not' and c.args[0].op == 'eq':
            self.neqs.append(c.args[0].args[0])
            self._tighten()
        elif c.op == 'or':
            self.ors.append(c)
        elif c.op == 'deq' or c.op == 'not' and c.args[0].op == 'deq':
            q = cleared((c if c.op == 'deq' else c.args[0]).args[0])
            if q is not None and not q.is_const():
                self.add(c_eq(q, False) if c.op == 'deq' else c_not(c_eq(q, False)))

    def add_eq(self, p):
        self.eqs.append(p)
        e = subst(p, self.sol) if self.sol else p
        if e.is_const():
            return
        s = solve_eq(e)
        if s:
            sol = {a: subst(v, s) for a, v in self.sol.items()}
            sol.update(s)
            self.sol = sol

    def pin(self, syms):
        """symbols forced to a single constant"""
        for a in syms:
            if a.op != 'sym' or a.ty[0] != 'int' or a in self.sol:
                continue
            x = atom_poly(a)
            for v in (0, 1):
                if self.ge(x - v) and self.ge(v - x):
                    self.add_eq(x - v)
                    break

    def _tighten(self):
        rest = []
        for p in self.neqs:
            if self._ge(p):
                self.ges.append(p - 1)
            elif self._ge(-p):
                self.ges.append(-p - 1)
            else:
                rest.append(p)
        self.neqs = rest

    # -- relevant facts
    def relevant(self, p):
        seen = set()
        todo = list(p.atoms())
        chosen = []
        chosen_set = set()
        own = [(f, f.atoms()) for f in self.ges]
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            for f in sym_facts(atom_by_id(a)):
                if f not in chosen_set:
                    chosen_set.add(f)
                    chosen.append(f)
                    todo.extend(f.atoms())
            for f, at in own:
                if a in at and f not in chosen_set:
                    chosen_set.add(f)
                    chosen.append(f)
                    todo.extend(at)
            if len(chosen) > 60:
                break
        return [f for f in chosen if not f.is_const()]

    def ge(self, p):
        """prove p >= 0"""
        p = P(p)
        if p.is_const():
            return p.const() >= 0
        key = p
        v = self.cache.get(key, 0)
        if v != 0:
            return bool(v)
        r = self._ge(p)
        self.cache[key] = True if r else None
        return r

    def _ge(self, p):
        STATS['prove'] += 1
        if p.is_const():
            return p.const() >= 0
        if not is_intlike(p):
            return False
        # quick: all coefficients non-negative and all atoms non-negative
        rel = self.relevant(p)
        pc = p.d.get((), 0)
        for f in rel:
            q = p - f
            if q.is_const() and q.const() >= 0:
                return True
        relset = set(rel)
        ok = pc >= 0
        if ok:
            for m, c in p.d.items():
                if m == ():
                    continue
                if c < 0:
                    ok = False
                    break
                for a, e in m:
                    if atom_poly(atom_by_id(a)) not in relset and e % 2:
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                return True
        key = (p, frozenset(rel))
        r = _lp_cache.get(key)
        if r is None and p.degree() >= 3:
            for a in sorted(p.atoms()):
                q = atom_poly(atom_by_id(a))
                x, y = mono_divmod(p, q)
                if x.is_const() or y.degree() > 1 or len(y.d) > 3 or len(x.d) < 2:
                    continue
                if not self.ge(q):
                    continue
                if self.ge(y + q) and self.ge(x - 1) or self.ge(y) and self.ge(x):
                    return True
        if r is None:
            r = self._lp(p, rel)
            _lp_cache[key] = r
        if r:
            return True
        # a quotient q of symbolic divisor d: p >= 0 follows from d*p > -d
        if p.degree() == 1 and not self.indiv:
            for a in p.atoms():
                at = atom_by_id(a)
                if at.op == 'fdiv' and not at.args[1].is_const():
                    d = at.args[1]
                    f2 = self.copy()
                    f2.indiv = True
                    f2.cache = {}
                    if f2.ge(d - 1) and f2.ge(d * p + d - 1):
                        return True
        # case split on conditional atoms
        for a in p.atoms():
            at = atom_by_id(a)
            if at.op == 'ite' and len(p.d) < 40:
                c, x, y = at.args
                if self.condset and c in self.condset:
                    return self.ge(replace_atom(p, at, x))
                if c_not(c) in self.condset:
                    return self.ge(replace_atom(p, at, y))
                f1 = self.copy()
                f1.add(c)
                if not f1.ge(replace_atom(p, at, x)):
                    return False
                f2 = self.copy()
                f2.add(c_not(c))
                return f2.ge(replace_atom(p, at, y))
        return False

    def _lp(self, p, rel):
        deg = max([p.degree()] + [f.degree() for f in rel])
        if deg <= 1:
            return lp_bound(p, rel)
        M = set(m for q in [p] + rel for m in q.d if sum(e for a, e in m) >= 2)
        if lp_bound(p, rel):
            return True
        lin = [f for f in rel if f.degree() <= 2]
        prods = []
        pset = set(rel)
        for i, f in enumerate(lin):
            for g in lin[i:]:
                h = f * g
                if h in pset or h.degree() > max(3, deg):
                    continue
                if all(m in M for m in h.d if sum(e for a, e in m) >= 2):
                    prods.append(h)
                    pset.add(h)
        if prods and lp_bound(p, rel + prods):
            return True
        # second round: monomials closed once more
        M2 = set(M)
        cand = []
        lin1 = [f for f in rel if f.degree() <= 1]
        for i, f in enumerate(lin1):
            for g in lin1[i:]:
                h = f * g
                if h not in pset:
                    cand.append(h)
        if deg >= 3:
            for f in lin1:
                for g in prods + [x for x in cand]:
                    h = f * g
                    if h.degree() <= deg and h not in pset and all(m in M for m in h.d if sum(e for a, e in m) >= 3):
                        cand.append(h)
                    if len(cand) > 400:
                        break
        if len(cand) <= 500 and cand:
            return lp_bound(p, rel + prods + cand)
        return False

    def infeasible(self):
        if self.prove_false():
            return True
        if self.eqs and self.neqs:
            ea = set()
            for p in self.eqs:
                ea |= p.atoms()
            for q in self.neqs[:6]:
                if q.atoms() & ea and self.ge(q) and self.ge(-q):
                    return True
        return False

    def prove_false(self, extra=()):
        """facts + extra ge-polys inconsistent?"""
        rel = []
        seen = set()
        base = list(self.ges) + list(extra)
        allp = set()
        for f in base:
            if f.is_const():
                if f.const() < 0:
                    return True
                continue
            allp.add(f)
        todo = [a for f in allp for a in f.atoms()]
        sa = set()
        while todo:
            a = todo.pop()
            if a in sa:
                continue
            sa.add(a)
            for f in sym_facts(atom_by_id(a)):
                if f not in allp and not f.is_const():
                    allp.add(f)
                    todo.extend(f.atoms())
        return self._incons(list(allp))

    def prove_false2(self, goal):
        """like prove_false, restricted to facts connected to the goal"""
        for p in goal:
            if p.is_const() and p.const() < 0:
                return True
        seen, chosen, cs = set(), [], set()
        todo = [a for p in goal for a in p.atoms()]
        own = [(f, f.atoms()) for f in self.ges]
        while todo:
            a = todo.pop(0)
            if a in seen:
                continue
            seen.add(a)
            for f in sym_facts(atom_by_id(a)):
                if f not in cs and not f.is_const():
                    cs.add(f)
                    chosen.append(f)
                    todo.extend(f.atoms())
            for f, at in own:
                if a in at and f not in cs:
                    cs.add(f)
                    chosen.append(f)
                    todo.extend(at)
            if len(chosen) > 80:
                break
        rel = [p for p in goal if not p.is_const()] + chosen
        if self._incons(rel):
            return True
        # equality goals: substitute a solved symbol to linearise
        return False

    def neq0(self, d, depth=0):
        """prove d != 0"""
        d = self.apply_eqs(P(d))
        if d.is_const():
            return d.const() != 0
        for q in self.neqs:
            if q is d or q is -d:
                return True
        if self.ge(d - 1) or self.ge(-d - 1):
            return True
        if self.prove_false2([d, -d]):
            return True
        if depth > 3:
            return False
        # mixed radix: d = q*x + y with |y| < q  ==>  x = 0 and y = 0
        for q, xy in [(q, None) for q in radices(d)] + poly_radices(d):
            x, y = xy or mono_divmod(d, q)
            if x.is_const() and x.const() == 0:
                continue
            if x is ZERO or not (self.ge(q - 1 - y) and self.ge(q - 1 + y)):
                continue
            f = self.copy()
            f.cache = {}
            if y is ZERO:
                return f.neq0(x, depth + 1)
            if f.neq0(y, depth + 1):
                return True
            f2 = f.copy()
            f2.add(c_eq(y))
            if f2.neq0(x, depth + 1):
                return True
            return False
        return False

    def _incons(self, rel):
        key = ('false', frozenset(rel))
        r = _lp_cache.get(key)
        if r is None:
            r = self._incons2(rel)
            _lp_cache[key] = r
        return r

    def _incons2(self, rel):
        # prove -1 >= 0
        if not rel:
            return False
        if self._cert_false(rel):
            return True
        deg = max(f.degree() for f in rel)
        if deg <= 1:
            return False
        M = set(m for q in rel for m in q.d if sum(e for a, e in m) >= 2)
        pset = set(rel)
        prods = []
        lin = [f for f in rel if f.degree() <= 2]
        for i, f in enumerate(lin):
            for g in lin[i:]:
                h = f * g
                if h in pset or h.degree() > max(3, deg):
                    continue
                if all(m in M for m in h.d if sum(e for a, e in m) >= 2):
                    prods.append(h)
                    pset.add(h)
        if prods and self._cert_false(rel + prods):
            return True
        lin1 = [f for f in rel if f.degree() <= 1]
        cand = []
        for i, f in enumerate(lin1):
            for g in lin1[i:]:
                h = f * g
                if h not in pset:
                    cand.append(h)
                    pset.add(h)
        if len(cand) > 400:
            return False
        return bool(cand) and self._cert_false(rel + prods + cand)

    def _cert_false(self, rel):
        rows = {}
        for f in rel:
            for m in f.d:
                if m != () and m not in rows:
                    rows[m] = len(rows)
        n = len(rel)
        A = np.zeros((len(rows), n))
        c = np.zeros(n)
        for j, f in enumerate(rel):
            for m, v in f.d.items():
                if m == ():
                    c[j] = float(v)
                else:
                    A[rows[m], j] = float(v)
        keep = [j for j in range(n) if abs(c[j]) < 1e12 and np.abs(A[:, j]).max(initial=0) < 1e12]
        if not keep:
            return False
        A, c = A[:, keep], c[keep]
        STATS['lp'] += 1
        # sum lambda f = -1 : sum of nonneg combos with no monomials and negative constant
        A2 = np.vstack([A, c.reshape(1, -1)])
        b2 = np.zeros(len(rows) + 1)
        big = wide(A, c)
        b2[-1] = -max(1.0, np.abs(c).max())
        x = [] if big else None
        try:
            status, fun = solve_lp(np.zeros(len(keep)), A2, b2, x)
        except Exception:
            return False
        if status == 0 and big:
            return exact_weights([rel[j] for j in keep], list(rows) + [()], Poly.make({(): int(b2[-1])}), x) is not None or exact_cert([rel[j] for j in keep], [False] * len(keep))
        return status == 0

    def _universal(self, c):
        uni = [x.args[0] for x in self.conds if x.op == 'not' and x.args[0].op == 'exists']
        if not uni or getattr(self, '_inuni', 0):
            return None
        terms = []
        for a in index_terms(c):
            if a not in terms:
                terms.append(a)
        for ex in uni:
            dep, n, body = ex.args
            b = mk_atom('bound', (dep,), ('int', 64, False))
            for t in terms[:8]:
                if not (self.ge(t) and self.ge(n - 1 - t)):
                    continue
                inst = c_not(subst(body, {b: t}))
                if inst in self.condset:
                    continue
                f = self.copy()
                f._inuni = 1
                f.cache = {}
                f.add(inst)
                r = f.decide(c)
                if r is not None:
                    return r
        return None

    def decide(self, c):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.condset:
            return True
        n = c_not(c)
        if n in self.condset:
            return False
        k = ('d', c)
        if k in self.cache and self.cache[k] is not None:
            return self.cache[k]
        if self.cache.get(k, 0) is None:
            return None
        r = self._decide(c)
        if r is None and c.op in ('eq', 'deq', 'ge', 'dge', 'dgt', 'batom', 'not', 'or'):
            r = self._universal(c)
        self.cache[k] = r
        return r

    def _decide(self, c):
        o = c.op
        if o == 'ge':
            p = c.args[0]
            if self.ge(p):
                return True
            if self.ge(-p - 1):
                return False
            return self._split(c)
        if o == 'eq':
            p = c.args[0]
            if self.ge(p):
                if self.ge(-p):
                    return True
                if self.ge(p - 1):
                    return False
            elif self.ge(-p - 1):
                return False
            for q in self.neqs:
                if q is p or q is -p:
                    return False
            p2 = align_sums(p, self)
            if p2 is not p:
                return self.decide(c_eq(p2))
            if len(p.d) >= 2 and p.degree() >= 2 and radices(p) and self.neq0(p):
                return False
            if self.eqs:
                p2 = self.apply_eqs(p)
                if p2 is not p:
                    if p2.is_const():
                        return p2.const() == 0
            return self._split(c)
        if o == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        if o == 'and':
            res = True
            for x in c.args:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if o == 'or':
            res = False
            for x in c.args:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        if o == 'exists':
            dep, n, body = c.args
            if n.is_const() and n.const() <= 0:
                return False
            return None
        if o in ('dge', 'dgt'):
            p = c.args[0]
            if is_intlike(p):
                return self.decide(c_ge(p) if o == 'dge' else c_ge(p - 1))
            if o == 'dge' and all_nonneg_data(p):
                return True
            sg = self.data_sign(p)
            ok = ('+',) if o == 'dgt' else ('+', '0')
            if all(x in ok for x in sg):
                return True
            if not any(x in ok for x in sg):
                return False
            return None
        if o == 'deq':
            p = c.args[0]
            if is_intlike(p):
                return self.decide(c_eq(p))
            p2 = align_sums(p, self)
            if p2 is not p:
                return self.decide(c_eq(p2, False))
            sg = self.data_sign(p)
            if sg == {'0'}:
                return True
            if '0' not in sg:
                return False
            q = cleared(p)
            if q is not None and not q.is_const():
                return self.decide(c_eq(q, False))
            return None
        return None

    def data_sign(self, p):
        """possible signs of a data value under the recorded comparisons"""
        S = {'+', '0', '-'}
        cs = self.condset
        if p.is_const():
            return {'+' if p.const() > 0 else '-' if p.const() < 0 else '0'}
        z = self.zeros()
        if z and len(p.d) > 1:
            r = Poly.make({m: c for m, c in p.d.items() if not any(a in z for a, e in m)})
            if len(r.d) < len(p.d):
                return self.data_sign(r)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if len(m) > 1 or m[0][1] > 1:
                T = {'+' if c > 0 else '-'}
                for a, e in m:
                    A = self.data_sign(atom_poly(atom_by_id(a)))
                    if e % 2 == 0:
                        A = set('+' if x == '-' else x for x in A)
                    T = set('0' if '0' in (x, y) else '+' if x == y else '-' for x in T for y in A)
                S &= T
                if len(S) == 1:
                    return S
        n = dnorm(-p)
        p = dnorm(p)
        if Cond.make('dgt', p) in cs:
            S &= {'+'}
        if Cond.make('dge', p) in cs:
            S &= {'+', '0'}
        if Cond.make('dgt', n) in cs:
            S &= {'-'}
        if Cond.make('dge', n) in cs:
            S &= {'-', '0'}
        e = c_eq(p, False)
        if e in cs:
            S &= {'0'}
        if c_not(e) in cs:
            S -= {'0'}
        if len(S) > 1:
            v = closed_sign(p)
            if v is not None:
                return {v}
            S = self.order(p, S)
        if len(S) > 1 and 1 < len(p.d) <= 30:
            S = S & self.quadratic(p)
        return S

    def quadratic(self, p):
        """possible signs of a polynomial whose terms are squares of monomials and their products"""
        S = {'+', '0', '-'}
        vs = []
        for m, c in p.d.items():
            if all(e % 2 == 0 for a, e in m):
                vs.append(tuple((a, e // 2) for a, e in m))
        if len(vs) > 8:
            return S

        def times(x, y):
            d = dict(x)
            for a, e in y:
                d[a] = d.get(a, 0) + e
            return tuple(sorted(d.items()))
        prod = {}
        for i, x in enumerate(vs):
            for j in range(i):
                prod.setdefault(times(x, vs[j]), (i, j))
        for sg, keep in ((1, '+'), (-1, '-')):
            G = [[Fraction(0)] * len(vs) for _ in vs]
            for m, c in p.d.items():
                if all(e % 2 == 0 for a, e in m):
                    i = j = vs.index(tuple((a, e // 2) for a, e in m))
                    G[i][i] = sg * Fraction(c)
                    continue
                ij = prod.get(tuple(sorted(m)))
                if ij is None:
                    return S
                i, j = ij
                G[i][j] = G[j][i] = sg * Fraction(c) / 2
            ker = psd_kernel(G)
            if ker is None:
                continue
            for i, x in enumerate(vs):
                if all(v[i] == 0 for v in ker) and all('0' not in self.data_sign(atom_poly(atom_by_id(a))) for a, e in x):
                    return {keep}
            return {keep, '0'}
        return S

    def zeros(self):
        """data that the recorded equations force to zero"""
        if getattr(self, '_zs', (None,))[0] == len(self.conds):
            return self._zs[1]
        eqs = [c.args[0] for c in self.conds if c.op == 'deq' and len(c.args[0].d) <= 4]
        non = set()
        for c in self.conds:
            q = c.args[0] if c.op == 'dgt' else c.args[0].args[0] if c.op == 'not' and c.args[0].op == 'deq' else None
            if q is not None and len(q.d) == 1:
                non.update(a for m in q.d for a, e in m)
        z = set()
        grew = bool(eqs)
        while grew:
            grew = False
            for q in eqs:
                ms = [m for m in q.d if not any(a in z for a, e in m)]
                if len(ms) == 1:
                    left = [a for a, e in ms[0] if a not in non]
                    if len(left) == 1:
                        z.add(left[0])
                        grew = True
        self._zs = (len(self.conds), z)
        return z

    def order(self, p, S):
        """drop the signs that contradict the recorded comparisons (linear over monomials)"""
        if len(p.d) > 40 or p.is_const():
            return S
        rel, strict = [], []
        ms = set(m for m in p.d if m)
        pool = []
        for c in self.conds:
            if c.op in ('dge', 'dgt', 'deq') and len(c.args[0].d) <= 40:
                pool.append((c.op, c.args[0]))
        if not pool and not any(single_nonneg(m) or len(m) == 1 and (int_bounds(m[0][0]) or self.const_bounds(m)) for m in ms):
            return S
        grew = True
        while grew and pool and len(rel) < 60:
            grew, rest = False, []
            for o, q in pool:
                if any(m in ms for m in q.d if m):
                    ms |= set(m for m in q.d if m)
                    rel.append(q)
                    strict.append(o == 'dgt')
                    if o == 'deq':
                        rel.append(-q)
                        strict.append(False)
                    grew = True
                else:
                    rest.append((o, q))
            pool = rest
        eqs = [c.args[0] for c in self.conds if c.op == 'deq' and len(c.args[0].d) <= 3]
        if eqs:
            seen = set()
            for m in sorted(ms):
                for q in eqs:
                    for t in q.d:
                        r = mono_quot(m, t, ms)
                        if r and (q, r) not in seen and len(seen) < 40:
                            seen.add((q, r))
                            x = cancel(q * Poly.make({r: 1}))
                            ms |= set(k for k in x.d if k)
                            rel += [x, -x]
                            strict += [False, False]
        for m in ms:
            if single_nonneg(m):
                rel.append(Poly.make({m: 1}))
                strict.append(False)
            elif len(m) == 1 and m[0][1] == 1:
                for q in int_bounds(m[0][0]) + self.const_bounds(m):
                    rel.append(q)
                    strict.append(False)
        if not rel:
            return S
        out = set()
        for s in S:
            extra = {'+': [(p, True)], '-': [(-p, True)], '0': [(p, False), (-p, False)]}[s]
            if not contradictory(rel + [q for q, t in extra], strict + [t for q, t in extra]):
                out.add(s)
        return out or S

    def const_bounds(self, m):
        if getattr(self, '_cb', (None,))[0] != len(self.ges):
            d = {}
            for q in self.ges:
                if len(q.d) <= 2:
                    k = [x for x in q.d if x != ()]
                    if len(k) == 1 and len(k[0]) == 1 and k[0][0][1] == 1:
                        d.setdefault(k[0], []).append(q)
            self._cb = (len(self.ges), d)
        return self._cb[1].get(m, [])

    def _split(self, c):
        # split on a recorded disjunction
        if len(self.ors) == 0 or getattr(self, '_insplit', 0) >= 2:
            return None
        for orc in self.ors[-3:]:
            if len(orc.args) > 4:
                continue
            res = set()
            for x in orc.args:
                f = self.copy()
                f.ors = [y for y in self.ors if y is not orc]
                f._insplit = getattr(self, '_insplit', 0) + 1
                f.cache = {}
                f.add(x)
                if f.prove_false():
                    continue
                res.add(f.decide(c))
                if None in res:
                    break
            if len(res) == 1 and None not in res:
                return res.pop()
        return None

    def apply_eqs(self, p):
        return subst(p, self.sol) if self.sol else p


def mono_quot(m, t, ms=()):
    """the monomial m / t, using the inverses that occur in ms; None when there is none"""
    if not t or m == t:
        return None
    d = dict(m)
    miss = []
    for a, e in t:
        if d.get(a, 0) < e:
            if d.get(a, 0) or e > 1:
                return None
            miss.append(a)
        else:
            d[a] -= e
    if len(miss) == len(t):
        return None
    for a in miss:
        x = atom_poly(atom_by_id(a))
        inv = next((b for k in ms for b, _ in k if atom_by_id(b).op == 'inv' and atom_by_id(b).args[0] == x), None)
        if inv is None:
            return None
        d[inv] = d.get(inv, 0) + 1
    return tuple(sorted((a, e) for a, e in d.items() if e)) or None


def closed_sign(p):
    """sign of an expression without free quantities, when it is far enough from zero"""
    if not (ROOTS or COSQ) or p.is_const() or len(p.d) > 200:
        return None
    if not closed(p):
        return None
    try:
        v = float(ev(p, Env(0)))
        b = max(abs(float(c)) for c in p.d.values())
    except Exception:
        return None
    return None if not abs(v) > 1e-6 * max(b, 1) else '+' if v > 0 else '-'


def closed(p):
    for a in p.atoms():
        at = atom_by_id(a)
        if at.op == 'inv':
            if not closed(at.args[0]):
                return False
        elif at.op == 'fn' and at.args[0] in ('cosq', 'sqrt', 'abs', 'exp'):
            if not all(closed(x) for x in at.args[1:] if isinstance(x, Poly)):
                return False
        else:
            return False
    return True


def int_bounds(i):
    """the constant bounds of an integer atom that occurs in a real comparison"""
    at = atom_by_id(i)
    if not at.ty or at.ty[0] != 'int':
        return []
    return [q for q in sym_facts(at) if all(m == () or m == ((i, 1),) for m in q.d)]


def single_nonneg(m):
    """monomials that are never negative: even powers and non-negative functions"""
    for a, e in m:
        at = atom_by_id(a)
        if e % 2 == 0:
            continue
        if at.op == 'fn' and at.args[0] in ('abs', 'sqrt', 'exp'):
            continue
        return False
    return bool(m)


def contradictory(fs, strict):
    """no point satisfies f >= 0 (f > 0 where strict) for all f: a combination with non-negative
    weights vanishes identically except for a negative constant or a strict term"""
    rows = {}
    for f in fs:
        for m in f.d:
            if m != () and m not in rows:
                rows[m] = len(rows)
    n = len(fs)
    A = np.zeros((len(rows) + 1, n + 1))
    cst = np.zeros(n)
    for j, f in enumerate(fs):
        for m, v in f.d.items():
            if m == ():
                cst[j] = float(v)
            else:
                A[rows[m], j] = float(v)
    big = max(np.abs(A).max(initial=0), np.abs(cst).max(initial=0)) > 1e5
    if big:
        return exact_cert(fs, strict)
    # sum w f = -slack, slack >= 0 ; slack + (weight of strict terms) = 1
    B = np.vstack([A, np.zeros((1, n + 1))])
    r = len(rows)
    B[r, :n] = cst
    B[r, n] = 1
    B[r + 1, :n] = np.array(strict, dtype=float)
    B[r + 1, n] = 1
    b = np.zeros(r + 2)
    b[r + 1] = 1
    try:
        return solve_lp(np.zeros(n + 1), B, b)[0] == 0
    except Exception:
        return False


def exact_cert(fs, strict):
    """the same question in rational arithmetic (first phase of the simplex method, Bland's rule),
    for coefficients too far apart for floating point"""
    from fractions import Fraction as Q
    ms = []
    for f in fs:
        for m in f.d:
            if m != () and m not in ms:
                ms.append(m)
    n = len(fs)
    if n > 60 or len(ms) > 40:
        return False
    R = [[Q(f.d.get(m, 0)) for f in fs] + [Q(0), Q(0)] for m in ms]
    R.append([Q(f.d.get((), 0)) for f in fs] + [Q(1), Q(0)])
    R.append([Q(int(t)) for t in strict] + [Q(1), Q(1)])
    N = n + 1
    m = len(R)
    basis = [N + i for i in range(m)]       # artificial variables
    # objective: the sum of the artificial variables (all still basic)
    z = [sum(r[j] for r in R) for j in range(N + 1)]
    for _ in range(400):
        if z[N] == 0:
            return True
        c = next((j for j in range(N) if z[j] > 0), None)
        if c is None:
            return False
        r = None
        for i in range(m):
            if R[i][c] > 0:
                t = R[i][N] / R[i][c]
                if r is None or t < best or t == best and basis[i] < basis[r]:
                    r, best = i, t
        if r is None:
            return False
        d = R[r][c]
        R[r] = [x / d for x in R[r]]
        for i in range(m):
            if i != r and R[i][c]:
                e = R[i][c]
                R[i] = [x - e * y if y else x for x, y in zip(R[i], R[r])]
        e = z[c]
        z = [x - e * y if y else x for x, y in zip(z, R[r])]
        basis[r] = c
    return False


def radices(d):
    """candidate radices: size monomials that divide some but not all terms"""
    out = []
    for m in d.d:
        if sum(e for a, e in m) >= 2:
            for sub in submonos(m):
                q = Poly.make({sub: 1})
                if q not in out:
                    out.append(q)
    out.sort(key=lambda q: -q.degree())
    return out[:12]


def poly_radices(d):
    """decompositions d = q*x + y with q a polynomial (e.g. R-1) and x linear"""
    out = []
    seen = set()
    for a in d.atoms():
        at = atom_by_id(a)
        if at.op not in ('sym', 'bound'):
            continue
        q = partial(d, a)
        if q is None or len(q.d) < 2:
            continue
        if q in seen or -q in seen:
            continue
        seen.add(q)
        x = atom_poly(at)
        for b in d.atoms():
            if b != a:
                r = partial(d, b)
                if r is q:
                    x = x + atom_poly(atom_by_id(b))
                elif r is not None and r is -q:
                    x = x - atom_poly(atom_by_id(b))
        y = d - q * x
        for t in (0, 1, -1):
            out.append((q, (x + t, y - q * t)))
            out.append((-q, (-x - t, y - q * t)))
    return out[:12]


def partial(d, a):
    """coefficient of atom a when d is linear in it"""
    r = {}
    for m, c in d.d.items():
        for i, e in m:
            if i == a:
                if e != 1:
                    return None
                r[tuple(z for z in m if z[0] != a)] = c
    return Poly.make(r)


def index_terms(c):
    out = []
    seen = set()

    def go(x, d):
        if d > 12 or x in seen:
            return
        seen.add(x)
        if isinstance(x, Poly):
            for m in x.d:
                for a, e in m:
                    at = atom_by_id(a)
                    if at.op == 'elem':
                        out.extend(y for y in at.args[1:] if isinstance(y, Poly))
                    elif at.op == 'sel':
                        out.append(at.args[1])
                    elif at.op == 'sym' and at.ty[0] == 'int':
                        out.append(atom_poly(at))
                    else:
                        for y in children(at.op, at.args):
                            if isinstance(y, (Poly, Cond)):
                                go(y, d + 1)
        elif isinstance(x, Cond):
            for y in children(x.op, x.args):
                if isinstance(y, (Poly, Cond)):
                    go(y, d + 1)
    go(c, 0)
    return out


def submonos(m):
    its = []
    for a, e in m:
        at = atom_by_id(a)
        its.append((a, e))
    n = len(its)
    if n > 4:
        return
    res = []
    import itertools
    for es in itertools.product(*[range(e + 1) for a, e in its]):
        t = tuple((a, e) for (a, _), e in zip(its, es) if e)
        if t and t != m:
            res.append(t)
    return res


def all_nonneg_data(p):
    for m, c in p.d.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            at = atom_by_id(a)
            if at.op == 'fn' and at.args[0] in ('abs', 'sqrt', 'exp'):
                continue
            if at.op == 'sum' and all_nonneg_data(at.args[2]):
                continue
            return False
    return True


def solve_eq(e):
    """e == 0 -> {atom: poly} for a symbol with unit coefficient"""
    best = None
    for m, c in e.d.items():
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
            at = atom_by_id(m[0][0])
            if at.op != 'sym':
                continue
            rest = Poly.make({mm: cc for mm, cc in e.d.items() if mm != m})
            if at in free_syms(rest):
                continue
            v = -rest if c == 1 else rest
            if best is None or at.id > best[0].id:
                best = (at, v)
    if best:
        return {best[0]: best[1]}
    return None


def replace_atom(p, at, v):
    r = ZERO
    v = P(v)
    for m, c in p.d.items():
        t = P(c)
        for a, e in m:
            x = v if a == at.id else atom_poly(atom_by_id(a))
            for _ in range(e):
                t = t * x
        r = r + t
    return r


# ---------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


class Budget(EvalError):
    pass


def _h(*a):
    return random.Random(repr(a))


class Env:
    """a point: integer values for symbols + a pseudo-random input for arrays"""

    def __init__(self, seed, steps=60000):
        self.seed = seed
        self.vals = {}
        self.memo = {}
        self.steps = steps
        self.dist = _h('dist', seed).choice(['int', 'small', 'float'])
        self.lim = {}

    def elem(self, at, idx):
        r = _h(self.seed, at.args[0], tuple(idx))
        ty = at.ty
        lim = self.lim.get((at.args[0], tuple(idx))) if self.lim else None
        if ty[0] == 'int':
            if lim:
                top = (1 << (ty[1] - (1 if ty[2] else 0))) - 1
                lo, hi = lim
                lo = max(math.ceil(lo) if lo is not None else -top - 1 if ty[2] else 0, -top - 1 if ty[2] else 0)
                hi = min(math.floor(hi) if hi is not None else top, top)
                if lo <= hi:
                    return r.choice([min(hi, lo + r.randint(0, 9)), max(lo, hi - r.randint(0, 9))])
            if ty[1] == 1:
                return r.randint(0, 1)
            if not ty[2] and self.seed % 3 == 2:
                return r.randrange(1 << ty[1])
            return r.randint(-9, 9) if ty[2] else r.randint(0, 9)
        if lim:
            return self.inside(r, *lim)
        if self.dist == 'int':
            return float(r.randint(-3, 3))
        return r.uniform(-2, 2)

    def inside(self, r, lo, hi):
        """a value between the bounds the conditions put on one datum"""
        if lo is None:
            lo = hi - 3
        if hi is None:
            hi = lo + 3
        if lo == hi:
            return lo
        if self.dist == 'int' and math.ceil(lo) <= math.floor(hi):
            k = [x for x in range(math.ceil(lo), math.floor(hi) + 1) if x not in (lo, hi)]
            if k:
                return float(r.choice(k))
        return r.uniform(lo, hi)

    def limit(self, conds):
        """collect the bounds on single data (a symbol, or an element of an input) among the conditions"""
        for c in conds:
            if c.op not in ('dge', 'dgt', 'deq', 'ge', 'eq'):
                continue
            p = c.args[0]
            at, k, co = None, 0, 0
            for m, v in p.d.items():
                if m == ():
                    k = v
                elif at is None and len(m) == 1 and m[0][1] == 1:
                    at, co = atom_by_id(m[0][0]), v
                else:
                    break
            else:
                if at is None:
                    continue
                if at.op == 'sym':
                    if at.ty[0] != 'float':
                        continue
                    key = at
                elif at.op == 'elem':
                    try:
                        key = (at.args[0], tuple(int(ev(x, self)) if isinstance(x, Poly) else x for x in at.args[1:]))
                    except EvalError:
                        continue
                else:
                    continue
                b = float(-k) / float(co)
                lo, hi = self.lim.get(key, (None, None))
                if c.op in ('deq', 'eq'):
                    lo = hi = b
                elif co > 0:
                    lo = b if lo is None else max(lo, b)
                else:
                    hi = b if hi is None else min(hi, b)
                if lo is not None and hi is not None and lo > hi:
                    continue
                self.lim[key] = (lo, hi)

    def data_sym(self, at):
        r = _h(self.seed, 'datasym', at.args[0])
        if at in self.lim:
            return self.inside(r, *self.lim[at])
        if self.dist == 'int':
            return float(r.randint(-3, 3))
        return r.uniform(-2, 2)


def ev(x, env):
    if isinstance(x, Poly):
        v = env.memo.get(x)
        if v is not None:
            return v
        env.steps -= 1
        if env.steps < 0:
            raise Budget()
        t = 0
        for m, c in x.d.items():
            if isinstance(c, Fraction):
                c = float(c)
            v = c
            for a, e in m:
                w = ev_atom(atom_by_id(a), env)
                v = v * (w if e == 1 else w ** e)
            t = t + v
        env.memo[x] = t
        return t
    if isinstance(x, Cond):
        return ev_cond(x, env)
    if isinstance(x, Cx):
        return complex(ev(x.re, env), ev(x.im, env))
    raise EvalError('cannot evaluate %r' % (x,))


def close(a, b):
    if isinstance(a, complex) or isinstance(b, complex):
        return close(complex(a).real, complex(b).real) and close(complex(a).imag, complex(b).imag)
    if a == b:
        return True
    try:
        if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
            return True   # no evidence either way
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    except OverflowError:
        return False


def ev_cond(c, env):
    o, a = c.op, c.args
    if o == 'true':
        return True
    if o == 'false':
        return False
    if o in ('ge', 'dge'):
        return ev(a[0], env) >= 0
    if o == 'dgt':
        return ev(a[0], env) > 0
    if o in ('eq', 'deq'):
        return ev(a[0], env) == 0
    if o == 'not':
        return not ev_cond(a[0], env)
    if o == 'and':
        return all(ev_cond(x, env) for x in a)
    if o == 'or':
        return any(ev_cond(x, env) for x in a)
    if o == 'exists':
        n = ev(a[1], env)
        return any(ev_cond(subst(a[2], {mk_atom('bound', (a[0],), ('int', 64, False)): P(i)}), env) for i in range(int(n)))
    if o == 'batom':
        return _h(env.seed, 'batom', a).random() < 0.5
    raise EvalError(o)


NEG = [0]


def root(x):
    if isinstance(x, (int, float, Fraction)) and x < -1e-3:
        NEG[0] += 1
        return float('nan')
    return math.sqrt(x)


def differs(a, b, env):
    """the implementation's value a is not the required value b; a root of a clearly negative number where a real value is required counts"""
    va, vb = ev(a, env), ev(b, env)
    if isinstance(va, float) and math.isnan(va) and not isinstance(vb, complex) and math.isfinite(vb):
        env.memo = {}
        NEG[0] = 0
        ev(a, env)
        return NEG[0] > 0
    if not close(va, vb):
        return True
    # a difference of small values is a mismatch if it is far above the rounding of the terms they consist of
    if isinstance(va, complex) or isinstance(vb, complex) or va == vb or isinstance(a, Cx) or isinstance(b, Cx):
        return False
    try:
        return abs(va - vb) > 1e-6 * (size(a, env) + size(b, env))
    except (OverflowError, ZeroDivisionError, TypeError, ValueError):
        return False


def size(x, env):
    """bound on the size of the terms x is computed from: its rounding error is a tiny fraction of it"""
    t = 0.0
    for m, c in x.d.items():
        v = abs(float(c))
        for a, e in m:
            v *= size_atom(atom_by_id(a), env) ** e
        t += v
    return t


def size_atom(at, env):
    v = ev_atom(at, env)
    if not isinstance(v, (int, float)):
        raise TypeError
    v = abs(v)
    if at.op in ('sym', 'elem'):
        return v
    if at.op == 'ite':
        return size(at.args[1] if ev_cond(at.args[0], env) else at.args[2], env)
    if at.op == 'inv':
        return v * v * size(at.args[0], env)
    if at.op == 'fn' and at.args[0] == 'exp':
        return v * (1 + size(at.args[1], env))
    if at.op == 'fn' and at.args[0] == 'sqrt':
        return math.sqrt(size(at.args[1], env))
    return max(v, 1.0)


def cfun(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            return float('nan')
    return g


FN = {
    'sqrt': cfun(root), 'exp': cfun(math.exp), 'log': cfun(math.log), 'cosq': lambda x: math.cos(2 * math.pi * x), 'cos': math.cos, 'sin': math.sin,
    'abs': abs, 'pow': cfun(lambda a, b: float(a) ** b), 'floor': math.floor, 'ceil': math.ceil,
    'atan2': math.atan2, 'tan': cfun(math.tan), 'log2': cfun(math.log2), 'log10': cfun(math.log10),
    'round': lambda a: math.copysign(math.floor(abs(a) + 0.5), a), 'fabs': abs, 'erf': math.erf, 'erfc': math.erfc,
    'trunc': lambda a: int(a), 'toint': lambda a: int(a), 'tofloat': lambda a: float(a),
    's&': lambda a, b: int(a) & int(b), 's|': lambda a, b: int(a) | int(b), 's^': lambda a, b: int(a) ^ int(b),
    'fmod': cfun(math.fmod), 'mul': lambda a, b: a * b, 'hypot': math.hypot,
}


def ev_atom(at, env):
    key = at
    v = env.memo.get(key)
    if v is not None:
        return v
    env.steps -= 1
    if env.steps < 0:
        raise Budget()
    o = at.op
    if o == 'sym':
        if at in env.vals:
            return env.vals[at]
        if at.ty[0] != 'int':
            return env.data_sym(at)
        raise EvalError('unassigned ' + at.args[0])
    if o == 'bound':
        raise EvalError('bound')
    if o == 'elem':
        idx = [ev(x, env) for x in at.args[1:]]
        idx = [int(x) if isinstance(x, float) and x.is_integer() else x for x in idx]
        r = env.elem(at, idx)
    elif o == 'ite':
        r = ev(at.args[1] if ev_cond(at.args[0], env) else at.args[2], env)
    elif o == 'sum':
        dep, n, body = at.args
        b = mk_atom('bound', (dep,), ('int', 64, False))
        r = 0
        n = int(ev(n, env))
        if n > 64:
            raise Budget()
        for i in range(n):
            r = r + ev(subst(body, {b: P(i)}), env)
    elif o == 'inv':
        d = ev(at.args[0], env)
        r = float('nan') if d == 0 else 1.0 / d
    elif o == 'fdiv':
        a, b = ev(at.args[0], env), ev(at.args[1], env)
        if b == 0:
            raise EvalError('div0')
        r = a // b
    elif o == 'tdiv':
        a, b = ev(at.args[0], env), ev(at.args[1], env)
        if b == 0:
            raise EvalError('div0')
        r = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
    elif o == 'mod':
        a, b = ev(at.args[0], env), ev(at.args[1], env)
        if b == 0:
            raise EvalError('div0')
        r = abs(a) % abs(b) * (1 if a >= 0 else -1)
    elif o in ('and', 'or', 'xor', 'shl', 'shr'):
        a, b, bits = ev(at.args[0], env), ev(at.args[1], env), at.args[2]
        mask = (1 << bits) - 1
        a = int(a)
        b = int(b)
        if o == 'and':
            r = (a & b) & mask
        elif o == 'or':
            r = (a | b) & mask
        elif o == 'xor':
            r = (a ^ b) & mask
        elif b < 0 or b >= bits:
            raise EvalError('shift')
        elif o == 'shl':
            r = (a << b) & mask
        else:
            r = (a & mask) >> b
    elif o == 'wrap':
        p, bits, sg = at.args
        v = int(ev(p, env)) & ((1 << bits) - 1)
        if sg and v >> (bits - 1):
            v -= 1 << bits
        r = v
    elif o == 'fn':
        name = at.args[0]
        args = [ev(x, env) for x in at.args[1:]]
        f = FN.get(name)
        if f:
            try:
                r = f(*args)
            except Exception:
                r = float('nan')
        else:
            key2 = tuple(round(x, 6) if isinstance(x, float) else x for x in args)
            rr = _h(env.seed, 'ufn', name, key2)
            r = rr.randint(0, 50) if at.ty[0] == 'int' else rr.uniform(-2, 2)
    elif o == 'undef':
        if UNDEF[0] is not None:
            r = UNDEF[0] if isinstance(UNDEF[0], int) else _h(env.seed, UNDEF[0], at.args).randint(-100, 100)
            if at.ty and at.ty[0] == 'int':
                r &= (1 << at.ty[1]) - 1
                if at.ty[2] and r >> (at.ty[1] - 1):
                    r -= 1 << at.ty[1]
            return r
        rr = _h(env.seed, 'undef', at.args)
        r = rr.randint(100, 1000) if at.ty and at.ty[0] == 'int' else rr.uniform(50, 100)
    elif o == 'foldv':
        r = ev_fold(at, env)
    elif o in EVALX:
        r = EVALX[o](at, env)
    else:
        raise EvalError('atom ' + o)
    env.memo[key] = r
    return r


EVALX = {}
UNDEF = [None]     # value to take for everything that was never written, when set


def ev_fold(at, env):
    # args: (which, (kdep, pdeps...), n, inits, steps)
    which, deps, n, inits, steps = at.args
    n = int(ev(n, env))
    if n > 40:
        raise Budget()
    vals = [ev(x, env) for x in inits]
    T = ('int', 64, False)
    bs = [mk_atom('bound', (d,), T) for d in deps]
    for i in range(n):
        sub = Env.__new__(Env)
        sub.__dict__.update(env.__dict__)
        sub.memo = {}
        m = {bs[0]: P(i)}
        for b, v in zip(bs[1:], vals):
            if isinstance(v, complex):
                raise EvalError('cx fold')
            m[b] = P(v if isinstance(v, int) else Fraction(v) if v == v and not math.isinf(v) else _bad())
        vals = [ev(subst(s, m), env) for s in steps]
        env.steps -= 50
    return vals[which]


def _bad():
    raise EvalError('nan')


def _rebuild_fold(a, args, mp):
    which, deps, n, inits, steps = a.args
    T = ('int', 64, False)
    fresh = [sym('fp', fresh=True, ty=('int', 64, True)) for d in deps]
    bs = [mk_atom('bound', (d,), T) for d in deps]
    m1 = dict(zip(bs, fresh))
    steps2 = tuple(subst(subst(s, m1), mp) for s in steps)
    return mk_fold(which, fresh[0], fresh[1:], subst(n, mp), tuple(subst(i, mp) for i in inits), steps2, a.ty)


REBUILD['foldv'] = _rebuild_fold


def mk_fold(which, k, params, n, inits, steps, ty):
    d0 = max([depth_of(s) for s in steps] + [depth_of(i) for i in inits] + [depth_of(n)])
    deps = tuple(d0 + 1 + i for i in range(1 + len(params)))
    m = {sym_atom(s): bound_sym(d) for s, d in zip([k] + list(params), deps)}
    steps2 = tuple(subst(s, m) for s in steps)
    return atom_poly(mk_atom('foldv', (which, deps, n, tuple(inits), steps2), ty))


def sample_env(seed, conds, polys, extra_syms=(), maxv=5):
    """choose small values for all integer symbols satisfying their facts.
    returns Env or None"""
    env = Env(seed)
    rnd = _h('env', seed)
    need = set()
    todo = [free_syms(c) for c in conds] + [free_syms(p) for p in polys] + [frozenset(extra_syms)]
    stack = [a for s in todo for a in s]
    allf = []
    while stack:
        a = stack.pop()
        if a in need or a.op != 'sym':
            continue
        if a.args[0].startswith('b~'):
            return None   # an unresolved array binder: not a concrete state
        need.add(a)
        for f in syminfo[a].facts:
            allf.append(f)
            stack.extend(free_syms(f))
    for c in conds:
        if c.op == 'ge':
            allf.append(c.args[0])
        elif c.op == 'eq':
            allf.append(c.args[0])
            allf.append(-c.args[0])
    allf = list(dict.fromkeys(allf))
    ints = sorted([a for a in need if a.ty[0] == 'int'], key=lambda a: a.id)
    for a in ints:
        lo, hi = None, None
        x = atom_poly(a)
        for f in allf:
            fs = free_syms(f)
            if a not in fs:
                continue
            if all(b is a or b in env.vals for b in fs):
                # linear in a?
                coef = None
                rest = ZERO
                ok = True
                for m, c in f.d.items():
                    if any(i == a.id for i, e in m):
                        mm = tuple((i, e) for i, e in m if i != a.id)
                        if dict(m)[a.id] != 1:
                            ok = False
                            break
                        coef = (coef or ZERO) + Poly.make({mm: c})
                    else:
                        rest = rest + Poly.make({m: c})
                if not ok or coef is None or a in free_syms(coef) or a in free_syms(rest):
                    continue
                try:
                    cv, rv = ev(coef, env), ev(rest, env)
                except EvalError:
                    continue
                if cv > 0:
                    b = math.ceil(Fraction(-rv) / Fraction(cv))
                    lo = b if lo is None else max(lo, b)
                elif cv < 0:
                    b = math.floor(Fraction(rv) / Fraction(-cv))
                    hi = b if hi is None else min(hi, b)
        if lo is None:
            lo = 0 if hi is None else min(0, hi) if a.ty[2] is False else hi - 5
            if a.ty[2] and hi is None:
                lo = -3
        if hi is None:
            hi = lo + maxv
        if hi < lo:
            return None
        if hi - lo > 2 * maxv:
            # prefer the edges
            v = rnd.choice([lo + rnd.randint(0, maxv), lo + rnd.randint(0, maxv), hi - rnd.randint(0, 2)]) if hi < 2 ** 40 else lo + rnd.randint(0, maxv)
        else:
            v = rnd.randint(lo, hi)
        env.vals[a] = v
        env.memo = {}
    env.limit(conds)
    try:
        for f in allf:
            if ev(f, env) < 0:
                return None
        for c in conds:
            if not ev_cond(c, env):
                return None
    except EvalError:
        return None
    return env


def show_env(env):
    return {a.args[0]: v for a, v in env.vals.items() if '~' not in a.args[0]} or {a.args[0]: v for a, v in env.vals.items()}


def find_witness(conds, bad, tries=300, polys=()):
    """search a point satisfying conds where bad(env) is True"""
    hit = 0
    for s in range(tries):
        env = sample_env(s, conds, polys)
        if env is None:
            continue
        hit += 1
        try:
            if bad(env):
                return env
        except EvalError:
            continue
        if hit > 60:
            break
    return None
