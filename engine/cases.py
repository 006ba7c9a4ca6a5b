"""Case analysis for goals that the decision procedures leave open: split on the
conditions of conditional terms, on recorded disequalities, on equality of index
symbols with a common range, and instantiate universally quantified facts."""
from terms import *
from facts import sym_facts, index_terms
from arrays import simplify
import time


def atoms_of_cond(c, out, seen, d=0):
    """atomic undecided conditions inside ites of a term"""
    if d > 10 or c in seen:
        return
    seen.add(c)
    if isinstance(c, Poly):
        for m in c.d:
            for a, e in m:
                at = atom_by_id(a)
                if at.op == 'ite':
                    leafs(at.args[0], out)
                for y in children(at.op, at.args):
                    if isinstance(y, (Poly, Cond)):
                        atoms_of_cond(y, out, seen, d + 1)
    elif isinstance(c, Cond):
        for y in children(c.op, c.args):
            if isinstance(y, (Poly, Cond)):
                atoms_of_cond(y, out, seen, d + 1)


def leafs(c, out):
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            leafs(x, out)
    elif c.op in ('ge', 'eq', 'deq', 'dge', 'dgt', 'batom'):
        if not has_bound(c) and c not in out:
            out.append(c)


def has_bound(c):
    return depth_of(c) > 0


def idx_syms(x):
    return [a for a in free_syms(x) if a.op == 'sym' and a.ty[0] == 'int']


def nonlinear_pair(goal, a, b):
    """a and b occur in the goal multiplied by a common factor"""
    fa, fb = factors(goal, a), factors(goal, b)
    return bool(fa & fb)


def factors(x, s, seen=None, d=0):
    seen = set() if seen is None else seen
    out = set()
    if x in seen or d > 10:
        return out
    seen.add(x)
    if isinstance(x, Poly):
        for m in x.d:
            for i, (a, e) in enumerate(m):
                at = atom_by_id(a)
                if at is s:
                    rest = m[:i] + m[i + 1:]
                    if rest:
                        out.add(rest)
                else:
                    for y in children(at.op, at.args):
                        if isinstance(y, (Poly, Cond)):
                            out |= factors(y, s, seen, d + 1)
    else:
        for y in children(x.op, x.args):
            if isinstance(y, (Poly, Cond)):
                out |= factors(y, s, seen, d + 1)
    return out


def upper(a, f):
    p = atom_poly(a)
    out = {q + p for q in sym_facts(a)}
    for q in f.ges:
        if a.id in q.atoms() and q.d.get(((a.id, 1),)) == -1:
            out.add(q + p)
    return {q for q in out if not q.is_const() and a.id not in q.atoms()}


def candidates(goal, f):
    first, out = [], []
    syms = idx_syms(goal)[:8]
    for i in range(len(syms)):
        for j in range(i + 1, len(syms)):
            a, b = atom_poly(syms[i]), atom_poly(syms[j])
            if upper(syms[i], f) & upper(syms[j], f) and (nonlinear_pair(goal, syms[i], syms[j])):
                c = c_eq(a - b)
                if f.decide(c) is None:
                    first.append(c)
                elif any(q is a - b or q is b - a for q in f.neqs):
                    c = c_ge(a - b - 1)
                    first.append(c)
    if goal.op in ('and', 'or', 'not'):
        leafs(goal, out)
    atoms_of_cond(goal, out, set())
    gs = free_syms(goal)
    for p in f.neqs[:4]:
        c = c_ge(p - 1)
        if c not in out and (free_syms(p) & gs):
            out.append(c)
    if not out:
        for i in range(len(syms)):
            for j in range(i + 1, len(syms)):
                if upper(syms[i], f) & upper(syms[j], f):
                    c = c_eq(atom_poly(syms[i]) - atom_poly(syms[j]))
                    if c not in first:
                        out.append(c)
    return [c for c in first + out if f.decide(c) is None]


def instantiate(goal, f):
    uni = [x.args[0] for x in f.conds if x.op == 'not' and x.args[0].op == 'exists']
    if not uni:
        return f
    terms = []
    srcs = [goal] + list(f.conds)[-12:]
    for c in srcs:
        for a in index_terms(c):
            if a not in terms and not has_bound(a):
                terms.append(a)
    g = None
    plain = f.copy()
    plain._inuni = 1
    plain.cache = {}
    for ex in uni:
        dep, n, body = ex.args
        b = mk_atom('bound', (dep,), ('int', 64, False))
        for t in terms[:10]:
            if not (f.ge(t) and f.ge(n - 1 - t)):
                continue
            inst = simplify(c_not(subst(body, {b: t})), plain)
            if inst in f.condset or inst is TRUE:
                continue
            if g is None:
                g = f.copy()
                g._inuni = 1
                g.cache = {}
            g.add(inst)
            if inst is FALSE:
                g.dead = True
    return g or f


def solutions(body, b, out, d=0):
    """terms equated with the bound variable"""
    if d > 8:
        return
    if body.op in ('and', 'or', 'not'):
        for x in body.args:
            solutions(x, b, out, d + 1)
    elif body.op == 'eq':
        p = body.args[0]
        c = p.d.get(((b.id, 1),))
        if c in (1, -1):
            t = (p - atom_poly(b) * c) * (-c)
            if b not in free_syms(t) and not has_bound(t) and t not in out:
                out.append(t)


def offer(goal, f, syms, d=0):
    """replace positive existentials of the goal by the instances that might prove them"""
    o = goal.op
    if o == 'and':
        return c_and(*[offer(x, f, syms, d) for x in goal.args])
    if o == 'or':
        return c_or(*[offer(x, f, syms, d) for x in goal.args])
    if o == 'exists' and d < 3:
        dep, n, body = goal.args
        b = mk_atom('bound', (dep,), ('int', 64, False))
        cand = []
        solutions(body, b, cand)
        cand += [x for x in [ZERO, n - 1] + syms if x not in cand]
        parts = []
        for t in cand[:8]:
            inst = simplify(c_and(c_ge(t), c_ge(n - 1 - t), subst(body, {b: t})), f)
            parts.append(offer(inst, f, syms, d + 1))
        return c_or(*parts)
    return goal


def has_exists(c):
    return c.op == 'exists' or c.op in ('and', 'or') and any(has_exists(x) for x in c.args)


def by_cases(goal, f, depth=4, deadline=None):
    if deadline is None:
        deadline = time.time() + 10
        f = instantiate(goal, f)
        g0 = simplify(goal, f)
        if has_exists(g0):
            syms = [atom_poly(a) for a in idx_syms(goal)]
            for c in f.conds:
                syms += [atom_poly(a) for a in idx_syms(c) if atom_poly(a) not in syms]
            goal = offer(g0, f, syms[:5])
        if getattr(f, 'dead', False) or f.infeasible():
            return True
    g = simplify(goal, f)
    q = f.decide(g)
    if q is True:
        return True
    if depth == 0 or time.time() > deadline:
        return False
    if q is False:
        # only a contradiction can help
        cand = candidates(goal, f)[:3]
    else:
        cand = candidates(g, f)[:8]
    for c in cand[:3]:
        ok = True
        for cc in (c, c_not(c)):
            h = f.copy()
            h.cache = {}
            h.add(cc)
            h.pin(free_syms(cc))
            if h.infeasible():
                continue
            if not by_cases(g, h, depth - 1, deadline):
                ok = False
                break
        if ok:
            return True
        if q is None and depth >= 3:
            continue
        break
    return False
