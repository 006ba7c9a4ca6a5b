"""Models of the C++ standard library facilities the analysed tree uses and of
the intrinsics of the specification scenarios (namespace V)."""
from fractions import Fraction
from terms import *
from facts import *
from arrays import *
import interp as X

NOMODEL = object()

MATH1 = {'sqrt', 'exp', 'log', 'log2', 'log10', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'cosh', 'sinh', 'tanh',
         'erf', 'erfc', 'cbrt', 'log1p', 'expm1', 'tgamma', 'lgamma'}
STREAMS = ('std::basic_ostream', 'std::basic_istream', 'std::basic_stringstream', 'std::basic_istringstream',
           'std::basic_ostringstream', 'std::basic_ios', 'std::ios_base', 'std::basic_string', 'std::ostream_iterator',
           'std::chrono', 'std::basic_iostream')


def base_q(q):
    """drop template arguments"""
    out, d = [], 0
    i = 0
    op = q.find('operator')
    head, tail = (q[:op], q[op:]) if op >= 0 else (q, '')
    for ch in head:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out) + tail


def tname(I, t):
    ty = I.prog.T(t)
    if ty['k'] == 'ref' or ty['k'] == 'ptr':
        ty = I.prog.T(ty['to'])
    return ty.get('name', '')


def is_vec(I, t):
    return I.prog.T(t).get('name') == 'std::vector'


def is_iter(I, t):
    return I.prog.T(t).get('name') in ('__gnu_cxx::__normal_iterator',)


def is_opaque_rec(I, t):
    n = I.prog.T(t).get('name', '')
    return n.startswith(STREAMS)


def targ(I, t, n=0):
    return I.prog.T(t)['targs'][n]['type']


def new_record(I, t):
    n = I.prog.T(t).get('name', '')
    if n in ('std::vector', 'std::initializer_list'):
        return X.Rec(t, {'#p': X.NULL})
    if n == 'std::tuple' or n == 'std::pair':
        return X.Rec(t, {})
    if n.startswith('std::atomic') or n == 'std::__atomic_base':
        return X.Rec(t, {'#v': sym('tracked', ('int', 64, False))})
    if n in ('std::allocator', 'std::__new_allocator', 'std::bad_alloc'):
        return X.Rec(t, {})
    if n == 'std::unique_ptr':
        return X.Rec(t, {'#u': X.NULL})
    if is_opaque_rec(I, t):
        return X.Opaque('std', n)
    if n.startswith('__gnu_cxx::__normal_iterator'):
        return X.NULL
    r = I.prog.rec_of(t)
    if r is None or 'fields' not in r:
        if n.startswith('std::') or not n:
            return X.Opaque('std', n)
    I.st.ctr += 1
    fix_nested(I)
    return I.rec_undef(t, 'r%d' % I.st.ctr)


def fix_nested(I):
    pass


def nested_init(I, t, uid):
    """value of an uninitialised member of library type"""
    n = I.prog.T(t).get('name', '')
    if n.startswith('std::') or n.startswith('__gnu'):
        return new_record(I, t)
    return None


# ------------------------------------------------------------------ vectors
def vec_new(I, t, n, content):
    ety = targ(I, t)
    p = I.alloc_block(n, ety, 'vec')
    b = I.st.mem[p.lv.loc]
    if content is not None:
        I.st.mem[p.lv.loc] = b._replace(content=content)
    return X.Rec(t, {'#p': p})


def vec_block(I, rec):
    if not isinstance(rec, X.Rec) or '#p' not in rec.f:
        raise X.Unsupported('vector value')
    p = rec.f['#p']
    if p.lv is None:
        return None
    return I.st.mem[p.lv.loc]


def zero_content(I, ety):
    return mkc('const', I.zero_of(ety))


def elem_is_rec(I, ety):
    return I.prog.T(ety)['k'] == 'rec' and not I.is_complex(ety)


def putvec(I, lv, rec):
    I.st.mem[lv.loc] = I.putraw(I.st.mem[lv.loc], lv.path, rec)


def vec_copy(I, t, src):
    b = vec_block(I, src)
    ety = targ(I, t)
    if b is None:
        return vec_new(I, t, ZERO, zero_content(I, ety))
    if elem_is_rec(I, ety):
        if b.n is ZERO:
            return vec_new(I, t, ZERO, None)
        p = b.content
        return vec_objs(I, t, b.n, [X.LV(src.f['#p'].lv.loc, (P(i),)) for i in range(len(p))])
    return vec_new(I, t, b.n, b.content)


def find_ctor(I, ety, copy):
    cls = I.prog.T(ety).get('rec')
    for f in I.prog.funcs.values():
        if f.get('mk') != 'ctor' or I.prog.T(f['cls']).get('rec') != cls:
            continue
        if not copy and not f['p']:
            return f
        if copy and len(f['p']) == 1:
            pt = I.prog.T(f['p'][0]['t'])
            if pt['k'] == 'ref' and not pt.get('rv') and I.prog.T(pt['to']).get('rec') == cls:
                return f
    raise X.Unsupported('constructor of vector elements')


def vec_objs(I, t, n, src):
    """a vector of n class objects: default constructed, copies of one object, or copies of a list of objects"""
    ety = targ(I, t)
    n = simplify(P(n), I.st.facts)
    if not n.is_const() or n.const() > 64:
        raise X.Unsupported('vector of objects')
    rec = vec_new(I, t, n, None)
    p = rec.f['#p']
    f = find_ctor(I, ety, src is not None)
    blank = []
    for i in range(n.const()):
        blank.append(new_record(I, ety))
    I.st.mem[p.lv.loc] = I.st.mem[p.lv.loc]._replace(content=X.Objs(blank))
    for i in range(n.const()):
        lv = X.LV(p.lv.loc, (P(i),))
        a = [] if src is None else [src[i] if isinstance(src, list) else src]
        if 'body' not in f:
            if src is not None and f.get('defaulted'):
                raise X.Unsupported('vector of objects')
            continue
        I.run_function(f['id'], lv, a)
    return rec


def vec_ctor(I, e, lv, t):
    ety = targ(I, t)
    a = e['a']
    pts = e.get('pt') or []
    if e['k'] == 'initlist':
        raise X.Unsupported('vector init list')
    if not a or (len(a) == 1 and tname(I, pts[0]) == 'std::allocator'):
        putvec(I, lv, vec_new(I, t, ZERO, None))
        return
    n0 = tname(I, pts[0])
    if n0 == 'std::vector':
        src = I.eval(a[0])
        if not isinstance(src, X.LV):
            raise X.Unsupported('vector copy')
        v = I.load(src)
        if e.get('mc'):
            putvec(I, lv, X.Rec(t, dict(v.f)))
            moved = vec_new(I, v.t, ZERO, None)
            I.st.mem[src.loc] = I.putraw(I.st.mem[src.loc], src.path, moved)
        else:
            putvec(I, lv, vec_copy(I, t, v))
        return
    if n0 == 'std::initializer_list':
        v = I.rval(a[0])
        if isinstance(v, X.Rec) and '#p' in v.f:
            putvec(I, lv, vec_copy(I, t, v))
            return
        raise X.Unsupported('initializer_list')
    if I.prog.T(pts[0])['k'] == 'int':
        n = I.rval(a[0])
        if isinstance(n, Cond):
            n = cond_to_poly(n)
        if elem_is_rec(I, ety):
            v = I.eval(a[1]) if len(a) >= 2 and tname(I, pts[1]) != 'std::allocator' else None
            if v is not None and not isinstance(v, X.LV):
                v = X.LV(I.newloc(v, ety), ())
            putvec(I, lv, vec_objs(I, t, n, v))
            return
        if len(a) >= 2 and tname(I, pts[1]) != 'std::allocator':
            v = I.rval(a[1])
            if isinstance(v, Cond):
                v = cond_to_poly(v)
            if isinstance(v, Poly) and I.is_complex(ety):
                v = Cx(v, ZERO)
            c = mkc('const', v)
        else:
            c = zero_content(I, ety)
        putvec(I, lv, vec_new(I, t, n, c))
        return
    # iterator / pointer range
    x, y = I.rval(a[0]), I.rval(a[1])
    if isinstance(x, X.Ptr) and isinstance(y, X.Ptr) and x.lv and y.lv and x.lv.loc == y.lv.loc:
        n = y.lv.path[-1] - x.lv.path[-1]
        blk = I.st.mem[x.lv.loc]
        rec = vec_new(I, t, n, zero_content(I, ety))
        copy_range(I, rec.f['#p'], x, n)
        putvec(I, lv, rec)
        return
    raise X.Unsupported('vector constructor')


def vec_method(I, e, name):
    b = I.eval(e['b'])
    if e.get('arrow'):
        b = (I.load(b) if isinstance(b, X.LV) else b).lv
    if not isinstance(b, X.LV):
        raise X.Unsupported('vector rvalue')
    rec = I.load(b)
    if not isinstance(rec, X.Rec) or '#p' not in rec.f:
        raise X.Unsupported('vector state')
    p = rec.f['#p']
    if p.lv is None:
        nrec = vec_new(I, rec.t, ZERO, None)
        putvec(I, b, nrec)
        rec, p = nrec, nrec.f['#p']
    blk = I.st.mem[p.lv.loc]
    a = e['a']
    if name == 'size':
        return blk.n
    if name == 'empty':
        return c_eq(blk.n)
    if name in ('operator[]', 'at'):
        i = I.rval(a[0])
        if isinstance(i, Cond):
            i = cond_to_poly(i)
        if name == 'at':
            if not I.decide(c_and(c_ge(i), c_ge(blk.n - 1 - i))):
                raise X.ThrowEx(X.Opaque('exc', 'std::out_of_range'))
        return X.LV(p.lv.loc, (i,))
    if name in ('begin', 'cbegin', 'data'):
        return p
    if name in ('end', 'cend'):
        return X.Ptr(X.LV(p.lv.loc, (blk.n,)))
    if name == 'front':
        return X.LV(p.lv.loc, (ZERO,))
    if name == 'back':
        return X.LV(p.lv.loc, (blk.n - 1,))
    if name in ('push_back', 'emplace_back'):
        v = I.rval(a[0])
        if isinstance(v, Cond):
            v = cond_to_poly(v)
        if elem_is_rec(I, blk.ety):
            raise X.Unsupported('push_back of object')
        I.st.mem[p.lv.loc] = blk._replace(n=blk.n + 1, content=store(blk.content, blk.n, v))
        return None
    if name == 'clear':
        I.st.mem[p.lv.loc] = blk._replace(n=ZERO)
        return None
    if name in ('reserve', 'shrink_to_fit'):
        return None
    if name == 'capacity':
        return blk.n
    if name == 'swap':
        o = I.eval(a[0])
        x, y = I.load(b), I.load(o)
        putvec(I, b, y)
        putvec(I, o, x)
        return None
    if name == 'resize':
        n = I.rval(a[0])
        if elem_is_rec(I, blk.ety):
            raise X.Unsupported('resize of objects')
        v = I.rval(a[1]) if len(a) > 1 else I.zero_of(blk.ety)
        k = sym('k', fresh=True)
        add_sym_fact(k, n - 1 - blk.n - k)
        c = effect(blk.content, ((sym_atom(k), n - blk.n),), TRUE, blk.n + k, v)
        I.st.mem[p.lv.loc] = blk._replace(n=n, content=c)
        return None
    if name == 'assign':
        n = I.rval(a[0])
        v = I.rval(a[1])
        if isinstance(n, Poly):
            I.st.mem[p.lv.loc] = blk._replace(n=n, content=mkc('const', v))
            return None
    if name == 'operator=':
        src = I.eval(a[0])
        if src == b:
            return b
        v = I.load(src)
        if elem_is_rec(I, blk.ety) and blk.n is not ZERO:
            destroy_model(I, b, rec.t)
        putvec(I, b, vec_copy(I, rec.t, v))
        return b
    raise X.Unsupported('vector::' + name)


def copy_range(I, dst, src, n, overlap=True):
    """copy n elements between blocks"""
    db, sb = I.st.mem[dst.lv.loc], I.st.mem[src.lv.loc]
    doff, soff = dst.lv.path[-1], src.lv.path[-1]
    f = I.st.facts
    q = f.decide(c_ge(n - 1))
    if q is False:
        return
    if q is None and not I.decide(c_ge(n - 1)):
        return
    for b, off, what in ((sb, soff, 'read'), (db, doff, 'write')):
        I.check_access(b, off, what)
        I.check_access(b, off + n - 1, what)
    if dst.lv.loc == src.lv.loc:
        if f.decide(c_eq(doff - soff)) is True:
            return
        if not overlap:
            raise X.Unsupported('overlapping copy')
    db = I.st.mem[dst.lv.loc]
    if doff is ZERO and soff is ZERO and f.decide(c_eq(n - db.n)) is True:
        c = sb.content
    else:
        k = sym('k', fresh=True)
        add_sym_fact(k, n - 1 - k)
        ff = f.copy()
        ff.cache = {}
        ff.add(c_ge(n - 1 - k))
        v = read(sb.content, soff + k, ff, cx=I.is_complex(sb.ety), ty=I.aty(sb.ety))
        c = effect(db.content, ((sym_atom(k), n),), TRUE, doff + k, v)
    I.note_write(dst.lv)
    I.st.mem[dst.lv.loc] = db._replace(content=c)


def memcpy(I, e):
    dst, src = I.rval(e['a'][0]), I.rval(e['a'][1])
    nb = I.rval(e['a'][2])
    if nb is ZERO:
        return dst
    for p in (dst, src):
        if isinstance(p, X.Opaque):
            I.oblige('bad-pointer', FALSE, 'memcpy on an uninitialised pointer')
            raise X.Infeasible()
    for p in (dst, src):
        if p.lv is None:
            if I.decide(c_eq(nb)):
                return dst
            I.oblige('null', FALSE, 'memcpy with a null pointer')
            raise X.Infeasible()
    db = I.st.mem.get(dst.lv.loc)
    sb = I.st.mem.get(src.lv.loc)
    if not isinstance(db, X.Block) or not isinstance(sb, X.Block):
        raise X.Unsupported('memcpy of non-arrays')
    size = I.prog.T(db.ety).get('size', 1)
    n, rem = mono_divmod(nb, P(size))
    if rem is not ZERO:
        d = simplify(nb, I.st.facts)
        n, rem = mono_divmod(d, P(size))
        if rem is not ZERO:
            raise X.Unsupported('memcpy size')
    copy_range(I, dst, src, n, 'memmove' in e.get('q', ''))
    return dst


def malloc(I, nbytes, t):
    """t: pointee type or None"""
    p = I.alloc_block(nbytes, None, 'malloc') if False else None
    raise X.Unsupported('malloc')


# ------------------------------------------------------------------ scalars
def real_exp(m, c):
    """exp(c m) for a monomial m and a whole number c: the power of one atom, or of the argument of a logarithm"""
    if len(m) == 1 and m[0][1] == 1:
        at = atom_by_id(m[0][0])
        if at.op == 'fn' and at.args[0] == 'log' and at.args[1].is_const() and at.args[1].const() > 0:
            return P(Fraction(at.args[1].const()) ** int(c))
    b = fn('exp', (Poly.make({m: 1}),))
    if c < 0:
        b = rdiv(ONE, b)
    r = ONE
    for _ in range(abs(int(c))):
        r = r * b
    return r


def m_abs(I, v):
    if isinstance(v, Cond):
        v = cond_to_poly(v)
    if isinstance(v, Cx):
        if v.im is ZERO:
            return m_abs(I, v.re)
        return fn('sqrt', (v.re * v.re + v.im * v.im,))
    if v.is_const():
        return P(abs(v.const()))
    if is_intlike(v):
        q = I.st.facts.decide(c_ge(v))
        if q is True:
            return v
        if q is False:
            return -v
        return ite(c_ge(v), v, -v)
    a = sym_atom_any(v)
    if a is not None and a.op == 'fn' and a.args[0] in ('abs', 'sqrt', 'exp'):
        return v
    lead = v.d[min(v.d)]
    if lead < 0:
        v = -v
    return fn('abs', (v,))


def sym_atom_any(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return atom_by_id(m[0][0])
    return None


def m_pow(I, a, b):
    if isinstance(b, Poly) and b.is_const() and isinstance(b.const(), int) and 0 <= b.const() <= 8:
        r = ONE
        for _ in range(b.const()):
            r = r * a
        return r
    if isinstance(a, Cx):
        raise X.Unsupported('complex pow')
    return fn('pow', (a, b))


def m_sqrt(I, v):
    if isinstance(v, Cx):
        raise X.Unsupported('complex sqrt')
    if v.is_const() and v.const() >= 0:
        r = Fraction(v.const())
        from math import isqrt
        n, d = isqrt(r.numerator), isqrt(r.denominator)
        if n * n == r.numerator and d * d == r.denominator:
            return P(Fraction(n, d))
    return fn('sqrt', (v,))


def m_round(I, name, v):
    if is_intlike(v) or (v.is_const() and isinstance(v.const(), int)):
        return v
    if v.is_const():
        import math
        c = v.const()
        f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': int,
             'round': lambda c: int(math.copysign(math.floor(abs(c) + Fraction(1, 2)), c))}.get(name)
        if f:
            return P(f(c))
    if name in ('rint', 'nearbyint'):
        return fn(name, (v,))
    return fn(name, (v,))


def scal(I, e, i=0):
    v = I.rval(e['a'][i])
    if isinstance(v, Cond):
        v = cond_to_poly(v)
    return v


def toreal(v):
    return v


# ------------------------------------------------------------------ dispatch
def call_model(I, e, f):
    q = base_q(e.get('q', ''))
    if q.startswith('V::'):
        return intrinsic(I, e, q[3:])
    if f is not None and 'body' in f:
        return NOMODEL
    n = q.split('::')[-1]
    a = e.get('a', [])
    std = q.startswith('std::') or '::' not in q
    if q in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove'):
        return memcpy(I, e)
    if q in ('memset', 'std::memset'):
        p, v, nb = I.rval(a[0]), I.rval(a[1]), I.rval(a[2])
        if isinstance(p, X.Ptr) and p.lv is not None and v is ZERO:
            b = I.st.mem[p.lv.loc]
            cnt, rem = mono_divmod(nb, P(I.prog.T(b.ety).get('size', 1)))
            if rem is ZERO:
                fill_range(I, p, cnt, I.zero_of(b.ety))
                return p
        raise X.Unsupported('memset')
    if q in ('malloc', 'std::malloc', 'realloc', 'std::realloc', 'calloc', 'std::calloc', 'free', 'std::free'):
        return c_alloc(I, e, n)
    if q in ('exit', 'std::exit', 'abort', 'std::abort', '_Exit', 'std::terminate', '__assert_fail'):
        if I.misuse:
            I.record('spec', 'proved', 'stopped', None, 'the misuse aborts here')
        elif q not in ('exit', 'std::exit'):
            I.oblige('assert', FALSE, 'program termination (%s) reached' % q)
        raise X.AbortEx(q)
    if not std and not q.startswith('__gnu_cxx'):
        return NOMODEL
    # iterators
    if a and any(is_iter(I, x['t']) for x in a) or q.startswith('__gnu_cxx::operator'):
        vs = [I.rval(x) for x in a]
        op = n.replace('operator', '')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return I.compare(op, vs[0], vs[1], {'k': 'int'})
        if op in ('-', '+'):
            return I.ptr_arith(op, vs[0], vs[1])
    if n in ('move', 'forward', 'move_if_noexcept', 'as_const', 'addressof', '__addressof'):
        if n in ('addressof', '__addressof'):
            return X.Ptr(I.eval(a[0]))
        if len(a) == 1:
            return I.eval(a[0])
    if n == '__iterator_category':
        return X.Opaque('std', 'iterator category')
    if n in ('__miter_base', '__niter_base'):
        return I.rval(a[0])
    if n == '__niter_wrap':
        return I.rval(a[1])
    if n in ('exchange', '__exchange') and len(a) == 2:
        x = I.eval(a[0])
        old = I.load(x)
        if not isinstance(old, (Poly, Cx, X.Ptr)):
            raise X.Unsupported('exchange')
        I.store(x, I.rval(a[1]))
        return old
    if n == '__lg':
        v = scal(I, e)
        c = I.st.facts.const(v) if hasattr(I.st.facts, 'const') else v.const()
        if c is None or c < 1:
            raise X.Unsupported('__lg')
        return P(int(c).bit_length() - 1)
    if n == 'swap' and len(a) == 2:
        x, y = I.eval(a[0]), I.eval(a[1])
        if isinstance(x, X.LV) and isinstance(y, X.LV):
            vx, vy = I.load(x), I.load(y)
            I.store(x, vy)
            I.store(y, vx)
            return None
    if n in ('max', 'min') and len(a) == 2:
        x, y = scal(I, e, 0), scal(I, e, 1)
        isint = I.prog.T(deref_t(I, a[0]['t']))['k'] == 'int'
        # std::max(a,b) = a<b ? b : a ; std::min(a,b) = b<a ? b : a
        c = (c_ge(y - x - 1) if isint else c_dgt(y - x)) if n == 'max' else (c_ge(x - y - 1) if isint else c_dgt(x - y))
        r = simplify(ite(c, y, x), I.st.facts)
        return X.LV(I.newloc(r), ())
    if n in ('max', 'min') and len(a) == 1:
        v = I.eval(a[0])
        v = I.load(v) if isinstance(v, X.LV) else v
        p = v.f['#p'] if isinstance(v, X.Rec) else None
        k = None
        if isinstance(p, X.Ptr) and p.lv is not None:
            b = I.st.mem[p.lv.loc]
            k = b.n.const() if isinstance(b, X.Block) else None
        if k is None or k < 1:
            raise X.Unsupported('call ' + q)
        isint = I.prog.T(b.ety)['k'] == 'int'
        r = None
        for i in range(int(k)):
            y = I.load(I.ptr_index(p, P(i)))
            if r is None:
                r = y
                continue
            d = y - r if n == 'max' else r - y
            r = simplify(ite(c_ge(d - 1) if isint else c_dgt(d), y, r), I.st.facts)
        return r
    if n == 'make_unique':
        return make_unique(I, e)
    if n in ('operator==', 'operator!=') and len(a) == 2 and any(tname(I, x['t']) == 'std::unique_ptr' for x in a):
        vs = []
        for x in a:
            v = I.eval(x)
            v = I.load(v) if isinstance(v, X.LV) else v
            v = v.f['#u'] if isinstance(v, X.Rec) and '#u' in v.f else v
            vs.append(v)
        nul = [not isinstance(v, X.Ptr) or v.lv is None for v in vs]
        if any(nul):
            same = all(nul)
        else:
            same = vs[0].lv == vs[1].lv
        return TRUE if same == (n == 'operator==') else FALSE
    if n in ('make_tuple', 'tie', 'make_pair', 'forward_as_tuple'):
        fs = {}
        for i, x in enumerate(a):
            if n in ('tie', 'forward_as_tuple'):
                v = I.eval(x)
                if isinstance(v, X.LV):
                    v = X.RefV(v)
            else:
                v = I.rval(x)
            fs['#%d' % i] = v
        loc = I.newloc(X.Rec(e['t'], fs))
        I.temps.append(loc)
        return X.LV(loc, ())
    if n == 'get' and a and tname(I, a[0]['t']) in ('std::tuple', 'std::pair', 'std::array'):
        lv = I.eval(a[0])
        i = int([x for x in e['targs'] if 'int' in x][0]['int'])
        l2 = X.LV(lv.loc, lv.path + ('#%d' % i,))
        v = I.getpath(I.st.mem[lv.loc], lv.path, lv).f['#%d' % i]
        return v.lv if isinstance(v, X.RefV) else l2
    if n in ('operator==', 'operator!=', 'operator<') and a and tname(I, a[0]['t']) in ('std::tuple', 'std::pair'):
        x, y = I.load(I.eval(a[0])), I.load(I.eval(a[1]))
        cs = []
        for kf in sorted(x.f):
            u, w = x.f[kf], y.f[kf]
            u = I.load(u.lv) if isinstance(u, X.RefV) else u
            w = I.load(w.lv) if isinstance(w, X.RefV) else w
            cs.append(I.compare('==', u, w, {'k': 'int'}))
        c = c_and(*cs)
        if n == 'operator<':
            raise X.Unsupported('tuple <')
        return c if n == 'operator==' else c_not(c)
    if n in ('operator==', 'operator!=') and a and tname(I, a[0]['t']) == 'std::vector':
        x, y = I.load(I.eval(a[0])), I.load(I.eval(a[1]))
        bx, by = vec_block(I, x), vec_block(I, y)
        if bx is not None and by is not None and I.st.facts.decide(c_eq(bx.n - by.n)) is not None:
            if I.st.facts.decide(c_eq(bx.n - by.n)) is False:
                r = FALSE
            else:
                k = sym('k', fresh=True)
                add_sym_fact(k, bx.n - 1 - k)
                ff = I.st.facts.copy()
                ff.cache = {}
                ff.add(c_ge(bx.n - 1 - k))
                u = read(bx.content, k, ff, I.is_complex(bx.ety), I.aty(bx.ety))
                w = read(by.content, k, ff, I.is_complex(by.ety), I.aty(by.ety))
                r = c_not(c_exists(k, bx.n, c_not(I.compare('==', u, w, I.prog.T(bx.ety)))))
            return r if n == 'operator==' else c_not(r)
        raise X.Unsupported('vector compare')
    # streams
    if n in ('operator<<', 'operator>>', 'endl', 'getline', 'flush', 'setw', 'setprecision', 'setfill', 'hex', 'dec', 'fixed') or \
            (a and tname(I, a[0]['t']).startswith(STREAMS)):
        return opaque_call(I, e)
    if n in ('fill', 'fill_n', 'copy', 'copy_n', 'copy_backward', 'move_backward', 'reverse', 'iota', 'accumulate', 'inner_product', 'sort', 'transform', 'distance', 'equal', 'max_element', 'min_element', 'uninitialized_copy', 'uninitialized_copy_n', 'uninitialized_fill', 'swap_ranges'):
        return algorithm(I, e, n)
    # complex arithmetic
    if n == 'polar' or a and any(I.is_complex(deref_t(I, x['t'])) for x in a):
        return complex_call(I, e, n)
    if n in ('abs', 'fabs', 'labs', 'llabs', 'fabsf', 'fabsl'):
        return m_abs(I, scal(I, e))
    if n in ('sqrt', 'sqrtf', 'sqrtl'):
        return m_sqrt(I, scal(I, e))
    if n in ('pow', 'powf', 'powl'):
        return m_pow(I, scal(I, e), scal(I, e, 1))
    if n in ('floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'lround', 'llround', 'lrint'):
        r = m_round(I, n.lstrip('l') if n not in ('lround',) else 'round', scal(I, e))
        if I.prog.T(e['t'])['k'] == 'int':
            r = I.f2i(r, I.prog.T(e['t']))
        return r
    if n in MATH1 or n.rstrip('fl') in MATH1:
        nm = n if n in MATH1 else n.rstrip('fl')
        v = scal(I, e)
        if v is ZERO and nm in ('sin', 'tan', 'sinh', 'tanh', 'asin', 'atan', 'erf', 'log1p', 'expm1'):
            return ZERO
        if v is ZERO and nm in ('cos', 'exp', 'cosh'):
            return ONE
        if v is ONE and nm in ('log', 'log2', 'log10'):
            return ZERO
        if nm in ('cos', 'sin'):
            return circ(nm, v)
        if nm == 'exp' and len(v.d) > 1 and all(m and c == int(c) for m, c in v.d.items()) and any(atom_by_id(a).op == 'fn' and atom_by_id(a).args[0] == 'log' for m in v.d for a, k in m):
            r = ONE
            for m, c in v.d.items():
                r = r * real_exp(m, c)
            return cancel(r)
        if nm == 'exp' and len(v.d) == 1:
            (m, c), = v.d.items()
            if m and c == int(c) and abs(c) <= 64:
                return real_exp(m, c)
        return fn(nm, (v,))
    if n in ('atan2', 'fmod', 'hypot', 'remainder', 'copysign', 'fmax', 'fmin', 'ldexp'):
        x, y = scal(I, e), scal(I, e, 1)
        if n == 'fmax':
            return ite(c_dgt(y - x), y, x)
        if n == 'fmin':
            return ite(c_dgt(x - y), y, x)
        if n == 'hypot':
            return m_sqrt(I, x * x + y * y)
        return fn(n, (x, y))
    if n == 'conj':
        v = I.rval(a[0])
        return v
    if n in ('real', 'norm', 'imag', 'arg'):
        v = scal(I, e)
        return {'real': v, 'norm': v * v, 'imag': ZERO}.get(n, ZERO)
    if n in ('isnan', 'isinf', '__builtin_isnan', '__builtin_isinf'):
        scal(I, e)
        return FALSE
    if n in ('isfinite',):
        scal(I, e)
        return TRUE
    if n in ('time', 'clock', 'now', 'duration_cast', 'localtime', 'difftime', 'operator-', 'operator+') and not I.quiet < 0:
        for x in a:
            try:
                I.eval(x)
            except X.Unsupported:
                pass
        ty = I.prog.T(e['t'])
        if ty['k'] == 'int' or ty['k'] == 'float':
            return sym('ext', I.aty(e['t']), taint=True, fresh=True)
        return X.Opaque('std', n)
    return NOMODEL


def deref_t(I, t):
    ty = I.prog.T(t)
    return ty['to'] if ty['k'] == 'ref' else t


def fill_range(I, p, n, v):
    if not I.decide(c_ge(n - 1)):
        return
    b = I.st.mem[p.lv.loc]
    off = p.lv.path[-1]
    I.check_access(b, off, 'write')
    I.check_access(b, off + n - 1, 'write')
    I.note_write(p.lv)
    b = I.st.mem[p.lv.loc]
    if off is ZERO and I.st.facts.decide(c_eq(n - b.n)) is True:
        c = mkc('const', v)
    else:
        k = sym('k', fresh=True)
        add_sym_fact(k, n - 1 - k)
        c = effect(b.content, ((sym_atom(k), n),), TRUE, off + k, v)
    I.st.mem[p.lv.loc] = b._replace(content=c)


def algorithm(I, e, n):
    a = [I.rval(x) for x in e['a']]
    a = [cond_to_poly(x) if isinstance(x, Cond) else x for x in a]

    def length(x, y):
        if isinstance(x, X.Ptr) and isinstance(y, X.Ptr) and x.lv and y.lv and x.lv.loc == y.lv.loc:
            return y.lv.path[-1] - x.lv.path[-1]
        if isinstance(x, X.Ptr) and isinstance(y, X.Ptr) and x.lv is None and y.lv is None:
            return ZERO
        raise X.Unsupported('iterator range')

    def adv(p, k):
        if p.lv is None:
            return p
        return X.Ptr(X.LV(p.lv.loc, p.lv.path[:-1] + (p.lv.path[-1] + k,)))
    if n == 'fill':
        m = length(a[0], a[1])
        if m is not ZERO:
            v = a[2]
            if isinstance(v, Poly) and I.is_complex(I.st.mem[a[0].lv.loc].ety):
                v = Cx(v, ZERO)
            fill_range(I, a[0], m, v)
        return None
    if n == 'fill_n':
        if not isinstance(a[1], Poly):
            raise X.Unsupported('fill_n')
        if a[0].lv is None:
            I.oblige('null', c_eq(a[1]), 'fill through a null pointer')
            return a[0]
        v = a[2]
        if isinstance(v, Poly) and I.is_complex(I.st.mem[a[0].lv.loc].ety):
            v = Cx(v, ZERO)
        fill_range(I, a[0], a[1], v)
        return adv(a[0], a[1])
    if n in ('copy', 'uninitialized_copy'):
        m = length(a[0], a[1])
        if m is ZERO:
            return a[2]
        if not isinstance(a[2], X.Ptr) or a[2].lv is None:
            raise X.Unsupported('copy target')
        copy_range(I, a[2], a[0], m)
        return adv(a[2], m)
    if n in ('copy_n', 'uninitialized_copy_n'):
        if a[1] is ZERO:
            return a[2]
        if a[0].lv is None or a[2].lv is None:
            I.oblige('null', c_eq(a[1]), 'copy through a null pointer')
            return a[2]
        copy_range(I, a[2], a[0], a[1])
        return adv(a[2], a[1])
    if n in ('copy_backward', 'move_backward'):
        m = length(a[0], a[1])
        if m is ZERO:
            return a[2]
        if not isinstance(a[2], X.Ptr) or a[2].lv is None:
            raise X.Unsupported('copy target')
        d = adv(a[2], -m)
        copy_range(I, d, a[0], m)
        return d
    if n == 'equal' and len(a) == 3:
        m = length(a[0], a[1])
        if m is ZERO:
            return TRUE
        if a[2].lv is None:
            raise X.Unsupported('equal')
        if not I.decide(c_ge(m - 1)):
            return TRUE
        k = sym('k', fresh=True)
        add_sym_fact(k, m - 1 - k)
        ff = I.st.facts.copy()
        ff.cache = {}
        ff.add(c_ge(m - 1 - k))
        vs = []
        for p in (a[0], a[2]):
            b = I.st.mem[p.lv.loc]
            off = p.lv.path[-1]
            I.check_access(b, off, 'read')
            I.check_access(b, off + m - 1, 'read')
            vs.append(read(b.content, off + k, ff, I.is_complex(b.ety), I.aty(b.ety)))
        return c_not(c_exists(k, m, c_not(I.compare('==', vs[0], vs[1], I.prog.T(b.ety)))))
    if n == 'distance':
        return length(a[0], a[1])
    if n == 'accumulate' and len(a) == 3:
        m = length(a[0], a[1])
        if m is ZERO:
            return a[2]
        b = I.st.mem[a[0].lv.loc]
        off = a[0].lv.path[-1]
        if not I.decide(c_ge(m - 1)):
            return a[2]
        I.check_access(b, off, 'read')
        I.check_access(b, off + m - 1, 'read')
        k = sym('k', fresh=True)
        add_sym_fact(k, m - 1 - k)
        ff = I.st.facts.copy()
        ff.cache = {}
        ff.add(c_ge(m - 1 - k))
        v = read(b.content, off + k, ff, I.is_complex(b.ety), I.aty(b.ety))
        if isinstance(v, Cx):
            z = to_cx(a[2])
            return Cx(z.re + mk_sum(k, m, v.re), z.im + mk_sum(k, m, v.im))
        if I.prog.T(e['t'])['k'] == 'int' and I.prog.T(b.ety)['k'] == 'float':
            raise X.Unsupported('accumulate truncation')
        return a[2] + mk_sum(k, m, v)
    if n == 'inner_product' and len(a) == 4:
        m = length(a[0], a[1])
        if not I.decide(c_ge(m - 1)):
            return a[3]
        k = sym('k', fresh=True)
        add_sym_fact(k, m - 1 - k)
        ff = I.st.facts.copy()
        ff.cache = {}
        ff.add(c_ge(m - 1 - k))
        vs = []
        for p in (a[0], a[2]):
            b = I.st.mem[p.lv.loc]
            off = p.lv.path[-1]
            I.check_access(b, off, 'read')
            I.check_access(b, off + m - 1, 'read')
            vs.append(read(b.content, off + k, ff, I.is_complex(b.ety), I.aty(b.ety)))
        v = vs[0] * vs[1]
        if isinstance(v, Cx):
            z = to_cx(a[3])
            return Cx(z.re + mk_sum(k, m, v.re), z.im + mk_sum(k, m, v.im))
        return a[3] + mk_sum(k, m, v)
    raise X.Unsupported('algorithm ' + n)


def c_alloc(I, e, n):
    a = e['a']
    if n == 'free':
        p = I.rval(a[0])
        I.free_block(p, 'free')
        return None
    if n == 'malloc':
        nb = I.rval(a[0])
        if I.opts['faults'] and I.fault():
            return X.NULL
        return I.alloc_block(nb, None, 'malloc')
    if n == 'realloc':
        p, nb = I.rval(a[0]), I.rval(a[1])
        if isinstance(p, X.Opaque):
            I.oblige('bad-free', FALSE, 'realloc of an uninitialised pointer')
            raise X.Infeasible()
        if p.lv is None:
            return I.alloc_block(nb, None, 'malloc')
        old = I.st.mem[p.lv.loc]
        if not old.alive:
            I.oblige('double-free', FALSE, 'realloc of released storage')
            raise X.Infeasible()
        if I.opts['faults'] and I.fault():
            return X.NULL
        size = I.prog.T(old.ety).get('size', 1) if old.ety is not None else 1
        cnt, rem = mono_divmod(nb, P(size))
        if rem is not ZERO:
            raise X.Unsupported('realloc size')
        np = I.alloc_block(cnt, old.ety, 'malloc')
        b = I.st.mem[np.lv.loc]
        # first min(old,new) elements keep their value
        k = sym('k', fresh=True)
        keep = cnt if I.st.facts.ge(old.n - cnt) else old.n
        v = read(old.content, k, I.st.facts, I.is_complex(old.ety), I.aty(old.ety))
        c = effect(b.content, ((sym_atom(k), keep),), TRUE, k, v)
        I.st.mem[np.lv.loc] = b._replace(content=c)
        I.st.mem[p.lv.loc] = old._replace(alive=False)
        return np
    raise X.Unsupported(n)


def retype(I, v, to):
    """pointer cast: give untyped malloc storage its element type"""
    if isinstance(v, X.Ptr) and v.lv is not None:
        b = I.st.mem.get(v.lv.loc)
        ty = I.prog.T(to)
        if isinstance(b, X.Block) and b.ety is None and ty['k'] == 'ptr':
            et = ty['to']
            if I.prog.T(et)['k'] == 'void':
                return v
            size = I.prog.T(et).get('size', 1)
            n, rem = mono_divmod(b.n, P(size))
            if rem is not ZERO:
                raise X.Unsupported('malloc size')
            I.st.mem[v.lv.loc] = b._replace(n=n, ety=et, content=undef(b.uid, I.is_complex(et), I.aty(et)))
    return v


def complex_call(I, e, n):
    a = [I.rval(x) for x in e['a']]
    a = [cond_to_poly(x) if isinstance(x, Cond) else x for x in a]
    if n.startswith('operator'):
        op = n[8:]
        if len(a) == 1:
            return -to_cx(a[0]) if op == '-' else to_cx(a[0])
        if op in ('==', '!='):
            return I.compare(op, a[0], a[1], {'k': 'float'})
        return I.arith(op, to_cx(a[0]), to_cx(a[1]), {'k': 'float'})
    z = to_cx(a[0])
    if n == 'conj':
        return Cx(z.re, -z.im)
    if n == 'norm':
        return z.re * z.re + z.im * z.im
    if n == 'abs':
        return m_abs(I, z)
    if n == 'real':
        return z.re
    if n == 'imag':
        return z.im
    if n == 'arg':
        return fn('atan2', (z.im, z.re))
    if n == 'exp':
        r = call1('exp', z.re)
        return Cx(r * call1('cos', z.im), r * call1('sin', z.im))
    if n == 'polar':
        r, th = a[0], a[1] if len(a) > 1 else ZERO
        return Cx(r * call1('cos', th), r * call1('sin', th))
    if n in ('max', 'min'):
        raise X.Unsupported('complex minmax')
    if n not in ('exp', 'log', 'log10', 'sqrt', 'pow', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan',
                 'asinh', 'acosh', 'atanh', 'polar', 'proj'):
        raise X.Unsupported('call std::' + n)
    # other analytic functions stay uninterpreted per component
    return Cx(fn('re_' + n, tuple(p for x in a for p in (to_cx(x).re, to_cx(x).im))),
              fn('im_' + n, tuple(p for x in a for p in (to_cx(x).re, to_cx(x).im))))


def circ(n, v):
    """cos / sin: exact at rational multiples of pi, sign of the argument normalised"""
    if v.is_const():
        f = turns(v.const())
        if f is not None:
            return cosq(f if n == 'cos' else f - Fraction(1, 4))
    if v.d and v.d[min(v.d)] < 0:
        r = fn(n, (-v,))
        return r if n == 'cos' else -r
    return fn(n, (v,))


def rebuild_fn(a, args, mp):
    if a.args[0] in ('cos', 'sin') and isinstance(args[1], Poly):
        return circ(a.args[0], args[1])
    return atom_poly(mk_atom('fn', tuple(args), a.ty))


REBUILD['fn'] = rebuild_fn


def call1(n, v):
    if v is ZERO:
        return ONE if n in ('exp', 'cos') else ZERO
    if n in ('cos', 'sin'):
        return circ(n, v)
    return fn(n, (v,))


def opaque_call(I, e):
    a = e.get('a', [])
    n = base_q(e.get('q', '')).split('::')[-1]
    first = None
    if 'b' in e:
        first = I.eval(e['b'])
    for i, x in enumerate(a):
        try:
            v = I.eval(x)
        except X.Unsupported:
            v = None
        if first is None and i == 0:
            first = v
        if n in ('operator>>',) and i == len(a) - 1 and isinstance(v, X.LV):
            havoc_lv(I, v)
    ty = I.prog.T(e['t'])
    if ty['k'] == 'int' or ty['k'] == 'float':
        return sym('ext', I.aty(e['t']), taint=True, fresh=True)
    if ty['k'] == 'bool':
        return to_cond(sym('ext', ('int', 1, False), taint=True, fresh=True))
    if ty['k'] == 'void':
        return None
    if ty['k'] == 'ref' or e.get('lv'):
        if isinstance(first, X.LV):
            return first
        return X.LV(I.newloc(X.Opaque('std', n)), ())
    return X.Opaque('std', n)


def havoc_lv(I, lv):
    try:
        v = I.load(lv)
    except X.Unsupported:
        return
    if isinstance(v, Poly):
        I.store(lv, sym('ext', ('int', 64, True) if is_intlike(v) else ('float',), taint=True, fresh=True))
    elif isinstance(v, Cx):
        I.store(lv, Cx(sym('ext', ('float',), taint=True, fresh=True), sym('ext', ('float',), taint=True, fresh=True)))


def mcall_model(I, e, f):
    q = base_q(e.get('q', ''))
    if f is not None and 'body' in f:
        return NOMODEL
    parts = q.rsplit('::', 1)
    cls, n = (parts[0], parts[1]) if len(parts) == 2 else ('', q)
    if 'operator' in q:
        i = q.index('operator')
        cls, n = q[:i].rstrip(':'), q[i:]
    a = e.get('a', [])
    if cls in ('std::vector', 'std::initializer_list'):
        return vec_method(I, e, n)
    if cls in ('std::__new_allocator', 'std::allocator', 'std::allocator_traits', '__gnu_cxx::new_allocator'):
        if n == 'allocate':
            cnt = I.rval(a[0])
            if I.opts['faults'] and I.fault():
                raise X.ThrowEx(X.Opaque('exc', 'std::bad_alloc'))
            ret = I.prog.T(e['t'])
            return I.alloc_block(cnt, ret['to'], 'alloc')
        if n == 'deallocate':
            p = I.rval(a[0])
            cnt = I.rval(a[1])
            I.free_block(p, 'alloc', cnt)
            return None
        if n == 'operator=':
            I.eval(a[0])
            return I.eval(e['b'])
    if cls.startswith('std::__atomic_base') or cls.startswith('std::atomic'):
        b = I.eval(e['b'])
        if e.get('arrow'):
            b = (I.load(b) if isinstance(b, X.LV) else b).lv
        lv = X.LV(b.loc, b.path + ('#v',))
        v = I.load(lv)
        if n in ('fetch_add', 'fetch_sub'):
            d = I.rval(a[0])
            I.store(lv, v + d if n == 'fetch_add' else v - d)
            return v
        if n in ('operator++', 'operator--', 'operator+=', 'operator-='):
            d = ONE if not a or n in ('operator++', 'operator--') else I.rval(a[0])
            nv = v + d if '+' in n else v - d
            I.store(lv, nv)
            return nv
        if n == 'load' or n.startswith('operator '):
            return v
        if n in ('store', 'operator='):
            I.store(lv, I.rval(a[0]))
            return None
        if n == 'exchange':
            I.store(lv, I.rval(a[0]))
            return v
        raise X.Unsupported(q)
    if cls == 'std::unique_ptr':
        return uptr_method(I, e, n)
    if cls == 'std::complex':
        b = I.eval(e['b'])
        if e.get('arrow'):
            b = (I.load(b) if isinstance(b, X.LV) else b).lv
        v = I.load(b) if isinstance(b, X.LV) else b
        v = to_cx(v)
        if n in ('real', 'imag') and not a:
            return v.re if n == 'real' else v.im
        if n in ('real', 'imag'):
            x = scal(I, e)
            I.store(b, Cx(x, v.im) if n == 'real' else Cx(v.re, x))
            return None
        if n == 'operator=':
            x = I.rval(a[0])
            if isinstance(x, Cond):
                x = cond_to_poly(x)
            I.store(b, to_cx(x))
            return b
        if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            x = I.rval(a[0])
            if isinstance(x, Cond):
                x = cond_to_poly(x)
            I.store(b, I.arith(n[8], v, to_cx(x), {'k': 'float'}))
            return b
        raise X.Unsupported(q)
    if cls == 'std::tuple' and n == 'operator=':
        dst = I.eval(e['b'])
        src = I.eval(a[0])
        sv = I.load(src)
        dv = I.getpath(I.st.mem[dst.loc], dst.path, dst)
        vals = {}
        for k2, w in sv.f.items():
            vals[k2] = I.load(w.lv) if isinstance(w, X.RefV) else w
        for k2, w in vals.items():
            d = dv.f.get(k2)
            if isinstance(d, X.RefV):
                I.store(d.lv, w)
            else:
                I.st.mem[dst.loc] = I.putraw(I.st.mem[dst.loc], dst.path + (k2,), w)
        return dst
    if cls.startswith('__gnu_cxx::__normal_iterator'):
        b = I.eval(e['b'])
        v = I.load(b) if isinstance(b, X.LV) else b
        if n in ('operator*',):
            return I.ptr_index(v, ZERO)
        if n == 'operator->':
            return v
        if n == 'operator[]':
            return I.ptr_index(v, I.rval(a[0]))
        if n in ('operator+', 'operator-'):
            return I.ptr_arith(n[8], v, I.rval(a[0]))
        if n in ('operator++', 'operator--'):
            nv = I.ptr_arith('+' if n == 'operator++' else '-', v, ONE)
            I.store(b, nv)
            return v if a else b
        if n in ('operator+=', 'operator-='):
            nv = I.ptr_arith(n[8], v, I.rval(a[0]))
            I.store(b, nv)
            return b
        if n == 'base':
            return v
    if cls.startswith(STREAMS):
        if n == 'length' or n == 'size':
            I.eval(e['b'])
            return sym('strlen', ('int', 64, False), taint=True, fresh=True)
        if n == 'operator[]':
            I.eval(e['b'])
            I.rval(a[0])
            return X.LV(I.newloc(sym('ch', ('int', 8, True), taint=True, fresh=True)), ())
        return opaque_call(I, e)
    if cls.startswith('std::numeric_limits'):
        return NOMODEL
    return NOMODEL


def construct_model(I, e, lv, t):
    """True if the constructor was modelled"""
    n = I.prog.T(t).get('name', '')
    a = e.get('a', [])
    if n == 'std::vector':
        vec_ctor(I, e, lv, t)
        return True
    if n == 'std::initializer_list':
        if a:
            v = I.rval(a[0])
            if not isinstance(v, X.Rec) or '#p' not in v.f:
                raise X.Unsupported('initializer_list copy')
        else:
            v = vec_new(I, t, ZERO, None)
        I.st.mem[lv.loc] = I.putraw(I.st.mem[lv.loc], lv.path, v)
        return True
    if n == 'std::tuple' or n == 'std::pair':
        if len(a) == 1 and tname(I, a[0]['t']) == n:
            v = I.load(I.eval(a[0]))
            fs = {k: (I.load(w.lv) if isinstance(w, X.RefV) else w) for k, w in v.f.items()}
            rec = X.Rec(t, fs)
        else:
            fs = {}
            for i, x in enumerate(a):
                v = I.rval(x)
                fs['#%d' % i] = v
            rec = X.Rec(t, fs)
        I.st.mem[lv.loc] = I.putraw(I.st.mem[lv.loc], lv.path, rec)
        return True
    if n in ('std::allocator', 'std::__new_allocator', 'std::bad_alloc'):
        return True
    if n == 'std::unique_ptr':
        uptr_init(I, e, lv, t)
        return True
    if n.startswith('std::atomic'):
        cur = I.getpath(I.st.mem[lv.loc], lv.path, lv) if True else None
        if a:
            I.st.mem[lv.loc] = I.putraw(I.st.mem[lv.loc], lv.path, X.Rec(t, {'#v': I.rval(a[0])}))
        elif not isinstance(cur, X.Rec):
            I.st.mem[lv.loc] = I.putraw(I.st.mem[lv.loc], lv.path, new_record(I, t))
        return True
    if is_opaque_rec(I, t) or (n.startswith('std::') and not I.prog.rec_of(t).get('mine')):
        for x in a:
            try:
                escape(I, I.eval(x))
            except X.Unsupported:
                pass
        return True
    return None


def escape(I, v):
    """the value is handed to library code that is not modelled: who releases it is unknown"""
    if isinstance(v, X.LV):
        try:
            v = I.load(v)
        except X.Unsupported:
            return
    if isinstance(v, X.Ptr) and v.lv is not None:
        b = I.st.mem.get(v.lv.loc)
        if isinstance(b, X.Block):
            I.escaped.add(b.uid)


def uptr_arr(I, t):
    at = I.prog.T(t)['targs'][0]['type']
    return I.prog.T(at)['k'] == 'array'


def uptr_default(I, t):
    ta = I.prog.T(t).get('targs', [])
    return len(ta) < 2 or I.prog.T(ta[1].get('type')).get('name') == 'std::default_delete'


def uptr_free(I, t, p):
    if not isinstance(p, X.Ptr):
        raise X.Unsupported('unique_ptr state')
    if p.lv is None:
        return
    if not uptr_default(I, t):
        escape(I, p)
        return
    arr = uptr_arr(I, t)
    b = I.st.mem.get(p.lv.loc)
    if isinstance(b, X.Block) and b.alive and not arr and elem_is_rec(I, b.ety):
        I.destroy(X.LV(p.lv.loc, (ZERO,)), b.ety)
    I.free_block(p, 'delete[]' if arr else 'delete')


def uptr_set(I, lv, p):
    t = I.load(lv).t
    old = I.load(lv).f['#u']
    I.st.mem[lv.loc] = I.putraw(I.st.mem[lv.loc], lv.path, X.Rec(t, {'#u': p}))
    return old


def uptr_init(I, e, lv, t):
    a = e.get('a', [])
    p = X.NULL
    if a:
        if len(a) > 1:
            v = I.rval(a[0])
            escape(I, v)
            raise X.Unsupported('unique_ptr with a deleter')
        if tname(I, a[0]['t']) == 'std::unique_ptr':
            src = I.eval(a[0])
            p = uptr_set(I, src, X.NULL)
        else:
            v = I.rval(a[0])
            p = v if isinstance(v, X.Ptr) else X.NULL
            if not isinstance(v, X.Ptr) and v is not ZERO and not (isinstance(v, X.Opaque) and 'null' in str(v.kind)):
                raise X.Unsupported('unique_ptr of %r' % (v,))
    I.st.mem[lv.loc] = I.putraw(I.st.mem[lv.loc], lv.path, X.Rec(t, {'#u': p}))


def uptr_method(I, e, n):
    b = I.eval(e['b'])
    if e.get('arrow'):
        b = (I.load(b) if isinstance(b, X.LV) else b).lv
    if not isinstance(b, X.LV):
        raise X.Unsupported('unique_ptr rvalue')
    rec = I.load(b)
    if not isinstance(rec, X.Rec) or '#u' not in rec.f:
        raise X.Unsupported('unique_ptr state')
    p = rec.f['#u']
    a = e.get('a', [])
    if n in ('get', 'operator->'):
        return p
    if n == 'operator*':
        return I.ptr_index(p, ZERO)
    if n == 'operator[]':
        i = I.rval(a[0])
        return I.ptr_index(p, cond_to_poly(i) if isinstance(i, Cond) else i)
    if n.startswith('operator bool'):
        return TRUE if p.lv is not None else FALSE
    if n == 'release':
        return uptr_set(I, b, X.NULL)
    if n == 'reset' or n == 'operator=':
        q = X.NULL
        if a and a[0]['k'] != 'default':
            if tname(I, a[0]['t']) == 'std::unique_ptr':
                src = I.eval(a[0])
                q = uptr_set(I, src, X.NULL)
            else:
                v = I.rval(a[0])
                q = v if isinstance(v, X.Ptr) else X.NULL
        old = uptr_set(I, b, q)
        uptr_free(I, rec.t, old)
        return b if n == 'operator=' else None
    if n == 'swap':
        o = I.eval(a[0])
        q = uptr_set(I, o, p)
        uptr_set(I, b, q)
        return None
    raise X.Unsupported('unique_ptr::' + n)


def make_unique(I, e):
    t = e['t']
    et = I.prog.T(t)['targs'][0]['type']
    a = e['a']
    ty = I.prog.T(et)
    if I.opts['faults'] and I.fault():
        raise X.ThrowEx(X.Opaque('exc', 'std::bad_alloc'))
    if ty['k'] == 'array':
        n = I.rval(a[0])
        n = cond_to_poly(n) if isinstance(n, Cond) else n
        ety = ty['to'] if 'to' in ty else ty['el']
        if elem_is_rec(I, ety):
            raise X.Unsupported('make_unique of objects')
        p = I.alloc_block(n, ety, 'newarr')
        I.st.mem[p.lv.loc] = I.st.mem[p.lv.loc]._replace(content=zero_content(I, ety))
    else:
        if elem_is_rec(I, et):
            raise X.Unsupported('make_unique of an object')
        p = I.alloc_block(ONE, et, 'new')
        v = I.rval(a[0]) if a else I.zero_of(et)
        if isinstance(v, Cond):
            v = cond_to_poly(v)
        if isinstance(v, Poly) and I.is_complex(et):
            v = Cx(v, ZERO)
        I.st.mem[p.lv.loc] = I.st.mem[p.lv.loc]._replace(content=mkc('const', v))
    loc = I.newloc(X.Rec(t, {'#u': p}))
    I.temps.append(loc)
    return X.LV(loc, ())


def destroy_model(I, lv, t):
    n = I.prog.T(t).get('name', '')
    if n == 'std::unique_ptr':
        v = I.load(lv)
        if isinstance(v, X.Rec) and '#u' in v.f:
            uptr_free(I, t, uptr_set(I, lv, X.NULL))
        return True
    if n == 'std::vector':
        v = I.load(lv)
        if isinstance(v, X.Rec):
            p = v.f.get('#p')
            if p is not None and p.lv is not None:
                b = I.st.mem[p.lv.loc]
                if b.alive:
                    if elem_is_rec(I, b.ety) and b.n is not ZERO:
                        for i in range(len(b.content)):
                            I.destroy(X.LV(p.lv.loc, (P(i),)), b.ety)
                        b = I.st.mem[p.lv.loc]
                    I.st.mem[p.lv.loc] = b._replace(alive=False)
        return True
    if n.startswith('std::') or n.startswith('__gnu'):
        return True
    return None


def complex_ctor(I, e):
    a = e['a']
    vals = []
    for x in a:
        v = I.rval(x)
        if isinstance(v, Cond):
            v = cond_to_poly(v)
        vals.append(v)
    ty = I.prog.T(targ(I, e['t']))
    if len(vals) == 1 and isinstance(vals[0], Cx):
        z = vals[0]
        src = a[0]['t']
        if ty['k'] == 'int' and I.is_complex(deref_t(I, src)):
            st = I.prog.T(targ(I, deref_t(I, src)))
            if st['k'] != 'int' or st['bits'] > ty['bits']:
                return Cx(I.conv_scalar(z.re, st, ty), I.conv_scalar(z.im, st, ty))
        return z
    vals = [v if isinstance(v, Poly) else _bad(v) for v in vals]
    vals += [ZERO] * (2 - len(vals))
    return Cx(vals[0], vals[1])


def _bad(v):
    raise X.Unsupported('complex from %r' % (v,))


def global_ref(I, e):
    d = e['d']
    key = ('glob', d)
    g = I.prog.globals.get(d)
    if key in I.st.mem:
        return I.st.mem[key]
    t = e['t'] if g is None else g['t']
    ty = I.prog.T(t)
    q = e.get('q') or e.get('n') or ''
    const = ty.get('const') or (ty['k'] == 'array' and I.prog.T(ty['to']).get('const'))
    if g is not None and g.get('init') is not None and (const or g.get('constexpr')):
        if ty['k'] == 'array':
            b = I.value_undef(t, 'g' + q)
            b = I.init_array(b, g['init'])
            lv = X.LV(I.newloc(b), ())
        elif ty['k'] == 'rec' and not I.is_complex(t):
            loc = I.newloc(new_record(I, t))
            lv = I.init_record(X.LV(loc, ()), t, g['init'])
        else:
            lv = X.LV(I.newloc(I.rval(g['init'])), ())
    elif ty['k'] in ('int', 'float'):
        lv = X.LV(I.newloc(sym('global:' + q, I.aty(t), taint=True)), ())
    elif ty['k'] == 'bool':
        lv = X.LV(I.newloc(to_cond(sym('global:' + q, ('int', 1, False), taint=True))), ())
    elif ty['k'] == 'array':
        lv = X.LV(I.newloc(X.Block(P(ty['n']), mkc('havoc', 'global:' + q, False, I.aty(ty['to'])), ty['to'], True, 'local', 'g')), ())
    elif ty['k'] == 'rec':
        lv = X.LV(I.newloc(new_record(I, t)), ())
    else:
        lv = X.LV(I.newloc(X.Opaque('global', q)), ())
    I.st.mem[key] = lv
    I.hooks.setdefault('globals', {})[lv.loc] = q
    return lv


def exc_matches(I, v, t):
    n = tname(I, t)
    if isinstance(v, X.Opaque):
        x = v.data or ''
        if n in x or x in n:
            return True
        if n in ('std::exception',) and x.startswith('std::'):
            return True
        if x == 'rethrow':
            return True
    return False


# ------------------------------------------------------------------ intrinsics
def lit(e, I=None):
    while e['k'] in ('cast', 'cleanups', 'temp'):
        e = e['e']
    if e['k'] == 'str':
        return e.get('v') or e.get('s')
    v = I.rval(e)
    if isinstance(v, X.Opaque) and v.kind == 'str':
        return v.data
    raise X.Unsupported('intrinsic name')


class Choices:
    """the tree of size assignments analysed so far; no assignment is analysed twice"""

    def __init__(self, share=None):
        """share (i, n): only each n-th value, from the i-th on, of the first size chosen"""
        self.root = self.node()
        self.share = share if share and share[1] > 1 else None

    def node(self):
        return dict(name=None, domain=None, kids={}, done=False)

    def start(self):
        self.path = [self.root]

    def choose(self, name, pick, domain, rnd):
        n = self.path[-1]
        if domain is not None and len(self.path) == 1 and self.share:
            domain = domain[self.share[0]::self.share[1]]
            if not domain:
                raise X.Infeasible()
        if n['name'] is None:
            n['name'], n['domain'] = name, domain
        elif n['name'] != name or n['domain'] != domain:
            n['domain'] = None
        v = None
        for _ in range(8):
            v = pick(rnd)
            if v is None:
                return None
            if (domain is None or v in domain) and not (n['kids'].get((name, v)) or {}).get('done'):
                break
        else:
            if domain is not None:
                left = [x for x in domain if not (n['kids'].get((name, x)) or {}).get('done')]
                v = rnd.choice(left or domain or [v])
        self.path.append(n['kids'].setdefault((name, v), self.node()))
        return v

    def finish(self):
        self.path[-1]['done'] = True
        for n in reversed(self.path[:-1]):
            if n['domain'] is None or not all((n['kids'].get((n['name'], x)) or {}).get('done') for x in n['domain']):
                break
            n['done'] = True
        return self.root['done']


def domain(I, lo, hi):
    lo, hi = simplify(lo, I.st.facts), simplify(hi, I.st.facts)
    if not (lo.is_const() and hi.is_const()):
        return None
    d = range(int(lo.const()), int(hi.const()) + 1)
    return d if len(d) <= 1024 else None


def fixed(I, name, *conds, choose=None, dom=None):
    """the constant chosen for a symbolic size when a refutation is re-analysed"""
    fix = I.opts.get('fix')
    if fix is None:
        return None
    v = fix.get(name)
    rnd = I.opts.get('inst')
    if v is None and rnd is not None and choose is not None:
        tree = I.opts.get('choices')
        if tree is not None:
            v = tree.choose(name, choose, dom and domain(I, *dom), rnd)
        else:
            v = choose(rnd)
        if v is not None:
            fix[name] = v
    if not isinstance(v, int) or isinstance(v, bool):
        return None
    v = P(v)
    for c in conds:
        q = I.st.facts.decide(c(v))
        if q is False:
            raise X.Infeasible()
        if q is None:
            I.st.facts.add(c(v))
    return v


def pick_dim(I, r, lo, name=None):
    """a size for an analysis at fixed shapes: small, or next to a constant of the code"""
    big = I.opts.get('big', 6)
    k = r.random()
    lits = [x for x in I.opts.get('lits', ()) if lo <= x <= I.opts.get('maxlit', 20)]
    near = [x for x in I.opts.get('hints', {}).get(name, ()) if lo <= x <= 4 * big]
    if near and r.random() < 0.4:
        return max(lo, r.choice(near) + r.choice((-1, 0, 0, 0, 1)))
    if k < 0.2:
        return 1 if k < 0.15 or lo else 0
    same = [x for x in I.opts['fix'].values() if lo <= x <= 4 * big]
    if k > 0.8 and same:
        return r.choice(same)       # square shapes
    if k < 0.45 and lits:
        return max(lo, r.choices(lits, [1 / x for x in lits])[0] * r.choice((1, 1, 1, 2)) + r.choice((-1, 0, 0, 0, 1)))
    return max(lo, r.randint(1, big))


def pick_var(I, r, lo, hi, name=None):
    lo, hi = simplify(lo, I.st.facts), simplify(hi, I.st.facts)
    if not (lo.is_const() and hi.is_const()):
        return None
    lo, hi = int(lo.const()), int(hi.const())
    if hi < lo:
        return None
    near = [x + d for x in I.opts.get('hints', {}).get(name, ()) for d in (-1, 0, 0, 1) if lo <= x + d <= hi]
    if near and r.random() < 0.3:
        return r.choice(near)
    k = r.random()
    if k < 0.2:
        return r.choice((lo, hi))
    if k < 0.4:
        near = [x + d for x in I.opts.get('lits', ()) for d in (-1, 0, 1) if lo <= x + d <= hi]
        if near:
            return r.choice(near)
    if k < 0.6:
        return r.randint(max(lo, -9), min(hi, 9)) if max(lo, -9) <= min(hi, 9) else r.randint(lo, hi)
    return r.randint(lo, hi)


def intrinsic(I, e, n):
    a = e['a']
    if n in ('dim', 'dim0'):
        name = lit(a[0], I)
        s = sym(name, ('int', 64, False))
        lo = 1 if n == 'dim' else 0
        v = fixed(I, name, lambda x: c_ge(x - lo), choose=lambda r: pick_dim(I, r, lo, name))
        if v is not None:
            return v
        I.st.facts.add(c_ge(s - lo))
        return s
    if n == 'var':
        # bounded integer variable  var(name, lo, hi)
        name = lit(a[0], I)
        lo, hi = I.rval(a[1]), I.rval(a[2])
        ty = I.prog.T(e['t'])
        v = fixed(I, name, lambda x: c_ge(x - lo), lambda x: c_ge(hi - x), choose=lambda r: pick_var(I, r, lo, hi, name), dom=(lo, hi))
        if v is not None:
            return v
        s = sym(name, ('int', ty['bits'], ty['sg']))
        I.st.facts.add(c_ge(s - lo))
        I.st.facts.add(c_ge(hi - s))
        return s
    if n == 'idx':
        name = lit(a[0], I)
        hi = I.rval(a[1])
        v = fixed(I, name, lambda x: c_ge(x), lambda x: c_ge(hi - 1 - x), choose=lambda r: pick_var(I, r, ZERO, hi - 1), dom=(ZERO, hi - 1)) if not I.opts.get('anyidx') else None
        if v is not None:
            return v
        s = sym(name, ('int', 64, False))
        c = c_ge(hi - 1 - s)
        q = I.st.facts.decide(c_ge(hi - 1))
        if q is False:
            raise X.Infeasible()
        I.st.facts.add(c)
        return s
    if n == 'any':
        name = lit(a[0], I)
        t = e['t']
        ty = I.prog.T(t)
        if I.is_complex(t):
            return Cx(sym(name + '.re', ('float',)), sym(name + '.im', ('float',)))
        if ty['k'] == 'bool':
            return to_cond(sym(name, ('int', 1, False)))
        if ty['k'] == 'int':
            v = fixed(I, name)
            if v is not None:
                return v
            s = sym(name, I.aty(t))
            if ty['bits'] <= 32:
                lo = -(1 << (ty['bits'] - 1)) if ty['sg'] else 0
                hi = (1 << (ty['bits'] - (1 if ty['sg'] else 0))) - 1
                I.st.facts.add(c_ge(s - lo))
                I.st.facts.add(c_ge(P(hi) - s))
            return s
        return sym(name, ('float',))
    if n == 'elem':
        name = lit(a[0], I)
        i = I.rval(a[1])
        t = e['t']
        v = input_read(mkc('input', name, I.is_complex(t), I.aty(t)), i)
        if I.prog.T(t)['k'] == 'bool':
            v = to_cond(v)
        return v
    if n == 'input':
        # input(T& first, n, name): storage starting at first holds arbitrary data
        lv = I.eval(a[0])
        name = lit(a[2], I)
        cnt = I.rval(a[1])
        b = I.st.mem.get(lv.loc)
        if not isinstance(b, X.Block) or lv.path[-1] is not ZERO or I.st.facts.decide(c_eq(cnt - b.n)) is not True:
            raise X.Unsupported('V::input on %r' % (b,))
        I.check_access(b, cnt - 1, 'write')
        I.st.mem[lv.loc] = b._replace(content=mkc('input', name, I.is_complex(b.ety), I.aty(b.ety)))
        return None
    if n == 'assume':
        c = I.cond_value(a[0])
        q = I.st.facts.decide(c)
        if q is False:
            raise X.Infeasible()
        if q is None:
            I.st.facts.add(c)
            I.pathconds.append(c)
            if I.st.facts.prove_false():
                raise X.Infeasible()
        return None
    if n == 'eq':
        label = lit(a[0], I)
        x, y = I.rval(a[1]), I.rval(a[2])
        I.check_eq(label, x, y)
        return None
    if n == 'check':
        label = lit(a[0], I)
        c = I.cond_value(a[1])
        I.check_cond(label, c)
        return None
    if n == 'misuse':
        I.misuse = True
        return None
    if n == 'live_blocks':
        return P(0)
    raise X.Unsupported('intrinsic ' + n)
