"""Finite sums in normal form: SUM over i<n of a polynomial is split into sums of index-dependent
monomials with index-free coefficients, so that linearity holds by construction."""
from fractions import Fraction
import z3
from .prove import *
from . import prove as PV
from .vals import Seq

_ctr = [0]


def new_ix():
    """a placeholder index used nowhere else (so nothing is ever captured)"""
    _ctr[0] += 1
    return z3.Int('ix#%d' % _ctr[0])


_canon = []


def canon_ix(h):
    while len(_canon) <= h:
        _canon.append(z3.Int('ix#*%d' % len(_canon)))
    return _canon[h]


_height = {}


def height(t):
    """nesting depth of the sums in a term"""
    k = t.get_id()
    r = _height.get(k)
    if r is not None:
        return r[0]
    h = 0
    if z3.is_app(t):
        if t.num_args() == 0:
            a = APPS.get(t.decl().name()) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            if a is not None and a.meta:
                h = a.meta.get('height', 0)
        else:
            for c in t.children():
                h = max(h, height(c))
    _height[k] = (h, t)
    return h


_deps = {}


def deps(t):
    """placeholder indices a term depends on (through sums too)"""
    k = t.get_id()
    r = _deps.get(k)
    if r is not None:
        return r[0]
    out = frozenset()
    if z3.is_app(t):
        if t.num_args() == 0:
            n = t.decl().name() if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else ''
            if n.startswith('ix#'):
                out = frozenset([n])
            else:
                a = APPS.get(n)
                if a is not None and a.meta:
                    out = a.meta.get('deps', frozenset())
        else:
            for c in t.children():
                out = out | deps(c)
    _deps[k] = (out, t)
    return out


CANCEL = [False]


def same_form(a, b):
    """equal by ring laws alone (no divisor cancelled)"""
    old, CANCEL[0] = CANCEL[0], False
    _pm2 = dict(_pm)
    _pm.clear()
    try:
        return not poly(a - b).d and not CANCEL[0]
    finally:
        CANCEL[0] = CANCEL[0] or old
        _pm.update(_pm2)


class Poly:
    """{monomial: coef}; monomial = tuple of (atom id, exponent) sorted; atoms kept alive"""
    atoms = {}

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def atom(t):
        Poly.atoms[t.get_id()] = t
        return Poly({((t.get_id(), 1),): Fraction(1)})

    def __add__(a, b):
        d = dict(a.d)
        for m, c in b.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(a, c):
        return Poly({m: x * c for m, x in a.d.items()} if c else {})

    def __mul__(a, b):
        d = {}
        for m1, c1 in a.d.items():
            for m2, c2 in b.d.items():
                e = dict(m1)
                for k, p in m2:
                    o = e.get(k, 0)
                    if o and (o < 0) != (p < 0):
                        CANCEL[0] = True
                    e[k] = o + p
                m = tuple(sorted((k, p) for k, p in e.items() if p))
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return Poly(d)

    def is_const(a):
        return not a.d or list(a.d) == [()]

    def cval(a):
        return a.d.get((), Fraction(0))


def frac(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


_pm = {}


def poly(t):
    k = t.get_id()
    r = _pm.get(k)
    if r is None:
        r = (poly_(t), t)
        _pm[k] = r
    return r[0]


def to_real(t):
    """an integer term as a real, with the conversion at its leaves"""
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), to_real(t.arg(1)), to_real(t.arg(2)))
    return z3.ToReal(t)


def poly_(t):
    f = frac(t)
    if f is not None:
        return Poly.const(f)
    if z3.is_app(t):
        kd = t.decl().kind()
        ch = t.children()
        if kd == z3.Z3_OP_ADD:
            r = Poly()
            for c in ch:
                r = r + poly(c)
            return r
        if kd == z3.Z3_OP_SUB:
            r = poly(ch[0])
            for c in ch[1:]:
                r = r + poly(c).scale(-1)
            return r
        if kd == z3.Z3_OP_UMINUS:
            return poly(ch[0]).scale(-1)
        if kd == z3.Z3_OP_MUL:
            r = Poly.const(1)
            for c in ch:
                r = r * poly(c)
                if len(r.d) > 300:
                    return Poly.atom(t)
            return r
        if kd == z3.Z3_OP_DIV and t.sort() == RealS:
            a, b = poly(ch[0]), poly(ch[1])
            if b.is_const() and b.cval() != 0:
                return a.scale(1 / b.cval())
            if len(b.d) == 1:
                (m, c), = b.d.items()
                return a * Poly({tuple((k, -p) for k, p in m): 1 / c})
            bt = unpoly(b, RealS)
            Poly.atoms[bt.get_id()] = bt
            return a * Poly({((bt.get_id(), -1),): Fraction(1)})
        if kd == z3.Z3_OP_POWER:
            e = frac(ch[1])
            if e is not None and e.denominator == 1 and 0 <= e <= 6:
                r = Poly.const(1)
                for _ in range(int(e)):
                    r = r * poly(ch[0])
                return r
        if kd == z3.Z3_OP_TO_REAL:
            a = ch[0]
            if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
                p = poly(a)
                r = Poly()
                for m, c in p.d.items():
                    q = Poly.const(c)
                    for k2, e in m:
                        at = poly(z3.ToReal(Poly.atoms[k2]))
                        for _ in range(e):
                            q = q * at
                    r = r + q
                return r
            S = APPS.get(a.decl().name()) if a.num_args() == 0 else None
            if S is not None and S.name == 'ISUM':
                at = S.meta['at']
                return poly(psum(S.meta['n'], lambda i: to_real(at(i))))
        if kd == z3.Z3_OP_UNINTERPRETED and ch:
            t = norm_args(t, ch)
    return Poly.atom(t)


def norm_args(t, ch):
    """arguments of an application in normal form"""
    n = []
    for c in ch:
        if z3.is_app(c) and c.num_args() and c.decl().kind() in NORMK and c.sort() in (RealS, IntS):
            c = unpoly(poly(c), c.sort())
        n.append(c)
    if all(x.get_id() == y.get_id() for x, y in zip(n, ch)):
        return t
    return t.decl()(*n)


NORMK = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV)


def atom_t(k):
    return Poly.atoms[k]


def mono_t(m, sort):
    num, den = [], []
    for k, p in m:
        (num if p > 0 else den).extend([atom_t(k)] * abs(p))
    one = z3.RealVal(1) if sort == RealS else z3.IntVal(1)
    t = None
    for x in num:
        t = x if t is None else t * x
    if t is None:
        t = one
    for x in den:
        t = t / x
    return t


def num_t(c, sort):
    if sort == IntS:
        return z3.IntVal(int(c))
    return z3.RealVal(c.numerator) / z3.RealVal(c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


def num_s(c, sort):
    return z3.simplify(num_t(c, sort))


def unpoly(p, sort):
    t = None
    for m in sorted(p.d):
        c = p.d[m]
        x = num_s(c, sort) if not m else (mono_t(m, sort) if c == 1 else num_s(c, sort) * mono_t(m, sort))
        t = x if t is None else t + x
    if t is None:
        return z3.RealVal(0) if sort == RealS else z3.IntVal(0)
    return t


def norm(t):
    return unpoly(poly(z3.simplify(t)), t.sort())


def psum(n, f, sort=RealS):
    """SUM_{0<=i<n} f(i)"""
    nn = z3.simplify(n)
    if z3.is_int_value(nn) and nn.as_long() <= 8:
        t = z3.RealVal(0) if sort == RealS else z3.IntVal(0)
        for i in range(max(0, nn.as_long())):
            t = t + f(iv(i))
        return t
    if z3.is_app(nn) and nn.decl().kind() == z3.Z3_OP_MUL and nn.num_args() == 2 and not any(z3.is_int_value(x) for x in nn.children()):
        r = flat_sum(n if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_MUL and n.num_args() == 2 else nn, f, sort)
        if r is not None:
            return r
    I = new_ix()
    b = f(I)
    r = split_sum(nn, b, I, sort)
    if r is not None:
        return r
    p = poly(b)
    me = I.decl().name()
    zero = z3.RealVal(0) if sort == RealS else z3.IntVal(0)
    out = None
    atoms = []
    groups = {}
    for m, c in p.d.items():
        dep = tuple(x for x in m if me in deps(atom_t(x[0])))
        fre = tuple(x for x in m if me not in deps(atom_t(x[0])))
        groups.setdefault(dep, []).append((fre, c))
    for dep in sorted(groups):
        coef = unpoly(Poly({fr: c for fr, c in groups[dep]}), sort)
        if dep == ():
            nn_ = z3.If(n >= 0, n, iv(0)) if not nonneg(n) else n
            s = z3.ToReal(nn_) if sort == RealS else nn_
        else:
            s = sum_app(n, dep, I, me, sort, f)
            atoms.append(s)
        x = coef * s
        out = x if out is None else out + x
    if out is not None and atoms and is_nn(b) and not deps(out):
        for t in atoms:
            a = APPS.get(t.decl().name()) if t.num_args() == 0 else None
            if a is not None:
                ex = a.meta.setdefault('nn', [])
                if not any(x.get_id() == out.get_id() for x in ex) and len(ex) < 6:
                    ex.append(out)
    return zero if out is None else out


_isnn = {}


def is_nn(t):
    """visibly not negative"""
    k = t.get_id()
    if k not in _isnn:
        _isnn[k] = (is_nn_(t), t)
    return _isnn[k][0]


def is_nn_(t):
    f = frac(t)
    if f is not None:
        return f >= 0
    if not z3.is_app(t):
        return False
    kd, ch = t.decl().kind(), t.children()
    if kd == z3.Z3_OP_MUL:
        cnt = {}
        for c in ch:
            cnt.setdefault(c.get_id(), [c, 0])[1] += 1
        return all(n % 2 == 0 or is_nn(c) for c, n in cnt.values())
    if kd == z3.Z3_OP_ADD:
        return all(is_nn(c) for c in ch)
    if kd == z3.Z3_OP_DIV:
        return is_nn(ch[0]) and is_nn(ch[1])
    if kd == z3.Z3_OP_POWER:
        e = frac(ch[1])
        return e is not None and e.denominator == 1 and int(e) % 2 == 0
    if kd == z3.Z3_OP_ITE:
        if is_nn(ch[1]) and is_nn(ch[2]):
            return True
        # absolute value
        return z3.is_app(ch[0]) and ch[0].num_args() == 2 and ch[0].arg(0).get_id() == ch[1].get_id() and ch[0].decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT) and frac(ch[0].arg(1)) == 0 and \
            poly(ch[1] + ch[2]).d == {}
    if kd == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ('exp', 'sqrt') and ch:
        return True
    if kd == z3.Z3_OP_UNINTERPRETED and not ch:
        a = APPS.get(t.decl().name())
        return a is not None and bool(a.meta) and a.meta.get('allnn', False)
    return False


FLATIX = {}


def occurs(t, J, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if t.get_id() == J.get_id():
        return True
    if z3.is_app(t):
        if t.num_args() == 0:
            a = APPS.get(t.decl().name()) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            return a is not None and bool(a.meta) and any(isz_(x) and occurs(x, J, seen) for x in a.scal)
        return any(occurs(c, J, seen) for c in t.children())
    return False


def isz_(x):
    return isinstance(x, z3.ExprRef)


def flat_sum(n, f, sort):
    """sum over the entries of an r x c matrix in row-major order as a double sum"""
    x, y = n.children()
    return flat_rc(x, y, f, sort) or flat_rc(y, x, f, sort)


def flat_rc(r, c, f, sort):
    A, B = new_ix(), new_ix()
    J = z3.simplify(A * c + B)
    FLATIX[J.get_id()] = (A, B, c, J)
    try:
        b = f(J)
    except Exception:
        return None
    b = z3.substitute(b, (J / c, A), (J % c, B))
    if occurs(b, J) or occurs(z3.simplify(b), J):
        return None
    return psum(r, lambda i: psum(c, lambda j: subst_ix(subst_ix(b, A, i), B, j), sort), sort)


_nn = set()


def nonneg(n):
    return z3.is_int_value(n) and n.as_long() >= 0 or n.get_id() in _nn


def declare_nonneg(n):
    _nn.add(n.get_id())
    _nnkeep.append(n)


_nnkeep = []


def find_ites(t, me, seen, out):
    """conditionals of a term whose condition mentions the index"""
    if t.get_id() in seen or not z3.is_app(t) or me not in deps(t):
        return
    seen.add(t.get_id())
    if t.decl().kind() == z3.Z3_OP_ITE and me in deps(t.arg(0)):
        out.append(t.arg(0))
    for c in t.children():
        find_ites(c, me, seen, out)


def bound_of(c, I):
    """('lt', p): the condition is I < p; ('ge', p): I >= p; ('eq', p): I = p; p without I"""
    c = z3.simplify(c)
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2 or c.arg(0).sort() != IntS:
        return None
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
        return None
    d = poly(c.arg(0) - c.arg(1))
    key = ((I.get_id(), 1),)
    a = d.d.get(key)
    if a not in (1, -1):
        return None
    rest = Poly({m: v for m, v in d.d.items() if m != key})
    me = I.decl().name()
    if any(me in deps(atom_t(x)) for m in rest.d for x, _ in m):
        return None
    p = z3.simplify(unpoly(rest.scale(-1 if a == 1 else 1), IntS))      # a*I + rest R 0
    if k == z3.Z3_OP_EQ:
        return ('ne' if neg else 'eq', p)
    if a == -1:
        k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
    if neg:
        k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}[k]
    return {z3.Z3_OP_LT: ('lt', p), z3.Z3_OP_LE: ('lt', z3.simplify(p + 1)), z3.Z3_OP_GE: ('ge', p), z3.Z3_OP_GT: ('ge', z3.simplify(p + 1))}[k]


_side = {}


def side(c):
    """does it follow from the declared non-negative sizes?"""
    c = z3.simplify(c)
    if z3.is_true(c) or z3.is_false(c):
        return z3.is_true(c)
    r = _side.get(c.get_id())
    if r is None:
        s = z3.Solver()
        s.set('timeout', 200)
        s.add(*[x >= 0 for x in _nnkeep[-12:]])
        s.add(z3.Not(c))
        r = _side[c.get_id()] = (s.check() == z3.unsat, c)
    return r[0]


def split_sum(n, b, I, sort):
    """sum of a conditional: split at the bound the condition compares the index with"""
    me = I.decl().name()
    if z3.is_int_value(n):
        return None
    out = []
    find_ites(b, me, set(), out)
    for c in out[:6]:
        bd = bound_of(c, I)
        if bd is None:
            continue
        kind, p = bd
        t, e = z3.substitute(b, (c, z3.BoolVal(True))), z3.substitute(b, (c, z3.BoolVal(False)))
        if kind in ('ge', 'ne'):
            t, e = e, t
        t, e = drop_ites(t), drop_ites(e)
        if kind in ('eq', 'ne'):
            if deps(p):
                inr = z3.And(p >= 0, p < n)
            else:
                inr = z3.And(p >= 0, p < n)
            d = subst_ix(t, I, p) - subst_ix(e, I, p)
            zero = z3.RealVal(0) if sort == RealS else z3.IntVal(0)
            return psum(n, lambda i: subst_ix(e, I, i), sort) + z3.If(inr, d, zero)
        if side(z3.And(p >= 0, p <= n)):
            return psum(p, lambda i: subst_ix(t, I, i), sort) + psum(z3.simplify(n - p), lambda i: subst_ix(e, I, z3.simplify(i + p)), sort)
        if side(p >= n):
            return psum(n, lambda i: subst_ix(t, I, i), sort)
        if side(p <= 0):
            return psum(n, lambda i: subst_ix(e, I, i), sort)
    return None


def drop_ites(t):
    """conditionals with a decided condition"""
    memo = {}

    def go(t):
        k = t.get_id()
        r = memo.get(k)
        if r is None:
            if not z3.is_app(t) or t.num_args() == 0:
                r = t
            else:
                ch = [go(c) for c in t.children()]
                if t.decl().kind() == z3.Z3_OP_ITE and (z3.is_true(ch[0]) or z3.is_false(ch[0])):
                    r = ch[1] if z3.is_true(ch[0]) else ch[2]
                elif all(x.get_id() == y.get_id() for x, y in zip(ch, t.children())):
                    r = t
                else:
                    r = rebuild(t, ch)
            memo[k] = (r, t) if False else r
        return r
    return go(t)


def sum_app(n, dep, I, me, sort, f):
    body = mono_t(dep, sort)
    sw = swap(n, dep, I, me, sort)
    if sw is not None:
        return sw

    def at(i):
        # value of the monomial at i: substitute through sums by re-evaluation
        return subst_ix(body, I, i)
    nm = 'SUM' if sort == RealS else 'ISUM'
    dd = (deps(body) - {me}) | deps(n)
    h = height(body)
    # the bound index gets a name that only depends on the nesting, the factors an order that only depends on themselves
    cz = subst_ix(body, I, canon_ix(h))
    cz = unpoly(poly(cz), sort)
    return mkapp(nm, [n, cz], [], sort, meta={'deps': dd, 'at': at, 'n': n, 'seq': Seq(n, at), 'height': h + 1, 'gen': _gen[0], 'shape': shape(cz)})


def swap(n, dep, I, me, sort):
    """sum over i of sum over j = sum over j of sum over i: one fixed order"""
    inner = [(k, p) for k, p in dep if height(atom_t(k)) > 0]
    if len(inner) != 1 or inner[0][1] != 1:
        return None
    S = APPS.get(atom_t(inner[0][0]).decl().name()) if atom_t(inner[0][0]).num_args() == 0 else None
    if S is None or S.name not in ('SUM', 'ISUM') or S.res.sort() != sort:
        return None
    m = S.meta['n']
    if me in deps(m) or m.get_id() >= n.get_id() or deps(m) - deps(n):
        return None
    rest = mono_t(tuple(x for x in dep if x != inner[0]), sort)
    sat = S.meta['at']
    return psum(m, lambda j: psum(n, lambda i: subst_ix(rest, I, i) * subst_ix(sat(j), I, i), sort), sort)


_sm = {}


def subst_ix(t, I, v):
    """t[I := v], also inside sums"""
    if I.decl().name() not in deps(t):
        return t
    k = (t.get_id(), I.get_id(), v.get_id())
    r = _sm.get(k)
    if r is not None:
        return r[0]
    if t.get_id() == I.get_id():
        res = v
    elif t.num_args() == 0:
        a = APPS[t.decl().name()]
        res = a.meta['subst'](I, v) if 'subst' in a.meta else resum(a, I, v)
    else:
        ch = [subst_ix(c, I, v) for c in t.children()]
        res = rebuild(t, ch)
    _sm[k] = (res, t, I, v)
    return res


def rebuild(t, ch):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(ch)
    if k == z3.Z3_OP_ADD:
        r = ch[0]
        for c in ch[1:]:
            r = r + c
        return r
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(ch)
    return t.decl()(*ch)


def resum(a, I, v):
    """substitute in a sum: same body with the outer index replaced"""
    at0 = a.meta['at']
    n = subst_ix(a.meta['n'], I, v)
    return psum(n, lambda i: subst_ix(at0(i), I, v), a.res.sort())


_gen = [0]
_shape = {}


def shape(t):
    """the uninterpreted functions a term is made of"""
    k = t.get_id()
    r = _shape.get(k)
    if r is not None:
        return r[0]
    out = ()
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0:
                a = APPS.get(t.decl().name())
                if a is not None and a.meta and 'shape' in a.meta:
                    out = ('SUM',) + a.meta['shape']
            else:
                out = (t.decl().name(),)
        for c in t.children():
            out = out + shape(c)
        out = tuple(sorted(out))
    _shape[k] = (out, t)
    return out


class gen:
    """sums made inside belong to the next generation"""
    def __init__(self, g):
        self.g = g

    def __enter__(self):
        self.old = _gen[0]
        _gen[0] = self.g + 1

    def __exit__(self, *a):
        _gen[0] = self.old


def ax_sum(a, w):
    n = a.meta['n']
    zero = z3.RealVal(0) if a.res.sort() == RealS else z3.IntVal(0)
    out = [z3.Implies(n <= 0, a.res == zero)]
    for x in a.meta.get('nn', ()):
        out.append(x >= 0)
    g = a.meta.get('gen', 0)
    if g > 1 or a.meta['deps']:
        return out
    with gen(g):
        if a.res.sort() == RealS and w is not None and a.meta.get('bounds', True):
            d = a.meta.setdefault('w', fint('sw'))
            e = a.meta['at'](d)
            rng = z3.And(d >= 0, d < n)
            # if the sum is negative some item is negative
            out.append(z3.Implies(a.res < 0, z3.And(rng, e < 0)))
            d2 = a.meta.setdefault('w2', fint('sw'))
            e2 = a.meta['at'](d2)
            out.append(z3.Implies(a.res > 0, z3.And(d2 >= 0, d2 < n, e2 > 0)))
        if a.res.sort() == IntS:
            d = a.meta.setdefault('w', fint('sw'))
            e = a.meta['at'](d)
            out.append(z3.Implies(a.res < 0, z3.And(d >= 0, d < n, e < 0)))
            d2 = a.meta.setdefault('w2', fint('sw'))
            e2 = a.meta['at'](d2)
            out.append(z3.Implies(a.res > n, z3.And(d2 >= 0, d2 < n, e2 > 1)))
    return out


_pw = {}


def pair_sum(a, b):
    out = []
    if b is None:
        # an integer sum is the sum of the same items as reals
        if a.meta.get('gen', 0) <= 1:
            with gen(a.meta.get('gen', 0) - 1):
                at = a.meta['at']
                out.append(z3.ToReal(a.res) == psum(a.meta['n'], lambda i: to_real(at(i))))
        return out
    g = max(a.meta.get('gen', 0), b.meta.get('gen', 0))
    n, m = a.meta['n'], b.meta['n']
    if a.scal[1].get_id() == b.scal[1].get_id():
        if n.get_id() != m.get_id():
            with gen(g):
                out.append(z3.Implies(n == m, a.res == b.res))
                out.append(z3.Implies(z3.And(m == n + 1, n >= 0), b.res == a.res + a.meta['at'](n)))
                out.append(z3.Implies(z3.And(n == m + 1, m >= 0), a.res == b.res + a.meta['at'](m)))
        return out
    if g > 2 or a.meta['height'] != b.meta['height'] or a.res.sort() != b.res.sort():
        return out
    if a.meta['shape'] != b.meta['shape'] and (g > 0 or a.meta['height'] > 1):
        return out
    if z3.is_int_value(z3.simplify(n - m)) and not z3.is_true(z3.simplify(n == m)):
        return out
    k = (a.res.get_id(), b.res.get_id())
    if k not in _pw:
        _pw[k] = (fint('dw'), a.res, b.res)
    d = _pw[k][0]
    with gen(g):
        out.append(z3.Or(n != m, z3.And(d >= 0, d < n, a.meta['at'](d) != b.meta['at'](d)), a.res == b.res))
    return out


AXIOMS['SUM'] = ax_sum
AXIOMS['ISUM'] = ax_sum
PV.PAIR['SUM'] = pair_sum
PV.PAIR['ISUM'] = pair_sum
