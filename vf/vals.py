"""Symbolic values.  Scalars are z3 terms; sequences are functions from index terms to values."""
import z3
from .mir import Unsupported
from .prove import fint, iv, conj, disj, All, Conj, IntS, RealS, BoolS


class Agg:
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty, self.f = ty, tuple(f)

    def __repr__(self):
        return '%s%r' % (self.ty or '', self.f)


class Enum:
    """disc: python int or z3 Int; pay: variant index -> tuple of values"""
    __slots__ = ('ty', 'disc', 'pay')

    def __init__(self, ty, disc, pay):
        self.ty, self.disc, self.pay = ty, disc, pay

    def __repr__(self):
        return '%s#%s%r' % (self.ty, self.disc, self.pay)

    def is_(self, k):
        if isinstance(self.disc, int):
            return z3.BoolVal(self.disc == k)
        return self.disc == k


class Seq:
    """n items; item i is at(i).  init(i): item i has been written (None: all are)"""
    __slots__ = ('n', '_at', 'init', '_memo', '_wit', 'tag', 'elty')

    def __init__(self, n, at, init=None, tag=None, elty=None):
        self.n, self._at, self.init = n, at, init
        self._memo = {}
        self._wit = {}
        self.tag = tag
        self.elty = elty

    def at(self, i):
        if isinstance(i, int):
            i = iv(i)
        i = z3.simplify(i) if not z3.is_const(i) else i
        k = i.get_id()
        r = self._memo.get(k)
        if r is None:
            r = (self._at(i), i)
            self._memo[k] = r
        return r[0]

    def inited(self, i):
        return z3.BoolVal(True) if self.init is None else self.init(i)

    def eq_witness(self, o):
        """a term that is false for a suitable d exactly when the two differ"""
        if self is o:
            return z3.BoolVal(True)
        k = id(o)
        if k not in self._wit:
            d = fint('dw')
            self._wit[k] = (z3.And(self.n == o.n, z3.Implies(z3.And(d >= 0, d < self.n), eqv(self.at(d), o.at(d)))), o)
        return self._wit[k][0]

    def eq_all(self, o):
        """equality as a provable / assumable schema"""
        return Conj([self.n == o.n, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < self.n), eqv(self.at(i), o.at(i))))])

    def sub(self, a, n):
        init = None if self.init is None else (lambda i: self.init(a + i))
        return Seq(n, lambda i: self.at(a + i), init, elty=self.elty)

    def set(self, j, v):
        init = None
        if self.init is not None:
            old = self.init
            init = lambda i: z3.Or(i == j, old(i))
        return Seq(self.n, lambda i: itev(i == j, v, self.at(i)), init, elty=self.elty)

    def __repr__(self):
        return 'Seq(%s)' % self.n


class Mat:
    """rows x cols matrix; kind matters only for overloaded operators"""
    __slots__ = ('r', 'c', '_at', '_memo', '_wit', 'kind', 'org')

    def __init__(self, r, c, at, kind='Matrix'):
        self.r, self.c, self._at, self.kind = r, c, at, kind
        self._memo = {}
        self._wit = {}
        self.org = None

    def at(self, i, j):
        i = z3.simplify(i) if not z3.is_const(i) else i
        j = z3.simplify(j) if not z3.is_const(j) else j
        k = (i.get_id(), j.get_id())
        r = self._memo.get(k)
        if r is None:
            r = (self._at(i, j), i, j)
            self._memo[k] = r
        return r[0]

    def row(self, i):
        return Seq(self.c, lambda j: self.at(i, j))

    def eq_witness(self, o):
        if self is o:
            return z3.BoolVal(True)
        k = id(o)
        if k not in self._wit:
            d, e = fint('dw'), fint('dw')
            self._wit[k] = (z3.And(self.r == o.r, self.c == o.c, z3.Implies(z3.And(d >= 0, d < self.r, e >= 0, e < self.c), eqv(self.at(d, e), o.at(d, e)))), o)
        return self._wit[k][0]

    def eq_all(self, o):
        return Conj([self.r == o.r, self.c == o.c,
                     All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < self.r, j >= 0, j < self.c), eqv(self.at(i, j), o.at(i, j))))])

    def __repr__(self):
        return 'Mat(%s,%s)' % (self.r, self.c)


class MapV:
    """map or set with integer keys: has(k), get(k); kind BTreeMap, HashMap, BTreeSet or HashSet"""
    __slots__ = ('has', 'get', 'kind', 'listing', 'valty')

    def __init__(self, kind, has, get, valty=None):
        self.kind, self.has, self.get, self.valty = kind, has, get, valty
        self.listing = None

    def put(self, k, v):
        old = self
        return MapV(self.kind, lambda y: z3.Or(y == k, old.has(y)), lambda y: itev(y == k, v, old.get(y)), self.valty)

    def drop(self, k):
        old = self
        return MapV(self.kind, lambda y: z3.And(y != k, old.has(y)), old.get, self.valty)

    def __repr__(self):
        return self.kind


class Vect:
    """rulinalg Vector: a sequence with algebra"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def eq_witness(self, o):
        return self.s.eq_witness(o.s)

    def eq_all(self, o):
        return self.s.eq_all(o.s)


class Ref:
    """shared reference: the value it sees"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '&%r' % (self.v,)


class Ptr:
    """mutable reference: a cell and a path into it"""
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return '&mut c%s%r' % (self.cell, self.path)


class RawP:
    """raw pointer into a sequence"""
    __slots__ = ('seq', 'off', 'ptr')

    def __init__(self, seq, off, ptr=None):
        self.seq, self.off, self.ptr = seq, off, ptr


class BoxV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Box(%r)' % (self.v,)


class It:
    """indexed iterator: items at(pos) .. at(end-1)"""
    __slots__ = ('at', 'pos', 'end', 'name', 'exact', 'grid')

    def __init__(self, at, pos, end, name='', grid=None):
        self.at, self.pos, self.end, self.name = at, pos, end, name
        self.grid = grid            # (length of a row, at(i, j)) of a flattened iterator

    def seq(self):
        p = self.pos
        return Seq(self.end - p, lambda i: self.at(p + i))

    def __repr__(self):
        return 'It[%s..%s]' % (self.pos, self.end)


class FiltIt:
    """filtered indexed iterator (only consumed whole)"""
    __slots__ = ('base', 'pred')

    def __init__(self, base, pred):
        self.base, self.pred = base, pred


class Clos:
    __slots__ = ('loc', 'caps', 'env')

    def __init__(self, loc, caps, env):
        self.loc, self.caps, self.env = loc, tuple(caps), env


class FnV:
    __slots__ = ('text', 'env')

    def __init__(self, text, env):
        self.text, self.env = text, env


class Uninit:
    pass


UNINIT = Uninit()
UNIT = Agg('()', ())


def isz(v):
    return isinstance(v, z3.ExprRef)


def strip(v):
    while isinstance(v, (Ref, BoxV)):
        v = v.v
    return v


def eqv(a, b):
    """structural equality as a z3 Bool (sequences by witness)"""
    a, b = strip(a), strip(b)
    if a is b:
        return z3.BoolVal(True)
    if isz(a) and isz(b):
        if a.sort() != b.sort():
            if a.sort() == IntS and b.sort() == RealS:
                return z3.ToReal(a) == b
            if b.sort() == IntS and a.sort() == RealS:
                return z3.ToReal(b) == a
            raise Unsupported('eq of sorts %s %s' % (a.sort(), b.sort()))
        return a == b
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        return conj([eqv(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Enum) and isinstance(b, Enum):
        ks = set(a.pay) | set(b.pay)
        if isinstance(a.disc, int) and isinstance(b.disc, int):
            if a.disc != b.disc:
                return z3.BoolVal(False)
            return conj([eqv(x, y) for x, y in zip(a.pay.get(a.disc, ()), b.pay.get(b.disc, ()))])
        cs = [zi(a.disc) == zi(b.disc)]
        for k in ks:
            if k in a.pay and k in b.pay:
                cs.append(z3.Implies(a.is_(k), conj([eqv(x, y) for x, y in zip(a.pay[k], b.pay[k])])))
        return conj(cs)
    if hasattr(a, 'eq_witness') and type(a) is type(b):
        return a.eq_witness(b)
    if isinstance(a, Vect) and isinstance(b, Seq):
        return a.s.eq_witness(b)
    if isinstance(b, Vect) and isinstance(a, Seq):
        return b.s.eq_witness(a)
    raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))


def zi(d):
    return iv(d) if isinstance(d, int) else d


def eq_all(a, b):
    """equality as list of provable parts"""
    a, b = strip(a), strip(b)
    if isinstance(a, (Seq, Mat, Vect)):
        return a.eq_all(b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        return Conj([eq_all(x, y) for x, y in zip(a.f, b.f)])
    return eqv(a, b)


def itev(c, a, b):
    if a is b:
        return a
    cs = z3.simplify(c)
    if z3.is_true(cs):
        return a
    if z3.is_false(cs):
        return b
    if isz(a) and isz(b):
        if a.sort() != b.sort():
            raise Unsupported('ite of sorts %s %s' % (a.sort(), b.sort()))
        if a.get_id() == b.get_id():
            return a
        return z3.If(c, a, b)
    if isinstance(a, Uninit):
        return b
    if isinstance(b, Uninit):
        return a
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        return Agg(a.ty, [itev(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Enum) and isinstance(b, Enum):
        pay = {}
        for k in set(a.pay) | set(b.pay):
            if k in a.pay and k in b.pay:
                pay[k] = tuple(itev(c, x, y) for x, y in zip(a.pay[k], b.pay[k]))
            else:
                pay[k] = a.pay.get(k, b.pay.get(k))
        disc = a.disc if isinstance(a.disc, int) and isinstance(b.disc, int) and a.disc == b.disc else z3.If(c, zi(a.disc), zi(b.disc))
        return Enum(a.ty, disc, pay)
    if isinstance(a, Seq) and isinstance(b, Seq):
        init = None
        if a.init is not None or b.init is not None:
            init = lambda i: z3.If(c, a.inited(i), b.inited(i))
        return Seq(a.n if a.n.get_id() == b.n.get_id() else z3.If(c, a.n, b.n), lambda i: itev(c, a.at(i), b.at(i)), init, elty=a.elty)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(z3.If(c, a.r, b.r), z3.If(c, a.c, b.c), lambda i, j: itev(c, a.at(i, j), b.at(i, j)), a.kind)
    if isinstance(a, Vect) and isinstance(b, Vect):
        return Vect(itev(c, a.s, b.s))
    if isinstance(a, MapV) and isinstance(b, MapV):
        return MapV(a.kind, lambda y: z3.If(c, a.has(y), b.has(y)), lambda y: itev(c, a.get(y), b.get(y)), a.valty)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return Ref(itev(c, a.v, b.v))
    if isinstance(a, BoxV) and isinstance(b, BoxV):
        return BoxV(itev(c, a.v, b.v))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell and same_path(a.path, b.path):
        return a
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))


def same_path(p, q):
    if len(p) != len(q):
        return False
    for x, y in zip(p, q):
        if len(x) != len(y) or x[0] != y[0]:
            return False
        for u, v in zip(x[1:], y[1:]):
            if isz(u) and isz(v):
                if u.get_id() != v.get_id():
                    return False
            elif isz(u) or isz(v) or u != v:
                return False
    return True
