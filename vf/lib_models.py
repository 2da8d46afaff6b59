"""Assumed contracts of the dependencies: std, rand, num, rulinalg.  Dispatch is by method name and
the shape of the arguments; everything listed here is trusted and reported as such."""
import re
import z3
from .mir import Unsupported, parse_type, split_top
from . import mir as M
from .vals import *
from . import prove as PV
from .prove import All, Conj, conj, disj, fint, iv, f1, f2, IntS, RealS, BoolS, mkapp
from .sums import psum, declare_nonneg, FLATIX

R0, R1 = z3.RealVal(0), z3.RealVal(1)
TRUE = z3.BoolVal(True)


class AtFn:
    """items of an iterator; run() evaluates one item with obligations and effects"""

    def __init__(self, pure, run=None, ptrs=()):
        self.pure, self.run_, self.ptrs = pure, run, tuple(ptrs)
        self.memo = {}

    def __call__(self, i):
        k = i.get_id()
        r = self.memo.get(k)
        if r is None:
            r = (self.pure(i), i)
            self.memo[k] = r
        return r[0]

    def run(self, st, i):
        if self.run_ is not None:
            return self.run_(st, i)
        return [(st, self(i))]


def run_at(at, st, i):
    return at.run(st, i) if isinstance(at, AtFn) else [(st, at(i))]


def Opt(v):
    return Enum('Option', 1, {1: (v,)})


NONE = Enum('Option', 0, {0: ()})
OTHER = object()


class Lib:
    def __init__(self):
        self.eng = None
        self.FMAX = z3.Real('F64_MAX')
        self.FTINY = z3.Real('F64_TINY')
        self.FINF = z3.Real('F64_INF')
        from . import prove as PV
        for c, f in ((self.FTINY, z3.And(self.FTINY > 0, self.FTINY < z3.Q(1, 10**300))), (self.FMAX, self.FMAX > 10**300), (self.FINF, self.FINF > self.FMAX)):
            PV.GFACTS.setdefault(c.decl().name(), [f])
        self.used = set()
        self.FIN = z3.Function('finite', RealS, BoolS)
        self.NAN = z3.Function('isnan', RealS, BoolS)
        self.sqrt_guard = True
        self.nan_free = True     # inputs are numbers (contracts about non-finite data clear this)

    # ------------------------------------------------------------------ helpers
    def val(self, st, v):
        while True:
            if isinstance(v, Ptr):
                v = self.eng.getp(st, v.cell, v.path)
            elif isinstance(v, (Ref, BoxV)):
                v = v.v
            else:
                return v

    def is_ptr(self, v):
        return isinstance(v, Ptr)

    def ptr(self, st, v):
        """innermost mutable pointer"""
        while True:
            if isinstance(v, Ptr):
                x = self.eng.getp(st, v.cell, v.path)
                if isinstance(x, (Ptr,)):
                    v = x
                    continue
                if isinstance(x, Ref) and isinstance(x.v, Ptr):
                    v = x.v
                    continue
                return v
            if isinstance(v, (Ref, BoxV)) and isinstance(v.v, (Ptr, Ref, BoxV)):
                v = v.v
                continue
            raise Unsupported('mutable reference expected, got %s' % type(v).__name__)

    def seq(self, st, v):
        v = self.val(st, v)
        if isinstance(v, Vect):
            return v.s
        if isinstance(v, Seq):
            return v
        if isinstance(v, Mat):
            return self.flatten_mat(v)
        raise Unsupported('sequence expected, got %s' % type(v).__name__)

    def sc(self, st, v):
        v = self.val(st, v)
        if isinstance(v, Agg) and len(v.f) == 1:
            v = self.val(st, v.f[0])
        if not isz(v):
            raise Unsupported('scalar expected, got %s' % type(v).__name__)
        return v

    def setv(self, st, p, v):
        self.eng.setp(st, p.cell, p.path, v)

    def need(self, st, c, what, kind='panic'):
        self.eng.require(st, c, kind, 'no-panic: ' + what if kind in ('panic', 'bounds') else what)

    def fork(self, st, c):
        """[(state, bool)] feasible branches"""
        c = z3.simplify(c)
        out = []
        for b, f in ((True, c), (False, z3.simplify(z3.Not(c)))):
            if z3.is_false(f):
                continue
            if not z3.is_true(f) and not self.eng.pv.feasible(st.hyps, f):
                continue
            s = st.copy()
            s.branch(f)
            out.append((s, b))
        return out

    def eltype(self, info):
        """element type from the text of a generic container path"""
        for t in (info.self, info.prefix):
            if not t:
                continue
            i = t.find('<')
            if i >= 0:
                try:
                    e = M.match_close(t, i)
                    a = [x for x in split_top(t[i + 1:e]) if not x.startswith("'")]
                    if a and not t.startswith('std::slice::<impl') :
                        return self.eng.type_of_text(info.fr, a[0])
                except Exception:
                    pass
        return None

    def garbage(self, ty, nm='junk'):
        if ty is None:
            return lambda i: UNINIT
        try:
            b = self.eng.builder(ty, nm, 1, None)
        except Unsupported:
            return lambda i: UNINIT
        return lambda i: b(i)

    # ------------------------------------------------------------------ matrices
    def flatten_mat(self, m):
        if m.org is not None and m.org[0] == 'flat':
            return m.org[1]
        n = m.r * m.c
        q = Seq(n, lambda i: self.mat_at_flat(m, i))
        q.tag = ('matflat', m)
        return q

    def mat_at_flat(self, m, i):
        i0 = z3.simplify(i)
        f = FLATIX.get(i0.get_id()) or FLATIX.get(i.get_id())
        if f is not None and f[2].get_id() == m.c.get_id():
            return m.at(f[0], f[1])
        return m.at(i0 / m.c, i0 % m.c)

    def unflatten(self, r, c, q, kind='Matrix'):
        if q.tag is not None and q.tag[0] == 'matflat' and z3.simplify(q.tag[1].c == c) is not None and z3.is_true(z3.simplify(q.tag[1].c == c)):
            m = q.tag[1]
            return Mat(r, c, lambda i, j: m.at(i, j), kind)
        if q.tag is not None and q.tag[0] == 'rows2' and z3.is_true(z3.simplify(q.tag[1] == c)):
            f = q.tag[2]
            return Mat(r, c, lambda i, j: f(i, j), kind)
        m = Mat(r, c, lambda i, j: q.at(i * c + j), kind)
        m.org = ('flat', q)
        return m

    # ------------------------------------------------------------------ entry points
    PANICS = {'begin_panic', 'panic_fmt', 'panic', 'panic_display', 'panic_str', 'unreachable_display', 'panic_bounds_check', 'assert_failed', 'unwrap_failed',
              'expect_failed', 'panic_explicit', 'slice_index_fail', 'panic_nounwind', 'panic_str_2015', 'panic_misaligned_pointer_dereference', 'slice_start_index_len_fail', 'slice_end_index_len_fail', 'panic_cold_explicit', 'process_abort'}

    def is_panic(self, info):
        return info.method in self.PANICS or 'panic' in info.text or info.method in ('assert_failed',)

    def call(self, st, fr, info, args):
        m = info.method
        h = getattr(self, 'm_' + m, None)
        if h is None:
            return None
        r = h(st, info, args)
        if r is OTHER:
            return None
        self.used.add((info.trait and (re.sub(r'<.*', '', info.trait) + '::' + m)) or re.sub(r'<.*>', '<..>', (info.prefix or info.self or '')) + '::' + m)
        return r if isinstance(r, list) else [(st, r)]

    def opaque_call(self, st, f, args, fr):
        """call of an opaque function value: an uninterpreted pure function of its scalar arguments"""
        xs = [self.sc(st, a.f[0] if isinstance(a, Agg) and len(a.f) == 1 else a) for a in (args[0].f if len(args) == 1 and isinstance(args[0], Agg) else args)]
        g = z3.Function('apply', *([f.sort()] + [x.sort() for x in xs] + [RealS]))
        return [(st, g(f, *xs))]

    def callf(self, st, f, args, info):
        return self.eng.call_value(st, f, list(args), info.fr)

    def pure(self, st, f, args, info):
        return self.eng.pure_call(st, lambda s: self.callf(s, f, args, info))

    # ------------------------------------------------------------------ iterators
    def it(self, st, v, ismut=None):
        """iterator over a value"""
        eng = self.eng
        if isinstance(v, It) or isinstance(v, FiltIt):
            return v
        if isinstance(v, Agg) and v.ty == 'Range':
            a, b = v.f
            if not (isz(a) and a.sort() == IntS):
                raise Unsupported('range of ' + str(a))
            return It(AtFn(lambda i: i), a, self.max_end(st, a, b), 'range')
        if isinstance(v, Ptr):
            x = self.val(st, v)
            p = self.ptr(st, v)
            if isinstance(x, It):
                return x
            if isinstance(x, Agg) and x.ty == 'Range':
                return self.it(st, x)
            if isinstance(x, (Seq, Vect)):
                n = self.seq(st, x).n
                base = list(p.path)
                return It(AtFn(lambda i: Ptr(p.cell, base + [('iw', i)]), None, [p]), iv(0), n, 'iter_mut')
            if isinstance(x, Mat) and (x.kind in ('RowMut', 'Row') or p.path and p.path[-1][0] == 'rowm'):
                base = self.rowpath(p.path)
                return It(AtFn(lambda j: Ptr(p.cell, base + [('iw', j)]), None, [p]), iv(0), x.c, 'iter_mut')
            raise Unsupported('iteration over &mut %s' % type(x).__name__)
        byref = isinstance(v, Ref)
        x = self.val(st, v)
        if isinstance(x, It):
            return x
        if isinstance(x, Agg) and x.ty == 'Range':
            return self.it(st, x)
        if isinstance(x, (Seq, Vect)):
            s = self.seq(st, x)
            if s.init is not None and not eng.dry:
                i = fint('ii')
                s2 = st.copy()
                s2.assume(z3.And(i >= 0, i < s.n))
                eng.require(s2, s.init(i), 'uninit', 'reads only written memory')
            if byref:
                return It(AtFn(lambda i: Ref(s.at(i))), iv(0), s.n, 'iter')
            return It(AtFn(lambda i: s.at(i)), iv(0), s.n, 'into_iter')
        if isinstance(x, MapV):
            n, key = self.listing(st, x)
            if x.kind.endswith('Set'):
                return It(AtFn(lambda i: Ref(key(i)) if byref else key(i)), iv(0), n, 'iter')
            return It(AtFn(lambda i: Agg('tuple', (Ref(key(i)), Ref(x.get(key(i)))) if byref else (key(i), x.get(key(i))))), iv(0), n, 'iter')
        if isinstance(x, Mat) and (x.kind == 'Row'):
            return It(AtFn(lambda j: Ref(x.at(iv(0), j))), iv(0), x.c, 'row')
        if isinstance(x, Mat):
            q = self.flatten_mat(x)
            return It(AtFn(lambda i: Ref(q.at(i))), iv(0), q.n, 'iter')
        if isinstance(x, Enum) and x.ty == 'Option':
            return It(AtFn(lambda i: x.pay[1][0] if 1 in x.pay else UNINIT), iv(0), z3.If(x.is_(1), iv(1), iv(0)), 'option')
        raise Unsupported('iteration over %s' % type(x).__name__)

    def rowpath(self, path):
        path = list(path)
        if path and path[-1][0] == 'rowm':
            path[-1] = ('row', path[-1][1])
            return path
        raise Unsupported('row path')

    def max_end(self, st, a, b):
        d = z3.simplify(a <= b)
        if z3.is_true(d):
            return b
        r, _ = self.eng.pv.prove(st.hyps, a <= b, timeout=1000)
        if r == 'proved':
            return b
        return z3.If(a <= b, b, a)

    def m_into_iter(self, st, info, args):
        v = args[0]
        if isinstance(v, Agg) and v.ty == 'Range':
            return v
        if isinstance(v, Agg) and v.ty not in ('Range',):
            return v if not isinstance(v, (Ref, Ptr)) else OTHER
        if isinstance(v, Ptr):
            x = self.val(st, v)
            if isinstance(x, (It, Agg)):
                return v
        return self.it(st, v)

    def m_iter(self, st, info, args):
        x = self.val(st, args[0])
        return self.it(st, Ref(x))

    def m_iter_mut(self, st, info, args):
        return self.it(st, self.ptr(st, args[0]))

    def m_row_iter(self, st, info, args):
        m = self.val(st, args[0])
        return It(AtFn(lambda i: Ref(self.rowmat(m, i))), iv(0), m.r, 'rows')
    m_iter_rows = m_row_iter

    def rowmat(self, m, i):
        return Mat(iv(1), m.c, lambda a, j: m.at(i, j), 'Row')

    def m_row_iter_mut(self, st, info, args):
        p = self.ptr(st, args[0])
        m = self.val(st, p)
        base = list(p.path)
        return It(AtFn(lambda i: Ptr(p.cell, base + [('rowm', i)]), None, [p]), iv(0), m.r, 'rows_mut')
    m_iter_rows_mut = m_row_iter_mut

    def m_col_iter(self, st, info, args):
        m = self.val(st, args[0])
        return It(AtFn(lambda j: Ref(Mat(m.r, iv(1), lambda i, z: m.at(i, j), 'Column'))), iv(0), m.c, 'cols')

    def m_next(self, st, info, args):
        p = args[0]
        if not isinstance(p, Ptr):
            return OTHER
        v = self.val(st, p)
        p = self.ptr(st, p)
        out = []
        if isinstance(v, Agg) and v.ty == 'Range':
            a, b = v.f
            if not (isz(a) and a.sort() == IntS):
                return OTHER
            for s, t in self.fork(st, a < b):
                if t:
                    self.setv(s, p, Agg('Range', [a + 1, b]))
                    out.append((s, Opt(a)))
                else:
                    out.append((s, NONE))
            return out
        if isinstance(v, It):
            for s, t in self.fork(st, v.pos < v.end):
                if t:
                    self.setv(s, p, It(v.at, v.pos + 1, v.end, v.name))
                    for s2, x in run_at(v.at, s, v.pos):
                        out.append((s2, Opt(x)))
                else:
                    out.append((s, NONE))
            return out
        return OTHER

    def m_next_back(self, st, info, args):
        p = args[0]
        v = self.val(st, p)
        p = self.ptr(st, p)
        out = []
        if isinstance(v, Agg) and v.ty == 'Range':
            a, b = v.f
            for s, t in self.fork(st, a < b):
                if t:
                    self.setv(s, p, Agg('Range', [a, b - 1]))
                    out.append((s, Opt(b - 1)))
                else:
                    out.append((s, NONE))
            return out
        return OTHER

    def m_map(self, st, info, args):
        v = args[0]
        x = v
        if isinstance(x, Enum) and x.ty in ('Option', 'Result'):
            return self.opt_map(st, x, args[1], info)
        it = self.it(st, v)
        f = args[1]
        if isinstance(it, FiltIt):
            raise Unsupported('map over filter')
        snap = st.copy()
        eng = self.eng

        def pure(i):
            return eng.pure_call(snap, lambda s: [o for s1, y in run_at(it.at, s, i) for o in self.callf(s1, f, [y], info)])

        def run(s, i):
            return [o for s1, y in run_at(it.at, s, i) for o in self.callf(s1, f, [y], info)]
        return It(AtFn(pure, run, getattr(it.at, 'ptrs', ())), it.pos, it.end, 'map')

    def m_cloned(self, st, info, args):
        v = args[0]
        if isinstance(v, Enum):
            return Enum(v.ty, v.disc, {k: tuple(strip(y) for y in p) for k, p in v.pay.items()})
        it = self.it(st, v)
        return It(AtFn(lambda i: self.val(st, it.at(i)), (lambda s, i: [(s1, self.val(s1, y)) for s1, y in run_at(it.at, s, i)])), it.pos, it.end, 'cloned')
    m_copied = m_cloned

    def m_enumerate(self, st, info, args):
        it = self.it(st, args[0])
        p0 = it.pos
        return It(AtFn(lambda i: Agg('()', [i - p0, it.at(i)]), lambda s, i: [(s1, Agg('()', [i - p0, y])) for s1, y in run_at(it.at, s, i)], getattr(it.at, 'ptrs', ())), it.pos, it.end, 'enumerate')

    def zmin(self, st, a, b):
        if a.get_id() == b.get_id():
            return a
        e = z3.simplify(a == b)
        if z3.is_true(e):
            return a
        if not self.eng.pv.feasible(st.hyps, a > b):
            return a
        if not self.eng.pv.feasible(st.hyps, b > a):
            return b
        if self.eng.pv.prove(st.hyps, a <= b, timeout=800)[0] == 'proved':
            return a
        if self.eng.pv.prove(st.hyps, b <= a, timeout=800)[0] == 'proved':
            return b
        return z3.If(a <= b, a, b)

    def m_zip(self, st, info, args):
        a, b = self.it(st, args[0]), self.it(st, args[1])
        n = self.zmin(st, a.end - a.pos, b.end - b.pos)

        def run(s, i):
            return [(s2, Agg('()', [x, y])) for s1, x in run_at(a.at, s, a.pos + i) for s2, y in run_at(b.at, s1, b.pos + i)]
        return It(AtFn(lambda i: Agg('()', [a.at(a.pos + i), b.at(b.pos + i)]), run, tuple(getattr(a.at, 'ptrs', ())) + tuple(getattr(b.at, 'ptrs', ()))), iv(0), z3.simplify(n), 'zip')

    def m_rev(self, st, info, args):
        it = self.it(st, args[0])
        a, b = it.pos, it.end
        return It(AtFn(lambda i: it.at(b - 1 - i), lambda s, i: run_at(it.at, s, b - 1 - i), getattr(it.at, 'ptrs', ())), iv(0), b - a, 'rev')

    def m_skip(self, st, info, args):
        it = self.it(st, args[0])
        n = self.sc(st, args[1])
        np_ = self.zmin(st, it.pos + n, it.end)
        return It(it.at, np_, it.end, 'skip')

    def m_take(self, st, info, args):
        if isinstance(args[0], Ptr) and isinstance(self.val(st, args[0]), Enum):
            p = self.ptr(st, args[0])
            v = self.val(st, p)
            self.setv(st, p, NONE)
            return v
        it = self.it(st, args[0])
        n = self.sc(st, args[1])
        e = self.zmin(st, it.pos + n, it.end)
        return It(it.at, it.pos, e, 'take')

    def m_step_by(self, st, info, args):
        return OTHER

    def m_chain(self, st, info, args):
        a, b = self.it(st, args[0]), self.it(st, args[1])
        na = a.end - a.pos

        def pure(i):
            return itev(i < na, a.at(a.pos + i), b.at(b.pos + i - na))
        return It(AtFn(pure, None, tuple(getattr(a.at, 'ptrs', ())) + tuple(getattr(b.at, 'ptrs', ()))), iv(0), z3.simplify(na + (b.end - b.pos)), 'chain')

    def m_flat_map(self, st, info, args):
        """flattening of inner iterators of one common length"""
        it = self.it(st, args[0])
        f = args[1]
        if isinstance(it, FiltIt):
            raise Unsupported('flat_map over filter')
        snap = st.copy()

        def inner(i):
            v = self.pure(snap, f, [it.at(it.pos + i)], info)
            w = self.it(snap, v)
            if isinstance(w, FiltIt):
                raise Unsupported('flat_map to a filter')
            return w
        self.check_items(st, It(AtFn(lambda i: i, lambda s, i: self.callf(s, f, [it.at(it.pos + i)], info)), iv(0), z3.simplify(it.end - it.pos)))
        g = fint('fm')
        w = inner(g)
        n = z3.simplify(w.end - w.pos)
        from .closed import symbols
        if any(x.get_id() == g.get_id() for x in symbols(n)):
            raise Unsupported('flat_map to iterators of different lengths')
        s2 = st.copy()
        s2.assume(z3.And(g >= 0, g < it.end - it.pos))
        self.check_items(s2, w, lambda *a: None)

        def at(i, j):
            w = inner(i)
            return w.at(w.pos + j)
        return It(AtFn(lambda p: at(p / n, p % n)), iv(0), z3.simplify((it.end - it.pos) * n), 'flat_map', (n, at))

    def m_filter(self, st, info, args):
        if isinstance(args[0], Enum):
            return OTHER
        it = self.it(st, args[0])
        f = args[1]
        return FiltIt(it, lambda i: self.pure(st, f, [Ref(it.at(i))], info))

    def check_items(self, st, it, extra=None, info=None):
        """obligations of evaluating the items (and a closure on them) at a generic position"""
        eng = self.eng
        if eng.dry:
            return
        if isinstance(it.at, AtFn) and it.at.run_ is None and extra is None:
            return
        s = st.copy()
        i = fint('gi')
        s.assume(z3.And(i >= it.pos, i < it.end))
        outs = run_at(it.at, s, i)
        if extra is not None:
            for s1, y in outs:
                extra(s1, y, i)

    def m_collect(self, st, info, args):
        v = args[0]
        it = self.it(st, v)
        if isinstance(it, FiltIt):
            raise Unsupported('collect of a filter')
        self.check_items(st, it)
        target = info.gen[0] if info.gen else ''
        n = z3.simplify(it.end - it.pos)
        p = it.pos
        if target.startswith('std::result::Result<'):
            return self.collect_result(st, it)
        if not (target.startswith('std::vec::Vec<') or target.startswith('rulinalg::vector::Vector')):
            raise Unsupported('collect into ' + target[:60])
        q = Seq(n, lambda i: it.at(p + i), elty=None, tag=('rows2', it.grid[0], lambda i, j: strip(it.grid[1](i, j))) if it.grid else None)
        q.at(fint('probe'))           # effects surface here
        return Vect(q) if target.startswith('rulinalg') else q

    def collect_result(self, st, it):
        """all Ok, or an Err of the first failing item"""
        out = []
        j = fint('ej')
        at = lambda i: it.at(i)
        s1 = st.copy()
        s1.assume(All(1, lambda i: z3.Implies(z3.And(i >= it.pos, i < it.end), at(i).is_(0))))
        q = Seq(z3.simplify(it.end - it.pos), lambda i: at(it.pos + i).pay[0][0])
        out.append((s1, Enum('Result', 0, {0: (q,)})))
        s2 = st.copy()
        ej = at(j)
        c = z3.And(j >= it.pos, j < it.end, ej.is_(1))
        if self.eng.pv.feasible(s2.hyps, c):
            s2.branch(c)
            s2.assume(All(1, lambda i: z3.Implies(z3.And(i >= it.pos, i < j), at(i).is_(0))))
            out.append((s2, Enum('Result', 1, {1: ej.pay.get(1, (UNIT,))})))
        return out

    def m_extend(self, st, info, args):
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        it = self.it(st, args[1])
        self.check_items(st, it)
        n0 = q.n
        if isinstance(it, It) and it.grid and z3.is_true(z3.simplify(n0 == 0)):
            self.setv(st, p, Seq(it.end, lambda i: strip(it.at(i)), None, tag=('rows2', it.grid[0], lambda i, j: strip(it.grid[1](i, j))), elty=q.elty))
            return UNIT
        r = Seq(z3.simplify(n0 + (it.end - it.pos)), lambda i: itev(i < n0, q.at(i), strip(it.at(it.pos + i - n0)) if not isinstance(q.at(iv(0)), Ref) else it.at(it.pos + i - n0)), None, elty=q.elty)
        r.at(fint('probe'))
        self.setv(st, p, r)
        return UNIT

    def m_extend_from_slice(self, st, info, args):
        p = self.ptr(st, args[0])
        q, b = self.seq(st, p), self.seq(st, args[1])
        n0 = q.n
        if z3.is_int_value(z3.simplify(n0)) and z3.simplify(n0).as_long() == 0:
            r = Seq(b.n, b.at, b.init, elty=q.elty)
        else:
            r = Seq(z3.simplify(n0 + b.n), lambda i: itev(i < n0, q.at(i), b.at(i - n0)), self.cat_init(q, b), elty=q.elty)
        self.setv(st, p, r)
        return UNIT

    def cat_init(self, q, b):
        if q.init is None and b.init is None:
            return None
        return lambda i: z3.If(i < q.n, q.inited(i), b.inited(i - q.n))

    def m_append(self, st, info, args):
        p = self.ptr(st, args[0])
        p2 = self.ptr(st, args[1])
        q, b = self.seq(st, p), self.seq(st, p2)
        n0 = q.n
        self.setv(st, p, Seq(z3.simplify(n0 + b.n), lambda i: itev(i < n0, q.at(i), b.at(i - n0)), self.cat_init(q, b), elty=q.elty))
        self.setv(st, p2, Seq(iv(0), b.at, None, elty=b.elty))
        return UNIT

    def m_sum(self, st, info, args):
        v = self.val(st, args[0])
        if isinstance(v, Mat):
            return psum(v.r, lambda i: psum(v.c, lambda j: v.at(i, j)), v.at(fint(), fint()).sort())
        if isinstance(v, Vect):
            return psum(v.s.n, lambda i: self.sc(st, v.s.at(i)), self.sc(st, v.s.at(fint())).sort())
        it = self.it(st, args[0])
        self.check_items(st, it)
        p = it.pos
        so = self.sc(st, it.at(fint('pr'))).sort()
        return psum(z3.simplify(it.end - p), lambda i: self.sc(st, it.at(p + i)), so)

    def m_count(self, st, info, args):
        it = args[0]
        if isinstance(it, FiltIt):
            b = it.base
            self.check_items(st, b)
            p = b.pos
            return psum(z3.simplify(b.end - p), lambda i: z3.If(self.sc(st, it.pred(p + i)), iv(1), iv(0)), IntS)
        it = self.it(st, it)
        return z3.simplify(it.end - it.pos)

    def bulk_bool(self, st, info, args, alln):
        it = self.it(st, args[0])
        f = args[1]
        snap = st.copy()
        pred = lambda i: self.sc(snap, self.eng.pure_call(snap, lambda s: [o for s1, y in run_at(it.at, s, i) for o in self.callf(s1, f, [y], info)]))
        self.check_items(st, it, lambda s, y, i: self.callf(s, f, [y], info), info)
        rng = lambda i: z3.And(i >= it.pos, i < it.end)
        j = fint('wj')
        out = []
        # universal outcome
        s1 = st.copy()
        s1.assume(All(1, lambda i: z3.Implies(rng(i), pred(i) if alln else z3.Not(pred(i)))))
        out.append((s1, z3.BoolVal(alln)))
        s2 = st.copy()
        c = z3.And(rng(j), z3.Not(pred(j)) if alln else pred(j))
        if self.eng.pv.feasible(s2.hyps, c):
            s2.branch(c)
            out.append((s2, z3.BoolVal(not alln)))
        return out

    def m_all(self, st, info, args):
        return self.bulk_bool(st, info, args, True)

    def m_any(self, st, info, args):
        return self.bulk_bool(st, info, args, False)

    def m_fold(self, st, info, args):
        """fold whose step is acc + g(item)"""
        it = self.it(st, args[0])
        f = args[2]
        acc0 = args[1]
        if isz(strip(acc0)):
            acc0 = strip(acc0)
            a = PV.fresh('acc', acc0.sort())
            snap = st.copy()
            I = fint('fi')
            try:
                t = self.eng.pure_call(snap, lambda s: [o for s1, y in run_at(it.at, s, I) for o in self.callf(s1, f, [a, y], info)])
                t = self.sc(st, t)
                if acc0.sort() in (RealS, IntS):
                    from .sums import poly, Poly, unpoly
                    d = z3.simplify(t - a)
                    pd = unpoly(poly(d), acc0.sort())
                    if not mentions(pd, a):
                        def g(i):
                            v = self.eng.pure_call(snap, lambda s: [o for s1, y in run_at(it.at, s, i) for o in self.callf(s1, f, [a, y], info)])
                            return unpoly(poly(z3.simplify(self.sc(st, v) - a)), acc0.sort())
                        self.check_items(st, it, lambda s, y, i: self.callf(s, f, [a, y], info), info)
                        p = it.pos
                        return acc0 + psum(z3.simplify(it.end - p), lambda i: g(p + i), acc0.sort())
            except Unsupported as e:
                pass
        return self.gen_loop(st, it, info, lambda s, y, acc: self.callf(s, f, [acc, y], info), acc0)

    def m_for_each(self, st, info, args):
        it = self.it(st, args[0])
        f = args[1]
        return self.gen_loop(st, it, info, lambda s, y, acc: [(s2, UNIT) for s2, _ in self.callf(s, f, [y], info)], UNIT)

    def gen_loop(self, st, it, info, step, acc0):
        """a fold / for_each as a loop"""
        from .loops import LoopRun
        eng = self.eng
        cp = eng.newcell(st, It(it.at, it.pos, it.end, it.name))
        ca = eng.newcell(st, acc0)

        def runner(s):
            v = s.cells[cp]
            out = []
            for s1, t in self.fork(s, v.pos < v.end):
                if not t:
                    out.append(('exit', s1, None))
                    continue
                eng.setp(s1, cp, (), It(v.at, v.pos + 1, v.end, v.name))
                for s2, y in run_at(v.at, s1, v.pos):
                    for s3, a in step(s2, y, s2.cells[ca]):
                        eng.setp(s3, ca, (), a)
                        out.append(('back', s3))
            return out
        L = LoopRun(eng, None, None, None, st, runner, '%s %s' % (info.fr.fn.name, info.method))
        L.live = None
        L.fr = None
        outs = L.go()
        return [(o[1], o[1].cells[ca]) for o in outs if o[0] == 'exit']

    def m_call(self, st, info, args):
        f = self.val(st, args[0]) if not isinstance(args[0], Ptr) else args[0]
        a = strip(args[1])
        if not isinstance(a, Agg):
            raise Unsupported('arguments of a closure call')
        return self.eng.call_value(st, f, list(a.f), info.fr)

    m_call_mut = m_call
    m_call_once = m_call

    def m_len(self, st, info, args):
        if self.mp(st, args[0]):
            return self.listing(st, self.mp(st, args[0]))[0]
        v = self.val(st, args[0])
        if isinstance(v, It):
            return z3.simplify(v.end - v.pos)
        if isinstance(v, Agg) and v.ty == 'Range':
            return self.max_end(st, v.f[0], v.f[1]) - v.f[0]
        return self.seq(st, v).n

    def m_is_empty(self, st, info, args):
        if self.mp(st, args[0]):
            return self.listing(st, self.mp(st, args[0]))[0] == 0
        v = self.val(st, args[0])
        if isinstance(v, Mat):
            return z3.Or(v.r == 0, v.c == 0)
        if isinstance(v, It):
            return v.end <= v.pos
        return self.seq(st, v).n == 0

    def argext(self, st, q, gt):
        """position of an extreme item (first one), as rulinalg's argmax/argmin"""
        j = fint('arg')
        st.assume(z3.And(j >= 0, j < q.n))
        x = self.sc(st, q.at(j))
        cmp = (lambda a, b: a > b) if gt else (lambda a, b: a < b)
        st.assume(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < q.n), z3.Not(cmp(self.sc(st, q.at(i)), x)))))
        st.assume(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < j), cmp(x, self.sc(st, q.at(i))))))
        return Agg('()', [j, x])

    def m_argmax(self, st, info, args):
        q = self.seq(st, args[0])
        self.need(st, q.n > 0, 'argmax of an empty vector')
        return self.argext(st, q, True)

    def m_argmin(self, st, info, args):
        q = self.seq(st, args[0])
        self.need(st, q.n > 0, 'argmin of an empty vector')
        return self.argext(st, q, False)

    # ------------------------------------------------------------------ maps and sets with integer keys
    def listing(self, st, m):
        """the keys of a map, each once (in ascending order for the B-tree kinds)"""
        if m.listing is None:
            k = next(PV._cnt)
            m.listing = (z3.Int('entries!%d' % k), z3.Function('key!%d' % k, IntS, IntS), z3.Function('keypos!%d' % k, IntS, IntS))
        n, key, pos = m.listing
        st.assume(n >= 0)
        st.assume(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(m.has(key(i)), pos(key(i)) == i))))
        st.assume(All(1, lambda y: z3.Implies(m.has(y), z3.And(pos(y) >= 0, pos(y) < n, key(pos(y)) == y))))
        if m.kind.startswith('BTree'):
            st.assume(PV.triggered(All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < n), key(i) < key(j))), key))
        return n, key

    def newmap(self, info):
        pre = info.prefix or info.self or ''
        g = re.search(r'(BTree|Hash)(Map|Set)', pre)
        ty = None
        for t in (info.self, info.prefix):
            i = (t or '').find('<')
            if i >= 0:
                try:
                    a = [x for x in split_top(t[i + 1:M.match_close(t, i)]) if not x.startswith("'")]
                    ty = self.eng.type_of_text(info.fr, a[1])
                    break
                except Exception:
                    pass
        return MapV(g.group(1) + g.group(2), lambda y: z3.BoolVal(False), self.garbage(ty), ty)

    def mp(self, st, v):
        m = self.val(st, v)
        return m if isinstance(m, MapV) else None

    def key(self, st, v):
        k = self.sc(st, v)
        if k.sort() != IntS:
            raise Unsupported('map key of sort %s' % k.sort())
        return k

    def map_insert(self, st, args):
        p = self.ptr(st, args[0])
        m, k = self.mp(st, p), self.key(st, args[1])
        out = []
        for s, t in self.fork(st, m.has(k)):
            old = m.get(k)
            if m.kind.endswith('Set'):
                if not t:
                    self.setv(s, p, m.put(k, UNIT))
                out.append((s, z3.BoolVal(not t)))
            else:
                self.setv(s, p, m.put(k, args[2]))
                out.append((s, Opt(old) if t else NONE))
        return out

    def m_contains_key(self, st, info, args):
        m = self.mp(st, args[0])
        return m.has(self.key(st, args[1])) if m else OTHER

    def map_get(self, st, args, mut=False):
        m, k = self.mp(st, args[0]), self.key(st, args[1])
        p = self.ptr(st, args[0]) if mut else None
        return [(s, (Opt(Ptr(p.cell, list(p.path) + [('key', k)]) if mut else Ref(m.get(k))) if t else NONE)) for s, t in self.fork(st, m.has(k))]

    def m_entry(self, st, info, args):
        p = self.ptr(st, args[0])
        if self.mp(st, p) is None:
            return OTHER
        return Agg('MapEntry', (p, self.key(st, args[1])))

    def entry_or(self, st, e, f):
        e = strip(e)
        if not (isinstance(e, Agg) and e.ty == 'MapEntry'):
            return OTHER
        p, k = e.f
        m = self.mp(st, p)
        out = []
        for s, t in self.fork(st, m.has(k)):
            for s2, v in ([(s, None)] if t else f(s)):
                if not t:
                    self.setv(s2, p, self.mp(s2, p).put(k, v))
                out.append((s2, Ptr(p.cell, list(p.path) + [('key', k)])))
        return out

    def m_or_insert(self, st, info, args):
        return self.entry_or(st, args[0], lambda s: [(s, args[1])])

    def m_or_insert_with(self, st, info, args):
        return self.entry_or(st, args[0], lambda s: self.callf(s, args[1], [], info))

    def m_or_default(self, st, info, args):
        e = strip(args[0])
        m = self.mp(st, e.f[0])
        if m.valty is None or m.valty[0] not in ('int', 'float'):
            raise Unsupported('default of a map value')
        return self.entry_or(st, args[0], lambda s: [(s, iv(0) if m.valty[0] == 'int' else R0)])

    def m_keys(self, st, info, args):
        m = self.mp(st, args[0])
        if m is None:
            return OTHER
        n, key = self.listing(st, m)
        return It(AtFn(lambda i: Ref(key(i))), iv(0), n, 'iter')

    def m_values(self, st, info, args):
        m = self.mp(st, args[0])
        if m is None:
            return OTHER
        n, key = self.listing(st, m)
        return It(AtFn(lambda i: Ref(m.get(key(i)))), iv(0), n, 'iter')

    def m_dedup(self, st, info, args):
        """every run of equal neighbours becomes one item"""
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        k = next(PV._cnt)
        n = z3.Int('runs!%d' % k)
        F, G = z3.Function('run!%d' % k, IntS, IntS), z3.Function('runof!%d' % k, IntS, IntS)
        r = Seq(n, lambda i: q.at(F(i)), elty=q.elty)
        st.assume(z3.And(n >= 0, n <= q.n, (n == 0) == (q.n == 0)))
        st.assume(PV.triggered(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(F(i) >= i, F(i) < q.n, G(F(i)) == i))), F))
        st.assume(PV.triggered(All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < n), F(i) < F(j))), F))
        st.assume(PV.avoiding(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < q.n), z3.And(G(i) >= 0, G(i) < n, eqv(r.at(G(i)), q.at(i))))), F, G))
        st.assume(PV.triggered(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n - 1), z3.Not(eqv(r.at(i), r.at(i + 1))))), F))
        self.setv(st, p, r)
        return UNIT

    # ------------------------------------------------------------------ Vec / slices
    def empty(self, info):
        ty = self.eltype(info)
        return Seq(iv(0), self.garbage(ty), None, elty=ty)

    def m_new(self, st, info, args):
        pre = info.prefix or info.self or ''
        if re.search(r'\bVec(Deque)?::?<|::Vec$|VecDeque', pre) and not args:
            return self.empty(info)
        if re.search(r'(BTree|Hash)(Map|Set)', pre) and not args:
            return self.newmap(info)
        if 'boxed::Box' in pre:
            return BoxV(args[0])
        if 'vector::Vector' in pre:
            v = args[0]
            return Vect(self.seq(st, v))
        if re.search(r'matrix::Matrix(::|$)', pre):
            r, c = self.sc(st, args[0]), self.sc(st, args[1])
            q = self.seq(st, args[2])
            self.need(st, q.n == r * c, 'matrix data has rows*cols entries')
            if q.init is not None and not self.eng.dry:
                i = fint('ii')
                s2 = st.copy()
                s2.assume(z3.And(i >= 0, i < q.n))
                self.eng.require(s2, q.init(i), 'uninit', 'reads only written memory')
            return self.unflatten(r, c, q)
        if 'RangeInclusive' in pre:
            a, b = self.sc(st, args[0]), self.sc(st, args[1])
            return It(AtFn(lambda i: i), a, self.max_end(st, a, b + 1), 'range')
        if re.search(r'error::Error', pre):
            return Agg('Error', [z3.Const('err!%d' % next(PV._cnt), self.eng_sort('Error'))])
        if 'distributions::Normal' in pre:
            self.need(st, self.sc(st, args[1]) >= 0, 'Normal::new with a negative deviation')
            return Agg('Normal', [self.sc(st, args[0]), self.sc(st, args[1])])
        if 'std::fmt' in pre or 'core::fmt' in pre:
            return Agg('Arguments', ())
        return OTHER

    def eng_sort(self, n):
        from .sym import opaque_sort
        return opaque_sort(n)

    def m_with_capacity(self, st, info, args):
        if re.search(r'(BTree|Hash)(Map|Set)', info.prefix or info.self or ''):
            return self.newmap(info)
        return self.empty(info)

    def m_from_elem(self, st, info, args):
        v, n = args[0], self.sc(st, args[1])
        ty = None
        if isinstance(v, Enum):
            # the other variants' payloads come with the type
            if not info.gen:
                raise Unsupported('elements of an unknown type')
            ty = self.eng.type_of_text(info.fr, info.gen[0])
        return Seq(n, lambda i: v, elty=ty)

    def m_reserve(self, st, info, args):
        return UNIT
    m_shrink_to_fit = m_reserve
    m_reserve_exact = m_reserve

    def m_set_len(self, st, info, args):
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        n = self.sc(st, args[1])
        n0 = z3.simplify(q.n)
        if z3.is_true(z3.simplify(n <= n0)):
            self.setv(st, p, Seq(n, q.at, q.init, elty=q.elty))
            return UNIT
        g = self.garbage(q.elty, 'uninit')
        if z3.is_int_value(n0) and n0.as_long() == 0:
            self.setv(st, p, Seq(n, g, lambda i: z3.BoolVal(False), elty=q.elty))
        else:
            self.setv(st, p, Seq(n, lambda i: itev(i < n0, q.at(i), g(i)), lambda i: z3.And(i < n0, q.inited(i)), elty=q.elty))
        return UNIT

    def m_push(self, st, info, args):
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        v = args[1]
        n = q.n
        nn = z3.simplify(n)
        if z3.is_int_value(nn) and nn.as_long() == 0:
            r = Seq(iv(1), lambda i: v, None, elty=q.elty)
        else:
            init = None
            if q.init is not None:
                init = lambda i: z3.Or(i == n, q.init(i))
            r = Seq(z3.simplify(n + 1), lambda i: itev(i == n, v, q.at(i)), init, elty=q.elty)
        self.setv(st, p, r)
        return UNIT
    m_push_back = m_push

    def m_push_front(self, st, info, args):
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        v = args[1]
        self.setv(st, p, Seq(q.n + 1, lambda i: itev(i == 0, v, q.at(i - 1)), None, elty=q.elty))
        return UNIT

    def m_pop(self, st, info, args):
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        out = []
        for s, t in self.fork(st, q.n > 0):
            if t:
                x = self.eng.step(s, q, ('i', q.n - 1))
                self.setv(s, p, Seq(q.n - 1, q.at, q.init, elty=q.elty))
                out.append((s, Opt(x)))
            else:
                out.append((s, NONE))
        return out

    def m_pop_front(self, st, info, args):
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        out = []
        for s, t in self.fork(st, q.n > 0):
            if t:
                self.setv(s, p, q.sub(iv(1), q.n - 1))
                out.append((s, Opt(q.at(iv(0)))))
            else:
                out.append((s, NONE))
        return out

    def m_clear(self, st, info, args):
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        self.setv(st, p, Seq(iv(0), q.at, None, elty=q.elty))
        return UNIT

    def m_truncate(self, st, info, args):
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        n = self.sc(st, args[1])
        self.setv(st, p, Seq(self.zmin(st, n, q.n), q.at, q.init, elty=q.elty))
        return UNIT

    def m_insert(self, st, info, args):
        if self.mp(st, args[0]):
            return self.map_insert(st, args)
        if len(args) != 3:
            return OTHER
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        k = self.sc(st, args[1])
        v = args[2]
        self.need(st, z3.And(k >= 0, k <= q.n), 'insertion index')
        self.setv(st, p, Seq(q.n + 1, lambda i: itev(i == k, v, itev(i < k, q.at(i), q.at(i - 1))), None, elty=q.elty))
        return UNIT

    def m_remove(self, st, info, args):
        if self.mp(st, args[0]):
            p = self.ptr(st, args[0])
            m, k = self.mp(st, p), self.key(st, args[1])
            out = []
            for s, t in self.fork(st, m.has(k)):
                self.setv(s, p, m.drop(k))
                out.append((s, z3.BoolVal(t) if m.kind.endswith('Set') else Opt(m.get(k)) if t else NONE))
            return out
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        k = self.sc(st, args[1])
        self.need(st, z3.And(k >= 0, k < q.n), 'removal index')
        x = q.at(k)
        init = None if q.init is None else (lambda i: z3.If(i < k, q.init(i), q.init(i + 1)))
        self.setv(st, p, Seq(q.n - 1, lambda i: itev(i < k, q.at(i), q.at(i + 1)), init, elty=q.elty))
        return x

    def m_swap_remove(self, st, info, args):
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        k = self.sc(st, args[1])
        self.need(st, z3.And(k >= 0, k < q.n), 'removal index')
        x = q.at(k)
        la = q.at(q.n - 1)
        init = None if q.init is None else (lambda i: z3.If(i == k, q.init(q.n - 1), q.init(i)))
        self.setv(st, p, Seq(q.n - 1, lambda i: itev(i == k, la, q.at(i)), init, elty=q.elty))
        return x

    def m_swap(self, st, info, args):
        if len(args) == 2:
            p, q = self.ptr(st, args[0]), self.ptr(st, args[1])
            a, b = self.eng.getp(st, p.cell, p.path), self.eng.getp(st, q.cell, q.path)
            self.setv(st, p, b)
            self.setv(st, q, a)
            return UNIT
        p = self.ptr(st, args[0])
        v = self.val(st, p)
        q = self.seq(st, v)
        a, b = self.sc(st, args[1]), self.sc(st, args[2])
        self.need(st, z3.And(a >= 0, a < q.n), 'swap index in range', 'bounds')
        self.need(st, z3.And(b >= 0, b < q.n), 'swap index in range', 'bounds')
        x, y = q.at(a), q.at(b)
        init = None
        if q.init is not None:
            init = lambda i: z3.If(i == a, q.init(b), z3.If(i == b, q.init(a), q.init(i)))
        r = Seq(q.n, lambda i: itev(i == a, y, itev(i == b, x, q.at(i))), init, elty=q.elty)
        self.setv(st, p, Vect(r) if isinstance(v, Vect) else r)
        return UNIT

    def m_replace(self, st, info, args):
        p = self.ptr(st, args[0])
        old = self.eng.getp(st, p.cell, p.path)
        self.setv(st, p, args[1])
        return old

    def sorted_by(self, st, info, args, cmp, stable):
        """a rearrangement (bijection) of the items, in the order of cmp (an obligation: cmp is a total preorder)"""
        eng = self.eng
        p = self.ptr(st, args[0])
        v = self.val(st, p)
        q = self.seq(st, v)
        n = q.n
        if not eng.dry:
            s = st.copy()
            a, b, c = fint('sa'), fint('sb'), fint('sc')
            for x in (a, b, c):
                s.assume(z3.And(x >= 0, x < n))
            # no panic inside, then total and transitive
            outs = cmp(s.copy(), q.at(a), q.at(b))
            le = lambda x, y: self.le_of(eng.pure_call(s, lambda s2: cmp(s2, q.at(x), q.at(y))))
            eng.require(s, z3.Or(le(a, b), le(b, a)), 'pre', 'sorting order is total')
            eng.require(s, z3.Implies(z3.And(le(a, b), le(b, c)), le(a, c)), 'pre', 'sorting order is transitive')
        k = next(PV._cnt)
        P, S = z3.Function('perm!%d' % k, IntS, IntS), z3.Function('permi!%d' % k, IntS, IntS)
        inr = lambda i: z3.And(i >= 0, i < n)
        r = Seq(n, lambda i: q.at(P(i)), elty=q.elty)
        st.assume(PV.triggered(All(1, lambda i: z3.Implies(inr(i), z3.And(inr(P(i)), S(P(i)) == i))), P))
        st.assume(PV.avoiding(All(1, lambda i: z3.Implies(inr(i), z3.And(inr(S(i)), P(S(i)) == i))), P, S))
        leq = lambda x, y: self.le_of(eng.pure_call(st, lambda s2: cmp(s2, x, y)))
        st.assume(PV.triggered(All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < n), leq(r.at(i), r.at(j)))), P))
        if stable:
            st.assume(PV.triggered(All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < n, leq(r.at(j), r.at(i))), P(i) < P(j))), P))
        self.setv(st, p, Vect(r) if isinstance(v, Vect) else r)
        return UNIT

    def le_of(self, o):
        o = strip(o)
        return z3.BoolVal(o.disc <= 0) if isinstance(o.disc, int) else o.disc <= 0

    def m_sort_by(self, st, info, args):
        f = args[1]
        return self.sorted_by(st, info, args, lambda s, x, y: self.callf(s, f, [Ref(x), Ref(y)], info), True)

    def m_sort_unstable_by(self, st, info, args):
        f = args[1]
        return self.sorted_by(st, info, args, lambda s, x, y: self.callf(s, f, [Ref(x), Ref(y)], info), False)

    def m_sort(self, st, info, args):
        return self.sorted_by(st, info, args, lambda s, x, y: [(s, self.m_cmp(s, info, [x, y]))], False)
    m_sort_unstable = m_sort

    def m_total_cmp(self, st, info, args):
        return self.m_cmp(st, info, args)

    def m_reverse(self, st, info, args):
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        self.setv(st, p, Seq(q.n, lambda i: q.at(q.n - 1 - i), None if q.init is None else (lambda i: q.init(q.n - 1 - i)), elty=q.elty))
        return UNIT

    def m_swap_rows(self, st, info, args):
        p = self.ptr(st, args[0])
        m = self.val(st, p)
        a, b = self.sc(st, args[1]), self.sc(st, args[2])
        self.need(st, z3.And(a >= 0, a < m.r, b >= 0, b < m.r), 'row index in range', 'bounds')
        self.setv(st, p, Mat(m.r, m.c, lambda i, j: itev(i == a, m.at(b, j), itev(i == b, m.at(a, j), m.at(i, j))), m.kind))
        return UNIT

    def m_swap_cols(self, st, info, args):
        p = self.ptr(st, args[0])
        m = self.val(st, p)
        a, b = self.sc(st, args[1]), self.sc(st, args[2])
        self.need(st, z3.And(a >= 0, a < m.c, b >= 0, b < m.c), 'column index in range', 'bounds')
        self.setv(st, p, Mat(m.r, m.c, lambda i, j: itev(j == a, m.at(i, b), itev(j == b, m.at(i, a), m.at(i, j))), m.kind))
        return UNIT

    def m_to_vec(self, st, info, args):
        q = self.seq(st, args[0])
        return Seq(q.n, q.at, q.init, elty=q.elty)
    m_to_owned = m_to_vec
    m_into_vec = m_to_vec

    def m_clone(self, st, info, args):
        v = self.val(st, args[0])
        if isinstance(v, (Ptr,)):
            raise Unsupported('clone of a mutable reference')
        if isinstance(v, Agg) and self.eng.src.bylast.get(v.ty):
            return OTHER
        if isinstance(v, Mat):
            return Mat(v.r, v.c, v.at, 'Matrix' if v.kind == 'Matrix' else v.kind)
        return v

    def m_clone_from(self, st, info, args):
        self.setv(st, self.ptr(st, args[0]), self.val(st, args[1]))
        return UNIT

    def m_deref(self, st, info, args):
        v = args[0]
        x = self.val(st, v)
        if isinstance(x, Mat) and x.kind in ('Row', 'RowMut', 'Column'):
            return Ref(x)
        return Ref(x)
    m_borrow = m_deref
    m_as_slice_ = m_deref

    def m_deref_mut(self, st, info, args):
        return self.ptr(st, args[0])
    m_as_mut_slice = m_deref_mut
    m_borrow_mut = m_deref_mut

    def m_as_slice(self, st, info, args):
        x = self.val(st, args[0])
        return x if isinstance(x, Mat) else Ref(x)

    def m_as_mut(self, st, info, args):
        p = self.ptr(st, args[0])
        v = self.val(st, p)
        if isinstance(v, Enum) and v.ty == 'Option':
            return Enum('Option', v.disc, {0: (), 1: (Ptr(p.cell, list(p.path) + [('v', 'Some'), ('f', 0)]),)})
        return p

    def m_as_ref(self, st, info, args):
        v = self.val(st, args[0])
        if isinstance(v, Enum):
            return Enum(v.ty, v.disc, {k: tuple(Ref(x) for x in p) for k, p in v.pay.items()})
        return Ref(v)

    def m_into(self, st, info, args):
        v = args[0]
        d = info.dest
        x = self.val(st, v)
        if isinstance(x, (Seq, Vect)):
            if d[0] == 'adt' and d[1].endswith('Vector'):
                return Vect(self.seq(st, x))
            if d[0] == 'adt' and d[1].endswith('Vec'):
                return self.seq(st, x)
        if isz(x):
            return x
        if isinstance(x, Agg):
            return x
        return OTHER

    def m_from(self, st, info, args):
        x = self.val(st, args[0])
        pre = info.self or ''
        if 'Vector' in pre and isinstance(x, (Seq, Vect)):
            return Vect(self.seq(st, x))
        if re.search(r'Vec<', pre) and isinstance(x, Seq):
            return x
        if pre in ('f64',) and isz(x):
            return z3.ToReal(x) if x.sort() == IntS else x
        if 'boxed::Box' in pre:
            return Agg('Box<Error>', ())
        if 'error::Error' in pre or 'String' in pre:
            return Agg('Error', ())
        if isz(x):
            return Opt(z3.ToReal(x) if x.sort() == IntS else x) if info.trait and 'NumCast' in info.trait else x
        return OTHER

    def rng(self, st, q, r):
        """range value -> (start, length) with bounds obligations"""
        n = q.n
        if r.ty == 'RangeFull':
            return iv(0), n
        if r.ty == 'Range':
            a, b = r.f
        elif r.ty == 'RangeFrom':
            a, b = r.f[0], n
        elif r.ty == 'RangeTo':
            a, b = iv(0), r.f[0]
        elif r.ty == 'RangeToInclusive':
            a, b = iv(0), r.f[0] + 1
        else:
            raise Unsupported('slice by ' + str(r.ty))
        self.need(st, z3.And(a >= 0, a <= b), 'slice index start <= end', 'bounds')
        self.need(st, b <= n, 'slice index end <= len', 'bounds')
        return a, z3.simplify(b - a)

    def m_index(self, st, info, args):
        if self.mp(st, args[0]):
            m, k = self.mp(st, args[0]), self.key(st, args[1])
            self.need(st, m.has(k), 'key of the map')
            return Ref(m.get(k))
        v = self.val(st, args[0])
        ix = self.val(st, args[1])
        if isinstance(v, Mat):
            if isinstance(ix, Seq):
                i, j = ix.at(iv(0)), ix.at(iv(1))
                self.need(st, z3.And(i >= 0, i < v.r), 'row index in range', 'bounds')
                self.need(st, z3.And(j >= 0, j < v.c), 'column index in range', 'bounds')
                return Ref(v.at(i, j))
            if isz(ix) and (v.kind == 'Row' or z3.is_int_value(v.r) and v.r.as_long() == 1):
                self.need(st, z3.And(ix >= 0, ix < v.c), 'column index in range', 'bounds')
                return Ref(v.at(iv(0), ix))
            raise Unsupported('matrix index')
        q = self.seq(st, v)
        if isinstance(ix, Agg):
            a, n = self.rng(st, q, ix)
            if z3.is_int_value(a) and a.as_long() == 0 and n.get_id() == q.n.get_id():
                return Ref(q)
            return Ref(q.sub(a, n))
        if isinstance(ix, It):
            a, b = ix.pos, ix.end
            self.need(st, z3.And(a >= 0, a <= b, b <= q.n), 'slice index in range', 'bounds')
            return Ref(q.sub(a, b - a))
        self.need(st, z3.And(ix >= 0, ix < q.n), 'index in range', 'bounds')
        return Ref(self.eng.step(st, q, ('i', ix)))

    def m_index_mut(self, st, info, args):
        p = self.ptr(st, args[0])
        v = self.val(st, p)
        ix = self.val(st, args[1])
        if isinstance(v, Mat):
            if isinstance(ix, Seq):
                i, j = ix.at(iv(0)), ix.at(iv(1))
                self.need(st, z3.And(i >= 0, i < v.r), 'row index in range', 'bounds')
                self.need(st, z3.And(j >= 0, j < v.c), 'column index in range', 'bounds')
                return Ptr(p.cell, list(p.path) + [('el', i, j)])
            if isz(ix):
                self.need(st, z3.And(ix >= 0, ix < v.c), 'column index in range', 'bounds')
                return Ptr(p.cell, self.rowpath(p.path) + [('iw', ix)])
            raise Unsupported('matrix index')
        q = self.seq(st, v)
        if isinstance(ix, Agg):
            a, n = self.rng(st, q, ix)
            return Ptr(p.cell, list(p.path) + [('sub', a, n)])
        self.need(st, z3.And(ix >= 0, ix < q.n), 'index in range', 'bounds')
        return Ptr(p.cell, list(p.path) + [('iw', ix)])

    def m_get_unchecked(self, st, info, args):
        v = self.val(st, args[0])
        ix = self.val(st, args[1])
        if isinstance(v, Mat):
            i, j = ix.at(iv(0)), ix.at(iv(1))
            self.eng.require(st, z3.And(i >= 0, i < v.r, j >= 0, j < v.c), 'unsafe', 'unchecked index in range')
            return Ref(v.at(i, j))
        q = self.seq(st, v)
        if not isz(ix):
            return OTHER
        self.eng.require(st, z3.And(ix >= 0, ix < q.n), 'unsafe', 'unchecked index in range')
        return Ref(self.eng.step(st, q, ('i', ix)))

    def m_get_unchecked_mut(self, st, info, args):
        p = self.ptr(st, args[0])
        v = self.val(st, p)
        ix = self.val(st, args[1])
        if isinstance(v, Mat):
            i, j = ix.at(iv(0)), ix.at(iv(1))
            self.eng.require(st, z3.And(i >= 0, i < v.r, j >= 0, j < v.c), 'unsafe', 'unchecked index in range')
            return Ptr(p.cell, list(p.path) + [('el', i, j)])
        q = self.seq(st, v)
        self.eng.require(st, z3.And(ix >= 0, ix < q.n), 'unsafe', 'unchecked index in range')
        return Ptr(p.cell, list(p.path) + [('iw', ix)])

    def m_get(self, st, info, args):
        if self.mp(st, args[0]):
            return self.map_get(st, args)
        v = self.val(st, args[0])
        ix = self.val(st, args[1])
        q = self.seq(st, v)
        if not isz(ix):
            return OTHER
        out = []
        for s, t in self.fork(st, z3.And(ix >= 0, ix < q.n)):
            out.append((s, Opt(Ref(self.eng.step(s, q, ('i', ix)))) if t else NONE))
        return out

    def m_get_mut(self, st, info, args):
        if self.mp(st, args[0]):
            return self.map_get(st, args, True)
        p = self.ptr(st, args[0])
        ix = self.val(st, args[1])
        q = self.seq(st, p)
        if not isz(ix):
            return OTHER
        out = []
        for s, t in self.fork(st, z3.And(ix >= 0, ix < q.n)):
            out.append((s, Opt(Ptr(p.cell, list(p.path) + [('iw', ix)])) if t else NONE))
        return out

    def m_first(self, st, info, args):
        q = self.seq(st, args[0])
        return [(s, Opt(Ref(self.eng.step(s, q, ('i', iv(0))))) if t else NONE) for s, t in self.fork(st, q.n > 0)]

    def m_last(self, st, info, args):
        q = self.seq(st, args[0])
        return [(s, Opt(Ref(self.eng.step(s, q, ('i', q.n - 1)))) if t else NONE) for s, t in self.fork(st, q.n > 0)]

    def m_split_first(self, st, info, args):
        q = self.seq(st, args[0])
        return [(s, Opt(Agg('()', [Ref(q.at(iv(0))), Ref(q.sub(iv(1), q.n - 1))])) if t else NONE) for s, t in self.fork(st, q.n > 0)]

    def m_split_at(self, st, info, args):
        q = self.seq(st, args[0])
        k = self.sc(st, args[1])
        self.need(st, z3.And(k >= 0, k <= q.n), 'split index in range', 'bounds')
        return Agg('()', [Ref(q.sub(iv(0), k)), Ref(q.sub(k, z3.simplify(q.n - k)))])

    def m_split_at_mut(self, st, info, args):
        p = self.ptr(st, args[0])
        q = self.seq(st, p)
        k = self.sc(st, args[1])
        self.need(st, z3.And(k >= 0, k <= q.n), 'split index in range', 'bounds')
        return Agg('()', [Ptr(p.cell, list(p.path) + [('sub', iv(0), k)]), Ptr(p.cell, list(p.path) + [('sub', k, z3.simplify(q.n - k))])])

    def m_copy_from_slice(self, st, info, args):
        p = self.ptr(st, args[0])
        q, b = self.seq(st, p), self.seq(st, args[1])
        self.need(st, q.n == b.n, 'copy_from_slice of equal lengths')
        self.setv(st, p, Seq(q.n, b.at, b.init, elty=q.elty))
        return UNIT
    m_clone_from_slice = m_copy_from_slice

    def m_contains(self, st, info, args):
        if self.mp(st, args[0]):
            return self.mp(st, args[0]).has(self.key(st, args[1]))
        if 'Range' in (info.prefix or '') or 'Map' in (info.prefix or ''):
            return OTHER
        q = self.seq(st, args[0])
        x = self.val(st, args[1])
        j = fint('cj')
        s1, s2 = st.copy(), st.copy()
        s1.branch(z3.And(j >= 0, j < q.n, eqv(q.at(j), x)))
        s2.assume(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < q.n), z3.Not(eqv(q.at(i), x)))))
        return [(s1, TRUE), (s2, z3.BoolVal(False))]

    def m_windows(self, st, info, args):
        q = self.seq(st, args[0])
        k = self.sc(st, args[1])
        self.need(st, k > 0, 'window size is positive')
        n = z3.If(q.n >= k, q.n - k + 1, iv(0))
        return It(AtFn(lambda i: Ref(q.sub(i, k))), iv(0), n, 'windows')

    # boxes of arrays: vec![a, b, c]
    def m_new_uninit(self, st, info, args):
        return BoxV(Agg('MaybeUninit', [UNIT, Agg('ManuallyDrop', [Agg('MaybeDangling', [UNINIT])])]))

    def m_box_assume_init_into_vec_unsafe(self, st, info, args):
        v = args[0]
        x = v.v
        while isinstance(x, Agg):
            x = x.f[1] if x.ty == 'MaybeUninit' else x.f[0]
        return x

    def m_must_use(self, st, info, args):
        return args[0]
    m_black_box = m_must_use

    def m_as_ptr(self, st, info, args):
        v = args[0]
        x = self.val(st, v)
        return RawP(self.seq(st, x), iv(0))

    def m_offset(self, st, info, args):
        p = args[0]
        if not isinstance(p, RawP):
            return OTHER
        o = self.sc(st, args[1])
        off = z3.simplify(p.off + o)
        self.eng.require(st, z3.And(off >= 0, off <= p.seq.n), 'unsafe', 'pointer offset stays in the buffer')
        return RawP(p.seq, off, p.ptr)
    m_add_ = m_offset

    # ------------------------------------------------------------------ Option / Result
    def opt_map(self, st, v, f, info):
        some = 1 if v.ty == 'Option' else 0
        out = []
        for s, t in self.fork(st, v.is_(some)):
            if t:
                for s2, y in self.callf(s, f, [v.pay[some][0]], info):
                    out.append((s2, Enum(v.ty, some, {some: (y,)})))
            else:
                o = 1 - some
                out.append((s, Enum(v.ty, o, {o: v.pay.get(o, ())})))
        return out

    def m_map_err(self, st, info, args):
        v = args[0]
        out = []
        for s, t in self.fork(st, v.is_(0)):
            if t:
                out.append((s, Enum('Result', 0, {0: v.pay[0]})))
            else:
                try:
                    r = self.callf(s, args[1], [v.pay.get(1, (UNIT,))[0]], info)
                except Unsupported:
                    r = [(s, Agg('Error', ()))]
                for s2, y in r:
                    out.append((s2, Enum('Result', 1, {1: (y,)})))
        return out

    def m_and_then(self, st, info, args):
        v = args[0]
        some = 1 if v.ty == 'Option' else 0
        out = []
        for s, t in self.fork(st, v.is_(some)):
            if t:
                out += self.callf(s, args[1], [v.pay[some][0]], info)
            else:
                o = 1 - some
                out.append((s, Enum(v.ty, o, {o: v.pay.get(o, ())})))
        return out

    def m_unwrap(self, st, info, args):
        v = args[0]
        if not isinstance(v, Enum):
            return OTHER
        some = 1 if v.ty == 'Option' else 0
        self.need(st, v.is_(some), 'unwrap of a missing value')
        return v.pay[some][0] if some in v.pay else []

    def m_expect(self, st, info, args):
        return self.m_unwrap(st, info, args)
    m_unwrap_unchecked = m_unwrap

    def m_unwrap_or(self, st, info, args):
        v = args[0]
        some = 1 if v.ty == 'Option' else 0
        return [(s, v.pay[some][0] if t else args[1]) for s, t in self.fork(st, v.is_(some))]

    def m_unwrap_or_else(self, st, info, args):
        v = args[0]
        some = 1 if v.ty == 'Option' else 0
        out = []
        for s, t in self.fork(st, v.is_(some)):
            if t:
                out.append((s, v.pay[some][0]))
            else:
                out += self.callf(s, args[1], [] if some == 1 else [v.pay.get(1, (UNIT,))[0]], info)
        return out

    def m_map_or(self, st, info, args):
        v = args[0]
        some = 1 if v.ty == 'Option' else 0
        out = []
        for s, t in self.fork(st, v.is_(some)):
            if t:
                out += self.callf(s, args[2], [v.pay[some][0]], info)
            else:
                out.append((s, args[1]))
        return out

    def m_ok_or(self, st, info, args):
        v = args[0]
        return [(s, Enum('Result', 0, {0: v.pay[1]}) if t else Enum('Result', 1, {1: (args[1],)})) for s, t in self.fork(st, v.is_(1))]

    def m_ok_or_else(self, st, info, args):
        v = args[0]
        out = []
        for s, t in self.fork(st, v.is_(1)):
            if t:
                out.append((s, Enum('Result', 0, {0: v.pay[1]})))
            else:
                for s2, e in self.callf(s, args[1], [], info):
                    out.append((s2, Enum('Result', 1, {1: (e,)})))
        return out

    def m_is_some(self, st, info, args):
        return self.val(st, args[0]).is_(1)

    def m_is_none(self, st, info, args):
        return self.val(st, args[0]).is_(0)

    def m_is_ok(self, st, info, args):
        return self.val(st, args[0]).is_(0)

    def m_is_err(self, st, info, args):
        return self.val(st, args[0]).is_(1)

    def m_ok(self, st, info, args):
        v = args[0]
        return [(s, Opt(v.pay[0][0]) if t else NONE) for s, t in self.fork(st, v.is_(0))]

    def m_branch(self, st, info, args):
        v = args[0]
        some = 1 if v.ty == 'Option' else 0
        out = []
        for s, t in self.fork(st, v.is_(some)):
            if t:
                out.append((s, Enum('ControlFlow', 0, {0: (v.pay[some][0],)})))
            else:
                o = 1 - some
                out.append((s, Enum('ControlFlow', 1, {1: (Enum(v.ty, o, {o: v.pay.get(o, ())}),)})))
        return out

    def m_from_residual(self, st, info, args):
        v = args[0]
        return v

    def m_from_output(self, st, info, args):
        return Enum('Result', 0, {0: (args[0],)})

    def m_default(self, st, info, args):
        t = info.self or ''
        if t.startswith('std::option::Option'):
            return NONE
        if t.startswith('std::vec::Vec'):
            return self.empty(info)
        if t in ('f64', 'f32'):
            return R0
        if t in ('usize', 'u64', 'i32', 'u32', 'i64'):
            return iv(0)
        if t == 'bool':
            return z3.BoolVal(False)
        return OTHER

    # ------------------------------------------------------------------ random source
    def m_thread_rng(self, st, info, args):
        return Agg('ThreadRng', ())
    m_weak_rng = m_thread_rng

    def m_gen_range(self, st, info, args):
        lo, hi = self.sc(st, args[1]), self.sc(st, args[2])
        self.need(st, lo < hi, 'gen_range needs low < high')
        d = PV.fresh('draw', lo.sort())
        st.assume(z3.And(lo <= d, d < hi))
        st.draws.append(('range', lo, hi, d))
        if 'W' in st.ghost and lo.sort() == IntS:
            st.ghost['W'] = st.ghost['W'] * z3.simplify(hi - lo)
        if 'ND' in st.ghost:
            st.ghost['ND'] = st.ghost['ND'] + 1
        return d

    def m_gen(self, st, info, args):
        g = info.gen[0] if info.gen else ''
        x = PV.fresh('variate', RealS)
        for nm in ('Exp1', 'StandardNormal'):
            if g.endswith(nm):
                st.draws.append((nm, x))
                return Agg(nm, [x])
        if g == 'f64':
            st.assume(z3.And(x >= 0, x < 1))
            st.draws.append(('unit', x))
            return x
        return OTHER

    def m_sample(self, st, info, args):
        v = self.val(st, args[0])
        if isinstance(v, Agg) and v.ty == 'Normal':
            x = PV.fresh('variate', RealS)
            st.draws.append(('StandardNormal', x))
            return v.f[0] + v.f[1] * x
        return OTHER
    m_ind_sample = m_sample

    # ------------------------------------------------------------------ scalars
    def real(self, st, v):
        x = self.sc(st, v)
        if x.sort() == IntS:
            raise Unsupported('float method on integer')
        return x

    def m_exp(self, st, info, args):
        return f1('exp', self.real(st, args[0]))

    def m_ln(self, st, info, args):
        return f1('ln', self.real(st, args[0]))

    def m_exp_m1(self, st, info, args):
        return f1('exp', self.real(st, args[0])) - 1

    def m_ln_1p(self, st, info, args):
        return f1('ln', 1 + self.real(st, args[0]))

    def m_sqrt(self, st, info, args):
        return f1('sqrt', self.real(st, args[0]))

    def m_tanh(self, st, info, args):
        return f1('tanh', self.real(st, args[0]))

    def m_cosh(self, st, info, args):
        x = self.real(st, args[0])
        return (f1('exp', x) + f1('exp', -x)) / 2

    def m_sinh(self, st, info, args):
        x = self.real(st, args[0])
        return (f1('exp', x) - f1('exp', -x)) / 2

    def m_atanh(self, st, info, args):
        x = self.real(st, args[0])
        return f1('ln', (1 + x) / (1 - x)) / 2

    def m_sin(self, st, info, args):
        return f1('sin', self.real(st, args[0]))

    def m_cos(self, st, info, args):
        return f1('cos', self.real(st, args[0]))

    def m_powf(self, st, info, args):
        x, y = self.real(st, args[0]), self.real(st, args[1])
        from .sums import frac
        c = frac(z3.simplify(y))
        if c is not None and c.denominator == 1 and 0 <= c <= 4:
            return self.ipow(x, int(c))
        if c is not None and c == 1 / 2:
            return f1('sqrt', x)
        return f2('powf', x, y)

    def ipow(self, x, n):
        r = R1 if x.sort() == RealS else iv(1)
        for _ in range(n):
            r = r * x
        return r

    def m_powi(self, st, info, args):
        x = self.real(st, args[0])
        n = z3.simplify(self.sc(st, args[1]))
        if not z3.is_int_value(n) or abs(n.as_long()) > 6:
            raise Unsupported('powi with variable exponent')
        k = n.as_long()
        return self.ipow(x, k) if k >= 0 else R1 / self.ipow(x, -k)

    def m_pow(self, st, info, args):
        x = self.sc(st, args[0])
        n = z3.simplify(self.sc(st, args[1]))
        if not z3.is_int_value(n):
            raise Unsupported('pow with variable exponent')
        return self.ipow(x, n.as_long())

    def m_recip(self, st, info, args):
        return R1 / self.real(st, args[0])

    def m_mul_add(self, st, info, args):
        return self.real(st, args[0]) * self.real(st, args[1]) + self.real(st, args[2])

    def m_abs(self, st, info, args):
        x = self.sc(st, args[0])
        return z3.If(x >= 0, x, -x)

    def m_signum(self, st, info, args):
        x = self.sc(st, args[0])
        if x.sort() == IntS:
            return z3.If(x > 0, iv(1), z3.If(x == 0, iv(0), iv(-1)))
        return z3.If(x >= 0, R1, -R1)

    def m_is_sign_negative(self, st, info, args):
        return self.real(st, args[0]) < 0

    def m_is_sign_positive(self, st, info, args):
        return self.real(st, args[0]) >= 0

    def m_is_nan(self, st, info, args):
        if self.nan_free:
            return z3.BoolVal(False)
        return self.NAN(self.real(st, args[0]))

    def m_is_infinite(self, st, info, args):
        x = self.real(st, args[0])
        if self.nan_free:
            return z3.BoolVal(False)
        return z3.And(z3.Not(self.FIN(x)), z3.Not(self.NAN(x)))

    def m_is_finite(self, st, info, args):
        return self.fin(self.real(st, args[0]))

    def fin(self, x):
        """is x finite: sums, products and quotients of finite numbers are, but for a zero divisor (overflow left out)"""
        if z3.is_rational_value(x) or z3.is_algebraic_value(x):
            return z3.BoolVal(True)
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                return conj([self.fin(c) for c in x.children()])
            if k == z3.Z3_OP_DIV:
                a, b = x.children()
                return conj([self.fin(a), self.fin(b), b != 0])
            if k == z3.Z3_OP_ITE:
                return z3.If(x.arg(0), self.fin(x.arg(1)), self.fin(x.arg(2)))
            if k == z3.Z3_OP_TO_REAL:
                return z3.BoolVal(True)
        if self.nan_free:
            return z3.BoolVal(True)
        return self.FIN(x)

    def m_floor(self, st, info, args):
        return z3.ToReal(z3.ToInt(self.real(st, args[0])))

    def m_hypot(self, st, info, args):
        a, b = self.real(st, args[0]), self.real(st, args[1])
        return f1('sqrt', a * a + b * b)

    def m_max(self, st, info, args):
        if len(args) != 2:
            return OTHER
        a, b = self.sc(st, args[0]), self.sc(st, args[1])
        return z3.If(a >= b, a, b)

    def m_min(self, st, info, args):
        if len(args) != 2:
            return OTHER
        a, b = self.sc(st, args[0]), self.sc(st, args[1])
        return z3.If(a <= b, a, b)

    def tyof(self, info):
        t = self.eng.type_of_text(info.fr, info.self or info.prefix)
        return t

    def m_zero(self, st, info, args):
        t = self.tyof(info)
        return iv(0) if t[0] == 'int' else R0 if t[0] == 'float' else self.lit(t, 'zero')

    def m_one(self, st, info, args):
        t = self.tyof(info)
        return iv(1) if t[0] == 'int' else R1 if t[0] == 'float' else self.lit(t, 'one')

    def lit(self, t, n):
        s = self.eng.sort_of(t)
        if s is None:
            raise Unsupported('%s of %s' % (n, t))
        return z3.Const(n + '_' + s.name(), s)

    def m_max_value(self, st, info, args):
        t = self.tyof(info)
        return self.FMAX if t[0] == 'float' else OTHER

    def m_min_value(self, st, info, args):
        t = self.tyof(info)
        return -self.FMAX if t[0] == 'float' else OTHER

    def m_infinity(self, st, info, args):
        return self.FINF

    def m_neg_infinity(self, st, info, args):
        return -self.FINF

    def m_from_usize(self, st, info, args):
        t = self.tyof(info)
        x = self.sc(st, args[0])
        return Opt(z3.ToReal(x) if t[0] == 'float' else x)
    m_from_u64 = m_from_i64 = m_from_u32 = m_from_i32 = m_from_usize

    def m_from_f64(self, st, info, args):
        return Opt(self.sc(st, args[0]))

    def m_to_f64(self, st, info, args):
        x = self.sc(st, args[0])
        return Opt(z3.ToReal(x) if x.sort() == IntS else x)

    def m_checked_sub(self, st, info, args):
        a, b = self.sc(st, args[0]), self.sc(st, args[1])
        return [(s, Opt(a - b) if t else NONE) for s, t in self.fork(st, a >= b)]

    def m_saturating_sub(self, st, info, args):
        a, b = self.sc(st, args[0]), self.sc(st, args[1])
        return z3.If(a >= b, a - b, iv(0))

    def m_wrapping_add(self, st, info, args):
        raise Unsupported('wrapping arithmetic')

    # comparison traits
    def m_eq(self, st, info, args):
        return self.equal(self.deep(st, args[0]), self.deep(st, args[1]))

    def m_ne(self, st, info, args):
        return z3.Not(self.equal(self.deep(st, args[0]), self.deep(st, args[1])))

    def equal(self, a, b):
        a, b = (x.s if isinstance(x, Vect) else x for x in (a, b))
        if isinstance(a, Seq) and isinstance(b, Seq):
            x = strip(a.at(PV.SEQ_J)), strip(b.at(PV.SEQ_J))
            if isz(x[0]) and isz(x[1]) and x[0].sort() == x[1].sort():
                return PV.seqeq(a.n, lambda i: strip(a.at(i)), b.n, lambda i: strip(b.at(i)))
        return eqv(a, b)

    def deep(self, st, v):
        return self.val(st, v)

    def cmp2(self, st, args):
        a, b = self.sc(st, args[0]), self.sc(st, args[1])
        if a.sort() not in (IntS, RealS):
            raise Unsupported('ordering of ' + str(a.sort()))
        return a, b

    def m_lt(self, st, info, args):
        a, b = self.cmp2(st, args)
        return a < b

    def m_le(self, st, info, args):
        a, b = self.cmp2(st, args)
        return a <= b

    def m_gt(self, st, info, args):
        a, b = self.cmp2(st, args)
        return a > b

    def m_ge(self, st, info, args):
        a, b = self.cmp2(st, args)
        return a >= b

    def m_cmp(self, st, info, args):
        a, b = self.cmp2(st, args)
        return Enum('Ordering', z3.If(a < b, iv(-1), z3.If(a == b, iv(0), iv(1))), {-1: (), 0: (), 1: ()})

    def m_partial_cmp(self, st, info, args):
        return Opt(self.m_cmp(st, info, args))

    # ------------------------------------------------------------------ arithmetic traits
    def arith(self, st, op, a, b):
        a, b = self.val(st, a), self.val(st, b)
        F = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'div': lambda x, y: x / y, 'rem': lambda x, y: x % y}[op]
        if isz(a) and isz(b):
            if a.sort() == IntS:
                if op == 'sub':
                    self.need(st, a >= b, 'subtraction does not underflow')
                if op in ('div', 'rem'):
                    self.need(st, b != 0, 'division by zero')
            elif a.sort() != RealS:
                g = z3.Function(op + '_' + a.sort().name(), a.sort(), b.sort(), a.sort())
                return g(a, b)
            return F(a, b)
        if isinstance(a, Vect) and isz(b):
            s = a.s
            return Vect(Seq(s.n, lambda i: F(self.sc(st, s.at(i)), b)))
        if isinstance(a, Vect) and isinstance(b, Vect) and op in ('add', 'sub'):
            self.need(st, a.s.n == b.s.n, 'vectors of one size')
            s, t = a.s, b.s
            return Vect(Seq(s.n, lambda i: F(self.sc(st, s.at(i)), self.sc(st, t.at(i)))))
        if isinstance(a, Mat) and isz(b):
            return Mat(a.r, a.c, lambda i, j: F(a.at(i, j), b))
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op in ('add', 'sub'):
                self.need(st, a.c == b.c, 'column dimensions agree')
                self.need(st, a.r == b.r, 'row dimensions agree')
                return Mat(a.r, a.c, lambda i, j: F(a.at(i, j), b.at(i, j)))
            if op == 'mul':
                self.need(st, a.c == b.r, 'matrix dimensions agree')
                return Mat(a.r, b.c, lambda i, j: psum(a.c, lambda k: a.at(i, k) * b.at(k, j)))
        if isinstance(a, Mat) and isinstance(b, Vect) and op == 'mul':
            self.need(st, a.c == b.s.n, 'matrix and vector dimensions agree')
            s = b.s
            return Vect(Seq(a.r, lambda i: psum(a.c, lambda k: a.at(i, k) * self.sc(st, s.at(k)))))
        raise Unsupported('%s of %s and %s' % (op, type(a).__name__, type(b).__name__))

    def m_add(self, st, info, args):
        if isinstance(args[0], RawP):
            return self.m_offset(st, info, args)
        return self.arith(st, 'add', args[0], args[1])

    def m_sub(self, st, info, args):
        return self.arith(st, 'sub', args[0], args[1])

    def m_mul(self, st, info, args):
        return self.arith(st, 'mul', args[0], args[1])

    def m_div(self, st, info, args):
        return self.arith(st, 'div', args[0], args[1])

    def m_rem(self, st, info, args):
        return self.arith(st, 'rem', args[0], args[1])

    def m_neg(self, st, info, args):
        a = self.val(st, args[0])
        if isz(a):
            return -a
        if isinstance(a, Vect):
            s = a.s
            return Vect(Seq(s.n, lambda i: -self.sc(st, s.at(i))))
        if isinstance(a, Mat):
            return Mat(a.r, a.c, lambda i, j: -a.at(i, j))
        return OTHER

    def asg(self, st, op, args):
        p = self.ptr(st, args[0])
        a = self.val(st, p)
        r = self.arith(st, op, a, args[1])
        if isinstance(a, Mat) and isinstance(r, Mat):
            r.kind = a.kind
        self.setv(st, p, r)
        return UNIT

    def m_add_assign(self, st, info, args):
        return self.asg(st, 'add', args)

    def m_sub_assign(self, st, info, args):
        return self.asg(st, 'sub', args)

    def m_mul_assign(self, st, info, args):
        return self.asg(st, 'mul', args)

    def m_div_assign(self, st, info, args):
        return self.asg(st, 'div', args)

    # ------------------------------------------------------------------ rulinalg
    def m_rows(self, st, info, args):
        return self.val(st, args[0]).r

    def m_cols(self, st, info, args):
        return self.val(st, args[0]).c

    def m_size(self, st, info, args):
        return self.seq(st, args[0]).n

    def m_data(self, st, info, args):
        v = self.val(st, args[0])
        if isinstance(v, Mat):
            return Ref(self.flatten_mat(v))
        return Ref(self.seq(st, v))

    def m_mut_data(self, st, info, args):
        p = self.ptr(st, args[0])
        v = self.val(st, p)
        if isinstance(v, Mat):
            return Ptr(p.cell, list(p.path) + [('flat',)])
        return Ptr(p.cell, list(p.path) + [('vec',)])

    def m_raw_slice(self, st, info, args):
        m = self.val(st, args[0])
        return Ref(m.row(iv(0)))

    def m_raw_slice_mut(self, st, info, args):
        p = self.ptr(st, args[0])
        return Ptr(p.cell, self.rowpath(p.path))

    def m_row(self, st, info, args):
        m = self.val(st, args[0])
        i = self.sc(st, args[1])
        self.need(st, z3.And(i >= 0, i < m.r), 'row index in range', 'bounds')
        return Ref(self.rowmat(m, i))

    def m_row_unchecked(self, st, info, args):
        m = self.val(st, args[0])
        i = self.sc(st, args[1])
        self.eng.require(st, z3.And(i >= 0, i < m.r), 'unsafe', 'unchecked row in range')
        return Ref(self.rowmat(m, i))

    def m_row_mut(self, st, info, args):
        p = self.ptr(st, args[0])
        m = self.val(st, p)
        i = self.sc(st, args[1])
        self.need(st, z3.And(i >= 0, i < m.r), 'row index in range', 'bounds')
        return Ptr(p.cell, list(p.path) + [('rowm', i)])

    def m_get_row(self, st, info, args):
        m = self.val(st, args[0])
        i = self.sc(st, args[1])
        return [(s, Opt(Ref(m.row(i))) if t else NONE) for s, t in self.fork(st, z3.And(i >= 0, i < m.r))]

    def m_transpose(self, st, info, args):
        m = self.val(st, args[0])
        return Mat(m.c, m.r, lambda i, j: m.at(j, i))

    def m_elemul(self, st, info, args):
        return self.ele(st, args, lambda x, y: x * y)

    def m_elediv(self, st, info, args):
        return self.ele(st, args, lambda x, y: x / y)

    def ele(self, st, args, f):
        a, b = self.val(st, args[0]), self.val(st, args[1])
        if isinstance(a, Vect):
            self.need(st, a.s.n == b.s.n, 'vectors of one size')
            return Vect(Seq(a.s.n, lambda i: f(self.sc(st, a.s.at(i)), self.sc(st, b.s.at(i)))))
        self.need(st, z3.And(a.r == b.r, a.c == b.c), 'matrices of one shape')
        return Mat(a.r, a.c, lambda i, j: f(a.at(i, j), b.at(i, j)))

    def m_apply(self, st, info, args):
        a, f = self.val(st, args[0]), self.val(st, args[1])
        snap = st.copy()
        eng = self.eng
        if isinstance(a, Vect):
            s = a.s
            if not eng.dry:
                s2 = st.copy()
                i = fint('gi')
                s2.assume(z3.And(i >= 0, i < s.n))
                self.callf(s2, f, [s.at(i)], info)
            return Vect(Seq(s.n, lambda i: self.pure(snap, f, [s.at(i)], info)))
        if not eng.dry:
            s2 = st.copy()
            i, j = fint('gi'), fint('gj')
            s2.assume(z3.And(i >= 0, i < a.r, j >= 0, j < a.c))
            self.callf(s2, f, [a.at(i, j)], info)
        return Mat(a.r, a.c, lambda i, j: self.sc(snap, self.pure(snap, f, [a.at(i, j)], info)))

    def m_dot(self, st, info, args):
        a, b = self.seq(st, args[0]), self.seq(st, args[1])
        n = self.zmin(st, a.n, b.n)
        return psum(n, lambda i: self.sc(st, a.at(i)) * self.sc(st, b.at(i)))

    def m_sum_rows(self, st, info, args):
        m = self.val(st, args[0])
        return Vect(Seq(m.c, lambda j: psum(m.r, lambda i: m.at(i, j))))

    def m_sum_cols(self, st, info, args):
        m = self.val(st, args[0])
        return Vect(Seq(m.r, lambda i: psum(m.c, lambda j: m.at(i, j))))

    def m_zeros(self, st, info, args):
        return self.fill(st, info, args, 0)

    def m_ones(self, st, info, args):
        return self.fill(st, info, args, 1)

    def fill(self, st, info, args, k):
        el = self.eltype(info)
        z = (iv(k) if el is not None and el[0] == 'int' else z3.RealVal(k))
        if len(args) == 1:
            return Vect(Seq(self.sc(st, args[0]), lambda i: z))
        return Mat(self.sc(st, args[0]), self.sc(st, args[1]), lambda i, j: z)

    def m_identity(self, st, info, args):
        n = self.sc(st, args[0])
        return Mat(n, n, lambda i, j: z3.If(i == j, R1, R0))

    def m_from_diag(self, st, info, args):
        q = self.seq(st, args[0])
        return Mat(q.n, q.n, lambda i, j: z3.If(i == j, self.sc(st, q.at(i)), R0))

    def m_from_fn(self, st, info, args):
        if len(args) != 3:
            return OTHER
        r, c = self.sc(st, args[0]), self.sc(st, args[1])
        f = args[2]
        snap = st.copy()
        # rulinalg passes (column, row)
        return Mat(r, c, lambda i, j: self.sc(snap, self.pure(snap, f, [j, i], info)))

    def m_hcat(self, st, info, args):
        a, b = self.val(st, args[0]), self.val(st, args[1])
        self.need(st, a.r == b.r, 'hcat of equal row counts')
        return Mat(a.r, z3.simplify(a.c + b.c), lambda i, j: itev(j < a.c, a.at(i, j), b.at(i, j - a.c)))

    def m_vcat(self, st, info, args):
        a, b = self.val(st, args[0]), self.val(st, args[1])
        self.need(st, a.c == b.c, 'vcat of equal column counts')
        return Mat(z3.simplify(a.r + b.r), a.c, lambda i, j: itev(i < a.r, a.at(i, j), b.at(i - a.r, j)))

    def m_select_rows(self, st, info, args):
        m = self.val(st, args[0])
        it = self.it(st, args[1])
        p = it.pos
        self.eng_each(st, it, lambda s, x: self.need(s, z3.And(x >= 0, x < m.r), 'selected row in range', 'bounds'))
        return Mat(z3.simplify(it.end - p), m.c, lambda i, j: m.at(self.sc(st, it.at(p + i)), j))

    def m_select_cols(self, st, info, args):
        m = self.val(st, args[0])
        it = self.it(st, args[1])
        p = it.pos
        self.eng_each(st, it, lambda s, x: self.need(s, z3.And(x >= 0, x < m.c), 'selected column in range', 'bounds'))
        return Mat(m.r, z3.simplify(it.end - p), lambda i, j: m.at(i, self.sc(st, it.at(p + j))))

    def eng_each(self, st, it, f):
        if self.eng.dry:
            return
        s = st.copy()
        i = fint('gi')
        s.assume(z3.And(i >= it.pos, i < it.end))
        for s1, y in run_at(it.at, s, i):
            f(s1, self.sc(s1, y))

    def m_select(self, st, info, args):
        v = self.val(st, args[0])
        if not isinstance(v, Vect):
            return OTHER
        q = self.seq(st, args[1])
        self.eng_each(st, It(AtFn(lambda i: q.at(i)), iv(0), q.n), lambda s, x: self.need(s, z3.And(x >= 0, x < v.s.n), 'selected entry in range', 'bounds'))
        return Vect(Seq(q.n, lambda i: v.s.at(self.sc(st, q.at(i)))))

    def m_from_raw_parts(self, st, info, args):
        p = args[0]
        if not isinstance(p, RawP):
            return OTHER
        r, c, stride = self.sc(st, args[1]), self.sc(st, args[2]), self.sc(st, args[3])
        if info.text.find('MatrixSlice') < 0:
            return OTHER
        self.eng.require(st, z3.Implies(z3.And(r > 0, c > 0), z3.And(p.off >= 0, p.off + (r - 1) * stride + c <= p.seq.n)), 'unsafe', 'raw matrix slice stays in the buffer')
        q = p.seq
        off = p.off
        return Mat(r, c, lambda i, j: q.at(off + i * stride + j), 'MatrixSlice')

    def m_from_matrix(self, st, info, args):
        m = self.val(st, args[0])
        s = self.val(st, args[1])
        i0, j0 = self.sc(st, s.at(iv(0))), self.sc(st, s.at(iv(1)))
        r, c = self.sc(st, args[2]), self.sc(st, args[3])
        self.need(st, z3.And(i0 >= 0, i0 + r <= m.r, j0 >= 0, j0 + c <= m.c), 'matrix slice in range', 'bounds')
        return Mat(r, c, lambda i, j: m.at(i0 + i, j0 + j), 'MatrixSlice')

    def m_into_matrix(self, st, info, args):
        m = self.val(st, args[0])
        return Mat(m.r, m.c, m.at)

    def axis(self, v):
        v = strip(v)
        if isinstance(v, Enum) and isinstance(v.disc, int):
            return v.disc
        if isinstance(v, FnV):
            return 0 if v.text.endswith('Row') else 1 if v.text.endswith('Col') else None
        return None

    def m_mean(self, st, info, args):
        m = self.val(st, args[0])
        if isinstance(m, Vect):
            return psum(m.s.n, lambda i: m.s.at(i)) / z3.ToReal(m.s.n)
        ax = self.axis(args[1])
        if ax == 0:
            return Vect(Seq(m.c, lambda j: psum(m.r, lambda i: m.at(i, j)) / z3.ToReal(m.r)))
        if ax == 1:
            return Vect(Seq(m.r, lambda i: psum(m.c, lambda j: m.at(i, j)) / z3.ToReal(m.c)))
        raise Unsupported('axis')

    def m_variance(self, st, info, args):
        m = self.val(st, args[0])
        ax = self.axis(args[1])
        if ax != 0:
            raise Unsupported('variance axis')
        mean = lambda j: psum(m.r, lambda i: m.at(i, j)) / z3.ToReal(m.r)
        out = []
        for s, t in self.fork(st, m.r >= 2):
            if t:
                out.append((s, Enum('Result', 0, {0: (Vect(Seq(m.c, lambda j: psum(m.r, lambda i: (m.at(i, j) - mean(j)) * (m.at(i, j) - mean(j))) / z3.ToReal(m.r - 1))),)})))
            else:
                out.append((s, Enum('Result', 1, {1: (Agg('Error', ()),)})))
        return out

    def m_vec_bin_op(self, st, info, args):
        a, b, f = self.seq(st, args[0]), self.seq(st, args[1]), args[2]
        n = self.zmin(st, a.n, b.n)
        snap = st.copy()
        return Seq(n, lambda i: self.pure(snap, f, [a.at(i), b.at(i)], info))

    def m_in_place_vec_bin_op(self, st, info, args):
        p = self.ptr(st, args[0])
        q, b, f = self.seq(st, p), self.seq(st, args[1]), args[2]
        n = self.zmin(st, q.n, b.n)
        eng = self.eng
        snap = st.copy()

        def item(i):
            s = snap.copy()
            c = eng.newcell(s, q.at(i))
            eng.dry += 1
            eng.pure += 1
            try:
                outs = self.callf(s, f, [Ptr(c), Ref(b.at(i))], info)
            finally:
                eng.dry -= 1
                eng.pure -= 1
            val = None
            base = len(s.br)
            for s2, _ in reversed(outs):
                cc = conj(s2.br[len(snap.br):])
                val = s2.cells[c] if val is None else itev(cc, s2.cells[c], val)
            return val
        if not eng.dry:
            s = st.copy()
            i = fint('gi')
            s.assume(z3.And(i >= 0, i < n))
            c = eng.newcell(s, q.at(i))
            self.callf(s, f, [Ptr(c), Ref(b.at(i))], info)
        self.setv(st, p, Seq(q.n, lambda i: itev(i < n, item(i), q.at(i)), q.init, elty=q.elty))
        return UNIT

    def m_norm(self, st, info, args):
        m = self.val(st, args[0])
        v = self.val(st, args[1])
        if isinstance(m, Agg) and m.ty == 'Euclidean':
            if isinstance(v, Vect):
                return f1('sqrt', psum(v.s.n, lambda i: v.s.at(i) * v.s.at(i)))
            return f1('sqrt', psum(v.r, lambda i: psum(v.c, lambda j: v.at(i, j) * v.at(i, j))))
        if isinstance(m, Enum) and m.ty == 'Lp' and m.disc == 1:
            k = z3.simplify(self.sc(st, m.pay[1][0]))
            if z3.is_int_value(k) and k.as_long() in (1, 2):
                g = (lambda x: z3.If(x >= 0, x, -x)) if k.as_long() == 1 else (lambda x: x * x)
                q = psum(v.s.n, lambda i: g(v.s.at(i))) if isinstance(v, Vect) else psum(v.r, lambda i: psum(v.c, lambda j: g(v.at(i, j))))
                return q if k.as_long() == 1 else f1('sqrt', q)
        return OTHER

    def m_metric(self, st, info, args):
        m = self.val(st, args[0])
        if isinstance(m, Agg) and m.ty == 'Euclidean':
            a, b = self.val(st, args[1]), self.val(st, args[2])
            if isinstance(a, Vect):
                self.need(st, a.s.n == b.s.n, 'vectors of one size')
                return f1('sqrt', psum(a.s.n, lambda i: (a.s.at(i) - b.s.at(i)) * (a.s.at(i) - b.s.at(i))))
        return OTHER

    # fmt and strings: values without content
    def m_to_string(self, st, info, args):
        return Agg('String', ())

    def m_format(self, st, info, args):
        return Agg('String', ())

    def m_from_str(self, st, info, args):
        if 'fmt' in info.text or 'Arguments' in info.text:
            return Agg('Arguments', ())
        return OTHER
    m_new_const = m_new_v1 = m_new_display = m_new_debug = m_from_str

    def m_description(self, st, info, args):
        return Ref(Agg('String', ()))


def mentions(t, c):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == c.get_id():
            return True
        stack.extend(x.children())
    return False
