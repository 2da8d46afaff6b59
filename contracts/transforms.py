"""C15-C18: the data transforms (src/data/transforms)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, All, RealS, IntS, fint, iv
from vf.sums import psum
from vf.mir import Unsupported
from vf.loops import Cand
from vf.sym import State
from contracts.toolkit import fmat, fvec, dim
from contracts import shuffle as SH

R = z3.RealVal


def ok_of(ctx, eng, s, v, name):
    """the value in Ok, or a failed obligation"""
    v = eng.lib.val(s, v)
    if isinstance(v, Enum) and v.disc == 0:
        ctx.ok(eng, name)
        return eng.lib.val(s, v.pay[0][0])
    if isinstance(v, Enum) and v.disc == 1:
        if eng.pv.prove(s.hyps, z3.BoolVal(False))[0] == 'proved':
            return None
        ctx.fail(eng, name, 'returned an error')
        return None
    raise Unsupported('the result is not a Result with a known tag')


def struct(eng, name, vals, mod):
    d = [x for n, x in eng.src.defs.items() if n.endswith('::' + name) or n == name][0]
    return Agg(mod + name, [vals[n] for n in d.names])


# ------------------------------------------------------------------ C18
class Rows(SH.Items):
    """the rows of the given matrix; an entry tells its row and its column"""

    def __init__(self, m, T):
        SH.Items.__init__(self, SH.view(m), T)
        self.m = m
        self.col = z3.Function('column!%d' % next(PV._cnt), T, IntS)

    def facts(self):
        m, idx, col = self.m, self.idx, self.col
        return [All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < m.r, j >= 0, j < m.c), z3.And(idx(m.at(i, j)) == i, col(m.at(i, j)) == j)))]

    def whole(self, q):
        """every entry of q is the entry of the same column of one given row"""
        m, idx = self.m, self.idx
        return All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < m.r, j >= 0, j < m.c),
                   z3.And(idx(strip(q.at(i, j))) == idx(strip(q.at(i, iv(0)))), idx(strip(q.at(i, j))) >= 0, idx(strip(q.at(i, j))) < m.r, strip(q.at(i, j)) == m.at(idx(strip(q.at(i, j))), j))))


def row_templates(items):
    def t(L):
        out = []
        for l in L.leaves:
            if l.kind == 'mat':
                x = strip(l.get(L.base).at(fint('p'), fint('q')))
                if isz(x) and x.sort() == items.T:
                    out.append(Cand('%r: whole rows' % l, lambda S, k, l=l: items.whole(l.get(S))))
        return out
    return t


def c18_setup(ctx, eng):
    f = ctx.method(eng, 'Shuffler', 'transform', 'Transformer')
    st, args = ctx.start(eng, f)
    m = strip(args[1])
    if not isinstance(m, Mat):
        raise Unsupported('the second parameter is not a matrix')
    items = Rows(m, strip(m.at(fint('p'), fint('q'))).sort())
    for h in items.facts():
        st.assume(h)
    eng.templates.append(SH.templates(items, [('n', m.r)]))
    return f, st, args, m, items


def c18(ctx):
    def rows(eng):
        f, st, args, m, items = c18_setup(ctx, eng)
        eng.templates.append(row_templates(items))
        st.assume(m.c >= 1)
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, args):
            ctx.canary(eng, s.hyps, 'reaches the end')
            q = ok_of(ctx, eng, s, v, 'shuffling succeeds')
            if q is None:
                continue
            ctx.post(eng, s, z3.And(q.r == m.r, q.c == m.c), 'the shape is kept')
            ctx.post(eng, s, items.whole(q), 'every row of the result is a given row, entry by entry')
            ctx.post(eng, s, All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < m.r), items.idx(strip(q.at(i, iv(0)))) != items.idx(strip(q.at(j, iv(0)))))), 'no given row is used twice')

    def empty(eng):
        f, st, args, m, items = c18_setup(ctx, eng)
        for s, v in ctx.run(eng, f, st, args):
            q = ok_of(ctx, eng, s, v, 'shuffling succeeds')
            if q is not None:
                ctx.post(eng, s, z3.And(q.r == m.r, q.c == m.c), 'the shape is kept')

    def unif(eng):
        f, st, args, m, items = c18_setup(ctx, eng)
        st.assume(m.c >= 1)

        def result(s, v):
            v = eng.lib.val(s, v)
            if not (isinstance(v, Enum) and v.disc == 0):
                raise Unsupported('the result is not a known Ok')
            return SH.view(eng.lib.val(s, v.pay[0][0]))
        SH.uniform_of(ctx, eng, f, st, args, items.seq, items, result)
    ctx.target('Shuffler::transform keeps rows', rows)
    ctx.target('Shuffler::transform of any shape', empty)
    ctx.target('Shuffler::transform is uniform', unif)


# ------------------------------------------------------------------ C15
MM = 'data::transforms::minmax::'
F64 = {'T': ('float', 'f64')}


def data(eng, st, r, c, name='x'):
    """a matrix of which any entry may be non-finite; finite entries lie in the range of the type"""
    x = fmat(name, r, c)
    F = eng.lib.FMAX
    st.assume(F > 0)
    st.assume(All(2, lambda i, j: z3.Implies(eng.lib.FIN(x.at(i, j)), z3.And(x.at(i, j) <= F, x.at(i, j) >= -F))))
    return x


def all_fin(eng, x):
    return All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < x.r, j >= 0, j < x.c), eng.lib.FIN(x.at(i, j))))


def known_finite(eng, st, *xs):
    for x in xs:
        st.assume(eng.lib.FIN(x))


def outcome(eng, s, v):
    v = eng.lib.val(s, v)
    if isinstance(v, Enum) and isinstance(v.disc, int):
        return v.disc == 0, (eng.lib.val(s, v.pay[0][0]) if v.disc == 0 else None)
    raise Unsupported('the result is not a Result with a known tag')


def field(eng, v, name, field):
    d = [x for n, x in eng.src.defs.items() if n.endswith('::' + name)][0]
    return v.f[list(d.names).index(field)]


def c15(ctx):
    def fit(eng):
        eng.lib.nan_free = False
        f = ctx.method(eng, 'MinMaxFitter', 'fit', 'TransformFitter')
        st = State()
        r, c = dim(st, 'n'), dim(st, 'c')
        st.assume(r >= 1)
        x = data(eng, st, r, c)
        lo, hi = PV.fresh('lo', RealS), PV.fresh('hi', RealS)
        known_finite(eng, st, lo, hi)
        obj = struct(eng, 'MinMaxFitter', {'scaled_min': lo, 'scaled_max': hi}, MM)
        ctx.canary(eng, st.hyps, 'inputs')
        outs = ctx.run(eng, f, st, [obj, Ref(x)], F64)
        for s, v in outs:
            good, sc = outcome(eng, s, v)
            p, q, j = fint('p'), fint('q'), fint('j')
            col = z3.And(j >= 0, j < c, p >= 0, p < r)
            const = All(1, lambda i: z3.Implies(z3.And(i >= 0, i < r), x.at(i, j) == x.at(iv(0), j)))
            eng.inst_hints = [p, j, iv(0)]
            s1 = s.copy()
            if good:
                a, b = eng.lib.seq(s, field(eng, sc, 'MinMaxScaler', 'scale_factors')), eng.lib.seq(s, field(eng, sc, 'MinMaxScaler', 'const_factors'))
                ctx.canary(eng, s.hyps, 'success')
                ctx.post(eng, s, z3.And(a.n == c, b.n == c), 'one factor per column')
                s1.assume(col)
                ctx.post(eng, s1, eng.lib.FIN(x.at(p, j)), 'non-finite data are refused')
                y = x.at(p, j) * a.at(j) + b.at(j)
                ctx.post(eng, s1, z3.Implies(lo <= hi, z3.And(y >= lo, y <= hi)), 'every entry is mapped into the target range')
                ctx.post(eng, s1, z3.Implies(lo < hi, a.at(j) > 0), 'the map of a column is increasing')
                for t, nm in ((lo, 'lower'), (hi, 'upper')):
                    s2 = s1.copy()
                    s2.assume(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < r), x.at(i, j) * a.at(j) + b.at(j) != t)))
                    ctx.post(eng, s2, z3.BoolVal(False), 'some entry of every column is mapped to the %s end' % nm)
                s2 = s1.copy()
                s2.assume(const)
                ctx.post(eng, s2, z3.BoolVal(False), 'constant columns are refused')
            else:
                # data without a fault are accepted: the maximum and minimum of no column coincide
                s1.assume(all_fin(eng, x))
                u, w = z3.Function('u!', IntS, IntS), z3.Function('w!', IntS, IntS)
                s1.assume(All(1, lambda j: z3.Implies(z3.And(j >= 0, j < c), z3.And(u(j) >= 0, u(j) < r, w(j) >= 0, w(j) < r, x.at(u(j), j) != x.at(w(j), j)))))
                ctx.post(eng, s1, z3.BoolVal(False), 'finite data without constant columns are accepted')
    ctx.target('MinMaxFitter::fit', fit)

    def make(eng, which):
        f = ctx.method(eng, 'MinMaxFitter', which, 'Default' if which == 'default' else None)
        st = State()
        lo, hi = PV.fresh('lo', RealS), PV.fresh('hi', RealS)
        for s1, v in ctx.run(eng, f, st, [] if which == 'default' else [lo, hi], F64):
            wl, wh = (R(0), R(1)) if which == 'default' else (lo, hi)
            ctx.post(eng, s1, z3.And(field(eng, v, 'MinMaxFitter', 'scaled_min') == wl, field(eng, v, 'MinMaxFitter', 'scaled_max') == wh), 'the target range')
    ctx.target('MinMaxFitter::default', lambda e: make(e, 'default'))
    ctx.target('MinMaxFitter::new', lambda e: make(e, 'new'))

    def trans(eng, back):
        m = 'inv_transform' if back else 'transform'
        f = ctx.method(eng, 'MinMaxScaler', m, 'Invertible' if back else 'Transformer')
        st = State()
        r, c, k = dim(st, 'n'), dim(st, 'c'), dim(st, 'k')
        x = fmat('x', r, c)
        a, b = fvec('scale', k), fvec('const', k)
        st.assume(All(1, lambda j: z3.Implies(z3.And(j >= 0, j < k), a.at(j) != 0)))
        obj = struct(eng, 'MinMaxScaler', {'scale_factors': Vect(a), 'const_factors': Vect(b)}, MM)
        cell = st.alloc(obj) if hasattr(st, 'alloc') else None
        outs = ctx.run(eng, f, st, [Ref(obj), x], F64)
        for s, v in outs:
            good, y = outcome(eng, s, v)
            if not good:
                ctx.post(eng, s, c != k, 'data with the fitted number of columns are accepted')
                continue
            ctx.post(eng, s, c == k, 'data with another number of columns are refused')
            ctx.post(eng, s, z3.And(y.r == r, y.c == c), 'the shape is kept')
            i, j = fint('i'), fint('j')
            s1 = s.copy()
            s1.assume(z3.And(i >= 0, i < r, j >= 0, j < c))
            z = (x.at(i, j) - b.at(j)) / a.at(j) if back else x.at(i, j) * a.at(j) + b.at(j)
            ctx.post(eng, s1, y.at(i, j) == z, 'the inverse of the affine map, column by column' if back else 'the affine map of the column')
    ctx.target('MinMaxScaler::transform', lambda e: trans(e, False))
    ctx.target('MinMaxScaler::inv_transform', lambda e: trans(e, True))


# ------------------------------------------------------------------ C16
ST = 'data::transforms::standardize::'


def colsum(x, j):
    return psum(x.r, lambda i: x.at(i, j))


def mean_of(x, j):
    return colsum(x, j) / z3.ToReal(x.r)


def var_of(x, j):
    m = mean_of(x, j)
    return psum(x.r, lambda i: (x.at(i, j) - m) * (x.at(i, j) - m)) / z3.ToReal(x.r - 1)


def sums_finite(eng, x):
    """axiom, one way: finite entries have finite column sums (overflow left out)"""
    return All(1, lambda j: eng.lib.FIN(colsum(x, j)))


def sums_tell(eng, x, p):
    """axiom, the other way: a finite sum has finite items"""
    return All(1, lambda j: z3.Implies(z3.And(eng.lib.FIN(colsum(x, j)), p >= 0, p < x.r), eng.lib.FIN(x.at(p, j))))


def c16(ctx):
    def fit(eng, checks):
        eng.lib.nan_free = not checks
        f = ctx.method(eng, 'StandardizerFitter', 'fit', 'TransformFitter')
        st = State()
        r, c = dim(st, 'n'), dim(st, 'c')
        x = data(eng, st, r, c)
        m, s = PV.fresh('mean', RealS), PV.fresh('stdev', RealS)
        obj = struct(eng, 'StandardizerFitter', {'scaled_mean': m, 'scaled_stdev': s}, ST)
        ctx.canary(eng, st.hyps, 'inputs')
        p, j = fint('p'), fint('j')
        for s1, v in ctx.run(eng, f, st, [obj, Ref(x)], F64):
            good, sc = outcome(eng, s1, v)
            eng.inst_hints = [p, j]
            s2 = s1.copy()
            if not good:
                s2.assume(r >= 2)
                if checks:
                    # all entries are finite, so all column sums are
                    s2.assume(sums_finite(eng, x))
                ctx.post(eng, s2, z3.BoolVal(False), 'two or more rows of finite data are accepted')
                continue
            ctx.canary(eng, s1.hyps, 'success')
            ctx.post(eng, s1, r >= 2, 'fewer than two rows are refused')
            s2.assume(z3.And(j >= 0, j < c, p >= 0, p < r))
            if checks:
                s2.assume(sums_tell(eng, x, p))
                ctx.post(eng, s2, eng.lib.FIN(x.at(p, j)), 'non-finite data are refused')
                continue
            a, b = eng.lib.seq(s1, field(eng, sc, 'Standardizer', 'means')), eng.lib.seq(s1, field(eng, sc, 'Standardizer', 'variances'))
            ctx.post(eng, s1, z3.And(a.n == c, b.n == c), 'one mean and one variance per column')
            ctx.post(eng, s2, a.at(j) == mean_of(x, j), "the column's mean")
            ctx.post(eng, s2, b.at(j) == var_of(x, j), "the column's sample variance")
            ctx.post(eng, s1, z3.And(field(eng, sc, 'Standardizer', 'scaled_mean') == m, field(eng, sc, 'Standardizer', 'scaled_stdev') == s), 'the requested mean and deviation are kept')
    ctx.target('StandardizerFitter::fit', lambda e: fit(e, False))
    ctx.target('StandardizerFitter::fit refuses', lambda e: fit(e, True))

    def make(eng, which):
        f = ctx.method(eng, 'StandardizerFitter', which, 'Default' if which == 'default' else None)
        st = State()
        m, s = PV.fresh('mean', RealS), PV.fresh('stdev', RealS)
        for s1, v in ctx.run(eng, f, st, [] if which == 'default' else [m, s], F64):
            wm, ws = (R(0), R(1)) if which == 'default' else (m, s)
            ctx.post(eng, s1, z3.And(field(eng, v, 'StandardizerFitter', 'scaled_mean') == wm, field(eng, v, 'StandardizerFitter', 'scaled_stdev') == ws), 'the parameters')
    ctx.target('StandardizerFitter::default', lambda e: make(e, 'default'))
    ctx.target('StandardizerFitter::new', lambda e: make(e, 'new'))

    def trans(eng, back):
        f = ctx.method(eng, 'Standardizer', 'inv_transform' if back else 'transform', 'Invertible' if back else 'Transformer')
        st = State()
        r, c, k = dim(st, 'n'), dim(st, 'c'), dim(st, 'k')
        x = fmat('x', r, c)
        mu, va = fvec('mu', k), fvec('var', k)
        m, s = PV.fresh('mean', RealS), PV.fresh('stdev', RealS)
        st.assume(s > 0)
        st.assume(All(1, lambda j: z3.Implies(z3.And(j >= 0, j < k), va.at(j) > 0)))
        obj = struct(eng, 'Standardizer', {'means': Vect(mu), 'variances': Vect(va), 'scaled_mean': m, 'scaled_stdev': s}, ST)
        for s1, v in ctx.run(eng, f, st, [Ref(obj), x], F64):
            good, y = outcome(eng, s1, v)
            if not good:
                ctx.post(eng, s1, c != k, 'data with the fitted number of columns are accepted')
                continue
            ctx.post(eng, s1, c == k, 'data with another number of columns are refused')
            ctx.post(eng, s1, z3.And(y.r == r, y.c == c), 'the shape is kept')
            i, j = fint('i'), fint('j')
            s1.assume(z3.And(i >= 0, i < r, j >= 0, j < c))
            q = f1('sqrt', va.at(j))
            z = (x.at(i, j) - m) * q / s + mu.at(j) if back else (x.at(i, j) - mu.at(j)) * s / q + m
            ctx.post(eng, s1, y.at(i, j) == z, 'the inverse of the affine map, column by column' if back else 'the affine map of the column')
    ctx.target('Standardizer::transform', lambda e: trans(e, False))
    ctx.target('Standardizer::inv_transform', lambda e: trans(e, True))

    def law(eng):
        """the affine map with the column's mean and variance gives the requested mean and deviation, and inverts"""
        st = State()
        r, c = dim(st, 'n'), dim(st, 'c')
        x = fmat('x', r, c)
        m, s, j = PV.fresh('mean', RealS), PV.fresh('stdev', RealS), fint('j')
        v = var_of(x, j)
        q = f1('sqrt', v)
        st.assume(z3.And(r >= 2, v > 0, s > 0))
        y = Mat(r, c, lambda i, jj: (x.at(i, jj) - mean_of(x, jj)) * s / q + m)
        ctx.lemma(eng, st.hyps, mean_of(y, j) == m, 'the mapped column has the requested mean')
        ctx.lemma(eng, st.hyps, psum(r, lambda i: (y.at(i, j) - m) * (y.at(i, j) - m)) / z3.ToReal(r - 1) == s * s, 'the mapped column has the requested deviation')
        i = fint('i')
        ctx.lemma(eng, st.hyps, (y.at(i, j) - m) * q / s + mean_of(x, j) == x.at(i, j), 'the inverse map gives back the entries')
    ctx.target('standardization', law)


# ------------------------------------------------------------------ C17
NM = 'data::transforms::normalize::'
NORM = z3.Function('norm!', IntS, RealS)


def c17(ctx):
    def run(eng):
        eng.lib.nan_free = False
        f = ctx.method(eng, 'Normalizer', 'transform', 'Transformer')
        st = State()
        r, c = dim(st, 'n'), dim(st, 'c')
        x = data(eng, st, r, c)
        pq = x.at(fint('p'), fint('q')).decl()

        def norm(e, s, fr, info, args):
            m = e.lib.val(s, args[1])
            t = z3.simplify(m.at(iv(0), fint('nj'))) if isinstance(m, Mat) else None
            if t is None or not z3.is_app(t) or t.decl().get_id() != pq.get_id() or e.pv.prove(s.hyps, z3.And(m.r == 1, m.c == c))[0] != 'proved':
                raise Unsupported('norm of something else than a row of the data')
            return [(s, NORM(t.arg(0)))]
        eng.overrides['norm'] = norm
        N = lambda i: NORM(i)
        obj = struct(eng, 'Normalizer', {'norm': Agg('M', ()), '_marker': Agg('P', ())}, NM)
        env = {'T': ('float', 'f64'), 'M': ('adt', 'M', [])}
        F = eng.lib.FIN
        i, j = fint('i'), fint('j')
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ref(obj), x], env):
            eng.inst_hints = [i, j]
            good, y = outcome(eng, s, v)
            if not good:
                s.assume(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < r), F(N(i)))))
                ctx.post(eng, s, z3.BoolVal(False), 'data with finite norms are accepted')
                continue
            ctx.canary(eng, s.hyps, 'success')
            ctx.post(eng, s, z3.And(y.r == r, y.c == c), 'the shape is kept')
            s.assume(z3.And(i >= 0, i < r, j >= 0, j < c))
            ctx.post(eng, s, F(N(i)), 'rows with a non-finite norm are refused')
            ctx.post(eng, s, z3.Implies(N(i) != 0, y.at(i, j) == x.at(i, j) / N(i)), "an entry is divided by its own row's norm")
            ctx.post(eng, s, z3.Implies(N(i) == 0, y.at(i, j) == x.at(i, j)), 'a row of norm 0 is left alone')
    ctx.target('Normalizer::transform', run)

    def make(eng):
        f = ctx.method(eng, 'Normalizer', 'new')
        mine = Agg('M', (PV.fresh('m', IntS),))
        for s1, v in ctx.run(eng, f, State(), [mine], {'T': ('float', 'f64'), 'M': ('adt', 'M', [])}):
            n = eng.lib.val(s1, field(eng, v, 'Normalizer', 'norm'))
            (ctx.ok if n is mine else ctx.fail)(eng, 'the norm used is the one given', *([] if n is mine else [repr(n)]))
    ctx.target('Normalizer::new', make)

    def law(eng):
        st = State()
        c = dim(st, 'c')
        x = fvec('x', c)
        n2 = psum(c, lambda j: x.at(j) * x.at(j))
        n = f1('sqrt', n2)
        st.assume(n2 > 0)
        ctx.lemma(eng, st.hyps, psum(c, lambda j: (x.at(j) / n) * (x.at(j) / n)) == 1, 'a row divided by its Euclidean norm has norm 1')
    ctx.target('unit norm', law)
