"""C19, C21: exhaustive nearest-neighbour search and the classifier built on it (src/learning/knn)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, All, AE, RealS, IntS, BoolS, fint, iv
from vf.loops import Cand
from vf.mir import Unsupported
from vf.sym import State
from vf.sums import psum
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import struct, field, outcome, ok_of

BF = 'learning::knn::brute_force::'


def pair_leaves(L):
    """sequences of (number, distance) held by the loop"""
    out = []
    for l in L.leaves:
        if l.kind != 'seq':
            continue
        e = strip(l.get(L.base).at(fint('p')))
        if isinstance(e, Agg) and len(e.f) == 2 and all(isz(x) for x in e.f) and {x.sort() for x in e.f} == {IntS, RealS}:
            i = 0 if e.f[0].sort() == IntS else 1
            out.append((l, (lambda s, a, i=i: strip(s.at(a)).f[i]), (lambda s, a, i=i: strip(s.at(a)).f[1 - i])))
    return out


def ascending(n, d):
    return All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < n), d(a) <= d(b)))


def c19(ctx):
    def search(eng):
        f = ctx.method(eng, 'BruteForce', 'search', 'KNearestSearch')
        st = State()
        n, c, k = dim(st, 'n'), dim(st, 'c'), dim(st, 'k', 1)
        st.assume(k <= n)
        x, p = fmat('x', n, c), fvec('p', c)
        eng.allow_panic = z3.BoolVal(False)
        st, obj = made(ctx, eng, st, x)
        D = z3.Function('D', IntS, RealS)
        calls = callee(ctx, eng, x, p, D)
        r = fint('row')
        st.assume(z3.And(r >= 0, r < n))

        def cands(L):
            out = []
            for l, ix, ds in pair_leaves(L):
                P = lambda S, l=l: l.get(S)
                out.append(Cand('%r: ascending' % l, lambda S, K, P=P, ds=ds: ascending(P(S).n, lambda a: ds(P(S), a)), quick=True))
                out.append(Cand('%r: rows seen, exact distances' % l, lambda S, K, P=P, ds=ds, ix=ix: All(1, lambda a: z3.Implies(z3.And(a >= 0, a < P(S).n), z3.And(ix(P(S), a) >= 0, ix(P(S), a) < k + K, ds(P(S), a) == D(ix(P(S), a))))), quick=True))
                out.append(Cand('%r: different rows' % l, lambda S, K, P=P, ix=ix: All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < P(S).n), ix(P(S), a) != ix(P(S), b))), quick=True))
                out.append(Cand('%r: no row seen is closer' % l, lambda S, K, P=P, ds=ds, ix=ix: AE(0, lambda: r < k + K, lambda w: z3.Or(D(r) >= ds(P(S), P(S).n - 1), z3.And(w >= 0, w < P(S).n, ix(P(S), w) == r))), quick=True))
                for q in L.leaves:
                    if q.kind == 'real':
                        out.append(Cand('%r is the last distance of %r' % (q, l), (lambda S, K, P=P, q=q, ds=ds: q.get(S) == ds(P(S), P(S).n - 1)), quick=True))
            return out
        eng.templates.append(cands)
        ctx.canary(eng, st.hyps, 'inputs')
        outs = ctx.run(eng, f, st, [Ref(obj), Ref(p), k])
        if not calls:
            raise Unsupported('no distance is asked for')
        for s, v in outs:
            v = ok_of(ctx, eng, s, v, 'a built search answers')
            if v is None:
                continue
            ctx.canary(eng, s.hyps, 'returns')
            ids, ds = [eng.lib.seq(s, q) for q in strip(v).f]
            ctx.post(eng, s, z3.And(ids.n == k, ds.n == k), 'k rows and k distances')
            ctx.post(eng, s, ascending(k, ds.at), 'in ascending order of distance')
            ctx.post(eng, s, All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < k), ids.at(a) != ids.at(b))), 'different rows')
            ctx.post(eng, s, All(1, lambda a: z3.Implies(z3.And(a >= 0, a < k), z3.And(ids.at(a) >= 0, ids.at(a) < n, ds.at(a) == D(ids.at(a))))), 'rows of the data with their exact distances')
            ctx.post(eng, s, AE(0, lambda: z3.BoolVal(True), lambda w: z3.Or(D(r) >= ds.at(k - 1), z3.And(w >= 0, w < k, ids.at(w) == r))), 'no other row is strictly closer')
    ctx.target('BruteForce::search', search)

    def one(eng):
        f = ctx.free(eng, 'learning::knn::dist')
        st = State()
        c = dim(st, 'c')
        a, b = fvec('a', c), fvec('b', c)
        for s, v in ctx.run(eng, f, st, [Ref(a), Ref(b)]):
            ctx.post(eng, s, eng.lib.sc(s, v) == f1('sqrt', psum(c, lambda j: (a.at(j) - b.at(j)) * (a.at(j) - b.at(j)))), 'the Euclidean distance')
    ctx.target('dist', one)

    def untrained(eng):
        f = ctx.method(eng, 'BruteForce', 'search', 'KNearestSearch')
        st = State()
        (st, obj), = ctx.run(eng, ctx.method(eng, 'BruteForce', 'new'), st, [])
        eng.allow_panic = z3.BoolVal(False)
        p, k = fvec('p', dim(st, 'c')), dim(st, 'k')
        for s, v in ctx.run(eng, f, st, [Ref(obj), Ref(p), k]):
            v = eng.lib.val(s, v)
            if v.disc == 1:
                ctx.ok(eng, 'refused before building')
            else:
                ctx.fail(eng, 'refused before building', 'an answer')
    ctx.target('BruteForce::search before build', untrained)


def callee(ctx, eng, x, p, D):
    """calls of dist(query, row i of x) by its contract: D(i)"""
    calls = []

    def h(eng, st, fr, info, args):
        if len(args) != 2 or isinstance(strip(args[0]), Agg):
            return None
        a, b = eng.lib.seq(st, args[0]), eng.lib.seq(st, args[1])
        j = fint('j')
        for u, v in ((a, b), (b, a)):
            i = row_of(v.at(j), x.at(fint('i'), j), j)
            if i is None:
                continue
            s = st.copy()
            s.assume(z3.And(j >= 0, j < x.c))
            if eng.pv.prove(s.hyps, z3.And(u.n == p.n, v.n == x.c, eqv(u.at(j), p.at(j)), eqv(v.at(j), x.at(i, j))))[0] == 'proved':
                calls.append(1)
                return [(st, D(i))]
        raise Unsupported('distance of something else than the query and a row')
    eng.replace['dist'] = h
    return calls


def row_of(t, pat, j):
    """i if t is the entry (i, j) of the matrix"""
    t = strip(t)
    if isz(t) and z3.is_app(t) and t.decl().eq(pat.decl()) and t.num_args() == 2:
        return z3.simplify(z3.substitute(t.arg(0), (j, iv(0))))
    return None


def made(ctx, eng, st, x):
    """BruteForce after build on x"""
    new = ctx.method(eng, 'BruteForce', 'new')
    (st, obj), = ctx.run(eng, new, st, [])
    cell = eng.newcell(st, obj)
    (st, _), = ctx.run(eng, ctx.method(eng, 'BruteForce', 'build', 'KNearestSearch'), st, [Ptr(cell), x])
    return st, st.cells[cell]


# ------------------------------------------------------------------ the classifier
KN = 'learning::knn::'


def c21(ctx):
    def count(labels, n, y):
        return psum(n, lambda a: z3.If(labels(a) == y, iv(1), iv(0)), IntS)

    def freq(eng):
        f = ctx.free(eng, KN + 'freq')
        st = State()
        n, y = dim(st, 'n'), fint('y')
        g = z3.Function('label', IntS, IntS)
        q = Seq(n, lambda i: g(i))

        def cands(L):
            out = []
            for m in L.leaves:
                if m.kind == 'map':
                    M = lambda S, m=m: m.get(S)
                    out.append(Cand('%r counts the labels so far' % m, lambda S, k, M=M: z3.If(M(S).has(y), z3.And(M(S).get(y) == count(g, k, y), M(S).get(y) >= 1), count(g, k, y) == 0), True))
                    out.append(Cand('%r has labels seen only' % m, lambda S, k, M=M: AE(1, lambda z: M(S).has(z), lambda z, w: z3.And(w >= 0, w < k, g(w) == z))))
                    out.append(Cand('%r has all labels seen' % m, lambda S, k, M=M: All(1, lambda a: z3.Implies(z3.And(a >= 0, a < k), M(S).has(g(a))))))
            return out
        eng.templates.append(cands)
        eng.inst_hints = [y]
        eng.allow_panic = z3.BoolVal(False)
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ref(q)]):
            u, c = [eng.lib.seq(s, x) for x in strip(v).f]
            ctx.post(eng, s, u.n == c.n, 'as many labels as counts')
            ctx.post(eng, s, All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < u.n), u.at(i) < u.at(j))), 'labels in increasing order')
            i = fint('i')
            s2 = s.copy()
            s2.assume(z3.And(i >= 0, i < u.n, u.at(i) == y))
            eng.inst_hints = [y, i]
            ctx.post(eng, s2, z3.And(c.at(i) == count(g, n, y), c.at(i) >= 1), 'each with the number of times it occurs')
            s3 = s.copy()
            s3.assume(z3.And(i >= 0, i < n, g(i) == y))
            ctx.post(eng, s3, AE(0, lambda: z3.BoolVal(True), lambda w: z3.And(w >= 0, w < u.n, u.at(w) == y)), 'every label that occurs is listed')
    ctx.target('freq', freq)

    def predict(eng):
        f = ctx.method(eng, 'KNNClassifier', 'predict', 'SupModel')
        st = State()
        k, n, m, c = dim(st, 'k', 1), dim(st, 'n', 1), dim(st, 'm'), dim(st, 'c')
        st.assume(k <= n)
        T, N = z3.Function('T', IntS, IntS), z3.Function('N', IntS, IntS, IntS)
        x = fmat('x', m, c)
        y = fint('y')
        # what the search returns for row i: k rows of the training data
        st.assume(All(2, lambda i, a: z3.Implies(z3.And(i >= 0, i < m, a >= 0, a < k), z3.And(N(i, a) >= 0, N(i, a) < n))))
        tg = Vect(Seq(n, lambda i: T(i)))
        CNT = z3.Function('CNT', IntS, IntS, IntS)     # times label y occurs among the neighbours of row i
        searched, counted = [], []

        def search(eng, st, fr, info, args):
            p = eng.lib.seq(st, args[1])
            j = fint('j')
            i = row_of(p.at(j), x.at(fint('i'), j), j)
            if i is None:
                raise Unsupported('search for something else than a row')
            if not eng.dry:
                searched.append(1)
                s = st.copy()
                s.assume(z3.And(j >= 0, j < c))
                ctx.post(eng, s, z3.And(p.n == c, p.at(j) == x.at(i, j), i >= 0, i < m), 'neighbours are asked for of a row of the inputs')
                ctx.post(eng, s, eng.lib.sc(st, args[2]) == k, 'k neighbours are asked for')
            d = z3.Function('d!%d' % next(PV._cnt), IntS, RealS)
            return [(st, Enum('Result', 0, {0: (Agg('tuple', (Seq(k, lambda a: N(i, a)), Seq(k, lambda a: d(a)))),)}))]
        eng.replace['search'] = search

        def freq(eng, st, fr, info, args):
            q = eng.lib.seq(st, args[0])
            t = q.at(fint('a'))
            if not (isz(t) and z3.is_app(t) and t.decl().eq(T) and t.arg(0).decl().eq(N)):
                raise Unsupported('labels of something else than the neighbours')
            i = t.arg(0).arg(0)
            if not eng.dry:
                counted.append(1)
                a = fint('a')
                s = st.copy()
                s.assume(z3.And(a >= 0, a < k))
                ctx.post(eng, s, z3.And(q.n == k, q.at(a) == T(N(i, a))), 'the labels of the k neighbours are counted')
            U, V, P, nu = fn2('U', IntS), fn2('V', IntS), fn2('P', IntS), fint('u')
            st.assume(z3.And(nu >= 1, nu <= k))
            st.assume(PV.triggered(All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < nu), U(a) < U(b))), U))
            st.assume(All(1, lambda a: z3.Implies(z3.And(a >= 0, a < nu), z3.And(V(a) == CNT(i, U(a)), V(a) >= 1))))
            st.assume(All(1, lambda z: z3.Implies(CNT(i, z) >= 1, z3.And(P(z) >= 0, P(z) < nu, U(P(z)) == z))))
            return [(st, Agg('tuple', (Vect(Seq(nu, lambda a: U(a))), Vect(Seq(nu, lambda a: V(a))))))]
        eng.replace['freq'] = freq

        def good(i, l):
            return z3.And(CNT(i, l) >= 1, CNT(i, y) <= CNT(i, l), z3.Implies(CNT(i, y) == CNT(i, l), l <= y))

        def cands(L):
            return [Cand('%r holds majority labels' % l, lambda S, K, l=l: PV.Conj([l.get(S).n == K, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < l.get(S).n), good(i, l.get(S).at(i))))])) for l in L.leaves
                    if l.kind == 'seq' and isz(l.get(L.base).at(fint('p'))) and l.get(L.base).at(fint('p')).sort() == IntS]
        st.assume(All(2, lambda i, z: CNT(i, z) >= 0))
        eng.templates.append(cands)
        eng.inst_hints = [y]
        eng.allow_panic = z3.BoolVal(False)
        obj = struct(eng, 'KNNClassifier', {'k': k, 'searcher': Agg('S', ()), 'target': Enum('Option', 1, {1: (tg,)})}, KN)
        ctx.canary(eng, st.hyps, 'inputs')
        outs = ctx.run(eng, f, st, [Ref(obj), Ref(x)], {'S': ('adt', 'S', ())})
        if not searched or not counted:
            raise Unsupported('the neighbours or their labels come from elsewhere')
        for s, v in outs:
            v = ok_of(ctx, eng, s, v, 'a trained model predicts')
            if v is None:
                continue
            ctx.canary(eng, s.hyps, 'returns')
            q = eng.lib.seq(s, v)
            ctx.post(eng, s, q.n == m, 'one class per row')
            ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < m), good(i, q.at(i)))), 'a most frequent label of the neighbours, the smallest of them')
    ctx.target('KNNClassifier::predict', predict)

    def train(eng):
        f = ctx.method(eng, 'KNNClassifier', 'train', 'SupModel')
        st = State()
        k, n, c, nt = dim(st, 'k'), dim(st, 'n'), dim(st, 'c'), dim(st, 'nt')
        x = fmat('x', n, c)
        T = z3.Function('T', IntS, IntS)
        t = Vect(Seq(nt, lambda i: T(i)))
        eng.allow_panic = z3.BoolVal(False)
        new = ctx.method(eng, 'KNNClassifier', 'new_specified')
        built = []

        def build(eng, st, fr, info, args):
            built.append(1)
            if not eng.dry:
                ctx.post(eng, st, strip(args[1]).eq_all(x), 'the search is built on the inputs')
            st.cells[flag] = z3.BoolVal(True)
            return [(st, UNIT)]
        eng.replace['build'] = build
        flag = eng.newcell(st, z3.BoolVal(False))
        (st, obj), = ctx.run(eng, new, st, [k, Agg('S', ())], {'S': ('adt', 'S', ())})
        cell = eng.newcell(st, obj)
        for s, v in ctx.run(eng, f, st, [Ptr(cell), Ref(x), Ref(t)], {'S': ('adt', 'S', ())}):
            v = eng.lib.val(s, v)
            o = s.cells[cell]
            tg, kk = field(eng, o, 'KNNClassifier', 'target'), field(eng, o, 'KNNClassifier', 'k')
            ctx.post(eng, s, kk == k, 'the number of neighbours is kept')
            if v.disc == 1:
                ctx.post(eng, s, z3.Or(n != nt, n < k), 'refused only for different lengths or too few rows')
            else:
                ctx.post(eng, s, z3.And(n == nt, n >= k), 'different lengths and too few rows are refused')
                if tg.disc != 1:
                    ctx.fail(eng, 'targets are kept', 'none')
                else:
                    ctx.post(eng, s, eng.lib.seq(s, tg.pay[1][0]).eq_all(t.s), 'targets are kept')
                ctx.post(eng, s, s.cells[flag], 'the search is built')
    ctx.target('KNNClassifier::train', train)

    def untrained(eng):
        f = ctx.method(eng, 'KNNClassifier', 'predict', 'SupModel')
        st = State()
        eng.allow_panic = z3.BoolVal(False)
        (st, obj), = ctx.run(eng, ctx.method(eng, 'KNNClassifier', 'new_specified'), st, [dim(st, 'k'), Agg('S', ())], {'S': ('adt', 'S', ())})
        for s, v in ctx.run(eng, f, st, [Ref(obj), Ref(fmat('x', dim(st, 'm'), dim(st, 'c')))], {'S': ('adt', 'S', ())}):
            v = eng.lib.val(s, v)
            (ctx.ok if v.disc == 1 else lambda e, n: ctx.fail(e, n, 'an answer'))(eng, 'refused untrained')
    ctx.target('KNNClassifier::predict untrained', untrained)


def fn2(name, *sorts):
    return z3.Function('%s!%d' % (name, next(PV._cnt)), *([IntS] + list(sorts)))


from contracts.tree import c20
