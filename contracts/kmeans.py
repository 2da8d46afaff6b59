"""C22: k-means (src/learning/k_means.rs)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, All, AE, RealS, IntS, BoolS, fint, iv
from vf.sums import psum
from vf.loops import Cand
from vf.mir import Unsupported
from vf.sym import State
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import struct, field, ok_of
from contracts.models import refuses
from contracts.regress import some, NONE
from contracts.svm import ints_in

KM = 'learning::k_means::'
ENV = {'InitAlg': ('adt', 'InitAlg', ())}
TR = z3.ToReal


def model(eng, k, cen, iters=None):
    return struct(eng, 'KMeansClassifier', {'iters': fint('iters') if iters is None else iters, 'k': k, 'centroids': cen, 'init_algorithm': Agg('InitAlg', ())}, KM)


def sq(x, i, m, j, c):
    """squared distance of row i of x and row j of m"""
    return psum(c, lambda a: (m.at(j, a) - x.at(i, a)) * (m.at(j, a) - x.at(i, a)))


def split_sum(q, f, K):
    """the sum of f over the list, case by case where its length is one"""
    n = z3.simplify(q.n)
    if not z3.is_app_of(n, z3.Z3_OP_ITE):
        return psum(n, lambda p: f(q.at(p)))
    c, n1, n0 = n.children()
    eqs = [(c, z3.BoolVal(True))]
    if z3.is_eq(c):
        u, v = c.children()
        eqs.append((v, u) if z3.is_const(u) else (u, v))
    sub = lambda t, m: z3.simplify(z3.substitute(t, *m))
    return z3.If(c, psum(sub(n1, eqs), lambda p: f(sub(q.at(p), eqs))), psum(n0, lambda p: f(sub(q.at(p), [(c, z3.BoolVal(False))]))))


def c22(ctx):
    def seqs(L, sort):
        return [l for l in L.leaves if l.kind == 'seq' and isz(strip(l.get(L.base).at(fint('p')))) and strip(l.get(L.base).at(fint('p'))).sort() == sort]

    def watch(eng, x, m, n, k, c, i, j):
        """what the loop over the rows keeps about row i and centroid j; D(i, j) is their squared distance"""
        D = z3.Function('D', IntS, IntS, RealS)
        calls = []

        def argmin(eng, st, fr, info, args):
            q = eng.lib.seq(st, args[0])
            b = fint('b')
            s = st.copy()
            s.assume(z3.And(b >= 0, b < k))
            t = eng.lib.sc(st, q.at(b))
            rows = [r for r in ints_in(t, b) if eng.pv.prove(s.hyps, z3.And(q.n == k, t == sq(x, r, m, b, c)))[0] == 'proved']
            if not rows:
                raise Unsupported('smallest of something else than the squared distances of a row')
            r = rows[0]
            calls.append(1)
            if not eng.dry:
                ctx.ok(eng, 'the squared distances to all centroids are compared', 'post')
            g = fint('arg')
            st.assume(z3.And(g >= 0, g < k, z3.Implies(j < k, D(r, g) <= D(r, j))))
            return [(st, Agg('()', [g, D(r, g)]))]
        eng.replace['argmin'] = argmin

        def cands(L):
            out = []
            for l in seqs(L, IntS):
                P = lambda S, l=l: l.get(S)
                out.append(Cand('%r: the row has a centroid' % l, lambda S, K, P=P: z3.Implies(i < K, z3.And(P(S).at(i) >= 0, P(S).at(i) < k)), True))
                out.append(Cand('%r: none is closer' % l, lambda S, K, P=P: z3.Implies(i < K, D(i, P(S).at(i)) <= D(i, j)), True))
                for d in seqs(L, RealS):
                    out.append(Cand('%r: distance to %r' % (d, l), lambda S, K, P=P, d=d: z3.Implies(i < K, d.get(S).at(i) == D(i, P(S).at(i))), True))
            return out
        eng.templates.append(cands)
        eng.inst_hints = [i, j]
        return D, calls

    def nearest(eng, st, D, idx, k, n, i, j, what):
        ctx.post(eng, st, idx.n == n, what + ': one centroid per row')
        s = st
        b = strip(idx.at(i))
        ctx.post(eng, s, z3.And(b >= 0, b < k), what + ': the number of a centroid')
        ctx.post(eng, s, D(i, b) <= D(i, j), what + ': no centroid is closer')

    def predict(eng):
        f = ctx.method(eng, 'KMeansClassifier', 'predict', 'UnSupModel')
        st = State()
        n, c, k = dim(st, 'n'), dim(st, 'c'), dim(st, 'k', 1)
        x, m = fmat('x', n, c), fmat('m', k, c)
        i, j = fint('i'), fint('j')
        st.assume(z3.And(i >= 0, i < n, j >= 0, j < k))
        D, calls = watch(eng, x, m, n, k, c, i, j)
        eng.allow_panic = z3.BoolVal(False)
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ref(model(eng, k, some(m))), Ref(x)], ENV):
            v = ok_of(ctx, eng, s, v, 'a trained model predicts')
            if v is not None:
                nearest(eng, s, D, eng.lib.seq(s, v), k, n, i, j, 'prediction')
        if not calls:
            raise Unsupported('the nearest centroid is found another way')
    ctx.target('KMeansClassifier::predict', predict)

    def closest(eng):
        f = ctx.method(eng, 'KMeansClassifier', 'find_closest_centroids')
        st = State()
        n, c, k = dim(st, 'n'), dim(st, 'c'), dim(st, 'k', 1)
        x, m = fmat('x', n, c), fmat('m', k, c)
        i, j = fint('i'), fint('j')
        st.assume(z3.And(i >= 0, i < n, j >= 0, j < k))
        D, calls = watch(eng, x, m, n, k, c, i, j)
        eng.allow_panic = z3.BoolVal(False)
        for s, v in ctx.run(eng, f, st, [m, Ref(x)], ENV):
            idx, d = [eng.lib.seq(s, q) for q in strip(v).f]
            nearest(eng, s, D, idx, k, n, i, j, 'assignment')
            ctx.post(eng, s, z3.And(d.n == n, d.at(i) == D(i, strip(idx.at(i)))), 'with its squared distance')
        if not calls:
            raise Unsupported('the nearest centroid is found another way')
    ctx.target('find_closest_centroids', closest)

    def update(eng):
        f = ctx.method(eng, 'KMeansClassifier', 'update_centroids')
        st = State()
        n, c, k = dim(st, 'n'), dim(st, 'c'), dim(st, 'k', 1)
        x, m = fmat('x', n, c), fmat('m', k, c)
        C = z3.Function('class', IntS, IntS)
        a, j = fint('a'), fint('j')
        st.assume(z3.And(a >= 0, a < k, j >= 0, j < c))
        st.assume(PV.triggered(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(C(i) >= 0, C(i) < k))), C))
        member = lambda u: psum(u, lambda i: z3.If(C(i) == a, iv(1), iv(0)), IntS)
        total = lambda u: psum(u, lambda i: z3.If(C(i) == a, x.at(i, j), z3.RealVal(0)))
        st.assume(member(n) >= 0)
        moved = lambda y: z3.If(member(n) > 0, y * TR(member(n)) == total(n), y == m.at(a, j))
        eng.allow_panic = z3.BoolVal(False)
        cell = eng.newcell(st, model(eng, k, some(m)))

        def cands(L):
            out = []
            for l in L.leaves:
                if l.kind != 'seq':
                    continue
                e = strip(l.get(L.base).at(fint('p')))
                P = lambda S, l=l: l.get(S)
                if isinstance(e, Seq):
                    G = lambda S, P=P: strip(P(S).at(a))
                    out.append(Cand('%r: sizes are not negative' % l, lambda S, K, P=P: All(1, lambda b: z3.Implies(z3.And(b >= 0, b < k), strip(P(S).at(b)).n >= 0))))
                    out.append(Cand('%r: members are rows seen' % l, lambda S, K, P=P: All(2, lambda b, p: z3.Implies(z3.And(b >= 0, b < k, p >= 0, p < strip(P(S).at(b)).n), z3.And(strip(P(S).at(b)).at(p) >= 0, strip(P(S).at(b)).at(p) < K)))))
                    out.append(Cand('%r: as many members as rows of the class' % l, lambda S, K, G=G: G(S).n == member(K), True))
                    out.append(Cand('%r: sum of the members' % l, lambda S, K, G=G: split_sum(G(S), lambda q: x.at(q, j), K) == total(K), True))
                elif isz(e) and e.sort() == RealS:
                    out.append(Cand('%r: c entries per class' % l, lambda S, K, P=P: P(S).n == K * c, True))
                    out.append(Cand('%r: room for the class' % l, lambda S, K, P=P: z3.Implies(K > a, a * c + j < P(S).n), True))
                    out.append(Cand('%r: the mean of the class' % l, lambda S, K, P=P: z3.Implies(K > a, moved(P(S).at(a * c + j))), True))
            return out
        eng.templates.append(cands)
        for s, v in ctx.run(eng, f, st, [Ptr(cell), Ref(x), Vect(Seq(n, lambda i: C(i)))], ENV):
            o = s.cells[cell]
            cen = eng.lib.val(s, field(eng, o, 'KMeansClassifier', 'centroids'))
            if not (isinstance(cen, Enum) and cen.disc == 1):
                ctx.fail(eng, 'the centroids are replaced', 'none stored')
                continue
            q = eng.lib.val(s, cen.pay[1][0])
            ctx.post(eng, s, z3.And(q.r == k, q.c == c), 'k centroids with the columns of the data')
            ctx.post(eng, s, moved(q.at(a, j)), 'each centroid is the mean of its rows, or stays where it is if it has none')
    ctx.target('update_centroids', update)

    def train(eng):
        f = ctx.method(eng, 'KMeansClassifier', 'train', 'UnSupModel')
        st = State()
        n, c, k, r, w = dim(st, 'n', 1), dim(st, 'c'), dim(st, 'k', 1), dim(st, 'r'), dim(st, 'w')
        x = fmat('x', n, c)
        eng.allow_panic = z3.BoolVal(False)
        seen, stored = [], []

        def init(eng, st, fr, info, args):
            if len(args) != 3:
                return None
            if not eng.dry:
                ctx.post(eng, st, z3.And(eng.lib.sc(st, args[1]) == k), 'k centroids are asked for')
                ctx.post(eng, st, same(eng.lib.val(st, args[2]), x), 'the initial centroids come from the inputs')
            s2 = st.copy()
            return [(st, Enum('Result', 0, {0: (fmat('start', r, w),)})), (s2, Enum('Result', 1, {1: (Agg('Error', ()),)}))]
        eng.replace['init_centroids'] = init

        def find(eng, st, fr, info, args):
            if not eng.dry:
                ctx.post(eng, st, same(eng.lib.val(st, args[1]), x), 'the rows of the inputs are assigned')
                ctx.post(eng, st, same(eng.lib.val(st, args[0]), held(eng, st, cell)), 'to the current centroids')
            C, d = fn('C', IntS), fn('d', RealS)
            seen.append(C)
            st.assume(PV.triggered(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(C(i) >= 0, C(i) < k))), C))
            return [(st, Agg('tuple', (Vect(Seq(n, lambda i: C(i))), Vect(Seq(n, lambda i: d(i))))))]
        eng.replace['find_closest_centroids'] = find

        def update(eng, st, fr, info, args):
            q = eng.lib.seq(st, args[2])
            if not seen:
                raise Unsupported('an update without an assignment')
            if not eng.dry:
                C = seen[-1]
                ctx.post(eng, st, same(eng.lib.val(st, args[1]), x), 'centroids are means of rows of the inputs')
                ctx.post(eng, st, Conj([q.n == n, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), strip(q.at(i)) == C(i)))]), 'the assignment just computed is used')
            o = eng.lib.val(st, args[0])
            p = eng.lib.ptr(st, args[0])
            g = z3.Function('m!%d' % next(PV._cnt), IntS, IntS, RealS)
            eng.lib.setv(st, p, put(eng, o, 'centroids', some(Mat(k, c, lambda i, j: g(i, j)))))
            stored.append(1)
            return [(st, UNIT)]
        eng.replace['update_centroids'] = update
        cell = eng.newcell(st, model(eng, k, NONE))
        ctx.canary(eng, st.hyps, 'inputs')

        def cands(L):
            return []
        for s, v in ctx.run(eng, f, st, [Ptr(cell), Ref(x)], ENV):
            v = eng.lib.val(s, v)
            if v.disc == 1:
                continue
            m = held(eng, s, cell)
            if m is None:
                ctx.fail(eng, 'centroids are stored', 'none')
                continue
            ctx.post(eng, s, z3.And(k <= n, m.r == k, m.c == c), 'k centroids with the columns of the data, at most one per row')
        if not seen or not stored:
            raise Unsupported('training takes another way')
    ctx.target('KMeansClassifier::train', train)

    def untrained(eng):
        f = ctx.method(eng, 'KMeansClassifier', 'predict', 'UnSupModel')
        st = State()
        x = fmat('x', dim(st, 'm'), dim(st, 'c'))
        for s, v in ctx.run(eng, f, st, [Ref(model(eng, dim(st, 'k'), NONE)), Ref(x)], ENV):
            refuses(ctx, eng, s, v, 'prediction before training is an error')
    ctx.target('KMeansClassifier::predict untrained', untrained)


def fn(nm, sort):
    return z3.Function('%s!%d' % (nm, next(PV._cnt)), IntS, sort)


def same(a, b):
    if b is None:
        return z3.BoolVal(False)
    return Conj([z3.And(a.r == b.r, a.c == b.c), All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < b.r, j >= 0, j < b.c), a.at(i, j) == b.at(i, j)))])


def held(eng, s, cell):
    """the centroids a model holds"""
    v = eng.lib.val(s, field(eng, s.cells[cell], 'KMeansClassifier', 'centroids'))
    if isinstance(v, Enum) and not isinstance(v.disc, int):
        s.assume(v.is_(1)) if eng.pv.prove(s.hyps, v.is_(1))[0] == 'proved' else None
    elif not (isinstance(v, Enum) and v.disc == 1):
        return None
    return eng.lib.val(s, v.pay[1][0])


def put(eng, obj, name, val):
    d = [x for n, x in eng.src.defs.items() if n == 'KMeansClassifier' or n.endswith('::KMeansClassifier')][0]
    i = list(d.names).index(name)
    g = list(obj.f)
    g[i] = val
    return Agg(obj.ty, g)
