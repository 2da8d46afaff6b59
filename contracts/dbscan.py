"""C23: DBSCAN (src/learning/dbscan.rs).

Two rows r1, r2 are any rows; comp is any numbering of the rows that agrees on core rows within eps of each other, so equal
clusters imply equal numbers for every such numbering, that of the chains of core rows among them."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import conj, All, AE, RealS, IntS, BoolS, fint, iv
from vf.sums import psum
from vf.loops import Cand
from vf.mir import Unsupported
from vf.sym import State
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import struct, field, ok_of
from contracts.regress import some, NONE
from contracts.svm import ints_in
from contracts.kmeans import same

DB = 'learning::dbscan::'
BOOL = ('bool',)


def model(eng, eps, minp, clusters, vis, pred=False, data=NONE):
    return struct(eng, 'DBSCAN', {'eps': eps, 'min_points': minp, 'clusters': clusters, 'predictive': z3.BoolVal(pred), '_visited': vis, '_cluster_data': data}, DB)


class World:
    def __init__(self, eng, st):
        self.eng = eng
        self.n, self.c, self.minp = dim(st, 'n', 1), dim(st, 'c'), dim(st, 'min')
        self.x = fmat('x', self.n, self.c)
        self.eps = z3.Real('eps')
        st.assume(self.eps > 0)
        self.cnt = z3.Function('cnt', IntS, IntS)
        self.nb = z3.Function('nb', IntS, IntS, IntS)
        self.ix = z3.Function('ix', IntS, IntS, IntS)
        self.near = z3.Function('near', IntS, IntS, BoolS)
        self.comp = z3.Function('comp', IntS, IntS)
        self.r = [fint('r1'), fint('r2')]
        for r in self.r:
            st.assume(z3.And(r >= 0, r < self.n))
        self.asked = []

    def core(self, i):
        return self.cnt(i) >= self.minp

    def world(self, st, pts):
        """the contract of region_query, and the numbering, at the points"""
        for i in pts:
            st.assume(z3.And(self.cnt(i) >= 0, self.cnt(i) <= self.n))
            for j in pts:
                st.assume(self.near(i, j) == self.near(j, i))
                st.assume(z3.Implies(self.near(i, j), z3.And(self.ix(i, j) >= 0, self.ix(i, j) < self.cnt(i), self.nb(i, self.ix(i, j)) == j)))
                st.assume(z3.Implies(z3.And(self.core(i), self.core(j), self.near(i, j)), self.comp(i) == self.comp(j)))

    def query(self, ctx):
        def h(eng, st, fr, info, args):
            y = eng.lib.val(st, args[2])
            q = eng.lib.seq(st, args[1])
            b = fint('b')
            s = st.copy()
            s.assume(z3.And(b >= 0, b < self.c))
            t = eng.lib.sc(st, q.at(b))
            rows = [i for i in ints_in(t, b) if eng.pv.prove(s.hyps, z3.And(i >= 0, i < self.n, q.n == self.c, t == self.x.at(i, b)))[0] == 'proved']
            if not rows:
                raise Unsupported('the neighbours of something that is no row are looked for')
            i = rows[0]
            m = eng.lib.val(st, args[0])
            if not eng.dry:
                ctx.post(eng, st, same(y, self.x), 'neighbours are looked for in the data')
                ctx.post(eng, st, eng.lib.sc(st, field(eng, m, 'DBSCAN', 'eps')) == self.eps, 'eps is unchanged')
            self.asked.append(i)
            st.assume(z3.And(self.cnt(i) >= 0, self.cnt(i) <= self.n))
            return [(st, Seq(self.cnt(i), lambda a: self.nb(i, a)))]
        self.eng.replace['region_query'] = h

    def view(self, S, v):
        """(visited, tag, cluster) of a model, and its lengths"""
        eng = self.eng
        m = eng.lib.val(S, v)
        vis = eng.lib.seq(S, field(eng, m, 'DBSCAN', '_visited'))
        cl = eng.lib.val(S, field(eng, m, 'DBSCAN', 'clusters'))
        if not isinstance(cl, Enum) or 1 not in cl.pay:
            raise Unsupported('no clusters yet')
        q = eng.lib.seq(S, cl.pay[1][0])

        def tag(a):
            return zi(strip(q.at(a)).disc) == 1

        def num(a):
            e = strip(q.at(a))
            if 1 not in e.pay:
                if isinstance(e.disc, int) and e.disc == 0:
                    return iv(-1)
                raise Unsupported('a cluster without its number')
            return eng.lib.sc(S, e.pay[1][0])
        return lambda a: eng.lib.sc(S, vis.at(a)), tag, num, vis.n, q.n, zi(cl.disc)


def expansion(W, V0, T0, C0, V, T, C, p, c, K=None):
    """what expanding cluster c from row p has done to the rows, as far as the K-th neighbour (or to the end)"""
    out = []
    for w in (p,) + tuple(W.r):
        out.append(('a visited row stays visited', z3.Implies(V0(w), V(w))))
    out.append(('the row expanded has the cluster', z3.And(T(p), C(p) == c)))
    # seen_at: any row
    out.append(('rows visited before keep their cluster', All(1, lambda a: z3.Implies(z3.And(a >= 0, a < W.n, V0(a)), z3.And(V(a), z3.Implies(a != p, z3.And(T(a) == T0(a), z3.Implies(T(a), C(a) == C0(a)))))))))
    for a, b in ((0, 1), (1, 0)):
        a, b = W.r[a], W.r[b]
        new = z3.And(V(a), z3.Not(V0(a)))
        out += [('core rows newly visited have the cluster', z3.Implies(z3.And(new, W.core(a)), z3.And(T(a), C(a) == c))),
                ('other rows keep their cluster', z3.Implies(z3.And(a != p, z3.Not(z3.And(new, W.core(a)))), z3.And(T(a) == T0(a), z3.Implies(T(a), C(a) == C0(a))))),
                ('all neighbours of a core row newly visited are visited', z3.Implies(z3.And(new, W.core(a), W.near(a, b)), V(b))),
                ('core rows newly visited are linked to the row expanded', z3.Implies(z3.And(new, W.core(a)), W.comp(a) == W.comp(p))),
                ('the neighbours gone through are visited', z3.Implies(z3.And(W.near(p, a), W.ix(p, a) < K) if K is not None else W.near(p, a), V(a)))]
    return out


def model_leaf(eng, L, S):
    """the model the loop works on"""
    for c, v in S.cells.items():
        if isinstance(v, Agg) and str(v.ty).endswith('DBSCAN'):
            return v
    raise Unsupported('no model')


def calling(ctx, W, eng, pts):
    """expand_cluster by its contract"""
    def h(eng, st, fr, info, args):
        W.calls.append(1)
        V0, T0, C0, vn, qn, some_ = W.view(st, args[0])
        q, ns, c = eng.lib.sc(st, args[2]), eng.lib.seq(st, args[3]), eng.lib.sc(st, args[4])
        W.world(st, tuple(pts()) + (q,))
        if not eng.dry:
            ctx.post(eng, st, same(eng.lib.val(st, args[1]), W.x), 'clusters are expanded in the data')
            ctx.post(eng, st, z3.And(q >= 0, q < W.n, vn == W.n, qn == W.n, some_ == 1), 'the row expanded exists')
            a = fint('a')
            s = st.copy()
            s.assume(z3.And(a >= 0, a < W.cnt(q)))
            ctx.post(eng, s, z3.And(ns.n == W.cnt(q), eng.lib.sc(s, ns.at(a)) == W.nb(q, a)), 'it is expanded with its neighbours')
            ctx.post(eng, st, z3.And(V0(q), W.core(q)), 'it is a visited core row')
        k = next(PV._cnt)
        Vf, Tf, Cf = z3.Function('V!%d' % k, IntS, BoolS), z3.Function('T!%d' % k, IntS, IntS), z3.Function('C!%d' % k, IntS, IntS)
        st.assume(All(1, lambda a: z3.And(Tf(a) >= 0, Tf(a) <= 1, Cf(a) >= 0)))
        T = lambda a: Tf(a) == 1
        for nm, fm in expansion(W, V0, T0, C0, Vf, T, Cf, q, c):
            st.assume(fm)
        for w in pts():
            st.assume(z3.Implies(V0(w), Vf(w)))
        m = model(eng, W.eps, W.minp, some(Vect(Seq(W.n, lambda a: Enum('Option', Tf(a), {0: (), 1: (Cf(a),)})))), Seq(W.n, lambda a: Vf(a), elty=BOOL), W.pred)
        eng.lib.setv(st, eng.lib.ptr(st, args[0]), m)
        return [(st, UNIT)]
    W.calls = []
    eng.replace['expand_cluster'] = h


def c23(ctx):
    def expand(eng):
        f = ctx.method(eng, 'DBSCAN', 'expand_cluster')
        st = State()
        W = World(eng, st)
        W.pred = False
        n = W.n
        p, c = fint('p'), dim(st, 'cluster')
        st.assume(z3.And(p >= 0, p < n))
        vf, tf, cf = z3.Function('V', IntS, BoolS), z3.Function('T', IntS, IntS), z3.Function('C', IntS, IntS)
        st.assume(All(1, lambda a: z3.And(tf(a) >= 0, tf(a) <= 1, cf(a) >= 0)))
        st.assume(All(1, lambda a: z3.Implies(z3.And(a >= 0, a < W.cnt(p)), z3.And(W.nb(p, a) >= 0, W.nb(p, a) < n, W.near(p, W.nb(p, a))))))
        pts = (p,) + tuple(W.r)
        W.world(st, pts)
        st.assume(z3.And(vf(p), W.core(p)))
        W.query(ctx)
        calling(ctx, W, eng, lambda: pts)
        T0 = lambda a: tf(a) == 1

        def cands(L):
            def ex(S, K, j):
                V, T, C, vn, qn, t = W.view(S, model_leaf(eng, L, S))
                return expansion(W, vf, T0, cf, V, T, C, p, c, K)[j]
            if not any(l.kind == 'seq' for l in L.leaves):
                return []
            out = [Cand('lengths', lambda S, K: (lambda v: z3.And(v[3] == n, v[4] == n, v[5] == 1))(W.view(S, model_leaf(eng, L, S))), True),
                   Cand('settings', lambda S, K: z3.And(eng.lib.sc(S, field(eng, model_leaf(eng, L, S), 'DBSCAN', 'eps')) == W.eps, eng.lib.sc(S, field(eng, model_leaf(eng, L, S), 'DBSCAN', 'min_points')) == W.minp), True)]
            try:
                m = len(expansion(W, vf, T0, cf, *W.view(L.base, model_leaf(eng, L, L.base))[:3], p, c, iv(0)))
            except Unsupported:
                return []
            for j in range(m):
                nm = ex(L.base, iv(0), j)[0]
                out.append(Cand('%s (%d)' % (nm, j), lambda S, K, j=j: ex(S, K, j)[1]))
            return out
        eng.templates.append(cands)
        eng.inst_hints = list(pts)
        eng.allow_panic = z3.BoolVal(False)
        ctx.canary(eng, st.hyps, 'inputs')
        cell = eng.newcell(st, model(eng, W.eps, W.minp, some(Vect(Seq(n, lambda a: Enum('Option', tf(a), {0: (), 1: (cf(a),)})))), Seq(n, lambda a: vf(a), elty=BOOL)))
        for s, v in ctx.run(eng, f, st, [Ptr(cell), Ref(W.x), p, Seq(W.cnt(p), lambda a: W.nb(p, a)), c]):
            V, T, C, vn, qn, t = W.view(s, s.cells[cell])
            ctx.canary(eng, s.hyps, 'returns')
            ctx.post(eng, s, z3.And(vn == n, qn == n, t == 1), 'every row has its place')
            for nm, fm in expansion(W, vf, T0, cf, V, T, C, p, c):
                ctx.post(eng, s, fm, nm)
        if not W.asked or not W.calls:
            raise Unsupported('clusters are expanded another way')
    ctx.target('DBSCAN::expand_cluster', expand)

    def train(eng):
        f = ctx.method(eng, 'DBSCAN', 'train', 'UnSupModel')
        for pred in (False, True):
            st = State()
            W = World(eng, st)
            W.pred = pred
            n = W.n
            val = dim(st, 'v')
            W.world(st, tuple(W.r))
            W.query(ctx)
            pts = lambda: tuple(W.r) + tuple(W.asked[-1:])
            calling(ctx, W, eng, pts)
            eng.templates[:] = []

            def facts(S, V, T, C, K, m):
                out = []
                for a, b in ((0, 1), (1, 0)):
                    a, b = W.r[a], W.r[b]
                    done = z3.And(V(a), W.core(a))
                    out += [('the rows gone through are visited', z3.Implies(a < K, V(a))),
                            ('visited core rows have a cluster', z3.Implies(done, z3.And(T(a), C(a) >= 0, C(a) < m))),
                            ('no other row has one', z3.Implies(z3.Not(done), z3.Not(T(a)))),
                            ('the neighbours of a visited core row are visited', z3.Implies(z3.And(done, W.near(a, b)), V(b)))]
                a, b = W.r
                both = z3.And(V(a), W.core(a), V(b), W.core(b))
                out += [('core rows within eps have one cluster', z3.Implies(z3.And(both, W.near(a, b)), C(a) == C(b))),
                        ('rows of one cluster are linked', z3.Implies(z3.And(both, C(a) == C(b)), W.comp(a) == W.comp(b))),
                        ('every number below is the cluster of a row', AE(0, lambda: val < m, lambda w: z3.And(w >= 0, w < n, V(w), T(w), C(w) == val)))]
                return out

            def setting(S, m):
                g = lambda nm: eng.lib.sc(S, field(eng, m, 'DBSCAN', nm))
                return z3.And(g('eps') == W.eps, g('min_points') == W.minp, g('predictive') == z3.BoolVal(pred))

            def cands(L):
                if not any(l.kind == 'seq' for l in L.leaves):
                    return []
                at = lambda S: W.view(S, model_leaf(eng, L, S))
                out = [Cand('settings', lambda S, K: setting(S, model_leaf(eng, L, S)), True)]

                def vis(S, r):
                    return eng.lib.sc(S, eng.lib.seq(S, field(eng, model_leaf(eng, L, S), 'DBSCAN', '_visited')).at(r))
                for r in W.r:
                    out.append(Cand('%s so far is not visited' % r, lambda S, K, r=r: z3.Implies(r < K, z3.Not(vis(S, r)))))
                    out.append(Cand('%s is not visited' % r, lambda S, K, r=r: z3.Not(vis(S, r))))
                try:
                    v = at(L.base)
                except Unsupported:
                    return out
                out.append(Cand('lengths', lambda S, K: (lambda v: z3.And(v[3] == n, v[4] == n, v[5] == 1))(at(S)), True))
                for l in L.leaves:
                    if l.kind == 'int' and len(l.path) == 0:
                        for j, (nm, _) in enumerate(facts(L.base, v[0], v[1], v[2], iv(0), iv(0))):
                            out.append(Cand('%s (%d, %r)' % (nm, j, l), lambda S, K, j=j, l=l: facts(S, *at(S)[:3], K, l.get(S))[j][1]))
                return out
            eng.templates.append(cands)
            eng.inst_hints = list(W.r)
            eng.allow_panic = z3.BoolVal(False)
            ctx.canary(eng, st.hyps, 'inputs')
            for old in (False, True):
                s0 = st.copy()
                if old:
                    q, w = dim(s0, 'oldn'), dim(s0, 'oldv')
                    of, ov = z3.Function('OT', IntS, IntS), z3.Function('OC', IntS, IntS)
                    s0.assume(All(1, lambda a: z3.And(of(a) >= 0, of(a) <= 1, ov(a) >= 0)))
                    og = z3.Function('OV', IntS, BoolS)
                    obj = model(eng, W.eps, W.minp, some(Vect(Seq(q, lambda a: Enum('Option', of(a), {0: (), 1: (ov(a),)})))), Seq(w, lambda a: og(a), elty=BOOL), pred)
                else:
                    obj = model(eng, W.eps, W.minp, NONE, Seq(iv(0), lambda a: z3.BoolVal(False), elty=BOOL), pred)
                cell = eng.newcell(s0, obj)
                for s, v in ctx.run(eng, f, s0, [Ptr(cell), Ref(W.x)]):
                    if ok_of(ctx, eng, s, v, 'training succeeds') is None:
                        continue
                    V, T, C, vn, qn, t = W.view(s, s.cells[cell])
                    ctx.canary(eng, s.hyps, 'returns')
                    ctx.post(eng, s, z3.And(qn == n, t == 1), 'every row has its place')
                    a, b = W.r
                    cc = z3.And(W.core(a), W.core(b))
                    ctx.post(eng, s, z3.Implies(W.core(a), T(a)), 'a core row has a cluster')
                    ctx.post(eng, s, z3.Implies(z3.And(cc, W.near(a, b)), C(a) == C(b)), 'core rows within eps have one cluster')
                    ctx.post(eng, s, z3.Implies(z3.And(cc, C(a) == C(b)), W.comp(a) == W.comp(b)), 'core rows of one cluster are linked')
                    ctx.post(eng, s, AE(0, lambda: z3.And(T(a), z3.Not(W.core(a))), lambda w: z3.And(w >= 0, w < n, W.core(w), W.near(a, w))), 'a row near no core row has no cluster')
                    ctx.post(eng, s, AE(0, lambda: z3.And(T(a), val < C(a)), lambda w: z3.And(w >= 0, w < n, T(w), C(w) == val)), 'clusters are numbered from 0 on')
            if not W.asked or not W.calls:
                raise Unsupported('training goes another way')
    ctx.target('DBSCAN::train', train)

    def query(eng):
        f = ctx.method(eng, 'DBSCAN', 'region_query')
        st = State()
        n, c, minp, eps = dim(st, 'n'), dim(st, 'c'), dim(st, 'min'), z3.Real('eps')
        x, p = fmat('x', n, c), fvec('p', c)
        st.assume(eps > 0)
        r = fint('row')
        st.assume(z3.And(r >= 0, r < n))
        D = z3.Function('D', IntS, RealS)
        asked = []

        def sqrt(eng, st, fr, info, args):
            t = eng.lib.sc(st, args[0])
            rows = []
            for i in ints_in(t, fint('j')):
                s = st.copy()
                if eng.pv.prove(s.hyps, z3.And(t == psum(c, lambda a, i=i: (x.at(i, a) - p.at(a)) * (x.at(i, a) - p.at(a)))))[0] == 'proved':
                    rows.append(i)
                    break
            if not rows:
                raise Unsupported('a root of something else is taken')
            asked.append(1)
            return [(st, D(rows[0]))]
        eng.replace['sqrt'] = sqrt

        def cands(L):
            out = []
            for l in L.leaves:
                if l.kind == 'seq':
                    e = strip(l.get(L.base).at(fint('p')))
                    if isz(e) and e.sort() == IntS:
                        P = lambda S, l=l: l.get(S)
                        out.append(Cand('%r: ascending' % l, lambda S, K, P=P: up(P(S))))
                        out.append(Cand('%r: rows seen within eps' % l, lambda S, K, P=P: All(1, lambda a: z3.Implies(z3.And(a >= 0, a < P(S).n), z3.And(P(S).at(a) >= 0, P(S).at(a) < K, D(P(S).at(a)) < eps)))))
                        out.append(Cand('%r: the row is in it' % l, lambda S, K, P=P: AE(0, lambda: z3.And(r < K, D(r) < eps), lambda w: z3.And(w >= 0, w < P(S).n, P(S).at(w) == r))))
            return out

        def up(q):
            return All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < q.n), q.at(a) < q.at(b)))
        eng.templates.append(cands)
        eng.inst_hints = [r]
        eng.allow_panic = z3.BoolVal(False)
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ref(model(eng, eps, minp, NONE, Seq(iv(0), lambda a: z3.BoolVal(False), elty=BOOL))), Mat(iv(1), c, lambda i, j: p.at(j), 'Row'), Ref(x)]):
            ctx.canary(eng, s.hyps, 'returns')
            q = eng.lib.seq(s, v)
            ctx.post(eng, s, up(q), 'no row twice')
            ctx.post(eng, s, All(1, lambda a: z3.Implies(z3.And(a >= 0, a < q.n), z3.And(q.at(a) >= 0, q.at(a) < n, D(q.at(a)) < eps))), 'rows within eps only')
            ctx.post(eng, s, AE(0, lambda: D(r) < eps, lambda w: z3.And(w >= 0, w < q.n, q.at(w) == r)), 'every row within eps')
        if not asked:
            raise Unsupported('distances are found another way')
    ctx.target('DBSCAN::region_query', query)
