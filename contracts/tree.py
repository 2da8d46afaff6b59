"""C20: kd-trees and ball trees (src/learning/knn/binary_tree.rs)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, All, AE, RealS, IntS, BoolS, fint, iv, Conj
from vf.loops import Cand
from vf.mir import Unsupported
from vf.sym import State
from vf.sums import psum
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import struct, field, ok_of
from contracts.knn import callee, pair_leaves, ascending, fn2
from contracts.regress import some, NONE
from contracts.crossval import fseq
from contracts.kmeans import same

R = z3.RealVal
BT = 'learning::knn::binary_tree::'
KN = 'learning::knn::'
NodeS = z3.DeclareSort('Node')
sq = lambda x: x * x


class Tree:
    """an abstract tree over the rows of x: what split builds, by its contract"""

    def __init__(self, st, n):
        F = z3.Function
        k = next(PV._cnt)
        self.leaf, self.cn, self.child = F('leaf!%d' % k, NodeS, BoolS), F('cn!%d' % k, NodeS, IntS), F('child!%d' % k, NodeS, IntS, IntS)
        self.left, self.right = F('left!%d' % k, NodeS, NodeS), F('right!%d' % k, NodeS, NodeS)
        self.has, self.low = F('has!%d' % k, NodeS, IntS, BoolS), F('low!%d' % k, NodeS, RealS)
        self.pos = F('pos!%d' % k, NodeS, IntS, IntS)

    def facts(self, N, r, n, D):
        """the contract of the tree at node N and row r"""
        return z3.And(z3.Implies(self.leaf(N), z3.And(self.cn(N) >= 1, self.has(N, r) == z3.And(self.pos(N, r) >= 0, self.pos(N, r) < self.cn(N), self.child(N, self.pos(N, r)) == r))),
                      z3.Implies(z3.Not(self.leaf(N)), z3.And(self.has(N, r) == z3.Or(self.has(self.left(N), r), self.has(self.right(N), r)),
                                                              z3.Not(z3.And(self.has(self.left(N), r), self.has(self.right(N), r))),
                                                              z3.Implies(self.has(N, r), self.low(N) <= D(r)))),
                      z3.Implies(self.has(N, r), z3.And(r >= 0, r < n)))


def c20(ctx):
    lower(ctx)
    adding(ctx)
    searching(ctx)
    building(ctx)


def knearest(eng, k, pairs):
    return struct(eng, 'KNearest', {'k': k, 'pairs': pairs}, KN)


MAX = z3.Real('F64_MAX')


def adding(ctx):
    """the contract of KNearest::add and dist, proved on their bodies"""
    def add(eng):
        f = ctx.method(eng, 'KNearest', 'add')
        st = State()
        k, n = dim(st, 'k', 1), dim(st, 'n', 1)
        st.assume(n <= k)
        I, W = z3.Function('I', IntS, IntS), z3.Function('W', IntS, RealS)
        old = Seq(n, lambda a: Agg('tuple', (I(a), W(a))))
        st.assume(All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < n), W(a) <= W(b))))
        i, d = fint('i'), z3.Real('d')
        st.assume(z3.Implies(n == k, d <= W(n - 1)))
        cell = eng.newcell(st, knearest(eng, k, old))
        eng.templates.append(lambda L: [Cand('later pairs are no closer', lambda S, K: All(1, lambda a: z3.Implies(z3.And(a >= n - 1 - K, a >= 0, a < n), W(a) >= d)))])
        eng.allow_panic = z3.BoolVal(False)
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ptr(cell), i, d]):
            ctx.canary(eng, s.hyps, 'returns')
            o = s.cells[cell]
            new = eng.lib.seq(s, field(eng, o, 'KNearest', 'pairs'))
            m = z3.If(n < k, n + 1, k)
            ix = lambda a: strip(new.at(a)).f[0]
            ds = lambda a: strip(new.at(a)).f[1]
            ctx.post(eng, s, z3.And(eng.lib.sc(s, field(eng, o, 'KNearest', 'k')) == k, new.n == m), 'one more pair unless full')
            ctx.post(eng, s, AE(0, lambda: z3.BoolVal(True), lambda w: z3.And(w >= 0, w < m, ix(w) == i, ds(w) == d, z3.Implies(w > 0, z3.And(ds(w - 1) <= d, ds(w - 1) == W(w - 1))), z3.Implies(w < n, d <= W(w)))), 'the new pair is put in')
            a = fint('a')
            s2 = s.copy()
            s2.assume(z3.And(a >= 0, a < m))
            ctx.post(eng, s2, z3.Or(z3.And(ix(a) == i, ds(a) == d), z3.And(a < n, ix(a) == I(a), ds(a) == W(a), z3.Or(W(a) <= d)), z3.And(a > 0, ix(a) == I(a - 1), ds(a) == W(a - 1), W(a - 1) >= d)), 'the others keep their order')
            ctx.post(eng, s, All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < m), ds(a) <= ds(b))), 'in ascending order')
            ctx.post(eng, s, eng.lib.sc(s, v) == z3.If(m < k, MAX, ds(m - 1)), 'returns the k-th distance')
    ctx.target('KNearest::add', add)


def world(ctx, eng, st):
    """an abstract tree over n rows, the query, the row r that is followed, and the callees' contracts"""
    class O(object):
        pass
    o = O()
    n, c, k, r = o.n, o.c, o.k, o.r = dim(st, 'n', 1), dim(st, 'c'), dim(st, 'k', 1), fint('row')
    st.assume(z3.And(k <= n, r >= 0, r < n))
    x, p = o.x, o.p = fmat('x', n, c), fvec('p', c)
    D = o.D = z3.Function('D', IntS, RealS)
    st.assume(All(1, lambda i: z3.And(D(i) >= 0, D(i) < MAX)))
    T = o.T = Tree(st, n)
    root = z3.Const('root', NodeS)
    st.assume(T.has(root, r))
    cur = o.cur = []
    o.eng = eng
    o.lows, o.adds, o.asked = [], [], []

    def view(st, N):
        st.assume(T.facts(N, r, n, D))
        st.assume(All(1, lambda q: z3.Implies(z3.And(T.leaf(N), q >= 0, q < T.cn(N)), z3.And(T.child(N, q) >= 0, T.child(N, q) < n, z3.Implies(T.child(N, q) == r, z3.And(T.has(N, r), T.pos(N, r) == q))))))
        cur[:] = [N]
        return Enum('Node', z3.If(T.leaf(N), iv(1), iv(0)), {0: (Agg('B', (N,)),), 1: (Agg(BT + 'Leaf', (Seq(T.cn(N), lambda q: T.child(N, q)),)),)})
    eng.views['Node'] = view
    eng.viewsorts['Node'] = NodeS

    def node(v):
        return v.f[0] if isinstance(v, Agg) and v.ty == 'B' else None

    def dist(eng, st, fr, info, args):
        N = node(under(eng, st, args[0]))
        if N is None:
            if isinstance(under(eng, st, args[0]), Agg):
                return None
            raise Unsupported('a distance is asked for')
        q = eng.lib.seq(st, args[1])
        if not eng.dry:
            ctx.post(eng, st, q.eq_all(p), 'the distance of the query to a subtree is asked for')
        o.lows.append(1)
        return [(st, T.low(N))]
    eng.replace['dist'] = dist

    def gd(eng, st, fr, info, args):
        y, q, ids = eng.lib.val(st, args[0]), eng.lib.seq(st, args[1]), eng.lib.seq(st, args[2])
        o.asked.append(1)
        if not eng.dry:
            ctx.post(eng, st, same(y, x), 'distances to the rows of the data')
            ctx.post(eng, st, q.eq_all(p), 'distances of the query')
            ctx.post(eng, st, z3.And(ids.n >= 1), 'distances to some rows')
            ctx.post(eng, st, All(1, lambda a: z3.Implies(z3.And(a >= 0, a < ids.n), z3.And(ids.at(a) >= 0, ids.at(a) < n))), 'rows that exist')
        return [(st, Seq(ids.n, lambda a: D(ids.at(a))))]
    eng.replace['get_distances'] = gd

    def kid(fn):
        def h(eng, st, fr, info, args):
            N = node(under(eng, st, args[0]))
            return None if N is None else [(st, Ref(fn(N)))]
        return h
    eng.replace['left'], eng.replace['right'] = kid(T.left), kid(T.right)

    def close(eng, st, fr, info, args):
        N = node(under(eng, st, args[0]))
        if N is None:
            return None
        return [(st, Agg('tuple', (Ref(T.left(N)), Ref(T.right(N))))), (st.copy(), Agg('tuple', (Ref(T.right(N)), Ref(T.left(N)))))]
    eng.replace['maybe_close'] = close

    def add(eng, st, fr, info, args):
        v = eng.lib.val(st, args[0])
        if not (isinstance(v, Agg) and str(v.ty).endswith('KNearest')):
            return None
        o.adds.append(1)
        i, d = eng.lib.sc(st, args[1]), eng.lib.sc(st, args[2])
        kk, old = eng.lib.sc(st, field(eng, v, 'KNearest', 'k')), eng.lib.seq(st, field(eng, v, 'KNearest', 'pairs'))
        ds = lambda a: strip(old.at(a)).f[1]
        if not eng.dry:
            ctx.post(eng, st, z3.And(old.n >= 1, old.n <= kk, z3.Implies(old.n == kk, d <= ds(old.n - 1))), 'a pair is added only if it belongs to the best')
        w, m = fint('w'), z3.If(old.n < kk, old.n + 1, kk)
        st.assume(z3.And(w >= 0, w <= old.n, w < m, z3.Implies(w > 0, ds(w - 1) <= d), z3.Implies(w < old.n, d <= ds(w))))
        new = Seq(m, lambda a: Agg('tuple', (z3.If(a < w, strip(old.at(a)).f[0], z3.If(a == w, i, strip(old.at(a - 1)).f[0])), z3.If(a < w, ds(a), z3.If(a == w, d, ds(a - 1))))))
        eng.lib.setv(st, eng.lib.ptr(st, args[0]), knearest(eng, kk, new))
        return [(st, z3.If(m < kk, MAX, strip(new.at(m - 1)).f[1]))]
    eng.replace['add'] = add
    o.has = lambda S, q: T.has(under(eng, S, q), r)
    o.obj = struct(eng, 'BinaryTree', {'leafsize': dim(st, 'leafsize'), 'data': some(x), 'root': some(root)}, BT)
    eng.inst_hints = [r]
    eng.allow_panic = z3.BoolVal(False)
    return o


def inv(o, Q, P):
    """what holds of the queue Q and the pairs P = (n, row, distance) between two steps"""
    n, k, r, D = o.n, o.k, o.r, o.D
    out = []
    u = fint('u')
    if Q is not None:
        qe = under(o.eng, o.S, Q.at(u))
        queued = lambda w: z3.And(w >= 0, w < Q.n, o.has(o.S, Q.at(w)))
        out.append(('the row is in one subtree queued at most', PV.seen_at(All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < Q.n), z3.Not(z3.And(o.has(o.S, Q.at(a)), o.has(o.S, Q.at(b)))))), u, qe, qe)))
    if P is None:
        return out
    m, ix, ds = P
    held = lambda w: z3.And(w >= 0, w < m, ix(w) == r)
    out += [('ascending', PV.seen_at(ascending(m, ds), u, ds(u), ds(u))),
            ('between one and k pairs', z3.And(m >= 1, m <= k)),
            ('rows with exact distances', PV.seen_at(All(1, lambda a: z3.Implies(z3.And(a >= 0, a < m), z3.And(ix(a) >= 0, ix(a) < n, ds(a) == D(ix(a))))), u, ix(u))),
            ('the row is held once at most', PV.seen_at(All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < m), z3.Not(z3.And(ix(a) == r, ix(b) == r)))), u, ix(u), ix(u)))]
    if Q is not None:
        out.append(('the row is not both held and queued', PV.seen_at(All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < m, b >= 0, b < Q.n), z3.Not(z3.And(ix(a) == r, o.has(o.S, Q.at(b)))))), u, ix(u), qe)))
        out.append(('the row is held, queued or no closer', AE(0, lambda: z3.BoolVal(True), lambda w: z3.Or(z3.And(m == k, D(r) >= ds(k - 1)), held(w), queued(w)))))
    return out


def pairs(q):
    return q.n, (lambda a: strip(q.at(a)).f[0]), (lambda a: strip(q.at(a)).f[1])


def searching(ctx):
    def distances(eng):
        f = ctx.free(eng, KN + 'get_distances')
        st = State()
        n, c, m = dim(st, 'n'), dim(st, 'c'), dim(st, 'm', 1)
        x, p, ids = fmat('x', n, c), fvec('p', c), fseq('ids', m)
        st.assume(All(1, lambda a: z3.Implies(z3.And(a >= 0, a < m), z3.And(ids.at(a) >= 0, ids.at(a) < n))))
        D = z3.Function('D', IntS, RealS)
        calls = callee(ctx, eng, x, p, D)
        eng.allow_panic = z3.BoolVal(False)
        for s, v in ctx.run(eng, f, st, [Ref(x), Ref(p), Ref(ids)]):
            q = eng.lib.seq(s, v)
            ctx.post(eng, s, q.n == m, 'one distance per row asked for')
            ctx.post(eng, s, All(1, lambda a: z3.Implies(z3.And(a >= 0, a < m), q.at(a) == D(ids.at(a)))), 'the distance of each row asked for')
        if not calls:
            raise Unsupported('no distance is asked for')
    ctx.target('get_distances', distances)

    def leaf(eng):
        f = ctx.method(eng, 'BinaryTree', 'search_leaf')
        st = State()
        o = world(ctx, eng, st)

        def cands(L):
            out = []
            for l in L.leaves:
                if l.kind == 'seq':
                    e = under(eng, L.base, l.get(L.base).at(fint('p')))
                    if isz(e) and e.sort() == NodeS:
                        def Q(S, l=l):
                            o.S = S
                            return l.get(S)
                        out.append(Cand('the row is in one subtree queued at most', lambda S, K: inv(o, Q(S), None)[0][1]))
                        out.append(Cand('a subtree is queued', lambda S, K: Q(S).n >= 1, True))
                        out.append(Cand('the row is in a subtree queued', lambda S, K: AE(0, lambda: z3.BoolVal(True), lambda w: z3.And(w >= 0, w < Q(S).n, o.has(S, Q(S).at(w))))))
            return out
        eng.templates.append(cands)
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ref(o.obj), Ref(o.p), o.k], {'B': ('adt', 'B', ())}):
            v = ok_of(ctx, eng, s, v, 'a built search answers')
            if v is None:
                continue
            ctx.canary(eng, s.hyps, 'returns')
            kn, q = strip(v).f
            kn, q = eng.lib.val(s, kn), eng.lib.seq(s, q)
            o.S = s
            ctx.post(eng, s, eng.lib.sc(s, field(eng, kn, 'KNearest', 'k')) == o.k, 'k pairs are looked for')
            for nm, fm in inv(o, q, pairs(eng.lib.seq(s, field(eng, kn, 'KNearest', 'pairs')))):
                ctx.post(eng, s, fm, nm)
        if not o.asked:
            raise Unsupported('the search takes another way')
    ctx.target('BinaryTree::search_leaf', leaf)

    def search(eng):
        u = fint('u')
        f = ctx.method(eng, 'BinaryTree', 'search', 'KNearestSearch')
        st = State()
        o = world(ctx, eng, st)
        n, k, r, D, T, cur, has = o.n, o.k, o.r, o.D, o.T, o.cur, o.has
        started = []

        def first(eng, st, fr, info, args):
            started.append(1)
            if not eng.dry:
                ctx.post(eng, st, eng.lib.seq(st, args[1]).eq_all(o.p), 'the leaf of the query is asked for')
                ctx.post(eng, st, eng.lib.sc(st, args[2]) == k, 'k pairs are asked for')
            G, I, W = fn2('subtree', NodeS), fn2('I', IntS), fn2('W', RealS)
            m, qn = fint('m'), fint('queued')
            st.assume(qn >= 0)
            q, pr = Seq(qn, lambda a: Ref(G(a))), Seq(m, lambda a: Agg('tuple', (I(a), W(a))))
            o.S = st
            for nm, fm in inv(o, q, pairs(pr)):
                st.assume(fm)
            return [(st, Enum('Result', 0, {0: (Agg('tuple', (knearest(eng, k, pr), q)),)}))]
        eng.replace['search_leaf'] = first

        def cands(L):
            out = []
            ql = None
            for l in L.leaves:
                if l.kind == 'seq':
                    e = under(eng, L.base, l.get(L.base).at(fint('p')))
                    if isz(e) and e.sort() == NodeS:
                        ql = l
            for l, ix, ds in pair_leaves(L):
                def at(S, j, l=l):
                    o.S = S
                    return inv(o, queue(eng, S), pairs(l.get(S)))[j][1]
                P = lambda S, l=l: l.get(S)
                q = lambda S, a: ix(P(S), a)
                full = lambda S: z3.And(P(S).n == k, D(r) >= ds(P(S), k - 1))
                held = lambda S, w: z3.And(w >= 0, w < P(S).n, q(S, w) == r)
                queued = lambda S, w: z3.And(w >= 0, w < queue(eng, S).n, has(S, queue(eng, S).at(w)))
                names = ['the row is in one subtree queued at most', 'ascending', 'between one and k pairs', 'rows with exact distances', 'the row is held once at most', 'the row is not both held and queued', 'the row is held, queued or no closer']
                for j, nm in enumerate(names):
                    if j != 6 or ql is not None:
                        if j or ql is not None:
                            out.append(Cand(nm, lambda S, K, j=j: at(S, j), quick=True))
                if ql is None and cur:
                    N = cur[0]
                    wait = lambda K: z3.And(T.leaf(N), T.has(N, r), T.pos(N, r) >= K)
                    out.append(Cand('a row of the leaf still to come is not held', lambda S, K: PV.seen_at(All(1, lambda a: z3.Implies(z3.And(a >= 0, a < P(S).n, q(S, a) == r), z3.Not(wait(K)))), u, q(S, u)), quick=True))
                    out.append(Cand('the row is held, queued, to come or no closer', lambda S, K: AE(0, lambda: z3.BoolVal(True), lambda w: z3.Or(full(S), held(S, w), queued(S, w), wait(K))), quick=True))
                    for g in L.leaves:
                        if g.kind == 'real':
                            out.append(Cand('%r is the k-th distance' % g, lambda S, K, g=g: g.get(S) == z3.If(P(S).n < k, MAX, ds(P(S), P(S).n - 1)), True))
            return out
        eng.templates.append(cands)
        ctx.canary(eng, st.hyps, 'inputs')
        outs = ctx.run(eng, f, st, [Ref(o.obj), Ref(o.p), k], {'B': ('adt', 'B', ())})
        if not started or not o.adds or not o.lows or not o.asked:
            raise Unsupported('the search takes another way')
        for s, v in outs:
            v = ok_of(ctx, eng, s, v, 'a built search answers')
            if v is None:
                continue
            ctx.canary(eng, s.hyps, 'returns')
            ids, ds = [eng.lib.seq(s, q) for q in strip(v).f]
            ctx.post(eng, s, z3.And(ids.n == ds.n, ids.n >= 1, ids.n <= k), 'as many rows as distances, at most k')
            ctx.post(eng, s, ascending(ids.n, ds.at), 'in ascending order of distance')
            ctx.post(eng, s, All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < ids.n), z3.Not(z3.And(ids.at(a) == r, ids.at(b) == r)))), 'no row twice')
            ctx.post(eng, s, All(1, lambda a: z3.Implies(z3.And(a >= 0, a < ids.n), z3.And(ids.at(a) >= 0, ids.at(a) < n, ds.at(a) == D(ids.at(a))))), 'rows of the data with their exact distances')
            ctx.post(eng, s, AE(0, lambda: z3.BoolVal(True), lambda w: z3.Or(z3.And(ids.n == k, D(r) >= ds.at(k - 1)), z3.And(w >= 0, w < ids.n, ids.at(w) == r))), 'a row missing is no closer than the k-th returned')
    ctx.target('BinaryTree::search', search)


def queue(eng, S):
    for c, v in S.cells.items():
        v = strip(v)
        if isinstance(v, Seq):
            e = under(eng, S, v.at(fint('p')))
            if isz(e) and e.sort() == NodeS:
                return v
    raise Unsupported('no queue of subtrees')


def lower(ctx):
    def kd(eng):
        f = ctx.method(eng, 'KDTreeBranch', 'dist', 'BinarySplit')
        st = State()
        c = dim(st, 'c')
        p, lo, hi, y = fvec('p', c), fvec('min', c), fvec('max', c), fvec('y', c)
        obj = struct(eng, 'KDTreeBranch', {'dim': iv(0), 'split': R(0), 'min': Vect(lo), 'max': Vect(hi), 'left': UNIT, 'right': UNIT}, BT)
        gap = lambda j: z3.If(p.at(j) < lo.at(j), sq(lo.at(j) - p.at(j)), z3.If(hi.at(j) < p.at(j), sq(hi.at(j) - p.at(j)), R(0)))
        eng.templates.append(lambda L: [Cand('%r stays below the distance' % l, lambda S, K, l=l: z3.And(l.get(S) >= 0, l.get(S) <= psum(K, lambda j: sq(p.at(j) - y.at(j)))), True) for l in L.leaves if l.kind == 'real'])
        eng.allow_panic = z3.BoolVal(False)
        st.assume(All(1, lambda j: z3.Implies(z3.And(j >= 0, j < c), z3.And(lo.at(j) <= y.at(j), y.at(j) <= hi.at(j)))))
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ref(obj), Ref(p)]):
            d = eng.lib.sc(s, v)
            ctx.post(eng, s, z3.And(d >= 0, sq(d) <= psum(c, lambda j: sq(p.at(j) - y.at(j)))), 'no row inside the box is closer than the distance to the box')
    ctx.target('KDTreeBranch::dist', kd)

    def ball(eng):
        f = ctx.method(eng, 'BallTreeBranch', 'dist', 'BinarySplit')
        st = State()
        c = dim(st, 'c')
        p, m = fvec('p', c), fvec('center', c)
        rad, dcp, dcy, dpy = [z3.Real(x) for x in ('radius', 'center_to_query', 'center_to_row', 'query_to_row')]
        obj = struct(eng, 'BallTreeBranch', {'dim': iv(0), 'split': R(0), 'center': Vect(m), 'radius': rad, 'left': UNIT, 'right': UNIT}, BT)
        st.assume(z3.And(dcp >= 0, dcy >= 0, dpy >= 0, dcy <= rad, dcp <= dcy + dpy))   # the row is in the ball; triangle inequality
        asked = []

        def dist(eng, st, fr, info, args):
            if isinstance(strip(args[0]), Agg):
                return None
            a, b = eng.lib.seq(st, args[0]), eng.lib.seq(st, args[1])
            if not any(eng.pv.prove(st.hyps, u.eq_all(m), )[0] == 'proved' and eng.pv.prove(st.hyps, v.eq_all(p))[0] == 'proved' for u, v in ((a, b), (b, a))):
                raise Unsupported('distance of something else than the centre and the query')
            asked.append(1)
            return [(st, dcp)]
        eng.replace['dist'] = dist
        eng.allow_panic = z3.BoolVal(False)
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ref(obj), Ref(p)]):
            ctx.post(eng, s, eng.lib.sc(s, v) <= dpy, 'no row inside the ball is closer than the distance to the ball')
        if not asked:
            raise Unsupported('no distance is asked for')
    ctx.target('BallTreeBranch::dist', ball)

    def ballbuild(eng):
        f = ctx.method(eng, 'BallTreeBranch', 'build', 'BinarySplit')
        st = State()
        n, c, m = dim(st, 'n', 1), dim(st, 'c'), dim(st, 'm', 1)
        x = fmat('x', n, c)
        rem = fseq('remains', m)
        st.assume(All(1, lambda a: z3.Implies(z3.And(a >= 0, a < m), z3.And(rem.at(a) >= 0, rem.at(a) < n))))
        a = fint('a')
        st.assume(z3.And(a >= 0, a < m))
        D = z3.Function('D', IntS, RealS)
        st.assume(All(1, lambda i: D(i) >= 0))
        centers = []

        def dist(eng, st, fr, info, args):
            if isinstance(strip(args[0]), Agg):
                return None
            u, v = eng.lib.seq(st, args[0]), eng.lib.seq(st, args[1])
            j = fint('j')
            for q, w in ((u, v), (v, u)):
                t = strip(w.at(j))
                if isz(t) and z3.is_app(t) and t.decl().eq(x.at(fint('i'), j).decl()):
                    i = z3.simplify(z3.substitute(t.arg(0), (j, iv(0))))
                    s = st.copy()
                    s.assume(z3.And(j >= 0, j < c))
                    if eng.pv.prove(s.hyps, z3.And(w.n == c, t == x.at(i, j)))[0] == 'proved':
                        centers.append((st, q))
                        return [(st, D(i))]
            raise Unsupported('distance of something else than a row')
        eng.replace['dist'] = dist
        eng.templates.append(lambda L: [Cand('%r is no less than the distance of a row seen' % l, lambda S, K, l=l: z3.And(l.get(S) >= 0, z3.Implies(a < K, D(rem.at(a)) <= l.get(S))), True) for l in L.leaves if l.kind == 'real'])
        eng.inst_hints = [a]
        eng.no_closed = True
        sp, d = z3.Real('split'), dim(st, 'dim')
        eng.allow_panic = z3.BoolVal(False)
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ref(x), rem, d, sp, Vect(fvec('min', c)), Vect(fvec('max', c)), Agg('L', ()), Agg('Rt', ())]):
            v = eng.lib.val(s, v)
            if v.disc != 0:
                ctx.fail(eng, 'a branch is built', 'a leaf')
                continue
            o = eng.lib.val(s, v.pay[0][0])
            g = lambda nm: field(eng, o, 'BallTreeBranch', nm)
            if not centers:
                raise Unsupported('no distance is asked for')
            ctx.post(eng, s, D(rem.at(a)) <= eng.lib.sc(s, g('radius')), 'every row lies in the ball')
            for s1, q in centers:
                ctx.post(eng, s1, q.eq_all(eng.lib.seq(s, g('center'))), 'distances are taken to the centre kept')
            branch(ctx, eng, s, g, d, sp)
    ctx.target('BallTreeBranch::build', ballbuild)

    def kdbuild(eng):
        f = ctx.method(eng, 'KDTreeBranch', 'build', 'BinarySplit')
        st = State()
        c = dim(st, 'c')
        lo, hi, sp, d = fvec('min', c), fvec('max', c), z3.Real('split'), dim(st, 'dim')
        for s, v in ctx.run(eng, f, st, [Ref(fmat('x', dim(st, 'n'), c)), fseq('remains', dim(st, 'm')), d, sp, Vect(lo), Vect(hi), Agg('L', ()), Agg('Rt', ())]):
            v = eng.lib.val(s, v)
            if v.disc != 0:
                ctx.fail(eng, 'a branch is built', 'a leaf')
                continue
            o = eng.lib.val(s, v.pay[0][0])
            g = lambda nm: field(eng, o, 'KDTreeBranch', nm)
            ctx.post(eng, s, eng.lib.seq(s, g('min')).eq_all(lo), 'the lower corner is kept')
            ctx.post(eng, s, eng.lib.seq(s, g('max')).eq_all(hi), 'the upper corner is kept')
            branch(ctx, eng, s, g, d, sp)
    ctx.target('KDTreeBranch::build', kdbuild)

    def sides(ty):
        def go(eng):
            st = State()
            c, d, sp = dim(st, 'c', 1), dim(st, 'dim'), z3.Real('split')
            st.assume(d < c)
            p = fvec('p', c)
            vals = {'dim': d, 'split': sp, 'left': BoxV(Agg('L', ())), 'right': BoxV(Agg('Rt', ()))}
            vals.update({'min': UNIT, 'max': UNIT} if ty == 'KDTreeBranch' else {'center': UNIT, 'radius': R(0)})
            obj = struct(eng, ty, vals, BT)
            eng.allow_panic = z3.BoolVal(False)
            for s, v in ctx.run(eng, ctx.method(eng, ty, 'maybe_close', 'BinarySplit'), st, [Ref(obj), Ref(p)]):
                got = sorted(under(eng, s, q).ty for q in strip(v).f)
                (ctx.ok if got == ['L', 'Rt'] else lambda e, m: ctx.fail(e, m, str(got)))(eng, 'both subtrees are returned')
            for nm, w in (('left', 'L'), ('right', 'Rt')):
                for s, v in ctx.run(eng, ctx.method(eng, ty, nm, 'BinarySplit'), st, [Ref(obj)]):
                    got = under(eng, s, v).ty
                    (ctx.ok if got == w else lambda e, m: ctx.fail(e, m, str(got)))(eng, nm + ' is the %s subtree' % nm)
        ctx.target(ty + ' subtrees', go)
    sides('KDTreeBranch')
    sides('BallTreeBranch')


def branch(ctx, eng, s, g, d, sp):
    ctx.post(eng, s, z3.And(eng.lib.sc(s, g('dim')) == d, eng.lib.sc(s, g('split')) == sp), 'the split is kept')
    for nm, w in (('left', 'L'), ('right', 'Rt')):
        got = under(eng, s, g(nm))
        (ctx.ok if isinstance(got, Agg) and got.ty == w else lambda e, m: ctx.fail(e, m, 'another one'))(eng, 'the %s subtree is kept' % nm)


def under(eng, s, v):
    v = eng.lib.val(s, v)
    while isinstance(v, (BoxV, Ref)):
        v = eng.lib.val(s, v.v)
    return v


def boxed(x, rows, m, lo, hi, c):
    return All(2, lambda a, j: z3.Implies(z3.And(a >= 0, a < m, j >= 0, j < c), z3.And(lo(j) <= x.at(rows(a), j), x.at(rows(a), j) <= hi(j))))


def inrange(rows, m, n):
    return All(1, lambda a: z3.Implies(z3.And(a >= 0, a < m), z3.And(rows(a) >= 0, rows(a) < n)))


def node_data(ctx, eng, st):
    """rows rem[0..m) of x, all in the box, row rem[p] = r there only"""
    class O(object):
        pass
    o = O()
    o.n, o.c, o.m = dim(st, 'n', 1), dim(st, 'c', 1), dim(st, 'm', 1)
    o.x, o.rem, o.lo, o.hi = fmat('x', o.n, o.c), fseq('remains', o.m), fvec('dmin', o.c), fvec('dmax', o.c)
    o.p = fint('p')
    st.assume(z3.And(o.p >= 0, o.p < o.m))
    o.r = o.rem.at(o.p)
    st.assume(inrange(o.rem.at, o.m, o.n))
    st.assume(boxed(o.x, o.rem.at, o.m, o.lo.at, o.hi.at, o.c))
    st.assume(All(1, lambda a: z3.Implies(z3.And(a >= 0, a < o.m, o.rem.at(a) == o.r), a == o.p)))
    o.obj = struct(eng, 'BinaryTree', {'leafsize': dim(st, 'leafsize'), 'data': NONE, 'root': NONE}, BT)
    eng.inst_hints = [o.p]
    eng.allow_panic = z3.BoolVal(False)
    return o


def building(ctx):
    def ends(name, up):
        def go(eng):
            f = ctx.free(eng, BT + name)
            st = State()
            n, c = dim(st, 'n', 1), dim(st, 'c')
            x = fmat('x', n, c)
            i, j = fint('i'), fint('j')
            st.assume(z3.And(i >= 0, i < n, j >= 0, j < c))
            le = (lambda a, b: b <= a) if up else (lambda a, b: a <= b)

            def cands(L):
                return [Cand('%r bounds the rows seen' % l, lambda S, K, l=l: z3.Implies(i < K, le(l.get(S).at(j), x.at(i, j))), True) for l in L.leaves if l.kind == 'seq' and isz(strip(l.get(L.base).at(j))) and strip(l.get(L.base).at(j)).sort() == RealS] + \
                       [Cand('%r bounds the rows before' % l, lambda S, K, l=l: le(l.get(S).at(j), l.get(L.entry).at(j)), True) for l in L.leaves if l.kind == 'seq' and isz(strip(l.get(L.base).at(j))) and strip(l.get(L.base).at(j)).sort() == RealS]
            eng.templates.append(cands)
            eng.inst_hints = [i, j]
            eng.allow_panic = z3.BoolVal(False)
            for s, v in ctx.run(eng, f, st, [Ref(x)]):
                q = eng.lib.seq(s, v)
                ctx.post(eng, s, q.n == c, 'one bound per column')
                ctx.post(eng, s, le(q.at(j), x.at(i, j)), 'bounds every entry of the column')
        ctx.target(name, go)
    ends('min', False)
    ends('max', True)

    def select(eng):
        f = ctx.method(eng, 'BinaryTree', 'select_split')
        st = State()
        o = node_data(ctx, eng, st)
        n, c, m, x, rem, r, p = o.n, o.c, o.m, o.x, o.rem, o.r, o.p

        def cands(L):
            out = []
            ints = [l for l in L.leaves if l.kind == 'seq' and isz(strip(l.get(L.base).at(p))) and strip(l.get(L.base).at(p)).sort() == IntS]
            reals = [l for l in L.leaves if l.kind == 'seq' and isz(strip(l.get(L.base).at(p))) and strip(l.get(L.base).at(p)).sort() == RealS]
            sc = [v for v in L.base.cells.values() if isz(v)]
            ds, sp = [v for v in sc if v.sort() == IntS], [v for v in sc if v.sort() == RealS]
            if reals:
                for l in reals:
                    G = lambda S, l=l: l.get(S)
                    out.append(Cand('%r keeps its length' % l, lambda S, K, G=G: G(S).n == c, True))
                    out.append(Cand('%r is below the rows' % l, lambda S, K, G=G: All(2, lambda a, j: z3.Implies(z3.And(a >= 0, a < m, j >= 0, j < c), G(S).at(j) <= x.at(rem.at(a), j)))))
                    out.append(Cand('%r is above the rows' % l, lambda S, K, G=G: All(2, lambda a, j: z3.Implies(z3.And(a >= 0, a < m, j >= 0, j < c), G(S).at(j) >= x.at(rem.at(a), j)))))
                for l in ints:
                    G = lambda S, l=l: l.get(S)
                    out.append(Cand('%r are the rows given' % l, lambda S, K, G=G: Conj([G(S).n == m, All(1, lambda a: z3.Implies(z3.And(a >= 0, a < m), G(S).at(a) == rem.at(a)))])))
                return out
            bounds = [v.s for v in L.base.cells.values() if isinstance(v, Vect)]
            for q, l in enumerate(ints):
                G = lambda S, l=l: l.get(S)
                out.append(Cand('%r has at most the rows seen' % l, lambda S, K, G=G: z3.And(G(S).n >= 0, G(S).n <= K), True))
                out.append(Cand('%r has rows seen' % l, lambda S, K, G=G: AE(1, lambda a: z3.And(a >= 0, a < G(S).n), lambda a, w: z3.And(w >= 0, w < K, w < m, G(S).at(a) == rem.at(w)))))
                out.append(Cand('%r has the row only if seen' % l, lambda S, K, G=G: All(1, lambda a: z3.Implies(z3.And(a >= 0, a < G(S).n, G(S).at(a) == r), p < K))))
                out.append(Cand('%r has the row once' % l, lambda S, K, G=G: All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < G(S).n), z3.Not(z3.And(G(S).at(a) == r, G(S).at(b) == r))))))
                for v in bounds:
                    out.append(Cand('%r is above %s' % (l, v.at(p)), lambda S, K, G=G, v=v: All(2, lambda a, j: z3.Implies(z3.And(a >= 0, a < G(S).n, j >= 0, j < c), x.at(G(S).at(a), j) >= v.at(j)))))
                    out.append(Cand('%r is below %s' % (l, v.at(p)), lambda S, K, G=G, v=v: All(2, lambda a, j: z3.Implies(z3.And(a >= 0, a < G(S).n, j >= 0, j < c), x.at(G(S).at(a), j) <= v.at(j)))))
                for d in ds:
                    for s in sp:
                        out.append(Cand('%r is below %s in %s' % (l, s, d), lambda S, K, G=G, d=d, s=s: All(1, lambda a: z3.Implies(z3.And(a >= 0, a < G(S).n), x.at(G(S).at(a), d) <= s))))
                        out.append(Cand('%r is above %s in %s' % (l, s, d), lambda S, K, G=G, d=d, s=s: All(1, lambda a: z3.Implies(z3.And(a >= 0, a < G(S).n), x.at(G(S).at(a), d) >= s))))
                for l2 in ints:
                    if l2 is not l:
                        H = lambda S, l2=l2: l2.get(S)
                        out.append(Cand('%r are all rows seen unless in %r' % (l, l2), lambda S, K, G=G, H=H: Conj([z3.Implies(H(S).n == 0, G(S).n == K), All(1, lambda a: z3.Implies(z3.And(H(S).n == 0, a >= 0, a < G(S).n), G(S).at(a) == rem.at(a)))])))
                        if l.cell < l2.cell if isinstance(l.cell, int) else q == 0:
                            out.append(Cand('no row in both', lambda S, K, G=G, H=H: All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < G(S).n, b >= 0, b < H(S).n), z3.Not(z3.And(G(S).at(a) == r, H(S).at(b) == r))))))
                            out.append(Cand('rows seen are in one', lambda S, K, G=G, H=H: AE(0, lambda: p < K, lambda w: z3.And(w >= 0, z3.Or(z3.And(w < G(S).n, G(S).at(w) == r), z3.And(w < H(S).n, H(S).at(w) == r))))))
            return out
        eng.templates.append(cands)
        eng.no_closed = True
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ref(o.obj), Ref(x), rem, Vect(o.lo), Vect(o.hi)], {'B': ('adt', 'B', ())}):
            ctx.canary(eng, s.hyps, 'returns')
            d, sp, l, g, lmax, gmin = strip(v).f
            d, sp, l, g, lmax, gmin = eng.lib.sc(s, d), eng.lib.sc(s, sp), eng.lib.seq(s, l), eng.lib.seq(s, g), eng.lib.seq(s, lmax), eng.lib.seq(s, gmin)
            for nm, fm in split_contract(o, d, l, g, lmax, gmin):
                ctx.post(eng, s, fm, nm)
    ctx.target('BinaryTree::select_split', select)

    def split(eng):
        f = ctx.method(eng, 'BinaryTree', 'split')
        st = State()
        o = node_data(ctx, eng, st)
        n, c, m, x, rem, r, p = o.n, o.c, o.m, o.x, o.rem, o.r, o.p
        got = {}

        def sel(eng, st, fr, info, args):
            ctx.post(eng, st, same(eng.lib.val(st, args[1]), x), 'the data is split')
            ctx.post(eng, st, eng.lib.seq(st, args[2]).eq_all(rem), 'the rows given are split')
            ctx.post(eng, st, eng.lib.seq(st, args[3]).eq_all(o.lo), 'with the lower corner of their box')
            ctx.post(eng, st, eng.lib.seq(st, args[4]).eq_all(o.hi), 'with the upper corner of their box')
            d, ln, gn = dim(st, 'dim'), dim(st, 'l'), dim(st, 'g')
            l, g, lmax, gmin = fseq('left', ln), fseq('right', gn), fvec('lmax', o.c), fvec('gmin', o.c)
            for nm, fm in split_contract(o, d, l, g, lmax, gmin):
                st.assume(fm)
            got['l'], got['g'], got['d'] = l, g, d
            return [(st, Agg('tuple', (d, z3.Real('split'), l, g, Vect(lmax), Vect(gmin))))]
        eng.replace['select_split'] = sel

        def sub(eng, st, fr, info, args):
            y, q, lo, hi = eng.lib.val(st, args[1]), eng.lib.seq(st, args[2]), eng.lib.seq(st, args[3]), eng.lib.seq(st, args[4])
            ctx.post(eng, st, same(y, x), 'subtrees are built on the data')
            side = [nm for nm in ('l', 'g') if nm in got and eng.pv.prove(st.hyps, q.eq_all(got[nm]))[0] == 'proved']
            if len(side) != 1:
                raise Unsupported('a subtree is built on other rows')
            ctx.post(eng, st, z3.And(q.n >= 1, lo.n == c, hi.n == c), 'a subtree has rows and a box')
            ctx.post(eng, st, boxed(x, q.at, q.n, lo.at, hi.at, c), 'the rows of a subtree are in its box')
            ctx.post(eng, st, inrange(q.at, q.n, n), 'the rows of a subtree exist')
            return [(st, Agg('sub', (z3.StringVal(side[0]),)))]
        eng.replace['split'] = sub

        def build(eng, st, fr, info, args):
            y, q, d, lo, hi = eng.lib.val(st, args[0]), eng.lib.seq(st, args[1]), eng.lib.sc(st, args[2]), eng.lib.seq(st, args[4]), eng.lib.seq(st, args[5])
            ctx.post(eng, st, same(y, x), 'a branch is built on the data')
            ctx.post(eng, st, q.eq_all(rem), 'a branch is built on the rows given')
            ctx.post(eng, st, z3.And(d >= 0, d < c, lo.n == c, hi.n == c), 'it splits a column')
            ctx.post(eng, st, boxed(x, rem.at, m, lo.at, hi.at, c), 'its rows are in its box')
            sides = [eng.lib.val(st, a) for a in args[6:8]]
            ok = all(isinstance(a, Agg) and a.ty == 'sub' for a in sides) and sorted(a.f[0].as_string() for a in sides) == ['g', 'l']
            (ctx.ok if ok else lambda e, nm: ctx.fail(e, nm, str(sides)))(eng, 'a branch joins both subtrees')
            got['built'] = 1
            return [(st, Agg('branch', ()))]
        eng.replace['build'] = build
        ctx.canary(eng, st.hyps, 'inputs')
        leaves = 0
        for s, v in ctx.run(eng, f, st, [Ref(o.obj), Ref(x), rem, Vect(o.lo), Vect(o.hi)], {'B': ('adt', 'B', ())}):
            v = under(eng, s, v)
            if isinstance(v, Agg) and v.ty == 'branch':
                ctx.ok(eng, 'the branch built is returned')
                continue
            if not isinstance(v, Enum) or v.disc != 1:
                ctx.fail(eng, 'a leaf or the branch built is returned', str(v))
                continue
            leaves += 1
            ch = eng.lib.seq(s, eng.lib.val(s, v.pay[1][0]).f[0])
            ctx.post(eng, s, ch.eq_all(rem), 'a leaf holds the rows given')
        if not leaves or 'built' not in got:
            raise Unsupported('trees are built another way')
    ctx.target('BinaryTree::split', split)

    def build(eng):
        f = ctx.method(eng, 'BinaryTree', 'build', 'KNearestSearch')
        st = State()
        n, c = dim(st, 'n', 1), dim(st, 'c', 1)
        x = fmat('x', n, c)
        made = []

        def bound(up):
            def h(eng, st, fr, info, args):
                y = eng.lib.val(st, args[0]) if len(args) == 1 else None
                if not isinstance(y, Mat):
                    return None
                q = fvec('hi' if up else 'lo', y.c)
                st.assume(All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < y.r, j >= 0, j < y.c), q.at(j) >= y.at(i, j) if up else q.at(j) <= y.at(i, j))))
                return [(st, Vect(q))]
            return h
        eng.replace['min'], eng.replace['max'] = bound(False), bound(True)

        def sub(eng, st, fr, info, args):
            made.append(1)
            y, q, lo, hi = eng.lib.val(st, args[1]), eng.lib.seq(st, args[2]), eng.lib.seq(st, args[3]), eng.lib.seq(st, args[4])
            ctx.post(eng, st, same(y, x), 'the tree is built on the data')
            ctx.post(eng, st, Conj([q.n == n, All(1, lambda a: z3.Implies(z3.And(a >= 0, a < n), q.at(a) == a))]), 'on every row once')
            ctx.post(eng, st, z3.And(lo.n == c, hi.n == c), 'in a box')
            ctx.post(eng, st, boxed(x, q.at, n, lo.at, hi.at, c), 'that holds every row')
            return [(st, Agg('tree', ()))]
        eng.replace['split'] = sub
        eng.allow_panic = z3.BoolVal(False)
        cell = eng.newcell(st, struct(eng, 'BinaryTree', {'leafsize': dim(st, 'leafsize'), 'data': NONE, 'root': NONE}, BT))
        for s, v in ctx.run(eng, f, st, [Ptr(cell), x], {'B': ('adt', 'B', ())}):
            o = s.cells[cell]
            root, data = eng.lib.val(s, field(eng, o, 'BinaryTree', 'root')), eng.lib.val(s, field(eng, o, 'BinaryTree', 'data'))
            ok = root.disc == 1 and isinstance(under(eng, s, root.pay[1][0]), Agg) and under(eng, s, root.pay[1][0]).ty == 'tree' and data.disc == 1
            (ctx.ok if ok else lambda e, nm: ctx.fail(e, nm, 'missing'))(eng, 'the tree and the data are kept')
            if ok:
                ctx.post(eng, s, same(eng.lib.val(s, data.pay[1][0]), x), 'the data kept is the data given')
        if not made:
            raise Unsupported('the tree is built another way')
    ctx.target('BinaryTree::build', build)

    def untrained(eng):
        f = ctx.method(eng, 'BinaryTree', 'search', 'KNearestSearch')
        st = State()
        (st, obj), = ctx.run(eng, ctx.method(eng, 'BinaryTree', 'new'), st, [dim(st, 'leafsize')], {'B': ('adt', 'B', ())})
        eng.allow_panic = z3.BoolVal(False)
        for s, v in ctx.run(eng, f, st, [Ref(obj), Ref(fvec('p', dim(st, 'c'))), dim(st, 'k')], {'B': ('adt', 'B', ())}):
            v = eng.lib.val(s, v)
            (ctx.ok if v.disc == 1 else lambda e, nm: ctx.fail(e, nm, 'an answer'))(eng, 'refused before building')
    ctx.target('BinaryTree::search before build', untrained)


def split_contract(o, d, l, g, lmax, gmin):
    """what select_split returns for the rows o.rem in the box (o.lo, o.hi)"""
    r, x, c = o.r, o.x, o.c
    u = fint('u')
    once = lambda q: PV.seen_at(All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < q.n), z3.Not(z3.And(q.at(a) == r, q.at(b) == r)))), u, q.at(u), q.at(u))
    return [('a column is split', z3.And(d >= 0, d < c)),
            ('no side is empty', z3.And(l.n >= 1, g.n >= 1)),
            ('one bound per column', z3.And(lmax.n == c, gmin.n == c)),
            ('rows that exist on the left', inrange(l.at, l.n, o.n)),
            ('rows that exist on the right', inrange(g.at, g.n, o.n)),
            ('the row is on one side', AE(0, lambda: z3.BoolVal(True), lambda w: z3.And(w >= 0, z3.Or(z3.And(w < l.n, l.at(w) == r), z3.And(w < g.n, g.at(w) == r))))),
            ('once on the left', once(l)), ('once on the right', once(g)),
            ('not on both sides', PV.seen_at(All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < l.n, b >= 0, b < g.n), z3.Not(z3.And(l.at(a) == r, g.at(b) == r)))), u, l.at(u), g.at(u))),
            ('the left rows are in the left box', boxed(x, l.at, l.n, o.lo.at, lmax.at, c)),
            ('the right rows are in the right box', boxed(x, g.at, g.n, gmin.at, o.hi.at, c))]
