"""C09: k-fold cross-validation (src/analysis/cross_validation.rs)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, All, AE, RealS, IntS, BoolS, fint, iv
from vf.loops import Cand
from vf.mir import Unsupported
from vf.sym import State
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import struct, field, outcome, ok_of

CV = 'analysis::cross_validation::'


def items(v):
    """the sequence an index iterator of the module runs through: that of the one iterator it wraps"""
    v = strip(v)
    while isinstance(v, Agg):
        its = [x for x in v.f if isinstance(strip(x), (It, Agg))]
        if len(its) != 1:
            raise Unsupported('index iterator of another form')
        v = strip(its[0])
    if not isinstance(v, It):
        raise Unsupported('index iterator of another form')
    return v.seq()


def start(c, n, k):
    """where fold c begins"""
    q, r = n / k, n % k
    return c * q + z3.If(c < r, c, r)


def c09(ctx):
    # the index iterators hand out the items of the iterator they wrap
    for ty in ('TestIndices', 'TrainingIndices'):
        def wrapper(eng, ty=ty):
            st = State()
            a, b = fseq('a', dim(st, 'n')), fseq('b', dim(st, 'm'))
            eng.allow_panic = z3.BoolVal(False)
            outs = ctx.run(eng, ctx.method(eng, ty, 'new'), st, [Ref(a)] if ty == 'TestIndices' else [Ref(a), Ref(b)])
            for s, v in outs:
                q = items(v)
                n, m = a.n, b.n if ty != 'TestIndices' else iv(0)
                ctx.post(eng, s, q.n == n + m, 'as many indices as given')
                ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n + m), z3.If(i < n, strip(q.at(i)) == a.at(i), strip(q.at(i)) == b.at(i - n)))), 'the indices given, in order')
                for s1, w in ctx.run(eng, ctx.method(eng, ty, 'len', 'ExactSizeIterator'), s.copy(), [Ref(v)]):
                    ctx.post(eng, s1, w == n + m, 'its length is announced')
                cell = eng.newcell(s, v)
                for s1, w in ctx.run(eng, ctx.method(eng, ty, 'next', 'Iterator'), s, [Ptr(cell)]):
                    w = eng.lib.val(s1, w)
                    r = items(s1.cells[cell])
                    if w.disc == 1:
                        ctx.post(eng, s1, z3.And(n + m > 0, strip(w.pay[1][0]) == strip(q.at(0))), 'next is the next index')
                        ctx.post(eng, s1, z3.And(r.n == n + m - 1), 'next moves on')
                        ctx.post(eng, s1, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < r.n), strip(r.at(i)) == strip(q.at(i + 1)))), 'next moves on')
                    else:
                        ctx.post(eng, s1, n + m == 0, 'ends when there are no more')
        ctx.target(ty, wrapper)

    def folds(eng):
        f = ctx.method(eng, 'Folds', 'next', 'Iterator')
        st = State()
        n, k, c = dim(st, 'n'), dim(st, 'k', 2), dim(st, 'c')
        st.assume(z3.And(k <= n, c <= k))
        idx = fseq('idx', n)
        eng.allow_panic = z3.BoolVal(False)
        obj = struct(eng, 'Folds', {'num_folds': k, 'indices': Ref(idx), 'count': c}, CV)
        cell = eng.newcell(st, obj)
        ctx.canary(eng, st.hyps, 'inputs')
        a, b = start(c, n, k), start(c + 1, n, k)
        for s, v in ctx.run(eng, f, st, [Ptr(cell)]):
            v = eng.lib.val(s, v)
            o = s.cells[cell]
            if v.disc == 0:
                ctx.post(eng, s, c == k, 'ends after k folds')
                continue
            ctx.canary(eng, s.hyps, 'a fold')
            ctx.post(eng, s, z3.And(c < k, field(eng, o, 'Folds', 'count') == c + 1, field(eng, o, 'Folds', 'num_folds') == k), 'k folds')
            p = strip(v.pay[1][0])
            te, tr = items(field(eng, p, 'Partition', 'test_indices_iter')), items(field(eng, p, 'Partition', 'train_indices_iter'))
            ctx.post(eng, s, z3.And(a >= 0, a <= b, b <= n, te.n == b - a), 'fold c tests the positions from its start up to the start of fold c + 1')
            ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < te.n), strip(te.at(i)) == idx.at(a + i))), 'fold c tests the positions from its start up to the start of fold c + 1')
            ctx.post(eng, s, z3.Or(te.n == n / k, te.n == n / k + 1), 'sizes differ by at most one')
            ctx.post(eng, s, tr.n == n - te.n, 'all the others are trained on')
            ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < tr.n), strip(tr.at(i)) == z3.If(i < a, idx.at(i), idx.at(i + te.n)))), 'all the others are trained on')
            ctx.post(eng, s, eng.lib.seq(s, field(eng, o, 'Folds', 'indices')).eq_all(idx), 'the order is kept')
    ctx.target('Folds::next', folds)

    def tiling(eng):
        st = State()
        n, k = dim(st, 'n'), dim(st, 'k', 2)
        st.assume(k <= n)
        ctx.lemma(eng, st.hyps, z3.And(start(iv(0), n, k) == 0, start(k, n, k) == n), 'the folds begin at 0 and end at n')
    ctx.target('folds tile the positions', tiling)

    def folds_new(eng):
        f = ctx.method(eng, 'Folds', 'new')
        st = State()
        n, k = dim(st, 'n'), dim(st, 'k')
        idx = fseq('idx', n)
        arg = [Ref(struct(eng, 'ShuffledIndices', {'0': idx}, CV)), k]
        s0 = st.copy()
        s0.assume(z3.And(k >= 2, k <= n))
        eng.allow_panic = z3.BoolVal(False)
        for s, v in ctx.run(eng, f, s0, arg):
            ctx.post(eng, s, z3.And(field(eng, v, 'Folds', 'count') == 0, field(eng, v, 'Folds', 'num_folds') == k), 'the first fold of k comes first')
            ctx.post(eng, s, eng.lib.seq(s, field(eng, v, 'Folds', 'indices')).eq_all(idx), 'over the indices given')
        eng.allow_panic = z3.BoolVal(True)
        for s, v in ctx.run(eng, f, st, arg):
            ctx.post(eng, s, z3.And(k >= 2, k <= n), 'k < 2 and k > n are refused')
        ctx.ok(eng, 'every return was checked')
    ctx.target('Folds::new', folds_new)

    def shuffled(eng):
        f = ctx.free(eng, CV + 'create_shuffled_indices')
        st = State()
        n = dim(st, 'n')
        eng.allow_panic = z3.BoolVal(False)
        calls = shuffle(ctx, eng)
        for s, v in ctx.run(eng, f, st, [n]):
            q = eng.lib.seq(s, strip(v).f[0])
            if not calls:
                raise Unsupported('the order comes from elsewhere')
            P = calls[-1][1]
            ctx.post(eng, s, z3.And(calls[-1][0].n == n, q.n == n), 'all samples are ordered')
            ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), calls[-1][0].at(i) == i)), 'the numbers 0, .., n-1 are shuffled')
            ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), q.at(i) == P(i))), 'the shuffled order is used')
    ctx.target('create_shuffled_indices', shuffled)

    def validate(eng):
        f = ctx.free(eng, CV + 'k_fold_validate')
        st = State()
        n, k, c, ct = dim(st, 'n'), dim(st, 'k', 2), dim(st, 'c'), dim(st, 'ct')
        st.assume(k <= n)
        x, t = fmat('x', n, c), fmat('t', n, ct)
        P = z3.Function('order', IntS, IntS)
        # the shuffle returns the positions 0, .., n-1 in some order (C01)
        st.assume(PV.triggered(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n))), P))
        made = []

        def order(eng, st, fr, info, args):
            made.append(1)
            if not eng.dry:
                ctx.post(eng, st, eng.lib.sc(st, args[0]) == n, 'an order of all samples')
            return [(st, struct(eng, 'ShuffledIndices', {'0': Seq(n, lambda i: P(i))}, CV))]
        eng.replace['create_shuffled_indices'] = order
        A, B, S = (z3.Function(nm, IntS, IntS) for nm in ('foldstart', 'foldend', 'unused'))
        SC = z3.Function('score', IntS, RealS)

        def fold():
            return eng.loopstack[0].k if eng.loopstack else iv(0)
        # one fold by the contract of Folds::next
        st.assume(PV.triggered(All(1, lambda q: z3.Implies(z3.And(q >= 0, q < k), z3.And(A(q) >= 0, A(q) <= B(q), B(q) <= n))), A))

        def nxt(eng, st, fr, info, args):
            p = eng.lib.ptr(st, args[0])
            o = eng.lib.val(st, args[0])
            if not isinstance(o, Agg) or o.ty is None or not str(o.ty).endswith('Folds'):
                return None
            cnt = field(eng, o, 'Folds', 'count')
            idx = eng.lib.seq(st, field(eng, o, 'Folds', 'indices'))
            out = []
            a, b = st.copy(), st
            a.assume(cnt >= k)
            if eng.pv.feasible(a.hyps, z3.BoolVal(True)):
                out.append((a, Enum('Option', 0, {0: ()})))
            b.assume(cnt < k)
            lo, hi = A(cnt), B(cnt)
            b.assume(z3.And(lo >= 0, lo <= hi, hi <= n))
            vals = {'num_folds': k, 'indices': field(eng, o, 'Folds', 'indices'), 'count': cnt + 1}
            eng.lib.setv(b, p, struct(eng, 'Folds', vals, CV))
            ite = lambda at, m: It(at, iv(0), m)
            tr = wrap(eng, 'TrainingIndices', ite(lambda i: z3.If(i < lo, idx.at(i), idx.at(i + hi - lo)), n - (hi - lo)), n - (hi - lo))
            te = wrap(eng, 'TestIndices', ite(lambda i: idx.at(lo + i), hi - lo), hi - lo)
            out.append((b, Enum('Option', 1, {1: (struct(eng, 'Partition', {'train_indices_iter': tr, 'test_indices_iter': te}, CV),)})))
            return out
        eng.replace['next'] = nxt

        def select(eng, st, fr, info, args):
            if not isinstance(strip(args[1]), Agg):
                return None
            return [(st, eng.lib.m_select_rows(st, info, [args[0], items(args[1])]))]
        eng.replace['select_rows'] = select

        def rows(s, m, want, src, nm):
            """row a of m is row want(a) of src"""
            a, j = fint('a'), fint('j')
            s = s.copy()
            s.assume(z3.And(a >= 0, a < m.r, j >= 0, j < src.c))
            ctx.post(eng, s, z3.And(m.c == src.c, m.at(a, j) == src.at(want(a), j)), nm)
        seen = []

        def train(eng, st, fr, info, args):
            a, b = strip(eng.lib.val(st, args[1])), strip(eng.lib.val(st, args[2]))
            if not eng.dry:
                q = fold()
                seen.append('train')
                lo, hi = A(q), B(q)
                w = lambda i: P(z3.If(i < lo, i, i + hi - lo))
                ctx.post(eng, st, z3.And(a.r == n - (hi - lo), b.r == a.r), 'trained on all rows but those of the fold')
                rows(st, a, w, x, 'trained on all rows but those of the fold')
                rows(st, b, w, t, 'every row trained on with its own target')
            return [(st, Enum('Result', 0, {0: (UNIT,)})), failed(st.copy(), 'train', fold())]
        eng.replace['train'] = train
        OUT = z3.Function('output', IntS, IntS, IntS, RealS)

        def predict(eng, st, fr, info, args):
            a = strip(eng.lib.val(st, args[1]))
            q = fold()
            if not eng.dry:
                seen.append('predict')
                lo, hi = A(q), B(q)
                ctx.post(eng, st, a.r == hi - lo, 'tested on the rows of the fold')
                rows(st, a, lambda i: P(lo + i), x, 'tested on the rows of the fold')
            return [(st, Enum('Result', 0, {0: (Mat(a.r, iv(1), lambda i, j: OUT(q, i, j)),)})), failed(st.copy(), 'predict', fold())]
        eng.replace['predict'] = predict
        ERR = z3.Function('errorof', IntS, IntS, IntS)

        def failed(s, what, q):
            return s, Enum('Result', 1, {1: (Agg('E', (ERR(iv(0 if what == 'train' else 1), q),)),)})

        def score(eng, st, fr, info, args):
            v = strip(eng.lib.val(st, args[1])) if len(args) > 1 else None
            if not isinstance(v, Agg) or len(v.f) != 2:
                raise Unsupported('score called otherwise')
            o, w = [strip(eng.lib.val(st, z)) for z in v.f]
            q = fold()
            if not eng.dry:
                seen.append('score')
                lo, hi = A(q), B(q)
                ctx.post(eng, st, z3.And(o.r == hi - lo, o.c == 1, w.r == hi - lo), 'the rows of the fold are scored')
                a = fint('a')
                s = st.copy()
                s.assume(z3.And(a >= 0, a < hi - lo))
                ctx.post(eng, s, o.at(a, iv(0)) == OUT(q, a, 0), 'what is scored is the prediction for the fold')
                rows(st, w, lambda i: P(lo + i), t, 'every prediction is scored against its own target')
            return [(st, SC(q))]
        eng.replace['call'] = score

        def cands(L):
            out = []
            for l in L.leaves:
                if l.kind == 'seq':
                    out.append(Cand('%r holds the scores so far' % l, lambda S, K, l=l: PV.Conj([l.get(S).n == K, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < K), l.get(S).at(i) == SC(i)))])))
            return out
        eng.templates.append(cands)
        eng.no_closed = True
        eng.allow_panic = z3.BoolVal(False)
        ctx.canary(eng, st.hyps, 'inputs')
        outs = ctx.run(eng, f, st, [Ref(Agg('M', ())), Ref(x), Ref(t), k, Agg('S', ())], {'M': ('adt', 'M', ()), 'S': ('adt', 'S', ())})
        if not made or set(seen) != {'train', 'predict', 'score'}:
            raise Unsupported('the folds are run otherwise')
        good = 0
        for s, v in outs:
            v = eng.lib.val(s, v)
            if v.disc == 1:
                e = strip(v.pay[1][0])
                (ctx.ok if isinstance(e, Agg) and e.ty == 'E' else lambda g, m: ctx.fail(g, m, 'another error'))(eng, 'an error returned is that of the model')
                continue
            good += 1
            ctx.canary(eng, s.hyps, 'returns')
            q = eng.lib.seq(s, v.pay[0][0])
            ctx.post(eng, s, q.n == k, 'one score per fold')
            ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < k), q.at(i) == SC(i))), 'the scores of the folds, in order')
        if not good:
            ctx.fail(eng, 'scores are returned', 'never')
    ctx.target('k_fold_validate', validate)

    def refuses(eng):
        f = ctx.free(eng, CV + 'k_fold_validate')
        st = State()
        n, m, k = dim(st, 'n'), dim(st, 'm'), dim(st, 'k')
        eng.allow_panic = z3.BoolVal(True)
        reached = []

        def train(eng, st, fr, info, args):
            reached.append(1)
            if not eng.dry:
                ctx.post(eng, st, z3.And(n == m, k >= 2, k <= n), 'k < 2, k > n and different numbers of rows are refused before training')
            return []
        eng.replace['train'] = train
        P = z3.Function('order', IntS, IntS)
        st.assume(PV.triggered(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n))), P))
        eng.replace['create_shuffled_indices'] = lambda eng, st, fr, info, args: [(st, struct(eng, 'ShuffledIndices', {'0': Seq(n, lambda i: P(i))}, CV))]
        eng.replace['select_rows'] = lambda eng, st, fr, info, args: [(st, fmat('sel', fint('r'), fint('c')))]
        eng.no_closed = True
        for s, v in ctx.run(eng, f, st, [Ref(Agg('M', ())), Ref(fmat('x', n, dim(st, 'c'))), Ref(fmat('t', m, dim(st, 'ct'))), k, Agg('S', ())], {'M': ('adt', 'M', ()), 'S': ('adt', 'S', ())}):
            v = eng.lib.val(s, v)
            if v.disc == 0:
                ctx.post(eng, s, z3.And(n == m, k >= 2, k <= n), 'k < 2 and k > n are refused')
        ctx.ok(eng, 'every return was checked')
    ctx.target('k_fold_validate refuses', refuses)


def wrap(eng, ty, it, n):
    """an index iterator of the module around these indices"""
    if ty == 'TestIndices':
        return struct(eng, ty, {'0': it}, CV)
    return struct(eng, ty, {'chain': it, 'size': n}, CV)


def shuffle(ctx, eng):
    calls = []

    def h(eng, st, fr, info, args):
        was = eng.lib.seq(st, args[0])
        P = z3.Function('P!%d' % next(PV._cnt), IntS, IntS)
        calls.append((was, P))
        eng.lib.setv(st, eng.lib.ptr(st, args[0]), Seq(was.n, lambda i: P(i), elty=was.elty))
        return [(st, UNIT)]
    eng.replace['in_place_fisher_yates'] = h
    return calls


def fseq(name, n):
    g = z3.Function(name, IntS, IntS)
    return Seq(n, lambda i: g(i))
