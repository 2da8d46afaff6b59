"""C24: naive Bayes (src/learning/naive_bayes.rs)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, All, AE, RealS, IntS, BoolS, fint, iv, Conj
from vf.sums import psum
from vf.loops import Cand
from vf.mir import Unsupported
from vf.sym import State
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import struct, field, ok_of
from contracts.models import refuses
from contracts.regress import some, NONE
from contracts.svm import ints_in
from contracts.kmeans import split_sum

R = z3.RealVal
TR = z3.ToReal
NB = 'learning::naive_bayes::'
ENV = {'T': ('adt', 'T', ())}
ln = lambda x: f1('ln', x)
ex = lambda x: f1('exp', x)


def bayes(eng, distr, count, prior, counts=None):
    return struct(eng, 'NaiveBayes', {'distr': distr, 'cluster_count': count, 'class_prior': prior, 'class_counts': Seq(iv(0), lambda i: iv(0)) if counts is None else counts}, NB)


def c24(ctx):
    def find(eng):
        f = ctx.method(eng, 'NaiveBayes', 'find_class')
        st = State()
        q = fvec('row', dim(st, 'c'))
        eng.allow_panic = z3.BoolVal(False)
        for s, v in ctx.run(eng, f, st, [Ref(q)], ENV):
            v = eng.lib.val(s, v)
            if v.disc == 0:
                i = strip(v.pay[0][0])
                ctx.post(eng, s, z3.And(i >= 0, i < q.n, q.at(i) == 1), 'the class is a column marked with 1')
            else:
                ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < q.n), q.at(i) != 1)), 'refused only without a mark')
    ctx.target('NaiveBayes::find_class', find)

    def update(eng):
        f = ctx.method(eng, 'NaiveBayes', 'update_params')
        st = State()
        n, c, k = dim(st, 'n', 1), dim(st, 'c'), dim(st, 'k', 1)
        x, t = fmat('x', n, c), fmat('t', n, k)
        C = z3.Function('class', IntS, IntS)
        bad = z3.Function('unmarked', IntS, BoolS)
        a = fint('a')
        st.assume(z3.And(a >= 0, a < k))
        st.assume(PV.triggered(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(C(i) >= 0, C(i) < k))), C))
        member = lambda u: psum(u, lambda i: z3.If(C(i) == a, iv(1), iv(0)), IntS)
        st.assume(member(n) >= 0)
        eng.allow_panic = z3.BoolVal(False)
        found, updated = [], []

        def find_class(eng, st, fr, info, args):
            q = eng.lib.seq(st, args[0])
            j = fint('j')
            s = st.copy()
            s.assume(z3.And(j >= 0, j < k))
            e = strip(q.at(j))
            rows = [r for r in ints_in(e, j) if eng.pv.prove(s.hyps, z3.And(q.n == k, e == t.at(r, j)))[0] == 'proved']
            if not rows:
                raise Unsupported('the class of something else than a row of the targets')
            found.append(1)
            r = rows[0]
            s2 = st.copy()
            st.assume(z3.Not(bad(r)))
            s2.assume(bad(r))
            return [(st, Enum('Result', 0, {0: (C(r),)})), (s2, Enum('Result', 1, {1: (Agg('Error', ()),)}))]
        eng.replace['find_class'] = find_class

        def update_params(eng, st, fr, info, args):
            if not (isz(strip(args[2])) and strip(args[2]).sort() == IntS):
                return None
            y, cl = eng.lib.val(st, args[1]), eng.lib.sc(st, args[2])
            p, q, j = fint('p'), fint('q'), fint('j')
            s = st.copy()
            s.assume(z3.And(p >= 0, p < q, q < y.r, j >= 0, j < c))
            rows = [r for r in ints_in(y.at(p, j), j) if PV.consts_of(r) & {p.get_id()}]
            if len(rows) != 1:
                raise Unsupported('the rows given to the distribution are of another form')
            updated.append(1)
            if not eng.dry:
                L = lambda u: z3.substitute(rows[0], (p, u))
                ctx.post(eng, st, z3.And(cl >= 0, cl < k, y.c == c, y.r > 0), 'a class is fitted to some rows')
                s1 = st.copy()
                s1.assume(cl == a)
                ctx.post(eng, s1, y.r == member(n), 'a class is fitted to as many rows as are of it')
                s1.assume(z3.And(p >= 0, p < y.r, j >= 0, j < c))
                ctx.post(eng, s1, z3.And(L(p) >= 0, L(p) < n, C(L(p)) == a, y.at(p, j) == x.at(L(p), j)), 'a class is fitted to rows of its own')
                s2 = s1.copy()
                s2.assume(z3.And(q > p, q < y.r))
                ctx.post(eng, s2, L(p) < L(q), 'a class is fitted to different rows')
            s2 = st.copy()
            return [(st, Enum('Result', 0, {0: (UNIT,)})), (s2, Enum('Result', 1, {1: (Agg('Error', ()),)}))]
        eng.replace['update_params'] = update_params

        def cands(L):
            out = []
            for l in L.leaves:
                if l.kind != 'seq':
                    continue
                e = strip(l.get(L.base).at(fint('p')))
                P = lambda S, l=l: l.get(S)
                if isinstance(e, Seq):
                    G = lambda S, P=P: strip(P(S).at(a))
                    out.append(Cand('%r: sizes are not negative' % l, lambda S, K, P=P: All(1, lambda b: z3.Implies(z3.And(b >= 0, b < k), strip(P(S).at(b)).n >= 0))))
                    out.append(Cand('%r: members are rows seen' % l, lambda S, K, P=P: All(2, lambda b, p: z3.Implies(z3.And(b >= 0, b < k, p >= 0, p < strip(P(S).at(b)).n), z3.And(strip(P(S).at(b)).at(p) >= 0, strip(P(S).at(b)).at(p) < K)))))
                    out.append(Cand('%r: members are of the class' % l, lambda S, K, G=G: All(1, lambda p: z3.Implies(z3.And(p >= 0, p < G(S).n), z3.And(G(S).at(p) >= 0, G(S).at(p) < K, C(G(S).at(p)) == a)))))
                    out.append(Cand('%r: members ascend' % l, lambda S, K, G=G: All(2, lambda p, q: z3.Implies(z3.And(p >= 0, p < q, q < G(S).n), G(S).at(p) < G(S).at(q)))))
                    out.append(Cand('%r: as many members as rows of the class' % l, lambda S, K, G=G: G(S).n == member(K), True))
                elif isz(e) and e.sort() == IntS:
                    out.append(Cand('%r: counts the rows of the class' % l, lambda S, K, P=P: P(S).at(a) == member(K), True))
            for l in L.leaves:
                pass
            out.append(Cand('every row seen has a mark', lambda S, K: All(1, lambda i: z3.Implies(z3.And(i >= 0, i < K, i < n), z3.Not(bad(i))))))
            return out
        eng.templates.append(cands)
        eng.inst_hints = [a]
        cell = eng.newcell(st, bayes(eng, some(Agg('T', ())), NONE, NONE))
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ptr(cell), Ref(x), Ref(t)], ENV):
            v = eng.lib.val(s, v)
            if v.disc == 1:
                continue
            o = s.cells[cell]
            pr, cc = eng.lib.val(s, field(eng, o, 'NaiveBayes', 'class_prior')), eng.lib.val(s, field(eng, o, 'NaiveBayes', 'cluster_count'))
            if pr.disc != 1 or cc.disc != 1:
                ctx.fail(eng, 'priors and the number of classes are stored', 'missing')
                continue
            q = eng.lib.seq(s, pr.pay[1][0])
            ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.Not(bad(i)))), 'targets with a row of no class are refused')
            ctx.post(eng, s, z3.And(q.n == k, eng.lib.sc(s, cc.pay[1][0]) == k), 'one prior per class')
            ctx.post(eng, s, q.at(a) == TR(member(n)) / TR(n), 'the prior of a class is its share of the rows')
        if not found or not updated:
            raise Unsupported('classes are found or fitted another way')
    ctx.target('NaiveBayes::update_params', update)

    def train(eng):
        f = ctx.method(eng, 'NaiveBayes', 'train', 'SupModel')
        st = State()
        n, c, k = dim(st, 'n'), dim(st, 'c'), dim(st, 'k')
        x, t = fmat('x', n, c), fmat('t', n, k)
        made, fitted = [], []

        def make(eng, st, fr, info, args):
            made.append(1)
            ctx.post(eng, st, z3.And(eng.lib.sc(st, args[0]) == k, eng.lib.sc(st, args[1]) == c), 'a fresh distribution for the classes and columns given')
            return [(st, Agg('T', (iv(1),)))]
        eng.replace['from_model_params'] = make

        def fit(eng, st, fr, info, args):
            fitted.append(1)
            o = eng.lib.val(st, args[0])
            d = eng.lib.val(st, field(eng, o, 'NaiveBayes', 'distr'))
            (ctx.ok if d.disc == 1 and len(strip(d.pay[1][0]).f) == 1 else lambda e, m: ctx.fail(e, m, 'another one'))(eng, 'the fresh distribution is fitted')
            ctx.post(eng, st, z3.And(eng.lib.val(st, args[1]).eq_witness(x) if hasattr(x, 'eq_witness') else z3.BoolVal(eng.lib.val(st, args[1]) is x)), 'to the inputs')
            return [(st, Enum('Result', 0, {0: (UNIT,)}))]
        eng.replace['update_params'] = fit
        cell = eng.newcell(st, bayes(eng, some(Agg('T', ())), NONE, NONE))
        for s, v in ctx.run(eng, f, st, [Ptr(cell), Ref(x), Ref(t)], ENV):
            ok_of(ctx, eng, s, v, 'training reports what the fit reports')
        if not made or not fitted:
            raise Unsupported('training takes another way')
    ctx.target('NaiveBayes::train', train)

    def predict(eng):
        f = ctx.method(eng, 'NaiveBayes', 'predict', 'SupModel')
        st = State()
        n, c, k = dim(st, 'n'), dim(st, 'c'), dim(st, 'k', 1)
        x, pr = fmat('x', n, c), fvec('prior', k)
        P = z3.Function('posterior', IntS, IntS, RealS)
        i, j = fint('i'), fint('j')
        st.assume(z3.And(i >= 0, i < n, j >= 0, j < k))
        B = z3.Function('best', IntS, IntS)
        asked = []

        def lik(eng, st, fr, info, args):
            asked.append(1)
            if not eng.dry:
                y, q = eng.lib.val(st, args[1]), eng.lib.seq(st, args[2])
                ctx.post(eng, st, conj_same(y, x), 'the likelihood of the inputs is asked for')
                ctx.post(eng, st, q.eq_all(pr), 'with the priors of the classes')
            return [(st, Enum('Result', 0, {0: (Mat(n, k, lambda u, v: P(u, v)),)}))]
        eng.replace['joint_log_lik'] = lik

        def good(row, b):
            return z3.And(b >= 0, b < k, P(row, j) <= P(row, b))

        def cands(L):
            out = []
            for l in L.leaves:
                if l.kind != 'seq':
                    continue
                e = strip(l.get(L.base).at(fint('p')))
                G = lambda S, l=l: l.get(S)
                if isz(e) and e.sort() == RealS:
                    out.append(Cand('%r: k entries per row' % l, lambda S, K, G=G: G(S).n == K * k, True))
                    out.append(Cand('%r: room for the row' % l, lambda S, K, G=G: z3.Implies(K > i, i * k + j < G(S).n), True))
                    out.append(Cand('%r: the row marks its class' % l, lambda S, K, G=G: z3.Implies(K > i, G(S).at(i * k + j) == z3.If(B(i) == j, R(1), R(0))), True))
            return out
        eng.templates.append(cands)

        def argmax(eng, st, fr, info, args):
            q = eng.lib.seq(st, args[0])
            b = fint('b')
            t = eng.lib.sc(st, q.at(b))
            if not (z3.is_app(t) and t.decl().eq(P)):
                raise Unsupported('largest of something else than the posteriors of a row')
            r = t.arg(0)
            s = st.copy()
            s.assume(z3.And(b >= 0, b < k))
            if eng.pv.prove(s.hyps, z3.And(q.n == k, t == P(r, b)))[0] != 'proved':
                raise Unsupported('largest of something else than the posteriors of a row')
            st.assume(z3.And(B(r) >= 0, B(r) < k, P(r, j) <= P(r, B(r))))
            return [(st, Agg('()', [B(r), P(r, B(r))]))]
        eng.replace['argmax'] = argmax
        st.assume(All(1, lambda r: z3.Implies(z3.And(r >= 0, r < n), good(r, B(r)))))
        eng.inst_hints = [i, j]
        eng.allow_panic = z3.BoolVal(False)
        ctx.canary(eng, st.hyps, 'inputs')
        obj = bayes(eng, some(Agg('T', ())), some(k), some(pr))
        for s, v in ctx.run(eng, f, st, [Ref(obj), Ref(x)], ENV):
            v = ok_of(ctx, eng, s, v, 'a trained model predicts')
            if v is None:
                continue
            m = eng.lib.val(s, v)
            ctx.post(eng, s, z3.And(m.r == n, m.c == k), 'one row of marks per row')
            ctx.post(eng, s, m.at(i, j) == z3.If(B(i) == j, R(1), R(0)), 'one class is marked in every row')
            ctx.post(eng, s, P(i, j) <= P(i, B(i)), 'the class marked has the largest posterior')
        if not asked:
            raise Unsupported('the likelihood is not asked for')
    ctx.target('NaiveBayes::predict', predict)

    def untrained(eng):
        f = ctx.method(eng, 'NaiveBayes', 'predict', 'SupModel')
        st = State()
        x = fmat('x', dim(st, 'm'), dim(st, 'c'))
        for s, v in ctx.run(eng, f, st, [Ref(bayes(eng, NONE, NONE, NONE)), Ref(x)], ENV):
            refuses(ctx, eng, s, v, 'prediction before training is an error')
    ctx.target('NaiveBayes::predict untrained', untrained)

    # the three distributions
    def lik_of(ty, mk, spec):
        def go(eng):
            f = ctx.method(eng, ty, 'joint_log_lik', 'Distribution')
            st = State()
            n, c, k = dim(st, 'n'), dim(st, 'c'), dim(st, 'k', 1)
            x, pr = fmat('x', n, c), fvec('prior', k)
            obj, par = mk(eng, st, k, c)
            i, a = fint('i'), fint('a')
            st.assume(z3.And(i >= 0, i < n, a >= 0, a < k))

            def cands(L):
                out = []
                for l in L.leaves:
                    if l.kind == 'seq' and isz(strip(l.get(L.base).at(fint('p')))) and strip(l.get(L.base).at(fint('p'))).sort() == RealS:
                        G = lambda S, l=l: l.get(S)
                        out.append(Cand('%r: n entries per class' % l, lambda S, K, G=G: G(S).n == K * n, True))
                        out.append(Cand('%r: room for the class' % l, lambda S, K, G=G: z3.Implies(K > a, a * n + i < G(S).n), True))
                        out.append(Cand('%r: the likelihood of the class' % l, lambda S, K, G=G: z3.Implies(K > a, G(S).at(a * n + i) == spec(x, pr, par, i, a, c)), True))
                return out
            if ty == 'Gaussian':
                eng.templates.append(cands)
            eng.inst_hints = [i, a]
            eng.allow_panic = z3.BoolVal(False)
            ctx.canary(eng, st.hyps, 'inputs')
            for s, v in ctx.run(eng, f, st, [Ref(obj), Ref(x), Ref(pr)], {}):
                v = ok_of(ctx, eng, s, v, 'the likelihood is computed')
                if v is None:
                    continue
                m = eng.lib.val(s, v)
                ctx.post(eng, s, z3.And(m.r == n, m.c == k), 'one entry per row and class')
                ctx.post(eng, s, m.at(i, a) == spec(x, pr, par, i, a, c), 'the joint log likelihood of the row and the class')
        ctx.target(ty + '::joint_log_lik', go)

    def gauss(eng, st, k, c):
        th, sg = fmat('theta', k, c), fmat('sigma', k, c)
        return dstruct(eng, 'Gaussian', {'theta': th, 'sigma': sg}), (th, sg)

    def counts(ty):
        def mk(eng, st, k, c):
            lp = fmat('lp', k, c)
            return dstruct(eng, ty, {'log_probs': lp, 'pseudo_count': R(1)}), lp
        return mk

    def g_spec(x, pr, par, i, a, c):
        th, sg = par
        return ln(pr.at(a)) + -psum(c, lambda j: ln(sg.at(a, j) * 2 * PV.PI)) / 2 - psum(c, lambda j: (x.at(i, j) - th.at(a, j)) * (x.at(i, j) - th.at(a, j)) / sg.at(a, j)) / 2

    def b_spec(x, pr, lp, i, a, c):
        return psum(c, lambda j: x.at(i, j) * (lp.at(a, j) - ln(1 - ex(lp.at(a, j))))) + ln(pr.at(a)) + psum(c, lambda j: ln(1 - ex(lp.at(a, j))))

    def m_spec(x, pr, lp, i, a, c):
        return psum(c, lambda j: x.at(i, j) * lp.at(a, j)) + ln(pr.at(a))
    lik_of('Gaussian', gauss, g_spec)
    lik_of('Bernoulli', counts('Bernoulli'), b_spec)
    lik_of('Multinomial', counts('Multinomial'), m_spec)

    def fit_of(ty, mk, names, spec):
        def go(eng):
            f = ctx.method(eng, ty, 'update_params', 'Distribution')
            st = State()
            n, c, k, a = dim(st, 'n', 1), dim(st, 'c'), dim(st, 'k', 1), dim(st, 'a')
            st.assume(a < k)
            x = fmat('x', n, c)
            obj, par = mk(eng, st, k, c)
            par = par if isinstance(par, tuple) else (par,)
            b, j = fint('b'), fint('j')
            st.assume(z3.And(b >= 0, b < k, j >= 0, j < c))
            cell = eng.newcell(st, obj)
            want = spec(x, n, c, j)

            def cands(L):
                out = []
                for l in L.leaves:
                    if l.kind == 'mat':
                        for q, (w, old) in enumerate(zip(want, par)):
                            out.append(Cand('%r: entry %d of the class' % (l, q), lambda S, K, l=l, w=w, old=old: l.get(S).at(b, j) == z3.If(z3.And(b == a, j < K), w, old.at(b, j)), True))
                return out
            eng.templates.append(cands)
            eng.no_closed = True
            eng.inst_hints = [b, j]
            eng.allow_panic = z3.BoolVal(False)
            ctx.canary(eng, st.hyps, 'inputs')
            for s, v in ctx.run(eng, f, st, [Ptr(cell), Ref(x), a], {}):
                v = eng.lib.val(s, v)
                if v.disc == 1:
                    ctx.post(eng, s, n < 2 if ty == 'Gaussian' else z3.BoolVal(False), 'refused only if the variance does not exist')
                    continue
                o = s.cells[cell]
                for nm, w, old in zip(names, want, par):
                    m = eng.lib.val(s, dfield(eng, o, ty, nm))
                    ctx.post(eng, s, z3.And(m.r == k, m.c == c), nm + ': the shape is kept')
                    ctx.post(eng, s, m.at(b, j) == z3.If(b == a, w, old.at(b, j)), nm + ' of the class is fitted to its rows, those of others are kept')
        ctx.target(ty + '::update_params', go)
    mean = lambda x, n, j: psum(n, lambda i: x.at(i, j)) / TR(n)
    fit_of('Gaussian', gauss, ('theta', 'sigma'), lambda x, n, c, j: (mean(x, n, j), psum(n, lambda i: (x.at(i, j) - mean(x, n, j)) * (x.at(i, j) - mean(x, n, j))) / TR(n - 1)))
    fit_of('Bernoulli', counts('Bernoulli'), ('log_probs',), lambda x, n, c, j: (ln(psum(n, lambda i: x.at(i, j)) + 1) - ln(TR(n) + 2),))
    fit_of('Multinomial', counts('Multinomial'), ('log_probs',), lambda x, n, c, j: (ln(psum(n, lambda i: x.at(i, j)) + 1) - ln(psum(c, lambda q: psum(n, lambda i: x.at(i, q)) + 1)),))


def defn(eng, name):
    return [x for n, x in eng.src.defs.items() if n == NB + name or n.endswith('::' + NB + name) or n.endswith('naive_bayes::' + name)][0]


def dstruct(eng, name, vals):
    return Agg(NB + name, [vals[n] for n in defn(eng, name).names])


def dfield(eng, v, name, fld):
    return v.f[list(defn(eng, name).names).index(fld)]


def conj_same(a, b):
    return Conj([z3.And(a.r == b.r, a.c == b.c), All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < b.r, j >= 0, j < b.c), a.at(i, j) == b.at(i, j)))])
