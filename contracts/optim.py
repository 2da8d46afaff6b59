"""C27, C28: the optimisers (src/learning/optim)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, All, RealS, IntS, BoolS, fint, iv
from vf.loops import Cand
from vf.mir import Unsupported
from vf.sym import State
from vf.sums import psum
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import struct

R = z3.RealVal
TR = z3.ToReal
CG = 'learning::optim::fmincg::'


def cost_at(eng, st, p):
    return PV.mkapp('COST', [], [p], RealS)


def c28(ctx):
    def optimize(eng):
        f = ctx.method(eng, 'ConjugateGD', 'optimize', 'OptimAlgorithm')
        st = State()
        # not-a-number and infinite line-search steps: both answers of the code's tests are followed
        odd = z3.Function('odd', RealS, BoolS)
        eng.replace['is_nan'] = eng.replace['is_infinite'] = lambda eng, st, fr, info, args: [(st, odd(eng.lib.real(st, args[0])))]
        a = {n: PV.fresh(n, RealS) for n in ('rho', 'sig', 'int', 'ext', 'ratio')}
        a['max'], a['iters'] = dim(st, 'max'), dim(st, 'iters')
        st.assume(z3.And(a['rho'] >= 0, a['int'] >= 0, a['int'] <= 1, a['ext'] >= 1, a['ratio'] >= 0, a['max'] < 1 << 31, a['iters'] < 1 << 31))
        x0 = fvec('start', dim(st, 'n'))
        calls = []

        def grad(eng, st, fr, info, args):
            p = eng.lib.seq(st, args[1])
            calls.append(1)
            g = z3.Function('g!%d' % next(PV._cnt), IntS, RealS)
            return [(st, Agg('tuple', (cost_at(eng, st, p), Seq(p.n, lambda i: g(i)))))]
        eng.replace['compute_grad'] = grad
        c0 = cost_at(eng, st, x0)

        def cands(L):
            out = []
            rs = [l for l in L.leaves if l.kind == 'real']
            for l in rs:
                out.append(Cand('%r <= cost at the start' % l, lambda S, k, l=l: l.get(S) <= c0, True))
                for nm, p in (('>= 0', lambda v: v >= 0), ('<= 0', lambda v: v <= 0), ('unset or a bracket', lambda v: z3.Or(v == -1, v >= 0))):
                    out.append(Cand('%r %s' % (l, nm), lambda S, k, l=l, p=p: p(l.get(S)), True))
                for q in rs:
                    if q is not l:
                        out.append(Cand('%r >= -%r' % (l, q), lambda S, k, l=l, q=q: l.get(S) >= -q.get(S), True))
                for q in L.leaves:
                    if q.kind == 'seq':
                        out.append(Cand('%r is the cost at %r' % (l, q), lambda S, k, l=l, q=q: l.get(S) == PV.mkapp('COST', [], [q.get(S)], RealS), True))
            return out
        eng.templates.append(cands)
        eng.no_closed = True
        ctx.canary(eng, st.hyps, 'inputs')
        outs = ctx.run(eng, f, st, [Ref(struct(eng, 'ConjugateGD', a, CG)), Ref(Agg('M', ())), Ref(x0), Ref(Agg('X', ())), Ref(Agg('T', ()))], {'M': ('adt', 'M', ())})
        if not outs:
            raise Unsupported('never returns')
        for s, v in outs:
            w = eng.lib.seq(s, v)
            ctx.post(eng, s, w.n == x0.n, 'the result has the length of the start')
            ctx.post(eng, s, cost_at(eng, s, w) <= c0, 'the result costs no more than the start')
    ctx.target('ConjugateGD::optimize', optimize)


# ------------------------------------------------------------------ gradient descent
GD = 'learning::optim::grad_desc::'
EPS = z3.Q(1, 10 ** 20)


def fn(name, n, out=RealS):
    return z3.Function('%s!%d' % (name, next(PV._cnt)), *([IntS] * n + [out]))


def seq_leaves(L):
    return [l for l in L.leaves if l.kind == 'seq' and PV_isreal(l.get(L.base))]


def PV_isreal(s):
    x = s.at(fint('p'))
    return isz(x) and x.sort() == RealS


def is_row(f, n, *ix):
    """candidate body: a sequence is the row ix of the ghost f"""
    return lambda l: (lambda S, k: seq_is(l.get(S), f, n, *[(i(k) if callable(i) else i) for i in ix]))


def seq_is(s, f, n, *ix):
    return conj2(s.n == n, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), s.at(i) == f(*ix, i))))


def conj2(a, b):
    return PV.Conj([a, b])


def made(ctx, eng, ty, st, vals):
    """the optimiser a constructor returns for these settings"""
    f = ctx.method(eng, ty, 'new')
    eng.allow_panic = z3.BoolVal(False)
    outs = ctx.run(eng, f, st, vals)
    if len(outs) != 1:
        raise Unsupported('%d ways through the constructor' % len(outs))
    return outs[0]


def passes(s, f, eng, res, n, iters, what, ctx, cost, last):
    """res is the ghost f after K rounds, where K is the count or the cost has stopped changing at K - last"""
    recs = [d[1] for d in s.draws if d[0] == 'loop']
    ks = [iv(0)] + [x for r in recs for x in (r.k, r.k + 1)]
    name = 'the result is the parameters after some number of %s' % what
    for K in reversed(ks):
        if eng.pv.prove(s.hyps, seq_is(res, f, n, K), eng.inst_hints)[0] == 'proved':
            ctx.ok(eng, name, 'post')
            ctx.post(eng, s, z3.And(K >= 0, K <= iters), 'no more %s than asked for' % what)
            done = lambda j: z3.Or(z3.And(j == 0, zabs(cost(iv(0))) < EPS), z3.And(j >= 1, zabs(cost(j - 1) - cost(j)) < EPS))
            ctx.post(eng, s, z3.Or(K == iters, done(K - last)), 'all the %s, unless the cost stopped changing' % what)
            j = fint('j')
            s2 = s.copy()
            s2.assume(z3.And(j >= 1, j < K - last))
            ctx.post(eng, s2, z3.Not(done(j)), 'no %s after the cost stopped changing' % what)
            return
    ctx.fail(eng, name, 'it is not')


def zabs(x):
    return z3.If(x >= 0, x, -x)


def c27(ctx):
    def plain(eng):
        f = ctx.method(eng, 'GradientDesc', 'optimize', 'OptimAlgorithm')
        st = State()
        al, it, n = PV.fresh('alpha', RealS), dim(st, 'iters'), dim(st, 'n')
        st.assume(al > 0)
        st, obj = made(ctx, eng, 'GradientDesc', st, [al, it])
        x0 = fvec('start', n)
        X, G, C = fn('X', 2), fn('G', 2), fn('C', 1)
        st.assume(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), X(0, i) == x0.at(i))))
        calls = []

        def grad(eng, st, fr, info, args):
            p = eng.lib.seq(st, args[1])
            k = eng.loopstack[0].k if eng.loopstack else iv(0)
            good = eng.pv.prove(st.hyps, seq_is(p, X, n, k), eng.inst_hints)[0] == 'proved'
            if not eng.dry:
                calls.append(1)
                ctx.post(eng, st, seq_is(p, X, n, k), 'every gradient is taken at the current parameters')
            if not good:
                g = fn('g', 1)
                return [(st, Agg('tuple', (PV.fresh('c', RealS), Seq(n, lambda i: g(i)))))]
            # the next parameters, by definition
            st.assume(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), X(k + 1, i) == X(k, i) - al * G(k, i))))
            return [(st, Agg('tuple', (C(k), Seq(n, lambda i: G(k, i)))))]
        eng.replace['compute_grad'] = grad

        def cands(L):
            out = [Cand('%r is where the rounds so far lead' % l, (lambda S, k, l=l: seq_is(l.get(S), X, n, k))) for l in seq_leaves(L)]
            out += [Cand('%r is the cost before' % l, (lambda S, k, l=l, v0=l.get(L.entry): l.get(S) == z3.If(k == 0, v0, C(k - 1))), True) for l in L.leaves if l.kind == 'real']
            out.append(Cand('no round so far left the cost as it was', lambda S, k: All(1, lambda j: z3.Implies(z3.And(j >= 1, j < k), zabs(C(j - 1) - C(j)) >= EPS))))
            return out
        eng.templates.append(cands)
        eng.no_closed = True
        ctx.canary(eng, st.hyps, 'inputs')
        outs = ctx.run(eng, f, st, [Ref(obj), Ref(Agg('M', ())), Ref(x0), Ref(Agg('X', ())), Ref(Agg('T', ()))], {'M': ('adt', 'M', ())})
        if not outs:
            raise Unsupported('never returns')
        for s, v in outs:
            w = eng.lib.seq(s, v)
            passes(s, X, eng, w, n, it, 'rounds', ctx, C, 0)
    ctx.target('GradientDesc::optimize', plain)

    # name, settings in the order of new, update: (settings, gradient, parameters, memory) -> (parameters, memory)
    for ty, names, rule in STOCH:
        def stochastic(eng, ty=ty, names=names, rule=rule):
            f = ctx.method(eng, ty, 'optimize', 'OptimAlgorithm')
            st = State()
            it, n, m, c, ct = dim(st, 'iters'), dim(st, 'n'), dim(st, 'm', 1), dim(st, 'c'), dim(st, 'ct')
            a = [PV.fresh(x, RealS) for x in names]
            for nm, x in zip(names, a):
                st.assume(x >= 0 if nm == 'tau' else x > 0)
            if ty == 'RMSProp':
                st.assume(a[1] < 1)
            st, obj = made(ctx, eng, ty, st, a + [it])
            x0, xs, ts = fvec('start', n), fmat('x', m, c), fmat('t', m, ct)
            W, V, G, C = fn('W', 3), fn('V', 3), fn('G', 3), fn('C', 2)
            inr = lambda i: z3.And(i >= 0, i < n)
            st.assume(All(1, lambda i: z3.Implies(inr(i), z3.And(W(0, 0, i) == x0.at(i), V(0, 0, i) == 0))))
            MC = fn('mean cost', 1)
            where = lambda: (eng.loopstack + [None, None])[:2]

            def step(eng, st, fr, info, args):
                p, row, tr = eng.lib.seq(st, args[1]), eng.lib.val(st, args[2]), eng.lib.val(st, args[3])
                perm = [d for d in st.draws if d[0] == 'perm']
                o, q = where()
                if q is None or not perm:
                    raise Unsupported('gradient outside the passes over the data')
                e, t, P = o.k, q.k, perm[-1][1]
                j = fint('j')
                s = st.copy()
                s.assume(z3.And(j >= 0))
                here = seq_is(p, lambda e, t, i: W(e, t, i), n, e, t)
                good = any(eng.pv.prove(st.hyps, here, eng.inst_hints, quick=q)[0] == 'proved' for q in (True, False))
                if not eng.dry:
                    ctx.post(eng, st, here, 'every gradient is taken at the current parameters')
                    ctx.post(eng, s, z3.And(row.r == 1, row.c == c, z3.Implies(j < c, row.at(iv(0), j) == xs.at(P(t), j))), 'step by step, the rows of the inputs in the order of the pass')
                    ctx.post(eng, s, z3.And(tr.r == 1, tr.c == ct, z3.Implies(j < ct, tr.at(iv(0), j) == ts.at(P(t), j))), 'every input row with its own target row')
                g = Seq(n, lambda i: G(e, t, i))
                if good:
                    def nxt(i):
                        w, v = rule(a, G(e, t, i), W(e, t, i), V(e, t, i))
                        return z3.Implies(inr(i), z3.And(W(e, t + 1, i) == w, V(e, t + 1, i) == v))
                    st.assume(All(1, nxt))
                return [(st, Agg('tuple', (C(e, t), g)))]
            eng.replace['compute_grad'] = step

            def shuffled(eng, st, fr, info, args):
                was = eng.lib.seq(st, args[0])
                if not eng.dry:
                    ctx.post(eng, st, was.n == m, 'what is shuffled is the row numbers')
                    ctx.post(eng, st, perm_of(was, m), 'what is shuffled is the row numbers')
                P = fn('P', 1, IntS)
                st.draws.append(('perm', P))
                new = Seq(was.n, lambda i: P(i), elty=was.elty)
                st.assume(perm_of(new, m))
                eng.lib.setv(st, eng.lib.ptr(st, args[0]), new)
                # a pass begins: the next one will begin where it ends
                e = eng.loopstack[0].k if eng.loopstack else iv(0)
                st.assume(MC(e) == psum(m, lambda t: C(e, t)) / TR(m))
                st.assume(All(1, lambda i: z3.Implies(inr(i), z3.And(W(e + 1, 0, i) == W(e, m, i), V(e + 1, 0, i) == V(e, m, i)))))
                return [(st, UNIT)]
            eng.replace['in_place_fisher_yates'] = shuffled

            def cands(L):
                out = []
                depth = len(eng.loopstack)
                if depth == 0:
                    for l in seq_leaves(L):
                        for nm, F in (('parameters', W), ('memory', V)):
                            out.append(Cand('%r is the %s of the passes so far' % (l, nm), (lambda S, k, l=l, F=F: seq_is(l.get(S), F, n, k, iv(0))), quick=True))
                    for l in L.leaves:
                        if l.kind == 'real':
                            out.append(Cand('%r is the mean cost before' % l, (lambda S, k, l=l, v0=l.get(L.entry): l.get(S) == z3.If(k == 0, v0, MC(k - 1))), True))
                    out.append(Cand('no pass so far left the cost as it was', lambda S, k: All(1, lambda j: z3.Implies(z3.And(j >= 1, j < k), zabs(MC(j - 1) - MC(j)) >= EPS))))
                    for l in L.leaves:
                        if l.kind == 'seq' and l not in seq_leaves(L):
                            out.append(Cand('%r holds the row numbers' % l, (lambda S, k, l=l: perm_of(l.get(S), m)), quick=True))
                if depth == 1:
                    e = eng.loopstack[0].k
                    for l in seq_leaves(L):
                        for nm, F in (('parameters', W), ('memory', V)):
                            out.append(Cand('%r is the %s of the steps so far' % (l, nm), (lambda S, k, l=l, F=F: seq_is(l.get(S), F, n, e, k)), quick='retry'))
                    for l in L.leaves:
                        if l.kind == 'real':
                            out.append(Cand('%r is the cost of the steps so far' % l, (lambda S, k, l=l, v0=l.get(L.entry): l.get(S) == v0 + psum(k, lambda t: C(e, t))), quick=True))
                return out
            eng.templates.append(cands)
            eng.no_closed = True
            st.assume(PV.mkapp('ROWNUMBERS', [m], [Seq(m, lambda i: i)], BoolS))
            ctx.canary(eng, st.hyps, 'inputs')
            outs = ctx.run(eng, f, st, [Ref(obj), Ref(Agg('M', ())), Ref(x0), Ref(xs), Ref(ts)], {'M': ('adt', 'M', ())})
            if not outs:
                raise Unsupported('never returns')
            for s, v in outs:
                w = eng.lib.seq(s, v)
                passes(s, lambda k, i: W(k, 0, i), eng, w, n, it, 'passes', ctx, MC, 1)
        ctx.target(ty + '::optimize', stochastic)


def perm_of(s, m):
    """the integers below m, each once, in some order (opaque: true of 0, 1, .. and of what a shuffle returns)"""
    q = Seq(m, lambda i: s.at(i) if isz(s.at(i)) else strip(s.at(i)))
    return PV.Conj([s.n == m, PV.mkapp('ROWNUMBERS', [m], [q], BoolS), All(1, lambda i: z3.Implies(z3.And(i >= 0, i < m), z3.And(q.at(i) >= 0, q.at(i) < m)))])


def nesterov(a, g, w, v):
    al, mu = a
    v1 = mu * g + al * v
    return w - (-al * v + (1 + al) * v1), v1


def adagrad(a, g, w, v):
    v1 = v + g * g
    return w - a[0] * (g / (a[1] + f1('sqrt', v1))), v1


def rmsprop(a, g, w, v):
    lr, rho, eps = a
    v1 = rho * v + (1 - rho) * (g * g)
    return w - lr * g / f1('sqrt', v1 + eps), v1


STOCH = [('StochasticGD', ('alpha', 'mu'), nesterov), ('AdaGrad', ('alpha', 'tau'), adagrad), ('RMSProp', ('rate', 'decay', 'epsilon'), rmsprop)]
