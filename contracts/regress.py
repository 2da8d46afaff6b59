"""C25: linear and logistic regression (src/learning/lin_reg.rs, logistic_reg.rs)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, All, RealS, IntS, fint, iv
from vf.sums import psum
from vf.diff import D
from vf.mir import Unsupported
from vf.sym import State
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import struct, field, ok_of
from contracts.models import refuses, MODELS

R = z3.RealVal
TR = z3.ToReal
LIN = 'learning::lin_reg::'
LOG = 'learning::logistic_reg::'
sig = lambda u: 1 / (1 + f1('exp', -u))
# cost summand of one row, as a function of its linear predictor
MSE = lambda u, t: (u - t) * (u - t) / 2
CE = lambda u, t: -(t * f1('ln', sig(u)) + (1 - t) * f1('ln', 1 - sig(u)))


def base(eng, p):
    return struct(eng, 'BaseLogisticRegressor', {'parameters': p}, LOG)


def some(v):
    return Enum('Option', 1, {1: (v,)})


NONE = Enum('Option', 0, {0: ()})
A = {'A': ('adt', 'A', ())}


def model(eng, ty, p):
    if ty == 'LinRegressor':
        return struct(eng, ty, {'parameters': p}, LIN)
    return struct(eng, ty, {'base': base(eng, p), 'alg': Agg('A', ())}, LOG)


def design(m):
    """the inputs with a leading column of ones"""
    return lambda i, j: z3.If(j == 0, R(1), m.at(i, j - 1))


def c25(ctx):
    for ty, env, h in (('LinRegressor', {}, lambda u: u), ('LogisticRegressor', A, sig)):
        def predict(eng, ty=ty, env=env, h=h):
            f = ctx.method(eng, ty, 'predict', 'SupModel')
            st = State()
            r, c = dim(st, 'n'), dim(st, 'c')
            x, b = fmat('x', r, c), fvec('b', c + 1)
            ctx.canary(eng, st.hyps, 'inputs')
            outs = ctx.run(eng, f, st, [Ref(model(eng, ty, some(Vect(b)))), Ref(x)], env)
            if not outs:
                raise Unsupported('predict never returns')
            for s, v in outs:
                v = ok_of(ctx, eng, s, v, 'a trained model predicts')
                if v is None:
                    continue
                w = eng.lib.seq(s, v)
                i = fint('i')
                ctx.post(eng, s, w.n == r, 'one prediction per row')
                s.assume(z3.And(i >= 0, i < r))
                ctx.post(eng, s, w.at(i) == h(b.at(iv(0)) + psum(c, lambda j: x.at(i, j) * b.at(j + 1))), 'the prediction is that of the linear predictor')
            st = State()
            x = fmat('x', dim(st, 'n'), dim(st, 'c'))
            for s, v in ctx.run(eng, f, st, [Ref(model(eng, ty, NONE)), Ref(x)], env):
                refuses(ctx, eng, s, v, 'prediction before training is an error')
        ctx.target(ty + '::predict', predict)

        def train(eng, ty=ty, env=env, m=('train_with_optimization' if ty == 'LinRegressor' else 'train')):
            f = ctx.method(eng, ty, m, None if ty == 'LinRegressor' else 'SupModel')
            st = State()
            r, c = dim(st, 'n'), dim(st, 'c')
            x, t = fmat('x', r, c), fvec('t', r)
            w = z3.Function('w!%d' % next(PV._cnt), IntS, RealS)
            calls = []

            def optimize(eng, st, fr, info, args):
                lib = eng.lib
                start, xs, ts = lib.seq(st, args[2]), lib.val(st, args[3]), lib.seq(st, args[4])
                calls.append(1)
                i, j = fint('i'), fint('j')
                s = st.copy()
                s.assume(z3.And(i >= 0, i < r, j >= 0, j < c + 1))
                ctx.post(eng, s, start.n == c + 1, 'the optimiser starts from one parameter per column and the bias')
                ctx.post(eng, s, z3.And(xs.r == r, xs.c == c + 1), 'the optimiser gets every row with its leading one')
                ctx.post(eng, s, xs.at(i, j) == design(x)(i, j), 'the design matrix is a column of ones and the inputs')
                ctx.post(eng, s, z3.And(ts.n == r, ts.at(i) == t.at(i)), 'the optimiser gets the targets')
                return [(st, Seq(start.n, lambda i: w(i)))]
            eng.replace['optimize'] = optimize
            cell = eng.newcell(st, model(eng, ty, NONE))
            for s, v in ctx.run(eng, f, st, [Ptr(cell), Ref(x), Ref(Vect(t))], env):
                if ty != 'LinRegressor' and ok_of(ctx, eng, s, v, 'training succeeds') is None:
                    continue
                o = s.cells[cell]
                p = field(eng, o, ty, 'parameters') if ty == 'LinRegressor' else field(eng, field(eng, o, ty, 'base'), 'BaseLogisticRegressor', 'parameters')
                p = eng.lib.val(s, p)
                if not (isinstance(p, Enum) and p.disc == 1):
                    ctx.fail(eng, 'the trained parameters are stored', 'no parameters')
                    continue
                q = eng.lib.seq(s, p.pay[1][0])
                i = fint('i')
                s.assume(z3.And(i >= 0, i < c + 1))
                ctx.post(eng, s, z3.And(q.n == c + 1, q.at(i) == w(i)), "the optimiser's result is stored")
            if not calls:
                ctx.fail(eng, 'training uses the optimiser', 'it is never called')
        ctx.target(ty + ' training', train)

    for ty, mod, h, g in (('LinRegressor', LIN, lambda u: u, MSE), ('BaseLogisticRegressor', LOG, sig, CE)):
        def grad(eng, ty=ty, mod=mod, h=h, g=g):
            f = ctx.method(eng, ty, 'compute_grad', 'Optimizable')
            st = State()
            r, c = dim(st, 'n', 1), dim(st, 'c')
            x, b, t = fmat('x', r, c), fvec('b', c), fvec('t', r)
            obj = struct(eng, ty, {'parameters': NONE}, mod)
            u = lambda i: psum(c, lambda k: x.at(i, k) * b.at(k))
            ctx.canary(eng, st.hyps, 'inputs')
            outs = ctx.run(eng, f, st, [Ref(obj), Ref(b), Ref(x), Ref(Vect(t))], {})
            if not outs:
                raise Unsupported('never returns')
            for s, v in outs:
                v = eng.lib.val(s, v)
                cost, gr = eng.lib.sc(s, v.f[0]), eng.lib.seq(s, v.f[1])
                ctx.post(eng, s, cost == psum(r, lambda i: g(u(i), t.at(i))) / TR(r), 'the cost is the documented mean over the rows')
                ctx.post(eng, s, gr.n == c, 'one gradient entry per parameter')
                j = fint('j')
                s.assume(z3.And(j >= 0, j < c))
                ctx.post(eng, s, gr.at(j) == psum(r, lambda i: x.at(i, j) * (h(u(i)) - t.at(i))) / TR(r), 'the gradient is the mean of residual times feature')
            # the derivative of the summand along parameter j: the predictor grows by x_ij per unit
            U, T, X, e = (PV.fresh(n, RealS) for n in 'utxe')
            d = z3.substitute(D(g(U + e * X, T), e), (e, R(0)))
            ctx.lemma(eng, [], d == X * (h(U) - T), "residual times feature is the derivative of the row's cost by the parameter")
        ctx.target(ty + '::compute_grad', grad)
