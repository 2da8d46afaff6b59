"""C26: links and families of the generalised linear model (src/learning/glm.rs)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, All, RealS, IntS, fint, iv
from vf.sums import psum
from vf.diff import D
from vf.mir import Unsupported
from vf.sym import State
from contracts.toolkit import fmat, fvec, dim

R = z3.RealVal
MOD = 'learning::glm::'
LINK = {
    # link, its inverse, where the link is defined
    'Logit': (lambda x: f1('ln', x / (1 - x)), lambda y: 1 / (1 + f1('exp', -y)), lambda x: z3.And(x > 0, x < 1)),
    'Log': (lambda x: f1('ln', x), lambda y: f1('exp', y), lambda x: x > 0),
    'Identity': (lambda x: x, lambda y: y, lambda x: z3.BoolVal(True)),
}
# family: link, variance, where the variance is not replaced by its floor
FAM = {
    'Bernoulli': ('Logit', lambda m: m * (1 - m), lambda m: z3.And(m > R('1/10000'), m < R('9999/10000'))),
    'Binomial': ('Logit', lambda m: m * (1 - m), lambda m: z3.And(m > R('1/10000'), m < R('9999/10000'))),
    'Normal': ('Identity', lambda m: R(1), lambda m: z3.BoolVal(True)),
    'Poisson': ('Log', lambda m: m, lambda m: m > R('1/10000')),
}


def self_env(ty):
    return {'Self': ('adt', MOD + ty, ())}


def fam(ty, st):
    if ty == 'Binomial':
        n = dim(st, 'w')
        return Agg(MOD + ty, (fvec('weights', n),))
    return Agg(MOD + ty, ())


def c26(ctx):
    for L, (g, ginv, dom) in LINK.items():
        def link(eng, L=L, g=g, ginv=ginv, dom=dom):
            x, y = PV.fresh('x', RealS), PV.fresh('y', RealS)

            def call(m, a, hyp):
                f = ctx.method(eng, 'glm::' + L, m, 'LinkFunc')
                st = State()
                st.assume(hyp)
                out = ctx.run(eng, f, st, [a], self_env(L))
                if not out:
                    raise Unsupported(m + ' never returns')
                return [(s, eng.lib.sc(s, v)) for s, v in out]
            want = D(g(x), x)
            for s, v in call('func', x, dom(x)):
                ctx.canary(eng, s.hyps, 'func')
                ctx.post(eng, s, v == g(x), 'func is the documented link')
            for s, v in call('func_grad', x, dom(x)):
                ctx.post(eng, s, v == want, 'func_grad is the derivative of the link')
            for s, v in call('func_inv', y, z3.And(dom(x), y == g(x))):
                ctx.post(eng, s, v == x, 'func_inv undoes the link')
            for s, v in call('func_inv', y, z3.BoolVal(True)):
                ctx.post(eng, s, v == ginv(y), 'func_inv is the documented mean function')
        ctx.target('link ' + L, link)
    for F, (L, var, ok) in FAM.items():
        g, ginv, dom = LINK[L]

        def family(eng, F=F, L=L, var=var, ok=ok, g=g, ginv=ginv, dom=dom):
            mu = PV.fresh('mu', RealS)
            f = ctx.method(eng, 'glm::' + F, 'model_variance', 'Criterion')
            st = State()
            st.assume(ok(mu))
            for s, v in ctx.run(eng, f, st, [Ref(fam(F, st)), mu], self_env(F)):
                ctx.post(eng, s, eng.lib.sc(s, v) == var(mu), 'the variance is that of the family')
            f = ctx.method(eng, 'glm::' + F, 'link_grad', 'Criterion')
            st = State()
            st.assume(dom(mu))
            for s, v in ctx.run(eng, f, st, [Ref(fam(F, st)), mu], self_env(F)):
                ctx.post(eng, s, eng.lib.sc(s, v) == D(g(mu), mu), 'the gradient is that of the canonical link')
            for m, h, d in (('apply_link_func', g, dom), ('apply_link_inv', ginv, lambda x: z3.BoolVal(True))):
                f = ctx.method(eng, 'glm::' + F, m, 'Criterion')
                st = State()
                n = dim(st, 'n')
                q = fvec('v', n)
                i = fint('i')
                st.assume(z3.And(i >= 0, i < n, d(q.at(i))))
                for s, v in ctx.run(eng, f, st, [Ref(fam(F, st)), Vect(q)], self_env(F)):
                    w = eng.lib.seq(s, v)
                    ctx.post(eng, s, w.n == n, m + ' keeps the length')
                    ctx.post(eng, s, w.at(i) == h(q.at(i)), m + ' is entry by entry')
            if F == 'Binomial':
                return
            f = ctx.method(eng, 'glm::' + F, 'compute_working_weight', 'Criterion')
            st = State()
            n = dim(st, 'n')
            q, y = fvec('mu', n), fvec('y', n)
            i = fint('i')
            near = conj([ok(q.at(i)), dom(q.at(i))])
            st.assume(z3.And(i >= 0, i < n, near))
            st0 = st.copy()
            gr = lambda m: z3.substitute(D(g(mu), mu), (mu, m))
            for s, v in ctx.run(eng, f, st, [Ref(fam(F, st)), Ref(q)], self_env(F)):
                w = eng.lib.seq(s, v)
                m = q.at(i)
                ctx.post(eng, s, w.n == n, 'one working weight per mean')
                ctx.post(eng, s, w.at(i) == 1 / (var(m) * gr(m) * gr(m)), 'working weight 1/(Var(mu) g\'(mu)^2)')
            f = ctx.method(eng, 'glm::' + F, 'compute_y_bar', 'Criterion')
            st = st0
            m, t = q.at(i), y.at(i)
            st.assume(z3.Or(t - m == 0, t - m > R('1/1000000'), m - t > R('1/1000000')))
            for s, v in ctx.run(eng, f, st, [Ref(fam(F, st)), Ref(y), Ref(q)], self_env(F)):
                w = eng.lib.seq(s, v)
                ctx.post(eng, s, w.n == n, 'one adjustment per mean')
                ctx.post(eng, s, w.at(i) == gr(m) * (t - m), "adjustment g'(mu)(y-mu)")
            f = ctx.method(eng, 'glm::' + F, 'initialize_mu', 'Criterion')
            st = State()
            n = dim(st, 'n')
            y = fvec('y', n)
            i = fint('i')
            st.assume(z3.And(i >= 0, i < n))
            for s, v in ctx.run(eng, f, st, [Ref(fam(F, st)), Ref(y)], self_env(F)):
                w = eng.lib.seq(s, v)
                ctx.post(eng, s, w.n == n, 'one initial mean per target')
                ctx.post(eng, s, z3.Implies(ok(y.at(i)), w.at(i) == y.at(i)), 'targets inside the family are the initial means')
                if F in ('Bernoulli', 'Poisson'):
                    ctx.post(eng, s, z3.Implies(y.at(i) <= 1, dom(w.at(i))), 'initial means lie in the domain of the link')
        ctx.target('family ' + F, family)

        def model(eng, F=F, L=L, ginv=ginv):
            env = {'C': ('adt', MOD + F, ())}
            f = ctx.method(eng, 'GenLinearModel', 'predict', 'SupModel')
            d = [x for n, x in eng.src.defs.items() if n.endswith('::GenLinearModel')][0]
            st = State()
            r, c = dim(st, 'n'), dim(st, 'c')
            x = fmat('x', r, c)
            b = fvec('b', c + 1)
            vals = {'parameters': Enum('Option', 1, {1: (Vect(b),)}), 'criterion': fam(F, st)}
            obj = Agg(MOD + 'GenLinearModel', [vals[n] for n in d.names])
            for s, v in ctx.run(eng, f, st, [Ref(obj), Ref(x)], env):
                v = eng.lib.val(s, v)
                if not (isinstance(v, Enum) and v.disc == 0):
                    ctx.fail(eng, 'a trained model predicts', 'returned an error')
                    continue
                w = eng.lib.seq(s, v.pay[0][0])
                i = fint('i')
                s2 = s.copy()
                s2.assume(z3.And(i >= 0, i < r))
                ctx.post(eng, s, w.n == r, 'one prediction per row')
                ctx.post(eng, s2, w.at(i) == ginv(b.at(iv(0)) + psum(c, lambda j: x.at(i, j) * b.at(j + 1))), 'the prediction is the inverse link of the linear predictor')
            vals['parameters'] = Enum('Option', 0, {0: ()})
            obj = Agg(MOD + 'GenLinearModel', [vals[n] for n in d.names])
            st = State()
            r, c = dim(st, 'n'), dim(st, 'c')
            for s, v in ctx.run(eng, f, st, [Ref(obj), Ref(fmat('x', r, c))], env):
                v = eng.lib.val(s, v)
                if isinstance(v, Enum) and v.disc == 1:
                    ctx.ok(eng, 'untrained prediction is an error')
                else:
                    ctx.fail(eng, 'untrained prediction is an error', 'returned a prediction')
            if F != 'Binomial':
                fn = ctx.method(eng, 'GenLinearModel', 'new')
                for s, v in ctx.run(eng, fn, State(), [fam(F, State())], env):
                    v = eng.lib.val(s, v)
                    p = v.f[list(d.names).index('parameters')]
                    if isinstance(p, Enum) and p.disc == 0:
                        ctx.ok(eng, 'a new model is untrained')
                    else:
                        ctx.fail(eng, 'a new model is untrained', str(p))
        ctx.target('model ' + F, model)
