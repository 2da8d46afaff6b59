"""C07, C08: the exponential and the normal distribution (src/stats/dist)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, RealS, PI, SQRT2PI, LN2PI
from vf.diff import D
from vf.mir import Unsupported
from vf.sym import State

R = z3.RealVal
DIST = 'Distribution'


def construct(ctx, eng, ty, ctor, args, hyps):
    """-> [(state, object)]"""
    f = ctx.method(eng, ty, ctor, 'Default' if ctor == 'default' else None)
    st = State()
    for h in hyps:
        st.assume(h)
    keep = eng.allow_panic
    eng.allow_panic = None
    outs = ctx.run(eng, f, st, list(args))
    eng.allow_panic = keep
    if not outs:
        raise Unsupported(ctor + ' never returns')
    return outs


def method(ctx, eng, s, ty, m, trait, obj, args):
    f = ctx.method(eng, ty, m, trait)
    env = {'Self': ('adt', [n for n in eng.src.defs if n.split('::')[-1] == ty][0], []), 'T': ('float', 'f64')}
    return ctx.run(eng, f, s.copy(), [obj] + list(args), env)


def values(ctx, eng, ty, ctors, m, hyps, args, spec, name, panic=None):
    """ty built by each constructor; m(args) == spec(parameters)"""
    for ctor, cargs, par, chyps in ctors:
        for s, obj in construct(ctx, eng, ty, ctor, cargs, chyps + hyps):
            eng.allow_panic = panic
            outs = method(ctx, eng, s, ty, m, DIST, Ref(obj), args)
            eng.allow_panic = None
            if not outs:
                raise Unsupported(m + ' never returns')
            for s2, v in outs:
                ctx.canary(eng, s2.hyps, '%s of %s returns' % (m, ctor))
                if panic is not None:
                    ctx.post(eng, s2, z3.Not(panic), '%s: a negative value is refused' % ctor)
                ctx.post(eng, s2, eng.lib.sc(s2, v) == spec(par, *args), '%s: %s' % (ctor, name))


def sampling(ctx, eng, ty, ctors, variate, spec):
    for m, trait, mut in (('ind_sample', 'IndependentSample', False), ('sample', 'Sample', True)):
        for ctor, cargs, par, chyps in ctors:
            for s, obj in construct(ctx, eng, ty, ctor, cargs, chyps):
                rng = Ptr(eng.newcell(s, Agg('ThreadRng', ())))
                if mut:
                    c = eng.newcell(s, obj)
                    outs = method(ctx, eng, s, ty, m, trait, Ptr(c), [rng])
                else:
                    outs = method(ctx, eng, s, ty, m, trait, Ref(obj), [rng])
                if not outs:
                    raise Unsupported(m + ' never returns')
                for s2, v in outs:
                    dr = s2.draws
                    if len(dr) != 1 or dr[0][0] != variate:
                        if any(d[0] == 'loop' for d in dr):
                            raise Unsupported('draws in a loop')
                        ctx.fail(eng, '%s, %s: one %s variate is drawn' % (ctor, m, variate), 'draws: %r' % ([d[0] for d in dr],))
                        continue
                    ctx.post(eng, s2, eng.lib.sc(s2, v) == spec(par, dr[0][1]), '%s, %s: the variate is scaled to the distribution' % (ctor, m))
                    if mut:
                        ctx.post(eng, s2, eqv(s2.cells[c], obj), '%s, %s: the distribution is unchanged' % (ctor, m))


# ------------------------------------------------------------------ C07
E_pdf = lambda lam, x: lam * f1('exp', -(lam * x))
E_log = lambda lam, x: f1('ln', lam) - lam * x
E_cdf = lambda lam, x: 1 - f1('exp', -(lam * x))


def c07(ctx):
    def ctors():
        lam = PV.fresh('lambda', RealS)
        return [('new', [lam], lam, [lam > 0]), ('default', [], R(1), [])]
    for m, spec, name in (('pdf', E_pdf, 'density'), ('logpdf', E_log, 'log-density'), ('cdf', E_cdf, 'cumulative function')):
        def go(eng, m=m, spec=spec, name=name):
            x = PV.fresh('x', RealS)
            values(ctx, eng, 'Exponential', ctors(), m, [], [x], spec, 'the %s is the documented one' % name, panic=x < 0)
        ctx.target('Exponential::' + m, go)

    def rate(eng):
        for ctor, cargs, par, chyps in ctors():
            for s, obj in construct(ctx, eng, 'Exponential', ctor, cargs, chyps):
                for s2, v in method(ctx, eng, s, 'Exponential', 'lambda', None, Ref(obj), []):
                    ctx.post(eng, s2, eng.lib.sc(s2, v) == par, ctor + ': the rate is reported as given')
    ctx.target('Exponential::lambda', rate)
    ctx.target('Exponential sampling', lambda eng: sampling(ctx, eng, 'Exponential', ctors(), 'Exp1', lambda lam, d: d / lam))

    def lemmas(eng):
        lam, x, y = PV.fresh('lambda', RealS), PV.fresh('x', RealS), PV.fresh('y', RealS)
        h = [lam > 0, x >= 0]
        ctx.lemma(eng, h, E_log(lam, x) == f1('ln', E_pdf(lam, x)), 'the log-density is the logarithm of the density')
        ctx.lemma(eng, h, D(E_cdf(lam, x), x) == E_pdf(lam, x), 'the density is the derivative of the cumulative function')
        ctx.lemma(eng, h, E_pdf(lam, x) > 0, 'the density is positive')
        ctx.lemma(eng, [lam > 0], E_cdf(lam, R(0)) == 0, 'the cumulative function starts at 0')
        ctx.lemma(eng, h, z3.And(E_cdf(lam, x) >= 0, E_cdf(lam, x) < 1), 'the cumulative function lies in [0,1)')
        a, b = PV.fresh('a', RealS), PV.fresh('b', RealS)
        ctx.lemma(eng, h + [x <= y], z3.Implies(z3.And(a == lam * x, b == lam * y), a <= b), 'order of exponents')
        ctx.lemma(eng, [a <= b], f1('exp', -b) <= f1('exp', -a), 'the cumulative function never decreases')
    ctx.target('Exponential laws', lemmas)


# ------------------------------------------------------------------ C08
def G_pdf(p, x):
    mean, var, sd = p
    return f1('exp', -((x - mean) * (x - mean)) / (2 * var)) / (SQRT2PI * sd)


def G_log(p, x):
    mean, var, sd = p
    return -f1('ln', sd) - LN2PI / 2 - (x - mean) * (x - mean) / (2 * var)


def G_cdf(p, x):
    mean, var, sd = p
    root = f1('sqrt', 1 - f1('exp', -2 * (x - mean) * (x - mean) / (PI * var)))
    return (1 + z3.If(x >= mean, root, -root)) / 2


def c08(ctx):
    def ctors():
        mean, var, sd = PV.fresh('mean', RealS), PV.fresh('var', RealS), PV.fresh('sd', RealS)
        root = f1('sqrt', var)
        return [('new', [mean, var], (mean, var, root), [var > 0, root > 0, root * root == var]),
                ('from_std_dev', [mean, sd], (mean, sd * sd, sd), [sd > 0]),
                ('default', [], (R(0), R(1), R(1)), [])]
    for m, spec, name in (('pdf', G_pdf, 'density'), ('logpdf', G_log, 'log-density'), ('cdf', G_cdf, 'cumulative function')):
        def go(eng, m=m, spec=spec, name=name):
            x = PV.fresh('x', RealS)
            values(ctx, eng, 'Gaussian', ctors(), m, [], [x], spec, 'the %s is the documented one' % name)
        ctx.target('Gaussian::' + m, go)
    ctx.target('Gaussian sampling', lambda eng: sampling(ctx, eng, 'Gaussian', ctors(), 'StandardNormal', lambda p, d: p[0] + p[2] * d))

    def lemmas(eng):
        mean, var, sd, x, y, t = [PV.fresh(n, RealS) for n in ('mean', 'var', 'sd', 'x', 'y', 't')]
        p = (mean, var, sd)
        e = f1('exp', t)
        h = [sd > 0, var == sd * sd, SQRT2PI > 0]
        # with t the exponent
        ctx.lemma(eng, h, f1('ln', e / (SQRT2PI * sd)) == t - f1('ln', SQRT2PI) - f1('ln', sd), 'the log-density is the logarithm of the density')
        ctx.lemma(eng, [], 2 * f1('ln', SQRT2PI) == LN2PI, 'ln(2 pi) / 2 = ln sqrt(2 pi)')
        r = f1('sqrt', 1 - e)
        ctx.lemma(eng, [t <= 0], z3.And(r >= 0, r <= 1), 'the root of the cumulative function is in [0,1]')
        ctx.lemma(eng, [t <= 0], z3.And((1 + r) / 2 >= 0, (1 + r) / 2 <= 1, (1 - r) / 2 >= 0, (1 - r) / 2 <= 1), 'the cumulative function lies in [0,1]')
        t2 = PV.fresh('t2', RealS)
        r2 = f1('sqrt', 1 - f1('exp', t2))
        ctx.lemma(eng, [t <= 0, t2 <= t], r <= r2, 'the root grows with the distance from the mean')
        d = x - mean
        q = PV.fresh('q', RealS)
        ctx.lemma(eng, [var > 0, PI > 3, q == d * d / (PI * var)], -2 * q <= 0, 'the exponent is not positive')
        ctx.lemma(eng, [var > 0, PI > 3], z3.Implies(x == mean, G_cdf(p, x) == R(1) / 2), 'value 1/2 at the mean')
        ctx.lemma(eng, [var > 0, PI > 3, y == 2 * mean - x, x > mean], G_cdf(p, x) + G_cdf(p, y) == 1, 'symmetric about the mean')
        u, v = PV.fresh('u', RealS), PV.fresh('v', RealS)
        ctx.lemma(eng, [u >= 0, u <= v], u * u <= v * v, 'squares of distances are ordered')
        w = PV.fresh('w', RealS)
        ctx.lemma(eng, [w > 0, u <= v], u / w <= v / w, 'scaled squares are ordered')
    ctx.target('Gaussian laws', lemmas)
