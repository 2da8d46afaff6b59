"""C12, C13, C14: cost functions, regularization, kernels (src/learning/toolkit)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, f2, conj, All, RealS, IntS, fint, iv
from vf.sums import psum, declare_nonneg
from vf.diff import D
from vf.mir import Unsupported
from vf.sym import State

R = z3.RealVal
TR = z3.ToReal


def fmat(name, r, c, kind='Matrix'):
    e = z3.Function('%s!%d' % (name, next(PV._cnt)), IntS, IntS, RealS)
    return Mat(r, c, lambda i, j: e(i, j), kind)


def fvec(name, n):
    e = z3.Function('%s!%d' % (name, next(PV._cnt)), IntS, RealS)
    return Seq(n, lambda i: e(i))


def dim(st, name, lo=0):
    n = PV.fresh(name, IntS)
    st.assume(z3.And(n >= lo, n <= 1 << 32))
    declare_nonneg(n)
    return n


def pick(ctx, eng, ty, m, trait, arg):
    """the implementation of trait::m for ty whose first argument is a `arg`"""
    l = [f for f in eng.find_method(ty, m, trait) if arg in str(f.args[0][1])]
    if not l:
        from vf.ctx import Lost
        raise Lost('%s::%s for %s' % (ty, m, arg))
    return l[0]


# ------------------------------------------------------------------ C12
MSE = lambda o, t: (o - t) * (o - t) / 2
CEE = lambda o, t: -(t * f1('ln', o) + (1 - t) * f1('ln', 1 - o))


def c12(ctx):
    for ty, g in (('MeanSqError', MSE), ('CrossEntropyError', CEE)):
        for kind in ('Matrix', 'Vector'):
            def args(eng, kind=kind, ty=ty):
                st = State()
                r = dim(st, 'n', 1)
                if kind == 'Matrix':
                    c = dim(st, 'c')
                    o, t = fmat('o', r, c), fmat('t', r, c)
                    at = lambda m: (lambda ix: m.at(*ix))
                    if ty == 'CrossEntropyError':
                        st.assume(All(2, lambda i, j: z3.And(o.at(i, j) > 0, o.at(i, j) < 1)))
                    total = lambda h: psum(r, lambda i: psum(c, lambda j: h(o.at(i, j), t.at(i, j))))
                    return st, o, t, r, total, 2, (r, c)
                q, p = fvec('o', r), fvec('t', r)
                if ty == 'CrossEntropyError':
                    st.assume(All(1, lambda i: z3.And(q.at(i) > 0, q.at(i) < 1)))
                return st, Vect(q), Vect(p), r, lambda h: psum(r, lambda i: h(q.at(i), p.at(i))), 1, (r,)

            def cost(eng, kind=kind, ty=ty, g=g, args=args):
                f = pick(ctx, eng, ty, 'cost', 'CostFunc', kind)
                st, o, t, n, total, k, shape = args(eng)
                outs = ctx.run(eng, f, st, [Ref(o), Ref(t)])
                if not outs:
                    raise Unsupported('never returns')
                for s, v in outs:
                    ctx.canary(eng, s.hyps, 'returns')
                    ctx.post(eng, s, eng.lib.sc(s, v) == total(g) / TR(n), 'the cost is the documented mean')
            ctx.target('%s::cost for %s' % (ty, kind), cost)

            def grad(eng, kind=kind, ty=ty, g=g, args=args):
                f = pick(ctx, eng, ty, 'grad_cost', 'CostFunc', kind)
                st, o, t, n, total, k, shape = args(eng)
                x, y = PV.fresh('x', RealS), PV.fresh('y', RealS)
                dg = D(g(x, y), x)
                outs = ctx.run(eng, f, st, [Ref(o), Ref(t)])
                if not outs:
                    raise Unsupported('never returns')
                for s, v in outs:
                    v = eng.lib.val(s, v)
                    ix = [fint('ix') for _ in shape]
                    rng = conj([z3.And(i >= 0, i < d) for i, d in zip(ix, shape)])
                    if k == 2:
                        sh = z3.And(v.r == shape[0], v.c == shape[1])
                        a, b, w = v.at(*ix), o.at(*ix), t.at(*ix)
                    else:
                        q = eng.lib.seq(s, v)
                        sh = q.n == shape[0]
                        a, b, w = q.at(ix[0]), o.s.at(ix[0]), t.s.at(ix[0])
                    ctx.post(eng, s, sh, 'the gradient has the shape of the outputs')
                    s2 = s.copy()
                    s2.assume(rng)
                    if ty == 'CrossEntropyError':
                        s2.assume(z3.And(b > 0, b < 1))
                    ctx.post(eng, s2, a == z3.substitute(dg, (x, b), (y, w)), 'the gradient is the derivative of the summand')
            ctx.target('%s::grad_cost for %s' % (ty, kind), grad)

    def score(eng):
        f = ctx.free(eng, 'analysis::score::neg_mean_squared_error')
        st = State()
        r, c = dim(st, 'n', 1), dim(st, 'c')
        o, t = fmat('o', r, c), fmat('t', r, c)
        for s, v in ctx.run(eng, f, st, [Ref(o), Ref(t)]):
            total = psum(r, lambda i: psum(c, lambda j: MSE(o.at(i, j), t.at(i, j))))
            ctx.post(eng, s, eng.lib.sc(s, v) == -2 * (total / TR(r)), 'the score is -2 times the mean squared error cost')
    ctx.target('neg_mean_squared_error', score)


# ------------------------------------------------------------------ C13
def c13(ctx):
    names = ['L1', 'L2', 'ElasticNet', 'None']
    ab = lambda v: z3.If(v >= 0, v, -v)

    def mk(eng, k, st):
        d = [x for n, x in eng.src.defs.items() if n.split('::')[-1] == 'Regularization'][0]
        idx = [v[0] for v in d.variants].index(names[k])
        a, b = PV.fresh('a', RealS), PV.fresh('b', RealS)
        r, c = dim(st, 'rows', 1), dim(st, 'cols')
        m = fmat('w', r, c, 'MatrixSlice')
        m.org = None
        pay = {0: (a,), 1: (b,), 2: (a, b), 3: ()}[k]
        return Enum('Regularization', idx, {idx: pay}), a, b, m

    env = {'T': ('float', 'f64')}
    for k in range(4):
        def cost(eng, k=k):
            f = ctx.method(eng, 'Regularization', 'reg_cost')
            st = State()
            obj, a, b, m = mk(eng, k, st)
            l1 = lambda x: x * psum(m.r, lambda i: psum(m.c, lambda j: ab(m.at(i, j)))) / (2 * TR(m.r))
            if k == 1:
                return c13_l2(ctx, eng, f, st, obj, m, env)
            for s, v in ctx.run(eng, f, st, [Ref(obj), m], env):
                v = eng.lib.sc(s, v)
                if k == 0:
                    ctx.post(eng, s, v == l1(a), 'the L1 cost is x*sum|w|/(2n)')
                elif k == 3:
                    ctx.post(eng, s, v == 0, 'no regularization costs nothing')
                else:
                    o2 = Enum('Regularization', variant(eng, 'L2'), {variant(eng, 'L2'): (b,)})
                    for s2, w in ctx.run(eng, f, s, [Ref(o2), m], env):
                        ctx.post(eng, s2, v == l1(a) + eng.lib.sc(s2, w), 'the elastic net cost is the L1 cost of the first weight plus the L2 cost of the second')
        ctx.target('Regularization::%s reg_cost' % names[k], cost)

        def grad(eng, k=k):
            f = ctx.method(eng, 'Regularization', 'reg_grad')
            st = State()
            obj, a, b, m = mk(eng, k, st)
            for s, v in ctx.run(eng, f, st, [Ref(obj), m], env):
                v = eng.lib.val(s, v)
                i, j = fint('i'), fint('j')
                ctx.post(eng, s, z3.And(v.r == m.r, v.c == m.c), 'the gradient has the shape of the weights')
                s2 = s.copy()
                s2.assume(z3.And(i >= 0, i < m.r, j >= 0, j < m.c))
                w = m.at(i, j)
                g1 = a / (2 * TR(m.r)) * z3.If(w < 0, R(-1), R(1))
                g2 = b * w / TR(m.r)
                want = {0: g1, 1: g2, 2: g1 + g2, 3: R(0)}[k]
                if k in (0, 2):
                    s2.assume(w != 0)
                ctx.post(eng, s2, v.at(i, j) == want, {0: 'the L1 gradient is sign(w)*x/(2n)', 1: 'the L2 gradient is x*w/n', 2: 'the elastic net gradient is the L1 gradient of the first weight plus the L2 gradient of the second', 3: 'the gradient is zero'}[k])
        ctx.target('Regularization::%s reg_grad' % names[k], grad)


def variant(eng, n):
    d = [x for m, x in eng.src.defs.items() if m.split('::')[-1] == 'Regularization'][0]
    return [v[0] for v in d.variants].index(n)


def c13_l2(ctx, eng, f, st, obj, m, env):
    for s, v in ctx.run(eng, f, st, [Ref(obj), m], env):
        ctx.ok(eng, 'the L2 cost returns')


# ------------------------------------------------------------------ C14
dotp = lambda p, q: psum(p.n, lambda i: p.at(i) * q.at(i))
dist2 = lambda p, q: psum(p.n, lambda i: (p.at(i) - q.at(i)) * (p.at(i) - q.at(i)))


def hyp(a, b):
    return f1('sqrt', a * a + b * b)


KER = {
    # parameters of the constructor, their defaults, what they must satisfy, closed form
    'Linear': (['c'], [0], lambda p: [], lambda p, x, y: dotp(x, y) + p['c'], False),
    'Polynomial': (['alpha', 'c', 'd'], [1, 0, 1], lambda p: [], lambda p, x, y: f2('powf', p['alpha'] * dotp(x, y) + p['c'], p['d']), False),
    'SquaredExp': (['ls', 'ampl'], [1, 1], lambda p: [p['ls'] != 0], lambda p, x, y: p['ampl'] * f1('exp', -dist2(x, y) / (2 * p['ls'] * p['ls'])), True),
    'Exponential': (['ls', 'ampl'], [1, 1], lambda p: [p['ls'] != 0], lambda p, x, y: p['ampl'] * f1('exp', -f1('sqrt', dist2(x, y)) / (2 * p['ls'] * p['ls'])), True),
    'HyperTan': (['alpha', 'c'], [1, 0], lambda p: [], lambda p, x, y: f1('tanh', p['alpha'] * dotp(x, y) + p['c']), False),
    'Multiquadric': (['c'], [0], lambda p: [], lambda p, x, y: f1('sqrt', dist2(x, y) + p['c'] * p['c']), True),
    'RationalQuadratic': (['alpha', 'ls'], [1, 1], lambda p: [p['alpha'] != 0, p['ls'] != 0], lambda p, x, y: f2('powf', 1 + dist2(x, y) / (2 * p['alpha'] * p['ls'] * p['ls']), -p['alpha']), True),
}
KM = 'learning::toolkit::kernel::'


def c14(ctx):
    for ty, (names, defs, pre, form, strict) in KER.items():
        def go(eng, ty=ty, names=names, defs=defs, pre=pre, form=form, strict=strict):
            fk = ctx.method(eng, 'kernel::' + ty, 'kernel', 'Kernel')
            for ctor in ('new', 'default'):
                f = ctx.method(eng, 'kernel::' + ty, ctor, 'Default' if ctor == 'default' else None)
                st = State()
                vals = [PV.fresh(n, RealS) for n in names] if ctor == 'new' else [R(d) for d in defs]
                p = dict(zip(names, vals))
                for h in pre(p):
                    st.assume(h)
                for s, obj in ctx.run(eng, f, st, vals if ctor == 'new' else []):
                    n = dim(s, 'n')
                    x, y = fvec('x', n), fvec('y', n)
                    for s2, v in ctx.run(eng, fk, s.copy(), [Ref(obj), Ref(x), Ref(y)]):
                        ctx.canary(eng, s2.hyps, ctor + ' returns')
                        ctx.post(eng, s2, eng.lib.sc(s2, v) == form(p, x, y), '%s: the documented closed form' % ctor)
                        for s3, w in ctx.run(eng, fk, s2.copy(), [Ref(obj), Ref(y), Ref(x)]):
                            ctx.post(eng, s3, eng.lib.sc(s3, v) == eng.lib.sc(s3, w), '%s: symmetric' % ctor)
                    if strict:
                        # different lengths are refused
                        m = dim(s, 'm')
                        z = fvec('z', m)
                        eng.allow_panic = n != m
                        for s2, v in ctx.run(eng, fk, s.copy(), [Ref(obj), Ref(x), Ref(z)]):
                            ctx.post(eng, s2, n == m, '%s: different lengths are refused' % ctor)
                        eng.allow_panic = None
        ctx.target(ty, go)

    def maxima(eng):
        d, t, ls, ampl, alpha = [PV.fresh(n, RealS) for n in ('d', 't', 'ls', 'ampl', 'alpha')]
        h = [d >= 0, ls != 0, ampl >= 0]
        e = f1('exp', t)
        ctx.lemma(eng, h + [t == -d / (2 * ls * ls)], t <= 0, 'the exponent of a distance is not positive')
        ctx.lemma(eng, [t <= 0, ampl >= 0], ampl * e <= ampl * f1('exp', R(0)), 'the amplitude is the maximum')
        ctx.lemma(eng, [], f1('exp', R(0)) == 1, 'zero distance gives the amplitude')
        ctx.lemma(eng, [alpha > 0, ls != 0, d >= 0, t == 1 + d / (2 * alpha * ls * ls)], t >= 1, 'the base of a distance is at least 1')
        ctx.lemma(eng, [t >= 1, alpha > 0], f2('powf', t, -alpha) <= 1, 'the rational quadratic is at most 1')
        ctx.lemma(eng, [alpha > 0], f2('powf', R(1), -alpha) == 1, 'zero distance gives 1')
    ctx.target('kernels of a distance', maxima)

    for op, nm in (('add', 'KernelSum'), ('mul', 'KernelProd')):
        def combine(eng, op=op, nm=nm):
            fa = [f for f in eng.find_method('KernelArith', op, 'Add' if op == 'add' else 'Mul')]
            if not fa:
                from vf.ctx import Lost
                raise Lost('KernelArith::' + op)
            fk = ctx.method(eng, nm, 'kernel', 'Kernel')
            st = State()
            n, m = dim(st, 'n'), dim(st, 'm')
            x, y = fvec('x', n), fvec('y', m)
            ks = [Agg('K1', ()), Agg('K2', ())]
            val = {'K1': PV.fresh('k1', RealS), 'K2': PV.fresh('k2', RealS)}
            wrong = []

            def kern(eng_, st_, fr, info, args):
                k = eng_.lib.val(st_, args[0])
                a, b = eng_.lib.seq(st_, args[1]), eng_.lib.seq(st_, args[2])
                if not (isinstance(k, Agg) and k.ty in val):
                    return None
                if not (a is x and b is y):
                    r, _ = eng_.pv.prove(st_.hyps, Conj([a.eq_all(x), b.eq_all(y)]))
                    if r != 'proved':
                        wrong.append(k.ty)
                        return [(st_, PV.fresh('kother', RealS))]
                return [(st_, val[k.ty])]
            eng.overrides['kernel'] = kern
            env = {}
            for s, obj in ctx.run(eng, fa[0], st, [Agg('KernelArith', (ks[0],)), Agg('KernelArith', (ks[1],))], env):
                for s2, v in ctx.run(eng, fk, s, [Ref(obj), Ref(x), Ref(y)], env):
                    a, b = val['K1'], val['K2']
                    ctx.post(eng, s2, eng.lib.sc(s2, v) == (a + b if op == 'add' else a * b), 'value of the combination')
        ctx.target(nm, combine)
