"""C05, C06: activation functions (src/learning/toolkit/activ_fn.rs)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, RealS
from vf.diff import D
from vf.mir import Unsupported
from vf.sym import State

R = z3.RealVal
SPEC = {
    'Sigmoid': lambda x: 1 / (1 + f1('exp', -x)),
    'Linear': lambda x: x,
    'Exp': lambda x: f1('exp', x),
    'Tanh': lambda x: f1('tanh', x),
}
RANGE = {'Sigmoid': lambda y: z3.And(y > 0, y < 1), 'Linear': lambda y: z3.BoolVal(True), 'Exp': lambda y: y > 0, 'Tanh': lambda y: z3.And(y > -1, y < 1)}


def call(ctx, eng, ty, m, x, hyps=()):
    """-> [(state, value)] of ty::m(x)"""
    f = ctx.method(eng, ty, m, 'ActivationFunc')
    st = State()
    for h in hyps:
        st.assume(h)
    outs = ctx.run(eng, f, st, [x], {'Self': ('adt', 'learning::toolkit::activ_fn::' + ty, [])})
    res = []
    for s, v in outs:
        ctx.canary(eng, s.hyps, m + ' returns')
        res.append((s, eng.lib.sc(s, v)))
    if not res:
        raise Unsupported(m + ' never returns')
    return res


def c05(ctx):
    for ty, spec in SPEC.items():
        def grad(eng, ty=ty, spec=spec):
            x = PV.fresh('x', RealS)
            want = D(spec(x), x)
            for s, v in call(ctx, eng, ty, 'func', x):
                ctx.post(eng, s, v == spec(x), 'func is the documented function')
            for s, v in call(ctx, eng, ty, 'func_grad', x):
                ctx.post(eng, s, v == want, 'func_grad is its derivative')
        ctx.target(ty + '::func_grad', grad)

        def out(eng, ty=ty, spec=spec):
            x, y = PV.fresh('x', RealS), PV.fresh('y', RealS)
            want = D(spec(x), x)
            for s, v in call(ctx, eng, ty, 'func_grad_from_output', y, [y == spec(x)]):
                ctx.post(eng, s, v == want, 'func_grad_from_output at y = func(x) is the derivative at x')
        ctx.target(ty + '::func_grad_from_output', out)


def c06(ctx):
    for ty, spec in SPEC.items():
        def fn(eng, ty=ty, spec=spec):
            x = PV.fresh('x', RealS)
            for s, v in call(ctx, eng, ty, 'func', x):
                ctx.post(eng, s, v == spec(x), 'func is the documented function')
        ctx.target(ty + '::func', fn)

        def lem(eng, ty=ty, spec=spec):
            x, x2 = PV.fresh('x', RealS), PV.fresh('x2', RealS)
            ctx.lemma(eng, [], RANGE[ty](spec(x)), 'values lie in the documented range')
            ctx.lemma(eng, [x < x2], spec(x) < spec(x2), 'strictly increasing')
        ctx.target(ty + ' range and order', lem)

        def inv(eng, ty=ty, spec=spec):
            x, y = PV.fresh('x', RealS), PV.fresh('y', RealS)
            for s, v in call(ctx, eng, ty, 'func_inv', y, [y == spec(x)]):
                ctx.post(eng, s, v == x, 'func_inv undoes func')
        ctx.target(ty + '::func_inv', inv)
