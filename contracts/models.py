"""C34: models that were never trained refuse to predict (src/learning)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import conj, All, RealS, IntS, fint, iv
from vf.mir import Unsupported
from vf.sym import State
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import F64

ENV = {'K': ('adt', 'K', ()), 'U': ('adt', 'U', ()), 'S': ('adt', 'S', ()), 'C': ('adt', 'C', ()), 'A': ('adt', 'A', ())}


def kinds(eng):
    d = [x for n, x in eng.src.defs.items() if n.endswith('error::ErrorKind') or n == 'ErrorKind'][0]
    from vf.sym import norm_variants
    return [v[0] for v in norm_variants(d)]


def refuses(ctx, eng, s, v, name, kind='UntrainedModel'):
    """v is an error of the given kind"""
    v = eng.lib.val(s, v)
    if isinstance(v, Enum) and v.disc == 1:
        e = eng.lib.val(s, v.pay[1][0])
        k = eng.lib.val(s, e.f[0]) if isinstance(e, Agg) else None
        if isinstance(k, Enum) and isinstance(k.disc, int):
            return ctx.ok(eng, name, 'post') if kinds(eng)[k.disc] == kind else ctx.fail(eng, name, 'an error of another kind: %s' % kinds(eng)[k.disc])
        raise Unsupported('the kind of the error is not known')
    if isinstance(v, Enum) and isinstance(v.disc, int):
        if eng.pv.prove(s.hyps, z3.BoolVal(False))[0] == 'proved':
            return
        return ctx.fail(eng, name, 'returned a prediction')
    if isinstance(v, Enum):
        return ctx.post(eng, s, v.is_(1), name)
    raise Unsupported('the result is not a Result')


# model: type, generics, constructors, settings, trait, reads beside predict
MODELS = {
    'LinRegressor': ({}, ['default'], [], 'SupModel'),
    'LogisticRegressor': ({'A': ('adt', 'A', ())}, ['new', 'default'], [], 'SupModel'),
    'GenLinearModel': ({'C': ('adt', 'C', ())}, ['new'], [], 'SupModel'),
    'SVM': ({'K': ('adt', 'K', ())}, ['new', 'default'], [], 'SupModel'),
    'GaussianProcess': ({'T': ('adt', 'T', ()), 'U': ('adt', 'U', ())}, ['new', 'default'], [], 'SupModel'),
    'KNNClassifier': ({'S': ('adt', 'S', ())}, ['new', 'new_specified', 'default'], [], 'SupModel'),
    'NaiveBayes': ({'T': ('adt', 'T', ())}, ['new'], [], 'SupModel'),
    'KMeansClassifier': ({'InitAlg': ('adt', 'InitAlg', ())}, ['new', 'new_specified'], ['set_iters'], 'UnSupModel'),
    'GaussianMixtureModel': ({}, ['new', 'with_weights'], ['set_max_iters'], 'UnSupModel'),
    'DBSCAN': ({}, ['new', 'default'], ['set_predictive'], 'UnSupModel'),
    'PCA': ({}, ['new', 'default'], [], 'UnSupModel'),
}


def made(ctx, eng, ty, c, env):
    """the models a constructor returns"""
    f = ctx.method(eng, ty, c, 'Default' if c == 'default' else None)
    st, a = ctx.start(eng, f, env)
    eng.allow_panic = z3.BoolVal(True)
    outs = ctx.run(eng, f, st, a, env)
    eng.allow_panic = z3.BoolVal(False)
    r = []
    for s, v in outs:
        v = eng.lib.val(s, v)
        if isinstance(v, Enum):
            if v.disc == 1:
                continue
            s.assume(v.is_(0)) if not isinstance(v.disc, int) else None
            v = eng.lib.val(s, v.pay[0][0])
        r.append((s, v))
    return r


def c34(ctx):
    for ty, (env, ctors, sets, trait) in MODELS.items():
        def one(eng, ty=ty, env=env, ctors=ctors, sets=sets, trait=trait):
            for c in ctors:
                for s, v in made(ctx, eng, ty, c, env):
                    states = [(s, v)]
                    for m in sets:
                        f = ctx.method(eng, ty, m)
                        nxt = []
                        for s1, v1 in states:
                            s1 = s1.copy()
                            cell = eng.newcell(s1, v1)
                            _, a = ctx.start(eng, f, env)
                            if m == 'set_predictive':
                                a = [None, z3.BoolVal(True)]
                            for s2, _ in ctx.run(eng, f, s1, [Ptr(cell)] + a[1:], env):
                                nxt.append((s2, s2.cells[cell]))
                        states = ([] if ty == 'DBSCAN' else states) + nxt
                    for s1, v1 in states:
                        f = ctx.method(eng, ty, 'predict', trait)
                        s1 = s1.copy()
                        x = fmat('x', dim(s1, 'n'), dim(s1, 'c'))
                        ctx.canary(eng, s1.hyps, 'a new model')
                        n = 0
                        for s2, r in ctx.run(eng, f, s1, [Ref(v1), Ref(x)], env):
                            refuses(ctx, eng, s2, r, 'predict of a model from %s is an untrained-model error' % c)
                            n += 1
                        if not n:
                            raise Unsupported('predict never returns')
                        if ty == 'GaussianProcess':
                            f = ctx.method(eng, ty, 'get_posterior')
                            for s2, r in ctx.run(eng, f, s1.copy(), [Ref(v1), Ref(x)], env):
                                refuses(ctx, eng, s2, r, 'the posterior of an untrained process is an untrained-model error')
                        if ty == 'PCA':
                            f = ctx.method(eng, ty, 'components')
                            for s2, r in ctx.run(eng, f, s1.copy(), [Ref(v1)], env):
                                refuses(ctx, eng, s2, r, 'components of an unfitted PCA are an untrained-model error')
        ctx.target(ty, one)
