"""C33: principal component analysis (src/learning/pca.rs)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import conj, All, Conj, RealS, IntS, fint
from vf.sums import psum
from vf.mir import Unsupported
from vf.sym import State
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import struct, field, ok_of
from contracts.models import refuses
from contracts.regress import some, NONE
from contracts.kmeans import same

PC = 'learning::pca::'


def pca(eng, n, center, feats, centers, comps, inv):
    return struct(eng, 'PCA', {'n': n, 'center': z3.BoolVal(center), 'n_features': feats, 'centers': centers, 'components': comps, 'inv': z3.BoolVal(inv)}, PC)


def c33(ctx):
    def train(center, kept, wide):
        def go(eng):
            f = ctx.method(eng, 'PCA', 'train', 'UnSupModel')
            st = State()
            n, c = dim(st, 'n', 1), dim(st, 'c', 1)
            k = dim(st, 'k')
            st.assume(c > n if wide else c <= n)
            r = n if wide else c
            x = fmat('x', n, c)
            V = fmat('V', c, r)
            if kept:
                st.assume(k <= c)
            mean = lambda j: psum(n, lambda i: x.at(i, j)) / z3.ToReal(n)
            seen = []

            def svd(eng, st, fr, info, args):
                m = eng.lib.val(st, args[0])
                if not isinstance(m, Mat):
                    return None
                i, j = fint('i'), fint('j')
                s = st.copy()
                s.assume(z3.And(i >= 0, i < n, j >= 0, j < c))
                ctx.post(eng, s, z3.And(m.r == n, m.c == c), 'the data decomposed has the shape of the inputs')
                ctx.post(eng, s, m.at(i, j) == (x.at(i, j) - mean(j) if center else x.at(i, j)), 'it is the centred data' if center else 'it is the data')
                seen.append(1)
                return [(st, Enum('Result', 0, {0: (Agg('tuple', (fmat('S', r, r), fmat('U', n, r), V)),)}))]
            eng.replace['svd'] = svd
            eng.allow_panic = z3.BoolVal(False)
            ctx.canary(eng, st.hyps, 'inputs')
            for old in (False, True):
                s0 = st.copy()
                inv0 = not wide
                o = (some(dim(s0, 'of')), some(Vect(fvec('oc', dim(s0, 'on')))), some(fmat('om', dim(s0, 'oa'), dim(s0, 'ob')))) if old else (NONE, NONE, NONE)
                cell = eng.newcell(s0, pca(eng, some(k) if kept else NONE, center, o[0], o[1], o[2], inv0 if old else False))
                for s, v in ctx.run(eng, f, s0, [Ptr(cell), Ref(x)]):
                    if ok_of(ctx, eng, s, v, 'training succeeds') is None:
                        continue
                    ctx.canary(eng, s.hyps, 'returns')
                    m = s.cells[cell]
                    got = [eng.lib.val(s, field(eng, m, 'PCA', a)) for a in ('n_features', 'components', 'centers')]
                    if any(not isinstance(g, Enum) or g.disc != 1 for g in (got if center else got[:2])):
                        ctx.fail(eng, 'components, feature count and centre are stored', 'one is missing')
                        continue
                    comp = eng.lib.val(s, got[1].pay[1][0])
                    ctx.post(eng, s, eng.lib.sc(s, got[0].pay[1][0]) == c, 'the feature count is stored')
                    ctx.post(eng, s, eng.b(field(eng, m, 'PCA', 'inv')) == z3.BoolVal(wide) if hasattr(eng, 'b') else field(eng, m, 'PCA', 'inv') == z3.BoolVal(wide), 'components are rows exactly on wide data')
                    q = z3.If(k <= r, k, r) if kept else r
                    i, j = fint('i'), fint('j')
                    s.assume(z3.And(i >= 0, i < c, j >= 0, j < q))
                    ctx.post(eng, s, z3.And(comp.r == (q if wide else c), comp.c == (c if wide else q)), 'one component per direction asked for')
                    ctx.post(eng, s, (comp.at(j, i) if wide else comp.at(i, j)) == V.at(i, j), 'component j is the j-th right singular vector')
                    if center:
                        ce = eng.lib.seq(s, got[2].pay[1][0])
                        ctx.post(eng, s, z3.And(ce.n == c, ce.at(i) == mean(i)), 'the column means are stored')
            if not seen:
                raise Unsupported('the data is decomposed another way')
        return go
    for center in (True, False):
        for kept in (True, False):
            for wide in (True, False):
                ctx.target('PCA::train%s%s%s' % (' centred' if center else '', ' some' if kept else '', ' wide' if wide else ''), train(center, kept, wide))

    def predict(center, inv, bad):
        def go(eng):
            f = ctx.method(eng, 'PCA', 'predict', 'UnSupModel')
            st = State()
            m, d, c, q = dim(st, 'm'), dim(st, 'd'), dim(st, 'c'), dim(st, 'q')
            st.assume(d != c if bad else d == c)
            x = fmat('x', m, d)
            comp = fmat('W', q, c) if inv else fmat('W', c, q)
            ce = fvec('mean', c)
            eng.allow_panic = z3.BoolVal(False)
            ctx.canary(eng, st.hyps, 'inputs')
            for s, v in ctx.run(eng, f, st, [Ref(pca(eng, NONE, center, some(c), some(Vect(ce)) if center else NONE, some(comp), inv)), Ref(x)]):
                if bad:
                    refuses(ctx, eng, s, v, 'rows with another number of columns are refused', 'InvalidData')
                    continue
                v = ok_of(ctx, eng, s, v, 'a trained model transforms')
                if v is None:
                    continue
                i, j = fint('i'), fint('j')
                s.assume(z3.And(i >= 0, i < m, j >= 0, j < q))
                ctx.post(eng, s, z3.And(v.r == m, v.c == q), 'one coordinate per component')
                at = lambda l: (x.at(i, l) - ce.at(l)) if center else x.at(i, l)
                w = lambda l: comp.at(j, l) if inv else comp.at(l, j)
                ctx.post(eng, s, v.at(i, j) == psum(c, lambda l: at(l) * w(l)), 'the centred data times the components')
        return go
    for center in (True, False):
        for inv in (True, False):
            ctx.target('PCA::predict%s%s' % (' centred' if center else '', ' wide' if inv else ''), predict(center, inv, False))
            ctx.target('PCA::predict refuses%s%s' % (' centred' if center else '', ' wide' if inv else ''), predict(center, inv, True))

    def many(eng):
        f = ctx.method(eng, 'PCA', 'train', 'UnSupModel')
        for center in (True, False):
            st = State()
            n, c, k = dim(st, 'n', 1), dim(st, 'c', 1), dim(st, 'k')
            st.assume(k > c)
            x = fmat('x', n, c)
            eng.allow_panic = z3.BoolVal(False)
            cell = eng.newcell(st, pca(eng, some(k), center, NONE, NONE, NONE, False))
            ctx.canary(eng, st.hyps, 'inputs')
            for s, v in ctx.run(eng, f, st, [Ptr(cell), Ref(x)]):
                refuses(ctx, eng, s, v, 'more components than features are refused', 'InvalidData')
    ctx.target('PCA::train refuses', many)

    def untrained(eng):
        for g, tr, wrap in (('predict', 'UnSupModel', True), ('components', None, False)):
            f = ctx.method(eng, 'PCA', g, tr)
            st = State()
            x = fmat('x', dim(st, 'm'), dim(st, 'c'))
            for s, v in ctx.run(eng, f, st, [Ref(pca(eng, NONE, True, NONE, NONE, NONE, False))] + ([Ref(x)] if wrap else [])):
                refuses(ctx, eng, s, v, '%s before training is an error' % g)
    ctx.target('PCA untrained', untrained)

    def comps(eng):
        f = ctx.method(eng, 'PCA', 'components')
        st = State()
        comp = fmat('W', dim(st, 'c'), dim(st, 'q'))
        for s, v in ctx.run(eng, f, st, [Ref(pca(eng, NONE, False, some(comp.c), NONE, some(comp), False))]):
            v = ok_of(ctx, eng, s, v, 'a trained model tells its components')
            if v is not None:
                ctx.post(eng, s, same(v, comp), 'the components stored')
    ctx.target('PCA::components', comps)
