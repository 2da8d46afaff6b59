"""C31: Gaussian process regression (src/learning/gp.rs)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import conj, All, Conj, RealS, IntS, fint
from vf.sums import psum
from vf.mir import Unsupported
from vf.sym import State
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import struct, field, ok_of
from contracts.models import refuses
from contracts.regress import some, NONE
from contracts.kmeans import same
from contracts.svm import kernel, ker

GP = 'learning::gp::'
ENV = {'T': ('adt', 'T', ()), 'U': ('adt', 'U', ())}


def gp(eng, noise, alpha, mat, data):
    return struct(eng, 'GaussianProcess', {'ker': Agg('T', ()), 'mean': Agg('U', ()), 'noise': noise, 'alpha': alpha, 'train_mat': mat, 'train_data': data}, GP)


def mu(nm):
    return z3.Function('mean_' + nm, IntS, RealS)


def means(ctx, eng, mats):
    """the mean function: any function of the rows"""
    def h(eng, st, fr, info, args):
        if len(args) != 2:
            return None
        y = eng.lib.val(st, args[1])
        if not isinstance(y, Mat):
            return None
        for nm, m in mats:
            if eng.pv.prove(st.hyps, same(y, m))[0] == 'proved':
                return [(st, Vect(Seq(m.r, lambda i: mu(nm)(strip(i)))))]
        raise Unsupported('the mean function of another matrix')
    eng.overrides['func'] = h


def seq_of(eng, st, a):
    return eng.lib.seq(st, eng.lib.val(st, a))


class Solver(object):
    """assumed contracts of rulinalg: decompose(M) = L with L L^T = M, or an error; the triangular solves solve"""
    def __init__(self, ctx, eng, n, want, rhs):
        self.got = {}
        g = self.got
        L = fmat('L', n, n)
        self.L = L

        def decompose(eng, st, fr, info, args):
            m = eng.lib.val(st, args[0])
            if len(args) != 1 or not isinstance(m, Mat):
                return None
            ctx.post(eng, st, z3.And(m.r == n, m.c == n), 'a square matrix, one row per training row, is decomposed')
            i, j = fint('i'), fint('j')
            s = st.copy()
            s.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
            ctx.post(eng, s, m.at(i, j) == want(i, j), 'the matrix decomposed is the kernel matrix plus the noise on its diagonal')
            g['dec'] = 1
            return [(st.copy(), Enum('Result', 1, {1: (Agg('failed', ()),)})), (st, Enum('Result', 0, {0: (Agg('chol', ()),)}))]
        eng.replace['decompose'] = decompose

        def unpack(eng, st, fr, info, args):
            a = eng.lib.val(st, args[0])
            if not isinstance(a, Agg) or a.ty != 'chol':
                return None
            return [(st, L)]
        eng.replace['unpack'] = unpack

        def lower(eng, st, fr, info, args):
            m, b = eng.lib.val(st, args[0]), seq_of(eng, st, args[1])
            if not isinstance(m, Mat):
                return None
            if not eng.dry:
                ctx.post(eng, st, same(m, L), 'the lower factor is solved first')
                rhs(eng, st, b)
            g['x'] = fvec('x', n)
            return [(st, Enum('Result', 0, {0: (Vect(g['x']),)}))]
        eng.replace['solve_l_triangular'] = lower

        def upper(eng, st, fr, info, args):
            m, b = eng.lib.val(st, args[0]), seq_of(eng, st, args[1])
            if not isinstance(m, Mat):
                return None
            if 'x' not in g:
                raise Unsupported('the system is solved another way')
            ctx.post(eng, st, same(m, Mat(n, n, lambda i, j: L.at(j, i))), 'its transpose is solved second')
            ctx.post(eng, st, b.eq_all(g['x']), 'for the solution of the first')
            g['alpha'] = fvec('alpha', n)
            return [(st, Enum('Result', 0, {0: (Vect(g['alpha']),)}))]
        eng.replace['solve_u_triangular'] = upper

        def solve(eng, st, fr, info, args):
            a = eng.lib.val(st, args[0])
            if not isinstance(a, Agg) or a.ty != 'chol':
                raise Unsupported('the system is solved another way')
            rhs(eng, st, seq_of(eng, st, args[1]))
            g['alpha'] = fvec('alpha', n)
            return [(st, Enum('Result', 0, {0: (Vect(g['alpha']),)}))]
        eng.replace['solve'] = solve


def c31(ctx):
    def train(eng):
        f = ctx.method(eng, 'GaussianProcess', 'train', 'SupModel')
        st = State()
        n, c = dim(st, 'n'), dim(st, 'c')
        x, t = fmat('x', n, c), fvec('t', n)
        noise = PV.fresh('noise', RealS)
        calls = kernel(ctx, eng, [('t', c, x.at)])
        means(ctx, eng, [('t', x)])

        def rhs(eng, st, b):
            ctx.post(eng, st, Conj([b.n == n, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), b.at(i) == t.at(i) - mu('t')(i)))]), 'the right side is the targets less the mean')
        so = Solver(ctx, eng, n, lambda i, j: ker('t', 't')(i, j) + z3.If(i == j, noise, z3.RealVal(0)), rhs)
        eng.allow_panic = z3.BoolVal(False)
        old = [fvec('olda', dim(st, 'on')), fmat('oldm', dim(st, 'on'), dim(st, 'on')), fmat('oldx', dim(st, 'on'), dim(st, 'oc'))]
        ctx.canary(eng, st.hyps, 'inputs')
        for was in (False, True):
            s0 = st.copy()
            cell = eng.newcell(s0, gp(eng, noise, some(Vect(old[0])), some(old[1]), some(old[2])) if was else gp(eng, noise, NONE, NONE, NONE))
            for s, v in ctx.run(eng, f, s0, [Ptr(cell), Ref(x), Ref(Vect(t))], ENV):
                v = eng.lib.val(s, v)
                if not isinstance(v, Enum) or v.disc not in (0, 1):
                    raise Unsupported('the result is not a Result with a known tag')
                if v.disc == 1:
                    refuses(ctx, eng, s, v, 'a matrix that cannot be decomposed is an error', 'InvalidState')
                    continue
                o = s.cells[cell]
                al, da = [eng.lib.val(s, field(eng, o, 'GaussianProcess', k)) for k in ('alpha', 'train_data')]
                if any(not isinstance(g, Enum) or g.disc != 1 for g in (al, da)) or 'alpha' not in so.got:
                    ctx.fail(eng, 'coefficients and rows are stored', 'one is missing')
                    continue
                ctx.post(eng, s, seq_of(eng, s, al.pay[1][0]).eq_all(so.got['alpha']), 'the solution of (K + noise I) a = y - mean is stored')
                ctx.post(eng, s, same(eng.lib.val(s, da.pay[1][0]), x), 'the training rows are stored')
        if not calls or 'alpha' not in so.got:
            raise Unsupported('training takes another way')
    ctx.target('GaussianProcess::train', train)

    def shapes(eng):
        f = ctx.method(eng, 'GaussianProcess', 'train', 'SupModel')
        st = State()
        n, m, c = dim(st, 'n'), dim(st, 'm'), dim(st, 'c')
        x, t = fmat('x', n, c), fvec('t', m)
        noise = PV.fresh('noise', RealS)
        kernel(ctx, eng, [('t', c, x.at)])
        means(ctx, eng, [('t', x)])
        eng.allow_panic = z3.BoolVal(True)
        so = Solver(ctx, eng, n, lambda i, j: ker('t', 't')(i, j) + z3.If(i == j, noise, z3.RealVal(0)), lambda eng, st, b: None)
        cell = eng.newcell(st, gp(eng, noise, NONE, NONE, NONE))
        for s, v in ctx.run(eng, f, st, [Ptr(cell), Ref(x), Ref(Vect(t))], ENV):
            v = eng.lib.val(s, v)
            if v.disc == 0:
                ctx.post(eng, s, n == m, 'training succeeds only with one target per row')
        ctx.ok(eng, 'every return was checked')
    ctx.target('GaussianProcess::train refuses', shapes)

    def predict(name, trait, other):
        def go(eng):
            f = ctx.method(eng, 'GaussianProcess', name, trait)
            st = State()
            n, m, c = dim(st, 'n'), dim(st, 'm'), dim(st, 'c')
            d = dim(st, 'd') if other else c
            x, y, a = fmat('x', m, c), fmat('y', n, d), fvec('a', n)
            if other:
                st.assume(d != c)
            calls = kernel(ctx, eng, [('q', c, x.at), ('t', d, y.at)])
            means(ctx, eng, [('q', x)])
            L = Solver(ctx, eng, n, None, lambda eng, st, b: None).L
            eng.allow_panic = z3.BoolVal(False)
            ctx.canary(eng, st.hyps, 'inputs')
            noise = PV.fresh('noise', RealS)
            for s, v in ctx.run(eng, f, st, [Ref(gp(eng, noise, some(Vect(a)), some(L), some(y))), Ref(x)], ENV):
                if other:
                    refuses(ctx, eng, s, v, 'rows with another number of columns are refused', 'InvalidState')
                    continue
                v = ok_of(ctx, eng, s, v, 'a trained model predicts')
                if v is None:
                    continue
                if trait is None:
                    v = eng.lib.val(s, v.f[0])
                q = eng.lib.seq(s, v)
                i = fint('i')
                s.assume(z3.And(i >= 0, i < m))
                ctx.post(eng, s, q.n == m, 'one prediction per row')
                ctx.post(eng, s, q.at(i) == mu('q')(i) + psum(n, lambda j: ker('q', 't')(i, j) * a.at(j)), 'the mean plus the kernel row times the coefficients')
            if not calls and not other:
                raise Unsupported('the kernel is not asked')
        return go
    ctx.target('GaussianProcess::predict', predict('predict', 'SupModel', False))
    ctx.target('GaussianProcess::get_posterior', predict('get_posterior', None, False))
    ctx.target('GaussianProcess::predict refuses', predict('predict', 'SupModel', True))

    def untrained(name, trait):
        def go(eng):
            f = ctx.method(eng, 'GaussianProcess', name, trait)
            st = State()
            x = fmat('x', dim(st, 'm'), dim(st, 'c'))
            for s, v in ctx.run(eng, f, st, [Ref(gp(eng, PV.fresh('noise', RealS), NONE, NONE, NONE)), Ref(x)], ENV):
                refuses(ctx, eng, s, v, 'prediction before training is an error')
        return go
    ctx.target('GaussianProcess::predict untrained', untrained('predict', 'SupModel'))
    ctx.target('GaussianProcess::get_posterior untrained', untrained('get_posterior', None))

    def const(eng):
        f = ctx.method(eng, 'ConstMean', 'func', 'MeanFunc')
        st = State()
        a = PV.fresh('a', RealS)
        x = fmat('x', dim(st, 'm'), dim(st, 'c'))
        eng.allow_panic = z3.BoolVal(False)
        for s, v in ctx.run(eng, f, st, [Ref(struct(eng, 'ConstMean', {'a': a}, GP)), x]):
            q = eng.lib.seq(s, v)
            i = fint('i')
            s.assume(z3.And(i >= 0, i < x.r))
            ctx.post(eng, s, q.n == x.r, 'one mean per row')
            ctx.post(eng, s, q.at(i) == a, 'the constant')
    ctx.target('ConstMean::func', const)
