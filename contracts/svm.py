"""C32: support vector machine (src/learning/svm.rs)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import f1, conj, All, RealS, IntS, fint, iv, mkapp
from vf.sums import psum
from vf.loops import Cand
from vf.mir import Unsupported
from vf.sym import State
from contracts.toolkit import fmat, fvec, dim
from contracts.transforms import struct, field, ok_of
from contracts.models import refuses
from contracts.regress import some, NONE, design

R = z3.RealVal
SV = 'learning::svm::'
ENV = {'K': ('adt', 'K', ())}


def kernel(ctx, eng, rows):
    """a kernel: any function of two rows of the matrices given (name, columns, entries)"""
    calls = []

    def h(eng, st, fr, info, args):
        a, b = eng.lib.seq(st, args[1]), eng.lib.seq(st, args[2])
        r = []
        for q in (a, b):
            for nm, c, at in rows:
                i = index_of(eng, st, q, c, at)
                if i is not None:
                    r.append((nm, i))
                    break
            else:
                raise Unsupported('kernel of something else than two rows')
        calls.append(1)
        return [(st, ker(r[0][0], r[1][0])(r[0][1], r[1][1]))]
    eng.overrides['kernel'] = h
    return calls


def ker(a, b):
    return z3.Function('K_%s_%s' % (a, b), IntS, IntS, RealS)


def index_of(eng, st, q, c, at):
    """i with q = row i of the matrix"""
    j = fint('j')
    t = q.at(j)
    pat = at(fint('i'), j)
    cand = ints_in(t, j)
    s = st.copy()
    s.assume(z3.And(j >= 0, j < c))
    for i in cand:
        if eng.pv.prove(s.hyps, z3.And(q.n == c, eqv(t, at(i, j))))[0] == 'proved':
            return i
    return None


def ints_in(t, j):
    """arguments of integer sort in front of the column in reads of matrix entries"""
    out, seen = [], set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t):
            a = PV.APPS.get(t.decl().name()) if t.num_args() == 0 else None
            if a is not None and a.meta and 'at' in a.meta:
                go(a.meta['at'](fint('s')))
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 2 and t.arg(0).sort() == IntS:
                out.append(t.arg(0))
            for c in t.children():
                go(c)
    go(strip(t))
    r = []
    for x in out:
        if x.get_id() not in [y.get_id() for y in r] and j.get_id() not in {y.get_id() for y in subterms(x)}:
            r.append(x)
    return r


def subterms(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        out.append(x)
        todo += x.children()
    return out


def svm(eng, a, x, t, lam):
    return struct(eng, 'SVM', {'ker': Agg('K', ()), 'alpha': a, 'train_inputs': x, 'train_targets': t, 'lambda': lam, 'optim_iters': fint('iters')}, SV)


def c32(ctx):
    def predict(eng):
        f = ctx.method(eng, 'SVM', 'predict', 'SupModel')
        st = State()
        n, m, c = dim(st, 'n'), dim(st, 'm'), dim(st, 'c')
        x, y = fmat('x', m, c), fmat('tx', n, c + 1)
        a, t = fvec('a', n), fvec('t', n)
        lam = PV.fresh('lam', RealS)
        st.assume(lam > 0)
        eng.allow_panic = z3.BoolVal(False)
        calls = kernel(ctx, eng, [('q', c + 1, design(x)), ('t', c + 1, y.at)])
        ctx.canary(eng, st.hyps, 'inputs')
        outs = ctx.run(eng, f, st, [Ref(svm(eng, some(Vect(a)), some(y), some(Vect(t)), lam)), Ref(x)], ENV)
        if not calls:
            raise Unsupported('the kernel is not asked')
        for s, v in outs:
            v = ok_of(ctx, eng, s, v, 'a trained model predicts')
            if v is None:
                continue
            q = eng.lib.seq(s, v)
            i = fint('i')
            s.assume(z3.And(i >= 0, i < m))
            ctx.post(eng, s, q.n == m, 'one prediction per row')
            e = psum(n, lambda j: ker('q', 't')(i, j) * (a.at(j) * t.at(j))) / lam
            ctx.post(eng, s, z3.Implies(e > 0, q.at(i) == 1), '+1 where the kernel expansion is positive')
            ctx.post(eng, s, z3.Implies(e < 0, q.at(i) == -1), '-1 where the kernel expansion is negative')
            ctx.post(eng, s, z3.Or(q.at(i) == 1, q.at(i) == -1), 'always +1 or -1')
    ctx.target('SVM::predict', predict)

    def train(eng):
        f = ctx.method(eng, 'SVM', 'train', 'SupModel')
        st = State()
        n, c = dim(st, 'n', 1), dim(st, 'c')
        x, t = fmat('x', n, c), fvec('t', n)
        lam = PV.fresh('lam', RealS)
        st.assume(lam > 0)
        eng.allow_panic = z3.BoolVal(False)
        kernel(ctx, eng, [('t', c + 1, design(x))])
        cell = eng.newcell(st, svm(eng, NONE, NONE, NONE, lam))
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ptr(cell), Ref(x), Ref(Vect(t))], ENV):
            if ok_of(ctx, eng, s, v, 'training succeeds') is None:
                continue
            o = s.cells[cell]
            got = [eng.lib.val(s, field(eng, o, 'SVM', k)) for k in ('alpha', 'train_inputs', 'train_targets')]
            if any(not isinstance(g, Enum) or g.disc != 1 for g in got):
                ctx.fail(eng, 'coefficients, rows and targets are stored', 'one is missing')
                continue
            a, y, w = [eng.lib.val(s, g.pay[1][0]) for g in got]
            i, j = fint('i'), fint('j')
            s.assume(z3.And(i >= 0, i < n, j >= 0, j < c + 1))
            ctx.post(eng, s, z3.And(eng.lib.seq(s, a).n == n, y.r == n, y.c == c + 1, eng.lib.seq(s, w).n == n), 'one coefficient, row and target per training row')
            ctx.post(eng, s, y.at(i, j) == design(x)(i, j), 'the rows stored are a leading one and the inputs')
            ctx.post(eng, s, eng.lib.seq(s, w).at(i) == t.at(i), 'the targets are stored')
            ctx.post(eng, s, field(eng, o, 'SVM', 'lambda') == lam, 'the regularisation is kept')
    ctx.target('SVM::train', train)

    def untrained(eng):
        f = ctx.method(eng, 'SVM', 'predict', 'SupModel')
        st = State()
        x = fmat('x', dim(st, 'm'), dim(st, 'c'))
        for s, v in ctx.run(eng, f, st, [Ref(svm(eng, NONE, NONE, NONE, PV.fresh('lam', RealS))), Ref(x)], ENV):
            refuses(ctx, eng, s, v, 'prediction before training is an error')
    ctx.target('SVM::predict untrained', untrained)
