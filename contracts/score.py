"""C10, C11: classification scores and the confusion matrix (src/analysis)."""
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import conj, All, AE, RealS, IntS, fint, iv
from vf.loops import Cand
from vf.sums import psum
from vf.mir import Unsupported
from vf.sym import State
from contracts.toolkit import fmat, dim

R = z3.RealVal


def labels(name, n):
    f = z3.Function(name, IntS, IntS)
    return Seq(n, lambda i: f(i))


def it(s, ref=True):
    return It((lambda i: Ref(s.at(i))) if ref else s.at, iv(0), s.n)


def c11(ctx):
    T = ('int', 'i64')
    env = {'T': T, 'I': ('adt', 'It', []), 'I1': ('adt', 'It', []), 'I2': ('adt', 'It', [])}

    def count(o, t, p):
        return psum(o.n, lambda i: z3.If(p(o.at(i), t.at(i)), R(1), R(0)))
    one = iv(1)
    tp = lambda o, t: count(o, t, lambda a, b: z3.And(a == 1, b == 1))
    scores = {
        'precision': (lambda o, t: tp(o, t), lambda o, t: count(o, t, lambda a, b: a == 1)),
        'recall': (lambda o, t: tp(o, t), lambda o, t: count(o, t, lambda a, b: b == 1)),
        'f1': (lambda o, t: 2 * tp(o, t), lambda o, t: 2 * tp(o, t) + count(o, t, lambda a, b: z3.And(a == 1, b != 1)) + count(o, t, lambda a, b: z3.And(a != 1, b == 1))),
    }
    for nm, (num, den) in scores.items():
        def score(eng, nm=nm, num=num, den=den):
            f = ctx.free(eng, 'analysis::score::' + nm)
            st = State()
            n = dim(st, 'n')
            o, t = labels('o', n), labels('t', n)
            st.assume(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Or(o.at(i) == 0, o.at(i) == 1), z3.Or(t.at(i) == 0, t.at(i) == 1)))))
            ctx.canary(eng, st.hyps, 'inputs')
            outs = ctx.run(eng, f, st, [it(o), it(t)], env)
            for s, v in outs:
                ctx.canary(eng, s.hyps, 'returns')
                v = eng.lib.sc(s, v)
                ctx.post(eng, s, z3.Implies(den(o, t) != 0, v == num(o, t) / den(o, t)), 'the ratio of the counts')

        def refuse(eng, nm=nm):
            f = ctx.free(eng, 'analysis::score::' + nm)
            st = State()
            n, m, i = dim(st, 'n'), dim(st, 'm'), fint('i')
            o, t = labels('o', n), labels('t', m)
            eng.allow_panic = z3.BoolVal(True)
            for s, v in ctx.run(eng, f, st, [it(o), it(t)], env):
                eng.inst_hints = [i]
                ctx.post(eng, s, n == m, 'sequences of different lengths are refused')
                s.assume(z3.And(i >= 0, i < n))
                ctx.post(eng, s, z3.And(z3.Or(o.at(i) == 0, o.at(i) == 1), z3.Or(t.at(i) == 0, t.at(i) == 1)), 'labels other than 0 and 1 are refused')
            ctx.ok(eng, 'every return was checked')
        ctx.target(nm, score)
        ctx.target(nm + ' refuses', refuse)

    def accuracy(eng):
        f = ctx.free(eng, 'analysis::score::accuracy')
        st = State()
        n, m = dim(st, 'n'), dim(st, 'm')
        o, t = labels('o', n), labels('t', m)
        eng.allow_panic = n != m
        for s, v in ctx.run(eng, f, st, [it(o, False), it(t, False)], env):
            ctx.post(eng, s, n == m, 'sequences of different lengths are refused')
            s.assume(n >= 1)
            ctx.post(eng, s, eng.lib.sc(s, v) == count(o, t, lambda a, b: a == b) / z3.ToReal(n), 'the fraction of equal items')
    ctx.target('accuracy', accuracy)

    def rows(eng):
        f = ctx.free(eng, 'analysis::score::row_accuracy')
        st = State()
        n, m, c, d = dim(st, 'n'), dim(st, 'm'), dim(st, 'c'), dim(st, 'd')
        o, t = fmat('o', n, c), fmat('t', m, d)
        eng.allow_panic = n != m
        for s, v in ctx.run(eng, f, st, [Ref(o), Ref(t)], env):
            ctx.post(eng, s, n == m, 'matrices with different numbers of rows are refused')
            s.assume(n >= 1)
            ctx.post(eng, s, eng.lib.sc(s, v) == psum(n, lambda i: z3.If(PV.seqeq(c, lambda j: o.at(i, j), d, lambda j: t.at(i, j)), R(1), R(0))) / z3.ToReal(n), 'the fraction of equal rows')
    ctx.target('row_accuracy', rows)


# ------------------------------------------------------------------ confusion matrix
def c10(ctx):
    T = ('int', 'i64')
    env = {'T': T}

    def index_of(L):
        """maps from an item of a list to its place in it; counts of the pairs so far"""
        out = []
        for m in L.leaves:
            if m.kind != 'map':
                continue
            for s in L.eng.lists:
                M = lambda S, m=m: m.get(S)
                out.append(Cand('%r has the first items' % m, lambda S, k, M=M, s=s: All(1, lambda a: z3.Implies(z3.And(a >= 0, a < k), z3.And(M(S).has(s.at(a)), M(S).get(s.at(a)) == a)))))
                out.append(Cand('%r has no other' % m, lambda S, k, M=M, s=s: All(1, lambda y: z3.Implies(M(S).has(y), z3.And(M(S).get(y) >= 0, M(S).get(y) < k, s.at(M(S).get(y)) == y)))))
        return out

    def counting(p, t, get):
        def cands(L):
            out = index_of(L)
            for l in L.leaves:
                if l.kind == 'mat':
                    lab = get()
                    M = lambda S, l=l: l.get(S)
                    out.append(Cand('%r counts the pairs so far' % l, lambda S, k, M=M, lab=lab: All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < lab.n, b >= 0, b < lab.n), M(S).at(a, b) == npairs(p, t, lab, k, a, b)))))
            return out
        return cands

    def npairs(p, t, lab, k, a, b):
        return psum(k, lambda i: z3.If(z3.And(t.at(i) == lab.at(a), p.at(i) == lab.at(b)), iv(1), iv(0)), IntS)

    def distinct(s):
        return All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < s.n), s.at(a) != s.at(b)))

    def entries(ctx, eng, s, v, p, t, lab):
        m = eng.lib.val(s, v)
        ctx.post(eng, s, z3.And(m.r == lab.n, m.c == lab.n), 'one row and one column per label')
        ctx.post(eng, s, All(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < lab.n, b >= 0, b < lab.n), m.at(a, b) == npairs(p, t, lab, p.n, a, b))), 'entry (i, j) counts the i-th label predicted as the j-th')

    def given(eng):
        f = ctx.free(eng, 'confusion_matrix')
        st = State()
        n, m = dim(st, 'n'), dim(st, 'm')
        p, t, lab = labels('p', n), labels('t', n), labels('lab', m)
        st.assume(distinct(lab))
        eng.lists = [lab]
        eng.templates.append(counting(p, t, lambda: lab))
        eng.allow_panic = z3.BoolVal(False)
        ctx.canary(eng, st.hyps, 'inputs')
        for s, v in ctx.run(eng, f, st, [Ref(p), Ref(t), Enum('Option', 1, {1: (lab,)})], env):
            entries(ctx, eng, s, v, p, t, lab)
    ctx.target('confusion_matrix, labels given', given)

    def own(eng):
        f = ctx.free(eng, 'confusion_matrix')
        st = State()
        n, m = dim(st, 'n'), dim(st, 'm')
        p, t, lab = labels('p', n), labels('t', n), labels('lab', m)
        st.assume(distinct(lab))
        eng.lists = [lab]
        calls = []

        def ods(eng, st, fr, info, args):
            a, b = [eng.lib.seq(st, x) for x in args]
            calls.append(1)
            if not eng.dry:
                ctx.post(eng, st, z3.Or(z3.And(a.eq_witness(p), b.eq_witness(t)), z3.And(a.eq_witness(t), b.eq_witness(p))), 'the labels are those of predictions and targets')
            return [(st, lab)]
        eng.replace['ordered_distinct'] = ods
        eng.templates.append(counting(p, t, lambda: lab))
        eng.allow_panic = z3.BoolVal(False)
        for s, v in ctx.run(eng, f, st, [Ref(p), Ref(t), Enum('Option', 0, {0: ()})], env):
            entries(ctx, eng, s, v, p, t, lab)
        if not calls:
            raise Unsupported('the labels come from elsewhere')
    ctx.target('confusion_matrix, no labels given', own)

    def ordered(eng):
        f = ctx.free(eng, 'ordered_distinct')
        st = State()
        n, m = dim(st, 'n'), dim(st, 'm')
        x, y = labels('x', n), labels('y', m)
        eng.allow_panic = z3.BoolVal(False)
        for s, v in ctx.run(eng, f, st, [Ref(x), Ref(y)], env):
            d = eng.lib.seq(s, v)
            a, b = fint('a'), fint('b')
            eng.inst_hints = [a, a + 1, b, a + n]
            eng.pv.rounds = 3
            s1 = s.copy()
            s1.assume(z3.And(a >= 0, a < b, b < d.n))
            ctx.post(eng, s1, d.at(a) < d.at(b), 'increasing')
            # the order of the items does not matter for what follows
            s.hyps = [h for h in s.hyps if not (isinstance(h, All) and h.k == 2)]
            for nm, q in (('first', x), ('second', y)):
                eng.inst_hints = [a if nm == 'first' else a + n]
                s2 = s.copy()
                s2.assume(z3.And(a >= 0, a < q.n))
                ctx.post(eng, s2, AE(0, lambda: z3.BoolVal(True), lambda w: z3.And(w >= 0, w < d.n, d.at(w) == q.at(a))), 'every item of the %s list' % nm)
            eng.inst_hints = [a]
            s3 = s.copy()
            s3.assume(z3.And(a >= 0, a < d.n))
            ctx.post(eng, s3, AE(0, lambda: z3.BoolVal(True), lambda w: z3.Or(z3.And(w >= 0, w < n, x.at(w) == d.at(a)), z3.And(w >= 0, w < m, y.at(w) == d.at(a)))), 'nothing else')
    ctx.target('ordered_distinct', ordered)

    def refuse(eng):
        f = ctx.free(eng, 'confusion_matrix')
        st = State()
        n, n2, m = dim(st, 'n'), dim(st, 'n2'), dim(st, 'm')
        p, t, lab = labels('p', n), labels('t', n2), labels('lab', m)
        eng.lists = [lab]
        eng.templates.append(index_of)
        eng.allow_panic = z3.BoolVal(True)
        for s, v in ctx.run(eng, f, st, [Ref(p), Ref(t), Enum('Option', 1, {1: (lab,)})], env):
            ctx.post(eng, s, n == n2, 'slices of different lengths are refused')
            ctx.post(eng, s, distinct(lab), 'repeated labels are refused')
        ctx.ok(eng, 'every return was checked')
    ctx.target('confusion_matrix refuses', refuse)
