"""C01-C04: shuffling and reservoir sampling (src/learning/toolkit/rand_utils.rs)."""
import itertools
import z3
from vf.vals import *
from vf import prove as PV
from vf.prove import All, Conj, conj, disj, fint, iv, IntS, RealS, BoolS
from vf.loops import Cand, Leaf
from vf.sym import opaque_sort, LoopRec
from vf.mir import Unsupported
from vf import mir as M

FACT = z3.Function('fact', IntS, IntS)


def fact_ax(n):
    """n! at the index terms in play"""
    return [All(1, lambda i: z3.Implies(i >= 0, z3.And(FACT(i) >= 1, FACT(i + 1) == (i + 1) * FACT(i)))), FACT(iv(0)) == 1, FACT(iv(1)) == 1, FACT(iv(2)) == 2]


class Items:
    """the given items: position idx(x) of an item x; positions identify items (the code is generic in
    T: Copy, so it cannot tell equal items apart; items are taken pairwise distinct)"""

    def __init__(self, seq, T):
        self.seq, self.T = seq, T
        self.idx = z3.Function('position!%d' % next(PV._cnt), T, IntS)

    def facts(self):
        s, idx = self.seq, self.idx
        return [All(1, lambda i: z3.Implies(z3.And(i >= 0, i < s.n), idx(s.at(i)) == i))]

    def member(self, x, hi):
        return z3.And(self.idx(x) >= 0, self.idx(x) < hi, x == self.seq.at(self.idx(x)))


def view(v):
    """the sequence of items a value holds: a matrix stands for its rows, named by their first entry"""
    v = strip(v)
    if isinstance(v, Mat):
        return Seq(v.r, lambda i: v.at(i, iv(0)))
    return v


def bounds(L, extra):
    """integer-valued quantities of the loop state: [(name, fn(S, k))]"""
    out = [('k', lambda S, k: k)]
    for l in L.leaves:
        if l.kind == 'int':
            out.append((repr(l), lambda S, k, l=l: l.get(S)))
    for nm, t in extra:
        out.append((nm, lambda S, k, t=t: t))
        out.append((nm + '+k', lambda S, k, t=t: t + k))
        out.append((nm + '-k', lambda S, k, t=t: t - k))
    return out


def templates(items, extra):
    def t(L):
        out = []
        idx = items.idx
        bs = L.classes(bounds(L, extra))
        for l in L.leaves:
            if l.kind not in ('seq', 'mat'):
                continue
            s0 = view(l.get(L.base))
            x = s0.at(fint('p'))
            if not (isz(strip(x)) and strip(x).sort() == items.T):
                continue
            for bn, bf in bs:
                if not L.arith_true(lambda S, k: z3.And(bf(S, k) >= 0, bf(S, k) <= view(l.get(S)).n)):
                    continue

                def inj(S, k, l=l, bf=bf):
                    s, b = view(l.get(S)), bf(S, k)
                    return All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < b, j < s.n), idx(strip(s.at(i))) != idx(strip(s.at(j)))))
                out.append(Cand('%r: first %s items are different' % (l, bn), inj))
                for mn, mf in bs:
                    if not L.arith_true(lambda S, k: mf(S, k) <= items.seq.n):
                        continue

                    def mem(S, k, l=l, bf=bf, mf=mf):
                        s, b, m = view(l.get(S)), bf(S, k), mf(S, k)
                        return All(1, lambda i: z3.Implies(z3.And(i >= 0, i < b, i < s.n), items.member(strip(s.at(i)), m)))
                    out.append(Cand('%r: first %s items come from the first %s given' % (l, bn, mn), mem))
        return out
    return t


def T_of(v):
    x = strip(strip(v).at(fint('p')) if isinstance(strip(v), Seq) else v)
    return x.sort()


def setup(ctx, eng, fname, inplace):
    f = ctx.free(eng, 'learning::toolkit::rand_utils::' + fname)
    st, args = ctx.start(eng, f)
    if inplace:
        arr = eng.getp(st, args[0].cell, args[0].path)
    else:
        arr = strip(args[0])
    if not isinstance(arr, Seq):
        raise Unsupported('first parameter is not a slice')
    items = Items(arr, T_of(arr))
    for h in items.facts():
        st.assume(h)
    return f, st, args, arr, items


def same_items(ctx, eng, st, res, arr, items):
    """res is a rearrangement of arr: equal lengths and an injective choice of positions (pigeonhole)"""
    ctx.post(eng, st, res.n == arr.n, 'the result has the length of the input')
    ctx.post(eng, st, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < res.n), items.member(strip(res.at(i)), arr.n))), 'every item of the result was given')
    ctx.post(eng, st, All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < res.n), items.idx(strip(res.at(i))) != items.idx(strip(res.at(j))))),
             'no given item is used twice')
    if res.init is not None:
        ctx.post(eng, st, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < res.n), res.init(i))), 'every item of the result has been written')


def result_seq(eng, st, v):
    v = eng.lib.val(st, v)
    if isinstance(v, Vect):
        v = v.s
    if not isinstance(v, Seq):
        raise Unsupported('result is not a sequence')
    return v


def c01(ctx):
    def copying(eng):
        f, st, args, arr, items = setup(ctx, eng, 'fisher_yates', False)
        eng.templates.append(templates(items, [('n', arr.n)]))
        ctx.canary(eng, st.hyps, 'inputs')
        outs = ctx.run(eng, f, st, args)
        for s, v in outs:
            ctx.canary(eng, s.hyps, 'reaches the end')
            same_items(ctx, eng, s, result_seq(eng, s, v), arr, items)

    def inplace(eng):
        f, st, args, arr, items = setup(ctx, eng, 'in_place_fisher_yates', True)
        eng.templates.append(templates(items, [('n', arr.n)]))
        outs = ctx.run(eng, f, st, args)
        for s, v in outs:
            ctx.canary(eng, s.hyps, 'reaches the end')
            same_items(ctx, eng, s, eng.getp(s, args[0].cell, args[0].path), arr, items)
    ctx.target('fisher_yates', copying)
    ctx.target('in_place_fisher_yates', inplace)


def reservoir_setup(ctx, eng):
    f, st, args, arr, items = setup(ctx, eng, 'reservoir_sample', False)
    k = args[1]
    eng.allow_panic = arr.n < k
    eng.templates.append(templates(items, [('n', arr.n), ('size', k)]))
    return f, st, args, arr, items, k


def c03(ctx):
    def run(eng):
        f, st, args, arr, items, k = reservoir_setup(ctx, eng)
        outs = ctx.run(eng, f, st, args)
        for s, v in outs:
            ctx.canary(eng, s.hyps, 'reaches the end')
            ctx.post(eng, s, k <= arr.n, 'a request for more than the pool holds is refused')
            res = result_seq(eng, s, v)
            ctx.post(eng, s, res.n == k, 'exactly the requested number is returned')
            ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < res.n), items.member(strip(res.at(i)), arr.n))), 'every item returned is in the pool')
            ctx.post(eng, s, All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < res.n), items.idx(strip(res.at(i))) != items.idx(strip(res.at(j))))),
                     'the items are at different positions of the pool')
            if res.init is not None:
                ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < res.n), res.init(i))), 'every item returned has been written')
            st2 = s
        # the refusal does happen: with fewer items than asked no path returns
        if not outs:
            raise Unsupported('never returns')
    ctx.target('reservoir_sample', run)


def draws_since(st, d0):
    return st.draws[d0:]


def c04(ctx):
    def run(eng):
        f, st, args, arr, items, k = reservoir_setup(ctx, eng)
        outs = ctx.run(eng, f, st, args)
        if not outs:
            raise Unsupported('never returns')
        recs = None
        for s, v in outs:
            res = result_seq(eng, s, v)
            lr = [d for d in s.draws]
            if any(d[0] != 'loop' for d in lr):
                ctx.fail(eng, 'draws happen only in the loop over the later items', 'draw outside a loop: %r' % ([d[0] for d in lr],))
                continue
            recs = [d[1] for d in lr if loop_draws(d[1])]
            if len(recs) == 0:
                # no draw at all on this path: then nothing may be left to choose
                ctx.post(eng, s, disj([arr.n == k, k == 0]), 'without a draw there is nothing to choose')
                ctx.post(eng, s, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < k), strip(res.at(i)) == arr.at(i))), 'the whole pool is returned')
                continue
            if len(recs) != 1:
                raise Unsupported('draws in %d loops' % len(recs))
            uniform_loop(ctx, eng, recs[0], s, res, arr, items, k)
    ctx.target('reservoir_sample', run)


def loop_draws(rec):
    return any(len(b.draws) > rec.d0 for b in rec.backs)


def uniform_loop(ctx, eng, rec, s, res, arr, items, k):
    """induction step of reservoir sampling: at each iteration one uniform draw among the m items seen;
    slot p is replaced by the new item for exactly one value of the draw"""
    leaves = [l for l in rec.leaves if l.kind == 'seq' and isz(strip(l.get(rec.pre).at(fint('p')))) and strip(l.get(rec.pre).at(fint('p'))).sort() == items.T]
    # the reservoir: the sequence whose final content is the result
    best = None
    for l in leaves:
        for e in rec.exits[:1]:
            q = l.get(s) if not isinstance(l.cell, tuple) and l.cell in s.cells else None
        fin = [l.get(e) for e in rec.exits]
        ok = False
        for q in fin:
            try:
                if q is res or eng.pv.prove(s.hyps, q.eq_all(res))[0] == 'proved':
                    ok = True
            except Exception:
                pass
        if ok:
            best = l
            break
    if best is None:
        raise Unsupported('no loop state holds the result')
    l = best
    pre = l.get(rec.pre)
    e0 = l.get(rec.entry)
    # start: the first k items
    ctx.post(eng, rec.entry, e0.n == k, 'the reservoir has the requested size')
    ctx.post(eng, rec.entry, All(1, lambda i: z3.Implies(z3.And(i >= 0, i < k), strip(e0.at(i)) == arr.at(i))), 'the reservoir starts as the first items')
    m = k + rec.k + 1
    x = arr.at(k + rec.k)
    for e in rec.exits:
        ctx.post(eng, e, disj([k + rec.k == arr.n, k == 0]), 'the loop sees every later item')
    sig = None
    for b in rec.backs:
        dr = b.draws[rec.d0:]
        if len(dr) != 1 or dr[0][0] != 'range':
            ctx.fail(eng, 'one draw for each later item', 'draws: %r' % ([d[0] for d in dr],))
            return
        _, lo, hi, d = dr[0]
        ctx.post(eng, b, hi - lo == m, 'the draw is uniform over the items seen so far')
    cand = [('p', lambda p: p), ('p+m-k', lambda p: p + m - k), ('k-1-p', lambda p: k - 1 - p), ('m-1-p', lambda p: m - 1 - p)]

    def goal(b, sg):
        _, lo, hi, d = b.draws[rec.d0]
        post = l.get(b)
        return All(1, lambda p: z3.Implies(z3.And(p >= 0, p < k), strip(post.at(p)) == z3.If(d - lo == sg(p), x, strip(pre.at(p)))))
    for nm, sg in cand:
        if all(eng.pv.prove(b.hyps, goal(b, sg))[0] == 'proved' for b in rec.backs):
            sig = (nm, sg)
            break
    for b in rec.backs:
        ctx.post(eng, b, goal(b, (sig or cand[0])[1]), 'each held item is replaced for exactly one value of the draw (%s)' % (sig or cand[0])[0])
    # the choice of value is one-to-one into the range of the draw
    p, q = fint('p'), fint('q')
    sg = (sig or cand[0])[1]
    hy = [k >= 0, rec.k >= 0, p >= 0, p < k]
    ctx.lemma(eng, hy, z3.And(sg(p) >= 0, sg(p) < m, z3.Implies(z3.And(q >= 0, q < k, p != q), sg(p) != sg(q))), 'the replacing values are different draws')


# ------------------------------------------------------------------ C02
def c02(ctx):
    for name, inplace in (('fisher_yates', False), ('in_place_fisher_yates', True)):
        ctx.target(name, lambda eng, name=name, inplace=inplace: uniform(ctx, eng, name, inplace))


def w_templates(n):
    def t(L):
        out = []
        for l in L.leaves:
            if isinstance(l.cell, tuple) and l.cell[1] == 'W':
                w = lambda S, l=l: l.get(S)
                out.append(Cand('draw histories = k!', lambda S, k: w(S) == FACT(k)))
                out.append(Cand('draw histories = (k+1)!', lambda S, k: w(S) == FACT(k + 1)))
                out.append(Cand('draw histories * (n-k)! = n!', lambda S, k: w(S) * FACT(n - k) == FACT(n)))
                out.append(Cand('draw histories >= 1', lambda S, k: w(S) >= 1))
        return out
    return t


def uniform(ctx, eng, name, inplace):
    f, st, args, arr, items = setup(ctx, eng, name, inplace)
    eng.templates.append(templates(items, [('n', arr.n)]))
    uniform_of(ctx, eng, f, st, args, arr, items, lambda s, v: eng.getp(s, args[0].cell, args[0].path) if inplace else result_seq(eng, s, v))


def uniform_of(ctx, eng, f, st, args, arr, items, result, env=None):
    n = arr.n
    st.ghost['W'] = iv(1)
    for h in fact_ax(n):
        st.assume(h)
    eng.templates.append(w_templates(n))
    eng.inst_hints = [n, iv(0)]
    outs = ctx.run(eng, f, st, args, env)
    if not outs:
        raise Unsupported('never returns')
    for s, v in outs:
        ctx.canary(eng, s.hyps, 'reaches the end')
        res = result(s, v)
        ctx.post(eng, s, s.ghost['W'] == FACT(n), 'there are n! equally likely histories of draws', hints=[n, n - 1, n - 2])
        if any(d[0] != 'loop' for d in s.draws):
            raise Unsupported('draw outside a loop')
        recs = [d[1] for d in s.draws if loop_draws(d[1])]
        if len(recs) == 0:
            ctx.post(eng, s, n <= 1, 'without draws there is nothing to arrange')
            continue
        if len(recs) != 1:
            raise Unsupported('draws in %d loops' % len(recs))
        injective(ctx, eng, recs[0], s, res, arr, items)


def dropped(hyps, n):
    return hyps[:n]


def injective(ctx, eng, rec, s, res, arr, items):
    """different histories give different arrangements: either every iteration fixes for good a position
    that tells its draw (forward), or every iteration can be undone (backward)"""
    n = arr.n
    for b in rec.backs:
        dr = b.draws[rec.d0:]
        if len(dr) != 1 or dr[0][0] != 'range':
            raise Unsupported('%d draws in one iteration' % len(dr))
    T = items.T
    leaf = None
    for l in rec.leaves:
        if l.kind not in ('seq', 'mat'):
            continue
        q = view(l.get(rec.pre))
        x = strip(q.at(fint('p')))
        if not (isz(x) and x.sort() == T):
            continue
        for e in rec.exits:
            try:
                fin = view(l.get(e))
                if fin is res or eng.pv.prove(s.hyps, fin.eq_all(res))[0] == 'proved':
                    leaf = l
            except Exception:
                pass
        if leaf is not None:
            break
    if leaf is None:
        raise Unsupported('no loop state holds the result')
    l = leaf
    k = rec.k
    # two runs of one iteration from the same state
    eng.dry += 1
    try:
        A = [o for o in rec.run(rec.pre.copy()) if o[0] == 'back']
        B = [o for o in rec.run(rec.pre.copy()) if o[0] == 'back']
    finally:
        eng.dry -= 1
    pos = [('k', lambda kk: kk), ('n-1-k', lambda kk: n - 1 - kk)]
    idx = items.idx
    for a in A:
        # width is a function of the iteration alone
        _, lo, hi, d = a[1].draws[rec.d0]
    fwd = None
    for nm, p in pos:
        ok = True
        for a, b in itertools.product(A, B):
            ha = a[1].hyps + b[1].hyps[len(rec.pre.hyps):]
            da, db = a[1].draws[rec.d0][3], b[1].draws[rec.d0][3]
            ra, rb = view(l.get(a[1])), view(l.get(b[1]))
            la, lb = a[1].draws[rec.d0], b[1].draws[rec.d0]
            g = z3.And(p(k) >= 0, p(k) < n, z3.Implies(da != db, idx(strip(ra.at(p(k)))) != idx(strip(rb.at(p(k))))))
            if eng.pv.prove(ha, g, eng.inst_hints)[0] != 'proved':
                ok = False
                break
        if not ok:
            continue
        # later iterations leave the position alone
        for b in rec.backs:
            k2 = fint('k2')
            q0, q1 = view(l.get(rec.pre)), view(l.get(b))
            g = z3.Implies(z3.And(k2 >= 0, k2 < k, p(k2) >= 0, p(k2) < n), strip(q1.at(p(k2))) == strip(q0.at(p(k2))))
            if eng.pv.prove(b.hyps, g, eng.inst_hints)[0] != 'proved':
                ok = False
                break
        if ok:
            fwd = nm
            break
    if fwd is not None:
        ctx.ok(eng, 'post: iteration k settles position %s for good, differently for each draw' % fwd, 'post')
        return
    # backward: the state after determines the draw and the state before
    pre2, k2, outs2 = rec.instance(k)
    B = [o for o in outs2 if o[0] == 'back']
    q1, q2 = view(l.get(rec.pre)), view(l.get(pre2))
    regions = [('first k', lambda kk: kk), ('first k+1', lambda kk: kk + 1), ('all', lambda kk: n)]
    for nm, reg in regions:
        ok = all(eng.pv.prove(e.hyps, reg(k) == n, eng.inst_hints)[0] == 'proved' for e in rec.exits)
        if not ok:
            continue
        for a, b in itertools.product(A, B):
            r1, r2 = view(l.get(a[1])), view(l.get(b[1]))
            d1, d2 = a[1].draws[rec.d0], b[1].draws[rec.d0]
            same_after = All(1, lambda i: z3.Implies(z3.And(i >= 0, i < reg(k + 1)), strip(r1.at(i)) == strip(r2.at(i))))
            hy = a[1].hyps + b[1].hyps + [same_after]
            j1, j2 = d1[3], d2[3]
            hints = list(eng.inst_hints) + [k, j1, j2]
            if eng.pv.prove(hy, j1 == j2, hints)[0] != 'proved':
                ok = False
                break
            g = All(1, lambda i: z3.Implies(z3.And(i >= 0, i < reg(k)), strip(q1.at(i)) == strip(q2.at(i))))
            if eng.pv.prove(hy + [j1 == j2], g, hints)[0] != 'proved':
                ok = False
                break
        if ok:
            ctx.ok(eng, 'post: iteration k can be undone from the %s+1 items' % nm, 'post')
            return
    ctx.fail(eng, 'different draws give different arrangements', 'neither the forward nor the backward argument goes through')
