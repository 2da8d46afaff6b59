"""Closed forms of what a loop accumulates: candidates for the invariant search (every candidate is proved)."""
import re
import z3
from .mir import Unsupported
from .vals import *
from . import prove as PV
from .prove import All, Conj, conj, fint, iv, IntS, RealS, BoolS, APPS
from .sums import psum, poly, unpoly, rebuild, subst_ix


class NotClosed(Exception):
    pass


def sub_terms(t, m, funs, memo=None):
    """t with constants (by id) and uninterpreted functions (by name) replaced, also inside sums"""
    memo = {} if memo is None else memo

    def go(t):
        k = t.get_id()
        r = memo.get(k)
        if r is not None:
            return r[0]
        res = go1(t)
        memo[k] = (res, t)
        return res

    def go1(t):
        if t.get_id() in m:
            return m[t.get_id()][1]
        if z3.is_quantifier(t) or z3.is_var(t):
            raise NotClosed()
        if t.num_args() == 0:
            a = APPS.get(t.decl().name()) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            if a is None or not app_mentions(a, m, funs):
                return t
            if a.name in ('SUM', 'ISUM'):
                at = a.meta['at']
                return psum(go(a.meta['n']), lambda i: sub_terms(at(i), m, funs), a.res.sort())
            raise NotClosed()
        ch = [go(c) for c in t.children()]
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in funs:
            return funs[t.decl().name()](*ch)
        if all(x.get_id() == y.get_id() for x, y in zip(ch, t.children())):
            return t
        return rebuild(t, ch)
    return go(t)


def app_mentions(a, m, funs, seen=None):
    if not a.meta or 'at' not in a.meta:
        return any(isz(s) and mentions_any(s, m, funs) for s in a.scal)
    return mentions_any(a.meta['n'], m, funs) or mentions_any(a.scal[1], m, funs)


def mentions_any(t, m, funs):
    for x in symbols(t):
        if x.get_id() in m or x.decl().name() in funs:
            return True
    return False


def symbols(t, seen=None, out=None):
    """uninterpreted symbols of a term, through sums"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            a = APPS.get(x.decl().name()) if x.num_args() == 0 else None
            if a is not None:
                stack.extend(s for s in a.scal if isz(s))
                for q in a.seqs:
                    pass
            else:
                out.append(x)
        stack.extend(x.children())
    return out


def born(name):
    i = name.rfind('!')
    if i < 0 or not name[i + 1:].isdigit():
        return -1
    return int(name[i + 1:])


def vmap(v, f):
    """f on every scalar of a structured value"""
    if isz(v):
        return f(v)
    if isinstance(v, Agg):
        return Agg(v.ty, [vmap(x, f) for x in v.f])
    if isinstance(v, Ref):
        return Ref(vmap(v.v, f))
    if isinstance(v, BoxV):
        return BoxV(vmap(v.v, f))
    if isinstance(v, Vect):
        return Vect(vmap(v.s, f))
    if isinstance(v, Seq):
        if v.init is not None:
            raise NotClosed()
        return Seq(f(v.n), lambda i: vmap(v.at(i), f), None, elty=v.elty)
    if isinstance(v, Mat):
        return Mat(f(v.r), f(v.c), lambda i, j: vmap(v.at(i, j), f), v.kind)
    if isinstance(v, Enum):
        return Enum(v.ty, v.disc if isinstance(v.disc, int) else f(v.disc), {k: tuple(vmap(x, f) for x in p) for k, p in v.pay.items()})
    raise NotClosed()


def eqs_of(c):
    """equalities implied by a condition"""
    if not z3.is_app(c):
        return []
    k = c.decl().kind()
    if k == z3.Z3_OP_EQ and c.arg(0).sort() == IntS:
        return [(c.arg(0), c.arg(1))]
    if k == z3.Z3_OP_AND:
        return [e for x in c.children() for e in eqs_of(x)]
    return []


def zero(s):
    return z3.RealVal(0) if s == RealS else z3.IntVal(0)


def lift_sub(t, a, ix):
    """t - a with conditionals outside and a cancelled"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = t.children()
        pr = []
        for u, v in eqs_of(c):
            if any(u.get_id() == i.get_id() for i in ix):
                pr.append((v, u))
            elif any(v.get_id() == i.get_id() for i in ix):
                pr.append((u, v))
        for p, i in pr:
            if not z3.is_int_value(p):
                x = z3.substitute(x, (p, i))
        x, y = lift_sub(x, a, ix), lift_sub(y, a, ix)
        return x if x.get_id() == y.get_id() else z3.If(c, x, y)
    return unpoly(poly(z3.simplify(t - a)), t.sort())


def merge(vals):
    """[(path condition, value)] -> one value"""
    if not vals:
        raise NotClosed()
    v = vals[-1][1]
    for c, x in reversed(vals[:-1]):
        v = itev(c, x, v)
    return v


def scalars(v, path=()):
    """[(path, scalar)] of a value made of scalars"""
    v = strip(v)
    if isz(v):
        return [(path, v)]
    if isinstance(v, Agg):
        return [y for i, x in enumerate(v.f) for y in scalars(x, path + (i,))]
    raise NotClosed()


def pick(v, path):
    for i in path:
        v = strip(v).f[i]
    return strip(v)


def ite_leaves(t, out=None):
    out = [] if out is None else out
    if is_ite(t):
        ite_leaves(t.arg(1), out)
        ite_leaves(t.arg(2), out)
    elif not any(t.eq(x) for x in out):
        out.append(t)
    return out


class Finder:
    def __init__(self, run, leaves, base, backs, cands, ncl, k, n0):
        self.run, self.leaves, self.base, self.backs, self.k, self.n0, self.ncl = run, leaves, base, backs, k, n0, ncl
        self.entry = run.entry
        self.known = {}      # const id -> (const, start value, +1/0/-1)
        self.ints = []
        for c in cands:
            if not c.tag:
                continue
            kind, l = c.tag
            if kind in ('same', 'plus', 'minus'):
                b, v0 = l.get(base), l.get(self.entry)
                if isz(b) and isz(v0) and (b.get_id() not in self.known or kind == 'same'):
                    self.known[b.get_id()] = (b, v0, {'same': 0, 'plus': 1, 'minus': -1}[kind])
                    if kind == 'plus':
                        self.ints.append((l, b, v0))
        self.tags = {(c.tag[0], id(c.tag[1])) for c in cands if c.tag}
        self.pcs = []
        for b in backs:
            hs = [h for h in b.hyps[ncl:] if isinstance(h, z3.ExprRef)]
            self.pcs.append(hs)
        self.funs = {}       # element functions of unchanged / not yet written sequences
        for l in leaves:
            if l.kind == 'seq' and ('seqsame', id(l)) in self.tags:
                s, s0 = l.get(base), l.get(self.entry)
                try:
                    for nm, c in self.comps(s):
                        self.funs[nm] = (lambda s0, c: (lambda i: pick(s0.at(i), c)))(s0, c)
                except (Unsupported, NotClosed):
                    pass

    def close(self, t, kk, allow=()):
        """t as a term of the iteration number kk and what existed before the loop"""
        m = {i: (b, z3.simplify(v0 + kk) if d == 1 else z3.simplify(v0 - kk) if d == -1 else v0) for i, (b, v0, d) in self.known.items()}
        m[self.k.get_id()] = (self.k, kk)
        r = sub_terms(t, m, self.funs)
        ok = {x.get_id() for x in symbols(kk)} | {x.get_id() for a in allow for x in symbols(a)}
        for x in symbols(r):
            nm = x.decl().name()
            if x.get_id() in ok or nm.startswith('ix#'):
                continue
            if born(nm) >= self.n0 and not (x.num_args() == 0 and nm in self.okc):
                raise NotClosed(nm)
        return r

    okc = ()

    def cond(self, i):
        """path condition of back edge i that distinguishes it from the others"""
        common = None
        return conj(self.pcs[i])

    def cases(self, f):
        """[(condition, value of leaf)] over the back edges, conditions common to all dropped"""
        if len(self.backs) == 1:
            return [(z3.BoolVal(True), f(self.backs[0]))]
        ids = [set(h.get_id() for h in p) for p in self.pcs]
        com = set.intersection(*ids)
        return [(conj([h for h in p if h.get_id() not in com]), f(b)) for p, b in zip(self.pcs, self.backs)]

    # ------------------------------------------------------------------
    def find(self):
        from .loops import Cand
        out = []
        for l in self.leaves:
            for g in (self.scalar, self.pushes, self.writes, self.accum, self.mats, self.extreme, self.extremes):
                try:
                    out += [x for x in g(l) if x is not None]
                except (Unsupported, NotClosed, z3.Z3Exception, KeyError, AttributeError, TypeError):
                    continue
        try:
            out += self.guards()
        except (Unsupported, NotClosed, z3.Z3Exception, KeyError, AttributeError, TypeError):
            pass
        return out

    def guards(self):
        """what every iteration that went on had checked (or established) holds for all iterations so far"""
        from .loops import Cand
        if not self.backs:
            return []
        out = []
        com = None
        for b in self.backs:
            hs = {h.get_id() if isinstance(h, z3.ExprRef) else id(h): h for h in b.hyps[self.ncl:]}
            com = hs if com is None else {i: h for i, h in com.items() if i in hs}
        for h in com.values():
            try:
                if isinstance(h, z3.ExprRef):
                    if not any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 for x in symbols(h)):
                        continue
                    self.close(h, self.k)
                    f = lambda S, k, h=h: PV.solving(All(1, lambda i: z3.Implies(z3.And(i >= 0, i < k), self.close(h, i))))
                elif isinstance(h, All) and h.k == 1:
                    sk = fint('g')
                    body = h.fn(sk)
                    self.close(body, self.k, (sk,))
                    f = lambda S, k, sk=sk, body=body: All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < k), sub_terms(self.close(body, i, (sk,)), {sk.get_id(): (sk, j)}, {})))
                else:
                    continue
            except NotClosed:
                continue
            out.append(Cand('checked in every iteration: %s' % str(h if isinstance(h, z3.ExprRef) else body)[:60].replace('\n', ' '), f, False, ('guard', f)))
            if len(out) >= 8:
                break
        if len(self.backs) > 1:
            # one of the ways round the loop was taken
            alts = []
            for b in self.backs:
                hs = []
                for h in b.hyps[self.ncl:]:
                    if not isinstance(h, z3.ExprRef) or h.get_id() in com:
                        continue
                    if not any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 for x in symbols(h)):
                        continue
                    try:
                        self.close(h, self.k)
                        hs.append(h)
                    except NotClosed:
                        pass
                alts.append(conj(hs))
            d = z3.Or(*alts)
            if all(not z3.is_true(z3.simplify(a)) for a in alts) and not z3.is_true(z3.simplify(d)):
                f = lambda S, k: All(1, lambda i: z3.Implies(z3.And(i >= 0, i < k), self.close(d, i)))
                out.append(Cand('one way round in every iteration: %s' % str(d)[:60].replace('\n', ' '), f, False, ('guard', f)))
        return out

    def extremes(self, l):
        """running maximum / minimum, position by position"""
        from .loops import Cand
        from .prove import AE
        if l.kind != 'seq' or ('seqsame', id(l)) in self.tags:
            return []
        s, s0 = l.get(self.base), l.get(self.entry)
        if s.init is not None or any(l.get(b).n.get_id() != s.n.get_id() for b in self.backs):
            return []
        I = fint('eI')
        whole = merge(self.cases(lambda b: l.get(b).at(I)))
        out = []
        for (c, t), (_, old), (_, o0) in zip(scalars(whole), scalars(s.at(I)), scalars(s0.at(I))):
            if old.sort() not in (IntS, RealS):
                continue
            new = [x for x in ite_leaves(t) if not x.eq(old)]
            if len(new) != 1 or new[0].eq(t):
                continue
            self.close(new[0], self.k, (I,))
            V = lambda i, w, n=new[0]: sub_terms(self.close(n, w, (I,)), {I.get_id(): (I, i)}, {})
            G = lambda S, i, c=c: pick(l.get(S).at(i), c)
            Z = lambda i, c=c: pick(s0.at(i), c)
            nm = '%r%s' % (l, ''.join('.%d' % x for x in c))
            ok = lambda S, i: z3.And(i >= 0, i < l.get(S).n)
            for on, op in (('>=', lambda x, y: x >= y), ('<=', lambda x, y: x <= y)):
                out.append(Cand('%s %s every item seen' % (nm, on), lambda S, k, op=op, G=G, V=V: All(2, lambda i, w: z3.Implies(z3.And(ok(S, i), w >= 0, w < k), op(G(S, i), V(i, w))))))
                out.append(Cand('%s %s its start' % (nm, on), lambda S, k, op=op, G=G, Z=Z: All(1, lambda i: z3.Implies(ok(S, i), op(G(S, i), Z(i))))))
            out.append(Cand('%s is its start or an item seen' % nm, lambda S, k, G=G, V=V, Z=Z: AE(1, lambda i: ok(S, i), lambda i, w: z3.Or(G(S, i) == Z(i), z3.And(w >= 0, w < k, G(S, i) == V(i, w))))))
        return out

    def scalar(self, l):
        from .loops import Cand
        if l.kind not in ('int', 'real') or ('same', id(l)) in self.tags or ('plus', id(l)) in self.tags or ('minus', id(l)) in self.tags:
            return []
        a, v0 = l.get(self.base), l.get(self.entry)
        if isinstance(v0, Uninit) or not isz(v0):
            return []
        t = merge(self.cases(lambda b: l.get(b)))
        d = lift_sub(z3.simplify(t) if not is_ite(t) else t, a, [])
        out = []
        try:
            self.close(d, self.k)
            out.append(Cand('%r = start + sum' % l, lambda S, k: l.get(S) == v0 + psum(k, lambda i: self.close(d, i), a.sort()), False, ('closed', l, lambda K: v0 + psum(K, lambda i: self.close(d, i), a.sort())),
                            step=lambda b, k: l.get(b) == a + self.close(d, k)))
            return out
        except NotClosed:
            pass
        # overwritten in every iteration: last value
        try:
            self.close(t, self.k)
            one = iv(1)
            out.append(Cand('%r is the value of the last iteration' % l, lambda S, k: z3.If(k == 0, l.get(S) == v0, l.get(S) == self.close(t, k - 1)), False,
                            ('closed', l, lambda K: z3.If(K == 0, v0, self.close(t, K - 1)))))
            return out
        except NotClosed:
            pass
        # products and alternating signs are left alone
        return out

    def extreme(self, l):
        """running maximum / minimum, with the position where it was seen"""
        from .loops import Cand
        from .prove import AE
        if l.kind not in ('int', 'real') or ('same', id(l)) in self.tags or ('plus', id(l)) in self.tags:
            return []
        a, v0 = l.get(self.base), l.get(self.entry)
        if not isz(v0):
            return []
        new = [x for x in ite_leaves(merge(self.cases(lambda b: l.get(b)))) if not x.eq(a)]
        if len(new) != 1 or all(l.get(b).eq(new[0]) for b in self.backs):
            return []
        new = new[0]
        self.close(new, self.k)
        V = lambda i: self.close(new, i)
        out = []
        rng = lambda i, k: z3.And(i >= 0, i < k)
        for nm, op in (('>=', lambda x, y: x >= y), ('<=', lambda x, y: x <= y)):
            out.append(Cand('%r %s every item seen' % (l, nm), lambda S, k, op=op: All(1, lambda i: z3.Implies(rng(i, k), op(l.get(S), V(i))))))
            out.append(Cand('%r %s its start' % (l, nm), lambda S, k, op=op: op(l.get(S), v0)))
        out.append(Cand('%r is its start or an item seen' % l, lambda S, k: AE(0, lambda: z3.BoolVal(True), lambda w: z3.Or(l.get(S) == v0, z3.And(w >= 0, w < k, l.get(S) == V(w))))))
        for q in self.leaves:
            if q is l or q.kind != 'int' or ('plus', id(q)) in self.tags or ('same', id(q)) in self.tags:
                continue
            qa, q0 = q.get(self.base), q.get(self.entry)
            if not isz(q0):
                continue
            qn = None
            for b in self.backs:
                x = q.get(b)
                if x.get_id() != qa.get_id():
                    qn = x
            if qn is None:
                continue
            try:
                off = z3.simplify(self.close(qn, self.k) - self.k)   # position = iteration + off
            except NotClosed:
                continue
            W = lambda p: V(z3.simplify(p - off))
            out.append(Cand('%r is the item at %r' % (l, q), lambda S, k, q=q, W=W: l.get(S) == W(q.get(S))))
            out.append(Cand('%r is the item at %r or the start' % (l, q), lambda S, k, q=q, W=W, q0=q0: z3.Or(z3.And(l.get(S) == v0, q.get(S) == q0), l.get(S) == W(q.get(S)))))
            out.append(Cand('%r was seen' % (q,), lambda S, k, q=q, off=off: z3.And(q.get(S) >= off, q.get(S) < off + k)))
            out.append(Cand('%r was seen or is the start' % (q,), lambda S, k, q=q, off=off, q0=q0: z3.Or(q.get(S) == q0, z3.And(q.get(S) >= off, q.get(S) < off + k))))
            for nm, op in (('<', lambda x, y: x < y), ('>', lambda x, y: x > y)):
                out.append(Cand('items before %r are %s %r' % (q, nm, l), lambda S, k, q=q, op=op, off=off: All(1, lambda i: z3.Implies(z3.And(i >= 0, i < q.get(S) - off, i < k), op(V(i), l.get(S))))))
        return out

    def pushes(self, l):
        """one item is put at the end in every iteration"""
        from .loops import Cand
        if l.kind != 'seq':
            return []
        s, s0 = l.get(self.base), l.get(self.entry)
        if s.init is not None:
            return []
        nl = None
        for (kd, i) in self.tags:
            pass
        v = None
        n = s.n
        vals = self.cases(lambda b: l.get(b).at(n))
        for b in self.backs:
            d = z3.simplify(l.get(b).n - n)
            if not (z3.is_int_value(d) and d.as_long() == 1):
                return []
        t = merge(vals)
        vmap(t, lambda x: self.close(x, self.k))
        V = lambda i: vmap(t, lambda x: self.close(x, i))
        n0 = s0.n

        def f(S, k):
            q = l.get(S)
            return All(1, lambda i: z3.Implies(z3.And(i >= n0, i < n0 + k, i < q.n), eqv(q.at(i), V(z3.simplify(i - n0)))))

        def cl(K):
            if z3.is_int_value(z3.simplify(n0)) and z3.simplify(n0).as_long() == 0:
                return Seq(z3.simplify(K), lambda i: V(i), None, elty=s.elty)
            return Seq(z3.simplify(n0 + K), lambda i: itev(i < n0, s0.at(i), V(z3.simplify(i - n0))), None, elty=s.elty)
        return [Cand('%r holds one item per iteration' % l, f, False, ('closed', l, cl, 'n'))]

    def comps(self, s):
        """names of the element functions of a havocked sequence: [(name, component)]"""
        out = []
        for c, x in scalars(s.at(fint('q'))):
            if not (z3.is_app(x) and x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                raise NotClosed()
            out.append((x.decl().name(), c))
        return out

    def elem(self, s):
        """name of the element function of a havocked sequence of scalars"""
        x = s.at(fint('q'))
        if isz(x) and z3.is_app(x) and x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return x.decl().name()
        return None

    def writes(self, l):
        """item start+k is overwritten in iteration k"""
        from .loops import Cand
        if l.kind != 'seq' or ('seqsame', id(l)) in self.tags:
            return []
        s, s0 = l.get(self.base), l.get(self.entry)
        if s0.init is not None:
            return []
        F = self.comps(s)
        if any(l.get(b).n.get_id() != s.n.get_id() for b in self.backs):
            return []
        I = fint('wI')
        same = lambda x, y: all(p.eq(q) for (_, p), (_, q) in zip(scalars(x), scalars(y)))
        whole = merge(self.cases(lambda b: l.get(b).at(I)))
        if same(whole, s.at(I)):
            return []
        for pl, pc, p0 in self.ints:
            t = merge(self.cases(lambda b: l.get(b).at(pc)))
            t = vmap(t, z3.simplify)
            if same(t, s.at(pc)):
                continue
            old = dict(self.funs)
            try:
                self.funs = dict(old)
                for nm, c in F:
                    self.funs[nm] = lambda i, c=c: pick(s0.at(i), c)
                fn = dict(self.funs)

                def V(i, fn=fn, t=t):
                    sv, self.funs = self.funs, fn
                    try:
                        return vmap(t, lambda x: self.close(x, i))
                    finally:
                        self.funs = sv
                V(self.k)
            except NotClosed:
                continue
            finally:
                self.funs = old
            val = lambda i, k, V=V, p0=p0: itev(z3.And(i >= p0, i < p0 + k), V(z3.simplify(i - p0)), s0.at(i))
            return [Cand('%r is written from the front' % l, lambda S, k: All(1, lambda i: z3.Implies(z3.And(i >= 0, i < l.get(S).n), eqv(l.get(S).at(i), val(i, k)))), False,
                         ('closed', l, lambda K: Seq(s0.n, lambda i: val(i, K), None, elty=s.elty), 'n'))]
        return []

    def accum(self, l):
        """every item accumulates"""
        from .loops import Cand
        if l.kind != 'seq' or ('seqsame', id(l)) in self.tags:
            return []
        s, s0 = l.get(self.base), l.get(self.entry)
        F = self.elem(s)
        if F is None or s0.init is not None or any(l.get(b).n.get_id() != s.n.get_id() for b in self.backs):
            return []
        I = fint('aI')
        t = merge(self.cases(lambda b: l.get(b).at(I)))
        if t.sort() not in (IntS, RealS):
            return []
        d = lift_sub(t, s.at(I), [I])
        if d.get_id() == zero(d.sort()).get_id():
            return []
        if any(x.decl().name() == F for x in symbols(d)):
            return []
        self.close(d, self.k, (I,))
        so = d.sort()
        val = lambda i, k: s0.at(i) + psum(k, lambda q: sub_terms(self.close(d, q, (I,)), {I.get_id(): (I, i)}, {}), so)
        return [Cand('%r accumulates item by item' % l, lambda S, k: All(1, lambda i: z3.Implies(z3.And(i >= 0, i < l.get(S).n), l.get(S).at(i) == val(i, k))), False,
                     ('closed', l, lambda K: Seq(s0.n, lambda i: val(i, K), None, elty=s.elty), 'n'),
                     step=lambda b, k: All(1, lambda i: z3.Implies(z3.And(i >= 0, i < l.get(b).n), l.get(b).at(i) == s.at(i) + sub_terms(self.close(d, k, (I,)), {I.get_id(): (I, i)}, {}))))]

    def mats(self, l):
        from .loops import Cand
        if l.kind != 'mat':
            return []
        m, m0 = l.get(self.base), l.get(self.entry)
        x = m.at(fint('q'), fint('q'))
        if not (isz(x) and x.num_args() == 2 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return []
        F = x.decl().name()
        if any(l.get(b).r.get_id() != m.r.get_id() or l.get(b).c.get_id() != m.c.get_id() for b in self.backs):
            return []
        I, J = fint('mI'), fint('mJ')
        t = merge(self.cases(lambda b: l.get(b).at(I, J)))
        if t.get_id() == m.at(I, J).get_id():
            return []
        rngm = lambda S, i, j: z3.And(i >= 0, i < l.get(S).r, j >= 0, j < l.get(S).c)
        out = []
        if t.sort() in (IntS, RealS):
            d = lift_sub(t, m.at(I, J), [I, J])
            if not any(x.decl().name() == F for x in symbols(d)):
                try:
                    self.close(d, self.k, (I, J))
                    so = d.sort()
                    val = lambda i, j, k: m0.at(i, j) + psum(k, lambda q: sub_terms(self.close(d, q, (I, J)), {I.get_id(): (I, i), J.get_id(): (J, j)}, {}), so)
                    return [Cand('%r accumulates entry by entry' % l, lambda S, k: All(2, lambda i, j: z3.Implies(rngm(S, i, j), l.get(S).at(i, j) == val(i, j, k))), False,
                                 ('closed', l, lambda K: Mat(m0.r, m0.c, lambda i, j: val(i, j, K), m.kind), 'rc'),
                                 step=lambda b, k: All(2, lambda i, j: z3.Implies(rngm(b, i, j), l.get(b).at(i, j) == m.at(i, j) + sub_terms(self.close(d, k, (I, J)), {I.get_id(): (I, i), J.get_id(): (J, j)}, {}))))]
                except NotClosed:
                    pass
        # row p / column p / entry (.., p) written in iteration k
        for pl, pc, p0 in self.ints:
            for ax in (0, 1):
                at = (lambda M, q: M.at(pc, q)) if ax == 0 else (lambda M, q: M.at(q, pc))
                tt = z3.simplify(merge(self.cases(lambda b: at(l.get(b), J))))
                if tt.get_id() == at(m, J).get_id():
                    continue
                fn = dict(self.funs)
                fn[F] = lambda i, j: m0.at(i, j)

                def V(k, j, fn=fn, tt=tt):
                    sv, self.funs = self.funs, fn
                    try:
                        return sub_terms(self.close(tt, k, (J,)), {J.get_id(): (J, j)}, {})
                    finally:
                        self.funs = sv
                try:
                    V(self.k, J)
                except NotClosed:
                    continue
                val = lambda i, j, k, ax=ax, V=V, p0=p0: itev(z3.And((i if ax == 0 else j) >= p0, (i if ax == 0 else j) < p0 + k), V(z3.simplify((i if ax == 0 else j) - p0), j if ax == 0 else i), m0.at(i, j))
                out.append(Cand('%r is written %s by %s' % (l, 'row' if ax == 0 else 'column', 'row' if ax == 0 else 'column'), lambda S, k, val=val: All(2, lambda i, j: z3.Implies(rngm(S, i, j), l.get(S).at(i, j) == val(i, j, k))), False,
                                ('closed', l, lambda K, val=val: Mat(m0.r, m0.c, lambda i, j: val(i, j, K), m.kind), 'rc')))
        return out


def is_ite(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE


def put_leaf(v, path, val):
    """the value with the leaf at path replaced"""
    if not path:
        return val
    p, rest = path[0], path[1:]
    if isinstance(p, int):
        if isinstance(v, Agg):
            f = list(v.f)
            f[p] = put_leaf(f[p], rest, val)
            return Agg(v.ty, f)
        if isinstance(v, Clos):
            c = list(v.caps)
            c[p] = put_leaf(c[p], rest, val)
            return Clos(v.loc, c, v.env)
    if p == 'ref' and isinstance(v, Ref):
        return Ref(put_leaf(v.v, rest, val))
    if p == 'ref':
        return put_leaf(v, rest, val)
    if p == 'box':
        return BoxV(put_leaf(v.v, rest, val))
    if p == 'vs':
        return Vect(put_leaf(v.s, rest, val))
    raise NotClosed()


def iterations(eng, run, base, cands, entry, s, k):
    """number of iterations made when the exit state s is reached, as a term from before the loop; None if not found"""
    pos = []
    for c in cands:
        if not c.tag or c.tag[0] != 'plus':
            continue
        l = c.tag[1]
        if l.path and l.path[-1] == 'pos':
            from .loops import Leaf
            it = Leaf(l.cell, l.path[:-1], '', '').get(entry)
            pos.append(z3.simplify(it.end - it.pos))
        else:
            from .loops import Leaf, walk
            v0 = l.get(entry)
            if l.path and l.path[-1] == 0:
                par = Leaf(l.cell, l.path[:-1], '', '').get(entry)
                if isinstance(par, Agg) and par.ty == 'Range':
                    pos.append(z3.simplify(par.f[1] - par.f[0]))
                    continue
            for t in run.ends:
                x = z3.simplify(t - v0)
                pos.append(x)
    seen = set()
    for x in pos[:8]:
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if eng.pv.prove(s.hyps, k == x, timeout=600)[0] == 'proved':
            return x
    return None
