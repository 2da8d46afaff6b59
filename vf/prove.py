"""Obligation prover: quantified facts are schemas instantiated by the engine at the index terms of
the query; sequence functions (SUM, user trait methods, ...) are records with congruence and
defining lemmas added per query; exp/ln/sqrt/tanh get axiom instances; z3 decides the
quantifier-free rest."""
import itertools
import time
import z3
from .mir import Unsupported

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_cnt = itertools.count()


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_cnt)), sort)


def fint(name='i'):
    return fresh(name, IntS)


def iv(n):
    return z3.IntVal(n)


class All:
    """for all integers x1..xk: fn(x1..xk)   (fn gives a z3 Bool)"""

    def __init__(self, k, fn, name='', window=None):
        self.k, self.fn, self.name = k, fn, name
        self.cache = {}
        self.forms = None
        self.trig = None
        self.avoid = None

    def inst(self, args):
        key = tuple(a.get_id() for a in args)
        r = self.cache.get(key)
        if r is None:
            r = (self.fn(*args), args)
            self.cache[key] = r
        return r[0]


def triggered(a, f):
    """instances of a are wanted at the arguments of f only"""
    a.trig = f.name()
    return a


def seen_at(a, u, *terms):
    """instances of a are wanted where the functions that head the terms (in u) are applied, one term per variable"""
    fs = []
    for t in terms:
        f = None
        if z3.is_expr(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1:
            d = z3.simplify(t.arg(0) - u)
            if z3.is_int_value(d):
                f = (t.decl().name(), d.as_long())
        fs.append(f)
    if any(fs):
        a.trig = tuple(fs)
    return a


def avoiding(a, *fs):
    """no instances of a at terms built with fs"""
    a.avoid = {f.name() for f in fs}
    return a


_heads = {}


def heads(t):
    r = _heads.get(t.get_id())
    if r is None:
        out, st = set(), [t]
        while st:
            x = st.pop()
            if z3.is_app(x) and x.num_args():
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                st.extend(x.children())
        r = _heads[t.get_id()] = (out, t)
    return r[0]


def solving(a):
    """instances of a are also wanted where its index terms meet those of the goal"""
    a.forms = ()
    a.ground = []
    m = fint('m')
    try:
        body = a.fn(m)
    except z3.Z3Exception:
        return a
    out = {}
    for t in summary(body)[1].values():
        for sg in (1, -1):
            r = z3.simplify(t - sg * m)
            if m.get_id() not in consts_of(r) and not (sg == 1 and z3.is_int_value(r) and r.as_long() == 0):
                out[(sg, r.get_id())] = (sg, r)
    a.ground = [t for t in summary(body)[1].values() if m.get_id() not in consts_of(t)]
    # what it is compared with
    seen, st = set(), [body]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
        if z3.is_eq(x) and x.arg(0).sort() == IntS:
            for u, v in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                if u.get_id() == m.get_id() and m.get_id() not in consts_of(v):
                    out[(0, v.get_id())] = (0, v)
    a.forms = tuple(out.values())[:6]
    return a


def consts_of(t):
    seen, st, out = set(), [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0:
            out.add(x.get_id())
        st.extend(x.children())
    return out


class AE(All):
    """for all x1..xk with dom there is an integer w with ex(x1..xk, w)"""

    def __init__(self, k, dom, ex):
        self.dom, self.ex, self.W = dom, ex, None
        All.__init__(self, k, self.sk)

    def sk(self, *xs):
        if self.W is None:
            self.W = z3.Function('wit!%d' % next(_cnt), *([IntS] * (self.k + 1))) if self.k else fint('wit')
        return z3.Implies(self.dom(*xs), self.ex(*xs, self.W(*xs) if self.k else self.W))


class Conj:
    def __init__(self, parts):
        self.parts = list(parts)


class App:
    """result of a function over sequences; res is a constant named after it"""
    __slots__ = ('name', 'scal', 'seqs', 'res', 'meta')


APPS = {}          # res const name -> App
GFACTS = {}        # const name -> list of z3 facts about it (valid always)
AXIOMS = {}        # app name -> function(app, query) -> list of z3 facts
_appmemo = {}


def mkapp(name, scal, seqs, sort, meta=None, facts=None):
    key = (name, tuple(s.get_id() for s in scal), tuple(id(q) for q in seqs))
    r = _appmemo.get(key)
    if r is not None:
        return r.res
    a = App()
    a.name, a.scal, a.seqs, a.meta = name, list(scal), list(seqs), meta
    a.res = fresh('@' + name, sort)
    APPS[a.res.decl().name()] = a
    _appmemo[key] = a
    if facts:
        GFACTS[a.res.decl().name()] = facts(a.res)
    return a.res


def gfact(const, fact):
    GFACTS.setdefault(const.decl().name(), []).append(fact)


def reset():
    APPS.clear(); GFACTS.clear(); _appmemo.clear(); _summ.clear(); _lin.clear(); _heads.clear()


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(xs)


def disj(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(xs)


# ------------------------------------------------------------------ scalar functions
F1 = {}


def f1(name, x):
    f = F1.get(name)
    if f is None:
        f = z3.Function(name, RealS, RealS)
        F1[name] = f
    return f(x)


def f2(name, x, y):
    f = F1.get(name)
    if f is None:
        f = z3.Function(name, RealS, RealS, RealS)
        F1[name] = f
    return f(x, y)


SEQ_J = z3.Int('seqeq.J')     # stands for the running index inside seqeq; nothing is ever assumed about it


def seqeq(na, a, nb, b):
    """are the sequences a (length na) and b (length nb) of scalars equal, as one term"""
    x, y = a(SEQ_J), b(SEQ_J)
    nm = 'seqeq#' + x.sort().name()
    f = F1.get(nm)
    if f is None:
        f = F1[nm] = z3.Function(nm, IntS, IntS, x.sort(), y.sort(), BoolS)
    return f(na, nb, x, y)


_sew = {}


def seqeq_axioms(t, w, put):
    na, nb, x, y = t.children()
    k = t.get_id()
    if k not in _sew:
        _sew[k] = (fint('dw'), t)
    d = _sew[k][0]
    at = lambda e, i: z3.substitute(e, (SEQ_J, i))
    put(z3.Implies(t, na == nb))
    put(z3.Implies(z3.Not(t), z3.Or(na != nb, z3.And(d >= 0, d < na, at(x, d) != at(y, d)))))
    for e in list(w.idx.values())[:12]:
        if e.get_id() != SEQ_J.get_id():
            put(z3.Implies(z3.And(t, e >= 0, e < na), at(x, e) == at(y, e)))


PI = z3.Real('PI')
SQRT2PI = z3.Real('SQRT_2_PI')
LN2PI = z3.Real('LN_2_PI')
E = z3.Real('E')
NAMED = [  # (value, expr)
    (3.141592653589793, PI), (0.6366197723675814, 2 / PI), (0.3183098861837907, 1 / PI), (1.5707963267948966, PI / 2), (6.283185307179586, 2 * PI),
    (2.5066282746310002, SQRT2PI), (1.8378770664093453, LN2PI), (2.718281828459045, E), (0.3989422804014327, 1 / SQRT2PI), (1.1283791670955126, None),
]
NAMED = [(v, e) for v, e in NAMED if e is not None]


def named_facts(names):
    out = []
    if 'PI' in names or 'SQRT_2_PI' in names or 'LN_2_PI' in names:
        out += [PI > z3.RealVal('3.14159'), PI < z3.RealVal('3.1416'), SQRT2PI > 0, SQRT2PI * SQRT2PI == 2 * PI, LN2PI == f1('ln', 2 * PI),
                LN2PI == 2 * f1('ln', SQRT2PI)]
    if 'E' in names:
        out += [E == f1('exp', z3.RealVal(1))]
    return out


# ------------------------------------------------------------------ term walking
_summ = {}


def summary(e):
    """(index terms, scalar function applications, constants) below e; memoised per root formula"""
    r = _summ.get(e.get_id())
    if r is not None:
        return r
    idx, apps, consts, by = {}, {}, {}, {}
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            ch = t.children()
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                nm = d.name()
                if not ch:
                    consts[nm] = t
                elif nm in F1:
                    apps[i] = (nm, t)
                else:
                    for c in ch:
                        if c.sort() == IntS:
                            idx[c.get_id()] = c
                            if len(ch) == 1:
                                by.setdefault(nm, {})[c.get_id()] = c
            stack.extend(ch)
    r = (e, idx, apps, consts, by)
    _summ[e.get_id()] = r
    return r


class Walk:
    def __init__(self):
        self.done = set()
        self.by = {}         # function name -> {id: argument}
        self.idx = {}        # id -> Int index term
        self.apps1 = {}      # scalar fn name -> {id: app term}
        self.consts = {}     # const name -> term

    def add(self, e):
        i = e.get_id()
        if i in self.done:
            return
        self.done.add(i)
        _, idx, apps, consts, by = summary(e)
        self.idx.update(idx)
        for nm, ts in by.items():
            self.by.setdefault(nm, {}).update(ts)
        self.consts.update(consts)
        for k, (nm, t) in apps.items():
            self.apps1.setdefault(nm, {})[k] = t


def skolemize(goal):
    """goal to prove -> list of quantifier-free goals (fresh skolems)"""
    if isinstance(goal, Conj):
        out = []
        for p in goal.parts:
            out += skolemize(p)
        return out
    if isinstance(goal, AE):
        sk = [fint('sk') for _ in range(goal.k)]
        no = solving(All(1, lambda w: z3.Not(goal.ex(*sk, w))))
        return [([goal.dom(*sk), no], z3.BoolVal(False), sk + [iv(0)] + no.ground)]
    if isinstance(goal, All):
        sk = [fint('sk') for _ in range(goal.k)]
        return [goal.fn(*sk)]
    return [goal]


STATS = {'queries': 0, 'solver_s': 0.0, 'unknown': 0}


class Prover:
    def __init__(self, timeout_ms=4000, rounds=2, maxinst=1500):
        self.timeout = timeout_ms
        self.rounds = rounds
        self.maxinst = maxinst
        self.inorder, self.capped = 0, False
        self.memo = {}

    # hyps: list of z3 Bool / All / Conj ; goal: z3 Bool / All / Conj
    deadline = None
    inc = None

    def prove(self, hyps, goal, hints=(), timeout=None, quick=False):
        """quick: products and quotients of unknowns stay opaque (enough for equalities of like terms)"""
        worst, info = 'proved', None
        for g in skolemize(goal):
            if isinstance(g, tuple):
                st, m = self.prove1(list(hyps) + g[0], g[1], list(hints) + g[2], timeout, quick)
            else:
                st, m = self.prove1(hyps, g, hints, timeout, quick)
            if st != 'proved':
                return st, m
        return worst, info

    def flat(self, hyps):
        qf, sch = [], []
        for h in hyps:
            if isinstance(h, All):
                sch.append(h)
            elif isinstance(h, Conj):
                a, b = self.flat(h.parts)
                qf += a; sch += b
            else:
                qf.append(h)
        return qf, sch

    def close(self, qf, sch, hints, early=None):
        """instances + lemmas; returns the list of formulas (None: early said it is enough)"""
        w = Walk()
        F = list(qf)
        seenf = set()
        for f in F:
            w.add(f)
        for h in hints:
            w.idx[h.get_id()] = h
        done = [set() for _ in sch]
        appdone, pairdone, gdone = set(), set(), set()
        ninst = 0

        def put(f):
            if z3.is_true(f):
                return
            i = f.get_id()
            if i in seenf:
                return
            seenf.add(i)
            F.append(f)
            w.add(f)
        for rnd in range(self.rounds + 1):
            n0 = len(F)
            # facts about apps / named constants
            for _ in range(3):
                m0 = len(F)
                for nm in list(w.consts):
                    if nm in GFACTS and nm not in gdone:
                        gdone.add(nm)
                        for g in GFACTS[nm]:
                            put(g)
                for nm in list(w.consts):
                    a = APPS.get(nm)
                    if a is None or nm in appdone:
                        continue
                    appdone.add(nm)
                    ax = AXIOMS.get(a.name.split('#')[0])
                    if ax:
                        for g in ax(a, w):
                            put(g)
                live = [APPS[nm] for nm in w.consts if nm in APPS]
                byname = {}
                for a in live:
                    byname.setdefault(a.name, []).append(a)
                for nm, l in byname.items():
                    l.sort(key=lambda a: a.res.decl().name())
                    for x in range(len(l)):
                        for y in range(x + 1, len(l)):
                            k = (l[x].res.get_id(), l[y].res.get_id())
                            if k in pairdone or len(pairdone) > 400:
                                continue
                            pairdone.add(k)
                            for g in pair_congr(l[x], l[y]):
                                put(g)
                for a in byname.get('ISUM', ()):
                    for b in byname.get('SUM', ()):
                        if set(a.meta.get('shape', ())) == set(b.meta.get('shape', ())) and (a.res.get_id(), 'real') not in pairdone:
                            pairdone.add((a.res.get_id(), 'real'))
                            for g in PAIR['ISUM'](a, None):
                                put(g)
                if len(F) == m0:
                    break
            if rnd == self.rounds:
                break
            if rnd == 1 and early is not None and early(F, w, put):
                return None
            terms = list(w.idx.values())
            def size(s):
                if isinstance(s.trig, tuple):
                    z = 1
                    for f in s.trig:
                        z *= len(terms) if f is None else len(w.by.get(f[0], ()))
                    return z
                return (len(terms) if s.trig is None else len(w.by.get(s.trig, ()))) ** s.k
            order = {0: lambda x: size(x[1]), 1: lambda x: 0, 2: lambda x: x[1].k}[self.inorder]
            for k, s in sorted(enumerate(sch), key=order):
                tl = terms if s.trig is None or isinstance(s.trig, tuple) else list(w.by.get(s.trig, {}).values())
                if s.avoid:
                    tl = [t for t in tl if not (heads(t) & s.avoid)]
                if s.forms and rnd < 2:
                    tl = list(terms)
                    for sg, r in s.forms:
                        tl += [r] if sg == 0 else [z3.simplify(t - r if sg == 1 else r - t) for t in terms]
                if isinstance(s.trig, tuple):
                    combos = itertools.product(*[terms if f is None else [t if f[1] == 0 else z3.simplify(t - f[1]) for t in w.by.get(f[0], {}).values()] for f in s.trig])
                else:
                    combos = itertools.product(tl, repeat=s.k) if s.k else [()]
                for c in combos:
                    key = tuple(t.get_id() for t in c)
                    if key in done[k]:
                        continue
                    done[k].add(key)
                    ninst += 1
                    if ninst > self.maxinst:
                        self.capped = True
                        break
                    put(s.inst(c))
            if len(F) == n0:
                break
        scalar_axioms(F, w, put)
        for f in named_facts(w.consts):
            F.append(f)
        w2 = w
        for f in F:
            w2.add(f)
        scalar_axioms(F, w2, put)
        return F

    def prove1(self, hyps, goal, hints=(), timeout=None, quick=False):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget used up')
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'proved', None
        if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_EQ and goal.arg(0).sort() in (RealS, IntS):
            from .sums import same_form
            if same_form(goal.arg(0), goal.arg(1)):
                return 'proved', None
        qf, sch = self.flat(hyps)
        def early(F, w, put):
            G = list(F)
            scalar_axioms(G, w, lambda f: G.append(f))
            G += named_facts(w.consts)
            s = z3.Solver()
            s.set('timeout', 400)
            s.add(*G)
            STATS['queries'] += 1
            t0 = time.time()
            r = s.check()
            STATS['solver_s'] += time.time() - t0
            return r == z3.unsat
        self.capped = False
        F = self.close(qf + [z3.Not(goal)], sch, hints, early if sch else None)
        if F is None:
            return 'proved', None
        r = self.check(F, timeout or self.timeout, quick)
        if r[0] != 'proved' and self.capped and timeout is None and not quick:
            # some instances were left out: others are tried
            for self.inorder in (2, 1):
                try:
                    F = self.close(qf + [z3.Not(goal)], sch, hints, early if sch else None)
                    if F is None:
                        return 'proved', None
                    r = self.check(F, self.timeout, quick)
                finally:
                    self.inorder = 0
                if r[0] == 'proved':
                    break
        return r

    def check(self, F, timeout, quick=False):
        STATS['queries'] += 1
        t0 = time.time()
        L, nl = linabs(F)
        if nl:
            # products and quotients of unknowns taken as opaque first: enough for most obligations
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*L)
            r = s.check()
            if r == z3.unsat or quick:
                STATS['solver_s'] += time.time() - t0
                return ('proved', None) if r == z3.unsat else ('failed', s.model()) if r == z3.sat else ('unknown', None)
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*F)
        r = s.check()
        if r == z3.unknown:
            s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'smt').solver()
            fz, ok = ackermann(F)
            if ok:
                s2 = z3.SolverFor('QF_NRA')
                F2 = fz
            else:
                F2 = F
            s2.set('timeout', timeout)
            s2.add(*F2)
            try:
                r2 = s2.check()
            except z3.Z3Exception:
                r2 = z3.unknown
            if r2 == z3.unsat:
                r = r2
            elif r2 == z3.sat and r == z3.unknown:
                r, s = r2, s2
        STATS['solver_s'] += time.time() - t0
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'failed', s.model()
        STATS['unknown'] += 1
        return 'unknown', s.reason_unknown()

    def feasible(self, hyps, extra, timeout=400):
        """False only if the hypotheses (quantifier-free part) contradict extra"""
        if z3.is_true(extra):
            return True
        if z3.is_false(extra):
            return False
        qf, sch = self.flat(hyps)
        ids = {f.get_id() for f in qf}
        if extra.get_id() in ids:
            return True
        if z3.is_not(extra) and extra.arg(0).get_id() in ids or any(z3.is_not(f) and f.arg(0).get_id() == extra.get_id() for f in qf):
            return False
        # paths share most of their hypotheses with the path asked about before: keep those asserted
        inc = self.inc
        if inc is None or inc[2] > 3000:
            inc = self.inc = [z3.Solver(), [], 0]
        s, held = inc[0], inc[1]
        inc[2] += 1
        k = 0
        while k < len(held) and k < len(qf) and held[k].get_id() == qf[k].get_id():
            k += 1
        if k < len(held):
            s.pop(len(held) - k)
            del held[k:]
        for f in qf[k:]:
            s.push()
            s.add(f)
            held.append(f)
        s.set('timeout', timeout)
        STATS['queries'] += 1
        t0 = time.time()
        s.push()
        s.add(extra)
        r = s.check()
        s.pop()
        STATS['solver_s'] += time.time() - t0
        return r != z3.unsat


def pair_congr(a, b):
    """two applications of one function: equal arguments give equal results; extra per-function lemmas"""
    if a.name in ONLY:
        return PAIR[a.name](a, b)
    if len(a.scal) != len(b.scal) or len(a.seqs) != len(b.seqs):
        return []
    for x, y in zip(a.scal, b.scal):
        if x.sort() != y.sort():
            return []
    diff = [x != y for x, y in zip(a.scal, b.scal) if x.get_id() != y.get_id()]
    for p, q in zip(a.seqs, b.seqs):
        if p is q:
            continue
        diff.append(z3.Not(p.eq_witness(q)))
    out = [disj(diff + [a.res == b.res])]
    px = PAIR.get(a.name.split('#')[0])
    if px:
        out += px(a, b)
    return out


PAIR = {}
ONLY = {'SUM', 'ISUM'}


def snorm(t):
    return z3.simplify(t, som=True)


def factors(t):
    """t as product of (base, exponent +-1), or None"""
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_MUL:
        out = []
        for c in t.children():
            out += factors(c)
        return out
    if k == z3.Z3_OP_DIV:
        a, b = t.children()
        return factors(a) + [(x, -e) for x, e in factors(b)]
    return [(t, 1)]


def monomials(x):
    """summands of a normalised real term: (n, summand, b) with exp(summand) = b^n, or b None"""
    out = []
    for m in (x.children() if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ADD else [x]):
        c, u = 1, m
        if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_MUL and m.num_args() == 2 and z3.is_rational_value(m.arg(0)):
            c, u = m.arg(0).as_fraction(), m.arg(1)
        elif z3.is_app(m) and m.decl().kind() == z3.Z3_OP_UMINUS:
            c, u = -1, m.arg(0)
        base = None
        if u.get_id() == LN2PI.get_id() and (2 * c).denominator == 1 if not isinstance(c, int) else u.get_id() == LN2PI.get_id():
            c, base = int(2 * c), SQRT2PI
        elif z3.is_app(u) and u.decl().name() == 'ln':
            if isinstance(c, int) or c.denominator == 1:
                c, base = int(c), u.arg(0)
            elif (2 * c).denominator == 1:
                c, base = int(2 * c), f1('sqrt', u.arg(0))
        if base is not None and abs(c) > 4:
            base = None
        out.append((c, m, base))
    return out


def scalar_axioms(F, w, put):
    R = z3.RealVal
    for _ in range(2):
        n0 = len(F)
        ex = list(w.apps1.get('exp', {}).values())
        if _ == 0:
            for t in ex[:10]:
                e2 = f1('exp', snorm(-t.arg(0)))
                if e2.get_id() not in w.apps1.get('exp', {}):
                    put(t * e2 == 1)
                    put(e2 > 0)
            for t in ex:
                # exp of a sum of named parts
                x = t.arg(0)
                if z3.is_app(x) and x.decl().name() == 'ln':
                    put(z3.Implies(x.arg(0) > 0, t == x.arg(0)))
                ms = monomials(snorm(x))
                logs = [y for y in ms if y[2] is not None]
                if logs and len(ms) > 1:
                    rest = f1('exp', snorm(z3.Sum([y[1] for y in ms if y[2] is None] + [R(0)])))
                    lhs, rhs = t, rest
                    for c, m, u in logs:
                        for _i in range(abs(c)):
                            if c > 0:
                                rhs = rhs * u
                            else:
                                lhs = lhs * u
                    put(z3.Implies(conj([u > 0 for c, m, u in logs]), lhs == rhs))
        for t in ex:
            x = t.arg(0)
            put(t > 0)
            put(z3.Implies(x == 0, t == 1))
            put(z3.Implies(x > 0, t > 1 + x))
            put(z3.Implies(x < 0, t < 1))
        for a, b in itertools.combinations(ex[:14], 2):
            x, y = a.arg(0), b.arg(0)
            put(z3.Implies(x < y, a < b)); put(z3.Implies(y < x, b < a))
            put(z3.Implies(x + y == 0, a * b == 1))
            put(z3.Implies(x == 2 * y, a == b * b)); put(z3.Implies(y == 2 * x, b == a * a))
        if len(ex) <= 8:
            for a, b in itertools.combinations(ex, 2):
                for c in ex:
                    if c is a or c is b:
                        continue
                    put(z3.Implies(a.arg(0) + b.arg(0) == c.arg(0), a * b == c))
        ln = list(w.apps1.get('ln', {}).values())
        for t in ln:
            x = t.arg(0)
            put(z3.Implies(x == 1, t == 0))
            put(z3.Implies(x > 1, t > 0))
            put(z3.Implies(z3.And(x > 0, x < 1), t < 0))
            if z3.is_app(x) and x.decl().name() == 'exp':
                put(t == x.arg(0))
            if z3.is_app(x) and x.decl().name() == 'sqrt':
                put(z3.Implies(x.arg(0) > 0, 2 * t == f1('ln', x.arg(0))))
            fs = factors(x)
            if len(fs) > 1:
                put(z3.Implies(conj([b > 0 for b, e in fs]), t == z3.Sum([e * f1('ln', b) for b, e in fs])))
            put(z3.Implies(x > 0, f1('exp', t) == x))
        for a, b in itertools.combinations(ln[:12], 2):
            x, y = a.arg(0), b.arg(0)
            put(z3.Implies(z3.And(x > 0, x < y), a < b)); put(z3.Implies(z3.And(y > 0, y < x), b < a))
            put(z3.Implies(z3.And(x > 0, y > 0, x * y == 1), a + b == 0))
            put(z3.Implies(z3.And(x > 0, y > 0, x == y * y), a == 2 * b)); put(z3.Implies(z3.And(x > 0, y > 0, y == x * x), b == 2 * a))
        if len(ln) <= 8:
            for a, b in itertools.combinations(ln, 2):
                for c in ln:
                    if c is a or c is b:
                        continue
                    put(z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0, a.arg(0) * b.arg(0) == c.arg(0)), a + b == c))
        for a in ln[:8]:
            for b in ex[:12]:
                put(z3.Implies(a.arg(0) == b, a == b.arg(0)))
        if 2 <= len(ln) <= 4 and 1 <= len(ex) <= 4:
            for a, b in itertools.permutations(ln, 2):
                for c in ex:
                    put(z3.Implies(z3.And(b.arg(0) > 0, a.arg(0) == b.arg(0) * c), a == b + c.arg(0)))
        for nm in [q for q in w.apps1 if q.startswith('seqeq#')]:
            for t in list(w.apps1[nm].values())[:8]:
                seqeq_axioms(t, w, put)
        sq = list(w.apps1.get('sqrt', {}).values())
        for t in sq:
            x = t.arg(0)
            put(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
            put(z3.Implies(x > 0, t > 0))
            put(z3.Implies(x == 0, t == 0))
            put(z3.Implies(x == 1, t == 1))
            put(z3.Implies(z3.And(x >= 0, x <= 1), t <= 1))
        for a, b in itertools.combinations(sq[:10], 2):
            x, y = a.arg(0), b.arg(0)
            put(z3.Implies(z3.And(x >= 0, x < y), a < b)); put(z3.Implies(z3.And(y >= 0, y < x), b < a))
        for t in w.apps1.get('tanh', {}).values():
            x = t.arg(0)
            e = f1('exp', 2 * x)
            put(t * (e + 1) == e - 1)
            put(e > 0)
        for t in w.apps1.get('powf', {}).values():
            x, y = t.arg(0), t.arg(1)
            put(z3.Implies(y == 1, t == x)); put(z3.Implies(y == 0, t == 1)); put(z3.Implies(z3.And(y == 2), t == x * x))
            put(z3.Implies(x == 1, t == 1)); put(z3.Implies(x > 0, t > 0))
            put(z3.Implies(z3.And(x >= 1, y <= 0), t <= 1)); put(z3.Implies(y == -1, t == 1 / x)); put(z3.Implies(z3.And(y == R_HALF, x >= 0), z3.And(t >= 0, t * t == x)))
        for f in F[n0:]:
            w.add(f)
        if len(F) == n0:
            break


R_HALF = z3.RealVal('1/2')


_mulf = {}


def opaque_mul(x, y):
    so = x.sort()
    f = _mulf.get(so.name())
    if f is None:
        f = _mulf[so.name()] = z3.Function('mul#' + so.name(), so, so, so)
    return f(x, y)


INVF = z3.Function('inv#', RealS, RealS)


_lin = {}


def linear_ints(p):
    """only integers, no products or quotients of unknowns"""
    return all(c.sort() in (IntS, BoolS) for c in summary(p)[3].values()) and not linabs([p])[1]


def linabs(F):
    """the formulas with every product or quotient of unknowns replaced by an opaque term of its normal form; was there one?"""
    from .sums import poly, atom_t, num_s, rebuild
    cache = _lin
    nl = [False]
    if len(cache) > 400000:
        cache.clear()

    def rank(ke):
        # the same order for products whose factors are equal without being the same terms
        t = atom_t(ke[0])
        if not z3.is_app(t):
            return ke[1] < 0, 3, '', ke[0]
        nm = t.decl().name()
        if t.num_args() == 0:
            return (ke[1] < 0, 1, APPS[nm].name, ke[0]) if nm in APPS else (ke[1] < 0, 0, nm, ke[0])
        return ke[1] < 0, 2, nm, ke[0]

    def arith(t):
        p = poly(t)
        so = t.sort()
        out = None
        for m in sorted(p.d):
            c = p.d[m]
            fs = []
            for k, e in sorted(m, key=rank):
                a = walk(atom_t(k), True)
                if e < 0:
                    a = INVF(a)
                    nl[0] = True
                fs += [a] * abs(e)
            if len(fs) > 1:
                nl[0] = True
            x = None
            for a in fs:
                x = a if x is None else opaque_mul(a, x)
            if x is None:
                x = num_s(c, so)
            elif c != 1:
                x = num_s(c, so) * x
            out = x if out is None else out + x
        if out is None:
            return z3.RealVal(0) if so == RealS else z3.IntVal(0)
        return out

    def walk(t, atom=False):
        k = (t.get_id(), atom)
        r = cache.get(k)
        if r is None:
            was, nl[0] = nl[0], False
            x = walk1(t, atom)
            r = cache[k] = (x, t, nl[0])
            nl[0] = was
        nl[0] = nl[0] or r[2]
        return r[0]

    def walk1(t, atom):
        if not z3.is_app(t):
            return t
        if not atom and t.sort() in (RealS, IntS) and t.decl().kind() in ARITHK:
            return arith(t)
        if t.num_args() == 0:
            return t
        ch = [walk(c) for c in t.children()]
        if t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_MUL) and not z3.is_int_value(ch[-1]):
            nl[0] = True
            so = t.sort()
            f = z3.Function('op#%d' % t.decl().kind() + so.name() + str(len(ch)), *([c.sort() for c in ch] + [so]))
            return f(*ch)
        return rebuild(t, ch)
    try:
        return [walk(f) for f in F], nl[0]
    except z3.Z3Exception:
        return F, False


ARITHK = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV)


def ackermann(F):
    """replace real/int uninterpreted applications by constants + congruence; only for sorts Int/Real/Bool"""
    apps = {}
    order = []
    ok = True
    cache = {}

    def walk(t):
        nonlocal ok
        i = t.get_id()
        if i in cache:
            return cache[i][0]
        if z3.is_app(t):
            ch = [walk(c) for c in t.children()]
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and ch:
                if d.range() not in (IntS, RealS, BoolS):
                    ok = False
                    r = t
                else:
                    key = (d.name(), tuple(c.get_id() for c in ch))
                    if key in apps:
                        r = apps[key][0]
                    else:
                        r = fresh('ack', d.range())
                        apps[key] = (r, ch, d.name())
            elif ch:
                r = d(*ch) if len(ch) == d.arity() or d.kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else None
                try:
                    k = d.kind()
                    if k == z3.Z3_OP_AND:
                        r = z3.And(ch)
                    elif k == z3.Z3_OP_OR:
                        r = z3.Or(ch)
                    elif k == z3.Z3_OP_ADD:
                        r = z3.Sum(ch)
                    elif k == z3.Z3_OP_MUL:
                        r = z3.Product(ch)
                    elif k == z3.Z3_OP_DISTINCT:
                        r = z3.Distinct(ch)
                    else:
                        r = d(*ch)
                except z3.Z3Exception:
                    ok = False
                    r = t
            else:
                if t.sort() not in (IntS, RealS, BoolS):
                    ok = False
                r = t
        else:
            ok = False
            r = t
        cache[i] = (r, t)
        return r
    out = [walk(f) for f in F]
    if not ok:
        return F, False
    by = {}
    for r, ch, nm in apps.values():
        by.setdefault(nm, []).append((r, ch))
    for nm, l in by.items():
        for (r1, c1), (r2, c2) in itertools.combinations(l, 2):
            if len(c1) == len(c2):
                out.append(z3.Or([x != y for x, y in zip(c1, c2)] + [r1 == r2]))
    return out, True
