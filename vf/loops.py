"""Loops: an inductive invariant is found among candidates (Houdini) and every use of it is discharged."""
import itertools
import z3
from .mir import Unsupported, ty_str
from . import mir as M
from .vals import *
from . import prove as PV
from .prove import All, Conj, conj, fint, iv, IntS, RealS, BoolS


class Leaf:
    __slots__ = ('cell', 'path', 'kind', 'name', 'fixedinit')

    def __init__(self, cell, path, kind, name):
        self.cell, self.path, self.kind, self.name = cell, tuple(path), kind, name
        self.fixedinit = False

    def get(self, st):
        v = st.ghost[self.cell[1]] if isinstance(self.cell, tuple) else st.cells.get(self.cell, UNINIT)
        for p in self.path:
            v = walk(v, p)
        return v

    def __repr__(self):
        return '%s%s' % (self.name, ''.join('.%s' % (x,) for x in self.path))


def walk(v, p):
    if isinstance(p, int):
        if isinstance(v, Agg):
            return v.f[p]
        if isinstance(v, Clos):
            return v.caps[p]
        raise Unsupported('loop state changes shape')
    if p == 'ref':
        if isinstance(v, Ref):
            return v.v
        return v
    if p == 'box':
        return v.v
    if p == 'pos':
        return v.pos
    if p == 'disc':
        if not isinstance(v, Enum):
            raise Unsupported('loop state changes shape')
        return zi(v.disc)
    if p == 'vs':
        return v.s
    if p == 'n':
        return v.n
    if p == 'r':
        return v.r
    if p == 'c':
        return v.c
    if isinstance(p, tuple) and p[0] == 'pay':
        pl = v.pay.get(p[1])
        if pl is None:
            return UNINIT
        return pl[p[2]]
    raise Unsupported('leaf step %r' % (p,))


def default_of(v):
    if isz(v):
        return None
    return v


class Cand:
    __slots__ = ('name', 'fn', 'qf', 'tag', 'step', 'memo', 'quick')

    def __init__(self, name, fn, qf=False, tag=None, step=None, quick=False):
        self.name, self.fn, self.qf, self.tag, self.step, self.memo, self.quick = name, fn, qf, tag, step, {}, quick

    def at(self, S, k):
        """the candidate in a state (built once: instances of its quantified facts are kept with it)"""
        key = (id(S), k.get_id())
        r = self.memo.get(key)
        if r is None or r[0] is not S:
            r = self.memo[key] = (S, k, self.fn(S, k))
        return r[2]


class LoopRun:
    """body(st) -> outcomes ('back', st) | ('exit', st, x) | ('ret', st, v)"""

    def __init__(self, eng, fr, h, body, st, runner=None, name=None):
        self.eng, self.fr, self.h, self.body, self.entry = eng, fr, h, body, st
        self.runner = runner
        self.name = name or '%s loop' % (fr.fn.name,)
        self.names = {}
        if fr is not None:
            M.ensure_parsed(fr.fn)
            live = M.liveness(fr.fn)[h] if h is not None else None
            inv = {c: l for l, c in fr.loc.items()}
            self.inv = inv
            self.live = live

    def outcomes(self, st):
        self.eng.loopstack.append(self)
        try:
            return self.outcomes1(st)
        finally:
            self.eng.loopstack.pop()

    def outcomes1(self, st):
        if self.runner is not None:
            return self.runner(st)
        # sub-runs must not leak new locals into each other: cells of locals are stable per frame
        return self.eng.run(self.fr, self.h, st, loop=(self.h, self.body))

    def cell_name(self, c):
        l = self.inv.get(c) if self.fr is not None else None
        if l is not None:
            nm = self.fr.fn.argnames.get(l) if hasattr(self.fr.fn, 'argnames') else None
            return nm or '_%d' % l
        return 'c%d' % c

    def cell_type(self, c):
        l = self.inv.get(c) if self.fr is not None else None
        if l is not None:
            return self.eng.lty(self.fr, l)
        return self.eng.celltype.get(c)

    # ------------------------------------------------------------------ pointers reachable
    def targets(self, cells, st):
        """cells reachable through mutable references from the given cells"""
        seen = set()
        work = list(cells)
        while work:
            c = work.pop()
            if c in seen:
                continue
            seen.add(c)
            for p in ptrs(st.cells.get(c)):
                work.append(p.cell)
        return seen

    def relevant(self, st):
        eng = self.eng
        if self.live is None or self.h is None:
            return set(st.cells)
        inv = self.inv = {c: l for l, c in self.fr.loc.items()}
        roots = {c for c in st.cells if inv.get(c) is None or inv[c] in self.live}
        return self.targets(roots, st)

    # ------------------------------------------------------------------ havoc
    def havoc(self, st, cells, ghosts):
        leaves = []
        for c in sorted(cells):
            v = st.cells.get(c, UNINIT)
            nm = self.cell_name(c)
            nv = self.hv(v, self.cell_type(c), nm, st, leaves, c, ())
            st.cells[c] = nv
        for g in sorted(ghosts):
            v = st.ghost[g]
            if not isz(v):
                raise Unsupported('ghost ' + g)
            st.ghost[g] = PV.fresh(g, v.sort())
            leaves.append(Leaf(('g', g), (), kind_of(v), g))
        return leaves

    def subty(self, ty, p):
        if ty is None:
            return None
        try:
            if ty[0] == 'ref':
                ty = ty[2] if p == 'ref' else ty
                if p == 'ref':
                    return ty
            if isinstance(p, int):
                if ty[0] == 'tuple':
                    return ty[1][p]
                if ty[0] == 'adt':
                    from .sym import last
                    if last(ty[1]) == 'Range':
                        return ty[2][0]
                    d = self.eng.src.defs.get(ty[1])
                    if d is not None and d.kind == 'struct':
                        return M.subst_ty(d.fields[p], dict(zip(d.params, ty[2])))
            if p == 'box' and ty[0] == 'adt':
                return ty[2][0]
        except (IndexError, KeyError):
            pass
        return None

    def hv(self, v, ty, nm, st, leaves, cell, path):
        eng = self.eng

        def leaf(kind):
            leaves.append(Leaf(cell, path, kind, self.cell_name(cell)))
        if isinstance(v, Uninit):
            return v
        if isz(v):
            leaf(kind_of(v))
            x = PV.fresh(nm, v.sort())
            if v.sort() == IntS and ty is not None and ty[0] == 'int' and ty[1].startswith('u'):
                st.assume(z3.And(x >= 0, x <= (1 << 64) - 1))
            return x
        if isinstance(v, Agg):
            return Agg(v.ty, [self.hv(x, self.subty(ty, i), '%s.%d' % (nm, i), st, leaves, cell, path + (i,)) for i, x in enumerate(v.f)])
        if isinstance(v, Clos):
            return Clos(v.loc, [self.hv(x, None, '%s.%d' % (nm, i), st, leaves, cell, path + (i,)) for i, x in enumerate(v.caps)], v.env)
        if isinstance(v, Ref):
            return Ref(self.hv(v.v, self.subty(ty, 'ref'), nm, st, leaves, cell, path + ('ref',)))
        if isinstance(v, BoxV):
            return BoxV(self.hv(v.v, self.subty(ty, 'box'), nm, st, leaves, cell, path + ('box',)))
        if isinstance(v, It):
            leaves.append(Leaf(cell, path + ('pos',), 'int', self.cell_name(cell)))
            p = fint(nm + '.pos')
            return It(v.at, p, v.end, v.name)
        if isinstance(v, Vect):
            return Vect(self.hv(v.s, None, nm, st, leaves, cell, path + ('vs',)))
        if isinstance(v, Seq):
            leaf('seq')
            leaves.append(Leaf(cell, path + ('n',), 'int', self.cell_name(cell) + '.len'))
            n = fint(nm + '.len')
            st.assume(z3.And(n >= 0, n <= (1 << 63) - 1))
            el = self.shape(v, nm + '.e', st)
            init = None
            if v.init is not None or (id(v) and self.noinit.get((cell, path))):
                f = z3.Function('%s.init!%d' % (nm, next(PV._cnt)), IntS, BoolS)
                init = lambda i: f(i)
            return Seq(n, lambda i: el(i), init, elty=v.elty)
        if isinstance(v, MapV):
            leaf('map')
            return map_like(eng, v, nm, st)
        if isinstance(v, Mat):
            leaf('mat')
            leaves.append(Leaf(cell, path + ('r',), 'int', self.cell_name(cell) + '.rows'))
            leaves.append(Leaf(cell, path + ('c',), 'int', self.cell_name(cell) + '.cols'))
            r, c = fint(nm + '.rows'), fint(nm + '.cols')
            st.assume(z3.And(r >= 0, c >= 0))
            b = shape_builder(eng, v.at(fint('hi'), fint('hj')), nm + '.e', 2, st)
            return Mat(r, c, lambda i, j: b(i, j), v.kind)
        if isinstance(v, Enum):
            nv = None
            if ty is not None and ty[0] == 'adt':
                try:
                    nv = eng.fresh(ty, nm, st)
                except Unsupported:
                    nv = None
            leaves.append(Leaf(cell, path + ('disc',), 'int', self.cell_name(cell) + '.tag'))
            if nv is None or not isinstance(nv, Enum):
                d = fint(nm + '.d')
                pay = {}
                for k, xs in v.pay.items():
                    pay[k] = tuple(self.hv(x, None, '%s.%d.%d' % (nm, k, i), st, leaves, cell, path + (('pay', k, i),)) for i, x in enumerate(xs))
                if isinstance(v.disc, int):
                    st.assume(d >= 0)
                return Enum(v.ty, d, pay)
            for k, xs in nv.pay.items():
                for i, x in enumerate(xs):
                    if isz(x):
                        leaves.append(Leaf(cell, path + (('pay', k, i),), kind_of(x), self.cell_name(cell)))
            return nv
        if isinstance(v, (Ptr, FnV, RawP, FiltIt)):
            self.fixed.append((cell, path, v))
            return v
        raise Unsupported('loop changes a %s' % type(v).__name__)

    def shape(self, v, nm, st):
        eng = self.eng
        if v.elty is not None:
            try:
                return eng.builder(v.elty, nm, 1, st)
            except Unsupported:
                pass
        return shape_builder(eng, v.at(fint('hs')), nm, 1, st)

    # ------------------------------------------------------------------ main
    def go(self):
        eng = self.eng
        self.k = fint('k')
        entry = self.entry
        self.noinit = {}
        W, G = set(), set()
        for rnd in range(8):
            rel = self.relevant(entry)
            st = entry.copy()
            st.written = set()
            self.fixed = []
            cells = {c for c in W if c in rel}
            leaves = self.havoc(st, cells, G)
            for c in list(st.cells):
                if c not in rel:
                    st.cells[c] = UNINIT
            pre = st.copy()
            eng.dry += 1
            # only what is written matters here: inner loops need no invariants
            was, eng.scan = eng.scan, True
            try:
                try:
                    outs = self.outcomes(pre.copy())
                except (Unsupported, closed_error()):
                    eng.scan = was
                    outs = self.outcomes(st)
            finally:
                eng.dry -= 1
                eng.scan = was
            nw, ng = set(W), set(G)
            for o in outs:
                if o[0] != 'back':
                    continue
                s2 = o[1]
                for c in rel:
                    if c in entry.cells and s2.cells.get(c) is not pre.cells.get(c):
                        if not quick_same(s2.cells.get(c), pre.cells.get(c)):
                            nw.add(c)
                for g in s2.ghost:
                    if g not in pre.ghost:
                        raise Unsupported('ghost appears in a loop')
                    if s2.ghost[g] is not pre.ghost[g]:
                        ng.add(g)
                for c, v in s2.cells.items():
                    if c in nw and c in entry.cells:
                        self.note_init(pre.cells.get(c), v, c, ())
            # cells written on exits only do not matter for the invariant
            if nw == W and ng == G:
                break
            W, G = nw, ng
        else:
            raise Unsupported('loop state does not stabilise')
        if entry.written is not None:
            entry.written |= W
        if eng.scan:
            return self.sketch(W, G)
        return self.solve(W, G)

    def sketch(self, W, G):
        """the exits from an arbitrary state of the loop, nothing known about what it changes"""
        rel = self.relevant(self.entry)
        self.fixed = []
        st = self.entry.copy()
        st.written = set() if self.entry.written is not None else None
        self.havoc(st, {c for c in W if c in rel}, G)
        for c in list(st.cells):
            if c not in rel:
                st.cells[c] = UNINIT
        self.k = k = fint('k')
        st.assume(k >= 0)
        d = len(st.draws)
        outs = [o for o in self.outcomes(st) if o[0] != 'back']
        for o in outs:
            o[1].draws = o[1].draws[:d]
        return outs

    def note_init(self, a, b, c, path):
        """sequences that become partly uninitialised inside the loop"""
        if isinstance(b, Seq) and b.init is not None and isinstance(a, Seq) and a.init is None:
            self.noinit[(c, path)] = True
        if isinstance(b, Agg) and isinstance(a, Agg):
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                self.note_init(x, y, c, path + (i,))
        if isinstance(b, Vect) and isinstance(a, Vect):
            self.note_init(a.s, b.s, c, path + ('vs',))

    def entry_view(self, leaf):
        return leaf.get(self.entry)

    def solve(self, W, G):
        eng = self.eng
        entry = self.entry
        rel = self.relevant(entry)
        self.fixed = []
        n0 = next(PV._cnt)
        st = entry.copy()
        st.written = set() if entry.written is not None else None
        leaves = self.havoc(st, {c for c in W if c in rel}, G)
        for c in list(st.cells):
            if c not in rel:
                st.cells[c] = UNINIT
        k = fint('k')
        st.assume(k >= 0)
        self.k = k
        self.n0 = n0
        self.leaves = leaves
        base = st
        self.base = base
        # arithmetic facts first; then facts about contents
        zero = iv(0)
        nb = len(base.hyps)
        auto = self.auto(leaves, base, rel)
        cands = self.filter_entry([c for c in auto if c.qf], zero)
        backs = self.dry_backs(base, cands, k)
        self.check_fixed(base, backs[0])
        cands = self.houdini(cands, base, backs[0], nb, backs[1], k)
        self.arith = [c.at(base, k) for c in cands]
        more = [c for c in auto if not c.qf]
        for t in eng.templates:
            more += t(self)
        cands += self.filter_entry(more, zero)
        extra_done = False
        while True:
            cur = base.copy()
            for c in cands:
                cur.assume(c.at(base, k))
            ncl = len(cur.hyps)
            eng.dry += 1
            try:
                outs = self.outcomes(cur.copy())
            finally:
                eng.dry -= 1
            backs = [o[1] for o in outs if o[0] == 'back']
            self.check_fixed(base, backs)
            n0 = len(cands)
            cands = self.houdini(cands, base, backs, nb, ncl, k)
            if len(cands) == n0:
                if not extra_done:
                    extra_done = True
                    more = self.filter_entry(self.discover(leaves, base, backs, cands, ncl, k), zero)
                    if more:
                        # optimistic: add, then re-run
                        cands = cands + more
                        for b in backs:
                            pass
                        continue
                break
        # committed run
        cur = base.copy()
        for c in cands:
            cur.assume(c.at(base, k))
        if not eng.dry:
            for c in cands:
                eng.obls.append(Obl_('%s/invariant %s: %s' % (eng.tname, self.name, c.name)))
            eng.invlog.append((self.name, [c.name for c in cands]))
        d0 = len(cur.draws)
        pre = cur.copy()
        outs = self.outcomes(cur)
        res = []
        rec = LoopRec_()
        rec.entry, rec.pre, rec.k, rec.leaves, rec.cands, rec.name, rec.W = entry, pre, k, leaves, cands, self.name, W
        rec.backs, rec.exits, rec.d0, rec.fr, rec.rel = [], [], d0, self.fr, rel
        rec.run = self.outcomes

        def instance(kk):
            """another arbitrary state of the same iteration"""
            s2 = entry.copy()
            self.fixed = []
            self.havoc(s2, {c for c in W if c in rel}, G)
            for c in list(s2.cells):
                if c not in rel:
                    s2.cells[c] = UNINIT
            for c in cands:
                s2.assume(c.fn(s2, kk))
            p2 = s2.copy()
            eng.dry += 1
            try:
                return p2, kk, self.outcomes(s2)
            finally:
                eng.dry -= 1
        rec.instance = instance
        for o in outs:
            if o[0] == 'back':
                rec.backs.append(o[1])
                continue
            rec.exits.append(o[1])
            self.finish(pre, cands, o[1], k)
            o[1].draws = entry.draws + [('loop', rec)] + o[1].draws[d0:]
            res.append(o)
        if not eng.dry:
            eng.loops.append(rec)
        return res

    def dry_backs(self, base, cands, k):
        cur = base.copy()
        for c in cands:
            cur.assume(c.at(base, k))
        n = len(cur.hyps)
        self.eng.dry += 1
        try:
            outs = self.outcomes(cur.copy())
        finally:
            self.eng.dry -= 1
        return [o[1] for o in outs if o[0] == 'back'], n

    def arith_true(self, f):
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(*[h for h in self.base.hyps if isinstance(h, z3.ExprRef)] + self.arith)
        s.add(z3.Not(f(self.base, self.k)))
        return s.check() == z3.unsat

    def classes(self, bounds):
        """one representative of each integer quantity (equal by the arithmetic invariants)"""
        out = []
        pv = self.eng.pv
        hy = [h for h in self.base.hyps if isinstance(h, z3.ExprRef)] + self.arith
        for nm, f in bounds:
            try:
                t = f(self.base, self.k)
            except Unsupported:
                continue
            s = z3.Solver()
            s.set('timeout', 300)
            s.add(*hy)
            dup = False
            for nm2, f2, t2 in out:
                s.push()
                s.add(t != t2)
                r = s.check()
                s.pop()
                if r == z3.unsat:
                    dup = True
                    break
            if not dup:
                out.append((nm, f, t))
        return [(nm, f) for nm, f, t in out]

    def check_fixed(self, base, backs):
        for cell, path, v in self.fixed:
            for b in backs:
                x = b.cells.get(cell)
                for p in path:
                    x = walk(x, p)
                if isinstance(v, Ptr) and isinstance(x, Ptr) and v.cell == x.cell and same_path(v.path, x.path):
                    continue
                if x is not v:
                    raise Unsupported('loop rebinds a mutable reference')
        # iterators must keep their source
        for l in self.leaves:
            if l.path and l.path[-1] == 'pos':
                par = Leaf(l.cell, l.path[:-1], '', '')
                a = par.get(base)
                for b in backs:
                    x = par.get(b)
                    if not isinstance(x, It) or x.at is not a.at or x.end is not a.end:
                        raise Unsupported('loop replaces an iterator')

    # ------------------------------------------------------------------ candidates
    def auto(self, leaves, base, rel):
        out = []
        entry = self.entry
        ints, pool = [], []
        for l in leaves:
            v0 = l.get(entry)
            if isinstance(v0, Uninit):
                continue
            if l.kind in ('int', 'real', 'bool', 'other'):
                out.append(Cand('%r unchanged' % l, lambda S, k, l=l, v0=v0: l.get(S) == v0, True, ('same', l)))
            if l.kind == 'int':
                ints.append(l)
                out.append(Cand('%r = start + k' % l, lambda S, k, l=l, v0=v0: l.get(S) == v0 + k, True, ('plus', l)))
                out.append(Cand('%r = start - k' % l, lambda S, k, l=l, v0=v0: l.get(S) == v0 - k, True, ('minus', l)))
                out.append(Cand('%r >= start' % l, lambda S, k, l=l, v0=v0: l.get(S) >= v0, True))
                out.append(Cand('%r <= start' % l, lambda S, k, l=l, v0=v0: l.get(S) <= v0, True))
                out.append(Cand('%r >= 0' % l, lambda S, k, l=l: l.get(S) >= 0, True))
            if l.path and l.path[-1] == 'pos':
                end = Leaf(l.cell, l.path[:-1], '', '').get(base).end
                out.append(Cand('%r <= end' % l, lambda S, k, l=l, end=end: l.get(S) <= end, True))
            if l.kind == 'seq':
                s0 = v0
                def same(S, k, l=l, s0=s0):
                    s = l.get(S)
                    return All(1, lambda i: z3.Implies(z3.And(i >= 0, i < s.n), eqv(s.at(i), s0.at(i))))
                def prefix(S, k, l=l, s0=s0):
                    s = l.get(S)
                    return All(1, lambda i: z3.Implies(z3.And(i >= 0, i < s0.n, i < s.n), eqv(s.at(i), s0.at(i))))
                def suffix(S, k, l=l, s0=s0):
                    s = l.get(S)
                    return All(1, lambda i: z3.Implies(z3.And(i >= 0, i < s.n), eqv(s.at(i), s0.at(k + i))))
                out.append(Cand('%r content unchanged' % l, same, False, ('seqsame', l), quick=True))
                out.append(Cand('%r keeps its first items' % l, prefix, False, ('seqprefix', l), quick=True))
                out.append(Cand('%r is a suffix' % l, suffix, False, ('seqsuffix', l), quick=True))
                sb = l.get(base)
                if sb.init is not None:
                    def initk(S, k, l=l, s0=s0):
                        s = l.get(S)
                        return All(1, lambda i: z3.Implies(z3.And(i >= 0, i < k), s.inited(i)))
                    def inita(S, k, l=l, s0=s0):
                        s = l.get(S)
                        return All(1, lambda i: z3.Implies(z3.And(i >= 0, i < s.n), s.inited(i)))
                    def initm(S, k, l=l, s0=s0):
                        s = l.get(S)
                        return All(1, lambda i: z3.Implies(s0.inited(i), s.inited(i)))
                    out.append(Cand('%r first k items written' % l, initk))
                    out.append(Cand('%r all written' % l, inita))
                    out.append(Cand('%r written items stay written' % l, initm))
            if l.kind == 'mat':
                m0 = v0
                def msame(S, k, l=l, m0=m0):
                    m = l.get(S)
                    return All(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < m.r, j >= 0, j < m.c), eqv(m.at(i, j), m0.at(i, j))))
                out.append(Cand('%r content unchanged' % l, msame, quick=True))
        # bounds against other integers of the state
        lid = {(l.cell, l.path) for l in leaves}
        consts = []
        seen = set()
        for c in sorted(rel):
            if c in entry.cells and not any(l.cell == c for l in leaves):
                for t in int_terms(entry.cells[c]):
                    if t.get_id() not in seen:
                        seen.add(t.get_id())
                        consts.append(t)
        for l in leaves:
            if l.kind in ('int',) and (l.path[-1:] == ('n',) or True):
                v0 = l.get(entry)
                if isz(v0) and v0.get_id() not in seen and not z3.is_int_value(v0):
                    seen.add(v0.get_id())
                    consts.append(v0)
        consts = consts[:10]
        self.ends = consts
        for l in ints:
            for t in consts:
                out.append(Cand('%r <= %s' % (l, t), lambda S, k, l=l, t=t: l.get(S) <= t, True))
                out.append(Cand('%r < %s' % (l, t), lambda S, k, l=l, t=t: l.get(S) < t, True))
                out.append(Cand('%r >= %s' % (l, t), lambda S, k, l=l, t=t: l.get(S) >= t, True))
        for a, b in itertools.permutations(ints[:8], 2):
            out.append(Cand('%r <= %r' % (a, b), lambda S, k, a=a, b=b: a.get(S) <= b.get(S), True))
        return out

    def filter_entry(self, cands, zero):
        """the candidates that hold on entry"""
        eng = self.eng
        out, rest, ok = [], [], set()
        for c in cands:
            try:
                p = c.fn(self.entry, zero)
            except Unsupported:
                continue
            if c.qf and z3.is_true(z3.simplify(p)):
                ok.add(id(c))
            elif c.qf:
                rest.append((c, p))
            elif eng.pv.prove(self.entry.hyps, p, timeout=1500, quick=bool(c.quick))[0] == 'proved':
                ok.add(id(c))
        # the quantifier-free ones together: a counterexample rules out many
        ints = [x for x in rest if PV.linear_ints(x[1])]
        for grp, quick in ((ints, True), ([x for x in rest if x not in ints], False)):
            while grp:
                r, m = eng.pv.prove(self.entry.hyps, conj([p for _, p in grp]), timeout=1500, quick=quick)
                if r == 'proved':
                    ok |= {id(c) for c, _ in grp}
                    break
                left = [(c, p) for c, p in grp if r == 'failed' and not z3.is_false(m.eval(p, model_completion=True))]
                if r != 'failed' or len(left) == len(grp):
                    ok |= {id(c) for c, p in grp if eng.pv.prove(self.entry.hyps, p, timeout=1500, quick=quick)[0] == 'proved'}
                    break
                grp = left
        return [c for c in cands if id(c) in ok]

    def houdini(self, cands, base, backs, nb, ncl, k):
        eng = self.eng
        k1 = k + 1
        cands = list(cands)
        changed = True
        while changed:
            changed = False
            for b in backs:
                # quantifier-free candidates together
                while True:
                    hyps = b.hyps[:nb] + [c.at(base, k) for c in cands] + b.hyps[ncl:]
                    qs = []
                    bad = set()
                    for c in cands:
                        if c.qf:
                            try:
                                qs.append((c, c.at(b, k1)))
                            except Unsupported:
                                bad.add(id(c))
                    if bad:
                        cands = [c for c in cands if id(c) not in bad]
                        changed = True
                        continue
                    if not qs:
                        break
                    drop = set()
                    ints = [x for x in qs if PV.linear_ints(x[1])]
                    for grp, quick in ((ints, True), ([x for x in qs if x not in ints], False)):
                        if not grp or drop:
                            continue
                        r, m = eng.pv.prove(hyps, conj([q for _, q in grp]), timeout=3000, quick=quick)
                        if r == 'proved':
                            continue
                        if r == 'failed':
                            for c, q in grp:
                                if z3.is_false(m.eval(q, model_completion=True)):
                                    drop.add(id(c))
                        if not drop:
                            for c, q in grp:
                                r, m = eng.pv.prove(hyps, q, timeout=1500, quick=quick)
                                if r != 'proved':
                                    drop.add(id(c))
                    if not drop:
                        break
                    cands = [c for c in cands if id(c) not in drop]
                    changed = True
                    if not drop:
                        break
                for c in list(cands):
                    if c.qf:
                        continue
                    hyps = b.hyps[:nb] + [x.at(base, k) for x in cands] + b.hyps[ncl:]
                    r = None
                    if c.step is not None:
                        # start + sum(k) -> start + sum(k+1): what this iteration added is the item at k
                        try:
                            g = self.known_eqs(c.step(b, k), cands, base, k)
                            r, m = eng.pv.prove(hyps, g, eng.inst_hints, timeout=4000)
                        except (Unsupported, closed_error()):
                            r = 'unsupported'
                    if r != 'proved':
                        try:
                            r, m = eng.pv.prove(hyps, c.at(b, k1), eng.inst_hints, timeout=4000, quick=bool(c.quick))
                            if r != "proved" and c.quick == "retry":
                                r, m = eng.pv.prove(hyps, c.at(b, k1), eng.inst_hints, timeout=4000)
                        except Unsupported:
                            r = 'unsupported'
                    if r != 'proved':
                        cands.remove(c)
                        changed = True
        return cands

    def known_eqs(self, g, cands, base, k):
        """g with integers of known value (start, start +- k) replaced"""
        from .closed import sub_terms, NotClosed
        m = {}
        for c in cands:
            if c.tag and c.tag[0] in ('same', 'plus', 'minus'):
                b, v0 = c.tag[1].get(base), c.tag[1].get(self.entry)
                if isz(b) and isz(v0) and b.num_args() == 0:
                    m[b.get_id()] = (b, {'same': v0, 'plus': z3.simplify(v0 + k) if v0.sort() == IntS else None, 'minus': z3.simplify(v0 - k) if v0.sort() == IntS else None}[c.tag[0]])
        if isinstance(g, All):
            f = g.fn
            return All(g.k, lambda *xs: sub_terms(f(*xs), m, {}))
        return sub_terms(g, m, {})

    # ------------------------------------------------------------------ closed forms
    def discover(self, leaves, base, backs, cands, ncl, k):
        if not backs or getattr(self.eng, 'no_closed', False):
            return []
        from .closed import Finder
        return Finder(self, leaves, base, backs, cands, ncl, k, self.n0).find()

    def finish(self, base, cands, s, k):
        """an exit state in which the number of iterations is known: closed forms instead of loop constants"""
        from .closed import iterations, put_leaf, NotClosed
        cl = [c for c in cands if c.tag and c.tag[0] == 'closed']
        gd = [c for c in cands if c.tag and c.tag[0] == 'guard']
        if not cl and not gd:
            return
        K = iterations(self.eng, self, base, cands, self.entry, s, k)
        if K is None:
            return
        for c in gd:
            s.assume(c.tag[1](None, K))
        for c in cl:
            l, f = c.tag[1], c.tag[2]
            if isinstance(l.cell, tuple):
                continue
            try:
                cur = l.get(s)
                was = l.get(base)
                if isz(cur):
                    if not isz(was) or cur.get_id() != was.get_id():
                        continue
                    val = f(K)
                else:
                    if cur is not self.leafval(base, l):
                        continue
                    val = f(K)
                    dims = [(cur.n, val.n)] if isinstance(cur, Seq) else [(cur.r, val.r), (cur.c, val.c)]
                    if any(self.eng.pv.prove(s.hyps, a == b, timeout=600)[0] != 'proved' for a, b in dims):
                        continue
                v = s.cells[l.cell]
                s.cells[l.cell] = put_leaf(v, list(l.path), val)
            except (NotClosed, Unsupported):
                continue

    def leafval(self, S, l):
        try:
            return l.get(S)
        except Unsupported:
            return None


def closed_error():
    from .closed import NotClosed
    return NotClosed


def Obl_(name):
    from .sym import Obl
    return Obl(name, 'invariant', 'proved', None, '')


class LoopRec_:
    pass


def kind_of(v):
    s = v.sort()
    return 'int' if s == IntS else 'real' if s == RealS else 'bool' if s == BoolS else 'other'


def ptrs(v, depth=0):
    if depth > 6 or v is None:
        return []
    if isinstance(v, Ptr):
        return [v]
    out = []
    if isinstance(v, Agg):
        for x in v.f:
            out += ptrs(x, depth + 1)
    elif isinstance(v, Clos):
        for x in v.caps:
            out += ptrs(x, depth + 1)
    elif isinstance(v, Enum):
        for xs in v.pay.values():
            for x in xs:
                out += ptrs(x, depth + 1)
    elif isinstance(v, (Ref, BoxV)):
        out += ptrs(v.v, depth + 1)
    elif isinstance(v, RawP) and v.ptr is not None:
        out.append(v.ptr)
    elif isinstance(v, It):
        src = getattr(v.at, 'ptrs', None)
        if src:
            out += list(src)
    return out


def quick_same(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.get_id() == b.get_id()
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return len(a.f) == len(b.f) and all(quick_same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Clos):
        return a.loc == b.loc and all(quick_same(x, y) for x, y in zip(a.caps, b.caps))
    if isinstance(a, (Ref, BoxV)):
        return quick_same(a.v, b.v)
    if isinstance(a, Ptr):
        return a.cell == b.cell and same_path(a.path, b.path)
    if isinstance(a, Enum):
        return (a.disc == b.disc if isinstance(a.disc, int) and isinstance(b.disc, int) else (isz(a.disc) and isz(b.disc) and a.disc.get_id() == b.disc.get_id())) and \
            set(a.pay) == set(b.pay) and all(quick_same(x, y) for q in a.pay for x, y in zip(a.pay[q], b.pay[q]))
    if isinstance(a, It):
        return a.at is b.at and quick_same(a.pos, b.pos) and quick_same(a.end, b.end)
    if isinstance(a, Vect):
        return quick_same(a.s, b.s)
    return False


def int_terms(v, depth=0):
    """integers of an unchanged value that may bound a counter"""
    if isz(v):
        return [v] if v.sort() == IntS and not z3.is_int_value(v) else []
    out = []
    if depth > 3:
        return out
    if isinstance(v, Agg):
        for x in v.f:
            out += int_terms(x, depth + 1)
    elif isinstance(v, (Ref, BoxV)):
        out += int_terms(v.v, depth + 1)
    elif isinstance(v, Seq):
        out += int_terms(v.n)
    elif isinstance(v, Vect):
        out += int_terms(v.s.n)
    elif isinstance(v, Mat):
        out += int_terms(v.r) + int_terms(v.c)
    elif isinstance(v, Enum):
        for xs in v.pay.values():
            for x in xs:
                out += int_terms(x, depth + 1)
    return out


def shape_builder(eng, v, nm, dims, st):
    """builder of values shaped like v"""
    if isz(v):
        return eng.leaf(nm, v.sort(), dims)
    if isinstance(v, Agg):
        bs = [shape_builder(eng, x, '%s.%d' % (nm, i), dims, st) for i, x in enumerate(v.f)]
        return lambda *ix: Agg(v.ty, [b(*ix) for b in bs])
    if isinstance(v, Ref):
        b = shape_builder(eng, v.v, nm, dims, st)
        return lambda *ix: Ref(b(*ix))
    if isinstance(v, BoxV):
        b = shape_builder(eng, v.v, nm, dims, st)
        return lambda *ix: BoxV(b(*ix))
    if isinstance(v, Seq):
        n = eng.leaf(nm + '.len', IntS, dims)
        eng.fact(st, dims, lambda *ix: n(*ix) >= 0)
        b = shape_builder(eng, v.at(fint('hs')), nm + '.e', dims + 1, st)
        return lambda *ix: Seq(n(*ix), lambda i: b(*ix, i))
    if isinstance(v, Vect):
        b = shape_builder(eng, v.s, nm, dims, st)
        return lambda *ix: Vect(b(*ix))
    if isinstance(v, Mat):
        r, c = eng.leaf(nm + '.r', IntS, dims), eng.leaf(nm + '.c', IntS, dims)
        eng.fact(st, dims, lambda *ix: z3.And(r(*ix) >= 0, c(*ix) >= 0))
        b = shape_builder(eng, v.at(fint('hi'), fint('hj')), nm + '.e', dims + 2, st)
        return lambda *ix: Mat(r(*ix), c(*ix), lambda i, j: b(*ix, i, j), v.kind)
    if isinstance(v, Enum):
        d = eng.leaf(nm + '.d', IntS, dims)
        pb = {q: [shape_builder(eng, x, '%s.%d.%d' % (nm, q, i), dims, st) for i, x in enumerate(xs)] for q, xs in v.pay.items()}
        return lambda *ix: Enum(v.ty, d(*ix), {q: tuple(b(*ix) for b in bs) for q, bs in pb.items()})
    if isinstance(v, Uninit):
        f = eng.leaf(nm, PV_opaque('uninit'), dims)
        return f
    raise Unsupported('shape of %s' % type(v).__name__)


def map_like(eng, v, nm, st):
    h = z3.Function('%s.has!%d' % (nm, next(PV._cnt)), IntS, BoolS)
    x = v.get(fint('hs'))
    if isinstance(x, Uninit) and v.valty is not None:
        b = eng.builder(v.valty, nm + '.v', 1, st)
    else:
        b = shape_builder(eng, x, nm + '.v', 1, st)
    return MapV(v.kind, lambda y: h(y), lambda y: b(y), v.valty)


def PV_opaque(n):
    from .sym import opaque_sort
    return opaque_sort(n)
