"""Symbolic execution of MIR against contracts: all paths, loops by inductive invariants."""
import itertools
import re
from fractions import Fraction
import z3
from . import mir as M
from .mir import Unsupported, parse_stmt, parse_type, ty_str, subst_ty, unify, split_top
from .vals import *
from . import prove as PV
from .prove import All, Conj, conj, disj, fint, iv, fresh, Prover, IntS, RealS, BoolS

USZ = (1 << 64) - 1
LENMAX = (1 << 63) - 1


class State:
    __slots__ = ('cells', 'hyps', 'br', 'draws', 'ghost', 'written', 'trace')

    def __init__(self):
        self.cells = {}
        self.hyps = []       # everything assumed on this path
        self.br = []         # branch conditions only
        self.draws = []
        self.ghost = {}
        self.written = None
        self.trace = []

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.hyps = list(self.hyps)
        s.br = list(self.br)
        s.draws = list(self.draws)
        s.ghost = dict(self.ghost)
        s.written = self.written
        s.trace = list(self.trace)
        return s

    def assume(self, f):
        if isinstance(f, z3.ExprRef):
            if z3.is_true(f):
                return
        self.hyps.append(f)

    def branch(self, c):
        if z3.is_true(c):
            return
        self.hyps.append(c)
        self.br.append(c)


class Frame:
    __slots__ = ('fn', 'env', 'loc', 'id', 'depth')
    ids = itertools.count()

    def __init__(self, fn, env, depth):
        self.fn, self.env, self.depth = fn, env, depth
        self.id = next(Frame.ids)
        self.loc = {}


class Obl:
    __slots__ = ('name', 'kind', 'status', 'info', 'where', 'goal')

    def __init__(self, name, kind, status, info, where, goal=None):
        self.name, self.kind, self.status, self.info, self.where, self.goal = name, kind, status, info, where, goal


class LoopRec:
    """the generic iteration of one loop, kept for relational lemmas"""
    pass


_sorts = {}


def opaque_sort(name):
    k = re.sub(r'[^A-Za-z0-9_]', '_', name)[:60]
    s = _sorts.get(k)
    if s is None:
        s = z3.DeclareSort('S_' + k)
        _sorts[k] = s
    return s


def strip_gen(p):
    """remove ::<...> groups"""
    out, i = '', 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            i = M.match_close(p, i + 2) + 1
            continue
        out += p[i]
        i += 1
    return out


class CallInfo:
    __slots__ = ('text', 'self', 'trait', 'method', 'gen', 'prefix', 'fr', 'dest', 'argtys')


def parse_fname(text):
    c = CallInfo()
    c.text = text
    c.self = c.trait = c.prefix = None
    c.gen = []
    t = text
    if t.endswith('>'):
        # trailing generics of the method
        depth = 0
        for i in range(len(t) - 1, -1, -1):
            if t[i] == '>' and t[i - 1] not in '-=':
                depth += 1
            elif t[i] == '<':
                depth -= 1
                if depth == 0:
                    break
        if t[:i].endswith('::') and not t[i:].startswith('<impl'):
            c.gen = split_top(t[i + 1:-1])
            t = t[:i - 2]
    if t.startswith('<'):
        e = M.match_close(t, 0)
        inner = t[1:e]
        rest = t[e + 1:]
        k = find_as(inner)
        if k is not None:
            c.self, c.trait = inner[:k], inner[k + 4:]
        else:
            c.self = inner
        c.method = rest[2:]
        c.prefix = None
    else:
        parts = split_top(t, '::')
        c.method = parts[-1]
        c.prefix = '::'.join(parts[:-1])
    return c


def find_as(s):
    depth = 0
    for i, ch in enumerate(s):
        if ch in '<([{':
            depth += 1
        elif ch in ')]}' or (ch == '>' and s[i - 1] not in '-='):
            depth -= 1
        elif depth == 0 and s.startswith(' as ', i):
            return i
    return None


class Engine:
    def __init__(self, fns, src, lib, timeout_ms=4000):
        self.fns = fns
        self.src = src
        self.lib = lib
        M.PROJ[0] = src.assoc
        lib.eng = self
        self.pv = Prover(timeout_ms)
        self.obls = []
        self.dry = 0
        self.scan = False
        self.loopstack = []         # loops whose body is being run, outermost first
        self.pure = 0
        self.cellid = itertools.count()
        self.tname = 'top'
        self.allow_panic = None       # z3 Bool or None
        self.loops = []               # LoopRecs of committed loops
        self.templates = []           # functions(ctx) -> [(name, fn(view)->prop)]
        self.contracts = {}           # fn name -> contract used at call sites
        self.replace = {}            # method name -> handler used instead of any body (callee's contract)
        self.overrides = {}           # method name -> handler(eng, st, fr, info, args) (uninterpreted trait methods)
        self.inlined = set()
        self.assumed = set()
        self.inst_hints = []
        self.views = {}              # sort name -> fn(state, value): the enum it stands for
        self.viewsorts = {}          # type name -> sort its values have in this contract
        self.celltype = {}
        self.index()
        self.maxpaths = 4000
        self.npaths = 0
        self.invlog = []
        self.panicinfo = []

    # -------------------------------------------------------------- program index
    def index(self):
        self.closures = {}
        self.inherent = {}
        self.traitm = {}
        self.free = {}
        for name, l in self.fns.items():
            for f in l:
                if f.is_const:
                    continue
                if '{closure#' in name.split('::')[-1] and f.args:
                    t = f.args[0][1]
                    while t[0] == 'ref':
                        t = t[2]
                    if t[0] == 'closure':
                        self.closures[t[1]] = f
                    continue
                m = re.match(r'^(.*)::<impl at ([^>]*)>::(\w+)$', name)
                if m:
                    try:
                        params, trait, selfty = self.src.impl_header(m.group(2))
                    except Unsupported:
                        continue
                    rec = (f, params, selfty, trait)
                    if trait is None:
                        self.inherent.setdefault(m.group(3), []).append(rec)
                    else:
                        self.traitm.setdefault((last(trait[0] if isinstance(trait, tuple) else trait), m.group(3)), []).append(rec)
                else:
                    self.free[name] = f

    def fn(self, name):
        l = self.fns.get(name)
        if not l:
            raise Unsupported('no function ' + name)
        return l[0]

    def find_method(self, selfname, method, trait=None):
        """function by simple self type name (anchor lookup, robust to moved lines)"""
        out = []

        def same(path):
            return path == selfname or path.endswith('::' + selfname)
        if trait is None:
            for f, params, sty, _ in self.inherent.get(method, []):
                if sty[0] == 'adt' and same(sty[1]):
                    out.append(f)
        else:
            for f, params, sty, tr in self.traitm.get((trait, method), []):
                if sty[0] == 'adt' and same(sty[1]):
                    out.append(f)
        return out

    # -------------------------------------------------------------- types
    def lty(self, fr, l):
        t = fr.fn.locals.get(l)
        return self.norm(subst_ty(t, fr.env)) if t is not None else ('opaque', '?')

    def norm(self, t):
        if t[0] == 'proj':
            # <T as Trait>::Name
            return ('proj', t[1])
        return t

    def sort_of(self, t, env=None):
        k = t[0]
        if k == 'int' or k == 'char':
            return IntS
        if k == 'float':
            return RealS
        if k == 'bool':
            return BoolS
        if k in ('param', 'proj', 'opaque', 'dyn', 'fndef', 'str'):
            return opaque_sort(t[1] if len(t) > 1 else k)
        return None

    def fresh(self, ty, name, st=None, dims=0, env=None):
        """symbolic value of a type (dims=0) or builder of index terms; range facts go to st"""
        b = self.builder(ty, name, dims, st)
        return b() if dims == 0 else b

    def leaf(self, name, sort, dims):
        nm = '%s!%d' % (name, next(PV._cnt))
        if dims == 0:
            c = z3.Const(nm, sort)
            return lambda *ix: c
        f = z3.Function(nm, *([IntS] * dims + [sort]))
        return lambda *ix: f(*ix)

    def fact(self, st, dims, fn):
        if st is None:
            return
        if dims == 0:
            st.assume(fn())
        else:
            st.assume(All(dims, fn))

    def builder(self, ty, name, dims, st):
        k = ty[0]
        if k == 'int':
            f = self.leaf(name, IntS, dims)
            t = ty[1]
            if t.startswith('u'):
                self.fact(st, dims, lambda *ix: z3.And(f(*ix) >= 0, f(*ix) <= USZ) if t in ('usize', 'u64') else f(*ix) >= 0)
            return f
        s = self.sort_of(ty)
        if s is not None:
            return self.leaf(name, s, dims)
        if k == 'ref':
            b = self.builder(ty[2], name, dims, st)
            if ty[1]:
                if dims:
                    raise Unsupported('nested &mut')

                def mk(*ix):
                    c = self.newcell(st, b(*ix))
                    self.celltype[c] = ty[2]
                    return Ptr(c)
                return mk
            return lambda *ix: Ref(b(*ix))
        if k in ('slice', 'array'):
            return self.seq_builder(ty[1], name, dims, st, None if k == 'slice' else ty[2])
        if k == 'tuple':
            bs = [self.builder(x, '%s.%d' % (name, i), dims, st) for i, x in enumerate(ty[1])]
            return lambda *ix: Agg('()', [b(*ix) for b in bs])
        if k == 'never':
            return lambda *ix: UNIT
        if k == 'adt' and ty[1].split('::')[-1] in self.viewsorts:
            return self.leaf(name, self.viewsorts[ty[1].split('::')[-1]], dims)
        if k == 'adt':
            p = last(ty[1])
            if p == 'Vec' or p == 'VecDeque':
                return self.seq_builder(ty[2][0], name, dims, st, None)
            if p == 'Box':
                b = self.builder(ty[2][0], name, dims, st)
                return lambda *ix: BoxV(b(*ix))
            if p == 'Vector':
                b = self.seq_builder(ty[2][0], name, dims, st, None)
                return lambda *ix: Vect(b(*ix))
            if p in ('Matrix', 'MatrixSlice', 'MatrixSliceMut'):
                r = self.leaf(name + '.rows', IntS, dims)
                c = self.leaf(name + '.cols', IntS, dims)
                self.fact(st, dims, lambda *ix: z3.And(r(*ix) >= 0, c(*ix) >= 0, r(*ix) <= LENMAX, c(*ix) <= LENMAX))
                el = self.builder(ty[2][0], name + '.e', dims + 2, st)
                return lambda *ix: Mat(r(*ix), c(*ix), lambda i, j: el(*ix, i, j), p)
            if p == 'Option':
                d = self.leaf(name + '.d', IntS, dims)
                self.fact(st, dims, lambda *ix: z3.And(d(*ix) >= 0, d(*ix) <= 1))
                b = self.builder(ty[2][0], name + '.some', dims, st)
                return lambda *ix: Enum('Option', d(*ix), {0: (), 1: (b(*ix),)})
            if p == 'Result':
                d = self.leaf(name + '.d', IntS, dims)
                self.fact(st, dims, lambda *ix: z3.And(d(*ix) >= 0, d(*ix) <= 1))
                b0 = self.builder(ty[2][0], name + '.ok', dims, st)
                b1 = self.builder(ty[2][1] if len(ty[2]) > 1 else ('opaque', 'Error'), name + '.err', dims, st)
                return lambda *ix: Enum('Result', d(*ix), {0: (b0(*ix),), 1: (b1(*ix),)})
            if p == 'Range':
                bs = [self.builder(ty[2][0], name + x, dims, st) for x in ('.start', '.end')]
                return lambda *ix: Agg('Range', [b(*ix) for b in bs])
            if p == 'PhantomData':
                return lambda *ix: Agg('PhantomData', ())
            d = self.src.defs.get(ty[1])
            if d is None:
                cands = [x for n, x in self.src.defs.items() if last(n) == p]
                d = cands[0] if len(cands) == 1 else None
            if d is not None and not (p in ('Error', 'ErrorKind')):
                env = dict(zip(d.params, ty[2]))
                if d.kind == 'struct':
                    bs = [self.builder(subst_ty(t, env), '%s.%s' % (name, d.names[i] if d.names else i), dims, st) for i, t in enumerate(d.fields)]
                    return lambda *ix: Agg(p, [b(*ix) for b in bs])
                if d.kind == 'enum':
                    dd = self.leaf(name + '.d', IntS, dims)
                    nv = len(d.variants)
                    self.fact(st, dims, lambda *ix: z3.And(dd(*ix) >= 0, dd(*ix) < nv))
                    pb = {}
                    for vi, (vn, vf) in enumerate(norm_variants(d)):
                        pb[vi] = [self.builder(subst_ty(t, env), '%s.%s%d' % (name, vn, i), dims, st) for i, t in enumerate(vf)]
                    return lambda *ix: Enum(p, dd(*ix), {vi: tuple(b(*ix) for b in bs) for vi, bs in pb.items()})
            f = self.leaf(name, opaque_sort(ty_str(ty)), dims)
            return f
        f = self.leaf(name, opaque_sort(ty_str(ty)), dims)
        return f

    def seq_builder(self, el, name, dims, st, fixed):
        if fixed is not None and re.match(r'^\d+$', str(fixed)):
            n = lambda *ix: iv(int(fixed))
        else:
            n = self.leaf(name + '.len', IntS, dims)
            self.fact(st, dims, lambda *ix: z3.And(n(*ix) >= 0, n(*ix) <= LENMAX))
        b = self.builder(el, name + '.e', dims + 1, st)
        return lambda *ix: Seq(n(*ix), lambda i: b(*ix, i), elty=el)

    def newcell(self, st, v):
        c = next(self.cellid)
        st.cells[c] = v
        return c

    # -------------------------------------------------------------- obligations
    def require(self, st, cond, kind, name, where=''):
        """cond must hold on this path; assumed afterwards"""
        if self.dry:
            st.assume(cond)
            return True
        if isinstance(cond, z3.ExprRef):
            c = z3.simplify(cond)
            if z3.is_true(c):
                return True
        if self.allow_panic is not None and kind in ('panic', 'bounds', 'overflow') and not self.pure:
            goal = z3.Or(cond, self.allow_panic) if isinstance(cond, z3.ExprRef) else cond
        else:
            goal = cond
        r, info = self.pv.prove(st.hyps, goal, self.inst_hints)
        self.obls.append(Obl('%s/%s' % (self.tname, name), kind, r, info, where, goal))
        st.assume(cond)
        return r == 'proved'

    def panic(self, st, msg, where):
        if self.dry:
            return
        goal = self.allow_panic if (self.allow_panic is not None and not self.pure) else z3.BoolVal(False)
        r, info = self.pv.prove(st.hyps, goal, self.inst_hints)
        self.obls.append(Obl('%s/no-panic: %s' % (self.tname, msg[:60]), 'panic', r, info, where, goal))

    # -------------------------------------------------------------- places
    def resolve(self, fr, st, place):
        """-> ('c', cell, path) or ('v', value)"""
        loc, projs = place
        cid = fr.loc.get(loc)
        if cid is None:
            cid = next(self.cellid)
            fr.loc[loc] = cid
            self.celltype[cid] = None
        cur = ('c', cid, [])
        for pr in projs:
            k = pr[0]
            if k == 'deref':
                v = self.getcur(st, cur)
                if isinstance(v, Ptr):
                    cur = ('c', v.cell, list(v.path))
                elif isinstance(v, Ref):
                    cur = ('v', v.v)
                elif isinstance(v, BoxV):
                    if cur[0] == 'c':
                        cur = ('c', cur[1], cur[2] + [('box',)])
                    else:
                        cur = ('v', v.v)
                elif isinstance(v, RawP):
                    cur = ('v', v.seq.at(v.off)) if v.ptr is None else ('c', v.ptr.cell, list(v.ptr.path) + [('i', v.off)])
                else:
                    # transparent reference (e.g. item of an opaque sequence)
                    cur = ('v', v)
                continue
            if k == 'field':
                v0 = None
                if cur[0] == 'v':
                    cur = ('v', self.step(st, cur[1], ('f', pr[1])))
                else:
                    cur = ('c', cur[1], cur[2] + [('f', pr[1])])
                continue
            if k == 'variant':
                step = ('v', pr[1])
            elif k == 'index':
                step = ('i', self.read(fr, st, (pr[1], [])))
            elif k == 'cindex':
                v = self.getcur(st, cur)
                s = self.as_seq(v)
                step = ('i', (s.n - pr[1]) if pr[3] else iv(pr[1]))
            elif k == 'subslice':
                v = self.getcur(st, cur)
                s = self.as_seq(v)
                a, b = pr[1], pr[2]
                step = ('sub', iv(a), (s.n - a - b) if pr[3] else iv(b - a))
            else:
                raise Unsupported('projection %r' % (pr,))
            if cur[0] == 'v':
                cur = ('v', self.step(st, cur[1], step))
            else:
                cur = ('c', cur[1], cur[2] + [step])
        return cur

    def viewed(self, st, v):
        """an opaque value of a contract's own sort, seen as the enum it stands for"""
        if isz(v) and v.sort().name() in self.views:
            return self.views[v.sort().name()](st, v)
        return v

    def getcur(self, st, cur):
        if cur[0] == 'v':
            return cur[1]
        return self.getp(st, cur[1], cur[2])

    def getp(self, st, cell, path):
        if cell not in st.cells:
            return UNINIT
        v = st.cells[cell]
        for s in path:
            v = self.step(st, v, s)
        return v

    def as_seq(self, v):
        v = strip(v)
        if isinstance(v, Vect):
            return v.s
        if isinstance(v, Seq):
            return v
        raise Unsupported('not a sequence: %s' % type(v).__name__)

    def variant_index(self, v, name):
        B = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1}
        if v.ty in ('Option', 'Result', 'ControlFlow', 'Lp') and name in B:
            return B[name]
        m = re.match(r'variant#(\d+)', name)
        if m:
            return int(m.group(1))
        for n, d in self.src.defs.items():
            if d.kind == 'enum' and last(n) == v.ty:
                for i, (vn, vf) in enumerate(norm_variants(d)):
                    if vn == name:
                        return i
        raise Unsupported('variant %s of %s' % (name, v.ty))

    def step(self, st, v, s):
        k = s[0]
        if isinstance(v, Uninit):
            return UNINIT
        if k == 'f':
            if isinstance(v, Ref):
                v = v.v
            if isinstance(v, Agg):
                return v.f[s[1]]
            if isinstance(v, Clos):
                return v.caps[s[1]]
            if isinstance(v, BoxV):
                return v
            if isinstance(v, tuple):
                return v[s[1]]
            raise Unsupported('field of %s' % type(v).__name__)
        if k == 'v':
            if isinstance(v, Ref):
                v = v.v
            v = self.viewed(st, v)
            if not isinstance(v, Enum):
                raise Unsupported('downcast of %s' % type(v).__name__)
            vi = self.variant_index(v, s[1])
            p = v.pay.get(vi)
            if p is None:
                return UNINIT
            return Agg('variant', p)
        if k == 'i':
            q = self.as_seq(v)
            if q.init is not None and st is not None:
                self.require(st, q.init(s[1]), 'uninit', 'reads only written memory')
            return q.at(s[1])
        if k == 'iw':
            return self.as_seq(v).at(s[1])
        if k == 'key':
            return v.get(s[1])
        if k == 'sub':
            return self.as_seq(v).sub(s[1], s[2])
        if k == 'row':
            return strip(v).row(s[1])
        if k == 'rowm':
            m = strip(v)
            return Mat(iv(1), m.c, lambda i, j: m.at(s[1], j), 'MatrixSlice')
        if k == 'el':
            return strip(v).at(s[1], s[2])
        if k == 'vec':
            v = strip(v)
            return v.s if isinstance(v, Vect) else v
        if k == 'flat':
            return self.lib.flatten_mat(strip(v))
        if k == 'box':
            return v.v
        raise Unsupported('step %r' % (s,))

    def setp(self, st, cell, path, val):
        if st.written is not None:
            st.written.add(cell)
        if not path:
            st.cells[cell] = val
            return
        st.cells[cell] = self.upd(st, st.cells.get(cell, UNINIT), list(path), val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        s, rest = path[0], path[1:]
        k = s[0]
        if k == 'f':
            if isinstance(v, BoxV):
                return BoxV(self.upd(st, v.v, rest, val))
            if isinstance(v, Uninit):
                raise Unsupported('field write to uninitialised aggregate')
            if isinstance(v, Clos):
                c = list(v.caps)
                c[s[1]] = self.upd(st, c[s[1]], rest, val)
                return Clos(v.loc, c, v.env)
            if not isinstance(v, Agg):
                raise Unsupported('field write to %s' % type(v).__name__)
            f = list(v.f)
            f[s[1]] = self.upd(st, f[s[1]], rest, val)
            return Agg(v.ty, f)
        if k == 'v':
            vi = self.variant_index(v, s[1])
            p = self.upd(st, Agg('variant', v.pay.get(vi, ())), rest, val)
            pay = dict(v.pay)
            pay[vi] = p.f
            return Enum(v.ty, v.disc, pay)
        if k == 'box':
            return BoxV(self.upd(st, v.v, rest, val))
        if k == 'i' or k == 'iw':
            wrap = isinstance(v, Vect)
            q = self.as_seq(v)
            nv = val if not rest else self.upd(st, q.at(s[1]), rest, val)
            r = q.set(s[1], nv)
            return Vect(r) if wrap else r
        if k == 'sub':
            wrap = isinstance(v, Vect)
            q = self.as_seq(v)
            a, n = s[1], s[2]
            nv = self.as_seq(self.upd(st, q.sub(a, n), rest, val))
            init = None
            if q.init is not None:
                init = lambda i: z3.If(z3.And(i >= a, i < a + n), nv.inited(i - a), q.init(i))
            r = Seq(q.n, lambda i: itev(z3.And(i >= a, i < a + n), nv.at(i - a), q.at(i)), init, elty=q.elty)
            return Vect(r) if wrap else r
        if k == 'key':
            return v.put(s[1], val if not rest else self.upd(st, v.get(s[1]), rest, val))
        if k == 'vec':
            if isinstance(v, Vect):
                return Vect(self.as_seq(self.upd(st, v.s, rest, val)))
            return self.upd(st, v, rest, val)
        if k == 'row':
            nv = self.as_seq(self.upd(st, v.row(s[1]), rest, val))
            i0 = s[1]
            return Mat(v.r, v.c, lambda i, j: itev(i == i0, nv.at(j), v.at(i, j)), v.kind)
        if k == 'rowm':
            i0 = s[1]
            nv = self.upd(st, self.step(st, v, s), rest, val)
            return Mat(v.r, v.c, lambda i, j: itev(i == i0, nv.at(iv(0), j), v.at(i, j)), v.kind)
        if k == 'el':
            i0, j0 = s[1], s[2]
            nv = val if not rest else self.upd(st, v.at(i0, j0), rest, val)
            return Mat(v.r, v.c, lambda i, j: itev(z3.And(i == i0, j == j0), nv, v.at(i, j)), v.kind)
        if k == 'flat':
            q = self.lib.flatten_mat(v)
            nq = self.as_seq(self.upd(st, q, rest, val))
            return self.lib.unflatten(v.r, v.c, nq, v.kind)
        raise Unsupported('write through %r' % (s,))

    def read(self, fr, st, place):
        cur = self.resolve(fr, st, place)
        v = self.getcur(st, cur)
        return v

    def write(self, fr, st, place, val):
        cur = self.resolve(fr, st, place)
        if cur[0] == 'v':
            raise Unsupported('write through a shared reference')
        self.setp(st, cur[1], cur[2], val)

    # -------------------------------------------------------------- operands
    def zst(self, fr, place):
        """values without content are never written"""
        if place[1]:
            return None
        t = self.lty(fr, place[0])
        if t in (('tuple', ()), ('tuple', [])):
            return UNIT
        if t and t[0] == 'closure':
            return Clos(t[1], (), fr.env)
        return None

    def operand(self, fr, st, op):
        if op[0] == 'place':
            v = self.read(fr, st, op[1])
            if isinstance(v, Uninit):
                z = self.zst(fr, op[1])
                if z is not None:
                    return z
            return v
        return self.const(fr, st, op[1])

    def const(self, fr, st, t):
        m = re.match(r'^(-?\d+)_([iu]\w+)$', t)
        if m:
            return iv(int(m.group(1)))
        m = re.match(r'^(-?[\d.]+(?:[eE][+-]?\d+)?)_?f(64|32)$', t)
        if m:
            return self.floatc(m.group(1))
        if t in ('true', 'false'):
            return z3.BoolVal(t == 'true')
        if t == '()':
            return UNIT
        if t.startswith('"') or t.startswith("b\"") or t.startswith("'"):
            return Ref(z3.Const('str_' + str(abs(hash(t)) % 10**9), opaque_sort('str')))
        if t.startswith('ZeroSized: '):
            t = t[11:]
            if t.startswith('{closure@'):
                return Clos(t, (), fr.env)
        if t.startswith('{closure@'):
            return Clos(t, (), fr.env)
        m = re.match(r'^(.*)::promoted\[(\d+)\]$', t)
        if m:
            nm = fr.fn.name
            f = self.fns.get('%s::promoted[%s]' % (nm, m.group(2)))
            if not f and '::{closure#' in nm:
                f = self.fns.get('%s::promoted[%s]' % (nm.split('::{closure#')[0], m.group(2)))
            if not f:
                f = self.fns.get('%s::promoted[%s]' % (m.group(1), m.group(2))) or self.fns.get('%s::promoted[%s]' % (strip_gen(m.group(1)), m.group(2)))
            if not f:
                raise Unsupported('promoted ' + t)
            return self.run_const(f[0], fr, st)
        K = {'std::f64::MAX': None, 'std::f64::consts::PI': PV.PI, 'std::f64::MIN_POSITIVE': None}
        if t in ('std::f64::MAX', 'core::f64::MAX', 'f64::MAX', 'std::f64::<impl f64>::MAX', 'core::f64::<impl f64>::MAX'):
            return self.lib.FMAX
        if t in ('std::f64::MIN', 'std::f64::<impl f64>::MIN', 'core::f64::<impl f64>::MIN'):
            return -self.lib.FMAX
        if t in ('std::f64::MIN_POSITIVE', 'std::f64::<impl f64>::MIN_POSITIVE', 'core::f64::<impl f64>::MIN_POSITIVE'):
            return self.lib.FTINY
        if t in ('std::f64::INFINITY', 'std::f64::<impl f64>::INFINITY', 'core::f64::<impl f64>::INFINITY'):
            return self.lib.FINF
        m = re.match(r'^(?:std|core)::(?:usize|u64)::(?:<impl (?:usize|u64)>::)?MAX$', t)
        if m:
            return iv(USZ)
        m = re.match(r'^(?:std|core)::f64::consts::(\w+)$', t)
        if m:
            import math
            C = {'PI': math.pi, 'E': math.e, 'FRAC_2_PI': 2 / math.pi, 'FRAC_1_PI': 1 / math.pi, 'LN_2': math.log(2), 'SQRT_2': math.sqrt(2),
                 'FRAC_PI_2': math.pi / 2, 'FRAC_1_SQRT_2': math.sqrt(0.5), 'LN_10': math.log(10), 'FRAC_2_SQRT_PI': 2 / math.sqrt(math.pi), 'FRAC_PI_4': math.pi / 4,
                 'FRAC_PI_3': math.pi / 3, 'TAU': 2 * math.pi}
            if m.group(1) in C:
                return self.floatc(repr(C[m.group(1)]))
        f = self.fns.get(t)
        if f and f[0].is_const:
            return self.run_const(f[0], fr, st)
        if t == 'std::ops::RangeFull':
            return Agg('RangeFull', ())
        m = re.match(r'^(.*?)(?: \{\{.*\}\}| \{.*\})?$', t)
        base = m.group(1)
        en = self.enum_variant(base)
        if en is not None:
            return Enum(en[0], en[1], {en[1]: ()})
        d = self.src.defs.get(strip_gen(base))
        if d is not None and d.kind == 'struct' and not d.fields:
            return Agg(last(strip_gen(base)), ())
        if base in ('rand::ThreadRng',):
            return Agg('ThreadRng', ())
        if re.search(r'rulinalg::norm::Euclidean$', base):
            return Agg('Euclidean', ())
        if re.search(r'PhantomData', base):
            return Agg('PhantomData', ())
        # function item
        return FnV(t, fr.env)

    def floatc(self, txt):
        x = float(txt)
        digits = len(re.sub(r'[-.]|[eE].*', '', repr(x)).strip('0'))
        if digits >= 10:
            for v, e in PV.NAMED:
                if v != 0 and abs(abs(x) - v) <= 4e-16 * v:
                    return e if x > 0 else -e
        fr = Fraction(repr(x))
        return z3.RealVal(fr.numerator) / z3.RealVal(fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)

    def run_const(self, f, fr, st):
        if getattr(f, 'lit', None) is not None:
            return self.const(fr, st, f.lit)
        M.ensure_parsed(f)
        g = Frame(f, fr.env, fr.depth + 1)
        outs = self.run(g, 0, st.copy())
        rets = [o for o in outs if o[0] == 'ret']
        if len(rets) != 1:
            raise Unsupported('constant with %d paths' % len(rets))
        for c, v in rets[0][1].cells.items():
            if c not in st.cells:
                st.cells[c] = v
        return rets[0][2]

    # -------------------------------------------------------------- rvalues
    def tovar(self, v):
        v = strip(v)
        return v

    def num(self, v):
        v = strip(v)
        if not isz(v):
            raise Unsupported('scalar expected, got %s' % type(v).__name__)
        return v

    def enum_variant(self, path):
        p = strip_gen(path)
        B = {'Some': ('Option', 1), 'None': ('Option', 0), 'Ok': ('Result', 0), 'Err': ('Result', 1), 'Continue': ('ControlFlow', 0), 'Break': ('ControlFlow', 1),
             'Less': ('Ordering', -1), 'Equal': ('Ordering', 0), 'Greater': ('Ordering', 1),
             'Infinity': ('Lp', 0), 'Integer': ('Lp', 1), 'Float': ('Lp', 2), 'Row': ('Axes', 0), 'Col': ('Axes', 1)}
        seg = p.split('::')
        if len(seg) >= 2 and seg[-1] in B and B[seg[-1]][0] == seg[-2]:
            return B[seg[-1]]
        en = '::'.join(seg[:-1])
        d = self.src.defs.get(en)
        if d is not None and d.kind == 'enum':
            for i, (vn, vf) in enumerate(norm_variants(d)):
                if vn == seg[-1]:
                    return (seg[-2], i)
        return None

    def rvalue(self, fr, st, rv, destty):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k == 'ref':
            if rv[1]:
                cur = self.resolve(fr, st, rv[2])
                if cur[0] == 'v':
                    raise Unsupported('&mut of a shared value')
                return Ptr(cur[1], [('iw', s[1]) if s[0] == 'i' else s for s in cur[2]])
            cur = self.resolve(fr, st, rv[2])
            v = self.getcur(st, cur)
            if isinstance(v, Uninit):
                v = self.zst(fr, rv[2])
                if v is None:
                    raise Unsupported('borrow of uninitialised place')
            return Ref(v)
        if k == 'rawref':
            cur = self.resolve(fr, st, rv[2])
            if cur[0] == 'v':
                return Ref(cur[1])
            return Ptr(cur[1], cur[2])
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3]), destty)
        if k == 'un':
            v = self.operand(fr, st, rv[2])
            if rv[1] == 'PtrMetadata':
                if isinstance(v, Ptr):
                    v = self.getp(st, v.cell, v.path)
                return self.as_seq(v).n
            v = self.num(v)
            if rv[1] == 'Not':
                if v.sort() != BoolS:
                    raise Unsupported('bitwise not')
                return z3.Not(v)
            return -v
        if k == 'len':
            return self.as_seq(self.read(fr, st, rv[1])).n
        if k == 'discr':
            v = strip(self.read(fr, st, rv[1]))
            if isinstance(v, Ptr):
                v = self.getp(st, v.cell, v.path)
            v = self.viewed(st, v)
            if not isinstance(v, Enum):
                raise Unsupported('discriminant of %s' % type(v).__name__)
            return zi(v.disc)
        if k == 'cast':
            op = rv[1]
            v = self.operand(fr, st, op)
            kind = rv[3]
            if kind == 'IntToFloat':
                return z3.ToReal(self.num(v))
            if kind == 'FloatToInt':
                x = self.num(v)
                r = fint('trunc')
                st.assume(z3.Implies(x >= 0, z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1)))
                st.assume(z3.Implies(x < 0, r == 0 if rv[2][1].startswith('u') else z3.And(z3.ToReal(r) >= x, x > z3.ToReal(r) - 1)))
                return r
            if kind.startswith('IntToInt'):
                if isz(v) and v.sort() == BoolS:
                    return z3.If(v, iv(1), iv(0))
                return v
            if kind == 'BoxDerefTransmute' or (kind.startswith('Transmute') and isinstance(v, BoxV)):
                # pointer to the inside of the box
                if op[0] == 'place':
                    cur = self.resolve(fr, st, op[1])
                    if cur[0] == 'c':
                        path = list(cur[2])
                        while path and path[-1][0] == 'f' and isinstance(self.getp(st, cur[1], path[:-1]), BoxV):
                            path.pop()
                        return Ptr(cur[1], path + [('box',)])
                    return Ref(v.v)
            return v
        if k == 'tuple':
            return Agg('()', [self.operand(fr, st, o) for o in rv[1]])
        if k == 'array':
            return self.seq_of([self.operand(fr, st, o) for o in rv[1]], destty)
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            n = rv[2].replace('const ', '')
            m = re.match(r'^(\d+)(_usize)?$', n)
            if not m:
                raise Unsupported('repeat ' + n)
            return Seq(iv(int(m.group(1))), lambda i: v)
        if k == 'closure':
            return Clos(rv[1], [self.operand(fr, st, o) for o in rv[2]], fr.env)
        if k == 'agg':
            en = self.enum_variant(rv[1])
            vals = [self.operand(fr, st, o) for o in rv[2]]
            if en is not None:
                return Enum(en[0], en[1], {en[1]: tuple(vals)})
            p = strip_gen(rv[1])
            if not vals and (p in self.free or rv[1].startswith('<')):
                return FnV(rv[1], fr.env)
            return Agg(last(p), vals)
        raise Unsupported('rvalue ' + k)

    def seq_of(self, vals, ty=None):
        n = len(vals)

        def at(i):
            s = z3.simplify(i)
            if z3.is_int_value(s):
                j = s.as_long()
                return vals[j] if 0 <= j < n else (vals[0] if vals else UNINIT)
            if not vals:
                raise Unsupported('item of an empty array')
            r = vals[-1]
            for j in range(n - 2, -1, -1):
                r = itev(i == j, vals[j], r)
            return r
        return Seq(iv(n), at)

    def binop(self, st, op, a, b, destty):
        a, b = strip(a), strip(b)
        if isinstance(a, Enum) and isinstance(b, Enum) and op in ('Eq', 'Ne'):
            e = eqv(a, b)
            return e if op == 'Eq' else z3.Not(e)
        a, b = self.num(a), self.num(b)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r = {'A': lambda: a + b, 'S': lambda: a - b, 'M': lambda: a * b}[op[0]]()
            ty = destty[1][0][1] if destty[0] == 'tuple' else 'usize'
            if ty.startswith('u') and op[0] == 'S':
                ov = r < 0
            else:
                ov = z3.BoolVal(False)        # assumption: counters and sizes stay far below 2^63
                self.assumed.add('integer + and * do not overflow (lengths and counters far below 2^63)')
            return Agg('()', [r, ov])
        if op in ('Add', 'AddUnchecked'):
            return a + b
        if op in ('Sub', 'SubUnchecked'):
            return a - b
        if op in ('Mul', 'MulUnchecked'):
            return a * b
        if op == 'Div':
            if a.sort() == IntS:
                return z3.If(z3.And(a >= 0, b > 0), a / b, PV.f_idiv(a, b)) if False else a / b
            return a / b
        if op == 'Rem':
            if a.sort() == IntS:
                return a % b
            raise Unsupported('float remainder')
        if a.sort() == BoolS:
            if op in ('BitAnd',):
                return z3.And(a, b)
            if op in ('BitOr',):
                return z3.Or(a, b)
            if op == 'BitXor':
                return z3.Xor(a, b)
            if op == 'Eq':
                return a == b
            if op == 'Ne':
                return a != b
        if a.sort() != b.sort():
            raise Unsupported('binop %s on %s,%s' % (op, a.sort(), b.sort()))
        C = {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}
        if op in C:
            if a.sort() == IntS or a.sort() == RealS or op in ('Eq', 'Ne'):
                return C[op]()
        if op == 'BitAnd' and a.sort() == IntS and z3.is_int_value(a):
            a, b = b, a
        if op == 'BitAnd' and a.sort() == IntS and z3.is_int_value(b) and b.as_long() >= 0 and b.as_long() & (b.as_long() + 1) == 0:
            return a % iv(b.as_long() + 1)
        if op == 'Shr' and a.sort() == IntS and z3.is_int_value(b):
            return a / iv(1 << b.as_long())
        if op == 'Shl' and a.sort() == IntS and z3.is_int_value(b):
            return a * iv(1 << b.as_long())
        raise Unsupported('binop %s on %s' % (op, a.sort()))

    # -------------------------------------------------------------- execution
    def run(self, fr, bb, st, loop=None):
        """-> list of ('ret', st, val) | ('back', st) | ('exit', st, bb)"""
        M.ensure_parsed(fr.fn)
        out = []
        work = [(bb, st, True)]
        lps = M.loops(fr.fn)
        while work:
            bb, st, first = work.pop()
            if loop is not None and not first:
                if bb == loop[0]:
                    out.append(('back', st)); continue
            if loop is not None and bb not in loop[1]:
                out.append(('exit', st, bb)); continue
            if bb in lps and not (loop is not None and bb == loop[0]):
                for o in self.do_loop(fr, bb, lps[bb], st):
                    if o[0] == 'exit':
                        work.append((o[2], o[1], False))
                    else:
                        out.append(o)
                continue
            for nb, s2, rv in self.exec_bb(fr, bb, st):
                if nb is None:
                    out.append(('ret', s2, rv))
                else:
                    work.append((nb, s2, False))
            self.npaths += 1
            if self.npaths > self.maxpaths * 50:
                raise Unsupported('too many paths')
        return out

    def exec_bb(self, fr, bb, st):
        """-> list of (next bb | None for return, state, value)"""
        cur = [st]
        sts = fr.fn.blocks[bb]
        for idx, text in enumerate(sts):
            s = parse_stmt(text)
            k = s[0]
            if k == 'nop':
                continue
            nxt = []
            for st in cur:
                if k == 'assign':
                    dty = self.place_ty(fr, s[1])
                    v = self.rvalue(fr, st, s[2], dty)
                    self.write(fr, st, s[1], v)
                    nxt.append(st)
                elif k == 'setdiscr':
                    raise Unsupported('set discriminant')
                elif k == 'return':
                    v = st.cells.get(fr.loc.get(0), UNIT) if 0 in fr.loc else UNIT
                    return_l = (None, st, v)
                    nxt.append(return_l)
                elif k == 'goto':
                    nxt.append((s[1], st, None))
                elif k == 'drop':
                    cu = self.resolve(fr, st, s[1])
                    if cu[0] == 'c' and any(p[0] in ('i', 'iw') for p in cu[2]):
                        self.getp(st, cu[1], [('i',) + tuple(p[1:]) if p[0] == 'iw' else p for p in cu[2]])
                    nxt.append((s[2], st, None))
                elif k == 'unreachable':
                    self.require(st, z3.BoolVal(False), 'unreachable', 'unreachable code is not reached', fr.fn.name)
                elif k == 'assert':
                    c = self.num(self.operand(fr, st, s[1]))
                    if not s[2]:
                        c = z3.Not(c)
                    kind = 'overflow' if 'overflow' in s[3] else 'bounds' if 'out of bounds' in s[3] else 'panic'
                    self.require(st, c, kind, 'no-panic: ' + s[3].strip('"')[:50], fr.fn.name)
                    if self.pv.feasible(st.hyps, z3.BoolVal(True)) or True:
                        nxt.append((s[4], st, None))
                elif k == 'switch':
                    v = strip(self.operand(fr, st, s[1]))
                    nxt += self.switch(st, v, s[2])
                elif k == 'call':
                    for s2, val in self.call(fr, st, s[1], s[2], s[3], s[4]):
                        if s[4] is None:
                            continue
                        self.write(fr, s2, s[1], val)
                        nxt.append((s[4], s2, None))
                else:
                    raise Unsupported('terminator ' + k)
            cur = nxt
            if k in ('return', 'goto', 'drop', 'unreachable', 'assert', 'switch', 'call'):
                return cur
        raise Unsupported('block without terminator')

    def switch(self, st, v, targets):
        out = []
        if isinstance(v, int):
            v = iv(v)
        v = z3.simplify(v)
        neg = []
        for key, bb in targets.items():
            if key == 'otherwise':
                c = conj([z3.Not(x) for x in neg])
            elif v.sort() == BoolS:
                c = z3.Not(v) if key in ('0', 'false') else v
                neg.append(c)
            else:
                kk = int(re.match(r'-?\d+', key).group(0))
                if kk > (1 << 63):
                    kk -= (1 << 64)
                c = v == kk
                neg.append(c)
            c = z3.simplify(c)
            if z3.is_false(c):
                continue
            if not z3.is_true(c) and not self.pv.feasible(st.hyps, c):
                continue
            s2 = st.copy()
            s2.branch(c)
            out.append((bb, s2, None))
        return out

    def place_ty(self, fr, place):
        t = self.lty(fr, place[0])
        for p in place[1]:
            if p[0] == 'field':
                t = subst_ty(p[2], fr.env)
            elif p[0] == 'deref':
                t = t[2] if t[0] in ('ref', 'ptr') else (t[2][0] if t[0] == 'adt' and t[2] else t)
            elif p[0] in ('index', 'cindex'):
                t = t[1] if t[0] in ('slice', 'array') else t
        return t

    # -------------------------------------------------------------- calls
    def op_ty(self, fr, op):
        if op[0] == 'place':
            return self.place_ty(fr, op[1])
        return ('opaque', op[1])

    def call(self, fr, st, dest, ftext, ops, ret):
        """-> list of (state, value)"""
        # locals are restored on call exit; arguments are evaluated left to right
        args = [self.operand(fr, st, o) for o in ops]
        if re.match(r'^(copy|move) ', ftext) or ftext.startswith('_'):
            f = self.operand(fr, st, M.parse_operand(ftext if ftext[0] != '_' else 'copy ' + ftext))
            return self.call_value(st, f, args, fr)
        info = parse_fname(ftext)
        info.fr = fr
        info.dest = self.place_ty(fr, dest)
        info.argtys = [self.op_ty(fr, o) for o in ops]
        return self.dispatch(fr, st, info, args, ret)

    def dispatch(self, fr, st, info, args, ret):
        if ret is None and self.lib.is_panic(info):
            self.panic(st, info.text, fr.fn.name)
            return []
        h = self.replace.get(info.method)
        if h is not None:
            r = h(self, st, fr, info, args)
            if r is not None:
                return r
        f, env = self.find_impl(fr, info, args)
        if f is not None:
            h = self.contracts.get(f.name)
            if h is not None and not (self.tname_fn == f.name):
                r = h(self, st, fr, info, args)
                if r is not None:
                    return r
            return self.call_fn(st, f, env, args, fr.depth + 1)
        h = self.overrides.get(info.method) if info.trait or True else None
        if h is not None:
            r = h(self, st, fr, info, args)
            if r is not None:
                return r
        r = self.lib.call(st, fr, info, args)
        if r is None:
            raise Unsupported('call ' + info.text[:160])
        return r

    tname_fn = None

    def type_of_text(self, fr, text):
        return subst_ty(parse_type(text), fr.env)

    def find_impl(self, fr, info, args):
        """repo function a call goes to, with the generic environment"""
        m = info.method
        if info.trait is not None:
            tr = last(re.sub(r'<.*', '', info.trait))
            sty = self.type_of_text(fr, info.self)
            while sty[0] == 'adt' and last(sty[1]) == 'Box' and (tr, m) in self.traitm:
                sty = sty[2][0]
            best = None
            for f, params, pat, trait in self.traitm.get((tr, m), []):
                env = {}
                if sty[0] in ('param', 'proj', 'opaque', 'dyn'):
                    continue
                if pat[0] == 'param':
                    # blanket impl: only when no specific impl fits
                    if best is None and self.blanket_ok(tr, sty, pat):
                        best = (f, {pat[1]: sty})
                    continue
                if not unify(pat, sty, env):
                    continue
                if isinstance(trait, tuple) and len(trait) > 1 and trait[1]:
                    targs = re.match(r'[^<]*<(.*)>$', info.trait)
                    if targs:
                        ta = [self.type_of_text(fr, x) for x in split_top(targs.group(1)) if not x.startswith("'")]
                        okk = True
                        for p, t in zip(trait[1], ta):
                            e2 = dict(env)
                            if not unify(p, t, e2) and t[0] not in ('param', 'proj'):
                                okk = False
                                break
                            env = e2
                        if not okk:
                            continue
                best = (f, env)
                break
            if best is not None:
                self.fn_generics(best[0], info, best[1], fr)
                return best
            # default method of a repo trait
            base = re.sub(r'<.*', '', info.trait)
            f = self.free.get(base + '::' + m)
            if f is not None and not self.opaque_self(sty):
                return f, {'Self': sty}
            return None, None
        if info.prefix is None:
            return None, None
        # free function
        f = self.free.get(strip_gen(info.prefix + '::' + m))
        if f is not None:
            env = {}
            self.bind_args(f, info, env)
            self.fn_generics(f, info, env, fr)
            return f, env
        # inherent method: prefix is a type path
        pt = None
        m2 = re.match(r'^(.*)::<(.*)>$', info.prefix)
        base = strip_gen(info.prefix)
        for f, params, pat, _ in self.inherent.get(m, []):
            if pat[0] == 'adt' and pat[1] == base:
                env = {}
                if m2 and M.match_close(info.prefix, len(m2.group(1)) + 2) == len(info.prefix) - 1:
                    ta = [self.type_of_text(fr, x) for x in split_top(m2.group(2)) if not x.startswith("'")]
                    ok = len(ta) == len(pat[2])
                    for p, t in zip(pat[2], ta):
                        if not unify(p, t, env):
                            ok = p[0] == 'param' and ok
                    if not ok:
                        continue
                self.fn_generics(f, info, env, fr)
                return f, env
        return None, None

    def opaque_self(self, sty):
        return sty[0] in ('proj', 'opaque', 'dyn')

    def blanket_ok(self, tr, sty, pat):
        return True

    def bind_args(self, f, info, env):
        for (l, t), at in zip(f.args, info.argtys):
            try:
                unify(t, at, env)
            except Exception:
                pass

    def fn_generics(self, f, info, env, fr):
        for (l, t), at in zip(f.args, info.argtys):
            if at[0] != 'opaque':
                e2 = dict(env)
                if unify(t, at, e2):
                    env.update(e2)

    def call_fn(self, st, f, env, args, depth):
        """inline a repo function"""
        if depth > 40:
            raise Unsupported('recursion in ' + f.name)
        M.ensure_parsed(f)
        if not self.dry:
            self.inlined.add(f.name)
        g = Frame(f, env, depth)
        for (l, t), v in zip(f.args, args):
            c = self.newcell(st, v)
            g.loc[l] = c
        outs = self.run(g, 0, st)
        res = []
        for o in outs:
            if o[0] != 'ret':
                raise Unsupported('bad outcome')
            s2 = o[1]
            res.append((s2, o[2]))
        return res

    def call_value(self, st, f, args, fr):
        f = strip(f)
        if isinstance(f, Ptr):
            p = f
            f = strip(self.getp(st, f.cell, f.path))
        if isinstance(f, Clos):
            b = self.closures.get(f.loc)
            if b is None:
                raise Unsupported('closure body ' + f.loc)
            if f.loc.startswith('{closure@/') and '/shim/' in f.loc:
                raise Unsupported('closure of a stand-in')
            M.ensure_parsed(b)
            first = b.args[0][1]
            self_v = f
            if first[0] == 'ref' and first[1]:
                # FnMut environment: captured &mut cells are pointers themselves; by-value state needs a cell
                c = self.newcell(st, f)
                self_v = Ptr(c)
            elif first[0] == 'ref':
                self_v = Ref(f)
            nargs = len(b.args) - 1
            a = list(args)
            return self.call_fn(st, b, f.env, [self_v] + a, fr.depth + 1)
        if isinstance(f, FnV):
            info = parse_fname(f.text)
            info.fr = fr
            info.dest = ('opaque', '?')
            info.argtys = [('opaque', '?')] * len(args)
            en = self.enum_variant(f.text)
            if en is not None:
                return [(st, Enum(en[0], en[1], {en[1]: tuple(args)}))]
            f2 = Frame(fr.fn, f.env, fr.depth)
            return self.dispatch(f2, st, info, args, 0)
        if isz(f):
            return self.lib.opaque_call(st, f, args, fr)
        raise Unsupported('call of %s' % type(f).__name__)

    # evaluate a side-effect free call at a symbolic point; result merged over paths
    def pure_call(self, st, thunk):
        """thunk(state) -> outcomes; -> value (merged), effects forbidden"""
        s1 = st.copy()
        s1.written = set()
        base = len(s1.br)
        ids = set(s1.cells)
        self.pure += 1
        self.dry += 1
        try:
            outs = thunk(s1)
        finally:
            self.pure -= 1
            self.dry -= 1
        if not outs:
            raise Unsupported('closure never returns')
        val = None
        for s2, v in outs:
            bad = [c for c in s2.cells if c in ids and s2.cells[c] is not st.cells[c]]
            if bad:
                raise Unsupported('closure with side effects in a bulk operation')
        for s2, v in reversed(outs):
            c = conj(s2.br[base:])
            val = v if val is None else itev(c, v, val)
        return val

    def check_pure(self, st, thunk):
        """obligations of a bulk closure call at a generic index (state already has the index facts)"""
        if self.dry:
            return
        s1 = st.copy()
        thunk(s1)

    # -------------------------------------------------------------- loops
    def do_loop(self, fr, h, body, st):
        from .loops import LoopRun
        return LoopRun(self, fr, h, body, st).go()


def last(p):
    p = strip_gen(p)
    return p.split('::')[-1]


def norm_variants(d):
    out = []
    for v in d.variants:
        if isinstance(v, (tuple, list)):
            nm = v[0]
            fl = v[1] if len(v) > 1 else []
            if isinstance(fl, dict):
                fl = list(fl.values())
            out.append((nm, list(fl or [])))
        else:
            out.append((v, []))
    return out
