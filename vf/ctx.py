"""A property's contracts are run in a Ctx, which collects what was discharged and what was not."""
import os
import pickle
import select
import signal
import time
import traceback
import z3
from . import mir as M
from . import prove as PV
from .mir import Unsupported
from .sym import Frame, State, Obl
from .prove import All, Conj, conj, fint
from .vals import *


class Lost(Exception):
    """a function under contract is not there any more"""


class Ctx:
    def __init__(self, prog, prop, tier='quick', timeout_ms=4000, deadline=None, workers=None):
        self.prog, self.prop, self.tier, self.timeout_ms = prog, prop, tier, timeout_ms
        self.obls = []          # every obligation
        self.functions = []     # functions under contract
        self.inlined = set()
        self.trusted = set()
        self.assumed = set()
        self.unsupported = []   # (target, reason)
        self.invs = []
        self.canaries = []      # obligations that must fail (vacuity guard)
        self.deadline = deadline
        self.workers = workers if workers is not None else int(os.environ.get('VF_JOBS', '0') or 0) or min(8, os.cpu_count() or 1)
        self.todo = []
        self.names = []         # targets
        self.only = None        # run these targets only

    def engine(self):
        e = self.prog.engine(self.timeout_ms)
        return e

    def method(self, eng, selfname, method, trait=None):
        l = eng.find_method(selfname, method, trait)
        if not l and trait:
            # a trait's default method
            for n, f in eng.free.items():
                if n.endswith('::%s::%s' % (trait, method)):
                    return f
        if not l:
            raise Lost('%s::%s' % (selfname, method))
        return l[0]

    def free(self, eng, name):
        f = eng.free.get(name)
        if f is None:
            l = [x for n, x in eng.free.items() if n.split('::')[-1] == name.split('::')[-1]]
            if len(l) == 1:
                return l[0]
            raise Lost(name)
        return f

    def target(self, name, thunk):
        """one contract; what the engine cannot take is recorded, not raised"""
        self.names.append(name)
        if self.only is not None and name not in self.only:
            return
        if self.workers > 1:
            self.todo.append((name, thunk))
        else:
            self.run_target(name, thunk)

    def flush(self):
        """run the contracts asked for, each in a process of its own"""
        todo, self.todo = self.todo, []
        if len(todo) == 1:
            return self.run_target(*todo[0])
        live, res, nxt = {}, {}, 0
        while nxt < len(todo) or live:
            while nxt < len(todo) and len(live) < self.workers:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    rc = 0
                    try:
                        os.close(r)
                        for fd in live:
                            os.close(fd)
                        c = self
                        c.obls, c.functions, c.inlined, c.trusted, c.assumed, c.unsupported, c.invs, c.canaries = [], [], set(), set(), set(), [], [], []
                        PV.STATS.update(queries=0, solver_s=0.0, unknown=0)
                        try:
                            c.run_target(*todo[nxt])
                        except BaseException as e:
                            c.unsupported.append((todo[nxt][0], 'engine: %r' % e))
                        b = pickle.dumps(c.delta())
                        with os.fdopen(w, 'wb') as f:
                            f.write(b)
                    except BaseException:
                        rc = 1
                    os._exit(rc)
                os.close(w)
                live[r] = (nxt, pid, [])
                nxt += 1
            rd = select.select(list(live), [], [], 5)[0]
            if self.deadline and time.time() > self.deadline + 60:
                for i, pid, buf in live.values():
                    os.kill(pid, signal.SIGKILL)
            for fd in rd:
                b = os.read(fd, 1 << 20)
                i, pid, buf = live[fd]
                if b:
                    buf.append(b)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                try:
                    res[i] = pickle.loads(b''.join(buf))
                except Exception:
                    res[i] = None
        for i, (name, thunk) in enumerate(todo):
            d = res[i]
            if d is None:
                self.unsupported.append((name, 'the verifier process died'))
                continue
            self.obls += d['obls']
            for x in d['functions']:
                if x not in self.functions:
                    self.functions.append(x)
            self.inlined |= d['inlined']
            self.trusted |= d['trusted']
            self.unsupported += d['unsupported']
            self.invs += d['invs']
            self.canaries += d['canaries']
            for k, v in d['stats'].items():
                PV.STATS[k] += v

    def delta(self):
        for o in self.obls:
            if o.status == 'proved':
                o.info = o.goal = None
            else:
                o.info, o.goal = str(o.info)[:4000], str(o.goal)[:3000]
        return {'obls': self.obls, 'functions': self.functions, 'inlined': self.inlined, 'trusted': self.trusted, 'unsupported': self.unsupported,
                'invs': self.invs, 'canaries': self.canaries, 'stats': dict(PV.STATS)}

    def run_target(self, name, thunk):
        if self.deadline and time.time() > self.deadline:
            self.unsupported.append((name, 'time budget used up'))
            return
        PV.reset()
        n0 = len(self.obls)
        eng = self.engine()
        eng.tname = name
        eng.deadline = self.deadline
        eng.pv.deadline = self.deadline
        try:
            thunk(eng)
        except (Unsupported, Lost) as e:
            self.unsupported.append((name, '%s: %s' % (type(e).__name__, e)))
        except RecursionError:
            self.unsupported.append((name, 'recursion limit'))
        except z3.Z3Exception as e:
            if os.environ.get('TB'): traceback.print_exc()
            self.unsupported.append((name, 'solver: %s' % e))
        except (AttributeError, KeyError, IndexError, TypeError, AssertionError, ValueError) as e:
            self.unsupported.append((name, 'engine: %r %s' % (e, traceback.format_exc().splitlines()[-3].strip())))
        self.take(eng)
        if len(self.obls) == n0 and not any(u[0] == name for u in self.unsupported):
            self.unsupported.append((name, 'no obligation was generated'))

    def take(self, eng):
        self.obls += eng.obls
        eng.obls = []
        self.inlined |= eng.inlined
        self.trusted |= eng.lib.used
        self.invs += eng.invlog
        eng.invlog = []

    def start(self, eng, f, env=None):
        """fresh arguments for f"""
        M.ensure_parsed(f)
        st = State()
        env = env or {}
        if f.name not in self.functions:
            self.functions.append(f.name)
        args = []
        for l, t in f.args:
            t = M.subst_ty(t, env)
            args.append(eng.fresh(t, f.argnames.get(l) or 'a%d' % l, st))
        return st, args

    def run(self, eng, f, st, args, env=None):
        eng.tname_fn = f.name
        if f.name not in self.functions:
            self.functions.append(f.name)
        outs = eng.call_fn(st, f, env or {}, args, 0)
        return outs

    def post(self, eng, st, goal, name, kind='post', hints=(), timeout=None):
        r, info = eng.pv.prove(st.hyps, goal, list(eng.inst_hints) + list(hints), timeout)
        eng.obls.append(Obl('%s/%s' % (eng.tname, name), kind, r, info, '', goal))
        return r == 'proved'

    def lemma(self, eng, hyps, goal, name):
        r, info = eng.pv.prove(hyps, goal, eng.inst_hints)
        eng.obls.append(Obl('%s/lemma: %s' % (eng.tname, name), 'lemma', r, info, '', goal))
        return r == 'proved'

    def fail(self, eng, name, why):
        eng.obls.append(Obl('%s/%s' % (eng.tname, name), 'post', 'failed', why, ''))

    def ok(self, eng, name, kind='structure'):
        eng.obls.append(Obl('%s/%s' % (eng.tname, name), kind, 'proved', None, ''))

    def canary(self, eng, hyps, name):
        """the hypotheses must not be contradictory"""
        r, info = eng.pv.prove(hyps, z3.BoolVal(False), timeout=2000)
        self.canaries.append(('%s/%s' % (eng.tname, name), r))
        if r == 'proved':
            self.unsupported.append((eng.tname, 'contradictory hypotheses: ' + name))

    def bad(self):
        return [o for o in self.obls if o.status != 'proved']
