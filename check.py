#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: verify the contracts of one property on /repo's current tree."""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and not os.environ.get('VF_REEXEC'):
    os.environ['VF_REEXEC'] = '1'
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
threading.stack_size(512 << 20)

from vf import session as S
from vf.table import PROPS
from vf.ctx import Ctx
from vf import prove as PV

REPO = os.environ.get('VF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def main():
    args = sys.argv[1:]
    if args == ['--setup']:
        print('nothing to build ahead: every check builds what it needs from the current tree (z3 %s)' % z3v())
        return 0
    prop = args[0]
    if prop not in PROPS:
        print('unknown property ' + prop)
        return 2
    replay = args[args.index('--replay') + 1] if '--replay' in args else None
    d = tempfile.mkdtemp(prefix='rmv-')
    try:
        return run(prop, d, replay)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Box:
    pass


def run_harness(exe, prop, only=None, timeout=300, hints=None):
    cmd = [exe, prop, '--seed', str(SEED), '--tier', TIER]
    if hints:
        cmd += ['--hints', ','.join(hints)]
    if only:
        cmd += ['--only', only]
    r = Box()
    r.fails, r.samples, r.n, r.distinct, r.note = [], [], 0, 0, None
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        text, rc = p.stdout.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as e:
        text, rc = (e.stdout or b'').decode(errors='replace'), 'timeout'
    for l in text.splitlines():
        f = l.split('\t')
        if f[0] == 'FAIL':
            r.fails.append((f[1], f[2] if len(f) > 2 else ''))
        elif f[0] == 'SAMPLE':
            r.samples.append(f[1])
        elif f[0] == 'DONE':
            r.n, r.distinct = int(f[1]), int(f[2])
    if 'DONE' not in text and not r.fails and 'NOTEST' not in text:
        if rc == 'timeout':
            r.note = 'the replay search ran out of time'
        else:
            # the process died: find the case
            try:
                p = subprocess.run(cmd + ['--list'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
                ls = [l for l in p.stdout.decode(errors='replace').splitlines() if l.startswith('CASE\t')]
                if ls:
                    r.fails.append((ls[-1].split('\t')[1], 'the process died (%s)' % p.returncode))
            except subprocess.TimeoutExpired:
                pass
    return r


def constants(text, mods):
    """numeric constants of the code: sizes and values worth trying in the replay search"""
    out, on = set(), False
    for l in text.split('\n'):
        if l[:3] in ('fn ', 'con'):
            on = any(m in l for m in mods)
        if on:
            for m in re.finditer(r'const (-?[\d.]+(?:[eE][-+]?\d+)?)(?:_?(?:usize|u64|i64|u32|i32|f64))', l):
                out.add(m.group(1))
    out -= {'0', '1', '2', '0f', '1f'}
    return sorted(out, key=lambda x: (len(x), x))[:40]


def run(prop, d, replay):
    t0 = time.time()
    info = PROPS[prop]
    area = info['area']
    b = Box()
    b.part, b.err, b.herr, b.exe, b.prog = False, None, None, None, None
    try:
        S.build_shims(d)
        try:
            text = S.dump_mir(d, REPO)
        except S.BuildError as e:
            if not info.get('part'):
                raise
            b.part = True
            text = S.dump_mir(d, REPO, True)
    except S.BuildError as e:
        print('cannot build the code under verification:\n%s' % e)
        return 2

    def mk():
        try:
            S.build_crate(d, REPO, b.part)
            b.exe = S.build_harness(d, info.get('harness', area))
            b.h = run_harness(b.exe, prop, b.only, hints=constants(text, info.get('mods', [])))
        except S.BuildError as e:
            b.herr = str(e)
        except Exception as e:
            b.herr = repr(e)
    b.only = None
    if replay:
        r = json.load(open(replay))
        b.only = r.get('case')
        mk()
        if b.herr:
            print(b.herr)
            return 2
        if b.only is None:
            print('no failing input was found for this violation; the replay file names the failed obligation:')
            print(json.dumps(r, indent=1))
            return 1
        for k, m in b.h.fails:
            print('REPRODUCED %s: %s' % (k, m))
        if not b.h.fails:
            print('not reproduced: ' + b.only)
        return 1 if b.h.fails else 0
    th = threading.Thread(target=mk)
    th.start()
    ctx = None
    perr = None

    def verify():
        nonlocal ctx, perr
        try:
            prog = S.Program(text, REPO)
            ctx = Ctx(prog, prop, TIER, 4000 if TIER == 'quick' else 12000, t0 + (420 if TIER == 'quick' else 3000))
            mod = importlib.import_module('contracts.' + area)
            getattr(mod, prop.lower())(ctx)
            ctx.flush()
        except Exception:
            import traceback
            perr = traceback.format_exc()
    tv = threading.Thread(target=verify)
    tv.start()
    tv.join()
    th.join()
    if perr is not None and ctx is None:
        print('verifier error:\n' + perr)
        return 2
    if perr is not None:
        ctx.unsupported.append((prop, perr.splitlines()[-1]))
    if ctx.bad() and not (b.herr is None and b.h.fails):
        again(prop, area, ctx, t0)
    return verdict(prop, info, ctx, b, t0)


def again(prop, area, ctx, t0):
    """obligations that were not discharged get a second run with more time for each query (a busy machine must not fail a proof)"""
    names = {n for n in ctx.names if any(o.name.startswith(n + '/') for o in ctx.bad())}
    if not names:
        return
    c2 = Ctx(ctx.prog, prop, TIER, 4 * ctx.timeout_ms, t0 + (720 if TIER == 'quick' else 4000))
    c2.only = names
    try:
        getattr(importlib.import_module('contracts.' + area), prop.lower())(c2)
        c2.flush()
    except Exception:
        return
    for n in names:
        mine = [o for o in c2.obls if o.name.startswith(n + '/')]
        if mine and all(o.status == 'proved' for o in mine) and not any(u[0] == n for u in c2.unsupported):
            ctx.obls = [o for o in ctx.obls if not o.name.startswith(n + '/')] + mine


def known(prop):
    try:
        k = json.load(open(HERE + '/known_findings.json'))
    except (OSError, ValueError):
        return []
    return [f for f in k.get('findings', []) if f['property'] == prop]


def verdict(prop, info, ctx, b, t0):
    kf = known(prop)
    lines, viol = [], []
    fails = list(b.h.fails) if b.herr is None else []
    bad = ctx.bad()
    seen = set()
    newfails = []
    for k, m in fails:
        hit = [f for f in kf if f.get('case') and re.search(f['case'], k)]
        if hit:
            seen.add(hit[0]['id'])
        else:
            newfails.append((k, m))
    newbad = []
    for o in bad:
        hit = [f for f in kf if f.get('obligation') and re.search(f['obligation'], o.name)]
        if hit:
            seen.add(hit[0]['id'])
        else:
            newbad.append(o)
    for f in kf:
        if f['id'] in seen:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    rep = '%s/evidence/%s.replay.json' % (HERE, prop)
    if os.path.exists(rep):
        os.unlink(rep)
    code = 0
    if newfails or newbad:
        code = 1
        r = {'property': prop, 'failed_obligations': [{'name': o.name, 'kind': o.kind, 'status': o.status, 'in': o.where, 'verifier_output': str(o.info)[:2000], 'goal': str(o.goal)[:1500]} for o in newbad[:20]],
             'undecided': ctx.unsupported}
        if newfails:
            r['case'], r['observed'] = newfails[0]
            r['all'] = newfails[:20]
        r['replay_with'] = 'python3 /verif/check.py %s --replay %s' % (prop, rep)
        json.dump(r, open(rep, 'w'), indent=1)
        for o in newbad[:10]:
            print('FAILED OBLIGATION %s: %s [%s]' % (o.status, o.name, o.kind))
        for k, m in newfails[:5]:
            print('FAILING INPUT %s: %s' % (k, m))
        viol.append('VIOLATION property=%s replay=%s%s' % (prop, rep, '' if newfails else ' no-failing-input-found'))
    for u in ctx.unsupported:
        print('UNDECIDED BY PROOF %s: %s (bounded stand-in: %s)' % (u[0], u[1], 'the replay search' if b.herr is None else 'none'))
    if b.herr:
        print('NO REPLAY HARNESS: ' + b.herr[-600:])
    for l in lines:
        print(l)
    n = len(ctx.obls)
    good = sum(1 for o in ctx.obls if o.status == 'proved')
    if code == 0 and n == 0 and b.herr is not None:
        print('nothing could be decided')
        code = 2
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': info.get('level', 'proof'), 'wall_s': round(time.time() - t0, 2), 'violations': len(newfails) + len(newbad)}
    kinds = {}
    for o in ctx.obls:
        kinds[o.kind] = kinds.get(o.kind, 0) + 1
    ev['coverage'] = {
        'obligations': n, 'discharged': good, 'checker_cmd': 'python3 /verif/check.py ' + prop,
        'trusted_base': ['rustc MIR (nightly flags on the stable compiler) of %s' % ('the whole crate' if not b.part else 'the modules without rulinalg'), 'vf: MIR symbolic executor and VC generator', 'z3 %s' % z3v()] +
                        sorted('assumed contract: ' + x for x in ctx.trusted) + sorted(info.get('axioms', [])),
        'functions_under_contract': ctx.functions, 'functions_inlined': sorted(ctx.inlined - set(ctx.functions)),
        'obligations_by_kind': kinds, 'solver_queries': PV.STATS['queries'], 'solver_s': round(PV.STATS['solver_s'], 2), 'back_end': 'z3',
        'loop_invariants': [{'loop': a, 'invariants': c} for a, c in ctx.invs],
        'vacuity_guards': [{'name': a, 'contradiction_provable': r == 'proved'} for a, r in ctx.canaries],
        'not_decided_by_proof': [{'target': a, 'reason': r, 'stand_in': 'bounded: the replay cases below'} for a, r in ctx.unsupported],
        'bounded_replay': {'label': 'bounded, not counted as proved', 'cases': b.h.n if b.herr is None else 0, 'distinct': b.h.distinct if b.herr is None else 0,
                           'samples': b.h.samples if b.herr is None else [], 'note': b.herr or b.h.note},
    }
    ev['assumptions'] = ['f64 arithmetic is treated as real arithmetic in the proofs (the bounded replay runs the real f64 code)', 'usize additions and multiplications do not overflow (subtractions are checked)',
                         'termination is not proved (the replay cases have a time limit)'] + info.get('assumptions', [])
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d targets undecided, %s replay cases, %.1f s' % (prop, n, good, len(ctx.unsupported), b.h.n if b.herr is None else 'no', time.time() - t0))
    for v in viol:
        print(v)
    return code


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
