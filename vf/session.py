"""Build the MIR of /repo against the stand-ins and make engines."""
import os
import re
import subprocess
from . import mir as M
from .src import Source
from .sym import Engine, State, Frame
from .lib_models import Lib
from . import prove as PV

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FEAT = ['--cfg', 'feature="stats"', '--cfg', 'feature="datasets"']
CHK = ['--cap-lints', 'allow', '-C', 'debug-assertions=on', '-C', 'overflow-checks=on']


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr.decode(errors='replace')[-3000:]))
    return r.stdout


def build_shims(d):
    base = ['rustc', '--edition', '2015', '-O', '-A', 'warnings', '-L', d, '--out-dir', d, '--crate-type', 'rlib']
    sh(base + ['--crate-name', 'num', HERE + '/shim/num.rs'])
    sh(base + ['--crate-name', 'rand', HERE + '/shim/rand.rs'])
    sh(base + ['--crate-name', 'rulinalg', '--extern', 'num=%s/libnum.rlib' % d, HERE + '/shim/rulinalg.rs'])


def crate_root(d, repo, part):
    if not part:
        return repo + '/src/lib.rs'
    p = d + '/part.rs'
    with open(p, 'w') as f:
        f.write(open(HERE + '/shim/part.rs').read().replace('@REPO@', repo))
    return p


def build_crate(d, repo='/repo', part=False):
    sh(['rustc', '--edition', '2015', '-O', '-A', 'warnings', '-L', d, '--out-dir', d, '--crate-type', 'rlib'] + CHK +
       ['--crate-name', 'rusty_machine', crate_root(d, repo, part)] + FEAT)


def dump_mir(d, repo='/repo', part=False):
    out = sh(['rustc', '--edition', '2015', '-A', 'warnings', '-L', d, '--crate-type', 'rlib', '--crate-name', 'rusty_machine', crate_root(d, repo, part)] + FEAT +
             ['-Zunpretty=mir', '-Ztrim-diagnostic-paths=no'] + CHK + ['-Zmir-enable-passes=-CheckAlignment,-CheckNull'], env={'RUSTC_BOOTSTRAP': '1'})
    return out.decode()


def build_harness(d, area):
    out = '%s/h_%s' % (d, area)
    sh(['rustc', '--edition', '2018', '-O', '-A', 'warnings', '-L', d, HERE + '/harness/%s.rs' % area, '-o', out])
    return out


class Program:
    def __init__(self, text, repo='/repo'):
        self.fns = M.parse_mir(text)
        self.src = Source(repo + '/src')

    def engine(self, timeout_ms=4000):
        return Engine(self.fns, self.src, Lib(), timeout_ms)
