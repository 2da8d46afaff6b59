#!/usr/bin/env python3
"""plant.py SPEC.py [ids]: turn bug specifications into seeded/<id>/ folders (patch.diff, demo.sh, meta.json and the files the demo needs).
A specification is a list P of (id, property, [(file, old, new)], needs, breaks, demo body, part)."""
import importlib.util, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds the library from $PWD (the repository) against the stand-ins beside this file and runs main.rs
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
B="rustc --edition 2015 -O --cap-lints allow -L $T --out-dir $T --crate-type rlib -C debug-assertions=on -C overflow-checks=on"
F='--cfg feature="stats" --cfg feature="datasets"'
set -e
%s
rustc --edition 2018 -O --cap-lints allow -L $T $D/main.rs -o $T/demo
timeout 120 $T/demo
'''
FULL = '''$B --crate-name num $D/num.rs
$B --crate-name rand $D/rand.rs
$B --crate-name rulinalg $D/rulinalg.rs
$B --cfg 'feature="stats"' --cfg 'feature="datasets"' --crate-name rusty_machine $PWD/src/lib.rs'''
PART = '''$B --crate-name rand $D/rand.rs
sed "s#@REPO@#$PWD#g" $D/part.rs > $T/part.rs
$B --cfg 'feature="stats"' --crate-name rusty_machine $T/part.rs'''


def main():
    spec = importlib.util.spec_from_file_location('p', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for pid, prop, edits, needs, breaks, body, part in m.P:
        if len(sys.argv) > 2 and pid not in sys.argv[2:]:
            continue
        d = H + '/seeded/' + pid
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        w = '/tmp/plant-' + pid
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w, 'HEAD'])
        try:
            bad = False
            for f, a, b in edits:
                p = w + '/src/' + f
                s = open(p).read()
                if s.count(a) < 1:
                    print('%s: edit does not apply: %s' % (pid, a[:60]))
                    bad = True
                    continue
                open(p, 'w').write(s.replace(a, b, 1))
            diff = subprocess.check_output(['git', '-C', w, 'diff'])
            open(d + '/patch.diff', 'wb').write(diff)
            open(d + '/demo.sh', 'w').write(DEMO % (PART if part else FULL))
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/main.rs', 'w').write('extern crate rand;\nextern crate rusty_machine;\n' + body)
            for n in (['rand', 'part'] if part else ['rand', 'num', 'rulinalg']):
                shutil.copy(H + '/shim/%s.rs' % n, d)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
            r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            ok = r0.returncode == 0 and r1.returncode != 0 and not bad and b'error[' not in r1.stdout
            e = dict(os.environ, VF_REPO=w)
            c = subprocess.run(['python3', H + '/check.py', prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
            t = c.stdout.decode()
            print('%s %s demo clean=%d patched=%d %s check rc=%d %s' % ('ok ' if ok else 'BAD', pid, r0.returncode, r1.returncode, '' if ok else (r0.stdout + r1.stdout).decode()[-600:], c.returncode,
                  [l for l in t.splitlines() if 'FAILING' in l or 'VIOL' in l or 'UNDEC' in l or 'FAILED' in l][:1] + t.splitlines()[-1:]), flush=True)
        finally:
            subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w])


main()
