#!/usr/bin/env python3
"""Plant, confirm and try seeded bugs (a development tool; no check uses it).

seed.py make <id> <property> <json spec on stdin>   spec: {edits:[{file,old,new}], demo:"rust main body", needs, breaks}
seed.py confirm [<id>..]    the change builds, passes the stable tests, demo passes without and fails with it
seed.py try [<id>..]        runs the check of its property against a scratch copy with the change
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')

DEMO = '''#!/bin/sh
# exit 0: behaves as the property says; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
rustc --edition 2018 --cap-lints allow -O -C debug-assertions=on --crate-name json --crate-type rlib src/lib.rs -o "$tmp/libjson.rlib" || exit 0
rustc --edition 2018 --cap-lints allow "$here/main.rs" --extern json="$tmp/libjson.rlib" -o "$tmp/demo" || exit 0
timeout 120 "$tmp/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    sh('cp -a /repo %s/repo' % d)
    return d


def make(i, prop, spec):
    d = copy()
    try:
        r = os.path.join(d, 'repo')
        for e in spec['edits']:
            p = os.path.join(r, e['file'])
            s = open(p).read()
            assert s.count(e['old']) == 1, ('occurrences', s.count(e['old']), e['old'])
            open(p, 'w').write(s.replace(e['old'], e['new']))
        diff = sh('git -C %s diff' % r).stdout
        o = os.path.join(SEED, i)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        open(os.path.join(o, 'main.rs'), 'w').write(spec['demo'])
        open(os.path.join(o, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def confirm(i):
    o = os.path.join(SEED, i)
    d = copy()
    try:
        r = os.path.join(d, 'repo')
        a = sh('sh %s/demo.sh' % o, cwd=r)
        ap = sh('git apply %s/patch.diff' % o, cwd=r)
        b = sh('sh %s/demo.sh' % o, cwd=r)
        t = sh('cargo test --offline 2>&1', cwd=r, env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, 'target')))
        fails = [l for l in t.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
        ok = a.returncode == 0 and ap.returncode == 0 and b.returncode != 0 and t.returncode == 0
        print('%-28s %s demo clean %d, demo patched %d, tests %d %s' % (i, 'OK ' if ok else 'BAD', a.returncode, b.returncode, t.returncode,
              '' if ok else (a.stderr[-800:] + a.stdout[-300:] + ap.stderr + b.stderr[-300:] + ' '.join(fails[:6]))))
        return ok
    finally:
        shutil.rmtree(d)


def attempt(i):
    o = os.path.join(SEED, i)
    prop = json.load(open(os.path.join(o, 'meta.json')))['property']
    d = copy()
    try:
        r = os.path.join(d, 'repo')
        ap = sh('git apply %s/patch.diff' % o, cwd=r)
        c = sh('python3 %s/check.py %s' % (ROOT, prop), env=dict(os.environ, JSON_REPO=r, JSON_EVIDENCE=d))
        und = [l for l in c.stdout.splitlines() if l.startswith('undecided')]
        first = [l for l in c.stdout.splitlines() if '[' in l and not l.startswith('undecided')]
        print('%-28s %s %s exit %d  %s %s' % (i, prop, 'CAUGHT' if c.returncode == 1 else 'missed', c.returncode, first[:1], und[:2]))
        if c.returncode not in (0, 1):
            print(c.stdout[-500:], c.stderr[-1500:])
        return c.returncode == 1
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'make':
        make(sys.argv[2], sys.argv[3], json.load(sys.stdin))
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        for i in ids:
            (confirm if cmd == 'confirm' else attempt)(i)
