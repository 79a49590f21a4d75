"""Building and loading the MIR facts of /repo's current source.

The driver (driver/main.rs, a rustc_private program) is compiled once into
/verif/build; the facts are extracted from /repo/src on every run.
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JSON_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
FLAGS = ['-Zalways-encode-mir', '-Zmir-opt-level=0', '-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums', '--cap-lints', 'allow']
PROFILES = {'debug': ['-Coverflow-checks=on', '-Cdebug-assertions=on'],
            'release': ['-Coverflow-checks=off', '-Cdebug-assertions=off']}


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True,
                          text=True, check=True).stdout.strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'driver', 'main.rs')
    exe = os.path.join(BUILD, 'mirx')
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
            return exe
        tmp = exe + '.tmp%d' % os.getpid()
        r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError('driver: ' + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


def edition():
    try:
        with open(os.path.join(REPO, 'Cargo.toml')) as f:
            m = re.search(r'^\s*edition\s*=\s*"(\d+)"', f.read(), re.M)
        return m.group(1) if m else '2015'
    except OSError:
        return '2018'


def extract(harness='harness/lib.rs', profile='debug'):
    """Compile /repo/src and the witness crate, return a loaded Facts object."""
    exe = build_driver()
    sr = sysroot()
    env = dict(os.environ, LD_LIBRARY_PATH=sr + '/lib')
    flags = FLAGS + PROFILES[profile]
    d = tempfile.mkdtemp(prefix='mirx-')
    try:
        r = subprocess.run(['rustc', '+nightly', '--edition', edition(), '--crate-name', 'json',
                            '--crate-type', 'rlib'] + flags +
                           [os.path.join(REPO, 'src', 'lib.rs'), '--emit=metadata,link', '--out-dir', d],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError('json crate: ' + r.stderr[-3000:])
        out = os.path.join(d, 'facts.jsonl')
        r = subprocess.run([exe, '--edition', '2021', '--crate-name', 'harness', '--crate-type', 'rlib'] + flags +
                           [os.path.join(VERIF, harness), '--extern', 'json=' + os.path.join(d, 'libjson.rlib'),
                            '--sysroot', sr, '--out-dir', d],
                           capture_output=True, text=True, env=dict(env, MIRX_OUT=out))
        if r.returncode or not os.path.exists(out):
            raise BuildError('witness crate: ' + r.stderr[-3000:])
        return Prog(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def norm_ty(d):
    k = d['k']
    if k == 'int':
        k = ['int', d['bits'], d['signed']]
    elif k == 'float':
        k = ['float', d['bits']]
    elif k in ('ref', 'ptr'):
        k = [k, d['mut'], d['to']]
    elif k == 'array':
        k = ['array', d['elem'], d['len']]
    elif k == 'slice':
        k = ['slice', d['elem']]
    elif k == 'tuple':
        k = ['tuple', d['elems']]
    elif k == 'adt':
        k = ['adt', d['akind'], d['name'], d['args'], d['local'], d['variants']]
    elif k == 'closure':
        k = ['closure', d['path'], d['fields']]
    elif k == 'fndef':
        k = ['fndef', d['path'], d.get('fn')]
    elif k in ('fnptr', 'dyn', 'other'):
        k = [k]
    return {'k': k, 's': d['s'], 'size': d.get('size', 0)}


class Prog:
    def __init__(self, path):
        self.fns = {}
        self.tys = {}
        self.meta = None
        with open(path) as f:
            for line in f:
                d = json.loads(line)
                if 'F' in d:
                    self.fns[d['F']] = d
                elif 'T' in d:
                    self.tys[d['T']] = norm_ty(d)
                elif 'M' in d:
                    self.meta = d
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f['path'], []).append(f)
        self.roots = {}
        for f in self.fns.values():
            if f['crate'] == 'harness' and f['path'].startswith('harness::') and f['path'].count('::') == 1:
                self.roots[f['path'][9:]] = f
        self._cfg = {}
        self.ty_by_s = {t['s']: i for i, t in self.tys.items()}

    def root(self, name):
        f = self.roots.get(name)
        if f is None or 'blocks' not in f:
            raise BuildError('entry point %s is not in the extracted program' % name)
        return f

    def ty(self, i):
        return self.tys[i]

    def kind(self, i):
        k = self.tys[i]['k']
        return k if isinstance(k, str) else k[0]

    def find_ty(self, s):
        return self.ty_by_s.get(s)


def pp_place(p):
    s = '_%d' % p[0]
    for e in p[1:]:
        if e[0] == 'd':
            s = '*' + s
        elif e[0] == 'f':
            s = '(%s).%d' % (s, e[1])
        else:
            s = '%s[%s]' % (s, ' '.join(map(str, e)))
    return s


def pp_op(o):
    if o[0] in 'cm':
        return pp_place(o[1])
    return str(o)


def dump_fn(prog, f, out=sys.stdout):
    w = lambda *a: print(*a, file=out)
    w('fn', f['F'], f['path'], f['full'] if f.get('full') != f['path'] else '', f['kind'], 'argc', f.get('argc'))
    if 'blocks' not in f:
        w('  (no body)')
        return
    names = {}
    for l, n in f.get('names', []):
        names[l] = n
    for i, t in enumerate(f['locals']):
        w('   _%d: %s %s' % (i, prog.ty(t)['s'], names.get(i, '')))
    for i, b in enumerate(f['blocks']):
        if b is None:
            continue
        w(' bb%d:' % i)
        for s in b['s']:
            if s[0] == '=':
                w('    %s = %s' % (pp_place(s[1]), s[2]))
            else:
                w('   ', s)
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'fn':
            g = prog.fns[t[1][1]]
            w('    call', g['path'], g['F'], [pp_op(a) for a in t[2]], '->', pp_place(t[3]), 'goto', t[4], t[8:])
        else:
            w('   ', t)


if __name__ == '__main__':
    p = Prog(sys.argv[1])
    for n in sys.argv[2:]:
        for f in p.fns.values():
            if n in f['path'] or str(f['F']) == n:
                dump_fn(p, f)
