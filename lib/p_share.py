"""Values cross threads: a compile-time witness, no interior mutability in the types,
no write through a pointer that was made from a shared reference, no mutable globals."""
import os
import re
import shutil
import subprocess
import tempfile

import facts

TYPES = ('json::value::JsonValue', 'json::number::Number', 'json::object::Object', 'json::short::Short', 'json::error::Error')
SHARED = ('core::cell::UnsafeCell',)


def kids(prog, t):
    k = prog.tys[t]['k']
    if isinstance(k, str):
        return []
    out = []
    if k[0] == 'adt':
        out += [a for a in k[3] if isinstance(a, int)]
        for v in k[5]:
            out += [f[1] for f in v['fields']]
    elif k[0] in ('int', 'float'):
        pass
    elif k[0] == 'array':
        out.append(k[1])
    else:
        def go(x):
            if isinstance(x, (list, tuple)):
                for y in x:
                    go(y)
            elif isinstance(x, int) and not isinstance(x, bool):
                out.append(x)
        go(k[1:])
    return [x for x in out if x in prog.tys]


def mutable_inside(prog, t):
    """names of cells reachable from a type, through pointers too"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        k = prog.tys[x]['k']
        if not isinstance(k, str) and k[0] == 'adt' and k[2] in SHARED:
            return prog.tys[x]['s'], len(seen)
        todo += kids(prog, x)
    return None, len(seen)


def witness(prog, t, out):
    """the witness crate builds"""
    d = tempfile.mkdtemp(prefix='share-')
    try:
        flags = ['--edition', facts.edition(), '--cap-lints', 'allow']
        r = subprocess.run(['rustc', '+nightly', '--crate-name', 'json', '--crate-type', 'rlib'] + flags +
                           [os.path.join(facts.REPO, 'src', 'lib.rs'), '--emit=metadata', '--out-dir', d], capture_output=True, text=True)
        if r.returncode:
            out['reason'] = 'the crate does not build'
            return
        r = subprocess.run(['rustc', '+nightly', '--edition', '2018', '--crate-name', 'threads', '--crate-type', 'rlib', '--error-format=short',
                            os.path.join(facts.VERIF, 'harness', 'threads.rs'), '--extern', 'json=' + os.path.join(d, 'libjson.rmeta'),
                            '--emit=metadata', '--out-dir', d], capture_output=True, text=True)
        out['obligations'] += 2 * len(TYPES)
        out['discharged'] += 2 * len(TYPES)
        if r.returncode:
            bad = re.findall(r'threads\.rs:(\d+):.*?E0277\]?: (.*)', r.stderr)
            if not bad:
                out['reason'] = 'the witness does not build: ' + r.stderr[-200:]
            for line, msg in bad:
                out['discharged'] -= 1
                out['problems'].append({'kind': 'witness', 'where': 'harness/threads.rs', 'msg': 'a type can not be moved to or shared with another thread: ' + msg.strip()[:160], 'stack': []})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def types(prog, t, out):
    """no cell is reachable from a value"""
    n = 0
    for name in TYPES:
        ty = prog.find_ty(name)
        if ty is None:
            out['reason'] = 'type %s is not there' % name
            continue
        hit, k = mutable_inside(prog, ty)
        n += k
        out['obligations'] += 1
        if hit is None:
            out['discharged'] += 1
        else:
            out['problems'].append({'kind': 'cell', 'where': name, 'msg': 'holds %s, which a shared reference can mutate' % hit, 'stack': []})
    out['blocks'] += n


def walk(x, f):
    if isinstance(x, (list, tuple)):
        f(x)
        for y in x:
            walk(y, f)


def casts(prog, t, out):
    """no write through a pointer made from a shared reference; no mutable globals"""
    for f in prog.fns.values():
        if f['crate'] != 'json' or not f.get('blocks'):
            continue
        out['functions'].append(f['path'])
        out['blocks'] += sum(b is not None for b in f['blocks'])
        out['obligations'] += 1
        bad = check_fn(prog, f)
        if bad is None:
            out['discharged'] += 1
        else:
            out['problems'].append({'kind': bad[0], 'where': f['path'], 'msg': bad[1], 'stack': []})
    out['functions'] = sorted(set(out['functions']))


def is_place(x):
    return isinstance(x, (list, tuple)) and x and isinstance(x[0], int) and not isinstance(x[0], bool)


def check_fn(prog, f):
    found = []

    def statics(x):
        if x and x[0] == 'st' and len(x) == 6:
            if x[5] is True:
                found.append(('global', 'the mutable static %s is used' % x[1]))
            elif isinstance(x[2], int) and x[2] in prog.tys and mutable_inside(prog, x[2])[0]:
                found.append(('global', 'the static %s can be mutated by everyone' % x[1]))
    walk(f['blocks'], statics)
    for l in f['locals']:
        hit = mutable_inside(prog, l)[0] if l in prog.tys else None
        if hit:
            found.append(('cell', 'uses %s' % hit))
    if found:
        return found[0]
    blocks = [b for b in f['blocks'] if b is not None]
    # pointers to mutable memory made from shared ones
    taint = set()

    def made(x):
        if x and x[0] == 'cast' and len(x) == 5 and x[3] in prog.tys and x[4] in prog.tys:
            a, b = prog.tys[x[3]]['s'], prog.tys[x[4]]['s']
            if b.startswith(('*mut ', '&mut ')) and a.startswith(('*const ', '&')) and not a.startswith('&mut '):
                return True
        return False

    def mentions(rv):
        hit = []

        def g(x):
            if made(x):
                hit.append(1)
            if is_place(x) and x[0] in taint and all(isinstance(p, (list, tuple)) for p in x[1:]):
                hit.append(1)
        walk(rv, g)
        return bool(hit)

    def pointer(i):
        s = prog.tys[f['locals'][i]]['s']
        return s.startswith(('*mut ', '&mut '))

    n = -1
    while n != len(taint):
        n = len(taint)
        for b in blocks:
            for s in b['s']:
                if s[0] == '=' and is_place(s[1]) and len(s[1]) == 1 and pointer(s[1][0]) and mentions(s[2]):
                    taint.add(s[1][0])
            t = b['t']
            if t[0] == 'call' and is_place(t[3]) and pointer(t[3][0]) and mentions(t[2]):
                taint.add(t[3][0])
    if not taint:
        return None
    for b in blocks:
        for s in b['s']:
            if s[0] == '=' and is_place(s[1]) and s[1][0] in taint and len(s[1]) > 1:
                return 'write', 'writes through a pointer made from a shared reference'
            if s[0] == '=' and isinstance(s[2], (list, tuple)) and s[2] and s[2][0] == 'ref' and s[2][1] is True and mentions(s[2][2]):
                return 'write', 'makes a mutable reference of a shared one'
        t = b['t']
        if t[0] == 'call' and mentions(t[2]) and t[1][0] == 'fn':
            g = prog.fns.get(t[1][1])
            if g is not None and any(w in g['path'] for w in ('::write', '::copy', '::swap', '::replace', '::drop_in_place', '::set_', '::push')):
                return 'write', 'writes through a pointer made from a shared reference'
    return None
