"""Runs the tasks of a property, writes evidence, prints the verdict."""
import gc
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time

import facts
from jcheck import Timeout, run_root

VERIF = facts.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')


class Task:
    """one root analysed under one specification"""

    def __init__(self, root, make, group='', profile='debug', run=None):
        self.root = root
        self.make = make
        self.group = group
        self.profile = profile
        self.run = run


def _alarm(*a):
    raise Timeout()


_PROGS = {}
_TASKS = []
LIMIT = 780
START = time.time()


def work(i):
    t = _TASKS[i]
    prog = _PROGS[t.profile]
    out = {'root': t.root, 'group': t.group, 'profile': t.profile, 'problems': [], 'unsure': [], 'functions': [],
           'obligations': 0, 'discharged': 0, 'blocks': 0, 'paths': 0, 'reason': None, 'notes': [], 'wall': 0}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, int(START + LIMIT - time.time())))
    gc.disable()
    t0 = time.time()
    try:
        sys.setrecursionlimit(20000)
        if t.run is not None:
            t.run(prog, t, out)
        else:
            chk = t.make()
            r = run_root(prog, t.root, chk)
            fill(out, r, chk)
    except Timeout:
        out['reason'] = 'time limit'
    except facts.BuildError as e:
        out['reason'] = str(e)
    except MemoryError:
        out['reason'] = 'memory'
    except Exception as e:
        out['reason'] = 'internal: %s %s' % (type(e).__name__, e)
    finally:
        signal.alarm(0)
    out['wall'] = round(time.time() - t0, 3)
    return out


def fill(out, r, chk):
    e = r.eng
    out['reason'] = r.reason
    if r.reason and getattr(r, 'where', None):
        out['at'] = r.where[-3:]
    out['problems'] += list(e.problems.values())
    out['unsure'] += list(e.unsure.values())
    out['functions'] = sorted(e.touched)
    out['obligations'] += e.stats['obligations']
    out['discharged'] += e.stats['discharged']
    out['blocks'] += e.stats['blocks']
    out['paths'] += getattr(chk, 'finished', 0)
    out['notes'] += getattr(chk, 'notes', [])
    if not r.reason and not out['problems'] and not out['unsure'] and getattr(chk, 'need_finish', True) and not getattr(chk, 'finished', 1):
        out['reason'] = 'no path of the entry point returns'


def known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(x.split('=', 1) for x in line[8:].split(' :: ')[0].split(' | ') if '=' in x)
                out.append({k.strip(): v.strip() for k, v in d.items()})
    return out


def run_property(pid, prop, tier):
    t0 = time.time()
    profiles = prop.get('profiles', ('debug', 'release'))
    try:
        for p in profiles:
            _PROGS[p] = facts.extract(profile=p)
    except facts.BuildError as e:
        print('the program could not be built for analysis: %s' % e)
        return 2
    del _TASKS[:]
    for p in profiles:
        for t in prop['tasks'](_PROGS[p]):
            t.profile = p
            _TASKS.append(t)
    order = sorted(range(len(_TASKS)), key=lambda i: -prop.get('weight', lambda t: 0)(_TASKS[i]))
    with mp.get_context('fork').Pool(min(8, len(order)) or 1) as pool:
        res = list(pool.imap_unordered(work, order, chunksize=1 if len(order) < 64 else 4))
    res.sort(key=lambda r: (r['profile'], r['root']))
    kn = [k for k in known() if k.get('property') == pid]
    seen = {}
    for r in res:
        for p in r['problems']:
            key = (p['kind'], p['where'], p['msg'])
            if key in seen:
                seen[key]['roots'].append(r['root'])
                continue
            seen[key] = dict(p, roots=[r['root']], profile=r['profile'])
    viol = []
    for key, p in sorted(seen.items(), key=lambda x: str(x[0])):
        hit = [k for k in kn if k.get('kind') == p['kind'] and k.get('where') == p['where'] and k.get('msg') == p['msg']]
        if hit:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, p['where'], p['msg']))
        else:
            viol.append(p)
    wall = time.time() - t0
    undecided = [r for r in res if r['reason']]
    for r in undecided:
        print('undecided: %s [%s]: %s' % (r['root'], r['profile'], r['reason']))
    lines = []
    evd = os.environ.get('JSON_EVIDENCE', os.path.join(VERIF, 'evidence'))
    rd = os.path.join(evd, 'replay')
    os.makedirs(rd, exist_ok=True)
    for p in viol:
        h = hashlib.sha1(repr((pid, p['kind'], p['where'], p['msg'])).encode()).hexdigest()[:10]
        path = os.path.join(rd, '%s-%s.json' % (pid, h))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, rerun='python3 /verif/check.py %s' % pid, **p), f, indent=1)
        print('%s: %s [%s] (entry points: %s)' % (p['where'], p['msg'], p['kind'], ', '.join(p['roots'][:4])))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    fns = sorted({x for r in res for x in r['functions'] if x.startswith('json::') or '<json::' in x or 'json::' in x})
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': prop['level'],
        'coverage': {
            'explanation': prop['rule'],
            'obligations': sum(r['obligations'] for r in res),
            'discharged': sum(r['discharged'] for r in res),
            'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (pid, tier),
            'trusted_base': prop.get('trusted', TRUSTED),
            'entry_points': len(res),
            'entry_points_decided': len(res) - len(undecided),
            'undecided': [{'root': r['root'], 'profile': r['profile'], 'reason': r['reason'], 'at': r.get('at')} for r in undecided],
            'inconclusive': [dict(p, root=r['root']) for r in res for p in r['unsure']][:20],
            'paths_to_a_return': sum(r['paths'] for r in res),
            'basic_blocks_interpreted': sum(r['blocks'] for r in res),
            'functions_analysed': fns,
            'profiles': list(profiles),
            'roots': [r['root'] for r in res if r['profile'] == profiles[0]],
            'notes': sorted({n for r in res for n in r['notes']}),
        },
        'assumptions': prop.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': [{'where': p['where'], 'msg': p['msg'], 'kind': p['kind'], 'roots': p['roots'], 'stack': p['stack']} for p in viol],
    }
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print('%s: %d entry points, %d decided, %d obligations, %d discharged, %d violations, %.1f s' % (
        pid, len(res), len(res) - len(undecided), ev['coverage']['obligations'], ev['coverage']['discharged'], len(viol), wall))
    return 1 if viol else 0


TRUSTED = ('rustc front end and MIR construction; the exporter driver/main.rs; the abstract domain and transfer functions in '
           'lib/ (terms, engine, models of std functions); the specification of the property in lib/')
