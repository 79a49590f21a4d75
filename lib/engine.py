"""Abstract interpreter over the exported MIR.

A partitioned forward data-flow analysis: abstract states (memory graph of
symbolic values + linear facts + a ghost monitor) are propagated over the
control flow graph, calls are inlined, loop heads and joins merge states of
equal shape by anti-unification until a fixpoint is reached.
"""
import heapq
import itertools
import math
from collections import namedtuple

import terms as T
from terms import (Lin, Facts, add, sub, neg, scale, var, mk, atom, c_ge, c_eq, c_not, c_or, c_and, INF)
from vals import *

Frame = namedtuple('Frame', 'fn bb dest target loops extra')


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class Dead(Exception):
    """this path cannot happen / has been dealt with"""


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


# ------------------------------------------------------------------ CFG info
class Cfg:
    def __init__(self, prog, f):
        blocks = f['blocks']
        n = len(blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(blocks):
            if b is None:
                continue
            self.succ[i] = [x for x in term_succ(b['t']) if x is not None and blocks[x] is not None]
        self.pred = [[] for _ in range(n)]
        for i in range(n):
            for s in self.succ[i]:
                self.pred[s].append(i)
        self._wto()
        self._live(f)

    def _wto(self):
        # Bourdoncle's weak topological order
        n = len(self.succ)
        num = [0] * n
        counter = [0]
        stack = []
        self.heads = set()
        self.inloop = {}
        order = []
        INFN = 1 << 60
        import sys
        sys.setrecursionlimit(100000)

        def visit(v, part):
            stack.append(v)
            counter[0] += 1
            num[v] = counter[0]
            head = num[v]
            loop = False
            for s in self.succ[v]:
                m = visit(s, part) if num[s] == 0 else num[s]
                if m <= head:
                    head = m
                    loop = True
            if head == num[v]:
                num[v] = INFN
                e = stack.pop()
                if loop:
                    while e != v:
                        num[e] = 0
                        e = stack.pop()
                    part.insert(0, component(v))
                else:
                    part.insert(0, v)
            return head

        def component(v):
            p = []
            for s in self.succ[v]:
                if num[s] == 0:
                    visit(s, p)
            return [v] + p

        root = []
        visit(0, root)
        self.rpo = [0] * n
        cnt = itertools.count(1)
        self.loops_of = [()] * n

        def number(p, loops):
            for x in p:
                if isinstance(x, list):
                    h = x[0]
                    self.heads.add(h)
                    l2 = loops + (h,)
                    self.rpo[h] = next(cnt)
                    self.loops_of[h] = l2
                    number(x[1:], l2)
                else:
                    self.rpo[x] = next(cnt)
                    self.loops_of[x] = loops

        number(root, ())
        self.loopend = {}
        for x in range(n):
            for h in self.loops_of[x]:
                self.loopend[h] = max(self.loopend.get(h, 0), self.rpo[x])
        self.join = {i for i in range(n) if len(self.pred[i]) > 1}

    def _live(self, f):
        n = len(self.succ)
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        addr = set()

        def u(i, l):
            if l not in deff[i]:
                use[i].add(l)

        def place_use(i, p, addrof=False):
            if addrof and not any(e[0] == 'd' for e in p[1:]):
                addr.add(p[0])
            u(i, p[0])
            for e in p[1:]:
                if e[0] == 'i':
                    u(i, e[1])

        def op(i, o):
            if o[0] in 'cm' and o[0] in ('c', 'm'):
                place_use(i, o[1])

        def rvops(r):
            k = r[0]
            if k in ('use', 'rep'):
                return [r[1]]
            if k == 'cast':
                return [r[2]]
            if k == 'bin':
                return [r[2], r[3]]
            if k == 'un':
                return [r[2]]
            if k == 'agg':
                return r[4]
            return []

        for i, b in enumerate(f['blocks']):
            if b is None:
                continue
            for s in b['s']:
                k = s[0]
                if k == '=':
                    r = s[2]
                    if r[0] == 'ref':
                        place_use(i, r[2], True)
                    elif r[0] == 'discr':
                        place_use(i, r[1])
                    elif r[0] == 'len':
                        place_use(i, r[1])
                    for o in rvops(r):
                        op(i, o)
                    p = s[1]
                    if len(p) == 1:
                        deff[i].add(p[0])
                    else:
                        place_use(i, p)
                elif k == 'sl' or k == 'sx':
                    deff[i].add(s[1])
                elif k == 'assume':
                    op(i, s[1])
                elif k == 'cpy':
                    for o in s[1]:
                        op(i, o)
                elif k == 'sd':
                    place_use(i, s[1])
            t = b['t']
            if t[0] == 'sw':
                op(i, t[1])
            elif t[0] == 'call':
                if t[1][0] == 'ptr':
                    op(i, t[1][1])
                for a in t[2]:
                    op(i, a)
                if len(t[3]) > 1:
                    place_use(i, t[3])
                else:
                    deff[i].add(t[3][0])
            elif t[0] == 'drop':
                place_use(i, t[1], True)
            elif t[0] == 'assert':
                op(i, t[1])
                m = t[3]
                if m[0] == 'bounds':
                    op(i, m[1])
                    op(i, m[2])
            elif t[0] == 'ret':
                u(i, 0)
        self.addr = addr
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succ[i]:
                    o |= livein[s]
                new = use[i] | (o - deff[i])
                if new != livein[i]:
                    livein[i] = new
                    ch = True
        self.livein = livein


def term_succ(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'sw':
        return list(dict.fromkeys([x[1] for x in t[3]] + [t[4]]))
    if k == 'drop':
        return [t[3]]
    if k == 'call':
        return [t[4]]
    if k == 'assert':
        return [t[4]]
    return []


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('mem', 'facts', 'frames', 'ghost', 'known', 'freed', 'hist')

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.frames = self.frames
        s.ghost = dict(self.ghost)
        s.known = dict(self.known)
        s.freed = self.freed
        s.hist = self.hist
        return s


def new_state():
    s = State.__new__(State)
    s.mem = {}
    s.facts = Facts()
    s.frames = ()
    s.ghost = {}
    s.known = {}
    s.freed = frozenset()
    s.hist = None
    return s


TERMK = ('ge', 'eq', 'ne', 'or', 'and')


class Engine:
    def __init__(self, prog, check=None, budget=400000):
        self.prog = prog
        self.check = check
        self.cfgs = {}
        self.ids = itertools.count(1000)
        self.budget = budget
        self.steps = 0
        self.symty = {}
        self.problems = {}
        self.unsure = {}      # the path went through code the analysis does not know
        self.results = []
        self.stats = {'blocks': 0, 'forks': 0, 'joins': 0, 'obligations': 0, 'discharged': 0}
        self.touched = set()
        self.merge = True
        self.drops = False
        self.max_depth = 60
        self.unknown_calls = {}
        self.templates = {}
        import models
        self.models = models

    # -------------------------------------------------------------- reporting
    def where(self, st, crate_only=True):
        for fr in reversed(st.frames):
            f = self.prog.fns[fr.fn]
            if f['crate'] == 'json' or not crate_only:
                return f['path']
        return self.prog.fns[st.frames[-1].fn]['path'] if st.frames else '?'

    def stack(self, st):
        out = []
        for fr in st.frames:
            f = self.prog.fns[fr.fn]
            b = f['blocks'][fr.bb]
            line = b['t'][-1] if b else 0
            fi = b['t'][-2] if b else 0
            try:
                fname = self.prog.meta['files'][fi]
            except Exception:
                fname = '?'
            out.append('%s (%s:%s)' % (f['path'], fname, line))
        return out

    def problem(self, st, kind, msg, where=None):
        kinds = getattr(self.check, 'kinds', None)
        if kinds is not None and kind not in kinds:
            raise Dead()
        if st.facts.absurd():
            raise Dead()
        w = where or self.where(st)
        key = (kind, w, msg)
        book = self.unsure if '?' in st.ghost else self.problems
        if key not in book:
            book[key] = {'kind': kind, 'where': w, 'msg': msg, 'stack': self.stack(st),
                                  'detail': self.check.describe(st) if self.check else ''}
        raise Dead()

    def oblige(self, st, cond, kind, msg, where=None):
        """cond must hold in this state."""
        self.stats['obligations'] += 1
        d = st.facts.decide(cond)
        if d is True:
            self.stats['discharged'] += 1
            return
        if d is None:
            # the failing half is a violation, continue in the other
            if all(f.absurd() for f in st.facts.assume(c_not(cond))):
                self.stats['discharged'] += 1
                return
        self.problem(st, kind, msg, where)

    # -------------------------------------------------------------- decisions
    def holds(self, st, cond):
        """True/False, forking when unknown."""
        d = st.facts.decide(cond)
        if d is None:
            raise Fork([('c', cond), ('c', c_not(cond))])
        return d

    def assume(self, st, cond):
        fs = st.facts.assume(cond)
        if not fs:
            raise Dead()
        if len(fs) == 1:
            st.facts = fs[0]
        # several: keep as is (weaker)

    def learn(self, st, *conds):
        for c in conds:
            self.assume(st, c)

    # -------------------------------------------------------------- opaque values
    def mkopq(self, ty, key):
        t = self.prog.tys[ty]
        k = t['k']
        if isinstance(k, str):
            if k == 'bool':
                return c_eq(sub(var(atom(('opq', key), 0, 1)), 1))
            if k == 'char':
                return var(atom(('opq', key), 0, 0x10FFFF))
            if k in ('never', 'str'):
                return Opq(ty, key)
            return Opq(ty, key)
        kk = k[0]
        if kk == 'int':
            lo, hi = T.ty_range(k[1], k[2])
            return var(atom(('opq', key), lo, hi))
        if kk in ('ref', 'ptr'):
            to = k[2]
            return self.symptr(to, key)
        if kk == 'tuple':
            return Agg(ty, 0, tuple(self.mkopq(e, key + (i,)) for i, e in enumerate(k[1])))
        if kk == 'array':
            n = k[2]
            return SeqV((('S', self.origin(key, k[1]), 0, n),)) if n else EMPTY
        if kk in ('fndef',):
            return Agg(ty, 0, ())
        if kk == 'adt':
            if self.check is not None:
                v = self.check.opaque(self, ty, t, key)
                if v is not None:
                    return v
            name = k[2] if len(k) > 2 else ''
            if k[1] == 'union':
                return self.mkopq(self.union_inner(ty), key)
            if name.startswith('alloc::vec::Vec'):
                ety = self.vec_elem(ty)
                o = ('sym', key)
                n = var(atom(('len', key), 0, (1 << 63) - 1))
                self.symty[o] = ('seq', ety, key, n)
                return VecV(o, n, var(atom(('cap', key), 0, (1 << 63) - 1)))
            if k[1] == 'struct':
                fs = self.variant_fields(ty, 0)
                return Agg(ty, 0, tuple(self.mkopq(f, key + (i,)) for i, f in enumerate(fs)))
            return Opq(ty, key)
        if kk == 'closure':
            return Agg(ty, 0, tuple(self.mkopq(e, key + (i,)) for i, e in enumerate(k[2])))
        return Opq(ty, key)

    def origin(self, key, ety):
        o = key
        self.symty[('orig', o)] = ety
        return o

    def symptr(self, to, key):
        o = ('sym', key)
        tk = self.prog.tys[to]['k']
        if tk == 'str' or (isinstance(tk, list) and tk[0] == 'slice'):
            n = var(atom(('len', key), 0, (1 << 63) - 1))
            ety = self.u8() if tk == 'str' else tk[1]
            self.symty[o] = ('seq', ety, key, n)
            return Ptr(o, (('el', 0),), n)
        self.symty[o] = ('val', to, key)
        return Ptr(o, ())

    def u8(self):
        return self.prog.find_ty('u8')

    def union_inner(self, ty):
        # the first field with a size (MaybeUninit / ManuallyDrop style unions)
        for v in self.adt(ty)['variants']:
            for name, fty in v['fields']:
                if self.prog.tys[fty].get('size', 0) != 0:
                    return fty
        return self.adt(ty)['variants'][0]['fields'][0][1]

    def adt(self, ty):
        k = self.prog.tys[ty]['k']
        return {'kind': k[1], 'name': k[2], 'args': k[3], 'local': k[4], 'variants': k[5]}

    def is_adt(self, ty):
        k = self.prog.tys[ty]['k']
        return not isinstance(k, str) and k[0] == 'adt'

    def adt_name(self, ty):
        k = self.prog.tys[ty]['k']
        return k[2] if not isinstance(k, str) and k[0] == 'adt' else None

    def is_union(self, ty):
        k = self.prog.tys[ty]['k']
        return not isinstance(k, str) and k[0] == 'adt' and k[1] == 'union'

    def variant_fields(self, ty, v):
        return [f[1] for f in self.adt(ty)['variants'][v]['fields']]

    def vec_elem(self, ty):
        return self.adt(ty)['args'][0]

    def fields_of(self, ty, variant=0):
        k = self.prog.tys[ty]['k']
        if isinstance(k, str):
            return []
        if k[0] == 'tuple':
            return k[1]
        if k[0] == 'closure':
            return k[2]
        if k[0] == 'adt':
            return self.variant_fields(ty, variant)
        return []

    def expand(self, st, v, variant=None):
        """Opq struct/enum -> Agg one level."""
        ty = v.ty
        if variant is None:
            variant = self.variant_of(st, v)
        fs = self.fields_of(ty, variant)
        return Agg(ty, variant, tuple(self.mkopq(f, v.key + (('v', variant), i)) for i, f in enumerate(fs)))

    def variant_of(self, st, v):
        if isinstance(v, Agg):
            return v.var
        if isinstance(v, Opq):
            k = st.known.get(v.key)
            if k is not None:
                return k
            a = self.adt(v.ty)
            vs = [i for i, x in enumerate(a['variants']) if not self.uninhabited(x)]
            if self.check is not None:
                vs = self.check.variants(self, st, v, vs)
            if len(vs) == 1:
                return vs[0]
            raise Fork([('k', v.key, i) for i in vs])
        raise Unsupported('discriminant of %r' % (v,))

    def uninhabited(self, variant):
        for _, fty in variant['fields']:
            if self.prog.tys[fty]['k'] == 'never':
                return True
            k = self.prog.tys[fty]['k']
            if not isinstance(k, str) and k[0] == 'adt' and k[1] == 'enum' and not k[5]:
                return True
        return False

    # -------------------------------------------------------------- memory
    def local_key(self, st, l):
        return (len(st.frames) - 1, l)

    def getobj(self, st, o):
        v = st.mem.get(o)
        if v is None:
            if isinstance(o, tuple) and o and o[0] == 'sym':
                d = self.symty.get(o)
                if d is None:
                    raise Unsupported('symbolic object %r' % (o,))
                if d[0] == 'seq':
                    v = SeqV((('S', self.origin(d[2], d[1]), 0, d[3]),))
                else:
                    v = self.mkopq(d[1], d[2] + ('*',))
            elif isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], int):
                fr = st.frames[o[0]]
                v = Un(self.prog.fns[fr.fn]['locals'][o[1]])
            else:
                raise Unsupported('unknown object %r' % (o,))
            st.mem[o] = v
        if o in st.freed:
            self.problem(st, 'use-after-free', 'access to freed memory')
        return v

    def proj(self, st, v, step):
        k = step[0]
        if k == 'f':
            if isinstance(v, Agg):
                if step[2] is not None and v.var != step[2]:
                    raise Unsupported('variant mismatch %r %r' % (v, step))
                return v.fs[step[1]]
            if isinstance(v, Opq):
                var_ = step[2]
                if var_ is None:
                    var_ = 0
                elif v.key in st.known and st.known[v.key] != var_:
                    raise Dead()
                return self.expand(st, v, var_).fs[step[1]]
            if isinstance(v, Un):
                fs = self.fields_of(v.ty, step[2] or 0)
                return Un(fs[step[1]])
            r = self.models.native_field(self, st, v, step)
            if r is not None:
                return r
            raise Unsupported('field of %r' % (v,))
        if k == 'el':
            if isinstance(v, SeqV):
                return self.seq_get(st, v, step[1])
            if isinstance(v, Un):
                return Un(self.prog.tys[v.ty]['k'][1])
            if isinstance(v, Opq):
                raise Unsupported('index into %r' % (v,))
            # pointer to a single value viewed as a one element slice
            if st.facts.const(step[1]) == 0:
                return v
            self.problem(st, 'out-of-bounds', 'element access outside of an object')
        raise Unsupported('projection %r' % (step,))

    def read(self, st, obj, path):
        if obj is None:
            self.problem(st, 'null-deref', 'read through a null or dangling pointer')
        v = self.getobj(st, obj)
        if path and self.check is not None and path[-1][0] == 'el':
            self.check.on_read(self, st, obj, path)
        elif path and self.check is not None:
            self.check.on_field(self, st, obj, path)
        for s in path:
            v = self.proj(st, v, s)
        return v

    def write(self, st, obj, path, val):
        if obj is None:
            self.problem(st, 'null-deref', 'write through a null or dangling pointer')
        if self.check is not None:
            if self.check.on_write(self, st, obj, path, val):
                return
        if not path:
            st.mem[obj] = val
            return
        v = self.getobj(st, obj)
        st.mem[obj] = self.upd(st, v, path, 0, val)

    def upd(self, st, v, path, i, val):
        if i == len(path):
            return val
        step = path[i]
        if step[0] == 'f':
            if isinstance(v, Opq):
                var_ = step[2]
                if var_ is None:
                    var_ = 0
                v = self.expand(st, v, var_)
            elif isinstance(v, Un):
                var_ = step[2] or 0
                v = Agg(v.ty, var_, tuple(Un(f) for f in self.fields_of(v.ty, var_)))
            if isinstance(v, Agg):
                if step[2] is not None and v.var != step[2]:
                    if v.var is None or all(isinstance(f, Un) for f in v.fs):
                        v = Agg(v.ty, step[2], tuple(Un(f) for f in self.fields_of(v.ty, step[2])))
                    else:
                        raise Unsupported('write to other variant')
                fs = list(v.fs)
                fs[step[1]] = self.upd(st, fs[step[1]], path, i + 1, val)
                return Agg(v.ty, v.var, tuple(fs))
            r = self.models.native_upd(self, st, v, path, i, val)
            if r is not None:
                return r
            raise Unsupported('write into %r' % (v,))
        if step[0] == 'el':
            if isinstance(v, Un):
                v = self.models.uninit_seq(self, v.ty)
            if isinstance(v, SeqV):
                if i + 1 < len(path):
                    cur = self.seq_get(st, v, step[1])
                    val = self.upd(st, cur, path, i + 1, val)
                return self.seq_set(st, v, step[1], val)
            if st.facts.const(step[1]) == 0:
                return self.upd(st, v, path, i + 1, val)
            self.problem(st, 'out-of-bounds', 'element write outside of an object')
        raise Unsupported('write projection')

    # -------------------------------------------------------------- sequences
    def elem_of(self, st, seg, off):
        """element of a segment at offset off (0 <= off < len known)"""
        k = seg[0]
        if k == 'e' or k == 'F':
            return seg[1]
        if k == 'S':
            ety = self.symty.get(('orig', seg[1]))
            idx = add(seg[2], off)
            if self.check is not None:
                v = self.check.known_elem(self, st, seg[1], idx)
                if v is not None:
                    return v
            return self.orig_elem(seg[1], idx)
        if k == 'U':
            return Un(None)
        if k == 'B':
            if self.check is not None:
                v = self.check.base_elem(self, st, seg, off)
                if v is not None:
                    return v
            return var(atom(('bel', seg[1], off), 0, 255))
        if k == 'X':
            return var(atom(('xel', seg[1], seg[2], off), 0, 255))
        raise Unsupported('element of %r' % (seg,))

    def orig_elem(self, origin, idx):
        ety = self.symty.get(('orig', origin))
        if ety is None or ety == self.u8():
            return byte_at(origin, idx)
        return self.mkopq_elem(ety, origin, idx)

    def mkopq_elem(self, ety, origin, idx):
        key = ('elem', origin, idx)
        t = self.prog.tys[ty_id(ety)]['k']
        if not isinstance(t, str) and t[0] == 'adt':
            return Opq(ety, key)
        return self.mkopq(ety, key)

    def seq_find(self, st, q, idx):
        """(segment number, offset inside) of element idx"""
        off = 0
        segs = q.segs
        c = st.facts.const(idx)
        if c is not None:
            idx = c
        for i, s in enumerate(segs):
            n = seglen(s)
            end = add(off, n)
            # idx < end ?
            d = st.facts.decide(c_ge(sub(sub(end, idx), 1)))
            if d is True:
                # idx >= off holds by construction of the scan
                return i, sub(idx, off)
            if d is None:
                if i == len(segs) - 1:
                    break
                cnd = c_ge(sub(sub(end, idx), 1))
                raise Fork([('c', cnd), ('c', c_not(cnd))])
            off = end
        return None, None

    def seq_get(self, st, q, idx):
        lo = st.facts.lb(idx)
        if lo < 0:
            # cannot show non negativity
            self.oblige(st, c_ge(idx), 'out-of-bounds', 'negative element offset')
        v = self.table_get(st, q, idx)
        if v is not None:
            return v[0]
        i, off = self.seq_find(st, q, idx)
        if i is None:
            self.problem(st, 'out-of-bounds', 'read outside of the bounds of a buffer')
        return self.elem_of(st, q.segs[i], off)

    def table_get(self, st, q, idx):
        """look up in a constant table: split by the value found, not by the index"""
        if isinstance(idx, int) or len(q.segs) < 8:
            return None
        v = self.table_term(st, q, idx)
        if v is not None:
            return (v,)
        bs = T.term_bases(idx)
        if len(bs) != 1:
            return None
        b = next(iter(bs))
        dom = st.facts.sets.get(b)
        if dom is None:
            l, h = st.facts.arange(b)
            if h - l >= 300:
                return None
            dom = range(int(l), int(h) + 1)
        table = []
        for s in q.segs:
            if s[0] == 'e' and isinstance(s[1], (int, bool)):
                table.append(s[1])
            elif s[0] == 'F' and isinstance(s[1], (int, bool)) and isinstance(s[2], int):
                table.extend([s[1]] * s[2])
            else:
                return None
        groups = {}
        for x in dom:
            i = T.eval_term(idx, {b: x})
            if i is None or not 0 <= i < len(table):
                return None
            groups.setdefault((type(table[i]), table[i]), []).append(x)
        if len(groups) == 1:
            return (next(iter(groups))[1],)
        if len(groups) > 16:
            return None
        alts = []
        for g in groups.values():
            rs = []
            for x in sorted(g):
                if rs and rs[-1][1] == x - 1:
                    rs[-1][1] = x
                else:
                    rs.append([x, x])
            alts.append(('c', c_or(*[c_and(c_ge(sub(var(b), lo)), c_ge(sub(hi, var(b)))) for lo, hi in rs])))
        raise Fork(alts)

    def seq_split(self, st, q, at):
        """(prefix segs, suffix segs) cut at element index at"""
        c = st.facts.const(at)
        if c is not None:
            at = c
        off = 0
        pre = []
        segs = q.segs
        for i, s in enumerate(segs):
            d0 = sub(at, off)
            if isinstance(d0, int) and d0 == 0 or st.facts.decide(c_eq(d0)) is True:
                return pre, list(segs[i:])
            n = seglen(s)
            end = add(off, n)
            rest = sub(at, end)
            d = st.facts.decide(c_ge(rest))
            if d is None:
                raise Fork([('c', c_ge(rest)), ('c', c_not(c_ge(rest)))])
            if d:
                pre.append(s)
                off = end
                continue
            # cut inside s: 0 <= d0 < n
            if st.facts.lb(d0) < 1:
                dd = st.facts.decide(c_eq(d0))
                if dd is None:
                    raise Fork([('c', c_eq(d0)), ('c', c_ge(sub(d0, 1)))])
            a, b = self.seg_cut(st, s, d0)
            return pre + [a], [b] + list(segs[i + 1:])
        d = st.facts.decide(c_eq(sub(at, off)))
        if d is True:
            return pre, []
        return None, None

    def seg_cut(self, st, s, k):
        n = seglen(s)
        if s[0] == 'S':
            m = add(s[2], k)
            return ('S', s[1], s[2], m), ('S', s[1], m, s[3])
        if s[0] == 'F':
            return ('F', s[1], k), ('F', s[1], sub(n, k))
        if s[0] == 'U':
            return ('U', k), ('U', sub(n, k))
        if s[0] == 'B':
            return ('B', ('cut', s[1], 0, k), k), ('B', ('cut', s[1], k, n), sub(n, k))
        if s[0] == 'X':
            return (('X', 'cut', (s[1], s[2], 0, k), k), ('X', 'cut', (s[1], s[2], k, n), sub(n, k)))
        raise Unsupported('cut of element')

    def table_slice(self, st, q, lo, hi):
        """a short piece of a constant table from a symbolic index on, element by element"""
        n = sub(hi, lo)
        if isinstance(lo, int) or not isinstance(n, int) or not 0 < n <= 8 or self.check is None or not self.check.tables:
            return None
        out = []
        for i in range(n):
            v = self.table_term(st, q, add(lo, i))
            if v is None:
                return None
            out.append(('e', v))
        return mkseq(out)

    def table_term(self, st, q, idx):
        """closed form of a constant table, by the check"""
        if self.check is None or not self.check.tables or isinstance(idx, int):
            return None
        lo, hi = st.facts.lb(idx), st.facts.ub(idx)
        table = [s[1] for s in q.segs if s[0] == 'e' and isinstance(s[1], int)]
        if len(table) != len(q.segs) or not 0 <= lo <= hi < len(table):
            return None
        return self.check.table_term(self, st, table, idx)

    def seq_slice(self, st, q, lo, hi):
        t = self.table_slice(st, q, lo, hi)
        if t is not None:
            return t
        p, rest = self.seq_split(st, q, lo)
        if p is None:
            self.problem(st, 'out-of-bounds', 'slice start outside of the buffer')
        m, r = self.seq_split(st, SeqV(tuple(rest)), sub(hi, lo))
        if m is None:
            self.problem(st, 'out-of-bounds', 'slice end outside of the buffer')
        return mkseq(m)

    def seq_set(self, st, q, idx, val):
        n = seqlen(q)
        if st.facts.lb(idx) < 0:
            self.oblige(st, c_ge(idx), 'out-of-bounds', 'write before the start of a buffer')
        if st.facts.decide(c_eq(sub(idx, n))) is True:
            return mkseq(list(q.segs) + [('e', val)])
        p, rest = self.seq_split(st, q, idx)
        if p is None:
            self.problem(st, 'out-of-bounds', 'write outside of the bounds of a buffer')
        x, r = self.seq_split(st, SeqV(tuple(rest)), 1)
        if x is None:
            self.problem(st, 'out-of-bounds', 'write outside of the bounds of a buffer')
        return mkseq(list(p) + [('e', val)] + list(r))

    def seq_write(self, st, q, at, n, new):
        """replace [at, at+n) by the segments of new, extending at the end"""
        total = seqlen(q)
        p, rest = self.seq_split(st, q, at)
        if p is None:
            self.problem(st, 'out-of-bounds', 'write starts outside of a buffer')
        if st.facts.decide(c_eq(sub(at, total))) is True:
            return mkseq(list(p) + list(new.segs))
        end = add(at, n)
        d = self.holds(st, c_ge(sub(total, end)))
        if not d:
            return mkseq(list(p) + list(new.segs))
        x, r = self.seq_split(st, SeqV(tuple(rest)), n)
        return mkseq(list(p) + list(new.segs) + list(r))

    def seq_eq(self, st, a, b):
        """True / False / None (unknown) -- content equality"""
        f = st.facts
        sa = [s for s in a.segs if f.const(seglen(s)) != 0]
        sb = [s for s in b.segs if f.const(seglen(s)) != 0]
        sa.reverse()
        sb.reverse()
        while sa and sb:
            x = sa.pop()
            y = sb.pop()
            if x[0] == 'e' and y[0] == 'e':
                r = self.val_eq(st, x[1], y[1])
                if r is not True:
                    return r
                continue
            if x[0] == 'B' and y[0] == 'B' and x[1] == y[1]:
                if f.decide(c_eq(sub(x[2], y[2]))) is True:
                    continue
                return None
            if x[0] == 'X' and y[0] == 'X':
                if x[1] == y[1] and x[2] == y[2]:
                    continue
                if x[1] == y[1] and len(x[2]) == len(y[2]) and all(
                        self.val_eq(st, p, q) is True for p, q in zip(x[2], y[2])):
                    continue
                return None
            if x[0] == 'S' and y[0] == 'S' and x[1] == y[1]:
                d = f.decide(c_eq(sub(x[2], y[2])))
                if d is not True:
                    return None
                e = sub(x[3], y[3])
                if f.decide(c_eq(e)) is True:
                    continue
                if f.decide(c_ge(e)) is True:
                    sa.append(('S', x[1], y[3], x[3]))
                    continue
                if f.decide(c_ge(neg(e))) is True:
                    sb.append(('S', x[1], x[3], y[3]))
                    continue
                return None
            if x[0] == 'F' and y[0] == 'F':
                if self.val_eq(st, x[1], y[1]) is not True:
                    return None
                e = sub(x[2], y[2])
                if f.decide(c_eq(e)) is True:
                    continue
                if f.decide(c_ge(e)) is True:
                    sa.append(('F', x[1], e))
                    continue
                if f.decide(c_ge(neg(e))) is True:
                    sb.append(('F', x[1], neg(e)))
                    continue
                return None
            # element against the head of a slice
            if x[0] == 'e' and y[0] in 'SF' and f.lb(seglen(y)) >= 1:
                r = self.val_eq(st, x[1], self.elem_of(st, y, 0))
                if r is not True:
                    return r
                sb.append(self.seg_cut(st, y, 1)[1])
                continue
            if y[0] == 'e' and x[0] in 'SF' and f.lb(seglen(x)) >= 1:
                r = self.val_eq(st, y[1], self.elem_of(st, x, 0))
                if r is not True:
                    return r
                sa.append(self.seg_cut(st, x, 1)[1])
                continue
            return None
        for s in sa + sb:
            n = seglen(s)
            if f.const(n) == 0:
                continue
            if f.lb(n) >= 1:
                return False
            return None
        return True

    def val_eq(self, st, a, b):
        if a is b:
            return True
        if is_int(a) and is_int(b):
            return st.facts.decide(c_eq(sub(a, b)))
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            return self.seq_eq(st, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.var != b.var or len(a.fs) != len(b.fs):
                return False
            r = True
            for x, y in zip(a.fs, b.fs):
                e = self.val_eq(st, x, y)
                if e is not True:
                    if e is False:
                        return False
                    r = None
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not is_cond(a):
            r = True
            for x, y in zip(a, b):
                e = self.val_eq(st, x, y)
                if e is False:
                    return False
                if e is None:
                    r = None
            return r
        if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            return a == b if type(a) == type(b) else None
        if vkey(a) == vkey(b):
            return True
        return None

    # -------------------------------------------------------------- places
    def place(self, st, p):
        """resolve to (obj, path, meta, ty)"""
        fr = st.frames[-1]
        f = self.prog.fns[fr.fn]
        obj = (len(st.frames) - 1, p[0])
        path = ()
        meta = None
        ty = f['locals'][p[0]]
        variant = None
        for e in p[1:]:
            k = e[0]
            if k == 'd':
                v = self.read(st, obj, path)
                tk = self.prog.tys[ty]['k']
                if isinstance(v, Opq) and self.is_adt(ty):
                    raise Unsupported('deref of box')
                if not isinstance(v, Ptr):
                    v = self.to_ptr(st, v)
                obj, path, meta = v.obj, v.path, v.meta
                ty = tk[2] if not isinstance(tk, str) and tk[0] in ('ref', 'ptr') else ty
                variant = None
            elif k == 'f':
                if self.is_union(ty):
                    ty = e[2]
                    continue
                path = path + (('f', e[1], variant),)
                ty = e[2]
                variant = None
                meta = None
            elif k == 'v':
                variant = e[1]
            elif k == 'i':
                idx = self.read(st, (len(st.frames) - 1, e[1]), ())
                path, ty = self.index_path(st, path, ty, idx)
                meta = None
            elif k == 'ci':
                tk = self.prog.tys[ty]['k']
                if e[3]:
                    n = meta if meta is not None else tk[2]
                    idx = sub(n, e[1])
                else:
                    idx = e[1]
                path, ty = self.index_path(st, path, ty, idx)
                meta = None
            elif k == 's':
                tk = self.prog.tys[ty]['k']
                n = meta if meta is not None else tk[2]
                lo = e[1]
                hi = sub(n, e[2]) if e[3] else e[2]
                path, _ = self.index_path(st, path, ty, lo)
                meta = sub(hi, lo)
            elif k == 'o':
                pass
            else:
                raise Unsupported('place %r' % (e,))
        return obj, path, meta, ty

    def index_path(self, st, path, ty, idx):
        tk = self.prog.tys[ty]['k']
        if tk[0] == 'slice':
            if path and path[-1][0] == 'el':
                return path[:-1] + (('el', add(path[-1][1], idx)),), tk[1]
            return path + (('el', idx),), tk[1]
        return path + (('el', idx),), tk[1]

    def to_ptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Agg) and len(v.fs) >= 1:
            for f in v.fs:
                try:
                    return self.to_ptr(st, f)
                except Unsupported:
                    continue
        if is_int(v):
            return Ptr(None, (v,), None)
        raise Unsupported('deref of %r' % (v,))

    def read_place(self, st, p):
        if len(p) == 1:
            return self.getobj(st, (len(st.frames) - 1, p[0]))
        obj, path, meta, ty = self.place(st, p)
        return self.read(st, obj, path)

    def write_place(self, st, p, val):
        if len(p) == 1:
            self.write(st, (len(st.frames) - 1, p[0]), (), val)
            return
        obj, path, meta, ty = self.place(st, p)
        self.write(st, obj, path, val)

    # -------------------------------------------------------------- operands
    def op(self, st, o):
        k = o[0]
        if k == 'c' or k == 'm':
            return self.read_place(st, o[1])
        if k == 'k':
            return self.const(st, o[1], o[2])
        if k == 'rc':
            return False
        raise Unsupported('operand %r' % (o,))

    def const(self, st, ty, c):
        k = c[0]
        if k == 'i':
            tk = self.prog.tys[ty]['k']
            if tk == 'bool':
                return bool(c[1])
            if not isinstance(tk, str) and tk[0] in ('ptr', 'ref'):
                return Ptr(None, (c[1],), None)
            if not isinstance(tk, str) and tk[0] == 'float':
                return Opq(ty, ('fconst', c[1]))
            if not isinstance(tk, str) and tk[0] == 'adt':
                return self.wrap_scalar(ty, c[1])
            return c[1]
        if k == 'z':
            return Agg(ty, 0, ())
        if k == 'a':
            tk = self.prog.tys[ty]['k']
            if not isinstance(tk, str) and tk[0] == 'array':
                return SeqV(tuple(('e', self.constf(st, f, tk[1])) for f in c[2]))
            ftys = self.fields_of(ty, c[1])
            return Agg(ty, c[1], tuple(self.constf(st, f, ft) for f, ft in zip(c[2], ftys)))
        if k == 'b':
            return bytes_seq(c[1])
        if k == 'sl':
            # fat pointer into constant memory
            o = ('const', c[1])
            if o not in st.mem:
                st.mem[o] = self.const_seq(st, c[4], c[5])
            return Ptr(o, (('el', c[2]),), c[3])
        if k == 'r':
            o = ('const', c[1])
            if o not in st.mem:
                st.mem[o] = self.const(st, c[3], c[4])
            p = ()
            if c[2]:
                p = (('el', c[2]),)
            return Ptr(o, p)
        if k == 'st':
            o = ('const', c[1])
            if o not in st.mem:
                if c[5]:
                    self.problem(st, 'mutable-global', 'mutable static %s' % c[1])
                st.mem[o] = self.const(st, c[2], c[3])
            return Ptr(o, ())
        if k == 'fn':
            return Agg(('fn', c[1]), 0, ())
        return Opq(ty, ('const?', repr(c)[:80]))

    def constf(self, st, f, ft):
        # a field constant: either ['k', ty, const] or bare const
        if f and f[0] == 'k':
            return self.const(st, f[1], f[2])
        return self.const(st, ft, f)

    def const_seq(self, st, ety, inner):
        if inner[0] == 'b':
            return bytes_seq(inner[1])
        if inner[0] == 'a':
            return SeqV(tuple(('e', self.constf(st, f, ety)) for f in inner[2]))
        if inner[0] == 'z':
            return EMPTY
        raise Unsupported('constant slice %r' % (inner[0],))

    def wrap_scalar(self, ty, n):
        """scalar constant of a newtype struct / fieldless enum"""
        a = self.adt(ty)
        if a['kind'] == 'enum':
            for i, v in enumerate(a['variants']):
                if int(v['discr']) == n and not v['fields']:
                    return Agg(ty, i, ())
            raise Unsupported('scalar enum const')
        fs = self.variant_fields(ty, 0)
        out = []
        for f in fs:
            if self.prog.tys[f].get('size', 0):
                fk = self.prog.tys[f]['k']
                out.append(self.const(None, f, ['i', n]))
            else:
                out.append(Agg(f, 0, ()))
        return Agg(ty, 0, tuple(out))

    # -------------------------------------------------------------- arithmetic
    def int_ty(self, ty):
        k = self.prog.tys[ty]['k']
        if k == 'bool':
            return 1, False
        if k == 'char':
            return 32, False
        if not isinstance(k, str) and k[0] == 'int':
            return k[1], k[2]
        if not isinstance(k, str) and k[0] in ('ptr', 'ref'):
            return 64, False
        return None

    def as_term(self, st, v):
        if is_int(v):
            return v
        if isinstance(v, bool):
            return int(v)
        if is_cond(v):
            return 1 if self.holds(st, v) else 0
        if isinstance(v, Un):
            self.problem(st, 'uninit', 'use of uninitialised memory')
        raise Unsupported('integer value of %r' % (v,))

    def wrap(self, st, t, bits, signed):
        lo, hi = T.ty_range(bits, signed)
        if isinstance(t, int):
            return T.wrap(t, bits, signed)
        l, h = st.facts.lb(t), st.facts.ub(t)
        if l >= lo and h <= hi:
            return t
        m = 1 << bits
        if l != -INF and h != INF:
            q0 = (l - lo) // m
            q1 = (h - lo) // m
            if q1 - q0 <= 3:
                # exact by cases
                for q in range(q0, q1):
                    c = c_ge(sub(add(lo, (q + 1) * m - 1), t))
                    if self.holds(st, c):
                        return sub(t, q * m)
                return sub(t, q1 * m)
        return self.pw('wrap', lambda v, bits=bits, signed=signed: T.wrap(v, bits, signed), (t,), lo, hi, (bits, signed))

    def pw(self, kind, fn, args, lo, hi, extra=()):
        return var(atom((kind,) + tuple(args) + tuple(extra), lo, hi, fn, args))

    def divrem(self, st, a, b):
        """truncated quotient/remainder of non negative a by positive const b"""
        if isinstance(a, int):
            return a // b, a % b
        if b == 1:
            return a, 0
        # split off the multiple part
        qd, rd, qc = {}, {}, 0
        for x, k in a.t:
            if k % b == 0:
                qd[x] = k // b
            else:
                rd[x] = k
        qc, rc = divmod(a.c, b)
        rest = mk(rc, rd)
        qpart = mk(qc, qd)
        if self.check is not None and self.check.tables and st.facts.ub(a) - st.facts.lb(a) < st.facts.ub(rest) - st.facts.lb(rest):
            rest, qpart = a, 0
        if isinstance(rest, int):
            return add(qpart, rest // b), rest % b
        l, h = st.facts.lb(rest), st.facts.ub(rest)
        if l >= 0 and h < b:
            return qpart, rest
        if l != -INF and h != INF and l // b == h // b:
            q = l // b
            return add(qpart, q), sub(rest, q * b)
        q = self.pw('div', lambda v, b=b: v // b, (rest, b), (l // b) if l != -INF else -INF, (h // b) if h != INF else INF)
        qa = q.t[0][0]
        r = sub(rest, scale(q, b))
        # 0 <= r < b
        f = st.facts.copy()
        if not f._add_ge(r) or not f._add_ge(sub(b - 1, r)):
            raise Dead()
        st.facts = f
        return add(qpart, q), r

    def mul(self, st, a, b):
        if isinstance(a, int):
            return scale(b, a) if not isinstance(b, int) else a * b
        if isinstance(b, int):
            return scale(a, b)
        ca, cb = st.facts.const(a), st.facts.const(b)
        if ca is not None:
            return self.mul(st, ca, b)
        if cb is not None:
            return self.mul(st, a, cb)
        if (str(a)) > (str(b)):
            a, b = b, a
        la, ha = st.facts.range0(a)
        lb_, hb = st.facts.range0(b)
        ps = [mulinf(x, y) for x in (la, ha) for y in (lb_, hb)]
        return self.pw('mul', lambda x, y: x * y, (a, b), -INF, INF)

    def arith(self, st, opn, a, b, bits, signed):
        """exact mathematical result (not wrapped)"""
        if opn == 'Add':
            return add(a, b)
        if opn == 'Sub':
            return sub(a, b)
        if opn == 'Mul':
            return self.mul(st, a, b)
        raise Unsupported(opn)

    def binop(self, st, name, a, b, ty, resty=None):
        tk = self.prog.tys[ty]['k']
        if not isinstance(tk, str) and tk[0] == 'float':
            return self.floatop(st, name, a, b, ty)
        if name == 'Offset':
            return self.ptr_offset(st, a, self.as_term(st, b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_cmp(st, name, a, b)
        it = self.int_ty(ty)
        if it is None:
            if name in ('Eq', 'Ne') and isinstance(a, Agg) and isinstance(b, Agg) and not a.fs and not b.fs:
                return (a.var == b.var) == (name == 'Eq')
            raise Unsupported('binop %s on %r' % (name, tk))
        bits, signed = it
        if tk == 'bool':
            if name == 'Eq' or name == 'Ne':
                if isinstance(b, bool):
                    r = a if b else c_not(a)
                elif isinstance(a, bool):
                    r = b if a else c_not(b)
                else:
                    x = self.holds(st, a)
                    r = b if x else c_not(b)
                return r if name == 'Eq' else c_not(r)
            if name == 'BitAnd':
                return c_and(a, b)
            if name == 'BitOr':
                return c_or(a, b)
            if name == 'BitXor':
                x = self.holds(st, a)
                return c_not(b) if x else b
        a = self.as_term(st, a)
        b = self.as_term(st, b)
        if name == 'Eq':
            return c_eq(sub(a, b))
        if name == 'Ne':
            return c_not(c_eq(sub(a, b)))
        if name == 'Lt':
            return c_ge(sub(sub(b, a), 1))
        if name == 'Le':
            return c_ge(sub(b, a))
        if name == 'Gt':
            return c_ge(sub(sub(a, b), 1))
        if name == 'Ge':
            return c_ge(sub(a, b))
        lo, hi = T.ty_range(bits, signed)
        if name.endswith('WithOverflow'):
            r = self.arith(st, name[:-12], a, b, bits, signed)
            ov = c_or(c_ge(sub(lo - 1, r)), c_ge(sub(r, hi + 1)))
            d = st.facts.decide(ov)
            if d is not None:
                ov = d
            return Agg('()', 0, (r, ov))
        if name in ('Add', 'Sub', 'Mul'):
            return self.wrap(st, self.arith(st, name, a, b, bits, signed), bits, signed)
        if name in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = self.arith(st, name[:3], a, b, bits, signed)
            return r
        ca, cb = st.facts.const(a), st.facts.const(b)
        if ca is not None:
            a = ca
        if cb is not None:
            b = cb
        if name in ('Div', 'Rem'):
            if isinstance(b, int) and b > 0 and (not signed or st.facts.lb(a) >= 0):
                q, r = self.divrem(st, a, b)
                return q if name == 'Div' else r
            if isinstance(a, int) and isinstance(b, int) and b:
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b > 0) else -q
                return q if name == 'Div' else a - q * b
            f = (lambda x, y: None if y == 0 else (abs(x) // abs(y)) * (1 if (x >= 0) == (y > 0) else -1)) if name == 'Div' else \
                (lambda x, y: None if y == 0 else x - y * ((abs(x) // abs(y)) * (1 if (x >= 0) == (y > 0) else -1)))
            return self.pw('sdiv' if name == 'Div' else 'srem', f, (a, b), lo, hi)
        if name in ('Shl', 'ShlUnchecked'):
            if isinstance(b, int):
                return self.wrap(st, scale(a, 1 << (b % bits)) if not isinstance(a, int) else a << (b % bits), bits, signed)
            return self.pw('shl', lambda x, y, bits=bits, signed=signed: T.wrap(x << (y % bits), bits, signed), (a, b), lo, hi, (bits, signed))
        if name in ('Shr', 'ShrUnchecked'):
            if isinstance(b, int):
                b %= bits
                if isinstance(a, int):
                    return a >> b
                if st.facts.lb(a) >= 0:
                    return self.divrem(st, a, 1 << b)[0]
            return self.pw('shr', lambda x, y, bits=bits: x >> (y % bits), (a, b), lo, hi)
        if name == 'BitAnd':
            if isinstance(a, int) and isinstance(b, int):
                return a & b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0 and st.facts.lb(a) >= 0:
                return self.divrem(st, a, b + 1)[1]
            if b == 0:
                return 0
            if isinstance(b, int) and b > 0 and st.facts.lb(a) >= 0:
                low = (b & -b).bit_length() - 1
                m = b >> low
                if m & (m + 1) == 0:
                    q = self.divrem(st, a, 1 << low)[0]
                    return scale(self.divrem(st, q, m + 1)[1], 1 << low)
            return self.pw('and', lambda x, y: x & y, (a, b), 0 if not signed else lo, hi)
        if name == 'BitOr':
            if isinstance(a, int) and isinstance(b, int):
                return a | b
            r = self.disjoint_or(st, a, b)
            if r is not None:
                return r
            if not isinstance(a, int) and str(a) > str(b) or isinstance(a, int):
                a, b = b, a
            return self.pw('or', lambda x, y: x | y, (a, b), 0 if not signed else lo, hi)
        if name == 'BitXor':
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b
            if not isinstance(a, int) and str(a) > str(b) or isinstance(a, int):
                a, b = b, a
            return self.pw('xor', lambda x, y: x ^ y, (a, b), 0 if not signed else lo, hi)
        if name == 'Cmp':
            oty = resty
            if self.holds(st, c_ge(sub(sub(b, a), 1))):
                return Agg(oty, 0, ())
            if self.holds(st, c_eq(sub(a, b))):
                return Agg(oty, 1, ())
            return Agg(oty, 2, ())
        raise Unsupported('binop ' + name)

    def disjoint_or(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                g = x
            else:
                g = x.c
                for _, k in x.t:
                    from math import gcd
                    g = gcd(g, k)
            if g == 0:
                return y
            p = g & -g
            if p > 1 and st.facts.lb(x) >= 0 and st.facts.lb(y) >= 0 and st.facts.ub(y) < p:
                return add(x, y)
        return None

    def floatop(self, st, name, a, b, ty):
        ka, kb = vkey(a), vkey(b)
        if name == 'Ne':
            return c_not(self.floatop(st, 'Eq', a, b, ty))
        if name in ('Gt', 'Ge'):
            return self.floatop(st, 'Lt' if name == 'Gt' else 'Le', b, a, ty)
        if name == 'Eq' and repr(ka) > repr(kb):
            ka, kb = kb, ka
        if name in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return c_eq(sub(var(atom(('fcmp', name, ka, kb), 0, 1)), 1))
        return Opq(ty, ('fop', name, ka, kb))

    def ptr_norm(self, p):
        path = p.path
        while path and path[-1][0] == 'el' and path[-1][1] == 0:
            path = path[:-1]
        return p.obj, path

    def ptr_cmp(self, st, name, a, b):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported('pointer comparison')
        if a.obj is None and b.obj is None:
            d = sub(a.path[0], b.path[0])
        elif a.obj is None or b.obj is None:
            if name == 'Eq':
                return False
            if name == 'Ne':
                return True
            raise Unsupported('pointer order')
        elif a.obj != b.obj:
            if name == 'Eq':
                return False
            if name == 'Ne':
                return True
            raise Unsupported('pointer order')
        else:
            pa = a.path if a.path and a.path[-1][0] == 'el' else a.path + (('el', 0),)
            pb = b.path if b.path and b.path[-1][0] == 'el' else b.path + (('el', 0),)
            if pa[:-1] != pb[:-1]:
                if name == 'Eq':
                    return False
                if name == 'Ne':
                    return True
                raise Unsupported('pointer order')
            d = sub(pa[-1][1], pb[-1][1])
        if name == 'Eq':
            return c_eq(d)
        if name == 'Ne':
            return c_not(c_eq(d))
        if name == 'Lt':
            return c_ge(sub(neg(d), 1))
        if name == 'Le':
            return c_ge(neg(d))
        if name == 'Gt':
            return c_ge(sub(d, 1))
        if name == 'Ge':
            return c_ge(d)
        raise Unsupported('pointer op ' + name)

    def ptr_offset(self, st, p, k):
        p = self.to_ptr(st, p)
        if p.obj is None:
            return Ptr(None, (add(p.path[0], k),), p.meta)
        if p.path and p.path[-1][0] == 'el':
            return Ptr(p.obj, p.path[:-1] + (('el', add(p.path[-1][1], k)),), p.meta)
        if k == 0:
            return p
        return Ptr(p.obj, p.path + (('el', k),), p.meta)

    def unop(self, st, name, a, ty):
        if name == 'PtrMetadata':
            a = self.to_ptr(st, a)
            return a.meta if a.meta is not None else UNIT
        tk = self.prog.tys[ty]['k']
        if name == 'Not':
            if tk == 'bool':
                return c_not(a)
            bits, signed = self.int_ty(ty)
            a = self.as_term(st, a)
            return sub(-1 if signed else (1 << bits) - 1, a)
        if name == 'Neg':
            if not isinstance(tk, str) and tk[0] == 'float':
                return Opq(ty, ('fneg', vkey(a)))
            bits, signed = self.int_ty(ty)
            return self.wrap(st, neg(self.as_term(st, a)), bits, signed)
        raise Unsupported('unop ' + name)

    def cast(self, st, kind, v, fty, tty):
        if kind == 'IntToInt':
            it = self.int_ty(tty)
            if isinstance(v, (Agg, Opq)):  # fieldless enum as int
                i = self.variant_of(st, v)
                v = int(self.adt(fty)['variants'][i]['discr'])
            if self.prog.tys[tty]['k'] == 'bool':
                return v
            v = self.as_term(st, v)
            return self.wrap(st, v, *it)
        if kind in ('PtrToPtr', 'FnPtrToPtr'):
            return self.ptr_cast(st, v, fty, tty)
        if kind.startswith('PointerCoercion(Unsize'):
            p = self.to_ptr(st, v)
            fk = self.prog.tys[fty]['k']
            tk = self.prog.tys[tty]['k']
            if not isinstance(fk, str) and fk[0] in ('ref', 'ptr'):
                inner = self.prog.tys[fk[2]]['k']
                to = self.prog.tys[tk[2]]['k']
                if not isinstance(inner, str) and inner[0] == 'array' and not isinstance(to, str) and to[0] == 'slice':
                    return Ptr(p.obj, p.path + (('el', 0),), inner[2])
                return Ptr(p.obj, p.path, ('vt', fk[2]))
            return v
        if kind.startswith('PointerCoercion'):
            return v
        if kind == 'Transmute':
            return self.transmute(st, v, fty, tty)
        if kind in ('IntToFloat', 'FloatToFloat'):
            return Opq(tty, (kind, self.prog.tys[tty]['s'], vkey(v)))
        if kind == 'FloatToInt':
            lo, hi = T.ty_range(*self.int_ty(tty))
            return var(atom(('f2i', vkey(v)), lo, hi))
        if kind in ('PointerExposeProvenance', 'PointerExposeAddress'):
            return var(atom(('addr', vkey(v)), 0, (1 << 64) - 1))
        if kind in ('PointerWithExposedProvenance', 'PointerFromExposedAddress'):
            return Ptr(None, (v,), None)
        raise Unsupported('cast ' + kind)

    def pointee(self, ty):
        k = self.prog.tys[ty]['k']
        if not isinstance(k, str) and k[0] in ('ref', 'ptr'):
            return k[2]
        return None

    def ptr_cast(self, st, v, fty, tty):
        p = self.to_ptr(st, v)
        a, b = self.pointee(fty), self.pointee(tty)
        if a is None or b is None or a == b:
            return p
        ak, bk = self.strip_union(a), self.strip_union(b)
        an, bn = self.prog.tys[ak]['k'], self.prog.tys[bk]['k']
        aa = not isinstance(an, str) and an[0] == 'array'
        fat = lambda k: k == 'str' or (not isinstance(k, str) and k[0] in ('slice', 'dyn'))
        ba = not isinstance(bn, str) and bn[0] == 'array'
        if fat(bn):
            return p
        if fat(an):
            if ba:
                return self.el_to_array(st, p, bn[2])
            return Ptr(p.obj, p.path, None)
        if aa and not ba:
            # pointer to array -> pointer to element
            if p.obj is None:
                return p
            return Ptr(p.obj, p.path + (('el', 0),), None)
        if ba and not aa:
            return self.el_to_array(st, p, bn[2])
        return p

    def el_to_array(self, st, p, n):
        if p.obj is None:
            return p
        return Ptr(p.obj, p.path + (('arr', n),), None)

    def strip_union(self, ty):
        while self.is_union(ty):
            ty = self.union_inner(ty)
        return ty

    def transmute(self, st, v, fty, tty):
        fk, tk = self.prog.tys[fty]['k'], self.prog.tys[tty]['k']
        if fty == tty:
            return v
        isptr = lambda k: not isinstance(k, str) and k[0] in ('ref', 'ptr')
        isint = lambda k: k in ('bool', 'char') or (not isinstance(k, str) and k[0] == 'int')
        if isptr(fk) and isptr(tk):
            return self.ptr_cast(st, v, fty, tty)
        isfl = lambda k: not isinstance(k, str) and k[0] == 'float'
        if isfl(fk) and isint(tk):
            if isinstance(v, Opq) and v.key[0] == 'ffrombits':
                return v.key[1]
            return var(atom(('fbits', vkey(v)), 0, (1 << fk[1]) - 1))
        if isint(fk) and isfl(tk):
            if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].key[0] == 'fbits':
                k = v.t[0][0].key[1]
                if k[0] == 'O':
                    return Opq(k[1], k[2])
            return Opq(tty, ('ffrombits', v))
        if isint(fk) and isint(tk):
            if tk == 'bool':
                return c_not(c_eq(self.as_term(st, v)))
            v = self.as_term(st, v)
            return self.wrap(st, v, *self.int_ty(tty))
        if isptr(fk) and not isinstance(tk, str) and tk[0] == 'adt':
            return self.into_newtype(tty, v)
        if isptr(tk) and isinstance(v, (Agg, Ptr)):
            return self.to_ptr(st, v)
        if isptr(tk) and is_int(v):
            return Ptr(None, (v,), None)
        if isint(tk) and isinstance(v, Agg):
            x = v
            while isinstance(x, Agg) and x.fs:
                c = [f for f in x.fs if not (isinstance(f, Agg) and not f.fs)]
                if len(c) != 1:
                    break
                x = c[0]
            if is_int(x):
                return self.wrap(st, x, *self.int_ty(tty))
            if isinstance(x, Ptr):
                return x
            if isinstance(x, Agg) and not x.fs and self.is_adt(fty):
                return int(self.adt(x.ty)['variants'][x.var]['discr'])
        if isint(fk) and not isinstance(tk, str) and tk[0] == 'adt':
            a = self.adt(tty)
            if a['kind'] == 'struct':
                return self.into_newtype(tty, v)
            if a['kind'] == 'enum':
                c = st.facts.const(self.as_term(st, v))
                if c is not None:
                    return self.wrap_scalar(tty, c)
                if name_of(self, tty).endswith('Alignment'):
                    return Agg(tty, 0, ())
        if isinstance(v, (Opq, Agg)):
            if not isinstance(fk, str) and not isinstance(tk, str) and fk[0] == 'adt' and tk[0] == 'adt' and isinstance(v, Agg):
                # newtype <-> newtype
                x = v
                return Agg(tty, v.var, v.fs)
        r = self.models.transmute(self, st, v, fty, tty)
        if r is not None:
            return r
        raise Unsupported('transmute %s -> %s' % (self.prog.tys[fty]['s'], self.prog.tys[tty]['s']))

    def into_newtype(self, ty, v):
        k = self.prog.tys[ty]['k']
        if isinstance(k, str) or k[0] != 'adt':
            return v
        if k[1] == 'union':
            return v
        fs = []
        for f in self.variant_fields(ty, 0):
            if self.prog.tys[f].get('size', 0):
                fs.append(self.into_newtype(f, v))
            else:
                fs.append(Agg(f, 0, ()))
        return Agg(ty, 0, tuple(fs))

    # -------------------------------------------------------------- rvalues
    def rvalue(self, st, r, destty=None):
        k = r[0]
        if k == 'use':
            return self.op(st, r[1])
        if k == 'ref':
            obj, path, meta, ty = self.place(st, r[2])
            return Ptr(obj, path, meta)
        if k == 'bin':
            return self.binop(st, r[1], self.op(st, r[2]), self.op(st, r[3]), r[4], destty)
        if k == 'un':
            return self.unop(st, r[1], self.op(st, r[2]), r[3])
        if k == 'cast':
            return self.cast(st, r[1], self.op(st, r[2]), r[3], r[4])
        if k == 'discr':
            v = self.read_place(st, r[1])
            return self.discr(st, v, r[2])
        if k == 'agg':
            kind, ty, variant, ops, uf = r[1:6]
            vals = tuple(self.op(st, o) for o in ops)
            if kind == 'array':
                return mkseq([('e', v) for v in vals])
            if kind == 'rawptr':
                p = self.to_ptr(st, vals[0])
                m = vals[1]
                if isinstance(m, Agg) and not m.fs:
                    return Ptr(p.obj, p.path, None)
                if p.obj is not None and not (p.path and p.path[-1][0] == 'el'):
                    return Ptr(p.obj, p.path + (('el', 0),), m)
                return Ptr(p.obj, p.path, m)
            if uf is not None and uf is not False:
                return vals[0]
            if ty is None and destty is not None:
                ty = destty
            return Agg(ty if ty is not None else '()', variant or 0, vals)
        if k == 'rep':
            v = self.op(st, r[1])
            n = r[2]
            return mkseq([('F', v, n)])
        raise Unsupported('rvalue ' + k)

    def only_variant(self, ty):
        """discriminant of a type without content"""
        k = self.prog.tys[ty]['k']
        if self.prog.tys[ty].get('size', 1) or isinstance(k, str) or k[0] != 'adt' or k[1] != 'enum':
            return None
        vs = [v for v in self.adt(ty)['variants'] if all(self.inhabited(f[1]) for f in v['fields'])]
        return int(vs[0]['discr']) if len(vs) == 1 else None

    def inhabited(self, ty):
        k = self.prog.tys[ty]['k']
        if isinstance(k, str):
            return k != 'never'
        if k[0] == 'adt' and k[1] == 'enum':
            return any(all(self.inhabited(f[1]) for f in v['fields']) for v in self.adt(ty)['variants'])
        return k[0] != 'never'

    def discr(self, st, v, ty):
        if isinstance(v, Un):
            one = self.only_variant(ty)
            if one is not None:
                return one
            self.problem(st, 'uninit', 'discriminant of uninitialised memory')
        i = self.variant_of(st, v)
        k = self.prog.tys[ty]['k']
        if not isinstance(k, str) and k[0] == 'adt' and k[1] == 'enum':
            return int(self.adt(ty)['variants'][i]['discr'])
        return 0

    # -------------------------------------------------------------- statements
    def stmt(self, st, s):
        k = s[0]
        if k == '=':
            p = s[1]
            destty = None
            r = s[2]
            if r[0] == 'agg' and r[2] is None or r[0] == 'bin' and r[1] == 'Cmp':
                destty = self.place_ty(st, p)
            v = self.rvalue(st, r, destty)
            if r[0] == 'bin' and isinstance(v, Agg) and v.ty == '()':
                pass
            self.write_place(st, p, v)
        elif k == 'sl':
            st.mem.pop((len(st.frames) - 1, s[1]), None)
        elif k == 'sx':
            st.mem.pop((len(st.frames) - 1, s[1]), None)
        elif k == 'assume':
            c = self.op(st, s[1])
            if is_cond(c):
                self.assume(st, c)
        elif k == 'cpy':
            src, dst, n = [self.op(st, o) for o in s[1]]
            self.models.copy_mem(self, st, src, dst, n)
        elif k == 'sd':
            raise Unsupported('set discriminant')

    def place_ty(self, st, p):
        if len(p) == 1:
            return self.prog.fns[st.frames[-1].fn]['locals'][p[0]]
        return self.place(st, p)[3]

    # -------------------------------------------------------------- running
    def cfg(self, fid):
        c = self.cfgs.get(fid)
        if c is None:
            c = self.cfgs[fid] = Cfg(self.prog, self.prog.fns[fid])
        return c

    def push_frame(self, st, f, args, dest, target, extra=None):
        """enter function body; dest/target: in the caller"""
        depth = len(st.frames)
        if depth > self.max_depth:
            raise Unsupported('call depth')
        if f['crate'] == 'json':
            self.touched.add(f['path'])
        fr = Frame(f['F'], 0, dest, target, (), extra)
        st.frames = st.frames + (fr,)
        argc = f['argc']
        for i, a in enumerate(args):
            st.mem[(depth, i + 1)] = a

    def set_frame(self, st, **kw):
        st.frames = st.frames[:-1] + (st.frames[-1]._replace(**kw),)

    def start(self, f, args, ghost=None, init=None):
        st = new_state()
        if ghost:
            st.ghost.update(ghost)
        if init:
            init(st)
        self.push_frame(st, f, list(args), None, None)
        return st

    def run(self, states):
        self.queue = {}
        self.heap = []
        self.heads = {}
        self.seqno = itertools.count()
        for s in states:
            self.enqueue(s)
        while self.heap:
            prio, n, key = heapq.heappop(self.heap)
            st = self.queue.pop(key, None)
            if st is None:
                continue
            self.steps += 1
            if self.steps > self.budget:
                raise Budget()
            self.exec_from(st)
        return self.results

    def prio(self, st):
        out = []
        for fr in st.frames:
            out.append(self.cfg(fr.fn).rpo[fr.bb])
        return tuple(out)

    def enqueue(self, st):
        fr = st.frames[-1]
        cfg = self.cfg(fr.fn)
        bb = fr.bb
        loops = cfg.loops_of[bb]
        # maintain loop instance keys
        li = fr.loops
        if len(li) > len(loops) or any(a[0] != b for a, b in zip(li, loops)):
            n = 0
            while n < len(li) and n < len(loops) and li[n][0] == loops[n]:
                n += 1
            li = li[:n]
            self.set_frame(st, loops=li)
        if bb in cfg.heads and not (self.check is not None and self.check.unroll):
            self.at_head(st, cfg, bb, li)
            return
        if len(li) < len(loops):
            # entered a loop not through its head (irreducible): treat as plain
            pass
        if self.merge and (bb in cfg.join or st.frames[-1].extra == 'ret'):
            self.gc(st)
            key = ('j', self.shape(st))
            old = self.queue.get(key)
            if old is not None:
                self.stats['joins'] += 1
                m = self.match(old, st)
                if m:
                    return
                if self.check is None or self.check.mergeable(self, old, st):
                    self.queue[key] = new = self.join(old, st, ('j',))
                    self.canon(new)
                    return
                key = key + (next(self.seqno),)
            self.queue[key] = st
            heapq.heappush(self.heap, (self.prio(st), next(self.seqno), key))
            return
        n = next(self.seqno)
        self.queue[n] = st
        heapq.heappush(self.heap, (self.prio(st), n, n))

    def at_head(self, st, cfg, bb, li):
        if self.check is not None:
            self.check.at_head(self, st)
        self.gc(st)
        if li and li[-1][0] == bb:
            inst = li[-1][1]
        else:
            inst = hash_intern(('L', self.shape(st), self.entry_consts(st))) if self.check is None or self.check.loop_entries else 0
            self.set_frame(st, loops=li + ((bb, inst),))
        tag = ('h', st.frames[-1].fn, bb)
        self.fold(st, tag)
        key = ('h', inst, self.shape(st))
        rec = self.heads.get(key)
        if rec is None:
            self.heads[key] = [st.copy(), 1]
            cur = st
        else:
            old, cnt = rec
            if self.match(old, st):
                return
            self.stats['joins'] += 1
            new = self.join(old, st, tag, widen=cnt)
            self.canon(new)
            rec[0] = new.copy()
            if key not in self.queue:
                rec[1] = cnt + 1
            if cnt > 60:
                raise Unsupported('no fixpoint at a loop head in %s' % self.where(st))
            cur = new
        self.queue[key] = cur
        # the next round of a loop starts when this one is complete
        heapq.heappush(self.heap, (self.prio(cur)[:-1] + (cfg.loopend[bb] + 0.5,), next(self.seqno), key))

    def entry_consts(self, st):
        """constants in the innermost frame's live scalar locals at loop entry"""
        fr = st.frames[-1]
        cfg = self.cfg(fr.fn)
        d = len(st.frames) - 1
        out = []
        for l in sorted(cfg.livein[fr.bb]):
            v = st.mem.get((d, l))
            if isinstance(v, int):
                out.append((l, v))
        return tuple(out)

    # run one state through its block, queueing successors
    def exec_from(self, st0):
        work = [(st0, 0)]
        while work:
            st, si = work.pop()
            fr = st.frames[-1]
            f = self.prog.fns[fr.fn]
            b = f['blocks'][fr.bb]
            self.stats['blocks'] += 1
            stmts = b['s']
            n = len(stmts)
            try:
                while si < n:
                    x = stmts[si]
                    self.stmt(st, x)
                    if x[0] == '=' and x[2][0] in ('use', 'agg'):
                        self.moved(st, len(st.frames) - 1, (x[2][1],) if x[2][0] == 'use' else x[2][4], x[1][0])
                    si += 1
                snap = st.copy()
                t = b['t']
                d = len(st.frames) - 1
                try:
                    succ = self.terminator(st, t)
                except Fork:
                    st = snap
                    raise
                for s in succ:
                    if t[0] == 'call':
                        self.moved(s, d, t[2], t[3][0])
                    self.enqueue(s)
            except Fork as e:
                self.stats['forks'] += 1
                for alt in e.alts:
                    work.extend((s, si) for s in self.refine(st, alt))
            except Dead:
                pass
            except Unsupported as e:
                if not getattr(e, 'where', None):
                    e.where = self.stack(st)
                raise

    def moved(self, st, d, ops, dest):
        """locals that were moved out of hold nothing any more"""
        for o in ops:
            if o[0] == 'm' and len(o[1]) == 1 and o[1][0] != dest:
                st.mem.pop((d, o[1][0]), None)

    def refine(self, st, alt):
        if alt[0] == 'c':
            for f in st.facts.assume(alt[1]):
                s = st.copy()
                s.facts = f
                yield s
        elif alt[0] == 'k':
            s = st.copy()
            s.known[alt[1]] = alt[2]
            if self.check is not None:
                self.check.on_known(self, s, alt[1], alt[2])
            yield s
        elif alt[0] == 'f':
            s = st.copy()
            try:
                alt[1](s)
            except Dead:
                return
            yield s
        else:
            raise Unsupported('refinement')

    def goto(self, st, bb):
        st.frames = st.frames[:-1] + (st.frames[-1]._replace(bb=bb, extra=None),)
        return [st]

    def terminator(self, st, t):
        k = t[0]
        if k == 'goto':
            return self.goto(st, t[1])
        if k == 'sw':
            return self.switch(st, t)
        if k == 'ret':
            return self.do_return(st)
        if k == 'unreachable':
            self.problem(st, 'unreachable', 'reaches code declared unreachable')
        if k == 'drop':
            if self.drops and (self.check is None or self.check.want_drop(self, st, t)):
                fid = t[4] if len(t) > 4 else None
                return self.models.drop_place(self, st, t)
            return self.goto(st, t[3])
        if k == 'assert':
            c = self.op(st, t[1])
            want = c if t[2] else c_not(c)
            d = st.facts.decide(want)
            self.stats['obligations'] += 1
            if d is not True:
                self.assert_failed(st, t, want)
            else:
                self.stats['discharged'] += 1
            self.assume(st, want)
            return self.goto(st, t[4])
        if k == 'call':
            return self.call(st, t)
        raise Unsupported('terminator ' + k)

    def assert_failed(self, st, t, want):
        if st.facts.assume(c_not(want)):
            s2 = st.copy()
            fs = st.facts.assume(c_not(want))
            s2.facts = fs[0]
            kind = t[3][0]
            try:
                self.panic(s2, {'bounds': 'index out of bounds', 'overflow': 'arithmetic overflow (%s)' % (t[3][1] if len(t[3]) > 1 else ''),
                                'divzero': 'division by zero', 'remzero': 'remainder by zero'}.get(kind, 'assertion failure'))
            except Dead:
                pass

    def panic(self, st, msg):
        if self.check is not None and self.check.on_panic(self, st, msg):
            raise Dead()
        self.problem(st, 'panic', msg)

    def switch(self, st, t):
        v = self.op(st, t[1])
        if isinstance(v, Un):
            self.problem(st, 'uninit', 'branch on uninitialised memory')
        tk = self.prog.tys[t[2]]['k']
        groups = {}
        neg_ = []
        if tk == 'bool':
            if not is_cond(v):
                raise Unsupported('switch on %r' % (v,))
            for val, blk in t[3]:
                c = c_not(v) if val == 0 else v
                groups.setdefault(blk, []).append(c)
                neg_.append(c_not(c))
        else:
            v = self.as_term(st, v)
            cv = st.facts.const(v)
            if cv is not None:
                v = cv
            it = self.int_ty(t[2])
            for val, blk in t[3]:
                if it and it[1]:
                    val = T.wrap(val, *it)
                c = c_eq(sub(v, val))
                groups.setdefault(blk, []).append(c)
                neg_.append(c_not(c))
        groups.setdefault(t[4], []).append(c_and(*neg_))
        out = []
        for blk, cs in groups.items():
            c = c_or(*cs)
            for fs in st.facts.assume(c):
                s = st.copy()
                s.facts = fs
                out.extend(self.goto(s, blk))
        return out

    def do_return(self, st):
        fr = st.frames[-1]
        depth = len(st.frames) - 1
        v = self.getobj(st, (depth, 0))
        for k in [k for k in st.mem if isinstance(k, tuple) and k[0] == depth and len(k) == 2 and isinstance(k[0], int)]:
            del st.mem[k]
        if depth == 0:
            self.finish(st, v)
            return []
        f = self.prog.fns[fr.fn]
        st.frames = st.frames[:-1]
        if self.check is not None:
            self.check.on_return(self, st, f, v)
        if callable(fr.dest):
            return fr.dest(self, st, v)
        self.write_place(st, fr.dest, v)
        if fr.target is None:
            raise Dead()
        st.frames = st.frames[:-1] + (st.frames[-1]._replace(bb=fr.target, extra='ret'),)
        return [st]

    def finish(self, st, v):
        if self.check is not None:
            self.check.on_finish(self, st, v)
        else:
            self.results.append((st, v))

    # -------------------------------------------------------------- calls
    def ret_val(self, st, t, v):
        """complete a natively modelled call"""
        if t[4] is None:
            raise Dead()
        self.write_place(st, t[3], v)
        return self.goto(st, t[4])

    def call(self, st, t):
        callee, args, dest, target = t[1], t[2], t[3], t[4]
        vals = [self.op(st, a) for a in args]
        if callee[0] == 'fn':
            f = self.prog.fns[callee[1]]
        elif callee[0] == 'ptr':
            p = self.op(st, callee[1])
            if isinstance(p, Agg) and isinstance(p.ty, tuple) and p.ty[0] == 'fn':
                f = self.prog.fns[p.ty[1]]
            else:
                return self.unknown_call(st, t, 'fn pointer', vals)
        else:
            return self.unknown_call(st, t, callee[1], vals)
        if len(t) > 7 and t[7] and f.get('closure') and False:
            pass
        return self.invoke(st, f, vals, t)

    def invoke(self, st, f, vals, t):
        path = f['path']
        if self.check is not None:
            r = self.check.call(self, st, f, vals, t)
            if r is not None:
                return r
        m = self.models.lookup(f)
        if m is not None:
            r = m(self, st, f, vals, t)
            if r is not NotImplemented:
                if isinstance(r, list):
                    return r
                return self.ret_val(st, t, r)
        if 'blocks' in f:
            fv = vals
            self.push_frame(st, f, self.adapt_args(st, f, vals, t), t[3], t[4])
            return [st]
        return self.unknown_call(st, t, path, vals, f)

    def adapt_args(self, st, f, vals, t):
        if t is not None and f.get('closure') and not f.get('spread') and len(vals) == 2:
            # rust-call: second operand is the tuple of arguments
            k = self.prog.tys[t[5][1]]['k']
            tup = vals[1]
            if not isinstance(k, str) and k[0] == 'tuple' and isinstance(tup, Agg):
                return [vals[0]] + list(tup.fs)
        return list(vals)

    def unknown_call(self, st, t, path, vals, f=None):
        if t[4] is None:
            self.panic(st, 'call to diverging %s' % path)
        self.unknown_calls[path] = self.unknown_calls.get(path, 0) + 1
        for v, ty in zip(vals, t[5]):
            k = self.prog.tys[ty]['k']
            if isinstance(v, Ptr) and not isinstance(k, str) and k[0] in ('ref', 'ptr') and k[1]:
                self.havoc(st, v, k[2])
        rt = t[6]
        if self.check is None or not self.check.on_unknown(self, st, path, vals, t):
            st.ghost['?'] = True
        key = ('ucall', path, next(self.ids))
        return self.ret_val(st, t, self.mkopq(rt, key))

    def havoc(self, st, p, ty):
        if p.obj is None:
            return
        tk = self.prog.tys[ty]['k']
        if tk == 'str' or (not isinstance(tk, str) and tk[0] in ('slice', 'dyn')):
            raise Unsupported('havoc of a slice by an unmodelled function')
        self.write(st, p.obj, p.path, self.mkopq(ty, ('havoc', next(self.ids))))

    def alloc(self, st, val=EMPTY):
        o = next(self.ids)
        st.mem[o] = val
        return o

    # -------------------------------------------------------------- shape / gc / match / join
    def roots(self, st):
        out = []
        for d, fr in enumerate(st.frames):
            cfg = self.cfg(fr.fn)
            if d == len(st.frames) - 1:
                live = cfg.livein[fr.bb] | cfg.addr
            else:
                live = set(cfg.addr)
                nxt = st.frames[d + 1]
                if nxt.target is not None:
                    live |= cfg.livein[nxt.target]
                if isinstance(nxt.dest, list) and len(nxt.dest) > 1:
                    live.add(nxt.dest[0])
                elif isinstance(nxt.dest, list) and nxt.dest[0] not in cfg.addr:
                    live.discard(nxt.dest[0])
                if callable(nxt.dest):
                    for t_ in cfg.succ[fr.bb]:
                        live |= cfg.livein[t_]
            for l in live:
                if (d, l) in st.mem:
                    out.append((d, l))
        return out

    def ptrs_in(self, v, out):
        if isinstance(v, Ptr):
            if v.obj is not None:
                out.append(v.obj)
        elif isinstance(v, VecV):
            out.append(v.obj)
        elif isinstance(v, Agg):
            for f in v.fs:
                self.ptrs_in(f, out)
        elif isinstance(v, SeqV):
            for s in v.segs:
                if s[0] in 'eF':
                    self.ptrs_in(s[1], out)
        elif isinstance(v, tuple) and v and not is_cond(v):
            for x in v:
                self.ptrs_in(x, out)

    def gc(self, st):
        roots = self.roots(st)
        seen = set(roots)
        work = list(roots)
        out = []
        for g in st.ghost.values():
            self.ptrs_in(g, out)
        for o in out:
            if o not in seen:
                seen.add(o)
                work.append(o)
        while work:
            o = work.pop()
            v = st.mem.get(o)
            if v is None:
                continue
            out = []
            self.ptrs_in(v, out)
            for p in out:
                if p not in seen:
                    seen.add(p)
                    work.append(p)
        if len(seen) < len(st.mem):
            st.mem = {k: v for k, v in st.mem.items() if k in seen}
        if st.freed:
            st.freed = frozenset(o for o in st.freed if o in seen)
        self.canon(st)
        self.prune(st)

    def prune(self, st):
        if self.check is not None and self.check.prune:
            live = set()
            for v in st.mem.values():
                self.atoms_in(v, live)
            for v in st.ghost.values():
                self.atoms_in(v, live)
            for k in st.known:
                T.key_atoms(k, live)
            if self.check is not None:
                live.update(self.check.landmarks)
            st.facts = st.facts.prune(live)

    def atoms_in(self, v, out):
        if isinstance(v, Lin):
            for a, _ in v.t:
                if a not in out:
                    out.add(a)
                    out |= T.deps(a)
        elif isinstance(v, Agg):
            for x in v.fs:
                self.atoms_in(x, out)
        elif isinstance(v, SeqV):
            for s in v.segs:
                for x in s[1:]:
                    self.atoms_in(x, out)
        elif isinstance(v, Ptr):
            T.key_atoms(v.path, out)
            T.key_atoms(v.obj, out)
            self.atoms_in(v.meta, out)
        elif isinstance(v, VecV):
            self.atoms_in(v.len, out)
            self.atoms_in(v.cap, out)
        elif isinstance(v, Opq):
            T.key_atoms(v.key, out)
        elif isinstance(v, tuple):
            for x in v:
                if isinstance(x, (tuple, Lin, Agg, SeqV, Ptr, VecV, Opq)):
                    self.atoms_in(x, out)

    def canon(self, st):
        """check specific normalisation of values before merging"""
        if self.check is not None:
            self.check.canon(self, st)

    def shape(self, st):
        ids = {}
        order = []
        out = []

        def obj(o):
            if isinstance(o, tuple) and o and o[0] == 'const':
                return o
            n = ids.get(o)
            if n is None:
                n = ids[o] = len(ids)
                order.append(o)
            return n

        def sh(v):
            if isinstance(v, bool):
                return v
            if is_int(v):
                return '#'
            if v is None or isinstance(v, str):
                return v
            if isinstance(v, Agg):
                return (v.ty, v.var) + tuple(sh(f) for f in v.fs)
            if isinstance(v, Opq):
                k = st.known.get(v.key)
                return ('O', v.ty, k)
            if isinstance(v, Ptr):
                if v.obj is None:
                    return ('P0',)
                return ('P', obj(v.obj), tuple(s if s[0] == 'f' else s[0] for s in v.path), v.meta if isinstance(v.meta, tuple) else v.meta is None)
            if isinstance(v, VecV):
                return ('V', obj(v.obj))
            if isinstance(v, SeqV):
                k = self.seq_kind(st, v)
                if k == 'stack':
                    return ('Q',) + tuple((s[0], sh(s[1])) if s[0] == 'e' else s[0] for s in v.segs)
                return ('q', self.check.seq_shape(self, st, v) if self.check is not None else None)
            if isinstance(v, Un):
                return 'U'
            if is_cond(v):
                return 'cond'
            if isinstance(v, tuple):
                return ('t',) + tuple(sh(x) for x in v)
            return repr(v)

        for r in sorted(self.roots(st)):
            out.append((r, sh(st.mem[r])))
            ids.setdefault(r, r)
        for g in sorted(st.ghost):
            out.append((g, sh(st.ghost[g])))
        i = 0
        while i < len(order):
            o = order[i]
            i += 1
            if isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], int):
                continue
            v = st.mem.get(o)
            out.append((ids[o], o[0] if isinstance(o, tuple) else 'h', sh(v) if v is not None else None, o in st.freed))
        ctl = tuple((fr.fn, fr.bb, tuple(l for l in fr.loops)) for fr in st.frames)
        return hash_intern((ctl, tuple(out)))

    def seq_kind(self, st, q):
        for s in q.segs:
            if s[0] == 'e':
                v = s[1]
                if isinstance(v, (Agg, Ptr, Opq, VecV)) and not (self.check is not None and self.check.sem_elem(self, st, v)):
                    return 'stack'
        return 'flat'

    def fold(self, st, tag):
        if self.check is not None:
            self.check.fold(self, st, tag)

    # match: is new covered by old ?
    def match(self, old, new):
        return Matcher(self, old, new).run()

    def join(self, old, new, tag, widen=0):
        st = Joiner(self, old, new, tag, widen).run()
        self.prune(st)
        return st


def ty_id(t):
    return t


def name_of(eng, ty):
    return eng.adt_name(ty) or ''


def mulinf(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


_INTERN = {}


def hash_intern(x):
    r = _INTERN.get(x)
    if r is None:
        r = _INTERN[x] = len(_INTERN) + 1
    return r


# ---------------------------------------------------------------- structured keys
def key_has_terms(k):
    if isinstance(k, Lin):
        return True
    if isinstance(k, tuple):
        return any(key_has_terms(x) for x in k)
    return False


def rebuild_atom(a, newkey):
    """an atom like a but with a (structurally) changed key"""
    k = newkey[0]
    if a.fn is not None:
        nb = tuple(newkey[1 + i] for i in range(len(a.base)))
        if all(isinstance(x, int) for x in nb):
            v = a.fn(*nb)
            if v is not None:
                return v
        return var(atom(newkey, a.lo, a.hi, a.fn, nb))
    return var(atom(newkey, a.lo, a.hi))


class Matcher:
    def __init__(self, eng, old, new):
        self.eng = eng
        self.o = old
        self.n = new
        self.sub = {}     # old flexible atom -> new term
        self.om = {}      # old obj -> new obj
        self.bm = {}      # base key map
        self.km = {}
        self.later = []

    def run(self):
        o, n = self.o, self.n
        if [(f.fn, f.bb, f.loops) for f in o.frames] != [(f.fn, f.bb, f.loops) for f in n.frames]:
            return False
        ro = sorted(self.eng.roots(o))
        rn = sorted(self.eng.roots(n))
        if ro != rn:
            return False
        self.todo = []
        for r in ro:
            self.om[r] = r
        for r in ro:
            if not self.v(o.mem[r], n.mem[r]):
                return False
        if set(o.ghost) != set(n.ghost):
            return False
        for g in o.ghost:
            if not self.v(o.ghost[g], n.ghost[g]):
                return False
        while self.todo:
            a, b = self.todo.pop()
            va, vb = o.mem.get(a), n.mem.get(b)
            if va is None and vb is None:
                continue
            if va is None:
                va = self.eng.getobj(o, a)
            if vb is None:
                vb = self.eng.getobj(n, b)
            if (a in o.freed) != (b in n.freed):
                return False
            if not self.v(va, vb):
                return False
        n_ = None
        while self.later:
            if n_ is not None and len(self.later) >= n_:
                return False
            n_ = len(self.later)
            late, self.later = self.later, []
            if not all(self.t(a, b) for a, b in late):
                return False
        # facts of old must hold in new
        of, nf = o.facts, n.facts
        flex = self.sub
        for a, t in flex.items():
            lo, hi = of.arange(a)
            if nf.lb(t) < lo or nf.ub(t) > hi:
                return False
            s = of.sets.get(a)
            if s is not None and not self.in_set(t, s):
                return False
        for f in of.ge:
            t = self.inst(f)
            if t is None:
                continue
            if nf.lb(t) < 0:
                return False
        for a, (lo, hi) in of.iv.items():
            if a in flex:
                continue
            t = self.inst(var(a))
            if t is None:
                continue
            if nf.lb(t) < lo or nf.ub(t) > hi:
                return False
        for a, s in of.sets.items():
            if a in flex:
                continue
            t = self.inst(var(a))
            if t is None:
                continue
            if not self.in_set(t, s):
                return False
        for f in of.ne:
            t = self.inst(f)
            if t is None:
                continue
            if nf.decide(c_eq(t)) is not False:
                return False
        for k, v in o.known.items():
            kk = self.km.get(k, k)
            if n.known.get(kk) != v and kk in self.used_keys():
                return False
        return True

    def used_keys(self):
        return self.km.values()

    def in_set(self, t, s):
        if isinstance(t, int):
            return t in s
        if isinstance(t, Lin) and t.c == 0 and len(t.t) == 1 and t.t[0][1] == 1:
            ns = self.n.facts.sets.get(t.t[0][0])
            if ns is not None:
                return ns <= s
        lo, hi = self.n.facts.range0(t)
        if lo == -INF or hi == INF or hi - lo > 300:
            return False
        return all(v in s for v in range(int(lo), int(hi) + 1))

    def inst(self, t):
        """substitute; None when it mentions atoms not in the state any more"""
        r = t.c
        for a, k in t.t:
            x = self.inst_atom(a)
            if x is None:
                return None
            r = add(r, scale(x, k))
        return r

    def inst_atom(self, a):
        x = self.sub.get(a)
        if x is not None:
            return x
        if a.key[0] == 'j':
            return None
        if key_has_terms(a.key):
            nk = self.inst_key(a.key)
            if nk is None:
                return None
            if nk == a.key:
                return var(a)
            return rebuild_atom(a, nk)
        return var(a)

    def inst_key(self, k):
        if isinstance(k, Lin):
            return self.inst(k)
        if isinstance(k, tuple):
            if k in self.bm:
                return self.bm[k]
            out = []
            for x in k:
                y = self.inst_key(x)
                if y is None and x is not None:
                    return None
                out.append(y)
            return tuple(out)
        return k

    # -- values
    def v(self, a, b):
        if a is b:
            if isinstance(a, (str, bool)) or a is None:
                return True
            # identical values still bind flexible atoms to themselves
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if is_int(a):
            return is_int(b) and self.t(a, b)
        if a is None or isinstance(a, str):
            return a == b
        if isinstance(a, Agg):
            return isinstance(b, Agg) and a.ty == b.ty and a.var == b.var and len(a.fs) == len(b.fs) and all(
                self.v(x, y) for x, y in zip(a.fs, b.fs))
        if isinstance(a, Opq):
            if not isinstance(b, Opq) or a.ty != b.ty:
                return False
            if self.o.known.get(a.key) != self.n.known.get(b.key):
                return False
            return self.k(a.key, b.key)
        if isinstance(a, Ptr):
            if not isinstance(b, Ptr) or len(a.path) != len(b.path):
                return False
            if (a.obj is None) != (b.obj is None):
                return False
            if a.obj is None:
                return self.v(a.path[0], b.path[0])
            if not self.obj(a.obj, b.obj):
                return False
            for x, y in zip(a.path, b.path):
                if x[0] != y[0]:
                    return False
                if x[0] == 'f':
                    if x != y:
                        return False
                elif not self.t(x[1], y[1]):
                    return False
            if is_int(a.meta):
                return is_int(b.meta) and self.t(a.meta, b.meta)
            return a.meta == b.meta
        if isinstance(a, VecV):
            return isinstance(b, VecV) and self.obj(a.obj, b.obj) and self.t(a.len, b.len) and self.t(a.cap, b.cap)
        if isinstance(a, SeqV):
            return isinstance(b, SeqV) and self.q(a, b)
        if isinstance(a, Un):
            return True
        if is_cond(a):
            return is_cond(b) and self.cond(a, b)
        if isinstance(a, tuple):
            return isinstance(b, tuple) and len(a) == len(b) and all(self.v(x, y) for x, y in zip(a, b))
        return a == b

    def cond(self, a, b):
        if isinstance(b, bool) or a[0] != b[0]:
            return False
        if a[0] in ('or', 'and'):
            return len(a[1]) == len(b[1]) and all(self.cond(x, y) for x, y in zip(a[1], b[1]))
        return self.t(a[1], b[1])

    def obj(self, a, b):
        m = self.om.get(a)
        if m is not None:
            return m == b
        if isinstance(a, tuple) and a and a[0] in ('const', 'sym'):
            if a[0] != b[0] if isinstance(b, tuple) else True:
                return False
            if a[0] == 'const':
                if a != b:
                    return False
            elif not self.k(a[1], b[1]):
                return False
        elif isinstance(b, tuple) and b and b[0] in ('const', 'sym'):
            return False
        if b in self.om.values():
            return False
        self.om[a] = b
        self.todo.append((a, b))
        return True

    def k(self, a, b):
        """opaque keys"""
        r = self.key(a, b)
        if r:
            self.km[a] = b
        return r

    def key(self, a, b):
        if isinstance(a, (int, Lin)) and not isinstance(a, bool):
            return is_int(b) and self.t(a, b)
        if isinstance(a, tuple):
            if isinstance(b, tuple) and len(a) >= 1 and a[0] == 'jk':
                m = self.bm.get(a)
                if m is not None:
                    return m == b
                self.bm[a] = b
                return True
            return isinstance(b, tuple) and len(a) == len(b) and all(self.key(x, y) for x, y in zip(a, b))
        return a == b

    def q(self, a, b):
        if len(a.segs) == len(b.segs) and all(x[0] == y[0] for x, y in zip(a.segs, b.segs)):
            save = (dict(self.sub), dict(self.bm), list(self.later))
            ok = True
            for x, y in zip(a.segs, b.segs):
                if not self.seg(x, y):
                    ok = False
                    break
            if ok:
                return True
            self.sub, self.bm, self.later = save
        # a join-made base may cover any run of segments
        segs = list(b.segs)
        i = 0
        A = a.segs
        for ai, x in enumerate(A):
            if x[0] == 'B' and is_jbase(x):
                # how many segs of b does it take?  leave as many as the rest of a needs
                rest = len(A) - ai - 1
                take = len(segs) - i - rest
                if take < 0:
                    return False
                run = SeqV(tuple(segs[i:i + take]))
                i += take
                if not self.base(x, run):
                    return False
            else:
                if i >= len(segs) or not self.seg(x, segs[i]):
                    return False
                i += 1
        return i == len(segs)

    def base(self, x, run):
        k = x[1]
        rk = self.eng.run_key(self.n, run)
        m = self.bm.get(k)
        if m is not None:
            return m == rk and self.t(x[2], seqlen(run))
        self.bm[k] = rk
        return self.t(x[2], seqlen(run))

    def seg(self, x, y):
        k = x[0]
        if k == 'B':
            if is_jbase(x):
                return self.base(x, SeqV((y,)))
            return y[0] == 'B' and self.key(x[1], y[1]) and self.t(x[2], y[2])
        if k != y[0]:
            return False
        if k == 'e':
            return self.v(self.eng.sem(self.o, x[1]), self.eng.sem(self.n, y[1]))
        if k == 'S':
            return self.key(x[1], y[1]) and self.t(x[2], y[2]) and self.t(x[3], y[3])
        if k == 'F':
            return self.v(x[1], y[1]) and self.t(x[2], y[2])
        if k == 'U':
            return self.t(x[1], y[1])
        if k == 'X':
            return x[1] == y[1] and self.key(x[2], y[2]) and self.t(x[3], y[3])
        return False

    def t(self, a, b):
        if isinstance(a, int):
            if a == b:
                return True
            return self.n.facts.const(b) == a
        # single flexible atom
        if len(a.t) == 1:
            x, k = a.t[0]
            if x.key[0] == 'j':
                if k == 1:
                    val = sub(b, a.c)
                    m = self.sub.get(x)
                    if m is None:
                        self.sub[x] = val
                        return True
                    return m == val or self.n.facts.decide(c_eq(sub(m, val))) is True
            elif isinstance(b, Lin) and len(b.t) == 1 and b.t[0][1] == k and b.c == a.c:
                y = b.t[0][0]
                if x is y and not key_has_terms(x.key):
                    return True
                if len(x.key) == len(y.key) and x.key[0] == y.key[0] and self.key(x.key, y.key):
                    return True
                if x is y:
                    return True
                return False
        # general: substitute what is known
        r = a.c
        unk = None
        for x, k in a.t:
            m = self.inst_atom(x)
            if m is None:
                if unk is not None:
                    # decided when the other terms are matched
                    self.later.append((a, b))
                    return True
                unk = (x, k)
                continue
            r = add(r, scale(m, k))
        if unk is not None:
            x, k = unk
            d = sub(b, r)
            if k in (1, -1):
                self.sub[x] = scale(d, k)
                return True
            if isinstance(d, int):
                if d % k == 0:
                    self.sub[x] = d // k
                    return True
                return False
            if d.c % k == 0 and all(c % k == 0 for _, c in d.t):
                self.sub[x] = Lin(d.c // k, tuple((y, c // k) for y, c in d.t))
                return True
            return False
        return r == b or self.n.facts.decide(c_eq(sub(r, b))) is True


def is_jbase(s):
    k = s[1]
    return isinstance(k, tuple) and k and k[0] == 'jb'


_JC = itertools.count(1)


class Joiner:
    """least general generalisation of two states of equal shape"""

    def __init__(self, eng, old, new, tag, widen):
        self.eng = eng
        self.o = old
        self.n = new
        self.tag = tag
        self.widen = widen
        self.pairs = {}       # (Lo, Ln, co-cn) -> (co, atom term)
        self.made = []        # (atom, to, tn)
        self.om = {}
        self.rev = set()
        self.bases = {}
        self.based = {}
        self.kp = {}
        self.memo = {}
        self.vecs = []
        self.extra = []

    def run(self):
        o, n = self.o, self.n
        st = State.__new__(State)
        st.frames = o.frames
        st.hist = n.hist
        st.mem = {}
        st.ghost = {}
        st.known = {}
        freed = set()
        self.todo = []
        ro = sorted(set(self.eng.roots(o)) & set(self.eng.roots(n)))
        for r in ro:
            self.om[(r, r)] = r
        first = self.eng.check.ghost_first if self.eng.check is not None else ()
        for g in first:
            st.ghost[g] = self.v(o.ghost[g], n.ghost[g])
        for r in ro:
            st.mem[r] = self.v(o.mem[r], n.mem[r])
        for g in o.ghost:
            if g not in first:
                st.ghost[g] = self.v(o.ghost[g], n.ghost[g])
        while self.todo:
            a, b, r = self.todo.pop()
            va, vb = o.mem.get(a), n.mem.get(b)
            if va is None and vb is None:
                continue
            if va is None:
                va = self.eng.getobj(o, a)
            if vb is None:
                vb = self.eng.getobj(n, b)
            st.mem[r] = self.v(va, vb)
            if a in o.freed or b in n.freed:
                freed.add(r)
        st.freed = frozenset(freed)
        for (ka, kb), k in self.kp.items():
            x, y = o.known.get(ka), n.known.get(kb)
            if x is not None and x == y:
                st.known[k] = x
        for k, x in o.known.items():
            if n.known.get(k) == x:
                st.known.setdefault(k, x)
        for r, a, b in self.vecs:
            q, qa, qb = st.mem.get(r.obj), o.mem.get(a.obj), n.mem.get(b.obj)
            if isinstance(q, SeqV) and isinstance(qa, SeqV) and isinstance(qb, SeqV):
                d = sub(r.len, seqlen(q))
                if not isinstance(d, int) and o.facts.decide(c_eq(sub(a.len, seqlen(qa)))) is True and n.facts.decide(c_eq(sub(b.len, seqlen(qb)))) is True:
                    self.extra += [d, neg(d)]
                    r.len = seqlen(q)
        st.facts = self.facts(st)
        return st

    # -- facts
    def facts(self, st):
        of, nf = self.o.facts, self.n.facts
        f = Facts()
        newatoms = [a for a, _, _ in self.made]
        amap = {}
        for a, to, tn in self.made:
            lo = min(of.lb(to), nf.lb(tn))
            hi = max(of.ub(to), nf.ub(tn))
            if self.widen >= 3:
                olo, ohi = of.lb(to), of.ub(to)
                if lo < olo:
                    lo = self.thr_down(lo)
                if hi > ohi:
                    hi = self.thr_up(hi)
            lo, hi = max(lo, a.lo), min(hi, a.hi)
            s = self.vals(of, to), self.vals(nf, tn)
            if s[0] is not None and s[1] is not None and len(s[0] | s[1]) <= 256 and (self.widen < 6 or a.key[0] == 'byte'):
                f.sets[a] = s[0] | s[1]
            f.iv[a] = (lo, hi)
            amap[a] = (to, tn)
        # unchanged atoms
        for a, iv in of.iv.items():
            if a in nf.iv or True:
                l, h = nf.arange(a)
                lo, hi = min(iv[0], l), max(iv[1], h)
                if (lo, hi) != (a.lo, a.hi):
                    f.iv.setdefault(a, (lo, hi))
        for a, s in of.sets.items():
            s2 = nf.sets.get(a)
            if s2 is not None:
                f.sets.setdefault(a, s | s2)
        # linear facts: rewrite old facts into new vocabulary and check in new
        inv_o, inv_n = {}, {}
        multi_o, multi_n = [], []
        for a, to, tn in self.made:
            if isinstance(to, Lin) and len(to.t) > 1:
                multi_o.append((a, to))
            if isinstance(tn, Lin) and len(tn.t) > 1:
                multi_n.append((a, tn))
            if isinstance(to, Lin) and len(to.t) == 1 and to.t[0][1] == 1:
                inv_o.setdefault(to.t[0][0], []).append(sub(var(a), to.c))
            if isinstance(tn, Lin) and len(tn.t) == 1 and tn.t[0][1] == 1:
                inv_n.setdefault(tn.t[0][0], []).append(sub(var(a), tn.c))
        cands = list(self.extra)
        for g in of.ge:
            cands.extend(self.rewrite(of.norm(g), inv_o, multi_o))
        if self.widen < 3:
            for g in nf.ge:
                cands.extend(self.rewrite(nf.norm(g), inv_n, multi_n))
            # zone-style candidates between new atoms and everything "length like"
            na = newatoms[:24]
            others = self.interesting()
            for i, a in enumerate(na):
                for b in na[i + 1:] + others:
                    for t in (sub(var(a), var(b)), sub(var(b), var(a))):
                        il = f.range0(t)[0]
                        lo = of.lb(self.back(t, amap, 0), 1)
                        if lo > il:
                            lo = min(lo, nf.lb(self.back(t, amap, 1), 1))
                            if lo > il and lo != -INF:
                                cands.append(sub(t, int(lo)))
            self.affine(na, amap, cands)
        else:
            # terms that differed by a constant until now
            ks = [m for m in self.made if isinstance(m[1], (int, Lin)) and isinstance(m[2], (int, Lin))][:16]
            for i, (a, to, tn) in enumerate(ks):
                for b, uo, un in ks[i + 1:]:
                    k = sub(to, uo)
                    if not isinstance(k, int):
                        continue
                    t, d = sub(var(a), var(b)), sub(tn, un)
                    lo, hi = min(k, nf.lb(d)), max(k, nf.ub(d))
                    if lo >= -64:
                        cands.append(sub(t, int(lo)))
                    if hi <= 64:
                        cands.append(sub(int(hi), t))
        # an index that moved away from one that stayed
        live = None
        for a, to, tn in self.made:
            if isinstance(to, Lin) and isinstance(tn, Lin) and len(to.t) == 1 and to.t[0][1] == 1 and to.t == tn.t:
                if live is None:
                    live = set()
                    for v in list(st.mem.values()) + list(st.ghost.values()):
                        self.eng.atoms_in(v, live)
                if to.t[0][0] not in live:
                    continue
                x = var(to.t[0][0])
                cands.append(sub(sub(var(a), x), min(to.c, tn.c)))
                cands.append(sub(max(to.c, tn.c), sub(var(a), x)))
        seen = set()
        for t in cands:
            if isinstance(t, int) or t in seen:
                continue
            seen.add(t)
            if f.lb(t) >= 0:
                continue
            lo = of.lb(self.back(t, amap, 0))
            if lo < 0 and lo < -64:
                continue
            lo = min(lo, nf.lb(self.back(t, amap, 1)))
            if lo < 0:
                # nearly: keep what does hold
                if lo < -64 or f.range0(t)[0] >= lo:
                    continue
                lo = int(lo)
                if self.widen >= 3:
                    k = next((x for x in (16, 8, 4, 2, 1, 0, -1) if x <= lo - t.c), None)
                    if k is None:
                        continue
                    lo = k + t.c
                t = sub(t, lo)
                if t in seen or f.lb(t) >= 0:
                    continue
                seen.add(t)
            f.ge = f.ge + (t,)
            f.gidx = None
        ne = []
        for g in of.ne:
            for t in self.rewrite(g, inv_o):
                if not isinstance(t, int) and nf.decide(c_eq(self.back(t, amap, 1))) is False and of.decide(c_eq(self.back(t, amap, 0))) is False:
                    ne.append(t)
        f.ne = tuple(dict.fromkeys(ne))
        return f

    def affine(self, na, amap, cands):
        """all linear equations between the new atoms and the kept ones that hold on both sides"""
        sides = []
        for w, fc in ((0, self.o.facts), (1, self.n.facts)):
            have = set(fc.ge)
            eqs = []
            for g in fc.ge:
                if neg(g) in have and neg(g) not in eqs:
                    eqs.append(g)
            sides.append(eqs[:12])
        old = []
        for a in na:
            for t in amap[a]:
                if isinstance(t, Lin):
                    for x, _ in t.t:
                        if x not in old:
                            old.append(x)
        for eqs in sides:
            for t in eqs:
                for x, _ in t.t:
                    if x not in old:
                        old.append(x)
        old = [x for x in old if x.key[0] not in ('byte', 'w8', 'char')][:24]
        # columns: equations of either side, constant, kept atoms, new atoms
        cols = []
        for w in (0, 1):
            for t in sides[w]:
                cols.append([t if v == w else 0 for v in (0, 1)])
        n0 = len(cols)
        cols.append([1, 1])
        for x in old:
            cols.append([var(x), var(x)])
        for a in na:
            cols.append(list(amap[a]))
        for v in T.nullspace(cols):
            if not any(v[n0 + 1 + len(old):]):
                continue
            t = v[n0]
            for x, k in zip(old + list(na), v[n0 + 1:]):
                if k:
                    t = add(t, scale(var(x), k))
            if not isinstance(t, int) and max(abs(k) for _, k in t.t) <= 1 << 20:
                cands.append(t)
                cands.append(neg(t))

    def interesting(self):
        out = []
        for g in self.o.facts.ge + self.n.facts.ge:
            for a, k in g.t:
                if a.key[0] in ('len', 'cap') and a not in out:
                    out.append(a)
        for _, to, tn in self.made:
            for t in (to, tn):
                if isinstance(t, Lin) and len(t.t) == 1 and t.t[0][0].key[0] in ('len', 'cap') and t.t[0][0] not in out:
                    out.append(t.t[0][0])
            if isinstance(to, Lin) and isinstance(tn, Lin):
                for x, k in to.t:
                    if k == 1 and x not in out and any(x is y and k == kk for y, kk in tn.t):
                        out.append(x)
        for a in self.eng.check.landmarks if self.eng.check is not None else ():
            if a not in out:
                out.append(a)
        return out[:12]

    def back(self, t, amap, which):
        r = t.c if isinstance(t, Lin) else t
        if isinstance(t, int):
            return t
        for a, k in t.t:
            p = amap.get(a)
            r = add(r, scale(p[which], k) if p is not None else Lin(0, ((a, k),)))
        return r

    def rewrite(self, g, inv, multi=()):
        if isinstance(g, int):
            return []
        for a, t in multi:
            k = None
            for x, p in t.t:
                q = next((q for y, q in g.t if y is x), 0)
                if q == 0 or q % p or k is not None and q // p != k:
                    break
                k = q // p
            else:
                return self.rewrite(g, inv) + self.rewrite(add(sub(g, scale(t, k)), scale(var(a), k)), inv)
        outs = [g.c]
        for a, k in g.t:
            opts = []
            if a in inv:
                opts = inv[a][:2]
            opts = opts + [var(a)]
            outs = [add(x, scale(y, k)) for x in outs for y in opts][:8]
        return outs

    def thr_down(self, v):
        for t in (8, 4, 2, 1, 0, -1, -(1 << 7), -(1 << 15), -(1 << 31), -(1 << 63), -(1 << 127)):
            if v >= t:
                return t
        return -INF

    def thr_up(self, v):
        ths = [1, 3, 4, 9, 10, 15, 30, 32, 127, 255, (1 << 15) - 1, (1 << 16) - 1, (1 << 31) - 1, (1 << 32) - 1,
               (1 << 63) - 1, (1 << 64) - 1, (1 << 127) - 1]
        if self.eng.check is not None:
            ths = self.eng.check.ladder or sorted(set(ths) | set(self.eng.check.thresholds))
        for t in ths:
            if v <= t:
                return t
        return INF

    def vals(self, f, t):
        if isinstance(t, int):
            return frozenset((t,))
        if t.c == 0 and len(t.t) == 1 and t.t[0][1] == 1:
            return f.sets.get(t.t[0][0])
        bs = T.term_bases(t)
        if len(bs) == 1:
            b = next(iter(bs))
            s = f.sets.get(b)
            if s is not None:
                vs = frozenset(T.eval_term(t, {b: v}) for v in s)
                if None not in vs:
                    return vs
        return None

    # -- values
    def v(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool) or is_cond(a) or is_cond(b):
            if a is b or (is_cond(a) and is_cond(b) and a == b):
                r = self.cond_same(a)
                return r
            if not isinstance(a, bool) and not isinstance(b, bool) and a[0] == b[0] and a[0] in ('ge', 'eq', 'ne'):
                t = self.t(a[1], b[1])
                return c_ge(t) if a[0] == 'ge' else c_eq(t) if a[0] == 'eq' else c_not(c_eq(t))
            return c_eq(sub(self.fresh(self.cint(a, self.o), self.cint(b, self.n), 0, 1), 1))
        if is_int(a) and is_int(b):
            return self.t(a, b)
        if a is None or isinstance(a, str):
            if a == b:
                return a
            raise Unsupported('join of %r and %r' % (a, b))
        if isinstance(a, Un) or isinstance(b, Un):
            return a if isinstance(a, Un) else b
        if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and a.var == b.var and len(a.fs) == len(b.fs):
            return Agg(a.ty, a.var, tuple(self.v(x, y) for x, y in zip(a.fs, b.fs)))
        if isinstance(a, Opq) and isinstance(b, Opq) and a.ty == b.ty:
            return Opq(a.ty, self.k(a.key, b.key))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.path) == len(b.path):
            if a.obj is None and b.obj is None:
                return Ptr(None, (self.v(a.path[0], b.path[0]),), a.meta)
            o = self.obj(a.obj, b.obj)
            path = tuple(x if x[0] == 'f' else (x[0], self.t(x[1], y[1])) for x, y in zip(a.path, b.path))
            m = self.t(a.meta, b.meta) if is_int(a.meta) else a.meta
            return Ptr(o, path, m)
        if isinstance(a, VecV) and isinstance(b, VecV):
            r = VecV(self.obj(a.obj, b.obj), self.t(a.len, b.len), self.t(a.cap, b.cap))
            self.vecs.append((r, a, b))
            return r
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            return self.q(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.v(x, y) for x, y in zip(a, b))
        if a == b:
            return a
        raise Unsupported('join of %r and %r' % (a, b))

    def cint(self, c, st):
        if isinstance(c, bool):
            return int(c)
        d = st.facts.decide(c)
        if d is not None:
            return int(d)
        return var(atom(('cond', c), 0, 1))

    def cond_same(self, c):
        if isinstance(c, bool):
            return c
        if c[0] in ('or', 'and'):
            return (c[0], tuple(self.cond_same(x) for x in c[1]))
        t = self.t(c[1], c[1])
        return c_ge(t) if c[0] == 'ge' else c_eq(t) if c[0] == 'eq' else c_not(c_eq(t))

    def obj(self, a, b):
        r = self.om.get((a, b))
        if r is not None:
            return r
        if a == b and a not in self.rev:
            r = a
        elif isinstance(a, tuple) and a and a[0] == 'sym' and isinstance(b, tuple) and b and b[0] == 'sym':
            k = self.k(a[1], b[1])
            r = ('sym', k)
            if r not in self.eng.symty:
                d = self.eng.symty.get(a)
                if d is not None:
                    if d[0] == 'seq':
                        self.eng.symty[r] = ('seq', d[1], k, var(atom(('len', k), 0, (1 << 63) - 1)))
                    else:
                        self.eng.symty[r] = ('val', d[1], k)
        elif a == b:
            r = a
        elif isinstance(a, int) and isinstance(b, int):
            r = a if a not in self.rev else next(self.eng.ids)
        else:
            raise Unsupported('join of pointers to %r and %r' % (a, b))
        self.rev.add(r)
        self.om[(a, b)] = r
        self.todo.append((a, b, r))
        return r

    def k(self, a, b):
        r = self.kp.get((a, b))
        if r is None:
            r = self.key(a, b)
            self.kp[(a, b)] = r
        return r

    def key(self, a, b):
        if is_int(a) and is_int(b) and (isinstance(a, Lin) or isinstance(b, Lin) or a != b):
            return self.t(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and (a[0] == b[0] or not isinstance(a[0], str)):
            if a == b and not key_has_terms(a):
                return a
            if a[0] == 'jk' or a[0] == 'ucall' or a[0] == 'havoc':
                if a == b:
                    return a
                return ('jk', self.tag, self.uid(('k', a, b)))
            return tuple(self.key(x, y) for x, y in zip(a, b))
        if a == b:
            return a
        return ('jk', self.tag, self.uid(('k', a, b)))

    def uid(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = next(_JC)
        return r

    def fresh(self, to, tn, lo=-INF, hi=INF):
        """new atom standing for to in old and tn in new"""
        co = to.c if isinstance(to, Lin) else to
        cn = tn.c if isinstance(tn, Lin) else tn
        Lo = Lin(0, to.t) if isinstance(to, Lin) else 0
        Ln = Lin(0, tn.t) if isinstance(tn, Lin) else 0
        if Lo and Ln and len(Lo.t) + len(Ln.t) > 2 and self.pairs:
            r = self.express(to, tn, 7)
            if r is not None:
                return r
        if Lo and Ln and (len(Lo.t) > 1 or len(Ln.t) > 1):
            # a common part stays as it is
            com = tuple(x for x in Lo.t if any(x[0] is y[0] and x[1] == y[1] for y in Ln.t))
            if len(com) == len(Lo.t) == len(Ln.t):
                # only the constants differ: attributed to a byte, if there is one
                ones = [x for x in com if x[1] in (1, -1)]
                pick = [x for x in ones if (Lin(0, ((x[0], 1),)),) * 2 + ((co - cn) * x[1],) in self.pairs] or [x for x in ones if x[0].key[0] == 'byte']
                if pick:
                    com = tuple(x for x in com if x is not pick[-1])
            if com and len(com) < len(Lo.t) and len(com) < len(Ln.t):
                c = Lin(0, com)
                ro, rn = sub(to, c), sub(tn, c)
                if len(ro.t) == 1 and len(rn.t) == 1 and ro.t[0][1] == rn.t[0][1] and ro.t[0][1] in (1, -1):
                    k = ro.t[0][1]
                    return add(scale(self.t(scale(ro, k), scale(rn, k)), k), c)
        if Lo and Ln:
            # multiples of the same number: the join of the quotients
            g = math.gcd(co - cn, *[abs(k) for _, k in Lo.t + Ln.t])
            if g > 1:
                q = self.t(Lin(0, tuple((a, k // g) for a, k in Lo.t)), Lin((cn - co) // g, tuple((a, k // g) for a, k in Ln.t)))
                return add(scale(q, g), co)
        key = (Lo, Ln, co - cn)
        p = self.pairs.get(key)
        if p is None:
            a = atom(('j', next(_JC)), -INF, INF)
            self.pairs[key] = p = (co, var(a))
            self.made.append((a, to, tn))
        return add(p[1], co - p[0])

    def consts(self, f, t):
        """t with the atoms that have one value replaced by it"""
        if isinstance(t, int) or not any(f.arange(a)[0] == f.arange(a)[1] for a, _ in t.t):
            return t
        r = t.c
        for a, k in t.t:
            lo, hi = f.arange(a)
            r = add(r, lo * k if lo == hi else Lin(0, ((a, k),)))
        return r

    def express(self, to, tn, depth):
        """(to, tn) as a combination of terms that are joined already"""
        if to == tn:
            return to
        if depth == 0 or isinstance(to, int) or isinstance(tn, int):
            return None
        x, k = to.t[-1]
        for (Lo, Ln, d), (co, a) in list(self.pairs.items()):
            if isinstance(Lo, int) or isinstance(Ln, int):
                continue
            p = next((p for y, p in Lo.t if y is x), None)
            if p is None or k % p:
                continue
            m = k // p
            r = self.express(sub(to, scale(Lo, m)), sub(tn, scale(sub(Ln, d), m)), depth - 1)
            if r is not None:
                return add(r, scale(sub(a, co), m))
        if any(y is x and p == k for y, p in tn.t):
            c = Lin(0, ((x, k),))
            r = self.express(sub(to, c), sub(tn, c), depth - 1)
            if r is not None:
                return add(r, c)
        return None

    def t(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            return self.fresh(a, b)
        if a == b and self.eng.check is not None and self.eng.check.keep_terms:
            return a
        a, b = self.consts(self.o.facts, a), self.consts(self.n.facts, b)
        if isinstance(a, int) and isinstance(b, int):
            return a if a == b else self.fresh(a, b)
        if a == b:
            # unchanged, as long as its atoms keep their meaning
            if not any(x.key[0] == 'j' or key_has_terms(x.key) for x, _ in a.t):
                return a
            if all(not key_has_terms(x.key) for x, _ in a.t):
                return a
            return a
        if isinstance(a, Lin) and isinstance(b, Lin) and len(a.t) == 1 and len(b.t) == 1 and a.t[0][1] == b.t[0][1] and a.c == b.c:
            x, y = a.t[0][0], b.t[0][0]
            r = self.atom_pair(x, y)
            if r is not None:
                return add(scale(r, a.t[0][1]), a.c)
        return self.fresh(a, b)

    def atom_pair(self, x, y):
        if x is y:
            return var(x)
        if x.key[0] == y.key[0] and len(x.key) == len(y.key) and x.key[0] not in ('j', 'fresh', 'ucall') and (
                key_has_terms(x.key) or key_has_terms(y.key)):
            k = tuple(self.key(p, q) for p, q in zip(x.key, y.key))
            r = rebuild_atom(x, k)
            if isinstance(r, Lin) and len(r.t) == 1:
                self.made_struct(r.t[0][0], x, y)
            return r
        return None

    def made_struct(self, a, x, y):
        if not any(m[0] is a for m in self.made):
            self.made.append((a, var(x), var(y)))

    # -- sequences
    def q(self, a, b):
        A = [self.semseg(self.o, s) for s in a.segs]
        B = [self.semseg(self.n, s) for s in b.segs]
        A, B = self.stretch(A, B, 1), self.stretch(B, A, 0)
        if [s[0] for s in A] != [s[0] for s in B]:
            A, B = self.spell(self.o, A), self.spell(self.n, B)
        i = 0
        m = min(len(A), len(B))
        out = []
        while i < m and self.same_kind(A[i], B[i], i == len(A) - 1 or i == len(B) - 1, len(A) == len(B)):
            out.append((A[i], B[i]))
            i += 1
        if i == len(A) and i == len(B):
            return mkseq([self.seg(x, y) for x, y in out])
        # pull trailing bases made at this very join point into the fold
        while self.tag != ('j',) and out and (self.mine(out[-1][0]) or self.mine(out[-1][1])):
            i -= 1
            out.pop()
        # keep an initialised fixed size tail apart (arrays)
        ta, tb = [], []
        A2, B2 = A[i:], B[i:]
        while A2 and B2 and A2[-1][0] == B2[-1][0] and A2[-1][0] in 'U':
            ta.insert(0, A2.pop())
            tb.insert(0, B2.pop())
        run_a, run_b = SeqV(tuple(A2)), SeqV(tuple(B2))
        base = self.base(run_a, run_b)
        return mkseq([self.seg(x, y) for x, y in out] + [base] + [self.seg(x, y) for x, y in zip(ta, tb)])

    def stretch(self, A, B, side):
        """nothing, or a few consecutive bytes of an input, as a stretch of the input where the other
        side (side: which state it belongs to) has a longer one"""
        if len(B) != 1 or B[0][0] != 'S':
            return A
        o = B[0][1]
        if not A:
            t = B[0][2]
            r = t if isinstance(t, int) else t.c
            for a, k in () if isinstance(t, int) else t.t:
                for x, to, tn in self.made:
                    mine, other = (tn, to) if side == 1 else (to, tn)
                    c = sub(mine, var(a))
                    if isinstance(c, int):
                        r = add(r, scale(sub(other, c), k))
                        break
                else:
                    if a.key[0] == 'j' and not (a in self.o.facts.iv and a in self.n.facts.iv):
                        return A
                    r = add(r, Lin(0, ((a, k),)))
            return [('S', o, r, r)]
        i = None
        for s in A:
            if s[0] != 'e' or not isinstance(s[1], Lin) or s[1].c or len(s[1].t) != 1 or s[1].t[0][1] != 1:
                return A
            k = s[1].t[0][0].key
            if k[0] != 'byte' or k[1] != o or i is not None and sub(k[2], i) != 1:
                return A
            i = k[2]
        return [('S', o, sub(i, len(A) - 1), add(i, 1))]

    def spell(self, st, segs):
        """short stretches of an input element by element"""
        out = []
        for s in segs:
            n = seglen(s)
            if s[0] == 'S' and isinstance(n, int) and n <= 4:
                out.extend(('e', self.eng.sem(st, self.eng.elem_of(st, s, i))) for i in range(n))
            else:
                out.append(s)
        return out

    def semseg(self, st, s):
        if s[0] == 'e':
            return ('e', self.eng.sem(st, s[1]))
        return s

    def mine(self, s):
        return s[0] == 'B' and is_jbase(s) and s[1][1] == self.tag

    def same_kind(self, x, y, last, samelen):
        if x[0] != y[0]:
            return False
        k = x[0]
        if k == 'S':
            if not self.same_origin(x[1], y[1]):
                return False
            if x[2] == y[2] and x[3] == y[3]:
                return True
            return x[2] == y[2] or samelen
        if k == 'B':
            return x[1] == y[1] or (is_jbase(x) and is_jbase(y) and x[1][1] == y[1][1]) or samelen and False
        if k == 'e':
            if isinstance(x[1], Agg) or isinstance(y[1], Agg):
                return isinstance(x[1], Agg) and isinstance(y[1], Agg) and x[1].ty == y[1].ty and x[1].var == y[1].var and samelen
            if vkey(x[1]) == vkey(y[1]):
                return True
            return samelen
        if k == 'X':
            return x[1] == y[1] and (x[2] == y[2] or samelen)
        if k == 'F':
            return vkey(x[1]) == vkey(y[1])
        return True

    def same_origin(self, a, b):
        return a == b

    def seg(self, x, y):
        k = x[0]
        if k == 'e':
            return ('e', self.v(x[1], y[1]))
        if k == 'S':
            r = ('S', self.key(x[1], y[1]), self.t(x[2], y[2]), self.t(x[3], y[3]))
            self.extra.append(sub(r[3], r[2]))
            return r
        if k == 'F':
            return ('F', self.v(x[1], y[1]), self.t(x[2], y[2]))
        if k == 'U':
            return ('U', self.t(x[1], y[1]))
        if k == 'X':
            if x == y:
                return x
            return ('X', x[1], self.key(x[2], y[2]), self.t(x[3], y[3]))
        if x[1] == y[1]:
            r = ('B', x[1], self.t(x[2], y[2]))
            self.extra.append(r[2])
            return r
        return self.base(SeqV((x,)), SeqV((y,)))

    def base(self, ra, rb):
        ka, kb = self.eng.run_key(self.o, ra), self.eng.run_key(self.n, rb)
        key = (ka, kb)
        r = self.bases.get(key)
        n = self.t(seqlen(ra), seqlen(rb))
        self.extra.append(n)
        if r is None:
            for (xa, xb), (q, ya, yb) in list(self.based.items()):
                if (xa == ka or self.eng.seq_eq(self.o, ra, ya) is True) and (xb == kb or self.eng.seq_eq(self.n, rb, yb) is True):
                    r = self.bases[key] = q
                    return ('B', r, self.t(seqlen(ya), seqlen(yb)))
            r = self.bases[key] = ('jb', self.tag, next(_JC))
            self.based[key] = (r, ra, rb)
        return ('B', r, n)


def run_key(self, st, q):
    return tuple(segkey(('e', self.sem(st, s[1])) if s[0] == 'e' else s) for s in q.segs)


def sem(self, st, v):
    if self.check is not None:
        return self.check.sem(self, st, v)
    return v


Engine.run_key = run_key
Engine.sem = sem


class Check:
    """default hooks"""
    landmarks = ()
    bound_len = False     # vectors hold at most isize::MAX elements
    thresholds = ()
    ghost_first = ()      # ghost values that are joined before everything else
    ladder = None         # all thresholds of widening, in order

    def opaque(self, eng, ty, t, key):
        return None

    def variants(self, eng, st, v, vs):
        return vs

    def on_known(self, eng, st, key, v):
        pass

    def on_read(self, eng, st, obj, path):
        pass

    def on_field(self, eng, st, obj, path):
        pass

    keep_terms = False

    def text_relation(self, eng, st, a, b):
        return None

    def on_write(self, eng, st, obj, path, val):
        pass

    def known_elem(self, eng, st, origin, idx):
        return None

    def base_elem(self, eng, st, seg, off):
        return None

    def call(self, eng, st, f, vals, t):
        return None

    def on_unknown(self, eng, st, path, vals, t):
        # True: any behaviour of the callee is part of the quantifier
        return False

    def on_return(self, eng, st, f, v):
        pass

    def on_finish(self, eng, st, v):
        eng.results.append((st, v))

    def on_panic(self, eng, st, msg):
        return False

    def want_drop(self, eng, st, t):
        return True

    tables = False      # table_term gives a closed form for constant tables
    unroll = False      # loops are unrolled, paths are never joined at their heads

    def mergeable(self, eng, a, b):
        return True

    def at_head(self, eng, st):
        pass

    def fold(self, eng, st, tag):
        pass

    def canon(self, eng, st):
        pass

    def sem(self, eng, st, v):
        return v

    def sem_elem(self, eng, st, v):
        return False

    def describe(self, st):
        return ''

    caps = False
    moves = False
    exact_cap = False

    def on_bulk(self, eng, st, p, n):
        pass

    def on_heap_write(self, eng, st, obj, off, n):
        pass

    def on_heap_written(self, eng, st, obj, off, n):
        pass

    def on_append(self, eng, st, p, q):
        pass

    def on_utf8(self, eng, st, q, f):
        pass

    def on_realloc(self, eng, st, old, new):
        pass

    def on_from_raw(self, eng, st, p, n, c):
        pass

    def on_raw_slice(self, eng, st, p, n):
        pass

    def seq_shape(self, eng, st, q):
        return None

    prune = False
    loop_entries = True      # a loop is analysed apart for every shape of state that enters it

    def char_boundary(self, eng, st, p, x):
        return None

    def vec_clone(self, eng, st, v, q, t):
        return None

    def native_field(self, eng, st, v, step):
        return None

    def native_upd(self, eng, st, v, path, i, val):
        return None

    def drop(self, eng, st, p, ty, f, t):
        return None
