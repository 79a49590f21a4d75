"""Symbolic integer terms with interval / finite-set / linear-inequality facts.

Integers are mathematical integers.  A term is either a Python int or a `Lin`
(constant + linear combination of atoms).  Atoms are interned and carry a
default range; non linear operations become atoms of their own.
"""
import math
import itertools

INF = float('inf')


class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi', 'fn', 'base', 'bases', 'deps')

    def __repr__(self):
        return 'a%d%s' % (self.id, short(self.key))


def short(k):
    s = repr(k)
    return s if len(s) < 60 else s[:57] + '...'


_ATOMS = {}
_ALL = []
_fresh = itertools.count(1)


def reset():
    _ATOMS.clear()
    del _ALL[:]
    for c in (_RANGES, _DECIDED, _KEPT, _CBASE, _SHAPES, _TBASES):
        c.clear()


def atom(key, lo, hi, fn=None, base=None):
    """fn/base: the atom is the pointwise image of another term."""
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ALL)
        a.key = key
        a.lo = lo
        a.hi = hi
        a.fn = fn
        a.base = base  # Lin this atom is a function of
        a.bases = None
        a.deps = None
        _ATOMS[key] = a
        _ALL.append(a)
    return a


def fresh_atom(tag, lo, hi):
    return atom(('fresh', tag, next(_fresh)), lo, hi)


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t):
        self.c = c
        self.t = t  # tuple of (atom, coef) sorted by atom id, non empty
        self.h = hash((c, tuple((a.id, k) for a, k in t)))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and len(self.t) == len(o.t) and all(
            x[0] is y[0] and x[1] == y[1] for x, y in zip(self.t, o.t))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self.h

    def __repr__(self):
        s = '+'.join('%s%r' % ('' if k == 1 else '%d*' % k, a) for a, k in self.t)
        return s + ('%+d' % self.c if self.c else '')


def mk(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id))
    if not t:
        return c
    return Lin(c, t)


def var(a):
    return Lin(0, ((a, 1),))


def is_term(x):
    return isinstance(x, (int, Lin)) and not isinstance(x, bool) or isinstance(x, bool)


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        if a == 0:
            return b
        return Lin(a + b.c, b.t)
    if isinstance(b, int):
        if b == 0:
            return a
        return Lin(a.c + b, a.t)
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + k
    return mk(a.c + b.c, d)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(a.c * k, tuple((x, c * k) for x, c in a.t))


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if isinstance(b, int):
        return add(a, -b)
    return add(a, neg(b))


def atoms_of(t):
    return [a for a, _ in t.t] if isinstance(t, Lin) else []


def base_atoms(a):
    """Primitive atoms an atom transitively depends on pointwise (frozenset)."""
    if a.bases is None:
        if a.fn is None:
            a.bases = frozenset((a,))
        else:
            s = set()
            for b in a.base:
                for x in atoms_of(b):
                    s |= base_atoms(x)
            a.bases = frozenset(s)
    return a.bases


def key_atoms(k, out):
    if isinstance(k, Lin):
        for a, _ in k.t:
            out.add(a)
            out |= deps(a)
    elif isinstance(k, tuple):
        for x in k:
            if isinstance(x, (tuple, Lin)):
                key_atoms(x, out)


def deps(a):
    """atoms the key of an atom refers to, transitively"""
    if a.deps is None:
        s = set()
        key_atoms(a.key, s)
        a.deps = frozenset(s)
    return a.deps


_TBASES = {}


def term_bases(t):
    if isinstance(t, int):
        return frozenset()
    s = _TBASES.get(t)
    if s is None:
        s = frozenset()
        for a, _ in t.t:
            s |= base_atoms(a)
        _TBASES[t] = s
    return s


def eval_atom(a, env):
    v = env.get(a)
    if v is not None:
        return v
    if a.fn is None:
        return None
    args = []
    for b in a.base:
        x = eval_term(b, env)
        if x is None:
            return None
        args.append(x)
    return a.fn(*args)


def eval_term(t, env):
    if isinstance(t, int):
        return t
    r = t.c
    for a, k in t.t:
        v = eval_atom(a, env)
        if v is None:
            return None
        r += k * v
    return r


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def ty_range(bits, signed):
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


# ---------------------------------------------------------------- conditions
# A condition is True/False or one of
#   ('ge', lin)      lin >= 0
#   ('eq', lin)      lin == 0
#   ('ne', lin)
#   ('or', (c...))   ('and', (c...))
def c_ge(t):
    if isinstance(t, int):
        return t >= 0
    return ('ge', t)


def c_eq(t):
    if isinstance(t, int):
        return t == 0
    if t.t[0][1] < 0:
        t = neg(t)
    return ('eq', t)


def c_not(c):
    if c is True or c is False:
        return not c
    k = c[0]
    if k == 'ge':
        return c_ge(sub(-1, c[1]))
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'or':
        return c_and(*[c_not(x) for x in c[1]])
    return c_or(*[c_not(x) for x in c[1]])


def c_or(*cs):
    l = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c[0] == 'or':
            l.extend(c[1])
        else:
            l.append(c)
    if not l:
        return False
    if len(l) == 1:
        return l[0]
    return ('or', tuple(l))


def c_and(*cs):
    l = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c[0] == 'and':
            l.extend(c[1])
        else:
            l.append(c)
    if not l:
        return True
    if len(l) == 1:
        return l[0]
    return ('and', tuple(l))


def c_terms(c):
    if c is True or c is False:
        return
    if c[0] in ('ge', 'eq', 'ne'):
        yield c[1]
    else:
        for x in c[1]:
            yield from c_terms(x)


def c_eval(c, env):
    if c is True or c is False:
        return c
    if c[0] == 'ge':
        v = eval_term(c[1], env)
        return None if v is None else v >= 0
    if c[0] == 'eq':
        v = eval_term(c[1], env)
        return None if v is None else v == 0
    if c[0] == 'ne':
        v = eval_term(c[1], env)
        return None if v is None else v != 0
    vs = [c_eval(x, env) for x in c[1]]
    if c[0] == 'or':
        if True in vs:
            return True
        return None if None in vs else False
    if False in vs:
        return False
    return None if None in vs else True


_RANGES = {}
_DECIDED = {}
_KEPT = {}
_CBASE = {}


def cond_base(c):
    """the only base atom of a condition, if there is just one"""
    r = _CBASE.get(c, 0)
    if r == 0:
        bs = frozenset()
        for t in c_terms(c):
            bs |= term_bases(t)
        r = _CBASE[c] = next(iter(bs)) if len(bs) == 1 else None
    return r


_SHAPES = {}


def cond_shape(c, b):
    """the condition with its only base atom left out, where it is linear in it"""
    if c is True or c is False:
        return c
    if c[0] in ('ge', 'eq', 'ne'):
        t = c[1]
        if isinstance(t, int):
            return (c[0], t, 0)
        if len(t.t) == 1 and t.t[0][0] is b:
            return (c[0], t.c, t.t[0][1])
        return None
    xs = tuple([cond_shape(x, b) for x in c[1]])
    return None if None in xs else (c[0], xs)


def shape_keep(c, s):
    """the values of s for which the condition of that shape holds"""
    r = _SHAPES.get((c, s))
    if r is not None:
        return r
    if c is True:
        r = s
    elif c is False:
        r = frozenset()
    elif c[0] == 'ge':
        k, d = c[2], c[1]
        r = frozenset([v for v in s if k * v + d >= 0])
    elif c[0] == 'eq':
        k, d = c[2], c[1]
        r = frozenset([v for v in s if k * v + d == 0])
    elif c[0] == 'ne':
        k, d = c[2], c[1]
        r = frozenset([v for v in s if k * v + d != 0])
    elif c[0] == 'or':
        r = frozenset()
        for x in c[1]:
            r |= shape_keep(x, s)
    else:
        r = s
        for x in c[1]:
            r &= shape_keep(x, s)
    _SHAPES[(c, s)] = r
    return r


class Facts:
    """Per state knowledge about atoms.  Persistent by copy."""
    __slots__ = ('iv', 'sets', 'ge', 'ne', 'gidx')

    def __init__(self):
        self.iv = {}
        self.sets = {}
        self.ge = ()   # tuple of Lin known >= 0
        self.ne = ()   # tuple of Lin known != 0
        self.gidx = None

    def copy(self):
        f = Facts.__new__(Facts)
        f.iv = dict(self.iv)
        f.sets = dict(self.sets)
        f.ge = self.ge
        f.ne = self.ne
        f.gidx = self.gidx
        return f

    # ---- queries
    def aset(self, a):
        s = self.sets.get(a)
        if s is not None:
            return s
        return None

    def arange(self, a, depth=0):
        r = self.iv.get(a)
        if r is None:
            r = (a.lo, a.hi)
        if a.fn is not None and depth < 3:
            bs = base_atoms(a)
            if len(bs) == 1:
                b = next(iter(bs))
                s = self.sets.get(b)
                if s is not None:
                    vals = [eval_atom(a, {b: v}) for v in s]
                    if vals and None not in vals:
                        return (max(r[0], min(vals)), min(r[1], max(vals)))
            k = a.key[0]
            if k in ('div', 'rem', 'mul', 'or', 'and', 'xor'):
                lo, hi = self._derived(a, depth)
                return (max(r[0], lo), min(r[1], hi))
        elif a.fn is None and depth < 3 and a.key[0] == 'mul':
            lo, hi = self._derived(a, depth)
            return (max(r[0], lo), min(r[1], hi))
        return r

    def _derived(self, a, depth):
        k = a.key[0]
        xs = a.base
        r0 = self.range0(xs[0], depth + 1)
        r1 = self.range0(xs[1], depth + 1) if len(xs) > 1 else None
        if k == 'div' and isinstance(xs[1], int) and xs[1] > 0:
            # truncating division
            f = lambda v: v if v in (INF, -INF) else (v // xs[1] if v >= 0 else -((-v) // xs[1]))
            return f(r0[0]), f(r0[1])
        if k == 'rem' and isinstance(xs[1], int) and xs[1] > 0:
            if r0[0] >= 0:
                return 0, min(xs[1] - 1, r0[1])
            return -(xs[1] - 1), xs[1] - 1
        if k == 'mul':
            if r0[0] >= 0 and r1[0] >= 0:
                hi = INF if INF in (r0[1], r1[1]) else r0[1] * r1[1]
                return r0[0] * r1[0], hi
            if INF in (r0[1], r1[1]) or -INF in (r0[0], r1[0]):
                return -INF, INF
            ps = [x * y for x in r0 for y in r1]
            return min(ps), max(ps)
        if k in ('or', 'xor') and r0[0] >= 0 and r1[0] >= 0 and r0[1] != INF and r1[1] != INF:
            b = max(int(r0[1]).bit_length(), int(r1[1]).bit_length())
            return (max(r0[0], r1[0]) if k == 'or' else 0), (1 << b) - 1
        if k == 'and' and r0[0] >= 0 and r1[0] >= 0:
            return 0, min(r0[1], r1[1])
        return -INF, INF

    def range0(self, t, depth=0):
        if isinstance(t, int):
            return t, t
        # single finite-set atom: exact
        bs = None
        if len(t.t) <= 3:
            bs = term_bases(t)
            if len(bs) == 1:
                b = next(iter(bs))
                s = self.sets.get(b)
                if s is not None and len(s) <= 256:
                    r = _RANGES.get((t, s), 0)
                    if r == 0:
                        vals = [eval_term(t, {b: v}) for v in s]
                        r = (min(vals), max(vals)) if vals and None not in vals else None
                        _RANGES[(t, s)] = r
                    if r is not None:
                        return r
        lo = hi = t.c
        for a, k in t.t:
            l, h = self.arange(a, depth)
            if k > 0:
                lo += l * k
                hi += h * k
            else:
                lo += h * k
                hi += l * k
        return lo, hi

    def _idx(self):
        if self.gidx is None:
            d = {}
            for f in self.ge:
                for a, _ in f.t:
                    d.setdefault(a, []).append(f)
            self.gidx = d
        return self.gidx

    def lb(self, t, depth=2):
        lo = self.range0(t)[0]
        if depth == 0 or isinstance(t, int) or not self.ge:
            return lo
        idx = self._idx()
        seen = set()
        for a, k in t.t:
            for f in idx.get(a, ()):
                if f in seen:
                    continue
                seen.add(f)
                for b, kb in f.t:
                    if b is a:
                        break
                if (kb > 0) == (k > 0) and k % kb == 0:
                    m = k // kb
                    r = sub(t, scale(f, m))
                    # only when it simplifies
                    v = self.lb(r, depth - 1) if (isinstance(r, int) or len(r.t) <= len(t.t) + 1) else -INF
                    if v > lo:
                        lo = v
        return lo

    def ub(self, t, depth=2):
        if isinstance(t, int):
            return t
        return -self.lb(neg(t), depth)

    def const(self, t):
        """The single value of t if known."""
        if isinstance(t, int):
            return t
        lo, hi = self.range0(t)
        if lo == hi:
            return lo
        if self.ge:
            lo = self.lb(t, 1)
            if lo != -INF and lo == self.ub(t, 1):
                return lo
        return None

    def norm(self, t):
        """Substitute atoms with a single possible value."""
        if isinstance(t, int):
            return t
        for a, k in t.t:
            l, h = self.arange(a)
            if l == h:
                break
        else:
            return t
        c = t.c
        d = {}
        for a, k in t.t:
            l, h = self.arange(a)
            if l == h:
                c += k * l
            else:
                d[a] = k
        return mk(c, d)

    def decide(self, c):
        """True / False / None"""
        if c is True or c is False:
            return c
        k = c[0]
        if k in ('or', 'and'):
            vs = [self.decide(x) for x in c[1]]
            if k == 'or':
                if True in vs:
                    return True
                if all(v is False for v in vs):
                    return False
            else:
                if False in vs:
                    return False
                if all(v is True for v in vs):
                    return True
            r = self._decide_sets(c)
            return r
        t = c[1]
        r = self._decide_sets(c)
        if r is not None:
            return r
        if k == 'ge':
            if self.lb(t) >= 0:
                return True
            if self.ub(t) < 0:
                return False
            return None
        # eq / ne
        tn = t
        res = None
        lo = self.lb(tn)
        hi = self.ub(tn)
        if lo > 0 or hi < 0:
            res = False
        elif lo == 0 and hi == 0:
            res = True
        else:
            g = 0
            for f in self.ne:
                if f == tn or f == neg(tn):
                    res = False
        if res is None:
            return None
        return res if k == 'eq' else not res

    def _decide_sets(self, c):
        b = cond_base(c)
        if b is None:
            return None
        s = self.sets.get(b)
        if s is None:
            return None
        h = cond_shape(c, b)
        if h is not None:
            k = shape_keep(h, s)
            return True if len(k) == len(s) else None if k else False
        r = _DECIDED.get((c, s), 0)
        if r == 0:
            r = _DECIDED[(c, s)] = self._decide_over(c, b, s)
        return r

    def _decide_over(self, c, b, s):
        vals = {c_eval(c, {b: v}) for v in s}
        if vals == {True}:
            return True
        if vals == {False}:
            return False
        return None

    def prune(self, live):
        """forget atoms that nothing refers to, keeping what follows about the others"""
        ok = {}

        def alive(a):
            r = ok.get(a)
            if r is None:
                r = ok[a] = a in live or a.key[0] in ('byte', 'char', 'w8') and all(x in live for x in deps(a))
            return r
        dead = [a for a in self.iv if not alive(a)]
        gd = set()
        for g in self.ge:
            for a, _ in g.t:
                if not alive(a):
                    gd.add(a)
        if not dead and not gd:
            return self
        f = self.copy()
        ge = list(f.ge)
        for a in sorted(gd, key=lambda x: x.id):
            up, lo, rest = [], [], []
            for g in ge:
                for x, k in g.t:
                    if x is a:
                        (up if k < 0 else lo).append((g, abs(k)))
                        break
                else:
                    rest.append(g)
            l, h = f.arange(a)
            if l != -INF:
                lo.append((sub(var(a), l), 1))
            if h != INF:
                up.append((sub(h, var(a)), 1))
            new = []
            if len(up) * len(lo) <= 12:
                for p, kp in up:
                    for q, kq in lo:
                        r = add(scale(p, kq), scale(q, kp))
                        if not isinstance(r, int) and r not in rest and r not in new:
                            new.append(r)
            f.ge = tuple(rest)
            f.gidx = None
            for r in new:
                if f.lb(r, 1) < 0:
                    f.ge = f.ge + (r,)
                    f.gidx = None
            ge = list(f.ge)
        for a in dead:
            del f.iv[a]
        for a in [a for a in f.sets if not alive(a)]:
            del f.sets[a]
        f.ne = tuple(t for t in f.ne if all(alive(a) for a, _ in t.t))
        return f

    def absurd(self, limit=3000):
        """no integers satisfy the linear facts and the ranges (elimination of one atom after the other)"""
        rows, atoms = set(), set()
        for t in self.ge:
            rows.add((tuple(sorted(t.t, key=lambda p: id(p[0]))), t.c))
            atoms.update(a for a, _ in t.t)
        for a in atoms:
            lo, hi = self.arange(a)
            if lo != -INF:
                rows.add((((a, 1),), -int(lo)))
            if hi != INF:
                rows.add((((a, -1),), int(hi)))
        while atoms:
            use = {a: [0, 0] for a in atoms}
            for t, _ in rows:
                for a, k in t:
                    use[a][k > 0] += 1
            x = min(atoms, key=lambda a: use[a][0] * use[a][1])
            atoms.discard(x)
            if use[x][0] * use[x][1] + len(rows) > limit:
                return False
            pos, negs, rest = [], [], {}

            def keep(t, c):
                if not t:
                    return c >= 0
                if t not in rest or rest[t] > c:
                    rest[t] = c
                return True
            for t, c in rows:
                k = dict(t).get(x)
                if k is None:
                    if not keep(t, c):
                        return True
                elif k > 0:
                    pos.append((k, t, c))
                else:
                    negs.append((-k, t, c))
            for k1, t1, c1 in pos:
                for k2, t2, c2 in negs:
                    d = {}
                    for a, k in t1:
                        d[a] = d.get(a, 0) + k * k2
                    for a, k in t2:
                        d[a] = d.get(a, 0) + k * k1
                    d = {a: k for a, k in d.items() if k}
                    c = c1 * k2 + c2 * k1
                    g = 0
                    for k in d.values():
                        g = math.gcd(g, k)
                    if g > 1:
                        d = {a: k // g for a, k in d.items()}
                        c //= g
                    if not keep(tuple(sorted(d.items(), key=lambda p: id(p[0]))), c):
                        return True
            rows = set(rest.items())
        return any(c < 0 for t, c in rows if not t)

    # ---- updates: return list of Facts (possibly empty = infeasible)
    def assume(self, c):
        if c is True:
            return [self]
        if c is False:
            return []
        d = self.decide(c)
        if d is True:
            return [self]
        if d is False:
            return []
        # exact split over a finite set
        b = cond_base(c)
        if b is not None:
            s = self.sets.get(b)
            if s is None and b.hi != INF and b.lo != -INF:
                l, h = self.arange(b)
                if h - l < 300:
                    s = frozenset(range(l, h + 1))
            if s is not None:
                h = cond_shape(c, b)
                keep = _KEPT.get((c, s)) if h is None else shape_keep(h, s)
                if keep is None:
                    keep = _KEPT[(c, s)] = frozenset(v for v in s if c_eval(c, {b: v}) is not False)
                if not keep:
                    return []
                f = self.copy()
                f.sets[b] = keep
                f.iv[b] = (min(keep), max(keep))
                return [f]
        k = c[0]
        if k == 'or':
            out = []
            negs = []
            for x in c[1]:
                fs = [self]
                for n in negs:
                    fs = [g for f in fs for g in f.assume(n)]
                for f in fs:
                    out.extend(f.assume(x))
                negs.append(c_not(x))
            return out
        if k == 'and':
            fs = [self]
            for x in c[1]:
                fs = [g for f in fs for g in f.assume(x)]
            return fs
        t = c[1]
        if k == 'ge':
            f = self.copy()
            return [f] if f._add_ge(t) else []
        if k == 'eq':
            f = self.copy()
            if not f._add_ge(t):
                return []
            if not f._add_ge(neg(t)):
                return []
            return [f]
        # ne
        f = self.copy()
        if f.lb(t) >= 0:
            return [f] if f._add_ge(sub(t, 1)) else []
        if f.ub(t) <= 0:
            return [f] if f._add_ge(sub(neg(t), 1)) else []
        f.ne = f.ne + (t,)
        return [f]

    def _add_ge(self, t):
        if isinstance(t, int):
            return t >= 0
        # divide by gcd
        g = 0
        from math import gcd
        for _, k in t.t:
            g = gcd(g, abs(k))
        if g > 1:
            t = mk(t.c // g, {a: k // g for a, k in t.t})
        changed = []
        if not self._tighten(t, changed):
            return False
        n = 0
        while changed and n < 24:
            idx = self._idx()
            todo = []
            for a in changed:
                for f in idx.get(a, ()):
                    if f not in todo:
                        todo.append(f)
            changed = []
            for f in todo:
                n += 1
                if n > 24:
                    break
                if not self._tighten(f, changed):
                    return False
        if len(t.t) > 1:
            if self.lb(t, 1) < 0:
                self.ge = tuple(f for f in self.ge if not (sub(f, t).__class__ is int and sub(f, t) >= 0)) + (t,)
                self.gidx = None
            if self.ub(t, 2) < 0:
                return False
            # tighten using disequalities
            for n in self.ne:
                for s in (n, neg(n)):
                    if s == t:
                        self.ne = tuple(x for x in self.ne if x is not n)
                        return self._add_ge(sub(t, 1))
        return True

    def _tighten(self, t, changed):
        """interval propagation through t >= 0"""
        lo, hi = self.range0(t)
        if hi < 0:
            return False
        for a, k in t.t:
            l, h = self.arange(a)
            rest_hi = hi - (h * k if k > 0 else l * k) if hi != INF else None
            if hi == INF:
                # recompute without a
                rest_hi = t.c
                for b, kb in t.t:
                    if b is a:
                        continue
                    bl, bh = self.arange(b)
                    rest_hi += bh * kb if kb > 0 else bl * kb
            if rest_hi == INF:
                continue
            l0, h0 = l, h
            if k > 0:
                # k*a >= -rest_hi
                nl = -(rest_hi // k)
                if nl > l:
                    l = nl
            else:
                nh = rest_hi // (-k)
                if nh < h:
                    h = nh
            if l > h:
                return False
            if (l, h) != (l0, h0):
                changed.append(a)
            if not self._set_iv(a, l, h):
                return False
        return True

    def _set_iv(self, a, l, h):
        cur = self.iv.get(a)
        if cur is not None and cur[0] >= l and cur[1] <= h:
            return True
        if cur is None and a.lo >= l and a.hi <= h:
            return True
        self.iv[a] = (l, h)
        s = self.sets.get(a)
        if s is not None:
            s = frozenset(v for v in s if l <= v <= h)
            if not s:
                return False
            self.sets[a] = s
        return True


def nullspace(cols):
    """integer basis of the combinations of the columns (tuples of terms) that vanish; a vector involves
    the last columns as little as possible"""
    from fractions import Fraction
    from math import gcd
    rows = {}
    n = len(cols)
    for j, c in enumerate(cols):
        for side, t in enumerate(c):
            if isinstance(t, int):
                if t:
                    rows.setdefault((side, None), {})[j] = t
                continue
            if t.c:
                rows.setdefault((side, None), {})[j] = t.c
            for a, k in t.t:
                rows.setdefault((side, a.id), {})[j] = k
    m = [{j: Fraction(k) for j, k in r.items()} for r in rows.values()]
    piv = {}
    for r in m:
        for j in sorted(r):
            if j in r and j in piv:
                f = r[j]
                for jj, k in piv[j].items():
                    v = r.get(jj, 0) - f * k
                    if v:
                        r[jj] = v
                    else:
                        r.pop(jj, None)
        # elimination may bring in pivots of later columns
        while True:
            js = [j for j in r if j in piv]
            if not js:
                break
            j = min(js)
            f = r[j]
            for jj, k in piv[j].items():
                v = r.get(jj, 0) - f * k
                if v:
                    r[jj] = v
                else:
                    r.pop(jj, None)
        if not r:
            continue
        j = min(r)
        f = r[j]
        r = {jj: k / f for jj, k in r.items()}
        for p, q in piv.items():
            if j in q:
                g = q[j]
                for jj, k in r.items():
                    v = q.get(jj, 0) - g * k
                    if v:
                        q[jj] = v
                    else:
                        q.pop(jj, None)
        piv[j] = r
    out = []
    for j in range(n):
        if j in piv:
            continue
        v = {j: Fraction(1)}
        for p, q in piv.items():
            if j in q:
                v[p] = -q[j]
        d = 1
        for k in v.values():
            d = d * k.denominator // gcd(d, k.denominator)
        out.append([int(v.get(i, 0) * d) for i in range(n)])
    return out
