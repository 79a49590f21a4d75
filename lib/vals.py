"""Values of the abstract domain."""
from terms import Lin, atom, var, add, sub, mk, fresh_atom, neg


class Agg:
    """struct / tuple / enum variant / closure; ty is a type id or a ghost tag."""
    __slots__ = ('ty', 'var', 'fs')

    def __init__(self, ty, var, fs):
        self.ty = ty
        self.var = var
        self.fs = fs

    def __repr__(self):
        return '%s:%s%s' % (self.ty, self.var, list(self.fs))


class Opq:
    """A symbolic value of a type, expanded lazily; key identifies it."""
    __slots__ = ('ty', 'key')

    def __init__(self, ty, key):
        self.ty = ty
        self.key = key

    def __repr__(self):
        return 'Opq(%s,%r)' % (self.ty, self.key)


class Un:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return 'Un'


class Ptr:
    """obj None: dangling / null address (path holds the address term)."""
    __slots__ = ('obj', 'path', 'meta')

    def __init__(self, obj, path=(), meta=None):
        self.obj = obj
        self.path = path
        self.meta = meta

    def __repr__(self):
        return '&%r%r%s' % (self.obj, list(self.path), '' if self.meta is None else '#%r' % (self.meta,))


class SeqV:
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        self.segs = segs

    def __repr__(self):
        return 'Seq%r' % (list(self.segs),)


class VecV:
    __slots__ = ('obj', 'len', 'cap')

    def __init__(self, obj, len, cap):
        self.obj = obj
        self.len = len
        self.cap = cap

    def __repr__(self):
        return 'Vec(%r,%r,%r)' % (self.obj, self.len, self.cap)


UNIT = Agg('()', 0, ())


def is_int(v):
    return isinstance(v, (int, Lin)) and not isinstance(v, bool)


def is_cond(v):
    return isinstance(v, bool) or (isinstance(v, tuple) and v and v[0] in ('ge', 'eq', 'ne', 'or', 'and'))


# ------------------------------------------------------------ structured atoms
# constructors: kind -> function(*args) -> Lin   (args: terms or hashables)
CONS = {}


def cons(kind):
    def d(f):
        CONS[kind] = f
        return f
    return d


@cons('byte')
def byte_at(origin, idx):
    return var(atom(('byte', origin, idx), 0, 255))


@cons('char')
def char_at(origin, idx):
    return var(atom(('char', origin, idx), 0, 0x10FFFF))


@cons('w8')
def char_width(c):
    """UTF-8 width of a code point"""
    if isinstance(c, int):
        return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
    return var(atom(('w8', c), 1, 4))


@cons('fnat')
def fn_atom(kind, args, lo, hi):
    return var(atom(('fnat', kind, args, lo, hi), lo, hi))


# ------------------------------------------------------------ sequences
# ('e', v)  ('S', origin, a, b)  ('B', atomkey, len)  ('F', v, n)  ('U', n)  ('X', kind, args, len)
def seglen(s):
    k = s[0]
    if k == 'e':
        return 1
    if k == 'S':
        return sub(s[3], s[2])
    if k == 'B':
        return s[2]
    if k == 'F':
        return s[2]
    if k == 'U':
        return s[1]
    return s[3]


def seqlen(q):
    n = 0
    for s in q.segs:
        n = add(n, seglen(s))
    return n


def norm_seg(s):
    """byte elements of symbolic origin become slices."""
    if s[0] == 'e':
        v = s[1]
        if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            k = v.t[0][0].key
            if k[0] == 'byte':
                return ('S', k[1], k[2], add(k[2], 1))
        if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key and v.key[0] == 'elem':
            return ('S', v.key[1], v.key[2], add(v.key[2], 1))
    return s


def push_seg(out, s):
    s = norm_seg(s)
    n = seglen(s)
    if isinstance(n, int) and n == 0:
        return
    if out:
        p = out[-1]
        if s[0] == 'S' and p[0] == 'S' and p[1] == s[1] and p[3] == s[2]:
            out[-1] = ('S', s[1], p[2], s[3])
            return
        if s[0] == 'F' and p[0] == 'F' and p[1] == s[1]:
            out[-1] = ('F', s[1], add(p[2], s[2]))
            return
        if s[0] == 'F' and s[2] == 1:
            s = ('e', s[1])
        if s[0] == 'U' and p[0] == 'U':
            out[-1] = ('U', add(p[1], s[1]))
            return
    out.append(s)


def mkseq(segs):
    out = []
    for s in segs:
        push_seg(out, s)
    return SeqV(tuple(out))


def cat(*qs):
    out = []
    for q in qs:
        for s in q.segs:
            push_seg(out, s)
    return SeqV(tuple(out))


def bytes_seq(bs):
    return SeqV(tuple(('e', b) for b in bs))


EMPTY = SeqV(())


def vkey(v):
    """hashable structural key of a value"""
    if isinstance(v, (int, str, Lin)) or v is None:
        return v
    if isinstance(v, Agg):
        return ('A', v.ty, v.var, tuple(vkey(f) for f in v.fs))
    if isinstance(v, Opq):
        return ('O', v.ty, v.key)
    if isinstance(v, SeqV):
        return ('Q', tuple(segkey(s) for s in v.segs))
    if isinstance(v, Ptr):
        return ('P', v.obj, v.path, v.meta)
    if isinstance(v, VecV):
        return ('V', v.obj, v.len, v.cap)
    if isinstance(v, Un):
        return ('U',)
    if isinstance(v, tuple):
        return tuple(vkey(x) for x in v)
    return v


def segkey(s):
    if s[0] in 'eF':
        return (s[0], vkey(s[1])) + s[2:]
    return s


def veq(a, b):
    return a is b or vkey(a) == vkey(b)
