"""Models of the standard library functions the crate builds on."""
import re

import terms as T
from terms import (Lin, add, sub, neg, scale, var, mk, atom, c_ge, c_eq, c_not, c_or, c_and, INF)
from vals import *

MODELS = {}
_norm = {}


def norm(path):
    r = _norm.get(path)
    if r is not None:
        return r
    out = []
    i = 0
    n = len(path)
    while i < n:
        c = path[i]
        if c == '<':
            prev = out[-1] if out else ''
            if path.startswith('<impl ', i) or not out:
                # keep, as braces; find the matching end
                d = 0
                j = i
                while j < n:
                    if path[j] == '<':
                        d += 1
                    elif path[j] == '>' and path[j - 1] != '-':
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                inner = path[i + 1:j]
                out.append('{' + norm(inner) + '}')
                i = j + 1
                continue
            d = 0
            j = i
            while j < n:
                if path[j] == '<':
                    d += 1
                elif path[j] == '>' and path[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            if out and out[-1] == ':' and len(out) > 1 and out[-2] == ':':
                out.pop()
                out.pop()
            i = j + 1
            continue
        out.append(c)
        i += 1
    r = ''.join(out)
    _norm[path] = r
    return r


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


_lk = {}


def lookup(f):
    k = f['F'], f['path']
    if k in _lk:
        return _lk[k]
    p = norm(f['path'])
    m = MODELS.get(p)
    if m is None:
        for rx, g in PATTERNS:
            if rx.search(p):
                m = g
                break
    if m is None and f.get('kind') == 'intrinsic':
        m = MODELS.get('intrinsic:' + p.split('::')[-1])
    _lk[k] = m
    return m


PATTERNS = []


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


# ------------------------------------------------------------------ helpers
def vec_at(eng, st, p):
    v = eng.read(st, p.obj, p.path)
    if isinstance(v, Agg) and len(v.fs) == 1 and isinstance(v.fs[0], VecV):
        return v.fs[0], True
    if isinstance(v, Opq):
        v2 = eng.expand(st, v, 0)
        if len(v2.fs) == 1 and isinstance(v2.fs[0], VecV):
            return v2.fs[0], True
    if not isinstance(v, VecV):
        from engine import Unsupported
        raise Unsupported('vector expected, found %r' % (v,))
    return v, False


def set_vec(eng, st, p, v, wrapped):
    if wrapped:
        eng.write(st, p.obj, p.path + (('f', 0, None),), v)
    else:
        eng.write(st, p.obj, p.path, v)


def vec_seq(eng, st, v):
    """content [0, len) of a vector"""
    q = eng.getobj(st, v.obj)
    if isinstance(q, SeqV):
        n = seqlen(q)
        d = sub(n, v.len)
        if isinstance(d, int) and d == 0:
            return q
        if st.facts.decide(c_eq(d)) is True:
            return q
        return eng.seq_slice(st, q, 0, v.len)
    return q


def new_vec(eng, st, q, cap=None):
    o = eng.alloc(st, q)
    n = seqlen(q)
    return VecV(o, n, n if cap is None else cap)


def some(eng, ty, v):
    return Agg(ty, 1, (v,))


def none(eng, ty):
    return Agg(ty, 0, ())


def slice_seq(eng, st, p):
    """content of a fat pointer"""
    if p.obj is None:
        return EMPTY
    return mem_seq(eng, st, p, p.meta)


def mem_seq(eng, st, p, n):
    if isinstance(n, int) and n == 0:
        return EMPTY
    if p.obj is None:
        eng.problem(st, 'null-deref', 'bytes behind a dangling pointer')
    if eng.check is not None:
        eng.check.on_bulk(eng, st, p, n)
    if p.path and p.path[-1][0] == 'el':
        v = eng.read(st, p.obj, p.path[:-1])
        off = p.path[-1][1]
    else:
        v = eng.read(st, p.obj, p.path)
        off = 0
    if isinstance(v, Un):
        v = uninit_seq(eng, v.ty)
    if not isinstance(v, SeqV):
        if n == 1 and off == 0:
            return mkseq([('e', v)])
        from engine import Unsupported
        raise Unsupported('sequence expected, found %r' % (v,))
    return eng.seq_slice(st, v, off, add(off, n))


def uninit_seq(eng, ty):
    """an uninitialised array, possibly inside of MaybeUninit"""
    for _ in range(6):
        k = eng.prog.tys[ty]['k']
        if k[0] == 'array':
            return SeqV((('U', k[2]),))
        if k[0] != 'adt':
            break
        ts = [f for _, f in k[5][0]['fields'] if eng.prog.tys[f]['k'][0] in ('array', 'adt')]
        if len(ts) != 1:
            break
        ty = ts[0]
    from engine import Unsupported
    raise Unsupported('uninitialised memory that is no array')


def write_mem(eng, st, p, n, q):
    """store q (length n) at p"""
    if isinstance(n, int) and n == 0:
        return
    if p.obj is None:
        eng.problem(st, 'null-deref', 'write through a dangling pointer')
    if p.path and p.path[-1][0] == 'el':
        base, off = p.path[:-1], p.path[-1][1]
    else:
        base, off = p.path, 0
    v = eng.read(st, p.obj, base)
    if isinstance(v, Un):
        v = uninit_seq(eng, v.ty)
    if not isinstance(v, SeqV):
        if n == 1 and off == 0 and len(q.segs) == 1:
            eng.write(st, p.obj, base, eng.elem_of(st, q.segs[0], 0))
            return
        from engine import Unsupported
        raise Unsupported('write into %r' % (v,))
    fixed = seqlen(v)
    growable = isinstance(p.obj, int) and not base
    eng.oblige(st, c_ge(off), 'out-of-bounds', 'bulk write before the start of a buffer')
    if not growable:
        eng.oblige(st, c_ge(sub(sub(fixed, off), n)), 'out-of-bounds', 'bulk write past the end of a buffer')
    elif eng.check is not None:
        eng.check.on_heap_write(eng, st, p.obj, off, n)
    eng.write(st, p.obj, base, eng.seq_write(st, v, off, n, q))
    if growable and eng.check is not None:
        eng.check.on_heap_written(eng, st, p.obj, off, n)


def copy_mem(eng, st, src, dst, n):
    n = eng.as_term(st, n)
    q = mem_seq(eng, st, eng.to_ptr(st, src), n)
    write_mem(eng, st, eng.to_ptr(st, dst), n, q)


def native_field(eng, st, v, step):
    if isinstance(v, VecV):
        if step[1] == 1:
            return v.len
    if eng.check is not None:
        return eng.check.native_field(eng, st, v, step)
    return None


def native_upd(eng, st, v, path, i, val):
    if isinstance(v, VecV) and path[i][1] == 1 and i + 1 == len(path):
        return VecV(v.obj, val, v.cap)
    if eng.check is not None:
        return eng.check.native_upd(eng, st, v, path, i, val)
    return None


def transmute(eng, st, v, fty, tty):
    if isinstance(v, SeqV):
        # array <-> array / struct of same layout
        tk = eng.prog.tys[tty]['k']
        if not isinstance(tk, str) and tk[0] == 'array':
            return v
    return None


def drop_place(eng, st, t):
    fid = t[4] if len(t) > 4 else None
    if fid is None:
        return eng.goto(st, t[3])
    f = eng.prog.fns.get(fid) if isinstance(fid, int) else None
    obj, path, meta, ty = eng.place(st, t[1])
    r = eng.check.drop(eng, st, Ptr(obj, path, meta), ty, f, t)
    if r is not None:
        return r
    return eng.goto(st, t[3])


def max_cap():
    return (1 << 63) - 1


def cap_at_least(eng, st, n):
    if not getattr(eng.check, 'caps', False):
        return var(atom(('cap*',), 0, INF))
    c = var(atom(('capa', next(eng.ids)), 0, (1 << 63) - 1))
    eng.assume(st, c_ge(sub(c, n)))
    return c


MAXLEN = (1 << 63) - 1


def grow(eng, st, v, need):
    """make room for need elements in total; returns the new VecV"""
    if getattr(eng.check, 'caps', False):
        if st.facts.lb(sub(v.cap, need)) >= 0:
            return v
        if getattr(eng.check, 'moves', False):
            # the buffer may move: the old one is gone
            q = eng.getobj(st, v.obj)
            o = eng.alloc(st, q)
            st.freed = st.freed | {v.obj}
            if eng.check is not None:
                eng.check.on_realloc(eng, st, v.obj, o)
            return VecV(o, v.len, cap_at_least(eng, st, need))
        return VecV(v.obj, v.len, cap_at_least(eng, st, need))
    if eng.check is not None and eng.check.bound_len and st.facts.ub(need) > MAXLEN and st.facts.decide(c_ge(sub(MAXLEN, need))) is not True:
        eng.assume(st, c_ge(sub(MAXLEN, need)))     # more is a capacity overflow
    return v


# ------------------------------------------------------------------ Vec
@model('alloc::vec::Vec::new', 'alloc::string::String::new', '{alloc::vec::Vec as core::default::Default}::default',
       '{alloc::string::String as core::default::Default}::default')
def vec_new(eng, st, f, vals, t):
    v = VecV(eng.alloc(st), 0, 0 if getattr(eng.check, 'caps', False) else cap_at_least(eng, st, 0))
    return wrap_vec(eng, t[6], v)


def wrap_vec(eng, ty, v):
    if (eng.adt_name(ty) or '').endswith('String'):
        return Agg(ty, 0, (v,))
    return v


@model('alloc::vec::Vec::with_capacity', 'alloc::string::String::with_capacity')
def vec_with_cap(eng, st, f, vals, t):
    n = vals[0]
    if getattr(eng.check, 'exact_cap', False):
        cap = n
    else:
        cap = cap_at_least(eng, st, n)
    return wrap_vec(eng, t[6], VecV(eng.alloc(st), 0, cap))


@model('alloc::vec::Vec::push')
def vec_push(eng, st, f, vals, t):
    p, x = vals
    v, w = vec_at(eng, st, p)
    v = grow(eng, st, v, add(v.len, 1))
    q = vec_seq(eng, st, v)
    st.mem[v.obj] = mkseq(list(q.segs) + [('e', x)])
    set_vec(eng, st, p, VecV(v.obj, add(v.len, 1), v.cap), w)
    if eng.check is not None:
        eng.check.on_append(eng, st, p, mkseq([('e', x)]))
    return UNIT


@model('alloc::vec::Vec::push_mut')
def vec_push_mut(eng, st, f, vals, t):
    p, x = vals
    vec_push(eng, st, f, vals, t)
    v, w = vec_at(eng, st, p)
    return Ptr(v.obj, (('el', sub(v.len, 1)),))


@model('alloc::string::String::push')
def string_push(eng, st, f, vals, t):
    p, c = vals
    return append(eng, st, p, utf8(eng, st, c))


def utf8(eng, st, c):
    cc = st.facts.const(c)
    if cc is not None:
        return bytes_seq(list(chr(cc).encode('utf-8', 'surrogatepass')))
    if st.facts.ub(c) < 0x80:
        return mkseq([('e', c)])
    return SeqV((('X', 'utf8', (c,), char_width(c)),))


def append(eng, st, p, x):
    v, w = vec_at(eng, st, p)
    n = seqlen(x)
    v = grow(eng, st, v, add(v.len, n))
    q = vec_seq(eng, st, v)
    st.mem[v.obj] = cat(q, x)
    set_vec(eng, st, p, VecV(v.obj, add(v.len, n), v.cap), w)
    if eng.check is not None:
        eng.check.on_append(eng, st, p, x)
    return UNIT


@model('alloc::vec::Vec::extend_from_slice', 'alloc::string::String::push_str',
       'alloc::vec::Vec::append_elements')
def vec_extend(eng, st, f, vals, t):
    p, s = vals
    return append(eng, st, p, slice_seq(eng, st, s))


@model('alloc::vec::Vec::resize')
def vec_resize(eng, st, f, vals, t):
    p, n, x = vals
    v, w = vec_at(eng, st, p)
    q = vec_seq(eng, st, v)
    if eng.holds(st, c_ge(sub(n, v.len))):
        return append(eng, st, p, mkseq([('F', x, sub(n, v.len))]))
    st.mem[v.obj] = eng.seq_slice(st, q, 0, n)
    set_vec(eng, st, p, VecV(v.obj, n, v.cap), w)
    return UNIT


@model('alloc::vec::Vec::pop', 'alloc::string::String::pop_')
def vec_pop(eng, st, f, vals, t):
    p = vals[0]
    v, w = vec_at(eng, st, p)
    if eng.holds(st, c_eq(v.len)):
        return none(eng, t[6])
    q = vec_seq(eng, st, v)
    x = eng.seq_get(st, q, sub(v.len, 1))
    st.mem[v.obj] = eng.seq_slice(st, q, 0, sub(v.len, 1))
    set_vec(eng, st, p, VecV(v.obj, sub(v.len, 1), v.cap), w)
    return some(eng, t[6], x)


@model('alloc::vec::Vec::len', 'alloc::string::String::len')
def vec_len(eng, st, f, vals, t):
    return vec_at(eng, st, vals[0])[0].len


@model('alloc::vec::Vec::capacity', 'alloc::string::String::capacity')
def vec_cap(eng, st, f, vals, t):
    return vec_at(eng, st, vals[0])[0].cap


@model('alloc::vec::Vec::is_empty', 'alloc::string::String::is_empty')
def vec_is_empty(eng, st, f, vals, t):
    return c_eq(vec_at(eng, st, vals[0])[0].len)


@model('alloc::vec::Vec::clear', 'alloc::string::String::clear')
def vec_clear(eng, st, f, vals, t):
    v, w = vec_at(eng, st, vals[0])
    st.mem[v.obj] = EMPTY
    set_vec(eng, st, vals[0], VecV(v.obj, 0, v.cap), w)
    return UNIT


@model('alloc::vec::Vec::truncate', 'alloc::string::String::truncate')
def vec_truncate(eng, st, f, vals, t):
    v, w = vec_at(eng, st, vals[0])
    n = vals[1]
    if eng.holds(st, c_ge(sub(n, v.len))):
        return UNIT
    st.mem[v.obj] = eng.seq_slice(st, vec_seq(eng, st, v), 0, n)
    set_vec(eng, st, vals[0], VecV(v.obj, n, v.cap), w)
    return UNIT


@model('alloc::vec::Vec::set_len')
def vec_set_len(eng, st, f, vals, t):
    p, n = vals
    v, w = vec_at(eng, st, p)
    q = eng.getobj(st, v.obj)
    if getattr(eng.check, 'caps', False):
        eng.oblige(st, c_ge(sub(v.cap, n)), 'set_len', 'set_len beyond the capacity')
    old = v.len
    set_vec(eng, st, p, VecV(v.obj, n, v.cap), w)
    have = seqlen(q)
    if st.facts.decide(c_eq(sub(n, have))) is not True:
        d = eng.holds(st, c_ge(sub(have, n)))
        if d:
            st.mem[v.obj] = eng.seq_slice(st, q, 0, n)
        else:
            st.mem[v.obj] = mkseq(list(q.segs) + [('U', sub(n, have))])
    if eng.check is not None and eng.holds(st, c_ge(sub(n, old))):
        new = eng.seq_slice(st, st.mem[v.obj], old, n)
        eng.check.on_append(eng, st, p, new)
    return UNIT


@model('alloc::vec::Vec::reserve', 'alloc::string::String::reserve', 'alloc::vec::Vec::reserve_exact')
def vec_reserve(eng, st, f, vals, t):
    p, n = vals
    v, w = vec_at(eng, st, p)
    set_vec(eng, st, p, grow(eng, st, v, add(v.len, n)), w)
    return UNIT


@model('alloc::vec::Vec::as_ptr', 'alloc::vec::Vec::as_mut_ptr')
def vec_as_ptr(eng, st, f, vals, t):
    v, w = vec_at(eng, st, vals[0])
    return Ptr(v.obj, (('el', 0),))


@model('{alloc::vec::Vec as core::ops::deref::Deref}::deref', '{alloc::vec::Vec as core::ops::deref::DerefMut}::deref_mut',
       'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', '{alloc::string::String as core::ops::deref::Deref}::deref',
       'alloc::string::String::as_str', 'alloc::string::String::as_bytes', '{alloc::vec::Vec as core::convert::AsRef}::as_ref',
       '{alloc::vec::Vec as core::borrow::Borrow}::borrow', '{alloc::string::String as core::convert::AsRef}::as_ref',
       '{alloc::string::String as core::borrow::Borrow}::borrow', '{alloc::string::String as core::ops::deref::DerefMut}::deref_mut')
def vec_deref(eng, st, f, vals, t):
    v, w = vec_at(eng, st, vals[0])
    return Ptr(v.obj, (('el', 0),), v.len)


@model('alloc::string::String::from_utf8_unchecked', 'alloc::string::String::into_bytes')
def string_from_vec(eng, st, f, vals, t):
    v = vals[0]
    if isinstance(v, Agg):
        v = v.fs[0]
    if eng.check is not None and 'from_utf8' in f['path']:
        eng.check.on_utf8(eng, st, vec_seq(eng, st, v), f)
    return wrap_vec(eng, t[6], v)


@model('alloc::string::String::as_mut_vec')
def string_as_mut_vec(eng, st, f, vals, t):
    return Ptr(vals[0].obj, vals[0].path + (('f', 0, None),))


@model('alloc::vec::Vec::from_raw_parts')
def vec_from_raw(eng, st, f, vals, t):
    p, n, c = vals
    p = eng.to_ptr(st, p)
    if eng.check is not None:
        eng.check.on_from_raw(eng, st, p, n, c)
    if p.obj is None:
        return VecV(eng.alloc(st), n, c)
    return VecV(p.obj, n, c)


@model('alloc::vec::Vec::remove')
def vec_remove(eng, st, f, vals, t):
    p, i = vals
    v, w = vec_at(eng, st, p)
    if not eng.holds(st, c_ge(sub(sub(v.len, i), 1))):
        eng.panic(st, 'Vec::remove index out of bounds')
        from engine import Dead
        raise Dead()
    q = vec_seq(eng, st, v)
    x = eng.seq_get(st, q, i)
    a, rest = eng.seq_split(st, q, i)
    _, b = eng.seq_split(st, SeqV(tuple(rest)), 1)
    st.mem[v.obj] = mkseq(list(a) + list(b))
    set_vec(eng, st, p, VecV(v.obj, sub(v.len, 1), v.cap), w)
    return x


@model('alloc::vec::Vec::swap_remove')
def vec_swap_remove(eng, st, f, vals, t):
    p, i = vals
    v, w = vec_at(eng, st, p)
    if not eng.holds(st, c_ge(sub(sub(v.len, i), 1))):
        eng.panic(st, 'Vec::swap_remove index out of bounds')
        from engine import Dead
        raise Dead()
    q = vec_seq(eng, st, v)
    x = eng.seq_get(st, q, i)
    n = sub(v.len, 1)
    if eng.holds(st, c_eq(sub(i, n))):
        r = eng.seq_slice(st, q, 0, n)
    else:
        y = eng.seq_get(st, q, n)
        a, rest = eng.seq_split(st, eng.seq_slice(st, q, 0, n), i)
        _, b = eng.seq_split(st, SeqV(tuple(rest)), 1)
        r = mkseq(list(a) + [('e', y)] + list(b))
    st.mem[v.obj] = r
    set_vec(eng, st, p, VecV(v.obj, n, v.cap), w)
    return x


@model('alloc::vec::Vec::shrink_to_fit', 'alloc::string::String::shrink_to_fit', 'alloc::vec::Vec::shrink_to')
def vec_shrink(eng, st, f, vals, t):
    return UNIT


@model('alloc::vec::Vec::append')
def vec_append(eng, st, f, vals, t):
    v, w = vec_at(eng, st, vals[1])
    append(eng, st, vals[0], vec_seq(eng, st, v))
    st.mem[v.obj] = EMPTY
    set_vec(eng, st, vals[1], VecV(v.obj, 0, v.cap), w)
    return UNIT


@model('alloc::vec::Vec::insert')
def vec_insert(eng, st, f, vals, t):
    p, i, x = vals
    v, w = vec_at(eng, st, p)
    if not eng.holds(st, c_ge(sub(v.len, i))):
        eng.panic(st, 'Vec::insert index out of bounds')
        from engine import Dead
        raise Dead()
    v = grow(eng, st, v, add(v.len, 1))
    q = vec_seq(eng, st, v)
    a, rest = eng.seq_split(st, q, i)
    st.mem[v.obj] = mkseq(list(a) + [('e', x)] + list(rest))
    set_vec(eng, st, p, VecV(v.obj, add(v.len, 1), v.cap), w)
    return UNIT


@model('{alloc::vec::Vec as core::ops::index::Index}::index', '{alloc::vec::Vec as core::ops::index::IndexMut}::index_mut')
def vec_index(eng, st, f, vals, t):
    v, w = vec_at(eng, st, vals[0])
    return index_slice(eng, st, Ptr(v.obj, (('el', 0),), v.len), vals[1], t)


def range_bounds(eng, st, r, n):
    """(lo, hi, inclusive_overflow) of a range value over length n"""
    name = eng.adt_name(r.ty) or ''
    nm = name.split('::')[-1]
    if nm == 'Range':
        return r.fs[0], r.fs[1]
    if nm == 'RangeTo':
        return 0, r.fs[0]
    if nm == 'RangeFrom':
        return r.fs[0], n
    if nm == 'RangeFull':
        return 0, n
    if nm == 'RangeToInclusive':
        return 0, add(r.fs[0], 1)
    if nm == 'RangeInclusive':
        return r.fs[0], add(r.fs[1], 1)
    return None


def index_slice(eng, st, p, i, t, get=False, is_str=False):
    from engine import Dead
    n = p.meta
    if is_int(i):
        ok = eng.holds(st, c_ge(sub(sub(n, i), 1)))
        if not ok:
            if get:
                return None
            eng.panic(st, 'index out of bounds')
            raise Dead()
        return eng.ptr_offset(st, Ptr(p.obj, p.path, None), i)
    if isinstance(i, Opq):
        i = eng.expand(st, i, 0)
    b = range_bounds(eng, st, i, n) if isinstance(i, Agg) else None
    if b is None:
        return NotImplemented
    lo, hi = b
    ok = eng.holds(st, c_and(c_ge(sub(hi, lo)), c_ge(sub(n, hi))))
    if ok and is_str:
        for x in (lo, hi):
            r = boundary(eng, st, p, x)
            if r is None and get:
                from engine import Unsupported
                raise Unsupported('a cut of a text at an unknown character boundary')
            if r is False or r is None:
                ok = False
    if not ok:
        if get:
            return None
        eng.panic(st, 'slice index out of range%s' % (' or not on a character boundary' if is_str else ''))
        raise Dead()
    q = eng.ptr_offset(st, Ptr(p.obj, p.path, None), lo)
    return Ptr(q.obj, q.path, sub(hi, lo))


def boundary(eng, st, p, x):
    f = st.facts
    if f.const(x) == 0 or f.decide(c_eq(sub(x, p.meta))) is True:
        return True
    if eng.check is not None:
        return eng.check.char_boundary(eng, st, p, x)
    return None


@model('core::str::traits::{impl core::ops::index::Index for str}::index')
def str_index(eng, st, f, vals, t):
    return index_slice(eng, st, vals[0], vals[1], t, is_str=True)


@model('core::str::{impl str}::get')
def str_get(eng, st, f, vals, t):
    r = index_slice(eng, st, vals[0], vals[1], t, get=True, is_str=True)
    return none(eng, t[6]) if r is None else r if r is NotImplemented else some(eng, t[6], r)


@model('core::slice::index::{impl core::ops::index::Index for [T]}::index',
       'core::slice::index::{impl core::ops::index::IndexMut for [T]}::index_mut')
def slice_index(eng, st, f, vals, t):
    return index_slice(eng, st, vals[0], vals[1], t)


@model('core::slice::{impl [T]}::get', 'core::slice::{impl [T]}::get_mut')
def slice_get(eng, st, f, vals, t):
    r = index_slice(eng, st, vals[0], vals[1], t, get=True)
    return none(eng, t[6]) if r is None else r if r is NotImplemented else some(eng, t[6], r)


@model('core::slice::{impl [T]}::get_unchecked', 'core::slice::{impl [T]}::get_unchecked_mut')
def slice_get_unchecked(eng, st, f, vals, t):
    p, i = vals
    n = p.meta
    if is_int(i):
        eng.oblige(st, c_and(c_ge(i), c_ge(sub(sub(n, i), 1))), 'out-of-bounds', 'unchecked index out of bounds')
        return eng.ptr_offset(st, Ptr(p.obj, p.path, None), i)
    return NotImplemented


@model('core::slice::{impl [T]}::last_mut', 'core::slice::{impl [T]}::last')
def slice_last(eng, st, f, vals, t):
    p = vals[0]
    if eng.holds(st, c_eq(p.meta)):
        return none(eng, t[6])
    q = eng.ptr_offset(st, Ptr(p.obj, p.path, None), sub(p.meta, 1))
    return some(eng, t[6], q)


@model('core::slice::{impl [T]}::first', 'core::slice::{impl [T]}::first_mut')
def slice_first(eng, st, f, vals, t):
    p = vals[0]
    if eng.holds(st, c_eq(p.meta)):
        return none(eng, t[6])
    return some(eng, t[6], Ptr(p.obj, p.path, None))


@model('core::slice::{impl [T]}::len', 'core::str::{impl str}::len')
def slice_len(eng, st, f, vals, t):
    return vals[0].meta


@model('core::slice::{impl [T]}::is_empty', 'core::str::{impl str}::is_empty')
def slice_is_empty(eng, st, f, vals, t):
    return c_eq(vals[0].meta)


@model('core::str::{impl str}::as_bytes', 'core::str::{impl str}::as_bytes_mut')
def str_as_bytes(eng, st, f, vals, t):
    return vals[0]


@model('core::str::{impl str}::as_ptr', 'core::slice::{impl [T]}::as_ptr', 'core::slice::{impl [T]}::as_mut_ptr')
def slice_as_ptr(eng, st, f, vals, t):
    return Ptr(vals[0].obj, vals[0].path, None)


@model('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut')
def from_raw_parts(eng, st, f, vals, t):
    p, n = vals
    p = eng.to_ptr(st, p)
    if p.obj is not None and not (p.path and p.path[-1][0] == 'el'):
        p = Ptr(p.obj, p.path + (('el', 0),))
    if eng.check is not None:
        eng.check.on_raw_slice(eng, st, p, n)
    return Ptr(p.obj, p.path, n)


@model('core::str::converts::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked_mut')
def from_utf8_unchecked(eng, st, f, vals, t):
    if eng.check is not None:
        eng.check.on_utf8(eng, st, slice_seq(eng, st, vals[0]), f)
    return vals[0]


@model('alloc::slice::{impl [T]}::to_vec', 'alloc::slice::{impl [T]}::to_vec_in', 'alloc::slice::{impl [T]}::into_vec')
def to_vec(eng, st, f, vals, t):
    q = slice_seq(eng, st, vals[0])
    if any(s[0] == 'e' and not is_int(s[1]) for s in q.segs):
        return NotImplemented
    return new_vec(eng, st, q)


@model('{alloc::string::String as core::convert::From}::from', 'alloc::str::{impl alloc::borrow::ToOwned for str}::to_owned',
       '{str as alloc::string::ToString}::to_string', 'alloc::string::{impl core::convert::From for alloc::string::String}::from',
       '{alloc::string::String as alloc::string::ToString}::to_string', '{str as alloc::string::SpecToString}::spec_to_string')
def string_from(eng, st, f, vals, t):
    v = vals[0]
    if isinstance(v, Ptr) and v.meta is not None:
        return wrap_vec(eng, t[6], new_vec(eng, st, slice_seq(eng, st, v)))
    if isinstance(v, Ptr):
        vec, w = vec_at(eng, st, v)
        return wrap_vec(eng, t[6], new_vec(eng, st, vec_seq(eng, st, vec)))
    return NotImplemented


@model('{alloc::string::String as core::clone::Clone}::clone')
def string_clone(eng, st, f, vals, t):
    v, w = vec_at(eng, st, vals[0])
    return wrap_vec(eng, t[6], new_vec(eng, st, vec_seq(eng, st, v)))


# ------------------------------------------------------------------ comparisons of byte strings
def seq_equal(eng, st, a, b):
    """condition: the two byte sequences are equal"""
    r = eng.seq_eq(st, a, b)
    if r is None and eng.check is not None:
        r = eng.check.text_relation(eng, st, a, b)
    if r is not None:
        return r
    la, lb = seqlen(a), seqlen(b)
    d = st.facts.decide(c_eq(sub(la, lb)))
    if d is False:
        return False
    if st.facts.const(la) == 0 or st.facts.const(lb) == 0:
        return c_eq(sub(la, lb))
    if not eng.merge:
        # the same question asked before the facts were refined
        for x, y, c in st.ghost.get('eqm', ()):
            if eng.seq_eq(st, x, a) is True and eng.seq_eq(st, y, b) is True or \
                    eng.seq_eq(st, x, b) is True and eng.seq_eq(st, y, a) is True:
                return c
    ka, kb = vkey(a), vkey(b)
    if repr(ka) > repr(kb):
        ka, kb = kb, ka
    c = c_eq(sub(var(atom(('seqeq', ka, kb), 0, 1)), 1))
    if d is None:
        c = c_and(c_eq(sub(la, lb)), c)
    if not eng.merge:
        st.ghost['eqm'] = st.ghost.get('eqm', ()) + ((a, b, c),)
    return c


@model('core::str::traits::{impl core::cmp::PartialEq for str}::eq')
def str_eq(eng, st, f, vals, t):
    return seq_equal(eng, st, slice_seq(eng, st, vals[0]), slice_seq(eng, st, vals[1]))


@pattern(r'core::slice::cmp::\{impl core::cmp::PartialEq for \[')
def slice_eq(eng, st, f, vals, t):
    if vals[0].meta is None or vals[1].meta is None:
        return NotImplemented
    if not f['path'].endswith(('eq', 'ne')):
        return NotImplemented
    qa, qb = slice_seq(eng, st, vals[0]), slice_seq(eng, st, vals[1])
    r = seq_equal(eng, st, qa, qb)
    return c_not(r) if f['path'].endswith('::ne') else r


@model('intrinsic:compare_bytes')
def compare_bytes(eng, st, f, vals, t):
    a, b, n = vals
    qa, qb = mem_seq(eng, st, a, n), mem_seq(eng, st, b, n)
    e = seq_equal(eng, st, qa, qb)
    if eng.holds(st, e):
        return 0
    r = var(atom(('memcmp', vkey(qa), vkey(qb)), -255, 255))
    eng.assume(st, ('ne', r))
    return r


@model('intrinsic:typed_swap_nonoverlapping')
def typed_swap(eng, st, f, vals, t):
    a, b = vals
    x, y = eng.read(st, a.obj, a.path), eng.read(st, b.obj, b.path)
    eng.write(st, a.obj, a.path, y)
    eng.write(st, b.obj, b.path, x)
    return UNIT


@model('core::mem::swap')
def mem_swap(eng, st, f, vals, t):
    return typed_swap(eng, st, f, vals, t)


@model('core::mem::replace')
def mem_replace(eng, st, f, vals, t):
    a, new = vals
    x = eng.read(st, a.obj, a.path)
    eng.write(st, a.obj, a.path, new)
    return x


@model('core::mem::forget')
def mem_forget(eng, st, f, vals, t):
    return UNIT


@model('core::mem::drop')
def mem_drop(eng, st, f, vals, t):
    if eng.drops:
        return NotImplemented
    return UNIT


@model('core::mem::maybe_uninit::MaybeUninit::uninit')
def mu_uninit(eng, st, f, vals, t):
    inner = eng.strip_union(t[6])
    k = eng.prog.tys[inner]['k']
    if not isinstance(k, str) and k[0] == 'array':
        return SeqV((('U', k[2]),))
    return Un(inner)


@model('core::mem::maybe_uninit::MaybeUninit::as_mut_ptr', 'core::mem::maybe_uninit::MaybeUninit::as_ptr')
def mu_ptr(eng, st, f, vals, t):
    return vals[0]


@model('core::ptr::copy_nonoverlapping', 'intrinsic:copy_nonoverlapping', 'core::ptr::copy', 'intrinsic:copy')
def copy_no(eng, st, f, vals, t):
    copy_mem(eng, st, *vals)
    return UNIT


@model('core::ptr::write_bytes', 'intrinsic:write_bytes')
def write_bytes(eng, st, f, vals, t):
    p, b, n = vals
    write_mem(eng, st, p, n, mkseq([('F', b, n)]))
    return UNIT


@model('intrinsic:ptr_offset_from_unsigned', 'intrinsic:ptr_offset_from', 'core::ptr::const_ptr::{impl *const T}::offset_from_unsigned',
       'core::ptr::const_ptr::{impl *const T}::offset_from', 'core::ptr::mut_ptr::{impl *mut T}::offset_from')
def offset_from(eng, st, f, vals, t):
    a, b = vals
    if a.obj is None and b.obj is None:
        return sub(a.path[0], b.path[0])
    pa = a.path if a.path and a.path[-1][0] == 'el' else a.path + (('el', 0),)
    pb = b.path if b.path and b.path[-1][0] == 'el' else b.path + (('el', 0),)
    if a.obj != b.obj or pa[:-1] != pb[:-1]:
        eng.problem(st, 'pointer', 'offset between pointers into different objects')
    return sub(pa[-1][1], pb[-1][1])


@model('core::ptr::const_ptr::{impl *const T}::offset', 'core::ptr::mut_ptr::{impl *mut T}::offset',
       'core::ptr::const_ptr::{impl *const T}::add', 'core::ptr::mut_ptr::{impl *mut T}::add', 'intrinsic:arith_offset',
       'core::ptr::mut_ptr::{impl *mut T}::wrapping_add', 'core::ptr::const_ptr::{impl *const T}::wrapping_add')
def p_offset(eng, st, f, vals, t):
    return eng.ptr_offset(st, vals[0], eng.as_term(st, vals[1]))


@model('core::ptr::const_ptr::{impl *const T}::sub', 'core::ptr::mut_ptr::{impl *mut T}::sub')
def p_sub(eng, st, f, vals, t):
    return eng.ptr_offset(st, vals[0], neg(eng.as_term(st, vals[1])))


@model('core::ptr::null_mut', 'core::ptr::null')
def p_null(eng, st, f, vals, t):
    return Ptr(None, (0,))


@model('core::ptr::const_ptr::{impl *const T}::is_null', 'core::ptr::mut_ptr::{impl *mut T}::is_null')
def p_is_null(eng, st, f, vals, t):
    p = vals[0]
    if p.obj is None:
        return c_eq(p.path[0])
    return False


@model('intrinsic:cold_path', 'intrinsic:assert_inhabited', 'intrinsic:assert_zero_valid', 'intrinsic:assert_mem_uninitialized_valid')
def nop(eng, st, f, vals, t):
    return UNIT


def int_of(eng, t):
    return eng.int_ty(t[6])


@model('intrinsic:saturating_add', 'intrinsic:saturating_sub')
def saturating(eng, st, f, vals, t):
    bits, signed = int_of(eng, t)
    lo, hi = T.ty_range(bits, signed)
    r = add(*vals) if 'add' in f['path'] else sub(*vals)
    return clamp(eng, st, r, lo, hi)


def clamp(eng, st, r, lo, hi):
    if eng.holds(st, c_ge(sub(lo, r))):
        return lo
    if eng.holds(st, c_ge(sub(r, hi))):
        return hi
    return r


@pattern(r'core::num::\{impl [iu]\w+\}::saturating_mul$')
def saturating_mul(eng, st, f, vals, t):
    bits, signed = int_of(eng, t)
    lo, hi = T.ty_range(bits, signed)
    return clamp(eng, st, eng.mul(st, vals[0], vals[1]), lo, hi)


@pattern(r'core::num::\{impl [iu]\w+\}::saturating_(add|sub)$')
def saturating_as(eng, st, f, vals, t):
    return saturating(eng, st, f, vals, t)


@model('intrinsic:integer_max')
def int_max(eng, st, f, vals, t):
    a, b = vals
    return a if eng.holds(st, c_ge(sub(a, b))) else b


@model('intrinsic:integer_min')
def int_min(eng, st, f, vals, t):
    a, b = vals
    return b if eng.holds(st, c_ge(sub(a, b))) else a


@pattern(r'core::num::\{impl [iu]\w+\}::(max_value|MAX)$')
def max_value(eng, st, f, vals, t):
    return T.ty_range(*int_of(eng, t))[1]


@pattern(r'core::num::\{impl [iu]\w+\}::(min_value|MIN)$')
def min_value(eng, st, f, vals, t):
    return T.ty_range(*int_of(eng, t))[0]


@pattern(r'core::num::\{impl [iu]\w+\}::checked_(add|sub|mul)$')
def checked_op(eng, st, f, vals, t):
    o = f['path'].rsplit('_', 1)[1]
    ity = eng.prog.tys[t[6]]['k'][3][0]
    bits, signed = eng.int_ty(ity)
    lo, hi = T.ty_range(bits, signed)
    a, b = vals
    r = add(a, b) if o == 'add' else sub(a, b) if o == 'sub' else eng.mul(st, a, b)
    if eng.holds(st, c_and(c_ge(sub(r, lo)), c_ge(sub(hi, r)))):
        return some(eng, t[6], r)
    return none(eng, t[6])


@pattern(r'core::num::\{impl [iu]\w+\}::wrapping_(add|sub|mul|neg)$')
def wrapping_op(eng, st, f, vals, t):
    o = f['path'].rsplit('_', 1)[1]
    a = vals[0]
    if o == 'neg':
        r = neg(a)
    else:
        b = vals[1]
        r = add(a, b) if o == 'add' else sub(a, b) if o == 'sub' else eng.mul(st, a, b)
    return eng.wrap(st, r, *int_of(eng, t))


@pattern(r'core::num::\{impl [iu]\w+\}::pow$')
def int_pow(eng, st, f, vals, t):
    a, b = vals
    ca, cb = st.facts.const(a), st.facts.const(b)
    if ca is not None and cb is not None:
        r = ca ** cb
        lo, hi = T.ty_range(*int_of(eng, t))
        if not lo <= r <= hi:
            eng.panic(st, 'arithmetic overflow (pow)')
        return r
    return NotImplemented


# ------------------------------------------------------------------ char
@model('core::char::convert::{impl core::convert::TryFrom for char}::try_from')
def char_try_from(eng, st, f, vals, t):
    u = vals[0]
    ok = c_or(c_ge(sub(0xD7FF, u)), c_and(c_ge(sub(u, 0xE000)), c_ge(sub(0x10FFFF, u))))
    if eng.holds(st, ok):
        return Agg(t[6], 0, (u,))
    ety = eng.prog.tys[t[6]]['k'][3][1]
    return Agg(t[6], 1, (Agg(ety, 0, (UNIT,)),))


@model('core::char::methods::{impl char}::from_u32', 'core::char::convert::from_u32')
def char_from_u32(eng, st, f, vals, t):
    u = vals[0]
    ok = c_or(c_ge(sub(0xD7FF, u)), c_and(c_ge(sub(u, 0xE000)), c_ge(sub(0x10FFFF, u))))
    if eng.holds(st, ok):
        return some(eng, t[6], u)
    return none(eng, t[6])


@model('core::char::methods::{impl char}::from_u32_unchecked', 'core::char::convert::from_u32_unchecked')
def char_from_u32_unchecked(eng, st, f, vals, t):
    u = vals[0]
    ok = c_or(c_ge(sub(0xD7FF, u)), c_and(c_ge(sub(u, 0xE000)), c_ge(sub(0x10FFFF, u))))
    eng.oblige(st, ok, 'invalid-char', 'unchecked conversion of a surrogate to char')
    return u


@model('core::char::methods::{impl char}::encode_utf8')
def encode_utf8(eng, st, f, vals, t):
    c, buf = vals
    q = utf8(eng, st, c)
    n = seqlen(q)
    write_mem(eng, st, Ptr(buf.obj, buf.path), n, q)
    return Ptr(buf.obj, buf.path, n)


@model('core::char::methods::{impl char}::len_utf8')
def len_utf8(eng, st, f, vals, t):
    return char_width(vals[0])


@model('{core::str::iter::Chars as core::iter::traits::iterator::Iterator}::next')
def chars_next(eng, st, f, vals, t):
    p = vals[0]
    it = eng.read(st, p.obj, p.path)
    if isinstance(it, Opq):
        return some(eng, t[6], eng.mkopq(eng.prog.tys[t[6]]['k'][3][0], ('ucall', 'chars', next(eng.ids)))) if False else NotImplemented
    inner = it.fs[0]          # slice::Iter { ptr, end_or_len, marker }
    cur = eng.to_ptr(st, inner.fs[0])
    end = eng.to_ptr(st, inner.fs[1])
    left = offset_from(eng, st, f, [end, cur], t)
    if eng.holds(st, c_eq(left)):
        return none(eng, t[6])
    v = eng.getobj(st, cur.obj)
    for s in cur.path[:-1]:
        v = eng.proj(st, v, s)
    i, off = eng.seq_find(st, v, cur.path[-1][1])
    if i is None:
        eng.problem(st, 'out-of-bounds', 'character read outside of a string')
    seg = v.segs[i]
    if seg[0] == 'S':
        c = char_at(seg[1], add(seg[2], off))
        w = char_width(c)
    elif seg[0] == 'X' and seg[1] == 'utf8' and off == 0:
        c = seg[2][0]
        w = char_width(c)
    else:
        b = eng.elem_of(st, seg, off)
        if is_int(b) and st.facts.ub(b) < 128:
            c, w = b, 1
        else:
            c = var(atom(('uchar', next(eng.ids)), 0, 0x10FFFF))
            w = var(atom(('uw', next(eng.ids)), 1, 4))
    if isinstance(w, Lin):
        eng.assume(st, c_ge(sub(left, w)))
    new = eng.ptr_offset(st, cur, w)
    eng.write(st, p.obj, p.path + (('f', 0, None), ('f', 0, None)), eng.into_newtype(inner_ty(eng, inner, 0), new))
    return some(eng, t[6], c)


def inner_ty(eng, agg, i):
    return eng.variant_fields(agg.ty, 0)[i] if isinstance(agg.ty, int) else None


@pattern(r'core::str::iter::Chars as core::iter::traits::iterator::Iterator\}::count$')
def chars_count(eng, st, f, vals, t):
    return var(atom(('chars', next(eng.ids)), 0, (1 << 63) - 2))


@pattern(r'core::iter::traits::iterator::Iterator::last$')
def iter_last(eng, st, f, vals, t):
    ty = t[6]
    s = eng.prog.tys[t[5][0]]['s']
    if 'str' not in s:
        return NotImplemented
    v = eng.mkopq(ty, ('ucall', 'last', next(eng.ids)))
    # the pieces of a string are at most as many as it has bytes, and one
    if isinstance(v, Opq):
        for x in eng.expand(st, v, 1).fs:
            for y in (x.fs if isinstance(x, Agg) else (x,)):
                if is_int(y):
                    eng.assume(st, c_ge(sub((1 << 63) - 1, y)))
    return v


@pattern(r'core::iter::traits::iterator::Iterator::count$')
def iter_count(eng, st, f, vals, t):
    s = eng.prog.tys[t[5][0]]['s']
    if 'core::str::' not in s:
        return NotImplemented
    return var(atom(('count', next(eng.ids)), 0, (1 << 63) - 2))


@pattern(r'core::str::\{impl str\}::(split|lines|rsplit|char_indices|rfind|find|matches|trim\w*|rsplitn|splitn|split_inclusive|rmatches)$')
def str_opaque(eng, st, f, vals, t):
    return eng.mkopq(t[6], ('ucall', f['path'], next(eng.ids)))


# ------------------------------------------------------------------ comparisons of whole containers
def content_of(eng, st, p):
    """sequence behind any nesting of references, None when it is not one"""
    while isinstance(p, Ptr) and p.meta is None and p.obj is not None:
        p = eng.read(st, p.obj, p.path)
    if isinstance(p, Ptr):
        return slice_seq(eng, st, p)
    if isinstance(p, Opq):
        p = eng.expand(st, p, 0)
    while isinstance(p, Agg) and len(p.fs) == 1:
        p = p.fs[0]
    if isinstance(p, VecV):
        return vec_seq(eng, st, p)
    if isinstance(p, SeqV):
        return p
    return None


@pattern(r'^alloc::string::\{impl core::cmp::PartialEq for .*\}::(eq|ne)$')
def text_eq(eng, st, f, vals, t):
    a, b = content_of(eng, st, vals[0]), content_of(eng, st, vals[1])
    if a is None or b is None:
        return NotImplemented
    r = seq_equal(eng, st, a, b)
    return c_not(r) if f['path'].endswith('::ne') else r


MODELS['{alloc::string::String as core::cmp::PartialEq}::eq'] = text_eq
MODELS['{alloc::string::String as core::cmp::PartialEq}::ne'] = text_eq


@pattern(r'^alloc::vec::partial_eq::\{impl core::cmp::PartialEq for .*\}::(eq|ne)$')
def vecs_eq(eng, st, f, vals, t):
    return text_eq(eng, st, f, vals, t)


@model('{alloc::vec::Vec as core::clone::Clone}::clone')
def vec_clone(eng, st, f, vals, t):
    """element wise clone: a clone equals what it was made from (checked for the crate's own types)"""
    v, w = vec_at(eng, st, vals[0])
    q = vec_seq(eng, st, v)
    if eng.check is not None:
        r = eng.check.vec_clone(eng, st, v, q, t)
        if r is not None:
            return r
    ek = eng.prog.tys[eng.vec_elem(t[6])]['k']
    if isinstance(ek, str) or ek[0] in ('int', 'float'):
        return new_vec(eng, st, q)
    return NotImplemented


@pattern(r'^core::(ptr::non_null::NonNull::|ptr::mut_ptr::|ptr::const_ptr::).*::is_aligned(_to)?$')
def aligned(eng, st, f, vals, t):
    return True
