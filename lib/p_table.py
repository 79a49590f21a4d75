"""The value API: equality, accessors, mutators as finite tables over the kinds of value.

Every entry point is interpreted for an arbitrary value; operations of `Object`
are taken by their contract (which the object checks establish) and recorded.
"""
from jcheck import *
from p_ints import Spec, INTS
import models


def obj_id(v):
    """identity of the storage of an Object"""
    out = []

    def walk(x):
        if isinstance(x, VecV):
            out.append(x.obj)
        elif isinstance(x, Agg):
            for f in x.fs:
                walk(f)
    walk(v)
    return out[0] if out else vkey(v)


class Table(Spec):
    """hooks for the contract of Object and for the opaque witness types"""

    hook_numeq = False

    def __init__(self, fn):
        Spec.__init__(self, fn)

    # -- helpers
    def tyname(self, eng, ty):
        while True:
            k = eng.prog.tys[ty]['k']
            if isinstance(k, str):
                return k
            if k[0] in ('ref', 'ptr'):
                ty = k[2]
                continue
            if k[0] == 'adt':
                return k[2]
            return eng.prog.tys[ty]['s']

    def target(self, eng, st, p):
        while True:
            v = eng.read(st, p.obj, p.path)
            if isinstance(v, Ptr):
                p = v
                continue
            if isinstance(v, Opq):
                v = eng.expand(st, v, 0)
            return v

    def log(self, st, *e):
        st.ghost['log'] = st.ghost.get('log', ()) + (tuple(e),)

    def present(self, eng, st, oid, kk):
        m = dict(st.ghost.get('pres', ()))
        r = m.get((oid, kk))
        if r is None:
            if isinstance(oid, int) or ('*', oid) in m:
                return False

            def put(s, val):
                s.ghost['pres'] = tuple(s.ghost.get('pres', ())) + (((oid, kk), val),)
            raise Fork([('f', lambda s: put(s, True)), ('f', lambda s: put(s, False))])
        return r

    def setpres(self, st, oid, kk, val):
        m = dict(st.ghost.get('pres', ()))
        m[(oid, kk)] = val
        st.ghost['pres'] = tuple(m.items())

    def entry(self, eng, oid, kk):
        key = ('oent', oid, kk)
        o = ('sym', key)
        if o not in eng.symty:
            eng.symty[o] = ('val', eng.prog.find_ty(VAL), key)
        return Ptr(o, ())

    def keyof(self, eng, st, p):
        q = models.content_of(eng, st, p)
        if q is None:
            raise Unsupported('key')
        return vkey(q)

    def symcond(self, tag, a, b):
        if a == b:
            return True
        if repr(a) > repr(b):
            a, b = b, a
        return c_eq(sub(var(atom((tag, a, b), 0, 1)), 1))

    def call(self, eng, st, f, vals, t):
        p = models.norm(f['path'])
        if f['crate'] == 'json':
            if p.startswith('json::object::Object::'):
                h = getattr(self, 'o_' + p.rsplit('::', 1)[1], None)
                if h is not None:
                    return self.ret(eng, st, t, h(eng, st, vals, t))
            if p == '{json::object::Object as core::cmp::PartialEq}::eq':
                if [self.tyname(eng, x) for x in t[5]] == [OBJ, OBJ]:
                    a, b = (obj_id(self.target(eng, st, x)) for x in vals)
                    return self.ret(eng, st, t, self.symcond('objeq', a, b))
            if p == '{json::object::Object as core::clone::Clone}::clone':
                return self.ret(eng, st, t, self.target(eng, st, vals[0]))
            if p in ('{json::object::Object as core::ops::index::Index}::index', '{json::object::Object as core::ops::index::IndexMut}::index_mut'):
                return self.ret(eng, st, t, self.o_index(eng, st, vals, t, p.endswith('mut')))
            if p.endswith('core::cmp::PartialEq}::eq') and self.hook_numeq:
                if [self.tyname(eng, x) for x in t[5]] == [NUM, NUM]:
                    a, b = (vkey(self.target(eng, st, x)) for x in vals)
                    return self.ret(eng, st, t, self.symcond('numeq', a, b))
            if p in ('{f64 as core::convert::From}::from', '{f32 as core::convert::From}::from') and \
                    self.tyname(eng, t[5][0]) == NUM:
                return self.ret(eng, st, t, self.tofloat(eng, t[6], vals[0]))
            if p.endswith('core::convert::From for f64}::from') or p.endswith('core::convert::From for f32}::from'):
                if self.tyname(eng, t[5][0]) == NUM:
                    return self.ret(eng, st, t, self.tofloat(eng, t[6], vals[0]))
            if p == '{json::number::Number as core::convert::From}::from':
                k = eng.prog.tys[t[5][0]]['k']
                if not isinstance(k, str) and k[0] == 'float':
                    return self.ret(eng, st, t, self.fromfloat(eng, t[6], vals[0]))
        return None

    def tofloat(self, eng, ty, n):
        return Opq(ty, ('tofloat', vkey(n)))

    def fromfloat(self, eng, ty, x):
        return eng.mkopq(ty, ('fromfloat', vkey(x)))

    def ret(self, eng, st, t, v):
        return eng.ret_val(st, t, v)

    # -- contract of Object
    def o_get(self, eng, st, vals, t):
        oid = obj_id(self.target(eng, st, vals[0]))
        kk = self.keyof(eng, st, vals[1])
        if self.present(eng, st, oid, kk):
            return models.some(eng, t[6], self.entry(eng, oid, kk))
        return models.none(eng, t[6])

    o_get_mut = o_get

    def o_insert(self, eng, st, vals, t):
        oid = obj_id(self.target(eng, st, vals[0]))
        kk = self.keyof(eng, st, vals[1])
        self.log(st, 'insert', oid, kk, vals[2])
        self.setpres(st, oid, kk, True)
        e = self.entry(eng, oid, kk)
        st.mem[e.obj] = vals[2]
        return UNIT

    def o_remove(self, eng, st, vals, t):
        oid = obj_id(self.target(eng, st, vals[0]))
        kk = self.keyof(eng, st, vals[1])
        self.log(st, 'remove', oid, kk)
        if self.present(eng, st, oid, kk):
            self.setpres(st, oid, kk, False)
            return models.some(eng, t[6], eng.getobj(st, self.entry(eng, oid, kk).obj))
        return models.none(eng, t[6])

    def o_len(self, eng, st, vals, t):
        oid = obj_id(self.target(eng, st, vals[0]))
        return self.olen(oid)

    def olen(self, oid):
        return var(atom(('olen', oid), 0, MAXCAP))

    def o_is_empty(self, eng, st, vals, t):
        return c_eq(self.o_len(eng, st, vals, t))

    def o_clear(self, eng, st, vals, t):
        oid = obj_id(self.target(eng, st, vals[0]))
        self.log(st, 'clear', oid)
        return UNIT

    def o_iter(self, eng, st, vals, t):
        oid = obj_id(self.target(eng, st, vals[0]))
        return Opq(t[6], ('oiter', oid))

    o_iter_mut = o_iter

    def o_index(self, eng, st, vals, t, mut):
        oid = obj_id(self.target(eng, st, vals[0]))
        q = models.content_of(eng, st, vals[1]) if isinstance(vals[1], Ptr) else self.text(vals[1], eng, st)
        kk = vkey(q)
        if self.present(eng, st, oid, kk):
            return self.entry(eng, oid, kk)
        vt = eng.prog.find_ty(VAL)
        if not mut:
            o = eng.alloc(st, Agg(vt, 0, ()))
            return Ptr(o, ())
        self.log(st, 'insert', oid, kk, Agg(vt, 0, ()))
        self.setpres(st, oid, kk, True)
        e = self.entry(eng, oid, kk)
        st.mem[e.obj] = Agg(vt, 0, ())
        return e

    def text(self, v, eng, st):
        return S(eng, st).text(v)

    def vec_clone(self, eng, st, v, q, t):
        return models.new_vec(eng, st, q)

    # -- witness functions
    def on_unknown(self, eng, st, path, vals, t):
        return path.startswith('harness::opaque_') and self.witness(eng, st, path[16:], vals, t)

    def witness(self, eng, st, name, vals, t):
        return False


# ------------------------------------------------------------------ comparing states
class TS(S):
    """specification helper with access to the initial values"""

    def arg_ty(self, i):
        return self.eng.prog.root(self.eng.check.root)['locals'][i + 1]

    def orig(self, i, depth=1):
        """initial value behind argument i (a reference)"""
        ty = self.arg_ty(i)
        key = ('arg', i)
        while True:
            k = self.eng.prog.tys[ty]['k']
            if isinstance(k, str) or k[0] not in ('ref', 'ptr'):
                return self.eng.mkopq(ty, key)
            ty = k[2]
            key = key + ('*',)

    def now(self, i):
        p = self.eng.check.args[i]
        while True:
            v = self.deref(p)
            if isinstance(v, Ptr):
                p = v
                continue
            return v

    def at(self, p):
        """follow references"""
        while isinstance(p, Ptr) and p.meta is None:
            p = self.deref(p)
        return p

    def content(self, v, orig=False):
        if orig:
            d = self.eng.symty[v.obj]
            return SeqV((('S', self.eng.origin(d[2], d[1]), 0, d[3]),))
        return models.vec_seq(self.eng, self.st, v)

    def same(self, a, b, aorig=False, borig=False):
        """structural equality of two abstract values (True / False / None)"""
        eng, st = self.eng, self.st
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.key == b.key:
                return True
        if isinstance(a, Opq) and eng.is_adt(a.ty):
            if isinstance(b, Agg) or a.key in st.known or eng.adt(a.ty)['kind'] == 'struct':
                a = eng.expand(st, a)
            else:
                return None
        if isinstance(b, Opq) and eng.is_adt(b.ty):
            b = eng.expand(st, b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if eng.adt_name(a.ty) == OBJ if isinstance(a.ty, int) else False:
                return obj_id(a) == obj_id(b)
            if a.var != b.var or len(a.fs) != len(b.fs):
                return False
            r = True
            for x, y in zip(a.fs, b.fs):
                e = self.same(x, y, aorig, borig)
                if e is False:
                    return False
                if e is None:
                    r = None
            return r
        if isinstance(a, VecV) and isinstance(b, VecV):
            return eng.seq_eq(st, self.content(a, aorig and not isinstance(a.obj, int)), self.content(b, borig and not isinstance(b.obj, int)))
        if is_cond(a) and is_cond(b):
            if vkey(a) == vkey(b):
                return True
            return self.H(a) == self.H(b)
        return eng.val_eq(st, a, b)

    def need_same(self, a, b, msg, aorig=False, borig=True):
        self.eng.stats['obligations'] += 1
        r = self.same(a, b, aorig, borig)
        if r is True:
            self.eng.stats['discharged'] += 1
            return
        self.fail(msg)

    def unchanged(self, i, msg):
        self.need_same(self.now(i), self.orig(i), msg)
        self.logged((), msg)

    def logged(self, want, msg):
        got = self.st.ghost.get('log', ())
        ok = len(got) == len(want) and all(
            len(g) == len(w) and g[:3] == w[:3] and (len(g) < 4 or self.same(g[3], w[3]) is True) for g, w in zip(got, want))
        self.require(ok, msg)

    def null(self, v, msg):
        self.require(self.variant(v) == 'Null', msg)

    def is_text(self, v):
        return self.variant(v) in ('Short', 'String')

    def mk(self, name, *fs):
        ty = self.eng.prog.find_ty(VAL)
        for i, x in enumerate(self.eng.adt(ty)['variants']):
            if x['name'] == name:
                return Agg(ty, i, fs)

    def strk(self, i):
        """content key of a string-like argument"""
        v = self.eng.check.args[i]
        if isinstance(v, Ptr):
            return vkey(models.content_of(self.eng, self.st, v))
        return vkey(self.text(v))

    def oid(self, v):
        return obj_id(self.fields(v)[0])

    def some(self, r):
        return self.variant(r) == 'Some'

    def err(self, r, name, msg):
        if self.variant(r) != 'Err':
            self.fail(msg + ': no error is returned')
        self.require(self.variant(self.fields(r)[0]) == name, msg + ': wrong error')

    def cond_text_eq(self, a, b):
        return self.H(models.seq_equal(self.eng, self.st, a, b))


def T_(fn):
    """specification function over TS"""
    return lambda s, a, v: fn(TS(s.eng, s.st), a, v)


# ------------------------------------------------------------------ equality
def specs_eq():
    out = {}

    def value_eq(s, a, v):
        x, y = s.at(a[0]), s.at(a[1])
        nx, ny = s.variant(x), s.variant(y)
        tx, ty = nx in ('Short', 'String'), ny in ('Short', 'String')
        msg = 'equality of two values'
        if tx and ty:
            want = s.cond_text_eq(s.text(x), s.text(y))
        elif nx != ny:
            want = False
        elif nx == 'Null':
            want = True
        elif nx == 'Boolean':
            want = s.H(s.fields(x)[0]) == s.H(s.fields(y)[0])
        elif nx == 'Number':
            want = s.eng.check.symcond('numeq', vkey(s.agg(s.fields(x)[0])), vkey(s.agg(s.fields(y)[0])))
        elif nx == 'Object':
            want = s.eng.check.symcond('objeq', s.oid(x), s.oid(y))
        else:
            want = models.seq_equal(s.eng, s.st, s.content(s.fields(x)[0]), s.content(s.fields(y)[0]))
        s.same_bool(v, want, msg + ' differs from equality of what they hold')
    out['value_eq'] = value_eq

    def with_text(i, j):
        def f(s, a, v):
            x = s.at(a[i])
            t = models.content_of(s.eng, s.st, a[j])
            s.same_bool(v, s.is_text(x) and s.cond_text_eq(s.text(x), t), 'comparison with a string differs from equality of the texts')
        return f
    for n, i, j in (('v_eq_str', 0, 1), ('str_eq_v', 1, 0), ('v_eq_rstr', 0, 1), ('rstr_eq_v', 1, 0),
                    ('v_eq_string', 0, 1), ('string_eq_v', 1, 0), ('vr_eq_string', 0, 1)):
        out[n] = with_text(i, j)

    def short_eq(s, a, v):
        t, u = s.at(a[0]), s.at(a[1])
        t, u = (s.text(x) for x in (t, u))
        s.same_bool(v, s.cond_text_eq(t, u), 'comparison of a short string differs from equality of the texts')
    for n in ('short_eq', 'short_eq_str', 'str_eq_short', 'short_eq_string', 'string_eq_short'):
        out[n] = short_eq

    def with_kind(kind, i, j, cond):
        def f(s, a, v):
            x = s.at(a[i])
            y = s.at(a[j])
            s.same_bool(v, s.variant(x) == kind and cond(s, s.fields(x)[0], y), 'comparison with a %s differs from equality of what is held' % kind)
        return f
    beq = lambda s, p, q: s.H(p) == s.H(q)
    neq = lambda s, p, q: s.eng.check.symcond('numeq', vkey(s.agg(p)), vkey(s.agg(q)))
    oeq = lambda s, p, q: s.eng.check.symcond('objeq', obj_id(p), obj_id(q))
    for n, i, j in (('v_eq_bool', 0, 1), ('bool_eq_v', 1, 0), ('vr_eq_bool', 0, 1)):
        out[n] = with_kind('Boolean', i, j, beq)
    for n, i, j in (('v_eq_number', 0, 1), ('number_eq_v', 1, 0), ('vr_eq_number', 0, 1)):
        out[n] = with_kind('Number', i, j, neq)
    for n, i, j in (('v_eq_object', 0, 1), ('object_eq_v', 1, 0), ('vr_eq_object', 0, 1)):
        out[n] = with_kind('Object', i, j, oeq)

    def feq(s, n, x):
        f = s.eng.check.tofloat(s.eng, x.ty, s.agg(n))
        return s.eng.floatop(s.st, 'Eq', f, x, x.ty)
    for t in ('f64', 'f32'):
        for n, i, j in (('v_eq_' + t, 0, 1), (t + '_eq_v', 1, 0)):
            out[n] = with_kind('Number', i, j, feq)
        for n, i, j in (('number_eq_' + t, 0, 1), (t + '_eq_number', 1, 0)):
            out[n] = lambda s, a, v, i=i, j=j: s.same_bool(v, feq(s, s.at(a[i]), s.at(a[j])), 'comparison of a Number with a float')
    return {k: T_(f) for k, f in out.items()}


# ------------------------------------------------------------------ accessors
def empty_iter(s, v):
    """is this (wrapped) slice iterator empty?"""
    found = []

    def walk(x):
        if isinstance(x, Agg):
            nm = s.eng.adt_name(x.ty) if isinstance(x.ty, int) else None
            if nm in ('core::slice::iter::Iter', 'core::slice::iter::IterMut'):
                ps = [s.eng.to_ptr(s.st, f) for f in x.fs if not (isinstance(f, Agg) and not f.fs)]
                found.append(ps)
                return
            for f in x.fs:
                walk(f)
    walk(v)
    if len(found) != 1:
        raise Unsupported('iterator representation')
    return found[0]


def specs_access():
    out = {}
    kinds = {'is_string': ('Short', 'String'), 'is_number': ('Number',), 'is_boolean': ('Boolean',),
             'is_null': ('Null',), 'is_object': ('Object',), 'is_array': ('Array',)}
    for n, ks in kinds.items():
        out[n] = lambda s, a, v, n=n, ks=ks: s.same_bool(v, s.variant(s.at(a[0])) in ks, n + ' is wrong')

    def is_empty(s, a, v):
        x = s.at(a[0])
        k = s.variant(x)
        if k == 'Null':
            want = True
        elif s.is_text(x):
            want = c_eq(seqlen(s.text(x)))
        elif k == 'Number':
            n = s.number(s.fields(x)[0])
            want = c_or(c_eq(n[1]), s.num_nan(n))
        elif k == 'Boolean':
            want = c_not(s.fields(x)[0])
        elif k == 'Array':
            want = c_eq(s.fields(x)[0].len)
        else:
            want = c_eq(s.eng.check.olen(s.oid(x)))
        s.same_bool(v, want, 'is_empty is wrong')
    out['is_empty'] = is_empty

    def as_str(s, a, v):
        x = s.at(a[0])
        if s.is_text(x):
            if not s.some(v):
                s.fail('as_str: nothing for a string')
            s.seq_same(s.text(s.fields(v)[0]), s.text(x), 'as_str: text differs')
        else:
            s.require(not s.some(v), 'as_str: a value that is not a string has a text')
    out['as_str'] = as_str

    def as_kind(kind, n):
        def f(s, a, v):
            x = s.at(a[0])
            if s.variant(x) == kind:
                if not s.some(v):
                    s.fail(n + ': nothing for a ' + kind)
                s.need_same(s.fields(v)[0], s.fields(x)[0], n + ': differs')
            else:
                s.require(not s.some(v), n + ': something for another kind of value')
        return f
    out['as_number'] = as_kind('Number', 'as_number')
    out['as_bool'] = as_kind('Boolean', 'as_bool')

    for t in ('f64', 'f32'):
        def as_f(s, a, v, t=t):
            x = s.at(a[0])
            if s.variant(x) == 'Number':
                if not s.some(v):
                    s.fail('as_%s: nothing for a number' % t)
                fv = s.fields(v)[0]
                s.require(vkey(fv) == vkey(s.eng.check.tofloat(s.eng, s.eng.prog.find_ty(t), s.agg(s.fields(x)[0]))), 'as_%s: not the conversion of the number' % t)
            else:
                s.require(not s.some(v), 'as_%s: something for another kind of value' % t)
        out['as_' + t] = as_f

    def length(s, a, v):
        x = s.at(a[0])
        k = s.variant(x)
        want = s.fields(x)[0].len if k == 'Array' else s.eng.check.olen(s.oid(x)) if k == 'Object' else 0
        s.require(c_eq(sub(v, want)), 'len is wrong')
    out['len'] = length

    def members(s, a, v):
        x = s.at(a[0])
        p, q = empty_iter(s, v)
        n = models.offset_from(s.eng, s.st, None, [q, p], None)
        if s.variant(x) == 'Array':
            vec = s.fields(x)[0]
            s.require(c_eq(sub(n, vec.len)), 'members: wrong number of elements')
            s.require(p.obj == vec.obj and not (p.path and s.st.facts.const(p.path[-1][1]) != 0), 'members: not the elements of the array')
        else:
            s.require(c_eq(n), 'members: a value that is not an array has members')
    out['members'] = out['members_mut'] = members

    def entries(s, a, v):
        x = s.at(a[0])
        if s.variant(x) == 'Object':
            s.require(isinstance(v, Opq) and v.key == ('oiter', s.oid(x)), 'entries: not the entries of the object')
        else:
            if isinstance(v, Opq) and v.key[0] == 'oiter':
                s.fail('entries: a value that is not an object has entries')
            p, q = empty_iter(s, v)
            s.require(c_eq(models.offset_from(s.eng, s.st, None, [q, p], None)), 'entries: a value that is not an object has entries')
    out['entries'] = out['entries_mut'] = entries

    def has_key(s, a, v):
        x = s.at(a[0])
        want = s.variant(x) == 'Object' and s.eng.check.present(s.eng, s.st, s.oid(x), s.strk(1))
        s.same_bool(v, want, 'has_key is wrong')
    out['has_key'] = has_key

    def index_usize(s, a, v):
        x = s.orig(0)
        if s.variant(x) == 'Array' and s.H(c_ge(sub(sub(s.fields(x)[0].len, a[1]), 1))):
            vec = s.fields(x)[0]
            s.require(v.obj == vec.obj and len(v.path) == 1 and s.st.facts.decide(c_eq(sub(v.path[0][1], a[1]))) is True,
                      'index: not the element at the index')
        else:
            s.null(s.deref(v), 'index: something else than null is found')
    out['index_usize'] = index_usize

    def index_str(s, a, v):
        x = s.at(a[0])
        if s.variant(x) == 'Object' and s.eng.check.present(s.eng, s.st, s.oid(x), s.strk(1)):
            e = s.eng.check.entry(s.eng, s.oid(x), s.strk(1))
            s.require(v.obj == e.obj and not v.path, 'index: not the entry of the key')
        else:
            s.null(s.deref(v), 'index: something else than null is found')
    out['index_str'] = out['index_string'] = out['index_rstring'] = index_str
    return {k: T_(f) for k, f in out.items()}


# ------------------------------------------------------------------ mutators
def specs_mutate():
    out = {}

    def take(s, a, v):
        s.need_same(v, s.orig(0), 'take: not the previous value')
        s.null(s.now(0), 'take: something else than null is left')
        s.logged((), 'take changes an object')
    out['take'] = take

    def take_string(s, a, v):
        x = s.orig(0)
        if s.is_text(x):
            if not s.some(v):
                s.fail('take_string: nothing for a string')
            s.seq_same(s.text(s.fields(v)[0]), s.text(x), 'take_string: text differs')
            s.null(s.now(0), 'take_string: something else than null is left')
        else:
            s.require(not s.some(v), 'take_string: a text for a value that is not a string')
            s.unchanged(0, 'take_string: a value that is not a string is changed')
    out['take_string'] = take_string

    def orig_content(s, x):
        return s.content(s.fields(x)[0], True)

    def is_array_of(s, segs, msg):
        y = s.now(0)
        if s.variant(y) != 'Array':
            s.fail(msg + ': not an array any more')
        vec = s.fields(y)[0]
        q = mkseq(segs)
        s.seq_same(s.content(vec), q, msg)
        s.require(c_eq(sub(vec.len, seqlen(q))), msg)

    def push(s, a, v):
        x = s.orig(0)
        if s.variant(x) == 'Array':
            s.require(s.variant(v) == 'Ok', 'push: an array refuses an element')
            is_array_of(s, orig_content(s, x).segs + (('e', a[1]),), 'push: the elements are not the previous ones followed by the new one')
        else:
            s.err(v, 'WrongType', 'push')
            s.unchanged(0, 'push: a value that is not an array is changed')
    out['push'] = push

    def pop(s, a, v):
        x = s.orig(0)
        if s.variant(x) == 'Array':
            q = orig_content(s, x)
            n = seqlen(q)
            if s.H(c_eq(n)):
                s.null(v, 'pop: something comes out of an empty array')
                is_array_of(s, (), 'pop: an empty array is changed')
            else:
                s.need_same(v, s.eng.seq_get(s.st, q, sub(n, 1)), 'pop: not the last element')
                is_array_of(s, s.eng.seq_slice(s.st, q, 0, sub(n, 1)).segs, 'pop: the remaining elements are not the previous ones without the last')
        else:
            s.null(v, 'pop: something comes out of a value that is not an array')
            s.unchanged(0, 'pop: a value that is not an array is changed')
    out['pop'] = pop

    def array_remove(s, a, v):
        x = s.orig(0)
        if s.variant(x) == 'Array':
            q = orig_content(s, x)
            n = seqlen(q)
            if s.H(c_ge(sub(sub(n, a[1]), 1))):
                s.need_same(v, s.eng.seq_get(s.st, q, a[1]), 'array_remove: not the element at the index')
                is_array_of(s, s.eng.seq_slice(s.st, q, 0, a[1]).segs + s.eng.seq_slice(s.st, q, add(a[1], 1), n).segs,
                            'array_remove: the remaining elements are not the other ones in order')
                return
        s.null(v, 'array_remove: something is removed')
        s.unchanged(0, 'array_remove: the value is changed')
    out['array_remove'] = array_remove

    def insert(s, a, v):
        x = s.orig(0)
        if s.variant(x) == 'Object':
            s.require(s.variant(v) == 'Ok', 'insert: an object refuses an entry')
            s.need_same(s.now(0), x, 'insert: the object is replaced')
            s.logged((('insert', s.oid(x), s.strk(1), a[2]),), 'insert: not exactly one insertion of the key and value')
        else:
            s.err(v, 'WrongType', 'insert')
            s.unchanged(0, 'insert: a value that is not an object is changed')
    out['insert'] = insert

    def remove(s, a, v):
        x = s.orig(0)
        if s.variant(x) == 'Object':
            c = s.eng.check
            s.need_same(s.now(0), x, 'remove: the object is replaced')
            s.logged((('remove', s.oid(x), s.strk(1)),), 'remove: not exactly one removal of the key')
            was = any(g[0] == (s.oid(x), s.strk(1)) for g in s.st.ghost.get('pres', ()))
            e = s.st.mem.get(c.entry(s.eng, s.oid(x), s.strk(1)).obj)
            if e is not None:
                s.need_same(v, e, 'remove: not the removed value')
            else:
                s.null(v, 'remove: something else than null for an absent key')
        else:
            s.null(v, 'remove: something is removed')
            s.unchanged(0, 'remove: a value that is not an object is changed')
    out['remove'] = remove

    def clear(s, a, v):
        x = s.orig(0)
        y = s.now(0)
        k = s.variant(x)
        if s.is_text(x):
            if not s.is_text(y):
                s.fail('clear: a string does not stay a string')
            s.require(c_eq(seqlen(s.text(y))), 'clear: a string is not empty')
        elif k == 'Object':
            s.require(s.variant(y) == 'Object', 'clear: an object does not stay an object')
            s.logged((('clear', s.oid(x)),), 'clear: the object is not cleared')
        elif k == 'Array':
            s.require(s.variant(y) == 'Array', 'clear: an array does not stay an array')
            s.require(c_eq(s.fields(y)[0].len), 'clear: an array is not empty')
        else:
            s.null(y, 'clear: something else than null is left')
    out['clear'] = clear

    def index_mut_usize(s, a, v):
        x = s.orig(0)
        y = s.now(0)
        if s.variant(y) != 'Array':
            s.fail('index_mut: not an array')
        vec = s.fields(y)[0]
        nul = s.mk('Null')
        s.require(v.obj == vec.obj and len(v.path) == 1, 'index_mut: the reference is not into the array')
        at = v.path[0][1]
        if s.variant(x) == 'Array':
            q = orig_content(s, x)
            n = seqlen(q)
            if s.H(c_ge(sub(sub(n, a[1]), 1))):
                s.seq_same(s.content(vec), q, 'index_mut: the array is changed')
                s.require(c_eq(sub(at, a[1])), 'index_mut: not the element at the index')
            else:
                is_array_of(s, q.segs + (('e', nul),), 'index_mut: not exactly one null is appended')
                s.require(c_eq(sub(at, n)), 'index_mut: not the appended element')
        else:
            c = s.content(vec)
            s.require(all(g[0] == 'e' and s.variant(g[1]) == 'Null' for g in c.segs) and len(c.segs) > 0, 'index_mut: not an array of nulls')
            s.require(c_eq(sub(at, len(c.segs) - 1)), 'index_mut: not the appended element')
    out['index_mut_usize'] = index_mut_usize

    def index_mut_str(s, a, v):
        x = s.orig(0)
        y = s.now(0)
        c = s.eng.check
        if s.variant(y) != 'Object':
            s.fail('index_mut: not an object')
        k = s.strk(1)
        oid = s.oid(y)
        e = c.entry(s.eng, oid, k)
        s.require(v.obj == e.obj and not v.path, 'index_mut: the reference is not the entry of the key')
        log = s.st.ghost.get('log', ())
        if s.variant(x) == 'Object':
            s.require(oid == s.oid(x), 'index_mut: the object is replaced')
            if not log:
                s.require(e.obj not in s.st.mem, 'index_mut: the entry of a present key is changed')
                return
        s.logged((('insert', oid, k, s.mk('Null')),), 'index_mut: not exactly one insertion of null')
    out['index_mut_str'] = out['index_mut_string'] = out['index_mut_rstring'] = index_mut_str

    def new_object(s, a, v):
        s.require(s.variant(v) == 'Object', 'new_object: not an object')
        s.require(isinstance(s.oid(v), int) and seqlen(s.eng.getobj(s.st, s.oid(v))) == 0, 'new_object: not empty')
    out['new_object'] = new_object

    def new_array(s, a, v):
        s.require(s.variant(v) == 'Array', 'new_array: not an array')
        s.require(c_eq(s.fields(v)[0].len), 'new_array: not empty')
    out['new_array'] = new_array

    out['value_clone'] = lambda s, a, v: s.need_same(v, s.orig(0), 'clone: differs from the value')

    def from_text(s, a, v):
        if not s.is_text(v):
            s.fail('from a string: not a string')
        q = models.content_of(s.eng, s.st, a[0]) if isinstance(a[0], Ptr) else s.text(a[0])
        s.seq_same(s.text(v), q, 'from a string: text differs')
    out['v_from_str'] = out['v_from_string'] = from_text

    def from_kind(kind):
        def f(s, a, v):
            s.require(s.variant(v) == kind, 'from: not a ' + kind)
            s.need_same(s.fields(v)[0], a[0], 'from: differs')
        return f
    out['v_from_bool'] = from_kind('Boolean')
    out['v_from_number'] = from_kind('Number')
    out['v_from_object'] = from_kind('Object')
    return {k: T_(f) for k, f in out.items()}


class Contains(Table):
    """the elements compared so far form an interval [lo, hi); hit: one of them was equal"""
    merge = True

    def __init__(self):
        Table.__init__(self, T_(self.spec))

    def mergeable(self, eng, a, b):
        return a.known == b.known

    def ghost0(self):
        return {'lo': 0, 'hi': 0, 'first': 'y', 'hit': 0}

    def call(self, eng, st, f, vals, t):
        if f['path'] == 'harness::opaque_eq':
            p = vals[1]
            g = st.ghost
            x = eng.expand(st, eng.mkopq(eng.prog.find_ty(VAL), ('arg', 0, '*')))
            vec = x.fs[0] if x.fs else None
            if not isinstance(vec, VecV) or p.obj != vec.obj or len(p.path) != 1:
                raise Unsupported('comparison with something else than an element')
            i = p.path[0][1]
            if g['first'] == 'y' and not eng.holds(st, c_eq(sub(i, g['hi']))):
                g['lo'], g['hi'], g['first'] = i, add(i, 1), 'n'
            elif eng.holds(st, c_eq(sub(i, g['hi']))):
                g['hi'] = add(g['hi'], 1)
            elif eng.holds(st, c_eq(sub(add(i, 1), g['lo']))):
                g['lo'] = i
            else:
                raise Unsupported('order of comparisons')
            c = c_eq(sub(var(atom(('weq', next(eng.ids)), 0, 1)), 1))
            def hit(s):
                s.facts = s.facts.assume(c)[0]
                s.ghost['hit'] = 1
            def miss(s):
                s.facts = s.facts.assume(c_not(c))[0]
            a, b = st.copy(), st
            hit(a)
            miss(b)
            return eng.ret_val(a, t, True) + eng.ret_val(b, t, False)
        return Table.call(self, eng, st, f, vals, t)

    def spec(self, s, a, v):
        x = s.at(a[0])
        g = s.st.ghost
        if s.variant(x) != 'Array':
            s.require(c_not(v), 'contains: a value that is not an array contains something')
            return
        hit = s.H(c_eq(sub(g['hit'], 1)))
        if s.H(v):
            s.require(hit, 'contains: true although no element was equal')
            return
        s.require(not hit, 'contains: false although an element was equal')
        n = s.fields(x)[0].len
        if s.H(c_eq(n)):
            return
        s.require(c_and(c_eq(g['lo']), c_eq(sub(g['hi'], n))), 'contains: false before all elements were compared')
