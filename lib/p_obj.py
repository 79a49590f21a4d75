"""Objects: every operation takes the steps of one search and changes exactly what it names.

The nodes of an object are unknown: node i has a key of any length, its hash, a
value and two links, each 0 or the index of another node.  The search for a key
visits nodes one after another; at every node the analysis distinguishes whether
the key is the one that is looked for, whether the hash is smaller, larger, or
equal although the keys differ, and records which link the code follows in each
case.  All operations have to agree on that table (`tree`): then an insertion hangs
the new node exactly where every later search for that key arrives.
"""
from jcheck import *
from vals import cons
import models
import run

NODE = 'json::object::Node'
KEY = 'json::object::Key'
LINKS = ('left', 'right')


@cons('nlink')
def link_at(name, origin, idx):
    return var(atom(('nlink', name, origin, idx), 0, MAXCAP))


@cons('nhash')
def hash_at(origin, idx):
    return var(atom(('nhash', origin, idx), 0, (1 << 64) - 1))


@cons('nklen')
def klen_at(origin, idx):
    return var(atom(('nklen', origin, idx), 0, MAXCAP))


def fields(prog, ty):
    return [n for n, _ in prog.tys[ty]['k'][5][0]['fields']]


class Obj(JsonCheck):
    merge = True
    keep_terms = True
    kinds = ('spec', 'search', 'keys')
    budget = 60000

    def __init__(self, spec, fn=None):
        JsonCheck.__init__(self)
        self.spec = spec
        self.fn = fn
        self.finished = 0
        self.tree = {}           # relation -> set of links followed

    def function(self, prog, name):
        return self.fn or JsonCheck.function(self, prog, name)

    def ghost0(self):
        return {'c': 0, 'rel': '-', 'last': '-'}

    def prepare(self, eng, st):
        st.ghost['args'] = tuple(a for i, a in enumerate(self.args) if i != 1)

    def mergeable(self, eng, a, b):
        self.mark(eng, a)
        self.mark(eng, b)
        return all(a.ghost.get(k) == b.ghost.get(k) for k in ('rel', 'last', 'phase', 'at', 'sh'))

    def mark(self, eng, st):
        """states that stand at different nodes, or differ in what they stored, stay apart"""
        g = st.ghost
        g['at'] = None if g['rel'] == '-' else repr(vkey(g['c']))
        g['sh'] = None if g.get('phase') is None else repr(self.shape(eng, st))

    def shape(self, eng, st):
        v = self.vec(st.mem.get(('sym', ('arg', 0))))
        return vkey(st.mem.get(v.obj)) if isinstance(v, VecV) else None

    def vec(self, v):
        while isinstance(v, Agg) and v.fs:
            v = v.fs[0]
        return v

    # -- inputs
    def opaque(self, eng, ty, t, key):
        if t['k'][2] in (KEY, NODE):
            raise Unsupported('a node outside of an object')
        return JsonCheck.opaque(self, eng, ty, t, key)

    def node_origin(self, eng, origin):
        ety = eng.symty.get(('orig', origin))
        return ety is not None and eng.is_adt(ety) and eng.adt_name(ety) == NODE

    def known_elem(self, eng, st, origin, idx):
        if not self.node_origin(eng, origin):
            return None
        if 'c' in st.ghost and st.ghost['rel'] == 'found' and self.eq(st, idx, st.ghost['c']):
            idx = st.ghost['c']
        ety = eng.symty[('orig', origin)]
        n = eng.symty[('sym', origin)][3]
        fs = []
        for nm, fty in eng.prog.tys[ety]['k'][5][0]['fields']:
            if nm in LINKS:
                a = link_at(nm, origin, idx)
                st.facts = st.facts.assume(c_ge(sub(n, add(a, 1))))[0]
                fs.append(a)
            elif eng.adt_name(fty) == KEY:
                fs.append(self.key(eng, origin, idx, fty))
            else:
                fs.append(eng.mkopq(fty, ('nval', origin, idx)))
        return Agg(ety, 0, tuple(fs))

    def key(self, eng, origin, idx, ty):
        fs = []
        n = klen_at(origin, idx)
        for nm, fty in eng.prog.tys[ty]['k'][5][0]['fields']:
            fk = eng.prog.tys[fty]['k']
            if nm == 'hash':
                fs.append(hash_at(origin, idx))
            elif nm == 'len':
                fs.append(n)
            elif fk[0] == 'ptr':
                o = ('sym', ('kbytes', origin, idx))
                eng.symty[o] = ('seq', fk[2], ('kbytes', origin, idx), n)
                fs.append(Ptr(o, (('el', 0),)))
            elif fk[0] == 'array':
                fs.append(SeqV((('S', eng.origin(('kbuf', origin, idx), fk[1]), 0, fk[2]),)))
            else:
                raise Unsupported('layout of Key')
        return Agg(ty, 0, tuple(fs))

    def kcontent(self, eng, origin, idx):
        return SeqV((('S', eng.origin(('kbytes', origin, idx), eng.u8()), 0, klen_at(origin, idx)),))

    def wanted(self, eng, st):
        return models.content_of(eng, st, self.args[1])

    # -- the hash of a key is some function of its bytes
    def call(self, eng, st, f, vals, t):
        if f['path'].startswith('json::object::') and f['argc'] == 1 and isinstance(vals[0], Ptr) and vals[0].meta is not None:
            rk = eng.prog.tys[t[6]]['k']
            if rk[0] in ('int', 'uint'):
                q = models.content_of(eng, st, vals[0])
                h = var(atom(('H', f['path'], vkey(q)), 0, (1 << 64) - 1))
                if eng.seq_eq(st, q, self.wanted(eng, st)) is True:
                    st.ghost['H'] = h
                return eng.ret_val(st, t, h)
        return None

    # -- the search
    def step_of(self, eng, obj, path):
        """(origin, index, field names) of an access to a node of an object as it was at entry"""
        if not (isinstance(obj, tuple) and obj[0] == 'sym' and path and path[0][0] == 'el'):
            return None
        d = eng.symty.get(obj)
        if not d or d[0] != 'seq' or not eng.is_adt(d[1]) or eng.adt_name(d[1]) != NODE:
            return None
        names = []
        ty = d[1]
        for s in path[1:]:
            if s[0] != 'f' or not eng.is_adt(ty):
                names.append(s[0])
                break
            n, ty = eng.prog.tys[ty]['k'][5][0]['fields'][s[1]]
            names.append(n)
        return d[2], path[0][1], names

    def eq(self, st, a, b):
        return vkey(a) == vkey(b) or st.facts.decide(c_eq(sub(a, b))) is True

    def advance(self, eng, st, origin):
        g = st.ghost
        if g['rel'] in ('lt', 'gt', 'col') and g['last'] in LINKS:
            a = link_at(g['last'], origin, g['c'])
            if st.facts.decide(c_ge(sub(a, 1))) is True:
                self.tree.setdefault(g['rel'], set()).add(g['last'])
                g['c'], g['rel'], g['last'] = a, '-', '-'
                return True
        return False

    def origin0(self):
        return ('arg', 0, '*', 0)

    def at_head(self, eng, st):
        if st.ghost.get('phase') is None:
            self.advance(eng, st, self.origin0())
        self.mark(eng, st)

    def on_field(self, eng, st, obj, path):
        g = st.ghost
        if g.get('phase'):
            return
        x = self.step_of(eng, obj, path)
        if x is None or x[0] != self.origin0():
            return
        origin, i, names = x
        if names == ['key', 'hash']:
            self.visit(eng, st, origin, i)
        elif len(names) == 1 and names[0] in LINKS and g['rel'] in ('lt', 'gt', 'col') and self.eq(st, i, g['c']):
            g['last'] = names[0]

    def visit(self, eng, st, origin, i):
        g = st.ghost
        if g['rel'] != '-' and not self.eq(st, i, g['c']):
            self.advance(eng, st, origin)
        if not self.eq(st, i, g['c']):
            eng.problem(st, 'search', 'the search goes on with a node that is not the one the link leads to')
        if g['rel'] != '-':
            return
        h = g.get('H')
        if h is None:
            raise Unsupported('the hash of the key is not computed by a function of its bytes')
        hi = hash_at(origin, i)
        known = [('found', c_eq(sub(h, hi)))]
        if eng.holds(st, models.seq_equal(eng, st, self.wanted(eng, st), self.kcontent(eng, origin, i))):
            rel = 'found'
            if isinstance(g['c'], Lin):
                self.landmarks = tuple(sorted(set(self.landmarks) | {a for a, _ in g['c'].t}, key=lambda a: a.id))[-4:]
            st.facts = st.facts.assume(c_eq(sub(h, hi)))[0]
        elif eng.holds(st, c_eq(sub(h, hi))):
            rel = 'col'
        elif eng.holds(st, c_ge(sub(hi, h))):
            rel = 'lt'
        else:
            rel = 'gt'
        g['rel'] = rel
        g['last'] = '-'

    def text_relation(self, eng, st, a, b):
        g = st.ghost
        if g['rel'] == '-' or g.get('phase'):
            return None
        k, w = self.kcontent(eng, self.origin0(), g['c']), self.wanted(eng, st)
        for x, y in ((a, b), (b, a)):
            if eng.seq_eq(st, x, k) is True and eng.seq_eq(st, y, w) is True:
                return g['rel'] == 'found'
        return None

    def on_write(self, eng, st, obj, path, val):
        x = self.step_of(eng, obj, path)
        if x is None:
            return False
        origin, i, names = x
        st.ghost['phase'] = 'changed'
        if names == ['key', 'ptr'] and isinstance(val, Ptr) and val.obj == obj and val.path[:1] == path[:1]:
            old = eng.read(st, obj, path)
            if isinstance(old, Ptr) and isinstance(old.obj, tuple) and old.obj[:1] == ('sym',) and old.obj[1][0] == 'kbytes':
                # the pointer into the node's own buffer is stored again (it moved)
                buf = eng.read(st, val.obj, val.path[:-1])
                fits = c_ge(sub(seqlen(buf), klen_at(origin, old.obj[1][2])))
                if st.facts.decide(fits) is not True:
                    eng.problem(st, 'keys', 'the pointer to a key that is not stored inline is replaced by one to the inline buffer')
                return True
        return False

    # -- results
    def on_finish(self, eng, st, v):
        self.finished += 1
        self.spec(O(eng, st), v)


class O(S):
    """specification helper for one object"""

    def __init__(self, eng, st):
        S.__init__(self, eng, st)
        self.c = eng.check
        self.origin = self.c.origin0()
        self.obj = ('sym', self.origin)
        self.n = eng.symty[self.obj][3] if self.obj in eng.symty else None

    def outcome(self):
        """('found', i), ('missing', i, side) or ('empty',)"""
        g = self.st.ghost
        if g['rel'] == '-':
            if self.n is not None and self.st.facts.decide(c_eq(self.n)) is True:
                return ('empty',)
            self.fail('the search ends before the key was compared')
        if g['rel'] == 'found':
            return 'found', g['c']
        zero = [s for s in LINKS if self.st.facts.decide(c_eq(link_at(s, self.origin, g['c']))) is True]
        side = g['last'] if g['last'] in zero else zero[0] if len(zero) == 1 else None
        if side is None:
            self.fail('the search ends although there is a node left to look at')
        self.c.tree.setdefault(g['rel'], set()).add(side)
        return 'missing', g['c'], side

    def value_ptr(self, p, i):
        nty = self.eng.symty[self.obj][1]
        fi = [k for k, nm in enumerate(fields(self.eng.prog, nty)) if nm == 'value'][0]
        return isinstance(p, Ptr) and p.obj == self.obj and len(p.path) == 2 and p.path[0][0] == 'el' \
            and self.c.eq(self.st, p.path[0][1], i) and p.path[1][:2] == ('f', fi)

    def untouched(self, what):
        q = self.st.mem.get(self.obj)
        if q is not None:
            self.seq_same(q, SeqV((('S', self.origin, 0, self.n),)), what + ': the object changes')


def get(s, v):
    o = s.outcome()
    if o[0] != 'found':
        s.require(s.variant(v) == 'None', 'get: a value for a key that is not there')
    else:
        s.require(s.variant(v) == 'Some' and s.value_ptr(s.fields(v)[0], o[1]), 'get: not the value of the key')
    s.untouched('get')


def node_field(s, nd, *names):
    v = nd
    for n in names:
        v = s.named(v, n)
    return v


def key_bytes(s, nd):
    p, n = node_field(s, nd, 'key', 'ptr'), node_field(s, nd, 'key', 'len')
    return models.slice_seq(s.eng, s.st, Ptr(p.obj, p.path, n))


def same_value(s, a, b):
    return vkey(a) == vkey(b) or s.eng.val_eq(s.st, a, b) is True


def same_node(s, nd, origin, i, what, but=()):
    """the node is node i of the object at entry, except for the named fields"""
    old = s.c.known_elem(s.eng, s.st, origin, i)
    for nm in fields(s.eng.prog, nd.ty):
        if nm in but:
            continue
        a, b = s.named(nd, nm), s.named(old, nm)
        if nm == 'key':
            s.require(c_eq(sub(s.named(a, 'hash'), s.named(b, 'hash'))), what + ': the hash of a node changes')
            s.require(c_eq(sub(s.named(a, 'len'), s.named(b, 'len'))), what + ': the length of a key changes')
            s.require(s.eng.seq_eq(s.st, key_bytes(s, nd), s.c.kcontent(s.eng, origin, i)) is True, what + ': the key of a node changes')
        elif nm in LINKS:
            s.require(c_eq(sub(a, b)), what + ': a link changes')
        else:
            s.require(same_value(s, a, b), what + ': the value of another key changes')


def new_node(s, nd, key, value, what):
    h = s.st.ghost.get('H')
    if h is None:
        raise Unsupported('the hash of the key is not computed by a function of its bytes')
    s.require(c_eq(sub(node_field(s, nd, 'key', 'hash'), h)), what + ': the hash of the new node is not that of its key')
    s.require(s.eng.seq_eq(s.st, key_bytes(s, nd), key) is True, what + ': the new node does not hold the key')
    for side in LINKS:
        s.require(c_eq(s.named(nd, side)), what + ': the new node has a link')
    s.require(same_value(s, s.named(nd, 'value'), value), what + ': the new node does not hold the value')


def stored(s):
    """content of the object behind the first argument"""
    p = s.c.args[0]
    v = s.deref(p)
    while not isinstance(v, VecV):
        v = s.agg(v).fs[0]
    return models.vec_seq(s.eng, s.st, v)


def inserted(s, value, what):
    """the effect of an insertion; index of the node"""
    o = s.outcome()
    q = stored(s)
    key = s.c.wanted(s.eng, s.st)
    n = s.n
    get = lambda i: s.agg(s.eng.seq_get(s.st, q, i))
    if o[0] == 'empty':
        s.require(c_eq(sub(seqlen(q), 1)), what + ': not exactly one node')
        new_node(s, get(0), key, value, what)
        return 0
    c = o[1]
    s.require(c_eq(sub(seqlen(q), n if o[0] == 'found' else add(n, 1))), what + ': wrong number of nodes')
    S0 = lambda a, b: SeqV((('S', s.origin, a, sub(b, a)),))
    s.seq_same(s.eng.seq_slice(s.st, q, 0, c), s.eng.seq_slice(s.st, S0(0, n), 0, c), what + ': another node changes')
    c1 = add(c, 1)
    s.seq_same(s.eng.seq_slice(s.st, q, c1, n), s.eng.seq_slice(s.st, S0(0, n), c1, n), what + ': another node changes')
    if o[0] == 'found':
        same_node(s, get(c), s.origin, c, what, ('value',))
        s.require(same_value(s, s.named(get(c), 'value'), value), what + ': the value of the key is not replaced')
        return c
    same_node(s, get(c), s.origin, c, what, (o[2],))
    s.require(c_eq(sub(s.named(get(c), o[2]), n)), what + ': the new node is not linked where the search ends')
    new_node(s, get(n), key, value, what)
    return n


def insert(s, v):
    inserted(s, s.c.args[2], 'insert')


def insert_index(s, v):
    i = inserted(s, s.c.args[2], 'insert')
    s.require(c_eq(sub(v, i)), 'insert: the index returned is not that of the node')


class Remove(Obj):
    """the object is built again, by insertions, from all nodes but one"""

    def ghost0(self):
        return dict(Obj.ghost0(self), hi=0, pi=0, pend='n', taken='n', new=None)

    def on_write(self, eng, st, obj, path, val):
        x = self.step_of(eng, obj, path)
        if x is None or x[0] != self.origin0():
            return False
        origin, i, names = x
        g = st.ghost
        g['phase'] = 'changed'
        if names != ['value']:
            return Obj.on_write(self, eng, st, obj, path, val)
        if g['rel'] != 'found':
            eng.problem(st, 'spec', 'remove: a value changes although the key is not there')
        if g['pend'] != 'n':
            raise Unsupported('values are collected before they are stored')
        if self.eq(st, i, g['c']) or self.eq(st, i, g['hi']) and eng.holds(st, c_eq(sub(i, g['c']))):
            if g['taken'] == 'y':
                raise Unsupported('the value of the key is taken twice')
            g['taken'] = 'y'
            if self.eq(st, i, g['hi']):
                g['hi'] = add(i, 1)
            return True
        if not self.eq(st, i, g['hi']) and g['taken'] == 'y' and self.eq(st, g['hi'], g['c']):
            g['hi'] = add(g['hi'], 1)
        if self.eq(st, i, g['hi']):
            g['pend'] = 'y'
        elif st.facts.decide(c_eq(sub(i, g['hi']))) is False and st.facts.decide(c_eq(sub(g['hi'], g['c']))) is False:
            g['pend'] = 'odd'
        elif st.facts.const(g['hi']) == 0:
            ok = not eng.holds(st, c_ge(sub(i, 2))) and (eng.holds(st, c_eq(i)) or eng.holds(st, c_eq(g['c'])))
            g['pend'] = 'y' if ok else 'odd'
        else:
            raise Unsupported('order in which the object is built again')
        g['pi'] = i
        g['hi'] = add(i, 1)
        return True

    def mark(self, eng, st):
        Obj.mark(self, eng, st)
        g = st.ghost
        g['sk'] = '-'
        if g.get('phase') and g['taken'] == 'y':
            d = sub(g['hi'], g['c'])
            g['sk'] = 'at' if st.facts.decide(c_eq(d)) is True else 'past' if st.facts.decide(c_ge(sub(d, 1))) is True else 'to'

    def mergeable(self, eng, a, b):
        return Obj.mergeable(self, eng, a, b) and a.ghost['sk'] == b.ghost['sk']

    def call(self, eng, st, f, vals, t):
        if f['path'] in ('json::object::Object::insert', 'json::object::Object::insert_index') and st.ghost.get('phase'):
            g = st.ghost
            i = g['pi']
            if g['pend'] == 'n':
                raise Unsupported('an insertion that does not come from the old object')
            q = models.content_of(eng, st, vals[1])
            origin = self.origin0()
            same = [i] + [j for j in (st.facts.const(i),) if j is not None]
            if not any(eng.seq_eq(st, q, self.kcontent(eng, origin, j)) is True for j in same):
                eng.problem(st, 'spec', 'remove: a value gets the key of another')
            x = vals[2]
            if not isinstance(x, Opq):
                raise Unsupported('a value that was made from parts')
            if not any(vkey(x) == vkey(eng.mkopq(x.ty, ('nval', origin, j))) for j in same):
                eng.problem(st, 'spec', 'remove: a key does not keep its value')
            o = self.vec(eng.read(st, vals[0].obj, vals[0].path))
            if g['new'] is not None and g['new'].obj != o.obj:
                raise Unsupported('two objects are built')
            if g['new'] is None and st.facts.decide(c_eq(o.len)) is not True:
                eng.problem(st, 'spec', 'remove: the object is built again in one that is not empty')
            if g['pend'] == 'odd':
                eng.problem(st, 'spec', 'remove: the order of the other members changes')
            g['new'] = Ptr(o.obj, ())
            g['pend'] = 'n'
            g['pi'] = 0
            return eng.ret_val(st, t, ()) if f['path'].endswith('::insert') else NotImplemented
        return Obj.call(self, eng, st, f, vals, t)


def remove(s, v):
    o = s.outcome()
    g = s.st.ghost
    if o[0] != 'found':
        s.require(s.variant(v) == 'None', 'remove: a value for a key that is not there')
        s.untouched('remove')
        return
    s.require(s.variant(v) == 'Some', 'remove: the value is not returned')
    here = s.c.vec(s.deref(s.c.args[0]))
    if g['new'] is None and not s.H(c_eq(sub(s.n, 1))):
        raise Unsupported('the object is not built again')
    s.require(g['new'] is None or g['new'] is not None and here.obj == g['new'].obj, 'remove: the object that was built is lost')
    old = s.named(s.c.known_elem(s.eng, s.st, s.origin, o[1]), 'value')
    s.require(same_value(s, s.fields(v)[0], old), 'remove: not the value of the key is returned')
    if g['pend'] == 'n' and s.st.facts.decide(c_eq(sub(g['hi'], s.n))) is None:
        raise Unsupported('the members that were stored again')
    s.require(g['taken'] == 'y' and g['pend'] == 'n' and (s.c.eq(s.st, g['hi'], s.n) or s.c.eq(s.st, g['hi'], g['c']) and s.H(c_eq(sub(s.n, add(g['hi'], 1))))), 'remove: a member is lost')


def override(s, v):
    """override_at(index, value), override_last(value)"""
    q = stored(s)
    value = s.c.args[-1]
    if len(s.c.args) == 3:
        i = s.c.args[1]
    elif s.H(c_eq(s.n)):
        s.require(c_eq(seqlen(q)), 'override: the object grows')
        return
    else:
        i = sub(s.n, 1)
    all_ = SeqV((('S', s.origin, 0, s.n),))
    s.require(c_eq(sub(seqlen(q), s.n)), 'override: the number of nodes changes')
    for a, b in ((0, i), (add(i, 1), s.n)):
        s.seq_same(s.eng.seq_slice(s.st, q, a, b), s.eng.seq_slice(s.st, all_, a, b), 'override: another node changes')
    nd = s.agg(s.eng.seq_get(s.st, q, i))
    i = 0 if s.st.facts.decide(c_eq(i)) is True else i
    same_node(s, nd, s.origin, i, 'override', ('value',))
    s.require(same_value(s, s.named(nd, 'value'), value), 'override: the value is not replaced')


class Plain(Obj):
    """operations that do not search"""
    budget = 60000

    def at_head(self, eng, st):
        pass

    def on_field(self, eng, st, obj, path):
        pass

    def mergeable(self, eng, a, b):
        return True


class OverrideAt(Plain):
    def prepare(self, eng, st):
        Plain.prepare(self, eng, st)
        eng.getobj(st, ('sym', ('arg', 0)))
        v = self.vec(eng.read(st, ('sym', ('arg', 0)), ()))
        st.facts = st.facts.assume(c_ge(sub(v.len, add(self.args[1], 1))))[0]


def length(s, v):
    s.require(c_eq(sub(v, s.n)), 'len: not the number of members')


def empty(s, v):
    s.same_bool(v, c_eq(s.n), 'is_empty: wrong answer')


def clear(s, v):
    s.require(c_eq(seqlen(stored(s))), 'clear: members are left')


def ends(s, it):
    """(pointer, pointer) of an iterator over nodes, as (object, first, end)"""
    out = []

    def walk(x):
        if isinstance(x, Ptr) and x.obj is not None:
            out.append(x)
        elif isinstance(x, Agg):
            for f in x.fs:
                walk(f)
    walk(it)
    if len(out) != 2 or out[0].obj != out[1].obj:
        raise Unsupported('layout of an iterator')
    ix = [p.path[-1][1] if p.path and p.path[-1][0] == 'el' else 0 for p in out]
    return out[0].obj, ix[0], ix[1]


def listing(s, v):
    o, a, b = ends(s, v)
    s.require(o == s.obj and s.H(c_eq(a)) and s.H(c_eq(sub(b, s.n))), 'iter: not all of the members')


def step(back):
    def f(s, v):
        c = s.c
        o, a, b = c.before
        o2, a2, b2 = ends(s, s.deref(c.args[0]))
        if o != o2:
            s.fail('next: the iterator goes to another object')
        if s.H(c_eq(sub(b, a))):
            s.require(s.variant(v) == 'None', 'next: a member after the last')
            return
        s.require(s.variant(v) == 'Some', 'next: a member is left out')
        i = sub(b, 1) if back else a
        key, val = s.agg(s.fields(v)[0]).fs
        origin = s.eng.symty[o][2]
        s.require(c_eq(sub(a2, a if back else add(a, 1))) and s.H(c_eq(sub(a2, a if back else add(a, 1)))), 'next: members are skipped or given twice')
        s.require(c_eq(sub(b2, i if back else b)), 'next: members are skipped or given twice')
        s.seq_same(models.content_of(s.eng, s.st, key), c.kcontent(s.eng, origin, i), 'next: not the key of the member')
        s.obj = o
        s.require(s.value_ptr(val, i), 'next: not the value of the member')
    return f


def rest(s, v):
    o, a, b = s.c.before
    s.require(c_eq(sub(v, sub(b, a))), 'len: not the number of members left')


class Cursor(Plain):
    def prepare(self, eng, st):
        Plain.prepare(self, eng, st)
        v = eng.read(st, self.args[0].obj, self.args[0].path)
        self.before = ends(S(eng, st), v)


class Equal(Plain):
    """o == p: all members of one are looked up in the other"""

    def ghost0(self):
        return dict(Obj.ghost0(self), hi=0, bad='n', pend='n', side='-', zi=0, weak='n')

    def mergeable(self, eng, a, b):
        return all(a.ghost[k] == b.ghost[k] for k in ('bad', 'pend', 'side', 'weak'))

    def side(self, p):
        return {('sym', ('arg', 0)): 0, ('sym', ('arg', 1)): 1}.get(p.obj)

    def call(self, eng, st, f, vals, t):
        g = st.ghost
        if f['path'] == 'json::object::Object::get':
            side = self.side(vals[0])
            if side is None or vals[0].path:
                raise Unsupported('lookup in another object')
            if g['side'] == '-':
                g['side'] = str(1 - side)
            elif g['side'] != str(1 - side):
                raise Unsupported('lookups in both objects')
            origin = ('arg', 1 - side, '*', 0)
            q = models.content_of(eng, st, vals[1])
            if g['bad'] == 'n' and (g['pend'] != 'n' or eng.seq_eq(st, q, self.kcontent(eng, origin, g['hi'])) is not True):
                raise Unsupported('order of the lookups')
            p = Ptr(('sym', ('other', origin, g['hi'])), ())
            eng.symty[p.obj] = ('val', eng.prog.find_ty(VAL), ('other', origin, g['hi']))
            there = st.copy()
            if g['bad'] == 'n':
                there.ghost['pend'] = 'y'
                st.ghost['bad'] = 'y'
            rty = t[6]
            names = [x['name'] for x in eng.adt(rty)['variants']]
            return eng.ret_val(there, t, Agg(rty, names.index('Some'), (p,))) + eng.ret_val(st, t, Agg(rty, names.index('None'), ()))
        if 'PartialEq' in f['path'] and f['path'][-4:] in ('::eq', '::ne') and len(vals) == 2:
            keys = []
            for p in vals:
                while isinstance(p, Ptr) and isinstance(eng.read(st, p.obj, p.path), Ptr):
                    p = eng.read(st, p.obj, p.path)
                x = eng.read(st, p.obj, p.path) if isinstance(p, Ptr) else p
                if not isinstance(x, Opq) or eng.adt_name(x.ty) != VAL:
                    return None
                keys.append(x.key)
            eq = f['path'].endswith('::eq')
            if g['bad'] == 'y':
                return eng.ret_val(st.copy(), t, eq) + eng.ret_val(st, t, not eq)
            if g['pend'] != 'y':
                return self.side_by_side(eng, st, keys, eq, t)
            origin = ('arg', int(g['side']), '*', 0)
            want = sorted(map(repr, (vkey(('nval', origin, g['hi'])), vkey(('other', origin, g['hi'], '*')))))
            if sorted(repr(vkey(k)) for k in keys) != want:
                raise Unsupported('comparison of other values')
            same = st.copy()
            same.ghost['pend'] = 'n'
            same.ghost['hi'] = add(g['hi'], 1)
            st.ghost['bad'] = 'y'
            st.ghost['pend'] = 'n'
            return eng.ret_val(same, t, eq) + eng.ret_val(st, t, not eq)
        return None

    def side_by_side(self, eng, st, keys, eq, t):
        """values of the members at the same place in both objects are compared"""
        g = st.ghost
        i = g['zi']
        want = {repr(vkey(('nval', ('arg', a, '*', 0), i))) for a in (0, 1)}
        if {repr(vkey(k)) for k in keys} != want or g['weak'] == 'y':
            raise Unsupported('comparison of other values')
        ks = [self.kcontent(eng, ('arg', a, '*', 0), i) for a in (0, 1)]
        c = models.seq_equal(eng, st, *ks)
        known = c is True or c is not False and not isinstance(c, bool) and st.facts.decide(c) is True
        same = st.copy()
        same.ghost['zi'] = add(i, 1)
        if not known:
            same.ghost['weak'] = 'y'
        return eng.ret_val(same, t, eq) + eng.ret_val(st, t, not eq)


def lens(s):
    return [s.eng.symty[('sym', ('arg', i, '*', 0))][3] for i in (0, 1)]


def equal(s, v):
    g = s.st.ghost
    a, b = [s.c.vec(s.deref(p)).len for p in s.c.args]
    if s.H(v):
        s.require(g['bad'] == 'n', 'equality: holds although a key is missing or has another value')
        s.require(c_eq(sub(a, b)), 'equality: holds although the objects have different sizes')
        n = a if g['side'] in ('0', '-') else b
        if g['weak'] == 'n' and s.c.eq(s.st, g['zi'], n):
            return
        s.require(g['pend'] == 'n' and s.H(c_eq(sub(g['hi'], n))), 'equality: holds although members were not compared')
    else:
        s.require(g['bad'] == 'y' or not s.H(c_eq(sub(a, b))), 'equality: does not hold although nothing differs')


SEARCH = {'object_get': (get, Obj), 'object_get_mut': (get, Obj), 'object_insert': (insert, Obj), 'object_remove': (remove, Remove)}
DIRECT = {'insert_index': ('json::object::Object::insert_index', insert_index, Obj),
          'override_at': ('json::object::Object::override_at', override, OverrideAt)}
STORE = {'object_override_last': (override, Plain)}
LIST = {'object_iter': (listing, Plain), 'object_iter_mut': (listing, Plain), 'object_len': (length, Plain), 'object_is_empty': (empty, Plain),
        'object_clear': (clear, Plain), 'object_iter_next': (step(False), Cursor), 'object_iter_next_back': (step(True), Cursor),
        'object_iter_mut_next': (step(False), Cursor), 'object_iter_mut_next_back': (step(True), Cursor),
        'object_iter_len': (rest, Cursor), 'object_iter_mut_len': (rest, Cursor)}
EQ = {'object_eq': (equal, Equal)}
ALL = dict(SEARCH, **STORE, **LIST, **EQ)


def make(root):
    fn, cls = ALL[root]
    return cls(fn)


def fn_of(prog, root):
    """(specification, class, function) of an entry point or of a function that only the crate calls"""
    if root in ALL:
        return ALL[root] + (None,)
    path, spec, cls = DIRECT[root]
    fs = [f for f in prog.by_path.get(path, []) if f.get('blocks')]
    return spec, cls, fs[0] if len(fs) == 1 else False


def analyse(prog, t, out):
    spec, cls, fn = fn_of(prog, t.root)
    if fn is False:
        # not part of the interface: whoever calls it is analysed with what is there instead
        out['notes'].append('%s does not exist' % DIRECT[t.root][0])
        out['paths'] += 1
        return
    chk = cls(spec, fn)
    run.fill(out, run_root(prog, t.root, chk), chk)
    if t.root not in SEARCH and t.root not in ('insert_index',) or out['reason'] or out['problems']:
        return
    ref = Obj(get)
    r = run_root(prog, 'object_get', ref)
    if r.reason or r.eng.problems or r.eng.unsure:
        out['reason'] = 'the lookup is undecided'
        return
    for rel, sides in sorted(chk.tree.items()):
        out['obligations'] += 1
        if len(ref.tree.get(rel, ())) == 1 and sides == ref.tree[rel]:
            out['discharged'] += 1
            continue
        where = fn['path'] if fn else 'json::object::Object::' + t.root[7:]
        out['problems'].append({'kind': 'search', 'where': where, 'stack': [], 'detail': 'this function: %s, lookup: %s' % (sorted(sides), sorted(ref.tree.get(rel, ()))),
                                'msg': 'the search does not follow the link that lookups follow (%s)' % {'lt': 'smaller hash', 'gt': 'larger hash', 'col': 'same hash, another key'}[rel]})


def tasks(*groups):
    return lambda prog: [run.Task(r, None, run=analyse) for g in groups for r in g]
