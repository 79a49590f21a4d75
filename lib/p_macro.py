"""The literal macros: every listed expression is evaluated once, in order, and the
container holds exactly what was listed."""
from jcheck import *
import models

WHERE = 'macros'


def E(i):
    return 'e', i


def K(i):
    return 'k', i


def P(i):
    return 'p', i           # parameter i


def A(*xs):
    return ('A',) + xs


def O(*ms):
    return ('O',) + ms


def TXT(s):
    return 't', s.encode()


def NUM(n):
    return 'n', n


NULL, TRUE = ('null',), ('true',)
X, Y, Z = TXT('x'), TXT('y'), TXT('z')
WANT = {
    'm_array0': A(), 'm_array1': A(E(0)), 'm_array1t': A(E(0)), 'm_array2': A(E(0), E(1)),
    'm_array3': A(E(0), E(1), E(2)), 'm_array3t': A(E(0), E(1), E(2)), 'm_array6': A(*map(E, range(6))),
    'm_array_tt': A(P(0), P(1), P(2)), 'm_array_ttt': A(P(0), P(1), P(2)),
    'm_array_mixed': A(E(0), NULL, A(E(1), NULL), P(0), O((X, E(2))), E(3), TXT('text'), NUM(7), NUM(-7), TRUE, A(), O()),
    'm_array_nulls': A(NULL, NULL),
    'm_array_nested': A(A(A(E(0)), E(1)), O((X, A(E(2))), (Y, O((Z, E(3))))), E(4)),
    'm_object0': O(), 'm_object1': O((X, E(0))), 'm_object1t': O((X, E(0))),
    'm_object3': O((X, E(0)), (Y, E(1)), (K(2), E(3))),
    'm_object3t': O((K(0), E(1)), (X, E(2)), (Y, E(3))),
    'm_object5': O((TXT('a'), E(0)), (TXT('b'), E(1)), (K(2), E(3)), (K(4), E(5)), (TXT('c'), E(6))),
    'm_object_tt': O((X, P(0)), (Y, P(1)), (Z, P(2))), 'm_object_ttt': O((X, P(0)), (Y, P(1)), (Z, P(2))),
    'm_object_mixed': O((TXT('p'), NULL), (TXT('q'), A(E(0), E(1))), (TXT('r'), P(0)), (TXT('s'), O((TXT('t'), E(2)), (K(3), NULL))),
                        (TXT('u'), E(4)), (TXT('v'), TXT('text')), (TXT('w'), NUM(-7)), (X, TRUE), (Y, A()), (Z, O())),
    'm_object_same': O((X, E(0)), (X, E(1))),
    'm_object_legacy': O((X, E(0)), (K(1), E(2))), 'm_object_legacyt': O((X, E(0)), (K(1), E(2))),
    'm_object_legacytt': O((X, P(0)), (Y, P(1))),
    'm_value': NULL, 'm_value_array': A(E(0), E(1)), 'm_value_object': O((X, E(0))),
}


def events(w):
    """the visible evaluations of what is listed, in order"""
    if w[0] in 'ek' and len(w) == 2 and isinstance(w[1], int):
        return [w]
    if w[0] == 'A':
        return [x for y in w[1:] for x in events(y)]
    if w[0] == 'O':
        return [x for k, v in w[1:] for x in events(k) + events(v)]
    return []


class Macro(JsonCheck):
    unroll = True

    def __init__(self, root):
        JsonCheck.__init__(self)
        self.want = WANT[root]
        self.finished = 0

    def ghost0(self):
        return {'ev': (), 'objs': ()}

    def bad(self, eng, st, msg):
        eng.problem(st, 'macro', msg, WHERE)

    # ---------------------------------------------------------------- calls
    def call(self, eng, st, f, vals, t):
        p = models.norm(f['path'])
        g = st.ghost
        if p == 'harness::opaque_ev':
            st.ghost = dict(g, ev=g['ev'] + (E(self.number(st, vals[0])),))
            return eng.ret_val(st, t, Opq(t[6], ('ev', self.number(st, vals[0]))))
        if p == 'harness::opaque_kv':
            i = self.number(st, vals[0])
            st.ghost = dict(g, ev=g['ev'] + (K(i),))
            return eng.ret_val(st, t, eng.symptr(eng.prog.tys[t[6]]['k'][2], ('kv', i)))
        if p == 'harness::opaque_into':
            v = vals[0]
            if isinstance(v, Opq):
                return eng.ret_val(st, t, Opq(t[6], ('into',) + (v.key,)))
            for i, a in enumerate(self.args):
                if v == a or isinstance(a, Opq) and v == eng.expand(st, a):
                    return eng.ret_val(st, t, Opq(t[6], ('into', ('arg', i))))
            raise Unsupported('value %r that is listed' % (v,))
        if f['crate'] == 'json' and p.startswith('json::object::Object::'):
            n = p.rsplit('::', 1)[1]
            if n in ('new', 'with_capacity'):
                i = len(g['objs'])
                st.ghost = dict(g, objs=g['objs'] + ((),))
                return eng.ret_val(st, t, Opq(t[6], ('mobj', i)))
            if n == 'insert':
                o = eng.read(st, vals[0].obj, vals[0].path)
                if not (isinstance(o, Opq) and o.key[0] == 'mobj'):
                    raise Unsupported('object of a macro')
                m = (self.text(eng, st, vals[1]), self.content(eng, st, vals[2]))
                objs = list(st.ghost['objs'])
                objs[o.key[1]] = objs[o.key[1]] + (m,)
                st.ghost = dict(st.ghost, objs=tuple(objs))
                return eng.ret_val(st, t, UNIT)
            if n in ('get', 'get_mut'):
                o = eng.read(st, vals[0].obj, vals[0].path)
                k = self.text(eng, st, vals[1])
                if isinstance(o, Opq) and o.key[0] == 'mobj' and all(m[0] != k for m in g['objs'][o.key[1]]):
                    return eng.ret_val(st, t, models.none(eng, t[6]))
            raise Unsupported('operation %s of an object' % n)
        return None

    def number(self, st, x):
        c = x if isinstance(x, int) else st.facts.const(x)
        if c is None:
            raise Unsupported('number of an expression')
        return c

    def text(self, eng, st, v):
        if isinstance(v, Ptr) and isinstance(v.obj, tuple) and v.obj[:1] == ('sym',) and v.obj[1][0] == 'kv':
            return K(v.obj[1][1])
        q = S(eng, st).text(v)
        out = []
        for s in q.segs:
            if s[0] != 'e' or not isinstance(s[1], int):
                raise Unsupported('text that is listed')
            out.append(s[1])
        return 't', bytes(out)

    def content(self, eng, st, v):
        s = S(eng, st)
        if isinstance(v, Opq):
            if v.key[0] == 'into':
                k = v.key[1]
                return E(k[1]) if k[0] == 'ev' else P(k[1])
            raise Unsupported('value of a macro')
        k = s.variant(v)
        if k == 'Null':
            return NULL
        if k == 'Boolean':
            return ('true',) if s.H(s.fields(v)[0]) else ('false',)
        if k in ('Short', 'String'):
            return self.text(eng, st, v)
        if k == 'Number':
            c, m, e = [self.number(st, x) for x in s.number(s.fields(v)[0])]
            return NUM((m if c == 1 else -m)) if e == 0 else ('n', c, m, e)
        if k == 'Object':
            o = s.fields(v)[0]
            if isinstance(o, Opq) and o.key[0] == 'mobj':
                return ('O',) + st.ghost['objs'][o.key[1]]
            raise Unsupported('object of a macro')
        vec = s.fields(v)[0]
        out = ['A']
        for x in models.vec_seq(eng, st, vec).segs:
            if x[0] != 'e':
                raise Unsupported('elements of an array')
            out.append(self.content(eng, st, x[1]))
        return tuple(out)

    def on_panic(self, eng, st, msg):
        self.bad(eng, st, 'a macro panics: %s' % msg)

    def on_finish(self, eng, st, v):
        self.finished += 1
        eng.stats['obligations'] += 2
        got = self.content(eng, st, v)
        if list(st.ghost['ev']) != events(self.want):
            self.bad(eng, st, 'the listed expressions are not evaluated once each and in order')
        eng.stats['discharged'] += 1
        if got != self.want:
            self.bad(eng, st, 'the container does not hold what is listed')
        eng.stats['discharged'] += 1
