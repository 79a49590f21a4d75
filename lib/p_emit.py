"""Serialisation against a monitor of the tokens of the value.

The monitor is ghost state: it consumes the bytes that the serialiser hands to
its sink (an in-memory buffer, or a writer that may fail) and follows the tokens
of the value that is being written.  A recursive call for a child counts as the
token sequence of that child, provided the generator is in the state in which
the recursive function is analysed (one level deeper).
"""
from jcheck import *
from p_table import obj_id
import models

WHERE = 'json::codegen'
DENT, WIDTH = 'dent', 'spaces_per_indent'
ESCVAL = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}
LITS = {'null': b'null', 'true': b'true', 'false': b'false'}
SPECIAL = tuple((b, b) for b in (34, 92)) + ((0, 31),)
GRAMMAR, TOKENS, STRING, ERROR, LAYOUT, RAW = 'grammar', 'tokens', 'string', 'error', 'layout', 'raw'


def special(c):
    return c_or(c_and(c_ge(c), c_ge(sub(31, c))), c_eq(sub(c, 34)), c_eq(sub(c, 92)))


def writes_text(prog, root):
    """the function that writes one text, for the generator of a root"""
    for f in prog.fns.values():
        if f['path'].startswith('json::codegen::') or f['path'].startswith('<json::codegen::'):
            if f['path'].endswith('::write_string') and f['argc'] == 2 and f['locals'][1] == root['locals'][1]:
                return f
    return None


class Emit(JsonCheck):
    merge = False
    prune = True
    bound_len = True
    loop_entries = True
    budget = 3000000
    kinds = None

    def __init__(self, kinds=None, pretty=False, writer=False, top=False, string=False, obj=False):
        JsonCheck.__init__(self)
        self.obj = obj          # the entry point writes an object itself
        self.string = string    # the function that writes one text, on its own
        self.kinds = kinds
        self.pretty = pretty
        self.writer = writer
        self.top = top          # the entry point hands the whole value to the recursive function
        self.finished = 0

    def function(self, prog, name):
        f = prog.root(name)
        return writes_text(prog, f) if self.string else f

    def ghost0(self):
        return {'m': 'V', 'n': 0, 'y': 0, 'ck': UNIT, 'cv': UNIT, 'done': 0, 'p': '-', 'P': 0,
                'esc': '-', 'hex': 0, 'ws': 0, 'nl': '-', 'fail': '-', 'out': 0, 'init': '-', 'it': '-', 'buf': '-', 'skip': ''}

    # ---------------------------------------------------------------- obligations
    def bad(self, eng, st, kind, msg):
        if self.kinds is not None and kind not in self.kinds:
            raise Dead()
        eng.problem(st, kind, msg, WHERE)

    def need(self, eng, st, c, kind, msg):
        eng.stats['obligations'] += 1
        if c is True:
            eng.stats['discharged'] += 1
            return
        if c is not False:
            d = st.facts.decide(c)
            if d is True or d is None and all(f.absurd() for f in st.facts.assume(c_not(c))):
                eng.stats['discharged'] += 1
                return
        self.bad(eng, st, kind, msg)

    # ---------------------------------------------------------------- the value
    def root_ptr(self):
        return self.args[1] if not self.top else self.args[0]

    def raw(self, eng, st):
        p = self.root_ptr()
        if not isinstance(p, Ptr):
            return None
        return eng.read(st, p.obj, p.path)

    def value(self, eng, st):
        p = self.root_ptr()
        v = eng.read(st, p.obj, p.path)
        if isinstance(v, Opq):
            v = eng.expand(st, v)
        return v

    def kind(self, eng, st):
        if self.string:
            return 'Text', None
        if self.obj:
            p = self.args[0]
            return 'Object', Agg('()', 0, (eng.read(st, p.obj, p.path),))
        v = self.value(eng, st)
        i = eng.variant_of(st, v)
        return eng.adt(v.ty)['variants'][i]['name'], v

    def text(self, eng, st, g):
        """(object, path, length) of the text that is due"""
        k, v = self.kind(eng, st)
        if k == 'Text':
            p = self.args[1]
            return p.obj, (), p.meta
        if k in ('String', 'Short'):
            x = v.fs[0] if isinstance(v, Agg) else eng.expand(st, v).fs[0]
            p = self.root_ptr()
            if k == 'String':
                while isinstance(x, Agg):
                    x = x.fs[0]
                return x.obj, (), x.len
            x = S(eng, st).agg(x)
            i = eng.adt(v.ty)['variants']
            i = [j for j, w in enumerate(i) if w['name'] == 'Short'][0]
            fs = eng.adt(x.ty)['variants'][0]['fields']
            arr = ln = None
            for j, ((n, ty), f) in enumerate(zip(fs, x.fs)):
                tk = eng.prog.tys[ty]['k']
                if tk[0] == 'int':
                    ln = f
                elif isinstance(f, SeqV):
                    arr = j
            return p.obj, ('short', arr), ln
        if k == 'Object' and isinstance(g['ck'], Ptr):
            q = g['ck']
            return q.obj, (), q.meta
        return None

    def text_index(self, eng, st, obj, path, g):
        """index in the text that is due of an element at (obj, path)"""
        t = self.text(eng, st, g)
        if t is None or t[0] != obj or not path or path[-1][0] != 'el':
            return None
        if t[1] and (len(path) < 2 or path[-2][:2] != ('f', t[1][1])):
            return None
        if not t[1] and len(path) != 1:
            return None
        return path[-1][1]

    def text_seq(self, eng, st, g):
        t = self.text(eng, st, g)
        k, v = self.kind(eng, st)
        if k in ('Object', 'Text'):
            return models.slice_seq(eng, st, g['ck'] if k == 'Object' else self.args[1])
        return S(eng, st).text(v)

    def text_byte(self, eng, st, g, i):
        o, how, n = self.text(eng, st, g)
        if how:
            x = S(eng, st).agg(self.kind(eng, st)[1].fs[0])
            q = x.fs[how[1]]
        else:
            q = eng.getobj(st, o)
        if len(q.segs) != 1:
            raise Unsupported('the text of a string')
        k = st.facts.const(i)
        x = eng.elem_of(st, q.segs[0], i if k is None else k)
        if isinstance(x, Lin) and x.t[0][0] not in st.facts.iv:
            # the same byte under another name
            a = x.t[0][0].key
            for b in st.facts.iv:
                if b.key[:2] == a[:2] and a[0] == 'byte' and st.facts.decide(c_eq(sub(b.key[2], a[2]))) is True:
                    return var(b)
        return x

    # ---------------------------------------------------------------- reads of the text
    def on_read(self, eng, st, obj, path):
        g = st.ghost
        if not path or path[-1][0] != 'el' or g['m'] == 'E':
            return
        v = None if self.string or self.obj else self.raw(eng, st)
        if not self.string and not self.obj and (v is None or isinstance(v, Opq) and v.key not in st.known):
            return
        i = self.text_index(eng, st, obj, path, g)
        if i is None:
            return
        g = self.place(eng, st, g)
        if g['p'] not in 'nsq' or not self.here(eng, st, i, g['P']):
            return
        # which of these holds was known when the byte was read before
        x = self.text_byte(eng, st, g, i)
        ways = [c_eq(sub(x, 34)), c_eq(sub(x, 92)), c_and(c_ge(x), c_ge(sub(31, x))), c_not(special(x))]
        ways = ways[3:] if g['p'] == 'q' else ways[:3] if g['p'] == 's' else ways
        for w in ways:
            if st.facts.decide(w) is True:
                break
        else:
            raise Fork([('c', w) for w in ways])
        st.ghost = dict(g, p='q' if w == c_not(special(x)) else 's')

    def here(self, eng, st, i, p):
        d = sub(i, p)
        return eng.holds(st, c_ge(d)) and eng.holds(st, c_ge(neg(d))) if not isinstance(d, int) else d == 0

    def one(self, st, c):
        fs = st.facts.assume(c)
        if not fs:
            raise Dead()
        return fs[0]

    def place(self, eng, st, g):
        """Some position of the text, the same for all of the string: what holds of it holds of all"""
        if g['p'] != '-':
            return g
        t = self.text(eng, st, g)
        if eng.holds(st, c_eq(t[2])):
            g = dict(g, p='e')
        else:
            q = var(atom(('pos', next(eng.ids)), 0, MAXCAP))
            st.facts = self.one(st, c_ge(sub(sub(t[2], q), 1)))
            g = dict(g, p='n', P=q)
        st.ghost = g
        return g

    # ---------------------------------------------------------------- bytes
    def token(self, eng, st, g, what):
        """layout before a token"""
        if not self.pretty:
            return
        d = self.dent0 if what == 'close' else add(self.dent0, 1)
        if what in ('item', 'close'):
            n = eng.mul(st, d, self.width0)
            self.need(eng, st, g['nl'] == 'n', LAYOUT, 'an element does not start on a line of its own')
            self.need(eng, st, c_eq(sub(g['ws'], n)), LAYOUT, 'a line is not indented by depth times width')
        g['nl'], g['ws'] = '-', 0

    def length(self, eng, st):
        k, v = self.kind(eng, st)
        x = v.fs[0] if isinstance(v, Agg) else eng.expand(st, v).fs[0]
        if k == 'Array':
            return x.len
        return self.olen(x)

    def olen(self, x):
        return var(atom(('olen', obj_id(x)), 0, MAXCAP))

    def step(self, eng, st, g, c):
        """one byte"""
        m = g['m']
        if m in ('S', 'K'):
            return self.in_string(eng, st, g, c)
        b = st.facts.const(c)
        if b is None:
            raise Unsupported('a byte outside of a string is not known')
        if b in (9, 10, 13, 32) and m[0] != 'L':
            if not self.pretty:
                self.need(eng, st, False, LAYOUT, 'white space in a compact text')
            if b == 10:
                self.need(eng, st, g['nl'] == '-', LAYOUT, 'an empty line')
                g['nl'], g['ws'] = 'n', 0
            elif b == 32:
                if g['nl'] == 'n':
                    g['ws'] = add(g['ws'], 1)
            else:
                self.need(eng, st, False, LAYOUT, 'white space that is neither a line feed nor a space')
            return
        if m[0] == 'L':
            w, i = m[1:].split(':')
            if LITS[w][int(i)] != b:
                self.bad(eng, st, GRAMMAR, 'a literal is not spelled as it should be')
            i = int(i) + 1
            g['m'] = 'E' if i == len(LITS[w]) else 'L%s:%d' % (w, i)
            return
        if m == 'V':
            if self.top:
                self.bad(eng, st, GRAMMAR, 'something is written before the value')
            k, v = self.kind(eng, st)
            if b in b'tfn':
                w = {116: 'true', 102: 'false', 110: 'null'}[b]
                g['m'] = 'L%s:1' % w
                if k == 'Boolean':
                    x = v.fs[0] if isinstance(v, Agg) else eng.expand(st, v).fs[0]
                    self.need(eng, st, eng.holds(st, x) is (w == 'true') and w != 'null', TOKENS, 'a boolean is written as %s' % w)
                elif k == 'Number':
                    x = v.fs[0] if isinstance(v, Agg) else eng.expand(st, v).fs[0]
                    self.need(eng, st, w == 'null' and eng.holds(st, self.nan(eng, st, x)), TOKENS, 'a number is written as %s' % w)
                else:
                    self.need(eng, st, k == 'Null' and w == 'null', TOKENS, 'a value that is no literal is written as %s' % w)
                return
            if b == 91:
                self.need(eng, st, k == 'Array', TOKENS, 'a value that is no array is written as an array')
                g['m'] = 'A0'
                return
            if b == 123:
                self.need(eng, st, k == 'Object', TOKENS, 'a value that is no object is written as an object')
                g['m'] = 'O0'
                return
            if b == 34:
                self.need(eng, st, k in ('String', 'Short', 'Text'), TOKENS, 'a value that is no string is written as a string')
                g['m'] = 'S'
                g.update(self.place(eng, st, dict(g)))
                return
            self.bad(eng, st, GRAMMAR, 'a value starts with a byte that starts no value')
        if m in ('A0', 'A1') and b == 93 or m in ('O0', 'O1') and b == 125:
            if m[0] == 'O':
                # by the contract of the iterator over the members
                st.facts = self.one(st, c_ge(sub(self.length(eng, st), g['y'])))
            self.need(eng, st, c_eq(sub(self.length(eng, st), g['n'])), TOKENS, 'a container is closed before all its elements were written')
            self.token(eng, st, g, 'close' if m[1] == '1' else 'empty')
            g['m'] = 'E'
            return
        if m in ('A1', 'O1') and b == 44:
            self.token(eng, st, g, 'sep')
            g['m'] = m[0] + ','
            return
        if m in ('O0', 'O,') and b == 34:
            self.token(eng, st, g, 'item')
            self.need(eng, st, g['ck'] != UNIT and c_eq(sub(g['y'], add(g['n'], 1))), TOKENS, 'the members of an object are not written in their order')
            g['m'] = 'K'
            g.update(self.place(eng, st, dict(g)))
            return
        if m == 'Ok' and b == 58:
            self.token(eng, st, g, 'sep')
            g['m'] = 'O:'
            return
        self.bad(eng, st, GRAMMAR, 'a byte is written that the grammar does not allow there')

    def in_string(self, eng, st, g, c):
        if g['esc'] == '-':
            b = st.facts.const(c)
            if b == 34:
                t = self.text(eng, st, g)
                self.need(eng, st, c_eq(sub(t[2], g['done'])), STRING, 'a string is closed before its text is complete')
                g.update(m='E' if g['m'] == 'S' else 'Ok', done=0, p='-', P=0)
                return
            if b == 92:
                g['esc'] = 'e'
                return
            # a raw byte: it has to be the next of the text
            t = self.text(eng, st, g)
            self.need(eng, st, c_ge(sub(t[2], add(g['done'], 1))), STRING, 'a string is longer than its text')
            x = self.text_byte(eng, st, g, g['done'])
            self.need(eng, st, c_eq(sub(x, c)), STRING, 'a byte of a text is replaced by another')
            if st.facts.decide(special(c)) is not False and g['p'] in 'ns' and self.here(eng, st, g['done'], g['P']):
                self.need(eng, st, c_not(special(c)), RAW, 'a quote, backslash or control character is written raw')
            self.advance(eng, st, g, 1)
            return
        if g['esc'] == 'e':
            b = self.one_of(eng, st, c)
            if b == 117:
                g['esc'], g['hex'] = 'u0', 0
                return
            if b not in ESCVAL:
                self.bad(eng, st, RAW, 'an escape sequence that JSON does not have')
            self.decoded(eng, st, g, ESCVAL[b])
            return
        b = self.one_of(eng, st, c)
        k = int(g['esc'][1])
        try:
            d = int(chr(b), 16)
        except ValueError:
            self.bad(eng, st, RAW, 'a \\u escape without four hexadecimal digits')
        g['hex'] = add(scale_t(g['hex'], 16), d)
        if k == 3:
            h = g['hex']
            g['hex'] = 0
            self.decoded(eng, st, g, h)
        else:
            g['esc'] = 'u%d' % (k + 1)

    def one_of(self, eng, st, c):
        b = st.facts.const(c)
        if b is not None:
            return b
        # the special byte that is due takes few values: tell them apart
        g = st.ghost
        x = self.text_byte(eng, st, g, g['done'])
        if st.facts.const(x) is None:
            lo, hi = int(st.facts.lb(x)), int(st.facts.ub(x))
            alt = [k for k in list(range(32)) + [34, 92] if lo <= k <= hi]
            raise Fork([('c', c_eq(sub(x, k))) for k in alt] + [('c', c_not(special(x)))])
        b = st.facts.const(c)
        if b is not None:
            return b
        raise Unsupported('a byte of an escape sequence is not known')

    def decoded(self, eng, st, g, v):
        t = self.text(eng, st, g)
        self.need(eng, st, c_ge(sub(t[2], add(g['done'], 1))), STRING, 'a string is longer than its text')
        if g['p'] in 'nsq' and self.here(eng, st, g['done'], g['P']):
            self.need(eng, st, c_eq(sub(self.text_byte(eng, st, g, g['done']), v)), STRING, 'an escape sequence denotes another character')
        g['esc'] = '-'
        self.advance(eng, st, g, 1)

    def advance(self, eng, st, g, n):
        g['done'] = add(g['done'], n)
        if g['p'] in 'nsq' and eng.holds(st, c_ge(sub(sub(g['done'], g['P']), 1))):
            g.update(p='d', P=0)

    def nan(self, eng, st, x):
        return S(eng, st).num_nan(S(eng, st).number(x))

    def feed(self, eng, st, g, q):
        """a sequence of bytes"""
        for s in q.segs:
            if s[0] == 'e':
                self.step(eng, st, g, s[1])
                continue
            n = seqlen(SeqV((s,)))
            if s[0] == 'X' and s[1] == 'hex04':
                if g['esc'] != 'u0':
                    self.bad(eng, st, RAW, 'hexadecimal digits outside of an escape sequence')
                self.decoded(eng, st, g, s[2][0])
                continue
            if s[0] == 'X' and s[1] == 'number':
                self.number(eng, st, g, s[2])
                continue
            k = st.facts.const(n)
            if k is not None and k <= 64 and not (s[0] == 'S' and g['m'] in ('S', 'K') and g['esc'] == '-'):
                for i in range(k):
                    self.step(eng, st, g, eng.elem_of(st, s, i))
                continue
            if g['m'] not in ('S', 'K') or g['esc'] != '-':
                self.bad(eng, st, GRAMMAR, 'text is written outside of a string')
            # a piece of the text
            if eng.holds(st, c_eq(n)):
                continue
            g.update(self.place(eng, st, dict(g)))
            t = self.text(eng, st, g)
            end = add(g['done'], n)
            self.need(eng, st, c_ge(sub(t[2], end)), STRING, 'a string is longer than its text')
            want = eng.seq_slice(st, self.text_seq(eng, st, g), g['done'], end)
            eng.stats['obligations'] += 1
            if eng.seq_eq(st, SeqV((s,)), want) is not True:
                self.bad(eng, st, STRING, 'a piece of a text is replaced, repeated or left out')
            eng.stats['discharged'] += 1
            if g['p'] in 'ns' and eng.holds(st, c_ge(sub(g['P'], g['done']))) and eng.holds(st, c_ge(sub(sub(end, g['P']), 1))):
                if g['p'] == 's' or st.facts.decide(special(self.text_byte(eng, st, g, g['P']))) is not False:
                    self.bad(eng, st, RAW, 'a quote, backslash or control character is written raw')
            self.advance(eng, st, g, n)

    def number(self, eng, st, g, args):
        if g['m'] != 'V' or self.top:
            self.bad(eng, st, GRAMMAR, 'a number is written where no number is due')
        k, v = self.kind(eng, st)
        self.need(eng, st, k == 'Number', TOKENS, 'a value that is no number is written as a number')
        x = v.fs[0] if isinstance(v, Agg) else eng.expand(st, v).fs[0]
        n = S(eng, st).number(x)
        self.need(eng, st, not eng.holds(st, S(eng, st).num_nan(n)), GRAMMAR, 'a number that is not finite is written as digits')
        pos, man, ex = args
        self.need(eng, st, eng.holds(st, pos) is eng.holds(st, c_eq(sub(n[0], 1))), TOKENS, 'a number is written with the wrong sign')
        self.need(eng, st, c_and(c_eq(sub(n[1], man)), c_eq(sub(n[2], ex))), TOKENS, 'a number is written with another mantissa or exponent')
        g['m'] = 'E'

    # ---------------------------------------------------------------- events
    def emit(self, eng, st, q):
        g = dict(st.ghost)
        if g['fail'] == 'y':
            self.bad(eng, st, ERROR, 'something is written after the writer failed')
        if g['fail'] == 's':
            self.bad(eng, st, ERROR, 'the writer took a part of the bytes and the rest is not handed over')
        self.feed(eng, st, g, q)
        st.ghost = g

    def gen(self, eng, st, p):
        """the generator behind a pointer"""
        v = eng.read(st, p.obj, p.path)
        while isinstance(v, Ptr):
            p = v
            v = eng.read(st, p.obj, p.path)
        return p, S(eng, st).agg(v)

    def code(self, eng, st, gv):
        for f in gv.fs:
            if isinstance(f, VecV):
                return f
        return None

    def value_event(self, eng, st, f, vals, t):
        """a call of the recursive function for a value: its tokens are written"""
        self.drain(eng, st)
        gp, gv = self.gen(eng, st, vals[0])
        p = vals[1]
        g = dict(st.ghost)
        if g['fail'] != '-':
            self.bad(eng, st, ERROR, 'something is written after the writer failed')
        if self.top:
            self.need(eng, st, g['m'] == 'V', GRAMMAR, 'the value is written twice')
            r = self.root_ptr()
            if isinstance(r, Ptr):
                same = p.obj == r.obj and p.path == r.path
            else:
                same = repr(eng.read(st, p.obj, p.path)) == repr(r)
            if not same:
                self.bad(eng, st, TOKENS, 'another value is written')
            if self.pretty:
                s = S(eng, st)
                self.need(eng, st, c_eq(s.named(gv, DENT)), LAYOUT, 'the indentation does not start at zero')
                self.need(eng, st, c_eq(sub(s.named(gv, WIDTH), self.want_width)), LAYOUT, 'the width of the indentation is not the one that was asked for')
            g['m'] = 'E'
        else:
            k, v = self.kind(eng, st)
            if g['m'] in ('A0', 'A,'):
                x = v.fs[0] if isinstance(v, Agg) else eng.expand(st, v).fs[0]
                if p.obj != x.obj or len(p.path) != 1:
                    raise Unsupported('an element of unknown origin')
                self.token(eng, st, g, 'item')
                self.need(eng, st, c_eq(sub(p.path[0][1], g['n'])), TOKENS, 'the elements of an array are not written in their order')
                g['m'] = 'A1'
            elif g['m'] == 'O:':
                if not isinstance(g['cv'], Ptr) or p.obj != g['cv'].obj:
                    raise Unsupported('a member of unknown origin')
                self.token(eng, st, g, 'sep')
                self.need(eng, st, c_eq(sub(g['y'], add(g['n'], 1))), TOKENS, 'the members of an object are not written in their order')
                g['m'] = 'O1'
            elif self.obj and g['m'] == 'V':
                raise Unsupported('the object is written as another value')
            else:
                self.bad(eng, st, GRAMMAR, 'an element is written where none is due')
            g['n'] = add(g['n'], 1)
            g['ck'] = g['cv'] = UNIT
            self.same_layout(eng, st, gv, True)
        st.ghost = g
        self.grow(eng, st, gp, gv)
        return self.outcome(eng, st, t)

    def text_event(self, eng, st, f, vals, t):
        """a call of the function that writes one text, which is analysed on its own"""
        self.drain(eng, st)
        g = dict(st.ghost)
        if g['fail'] != '-':
            self.bad(eng, st, ERROR, 'something is written after the writer failed')
        k, v = self.kind(eng, st)
        if g['m'] == 'V':
            self.need(eng, st, k in ('String', 'Short'), TOKENS, 'a value that is no string is written as a string')
            g['m'] = 'E'
        elif g['m'] in ('O0', 'O,'):
            self.token(eng, st, g, 'item')
            self.need(eng, st, g['ck'] != UNIT and c_eq(sub(g['y'], add(g['n'], 1))), TOKENS, 'the members of an object are not written in their order')
            g['m'] = 'Ok'
        else:
            self.bad(eng, st, GRAMMAR, 'a string is written where none is due')
        x = self.text(eng, st, g)
        p = vals[1]
        i = self.text_index(eng, st, p.obj, p.path, g)
        if i is None:
            raise Unsupported('a text of unknown origin')
        self.need(eng, st, c_eq(i), STRING, 'a text is written without its beginning')
        self.need(eng, st, c_eq(sub(p.meta, x[2])), STRING, 'a text is not written as a whole')
        st.ghost = g
        gp, gv = self.gen(eng, st, vals[0])
        self.same_layout(eng, st, gv, g['m'] != 'E')
        self.grow(eng, st, gp, gv)
        return self.outcome(eng, st, t)

    def same_layout(self, eng, st, gv, inner):
        if self.pretty:
            s = S(eng, st)
            self.need(eng, st, c_eq(sub(s.named(gv, DENT), add(self.dent0, 1) if inner else self.dent0)), LAYOUT, 'an element is written at another depth')
            self.need(eng, st, c_eq(sub(s.named(gv, WIDTH), self.width0)), LAYOUT, 'the width of the indentation changes')

    def grow(self, eng, st, gp, gv):
        if not self.writer:
            n = var(atom(('emitted', next(eng.ids)), 1, MAXCAP))
            models.append(eng, st, Ptr(gp.obj, gp.path + self.code_path(eng, gv)), SeqV((('B', ('out',), n),)))

    def code_path(self, eng, gv):
        for i, f in enumerate(gv.fs):
            if isinstance(f, VecV):
                return (('f', i, None),)
        raise Unsupported('buffer of the generator')

    def outcome(self, eng, st, t, ok=UNIT):
        """io::Result<()>: success, or failure of the writer"""
        if not self.writer:
            return eng.ret_val(st, t, Agg(t[6], 0, (ok,)))
        a = st.copy()
        a.ghost = dict(a.ghost, fail='y')
        ety = eng.variant_fields(t[6], 1)[0]
        return eng.ret_val(st, t, Agg(t[6], 0, (ok,))) + eng.ret_val(a, t, Agg(t[6], 1, (Opq(ety, ('ioerr',)),)))

    def drain(self, eng, st):
        """bytes appended to the buffer since the last time"""
        if self.writer:
            return
        if self.obj and st.ghost['init'] == 'y':
            for gv in [v for v in st.mem.values() if isinstance(v, Agg) and v.ty in eng.prog.tys and (eng.adt_name(v.ty) or '').startswith('json::codegen::')]:
                c = self.code(eng, st, gv)
                if c is None or st.ghost['buf'] not in ('-', repr(c.obj)):
                    continue
                q = st.mem.get(c.obj)
                if q is None or not isinstance(q, SeqV) or not q.segs or any(s[0] == 'U' or s[:2] == ('B', ('out',)) for s in q.segs):
                    continue
                if st.ghost['buf'] == '-':
                    st.ghost = dict(st.ghost, buf=repr(c.obj))
                    self.emit(eng, st, q)
                    st.mem[c.obj] = SeqV((('B', ('out',), seqlen(q)),))
        for o, q in list(st.mem.items()):
            if not isinstance(q, SeqV) or not any(s[0] == 'B' and s[1] == ('out',) for s in q.segs):
                continue
            if len(q.segs) == 1:
                continue
            if any(s[0] == 'U' for s in q.segs):
                return
            if q.segs[0][0] != 'B':
                raise Unsupported('the buffer does not begin with what was written')
            rest = SeqV(tuple(s for s in q.segs[1:] if s[:2] != ('B', ('out',))))
            if rest.segs:
                self.emit(eng, st, rest)
            st.mem[o] = SeqV((('B', ('out',), seqlen(q)),))

    def on_append(self, eng, st, p, q):
        self.drain(eng, st)

    def on_heap_written(self, eng, st, obj, off, n):
        self.drain(eng, st)

    def start(self, eng, st):
        """first call: the state of the generator at entry"""
        st.ghost['init'] = 'y'
        if self.top:
            if self.pretty:
                self.want_width = self.args[-1]
            return
        if self.obj:
            self.dent0, self.width0 = 0, self.args[-1]
            return
        gp, gv = self.gen(eng, st, self.args[0])
        s = S(eng, st)
        if self.pretty:
            self.dent0 = s.named(gv, DENT)
            self.width0 = s.named(gv, WIDTH)
            st.facts = st.facts.assume(c_ge(sub(1 << 40, self.dent0)))[0]
        if not self.writer:
            c = self.code(eng, st, gv)
            if c is None:
                raise Unsupported('buffer of the generator')
            st.mem[c.obj] = SeqV((('B', ('out',), c.len),))

    def call(self, eng, st, f, vals, t):
        if st.ghost['init'] == '-':
            self.start(eng, st)
        self.drain(eng, st)
        path = models.norm(f['path'])
        if path == 'harness::opaque_write_all':
            self.emit(eng, st, models.slice_seq(eng, st, vals[1]))
            return self.outcome(eng, st, t)
        if path == 'harness::opaque_write':
            n = vals[1].meta
            a = st.copy()
            self.emit(eng, st, models.slice_seq(eng, st, vals[1]))
            r = self.outcome(eng, st, t, n)
            if not eng.holds(a, c_eq(n)):
                k = var(atom(('took', next(eng.ids)), 0, MAXCAP))
                for fs in a.facts.assume(c_ge(sub(sub(n, k), 1))):
                    b = a.copy()
                    b.facts = fs
                    b.ghost = dict(b.ghost, fail='s')
                    r = r + eng.ret_val(b, t, Agg(t[6], 0, (k,)))
            return r
        if path == 'harness::opaque_flush':
            return self.outcome(eng, st, t)
        if path.startswith('core::fmt::') and path.endswith('Arguments::new') and len(vals) == 2:
            return eng.ret_val(st, t, Agg(t[6], 0, tuple(vals)))
        if path.startswith('core::fmt::rt::Argument::new_'):
            how = path.rsplit('new_', 1)[1] + ' ' + eng.prog.tys[eng.prog.tys[t[5][0]]['k'][2]]['s']
            return eng.ret_val(st, t, Agg(t[6], 0, (vals[0], Opq(None, ('fmt', how)))))
        if path.endswith('::write_fmt') and 'io' in path and len(vals) == 2:
            q = self.formatted(eng, st, vals[1])
            if self.writer:
                self.emit(eng, st, q)
            else:
                models.append(eng, st, vals[0], q)
            return self.outcome(eng, st, t)
        if f['crate'] == 'json':
            if path.endswith('::write_json') and len(vals) == 2 and isinstance(vals[1], Ptr) and (self.top or self.obj or self.string or vals[1].obj != self.root_ptr().obj):
                return self.value_event(eng, st, f, vals, t)
            if path.startswith('json::codegen::') and path.endswith('::write_string') and not self.string and not self.top and len(vals) == 2:
                return self.text_event(eng, st, f, vals, t)
            if path == 'json::util::print_dec::write':
                x = SeqV((('X', 'number', tuple(vals[1:4]), var(atom(('numlen', next(eng.ids)), 1, 40000))),))
                w = vals[0]
                if self.writer:
                    self.emit(eng, st, x)
                else:
                    models.append(eng, st, w, x)
                return self.outcome(eng, st, t)
            if path.startswith('json::object::'):
                h = getattr(self, 'o_' + path.rsplit('::', 1)[1], None)
                if h is not None:
                    return eng.ret_val(st, t, h(eng, st, vals, t))
            if path.startswith('{json::object::Iter as '):
                h = getattr(self, 'i_' + path.rsplit('::', 1)[1], None)
                if h is not None:
                    return eng.ret_val(st, t, h(eng, st, vals, t))
        return None

    # ---------------------------------------------------------------- members of an object, by contract
    def o_iter(self, eng, st, vals, t):
        if st.ghost['it'] != '-':
            raise Unsupported('a second iteration over the members')
        st.ghost = dict(st.ghost, it='y')
        return Opq(t[6], ('members',))

    def o_len(self, eng, st, vals, t):
        return self.length(eng, st)

    def o_is_empty(self, eng, st, vals, t):
        return c_eq(self.length(eng, st))

    def i_len(self, eng, st, vals, t):
        return sub(self.length(eng, st), st.ghost['y'])

    def i_next(self, eng, st, vals, t):
        g = st.ghost
        if not eng.holds(st, c_ge(sub(self.length(eng, st), add(g['y'], 1)))):
            return models.none(eng, t[6])
        tup = eng.variant_fields(t[6], 1)[0]
        k = eng.prog.tys[tup]['k']
        kty, vty = k[1] if isinstance(k[1], (list, tuple)) else k[1:]
        i = next(eng.ids)
        kp = eng.symptr(eng.prog.tys[kty]['k'][2], ('key', i))
        vp = eng.symptr(eng.prog.tys[vty]['k'][2], ('val', i))
        st.ghost = dict(g, y=add(g['y'], 1), ck=kp, cv=vp)
        return models.some(eng, t[6], Agg(tup, 0, (kp, vp)))

    def one_length(self, eng, st):
        """one name for the length of the buffer"""
        if self.writer or self.top or self.obj or st.ghost['init'] == '-':
            return
        c = self.code(eng, st, self.gen(eng, st, self.args[0])[1])
        q = st.mem.get(c.obj)
        if isinstance(q, SeqV) and len(q.segs) == 1 and q.segs[0][:2] == ('B', ('out',)):
            if not (isinstance(c.len, Lin) and len(c.len.t) == 1 and c.len.t[0][0].key[0] == 'outlen' and c.len.c == 0):
                n = var(atom(('outlen', next(eng.ids)), 0, MAXCAP))
                p, gv = self.gen(eng, st, self.args[0])
                p = Ptr(p.obj, p.path + self.code_path(eng, gv))
                eng.write(st, p.obj, p.path, VecV(c.obj, n, var(atom(('outcap', next(eng.ids)), 0, MAXCAP))))
                st.mem[c.obj] = SeqV((('B', ('out',), n),))

    def one_name(self, eng, st):
        """the position in the text goes by the name that the code has for it"""
        g = st.ghost
        if g['m'] not in ('S', 'K'):
            return
        d, w = len(st.frames) - 1, g['done']
        for o, v in sorted(((o, v) for o, v in st.mem.items() if isinstance(o, tuple) and o[0] == d and isinstance(o[1], int)), key=lambda p: p[0]):
            if isinstance(v, (int, Lin)) and not isinstance(v, bool):
                if v == w:
                    return
                if st.facts.decide(c_eq(sub(v, w))) is True:
                    st.ghost = dict(g, done=v)
                    return

    def canon(self, eng, st):
        if not (self.pretty and self.obj):
            return
        # the requested width keeps its name where its value is known
        for o, v in list(st.mem.items()):
            if isinstance(v, Agg) and v.ty in eng.prog.tys and (eng.adt_name(v.ty) or '').startswith('json::codegen::'):
                fs = [n for n, _ in eng.adt(v.ty)['variants'][0]['fields']]
                if WIDTH in fs:
                    i = fs.index(WIDTH)
                    if v.fs[i] != self.width0 and isinstance(v.fs[i], (int, Lin)) and st.facts.decide(c_eq(sub(v.fs[i], self.width0))) is True:
                        st.mem[o] = Agg(v.ty, v.var, v.fs[:i] + (self.width0,) + v.fs[i + 1:])

    def skips(self, eng, st):
        """states before and after the skipping part of an iterator are kept apart"""
        d, r = len(st.frames) - 1, ''
        for o, v in st.mem.items():
            if isinstance(o, tuple) and o[0] == d:
                while isinstance(v, Agg) and len(v.fs) == 1:
                    v = v.fs[0]
                if isinstance(v, Agg) and v.ty in eng.prog.tys and eng.adt_name(v.ty) == 'core::iter::adapters::skip::Skip':
                    r += '0' if v.fs[-1] == 0 else 'n'
        return r

    def at_head(self, eng, st):
        self.drain(eng, st)
        self.one_length(eng, st)
        self.one_name(eng, st)
        st.ghost = dict(st.ghost, skip=self.skips(eng, st))
        v = None if self.string or self.obj else self.raw(eng, st)
        marks = []
        if self.string:
            marks = [self.args[1].meta, st.ghost['P']]
        elif self.obj or not self.top and v is not None and not (isinstance(v, Opq) and v.key not in st.known):
            k, v = self.kind(eng, st)
            if k in ('Array', 'Object'):
                marks.append(self.length(eng, st))
            t = self.text(eng, st, st.ghost)
            if t is not None:
                marks.append(t[2])
                marks.append(st.ghost['P'])
        if self.obj and self.pretty:
            marks.append(self.args[-1])
        if self.pretty and not self.top and st.ghost['nl'] == 'n':
            marks += [eng.mul(st, self.dent0, self.width0), eng.mul(st, add(self.dent0, 1), self.width0)]
        self.landmarks = tuple(a for x in marks if isinstance(x, Lin) for a, _ in x.t)

    # ---------------------------------------------------------------- formatting
    def template(self, eng, st, a):
        """pieces of fmt::Arguments: bytes, or (formatter, options, argument)"""
        s = S(eng, st)
        tp, ap = (self.bare(x) for x in s.agg(a).fs)
        out = []
        if ap.obj is None or not ap.path or ap.path[-1][0] != 'el':
            ap = Ptr(ap.obj, ap.path + (('el', 0),)) if ap.obj is not None else ap
        base = tp.path if tp.path and tp.path[-1][0] == 'el' else tp.path + (('el', 0),)

        def byte(i):
            x = eng.read(st, tp.obj, base[:-1] + (('el', add(base[-1][1], i)),))
            c = st.facts.const(x)
            if c is None:
                raise Unsupported('template of a format')
            return c
        i = n = 0
        while True:
            b = byte(i)
            i += 1
            if b == 0:
                return out
            if b < 0xc0:
                ln = b
                if b == 0x80:
                    ln = byte(i) + 256 * byte(i + 1)
                    i += 2
                out.append(bytes(byte(i + k) for k in range(ln)))
                i += ln
                continue
            flags, width, prec, arg = 0, None, None, n
            if b & 1:
                flags = sum(byte(i + k) << 8 * k for k in range(4))
                i += 4
            if b & 2:
                width = byte(i) + 256 * byte(i + 1)
                i += 2
            if b & 4:
                prec = byte(i) + 256 * byte(i + 1)
                i += 2
            if b & 8:
                arg = byte(i) + 256 * byte(i + 1)
                i += 2
            if b & 0x30:
                raise Unsupported('indirect width of a format')
            n = arg + 1
            x = s.agg(eng.read(st, ap.obj, ap.path[:-1] + (('el', add(ap.path[-1][1], arg)),)))
            if len(x.fs) != 2 or not isinstance(x.fs[1], Opq):
                raise Unsupported('argument of a format')
            out.append((x.fs[1].key[1], (b & 1, flags, width, prec), x.fs[0]))

    def bare(self, v):
        while isinstance(v, Agg) and len(v.fs) == 1:
            v = v.fs[0]
        return v

    def formatted(self, eng, st, a):
        segs = []
        for x in self.template(eng, st, a):
            if isinstance(x, bytes):
                segs += list(models.bytes_seq(list(x)).segs)
                continue
            name, (has, flags, width, prec), p = x
            v = eng.read(st, p.obj, p.path)
            if name == 'lower_hex u8' and width == 4 and flags & (1 << 24) and not flags & (1 << 23) and prec is None:
                segs.append(('X', 'hex04', (v,), 4))
                continue
            raise Unsupported('format with %s' % name)
        return mkseq(segs)

    # ---------------------------------------------------------------- results
    def on_finish(self, eng, st, v):
        self.drain(eng, st)
        self.finished += 1
        g = st.ghost
        s = S(eng, st)
        if not self.returns_result(eng, v):
            self.whole(eng, st, v)
            return
        if s.variant(v) == 'Ok':
            self.need(eng, st, g['fail'] != 'y', ERROR, 'success is returned although the writer failed')
            self.need(eng, st, g['fail'] != 's', ERROR, 'success is returned although the writer took a part of the bytes only')
            self.need(eng, st, g['m'] == 'E', GRAMMAR, 'success is returned before the text is complete')
            if self.pretty:
                self.need(eng, st, g['nl'] == '-', LAYOUT, 'white space after the end of the text')
                if not self.top and not self.obj:
                    gp, gv = self.gen(eng, st, self.args[0])
                    self.need(eng, st, c_eq(sub(s.named(gv, DENT), self.dent0)), LAYOUT, 'the depth after a value is not the depth before it')
                    self.need(eng, st, c_eq(sub(s.named(gv, WIDTH), self.width0)), LAYOUT, 'the width of the indentation changes')
            return
        if g['fail'] == 's':
            return
        self.need(eng, st, g['fail'] == 'y', ERROR, 'an error is returned although the writer did not fail')
        e = s.fields(v)[0]
        self.need(eng, st, isinstance(e, Opq) and e.key == ('ioerr',), ERROR, 'the error that is returned is not the one of the writer')

    def returns_result(self, eng, v):
        return eng.adt_name(v.ty) == 'core::result::Result' if hasattr(v, 'ty') and v.ty is not None and not isinstance(v, VecV) else False

    def whole(self, eng, st, v):
        g = st.ghost
        while isinstance(v, Agg) and len(v.fs) == 1:
            v = v.fs[0]
        if isinstance(v, VecV):
            self.need(eng, st, g['m'] == 'E', GRAMMAR, 'the value is not written')
            q = models.vec_seq(eng, st, v)
            self.need(eng, st, len(q.segs) == 1 and q.segs[0][:2] == ('B', ('out',)), TOKENS, 'the returned text is not what was written')
            if self.pretty:
                self.need(eng, st, g['nl'] == '-', LAYOUT, 'white space after the end of the text')
            return
        # to_writer: an error panics
        self.need(eng, st, g['m'] == 'E' and g['fail'] == '-', ERROR, 'returns although the writer failed')
