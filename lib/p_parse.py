"""The parser against a monitor of RFC 8259.

The monitor is ghost state: an automaton over the bytes of the text that steps
when the program first reads a byte (`on_read`), together with what the bytes
read so far denote (decoded string, mantissa and exponent, depth).  Completed
values wait in a queue until the program stores them: in the array or object
that the text has open at that depth, or by returning.  Containers are abstract:
one open container per depth, identified by its depth.
"""
from jcheck import *
from engine import name_of
import models

PARSE = 'json::parser'
BLOCK = 'json::parser::StackBlock'

WS = ((9, 10), (13, 13), (32, 32))
DIGIT = ((48, 57),)
NONZERO = ((49, 57),)
LIMIT = 512
U64 = (1 << 64) - 1
XBIG = 100000

# literals: state -> (byte, next state or value)
LIT = {'t1': (114, 't2'), 't2': (117, 't3'), 't3': (101, ('bool', 1)),
       'f1': (97, 'f2'), 'f2': (108, 'f3'), 'f3': (115, 'f4'), 'f4': (101, ('bool', 0)),
       'n1': (117, 'n2'), 'n2': (108, 'n3'), 'n3': (108, ('null',))}
import os
NUMFINAL = ('z', 'i', 'f', 'x')
ESC = {98: 8, 102: 12, 110: 10, 114: 13, 116: 9}


def one(*bs):
    return tuple((b, b) for b in bs)


def member(c, rs):
    return c_or(*[c_eq(sub(c, lo)) if lo == hi else c_and(c_ge(sub(c, lo)), c_ge(sub(hi, c))) for lo, hi in rs])


class ParseCheck(JsonCheck):
    merge = True
    budget = 400000
    ladder = (1, 9, 511, 512, 32767, 32768, XBIG - 1, (1 << 31) - 1, (1 << 63) - 1, (1 << 64) - 1)
    kinds = None
    docs = None         # the class of documents: first characters of their values
    flat = False        # no container inside of another
    prune = True
    bound_len = True
    loop_entries = False
    ghost_first = ('dg', 'hi', 'db', 'lb')

    def __init__(self, kinds=None, strings=True, numbers=True):
        JsonCheck.__init__(self)
        self.kinds = kinds
        self.numbers = numbers      # and numbers
        self.strings = strings      # what strings denote is tracked
        self.finished = 0

    def ghost0(self):
        n = self.args[0].meta
        self.landmarks = tuple(a for a, _ in n.t)
        return {'m': 'V', 'top': '-', 'D': 0, 'pos': 0, 'q': (), 'key': None, 'kv': '-', 'sst': 0, 'spl': 0, 'sln': 0, 'esc': '-', 'pend': EMPTY, 'op': '-', 'pidx': -1, 'pidxl': -1,
                'neg': '-', 'M': 0, 'E': 0, 'X': 0, 'xs': '-', 'sat': '-', 'br': '-', 'dg': (0, 0, 0, 0), 'hi': 0, 'dead': 0, 'guess': '-', 'asc': '-', 'lk': '-', 'db': 0, 'lb': 0, 'np': '-', 'deep': '-'}

    # ---------------------------------------------------------------- obligations
    def bad(self, eng, st, kind, msg):
        if self.kinds is not None and kind not in self.kinds:
            raise Dead()
        eng.problem(st, kind, msg, PARSE)

    def need(self, eng, st, c, kind, msg):
        eng.stats['obligations'] += 1
        if c is True:
            eng.stats['discharged'] += 1
            return
        if c is not False:
            d = st.facts.decide(c)
            if d is True or d is None and all(f.absurd() for f in st.facts.assume(c_not(c))):
                eng.stats['discharged'] += 1
                return
        self.bad(eng, st, kind, msg)

    def on_panic(self, eng, st, msg):
        self.bad(eng, st, 'panic', 'panics: %s' % msg)

    # ---------------------------------------------------------------- the text
    def text(self):
        p = self.args[0]
        return p.obj, p.meta

    def dead(self, st):
        return st.ghost['m'] in ('dead', 'lone')

    def on_read(self, eng, st, obj, path):
        o, n = self.text()
        if obj != o or len(path) != 1:
            return
        idx = path[0][1]
        self.need(eng, st, c_and(c_ge(idx), c_ge(sub(sub(n, idx), 1))), 'bounds', 'reads a byte outside of the text')
        g = st.ghost
        if eng.holds(st, c_ge(sub(sub(g['pos'], idx), 1))):
            if g['np'] == 'y':
                st.ghost = dict(g, np='r')
            return
        if not eng.holds(st, c_eq(sub(idx, g['pos']))):
            raise Unsupported('the parser reads ahead')
        c = eng.elem_of(st, ('S', self.origin(eng, st), 0, n), idx)
        new = dict(g, br='-', lb=0, np='-')
        if not g['m'][1:] or g['m'][0] not in 'uv':
            new['dg'] = (0, 0, 0, 0)
            if g['m'][0] != 'w':
                new['hi'] = 0
        self.step(eng, st, new, c)
        if new['m'] == 'dead' and g['m'] != 'dead':
            new['db'] = c     # keeps what is known about that byte
        new['pos'] = add(g['pos'], 1)
        st.ghost = new

    def origin(self, eng, st):
        q = eng.getobj(st, self.args[0].obj)
        return q.segs[0][1]

    def cls(self, eng, st, c, *sets):
        for i, rs in enumerate(sets):
            if eng.holds(st, member(c, rs)):
                return i
        return len(sets)

    # ---------------------------------------------------------------- the automaton
    def ascii(self, eng, st, c):
        return 'y' if eng.holds(st, c_ge(sub(127, c))) else 'n'

    def lone(self, eng, st, g, c, why):
        """an unpaired surrogate escape; whether the last two bytes are ASCII is tracked from here on"""
        a = 'y' + self.ascii(eng, st, c)
        self.die(g, 'lone')
        g['asc'] = a
        g['lk'] = why

    def die(self, g, why='dead'):
        at = g['pos']
        deep = g['deep'] if g['op'] != '-' else '-'
        g.update(self.ghost0())
        g.update(m=why, pos=at, dead=at, deep=deep)

    def complete(self, eng, st, g, desc):
        g['q'] = g['q'] + ((desc, g['D'], g['pidx']),)
        if len(g['q']) > 2:
            self.bad(eng, st, 'structure', 'a completed value of the text is not stored before the next one is complete')
        g['m'] = 'E'

    def number_done(self, eng, st, g):
        """the number token ends before the byte at pos"""
        e = g['E']
        br = '-'
        if not self.numbers:
            return self.complete(eng, st, g, ('num',))
        if g['m'] == 'x':
            br = 'x' + g['xs'] + g['sat']
            if g['sat'] == 'y':
                e = 32767 if g['xs'] == '+' else -32768
            else:
                e = add(e, g['X']) if g['xs'] == '+' else sub(e, g['X'])
                if eng.holds(st, c_ge(sub(e, 32768))):
                    e = 32767
                    br += '>'
                elif eng.holds(st, c_ge(sub(-32769, e))):
                    e = -32768
                    br += '<'
        desc = ('num', g['neg'], g['M'], e)
        self.complete(eng, st, g, desc)
        g.update(neg='-', M=0, E=0, X=0, xs='-', sat='-', br=br)

    def digit(self, eng, st, g, c, frac):
        if not self.numbers:
            return
        d = sub(c, 48)
        m = add(scale_t(g['M'], 10), d)
        if frac and eng.holds(st, c_eq(add(g['E'], 32768))):
            g['br'] = 'm'
            return
        if eng.holds(st, c_ge(sub(U64, m))):
            g['br'] = 'y'
            g['M'] = m
            if frac:
                g['E'] = sub(g['E'], 1)
        else:
            g['br'] = 'n'
            if not frac:
                g['E'] = add(g['E'], 1)

    def opened(self, eng, st, g, kind):
        g['D'] = add(g['D'], 1)
        g['deep'] = 'y' if eng.holds(st, c_ge(sub(g['D'], LIMIT + 1))) else '-'
        g['top'] = kind
        g['guess'] = '-'
        if g['op'] != '-':
            raise Unsupported('two containers of the text are opened before one is recorded')
        g['op'] = kind
        g['pidxl'] = g['pidx']
        g['pidx'] = -1

    def step(self, eng, st, g, c):
        m = g['m']
        if m == 'lone':
            g['asc'] = g['asc'][1] + self.ascii(eng, st, c)
        if m in ('dead', 'lone'):
            return
        if m in LIT:
            b, nxt = LIT[m]
            if not eng.holds(st, c_eq(sub(c, b))):
                return self.die(g)
            if isinstance(nxt, str):
                g['m'] = nxt
            else:
                self.complete(eng, st, g, nxt)
            return
        if m in NUMFINAL:
            if m == 'i' or m == 'f' or m == 'x':
                k = self.cls(eng, st, c, DIGIT)
                if k == 0:
                    if m == 'x' and self.numbers:
                        x = add(scale_t(g['X'], 10), sub(c, 48))
                        if g['sat'] == 'n':
                            if eng.holds(st, c_ge(sub(x, XBIG))):
                                g['sat'] = 'y'
                                g['X'] = 0
                            else:
                                g['X'] = x
                        return
                    if m != 'x':
                        self.digit(eng, st, g, c, m == 'f')
                    return
            if m in ('z', 'i') and eng.holds(st, c_eq(sub(c, 46))):
                g['m'] = '.'
                return
            if m != 'x' and eng.holds(st, member(c, one(101, 69))):
                g['m'] = 'e'
                if self.numbers:
                    g['sat'] = 'n'
                    g['xs'] = '+'
                return
            self.number_done(eng, st, g)
            g['lb'], g['np'] = c, 'y'     # the byte after a number is read twice
            m = g['m']
        if m in ('S', 'S\\', 'u0', 'u1', 'u2', 'u3', 'w\\', 'wu', 'v0', 'v1', 'v2', 'v3'):
            return self.in_string(eng, st, g, c, m)
        if m == '-':
            k = self.cls(eng, st, c, one(48), NONZERO)
            if k == 2:
                return self.die(g)
            g['m'] = 'zi'[k]
            if self.numbers:
                g['M'] = 0 if k == 0 else sub(c, 48)
            return
        if m == '.':
            if not eng.holds(st, member(c, DIGIT)):
                return self.die(g)
            g['m'] = 'f'
            self.digit(eng, st, g, c, True)
            return
        if m == 'e':
            k = self.cls(eng, st, c, DIGIT, one(43), one(45))
            if k == 0:
                g['m'] = 'x'
                if self.numbers:
                    g['X'] = sub(c, 48)
                return
            if k == 3:
                return self.die(g)
            g['m'] = 's'
            if not self.numbers:
                return
            g['xs'] = '+' if k == 1 else '-'
            g['m'] = 's'
            return
        if m == 's':
            if not eng.holds(st, member(c, DIGIT)):
                return self.die(g)
            g['m'] = 'x'
            if self.numbers:
                g['X'] = sub(c, 48)
            return
        # structural positions: white space is allowed
        if eng.holds(st, member(c, WS)):
            return
        if m == 'A0':
            if eng.holds(st, c_eq(sub(c, 93))):
                return self.complete(eng, st, g, ('arr0',))
            self.opened(eng, st, g, 'A')
            m = g['m'] = 'V'
        if m == 'O0':
            if eng.holds(st, c_eq(sub(c, 125))):
                return self.complete(eng, st, g, ('obj0',))
            self.opened(eng, st, g, 'O')
            m = g['m'] = 'K'
        if m == 'V':
            k = self.cls(eng, st, c, one(34), one(91), one(123), one(48), NONZERO, one(45), one(116), one(102), one(110))
            if self.docs is not None and ('sAOzi-tfn_'[k] not in self.docs or k in (1, 2) and self.flat and not eng.holds(st, c_eq(g['D']))):
                raise Dead()    # another class of documents
            if k == 0:
                self.string_start(g, 'v')
            elif k == 1:
                g['m'] = 'A0'
            elif k == 2:
                g['m'] = 'O0'
            elif k in (3, 4):
                g['m'] = 'zi'[k - 3]
                if self.numbers:
                    g['neg'] = '+'
                    g['M'] = 0 if k == 3 else sub(c, 48)
            elif k == 5:
                g['m'] = '-'
                if self.numbers:
                    g['neg'] = 'n'
            elif k in (6, 7, 8):
                g['m'] = ('t1', 'f1', 'n1')[k - 6]
            else:
                self.die(g)
            return
        if m == 'K':
            if eng.holds(st, c_eq(sub(c, 34))):
                return self.string_start(g, 'k')
            return self.die(g)
        if m == 'C':
            if eng.holds(st, c_eq(sub(c, 58))):
                g['m'] = 'V'
                return
            return self.die(g)
        if m == 'E':
            if g['top'] == '?':
                k = self.cls(eng, st, c, one(44), one(93), one(125))
                if k == 3:
                    return self.die(g)
                raise Fork([('f', lambda s: s.ghost.update(top='A', guess='y', pidx=-1)), ('f', lambda s: s.ghost.update(top='O', guess='y'))])
            if g['top'] == '-':
                return self.die(g)
            close = 93 if g['top'] == 'A' else 125
            k = self.cls(eng, st, c, one(44), one(close))
            if k == 2:
                return self.die(g)
            if k == 0:
                g['m'] = 'V' if g['top'] == 'A' else 'K'
                return
            d = g['D']
            desc = ('arr', d) if g['top'] == 'A' else ('obj', d)
            last = eng.holds(st, c_eq(sub(d, 1)))
            g['D'] = sub(d, 1)
            g['top'] = '-' if last else '?'
            g['guess'] = '-'
            g['pidx'] = -1 if last else self.cidx(st, g['D'])
            g['pidxl'] = -1
            if g['op'] != '-':
                raise Unsupported('a container is closed before it is recorded')
            self.complete(eng, st, g, desc)
            return
        raise Unsupported('monitor state %s' % m)

    def cidx(self, st, d):
        c = st.facts.const(d)
        if c is not None:
            d = c
        return var(atom(('cidx', d), 0, MAXCAP))

    def string_start(self, g, kv):
        at = add(g['pos'], 1) if self.strings else 0
        g.update(m='S', kv=kv, sst=at, spl=at, sln=0, esc='-', pend=EMPTY)

    def decoded(self, eng, st, g):
        if not self.strings:
            return 'text'
        """what the bytes of the current string decode to: a stretch of the text without
        escapes, then n bytes named by where that stretch ends, then single characters"""
        plain = [] if st.facts.decide(c_eq(sub(g['spl'], g['sst']))) is True else [('S', self.origin(eng, st), g['sst'], g['spl'])]
        return mkseq(plain + [self.dec(g['spl'], g['sln'])] + list(g['pend'].segs))

    def dec(self, a, n):
        return ('X', 'dec', (a, n), n)

    def named(self, eng, st, g):
        """the decoded text of the complete string; one that is in a buffer goes by the position of the string from here on"""
        want = self.decoded(eng, st, g)
        if not self.strings or g['esc'] == '-':
            return want
        n = seqlen(want)
        new = ('X', 'text', (g['sst'],), n)
        hit = False
        for o, q in list(st.mem.items()):
            if isinstance(q, SeqV) and o != self.args[0].obj:
                k = self.suffix(eng, st, q, want)
                if k is not None:
                    hit = True
                    pre = list(q.segs[:-k])
                    if pre and (len(pre) > 1 or pre[0][:2] != ('B', ('pre',))) and all(s[0] in 'eSXB' and (s[0] != 'e' or is_int(s[1])) for s in pre):
                        pre = [('B', ('pre',), seqlen(SeqV(tuple(pre))))]
                    st.mem[o] = mkseq(pre + [new])
        return SeqV((new,)) if hit else want

    def string_done(self, eng, st, g):
        if g['kv'] == 'k':
            if g['key'] is not None:
                self.bad(eng, st, 'structure', 'a key of the text is not stored before the next one is complete')
            g['key'] = self.named(eng, st, g)
            g['pidx'] = -1
            g['m'] = 'C'
        else:
            self.complete(eng, st, g, ('str', self.named(eng, st, g)))
        g.update(kv='-', sst=0, spl=0, sln=0, esc='-', pend=EMPTY)

    def put(self, g, q):
        if not self.strings:
            return
        g['pend'] = cat(g['pend'], q)

    def hexval(self, eng, st, g, c):
        k = self.cls(eng, st, c, DIGIT, ((65, 70),), ((97, 102),))
        if k == 3:
            return None
        g['br'] = 'hex%d' % k
        return sub(c, (48, 55, 87)[k])

    def in_string(self, eng, st, g, c, m):
        if m == 'S':
            k = self.cls(eng, st, c, one(34), one(92), ((0, 31),))
            if k == 0:
                self.string_done(eng, st, g)
            elif k == 1:
                g['m'] = 'S\\'
            elif k == 2:
                self.die(g)
            elif not self.strings:
                pass
            elif g['esc'] == '-':
                g['spl'] = add(g['pos'], 1)
            else:
                self.put(g, mkseq([('e', c)]))
            return
        if m == 'S\\':
            if self.strings:
                g['esc'] = 'y'
            k = self.cls(eng, st, c, one(34, 92, 47), one(117), *[one(b) for b in sorted(ESC)])
            if k == 0:
                self.put(g, mkseq([('e', c)]))
                g['m'] = 'S'
            elif k == 1:
                g['m'] = 'u0'
                g['dg'] = (0, 0, 0, 0)
            elif k - 2 < len(ESC):
                g['br'] = 'esc%d' % k
                self.put(g, mkseq([('e', ESC[sorted(ESC)[k - 2]])]))
                g['m'] = 'S'
            else:
                self.die(g)
            return
        if m[0] in 'uv' and len(m) == 2:
            i = int(m[1])
            d = self.hexval(eng, st, g, c)
            if d is None:
                return self.die(g)
            dg = g['dg'][:i] + (d,) + g['dg'][i + 1:]
            g['dg'] = dg
            if i < 3:
                g['m'] = m[0] + str(i + 1)
                return
            cp = 0
            for x in dg:
                cp = add(scale_t(cp, 16), x)
            k = self.cls(eng, st, cp, ((0, 0xD7FF),), ((0xD800, 0xDBFF),), ((0xDC00, 0xDFFF),))
            g['br'] += str(k)
            if m[0] == 'u':
                if k == 1:
                    g['hi'] = cp
                    g['m'] = 'w\\'
                elif k == 2:
                    self.lone(eng, st, g, c, 'low')
                else:
                    self.put(g, models.utf8(eng, st, cp))
                    g['m'] = 'S'
                return
            if k == 2:
                code = add(add(scale_t(sub(g['hi'], 0xD800), 1024), sub(cp, 0xDC00)), 0x10000)
                self.put(g, models.utf8(eng, st, code))
                g['m'] = 'S'
            else:
                self.lone(eng, st, g, c, 'pair%d' % k)
            return
        if m in ('w\\', 'wu'):
            if not eng.holds(st, c_eq(sub(c, 92 if m == 'w\\' else 117))):
                return self.lone(eng, st, g, c, m)
            g['m'] = 'wu' if m == 'w\\' else 'v0'
            return
        raise Unsupported('monitor state %s' % m)

    # ---------------------------------------------------------------- containers
    def elem_type(self, eng, t, i):
        return self.base_type(eng, t[5][i])

    def is_str(self, eng, ty):
        k = eng.prog.tys[ty]['k']
        return not isinstance(k, str) and k[0] == 'ref' and eng.prog.tys[k[2]]['k'] == 'str'

    def base_type(self, eng, ty):
        k = eng.prog.tys[ty]['k']
        while not isinstance(k, str) and k[0] in ('ref', 'ptr'):
            ty = k[2]
            k = eng.prog.tys[ty]['k']
        return k[2] if not isinstance(k, str) and k[0] == 'adt' else None

    def storage(self, v):
        """the vector inside a JsonValue array / Object / Vec"""
        if isinstance(v, VecV):
            return v
        if isinstance(v, Agg):
            for f in v.fs:
                r = self.storage(f)
                if r is not None:
                    return r
        return None

    def tag(self, eng, st, vec):
        """depth the container belongs to; None: new and empty"""
        q = eng.getobj(st, vec.obj)
        if not q.segs:
            return None
        if len(q.segs) == 1 and q.segs[0][0] == 'X' and q.segs[0][1] in ('items', 'members'):
            return q.segs[0][2][0]
        raise Unsupported('content of a container is not abstract')

    def mark(self, eng, st, p, kind, d):
        """make the container at pointer p (Vec or Object place) the open container of depth d"""
        pass

    def items(self, kind, d):
        return SeqV((('X', 'items' if kind == 'A' else 'members', (d,), var(atom(('ilen', d), 0, MAXCAP))),))

    def abstract(self, eng, st, v, kind, d):
        """value v (Array or Object aggregate) with its storage abstracted"""
        if isinstance(v, VecV):
            st.mem[v.obj] = self.items(kind, d)
            return VecV(v.obj, var(atom(('ilen', d), 0, MAXCAP)), var(atom(('icap', d), 0, MAXCAP)))
        return Agg(v.ty, v.var, tuple(self.abstract(eng, st, f, kind, d) if self.storage(f) is not None else f for f in v.fs))

    def block_seq(self, eng, st, o):
        q = st.mem.get(o)
        return isinstance(q, SeqV) and any(s[0] == 'B' and s[1] == 'lvls' or s[0] == 'e' and isinstance(s[1], Agg) and
                                           eng.adt_name(s[1].ty) == BLOCK for s in q.segs)

    def stacks(self, eng, st):
        return [o for o in st.mem if self.block_seq(eng, st, o)]

    def block(self, eng, st, kind, k):
        """the block at stack position k: an open container of depth k + 1"""
        bty = eng.prog.find_ty(BLOCK)
        vty = eng.prog.find_ty(VAL)
        names = [x['name'] for x in eng.adt(vty)['variants']]
        d = add(k, 1)
        i = names.index('Array' if kind == 'A' else 'Object')
        fty = eng.adt(vty)['variants'][i]['fields'][0][1]
        inner = VecV(eng.alloc(st), 0, 0)
        if kind == 'O':
            sty = eng.adt(fty)['variants'][0]['fields'][0][1]
            inner = Agg(fty, 0, (inner,))
        c = st.facts.const(d)
        if c is not None:
            d = c
        v = self.abstract(eng, st, Agg(vty, i, (inner,)), kind, d)
        return Agg(bty, 0, (v, self.cidx(st, d) if kind == 'O' else 0))

    def materialise(self, eng, st, o):
        """top block of the stack as an explicit element"""
        q = st.mem[o]
        if not q.segs or q.segs[-1][0] != 'B':
            return
        n = q.segs[-1][2]
        if eng.holds(st, c_eq(n)):
            st.mem[o] = EMPTY
            return
        if not eng.holds(st, c_ge(sub(n, 1))):
            return

        def put(kind):
            def f(s):
                e = self.block(eng, s, kind, sub(n, 1))
                s.mem[o] = mkseq([('B', 'lvls', sub(n, 1)), ('e', e)])
            return f
        raise Fork([('f', put('A')), ('f', put('O'))])

    def at_head(self, eng, st):
        """give the decoded text of the current string one name; fold all blocks but the top one"""
        self.fold_string(eng, st)
        self.settle(eng, st)
        if st.ghost['br'] != '-':
            st.ghost = dict(st.ghost, br='-')
        for o in self.stacks(eng, st):
            q = st.mem[o]
            n = 0
            for s in q.segs[:-1]:
                if s[0] == 'e':
                    self.folded(eng, st, s[1], n)
                n = add(n, 1 if s[0] == 'e' else s[2])
            if len(q.segs) > 1:
                st.mem[o] = mkseq([('B', 'lvls', n), q.segs[-1]])

    def settle(self, eng, st):
        """a value in a local that is the value of the text that is stored next needs no further attention"""
        if st.ghost['m'] in NUMFINAL:
            _, n = self.text()
            if st.facts.decide(c_eq(sub(n, st.ghost['pos']))) is not True:
                return
            self.flush_number(eng, st)
        g = st.ghost
        dead = self.dead(st)
        if not dead and (len(g['q']) < 1 or g['q'][0][0] == ('val',)):
            return
        for k, v in list(st.mem.items()):
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], int) and isinstance(v, Agg) and eng.adt_name(v.ty) == VAL:
                if dead:
                    st.mem[k] = Opq(v.ty, ('pv',))
                elif self.settled(eng, st, v, g['q'][0][0]):
                    st.mem[k] = Opq(v.ty, ('pv',))
                    st.ghost = dict(g, q=((('val',),) + g['q'][0][1:],) + g['q'][1:])
                    return

    def settled(self, eng, st, v, desc):
        old = eng.problem, eng.stats
        eng.stats = dict(eng.stats)

        def no(*a, **k):
            raise Dead()
        eng.problem = no
        try:
            self.same(eng, st, v, desc)
            return True
        except (Dead, Fork, Unsupported):
            return False
        finally:
            eng.problem, eng.stats = old

    def canon(self, eng, st):
        """every stack that is not empty has a stretch below its top block, of length zero at depth one"""
        for o in self.stacks(eng, st):
            q = st.mem[o]
            if len(q.segs) == 1 and q.segs[0][0] == 'e':
                st.mem[o] = SeqV((('B', 'lvls', var(atom(('zero',), 0, 0))),) + q.segs)
            elif q.segs and all(s[0] == 'B' and st.facts.const(s[2]) == 0 for s in q.segs):
                st.mem[o] = EMPTY

    def in_str(self, st):
        return st.ghost['kv'] != '-'

    def suffix(self, eng, st, q, want):
        """number of segments of q that are the current string, or None"""
        k = len(want.segs)
        if not k or len(q.segs) < k:
            return None
        if all(segkey(a) == segkey(b) for a, b in zip(q.segs[-k:], want.segs)):
            return k
        if any(a[0] != b[0] for a, b in zip(q.segs[-k:], want.segs)):
            return None
        return k if eng.seq_eq(st, SeqV(q.segs[-k:]), want) is True else None

    def split_last(self, q):
        """(q without its last byte, that byte), or None"""
        if not q.segs:
            return None
        l = q.segs[-1]
        if l[0] == 'e':
            return SeqV(q.segs[:-1]), SeqV((l,))
        if l[0] == 'S':
            m = sub(l[3], 1)
            return mkseq(list(q.segs[:-1]) + [('S', l[1], l[2], m)]), SeqV((('S', l[1], m, l[3]),))
        return None

    def stored(self, eng, st):
        """the splits of the pending bytes in those that are stored and those that are read but not stored yet"""
        g = st.ghost
        out = [(g['pend'], EMPTY)]
        if g['m'] == 'S':
            s = self.split_last(g['pend'])
            if s is not None:
                out.append(s)
        if out[-1][0].segs:
            out.append((EMPTY, g['pend']))
        return out

    def fold_string(self, eng, st):
        g = st.ghost
        if not self.strings or self.dead(st) or not self.in_str(st) and g['key'] is None and not any(d[0] == 'str' for d, _, _ in g['q']):
            # what the buffer holds no longer matters
            for o, q in list(st.mem.items()):
                if isinstance(q, SeqV) and q.segs and (len(q.segs) > 1 or q.segs[0][:2] != ('B', ('pre',))) and not isinstance(o, tuple) and all(s[0] in 'eSXB' and (s[0] != 'e' or is_int(s[1])) and
                                                                                              s[1] not in ('items', 'members', 'lvls', 'strval') for s in q.segs):
                    st.mem[o] = SeqV((('B', ('pre',), seqlen(q)),))
        if not self.strings or not self.in_str(st):
            return
        for done, rest in self.stored(eng, st):
            old = self.decoded(eng, st, dict(g, pend=done))
            n = add(g['sln'], seqlen(done))
            new = dict(g, sln=n, pend=EMPTY)
            now = self.decoded(eng, st, new)
            new['pend'] = rest
            hit = False
            for o, q in list(st.mem.items()):
                if not isinstance(q, SeqV) or o == self.args[0].obj:
                    continue
                k = self.suffix(eng, st, q, old)
                if k is None:
                    continue
                hit = True
                pre = list(q.segs[:-k])
                if pre and pre != [('B', ('pre',), pre[0][-1])]:
                    pre = [('B', ('pre',), seqlen(SeqV(tuple(pre))))]     # earlier strings, no longer referred to
                st.mem[o] = mkseq(pre + list(now.segs))
            if hit:
                st.ghost = new
                return

    def seq_shape(self, eng, st, q):
        if q.segs and q.segs[0][:2] == ('B', 'lvls'):
            return 'lvls'
        if self.strings and self.in_str(st):
            for done, rest in self.stored(eng, st):
                k = self.suffix(eng, st, q, self.decoded(eng, st, dict(st.ghost, pend=done)))
                if k is not None:
                    return len(q.segs) - k, k, not rest.segs
        if self.strings and q.segs and q.segs[-1][:2] == ('X', 'text'):
            return 'text', len(q.segs)
        return None

    def folded(self, eng, st, e, k):
        v = e.fs[0]
        kind = eng.adt(v.ty)['variants'][v.var]['name']
        vec = self.storage(v)
        d = self.tag(eng, st, vec)
        if d is None or st.facts.decide(c_eq(sub(d, add(k, 1)))) is not True:
            raise Unsupported('a block on the stack is not the container of its depth')
        if kind == 'Object' and st.facts.decide(c_eq(sub(e.fs[1], self.cidx(st, add(k, 1))))) is not True:
            raise Unsupported('index of a block')

    def known_elem(self, eng, st, origin, idx):
        g = st.ghost
        if g['np'] != '-' and g['lb'] != 0 and origin == self.origin(eng, st) and st.facts.decide(c_eq(sub(add(idx, 1), g['pos']))) is True:
            return g['lb']
        return None

    def base_elem(self, eng, st, seg, off):
        if seg[1] == 'lvls':
            raise Unsupported('access below the top of the stack')
        return None

    # ---------------------------------------------------------------- storing values
    def flush_number(self, eng, st):
        """a number at the end of the text is complete"""
        g = st.ghost
        if g['m'] in NUMFINAL:
            _, n = self.text()
            if not eng.holds(st, c_eq(sub(n, g['pos']))):
                self.bad(eng, st, 'grammar', 'a number is taken as complete before a byte that is not part of it has been read')
            new = dict(g)
            self.number_done(eng, st, new)
            st.ghost = new

    def sink(self, eng, st, v, d, kind):
        """the program stores value v in the container of depth d (0: returns it)"""
        if self.dead(st):
            return
        self.flush_number(eng, st)
        g = dict(st.ghost)
        if not g['q']:
            self.bad(eng, st, 'structure', 'a value that is no completed value of the text is stored')
        (desc, td, pidx), rest = g['q'][0], g['q'][1:]
        self.need(eng, st, c_eq(sub(d, td)), 'structure', 'a value is stored in a container of another depth')
        if kind is not None:
            if g['top'] == '?' and eng.holds(st, c_eq(sub(g['D'], d))):
                g['top'] = kind
                if kind == 'A':
                    g['pidx'] = -1
            elif eng.holds(st, c_eq(sub(g['D'], d))) and g['top'] != kind:
                if g['guess'] == 'y':
                    raise Dead()
                self.bad(eng, st, 'structure', 'a value is stored in a container of another kind')
        self.same(eng, st, v, desc)
        g['q'] = rest
        st.ghost = g
        return pidx

    def same(self, eng, st, v, desc):
        s = S(eng, st)
        k = desc[0]
        if isinstance(v, Opq) and v.key == ('pv',):
            if k != 'val':
                self.bad(eng, st, 'structure', 'a value of the text is stored twice')
            return
        if k == 'val':
            raise Unsupported('value of the text')
        name = s.variant(v)
        if k == 'null':
            self.need(eng, st, name == 'Null', 'structure', 'null does not become Null')
        elif k == 'bool':
            self.need(eng, st, name == 'Boolean', 'structure', 'a boolean literal does not become a Boolean')
            b = s.fields(v)[0]
            self.need(eng, st, b if desc[1] else c_not(b), 'structure', 'a boolean literal becomes the other boolean')
        elif k == 'num':
            self.need(eng, st, name == 'Number', 'structure', 'a number does not become a Number')
            if len(desc) == 1:
                return
            cat_, man, exp = s.number(s.fields(v)[0])
            self.need(eng, st, c_eq(sub(cat_, 1 if desc[1] == '+' else 0)), 'number', 'the sign of a number is lost')
            self.need(eng, st, c_eq(sub(man, desc[2])), 'number', 'the digits of a number are not kept')
            self.need(eng, st, c_or(c_eq(desc[2]), c_eq(sub(exp, desc[3]))), 'number', 'the power of ten of a number is wrong')
        elif k == 'str':
            self.need(eng, st, name in ('Short', 'String'), 'structure', 'a string does not become a string value')
            self.text_same(eng, st, s.text(v), desc[1], 'the value of a string is not its decoded text')
        elif k == 'strv':
            self.need(eng, st, name == 'String', 'structure', 'a string does not become a string value')
            q = s.text(v)
            self.need(eng, st, len(q.segs) == 1 and q.segs[0][:2] == ('X', 'strval'), 'string', 'the value of a string is not its decoded text')
        elif k in ('arr0', 'obj0'):
            self.need(eng, st, name == ('Array' if k == 'arr0' else 'Object'), 'structure', 'an empty container becomes another kind of value')
            self.need(eng, st, self.tag(eng, st, self.storage(v)) is None, 'structure', 'an empty container is not empty')
        else:
            self.need(eng, st, name == ('Array' if k == 'arr' else 'Object'), 'structure', 'a container becomes another kind of value')
            d = self.tag(eng, st, self.storage(v))
            self.need(eng, st, d is not None and c_eq(sub(d, desc[1])), 'structure', 'the value of a container is not the container that was filled')

    def text_same(self, eng, st, q, want, msg):
        if not self.strings:
            return
        eng.stats['obligations'] += 1
        if eng.seq_eq(st, q, want) is True:
            eng.stats['discharged'] += 1
            return
        self.bad(eng, st, 'string', msg)

    # ---------------------------------------------------------------- hooks on calls
    def call(self, eng, st, f, vals, t):
        p = models.norm(f['path'])
        if st.ghost['m'] in NUMFINAL:
            _, n = self.text()
            if st.facts.decide(c_eq(sub(n, st.ghost['pos']))) is True:
                self.flush_number(eng, st)
        if f['crate'] == 'json':
            if p.startswith('json::object::Object::'):
                h = getattr(self, 'o_' + p.rsplit('::', 1)[1], None)
                if h is None:
                    raise Unsupported(p)
                return eng.ret_val(st, t, h(eng, st, vals, t))
            if p.endswith('{impl core::convert::From for json::value::JsonValue}::from') and isinstance(vals[0], Ptr) and self.is_str(eng, t[5][0]):
                return eng.ret_val(st, t, self.string_value(eng, st, vals[0]))
            return None
        if vals and isinstance(vals[0], Ptr) and vals[0].obj is not None:
            o = self.stack_behind(eng, st, vals[0])
            if o is not None and o in st.mem and isinstance(st.mem[o], SeqV):
                self.materialise(eng, st, o)
        if p in ('alloc::vec::Vec::push', 'alloc::vec::Vec::push_mut') and len(t[5]) == 2:
            e = self.elem_type(eng, t, 1)
            if e == BLOCK:
                self.push_block(eng, st, vals[0], vals[1])
                return eng.ret_val(st, t, UNIT)
            if e == VAL:
                v, w = models.vec_at(eng, st, vals[0])
                d = self.tag(eng, st, v)
                if self.dead(st):
                    return eng.ret_val(st, t, UNIT)
                if d is None:
                    raise Unsupported('a value is pushed to an array that is not on the stack')
                self.sink(eng, st, vals[1], d, 'A')
                if p.endswith('push_mut'):
                    raise Unsupported('push_mut')
                return eng.ret_val(st, t, UNIT)
        if p.endswith('core::convert::From}::from') or p.endswith('core::convert::Into}::into'):
            pass
        return None

    def stack_behind(self, eng, st, p):
        v = None
        try:
            v = eng.read(st, p.obj, p.path) if not (p.path and p.path[-1][0] == 'el') else None
        except (Unsupported, Dead):
            return None
        if isinstance(v, VecV):
            return v.obj if self.block_seq(eng, st, v.obj) else None
        if p.path and p.path[0][0] == 'el' and len(p.path) == 1 and self.block_seq(eng, st, p.obj):
            return p.obj
        return None

    def string_value(self, eng, st, p):
        vty = eng.prog.find_ty(VAL)
        vs = eng.adt(vty)['variants']
        i = [x['name'] for x in vs].index('String')
        q = models.slice_seq(eng, st, p)
        g = st.ghost
        if not self.dead(st) and g['q'] and g['q'][-1][0][0] == 'str':
            # compared here; from here on it is the value of that string
            (desc, d, pidx) = g['q'][-1]
            self.text_same(eng, st, q, desc[1], 'the value of a string is not its decoded text')
            st.ghost = dict(g, q=g['q'][:-1] + ((('strv',), d, pidx),))
            q = mkseq([('X', 'strval', (), var(atom(('slen', next(eng.ids)), 0, MAXCAP)))])
        o = eng.alloc(st, q)
        n = seqlen(q)
        return Agg(vty, i, (models.wrap_vec(eng, vs[i]['fields'][0][1], VecV(o, n, n)),))

    def push_block(self, eng, st, p, e):
        g = dict(st.ghost)
        if self.dead(st):
            # the shape of the stack is kept
            pass
        vec, w = models.vec_at(eng, st, p)
        v = e.fs[0]
        kind = {'Array': 'A', 'Object': 'O'}.get(S(eng, st).variant(v))
        if kind is None:
            self.bad(eng, st, 'structure', 'something else than a container is put on the stack')
        if not self.dead(st):
            if g['op'] == '-':
                self.bad(eng, st, 'structure', 'a container is put on the stack that the text does not open here')
            self.need(eng, st, kind == g['op'], 'structure', 'a container of another kind than the text opens is put on the stack')
            self.need(eng, st, c_eq(sub(add(vec.len, 1), g['D'])), 'structure', 'the depth of the stack is not the depth of the text')
            self.need(eng, st, c_ge(sub(LIMIT, g['D'])), 'depth', 'a container beyond the depth limit is accepted')
        d = add(vec.len, 1)
        st_ = self.storage(v)
        old = self.tag(eng, st, st_)
        if old is None:
            if kind == 'O' and not self.dead(st) and g['pidx'] != -1:
                raise Unsupported('object without its first member')
            e2 = self.abstract(eng, st, v, kind, d)
        else:
            if st.facts.decide(c_eq(sub(old, d))) is not True:
                self.need(eng, st, self.dead(st), 'structure', 'a container of another depth is put on the stack')
            e2 = v
        # the block below is complete up to its pending member
        q = models.vec_seq(eng, st, vec)
        if q.segs and q.segs[-1][0] == 'e':
            b = q.segs[-1][1]
            if S(eng, st).variant(b.fs[0]) == 'Object':
                if not self.dead(st):
                    self.need(eng, st, c_eq(sub(b.fs[1], g['pidxl'])), 'structure', 'the pending member of an object is not the one of its last key')
                st.mem[vec.obj] = mkseq(list(q.segs[:-1]) + [('e', Agg(b.ty, b.var, (b.fs[0], self.cidx(st, vec.len))))])
        g['op'] = '-'
        if not self.dead(st):
            g['deep'] = '-'
        g['pidxl'] = -1
        st.ghost = g
        # the model of push appends the abstracted block
        models.vec_push(eng, st, None, [p, Agg(e.ty, e.var, (e2, e.fs[1]))], None)
        if not q.segs and (self.dead(st) or not g['q'] and g['key'] is None and st.facts.decide(c_eq(sub(g['D'], 1))) is True):
            # the first container: from here on it may as well be nested in any number of others
            vec, w = models.vec_at(eng, st, p)
            d = var(atom(('lvl', next(eng.ids)), 1, LIMIT))
            e3 = Agg(e.ty, e.var, (self.abstract(eng, st, e2, kind, d), e.fs[1]))
            st.mem[vec.obj] = SeqV((('B', 'lvls', sub(d, 1)), ('e', e3)))
            models.set_vec(eng, st, p, VecV(vec.obj, d, vec.cap), w)
            if not self.dead(st):
                st.ghost = dict(st.ghost, D=d)

    # -- Object by contract
    def new_object(self, eng, st, t):
        return Agg(t[6], 0, (VecV(eng.alloc(st), 0, 0),))

    def o_new(self, eng, st, vals, t):
        return self.new_object(eng, st, t)

    def o_with_capacity(self, eng, st, vals, t):
        return self.new_object(eng, st, t)

    def o_len(self, eng, st, vals, t):
        return var(atom(('olen', next(eng.ids)), 0, MAXCAP))

    def o_insert_index(self, eng, st, vals, t):
        idx = var(atom(('nidx', next(eng.ids)), 0, MAXCAP))
        if self.dead(st):
            return idx
        g = dict(st.ghost)
        if g['key'] is None:
            self.bad(eng, st, 'structure', 'a member is inserted whose key is not in the text')
        self.text_same(eng, st, models.slice_seq(eng, st, vals[1]), g['key'], 'a key is not the decoded text of the key string')
        p = vals[0]
        obj = eng.read(st, p.obj, p.path)
        vec = self.storage(obj)
        d = self.tag(eng, st, vec)
        if d is None:
            if g['op'] != 'O':
                self.bad(eng, st, 'structure', 'a member is inserted in an object that the text does not open')
            eng.write(st, p.obj, p.path, self.abstract(eng, st, obj, 'O', g['D']))
        else:
            self.need(eng, st, c_eq(sub(d, g['D'])), 'structure', 'a member is inserted in an object of another depth')
        g['key'] = None
        g['pidx'] = idx
        st.ghost = g
        return idx

    def o_override_at(self, eng, st, vals, t):
        if self.dead(st):
            return UNIT
        p = vals[0]
        vec = self.storage(eng.read(st, p.obj, p.path))
        d = self.tag(eng, st, vec)
        if d is None:
            self.bad(eng, st, 'structure', 'a member of an empty object is overwritten')
        g = st.ghost
        pidx = self.sink(eng, st, vals[2], d, 'O')
        self.need(eng, st, c_eq(sub(vals[1], pidx)), 'structure', 'a value is not stored under the key that precedes it')
        return UNIT

    # ---------------------------------------------------------------- strings of the text
    def char_boundary(self, eng, st, p, x):
        r = self.known_boundary(eng, st, p, x)
        if r is None and self.kinds is not None and 'panic' not in self.kinds:
            return True     # a cut inside a character panics: C03
        return r

    def known_boundary(self, eng, st, p, x):
        o, n = self.text()
        if p.obj != o:
            return None
        off = x
        for s in p.path:
            off = add(off, s[1])
        g = st.ghost
        # the byte at off is the last one the automaton has seen; it is not a plain byte of a string,
        # so it follows an ASCII byte or is one itself
        if g['m'] == 'dead' and st.facts.decide(c_eq(sub(off, g['dead']))) is True:
            return True
        if g['m'] == 'lone':
            return 'y' in g['asc'] and st.facts.decide(c_eq(sub(add(off, 1), g['pos']))) is True or None
        if st.facts.decide(c_eq(sub(add(off, 1), g['pos']))) is True:
            c = eng.elem_of(st, ('S', self.origin(eng, st), 0, n), off)
            if st.facts.ub(c) < 128:
                return True
        return None

    # ---------------------------------------------------------------- results
    def text_done(self, g):
        return (g['m'] == 'E' or g['m'] in NUMFINAL) and g['top'] == '-'

    def on_finish(self, eng, st, v):
        self.finished += 1
        g = st.ghost
        s = S(eng, st)
        _, n = self.text()
        if s.variant(v) == 'Ok':
            if g['m'] == 'lone':
                self.bad(eng, st, 'grammar', 'a text with an unpaired surrogate escape is accepted')
            if g['m'] == 'dead':
                self.bad(eng, st, 'grammar', 'a text that is not JSON is accepted')
            self.sink(eng, st, s.fields(v)[0], 0, None)
            g = st.ghost
            self.need(eng, st, g['m'] == 'E' and g['top'] == '-', 'grammar', 'an incomplete text is accepted')
            self.need(eng, st, c_eq(sub(n, g['pos'])), 'grammar', 'a text is accepted before its end')
            return
        e = s.fields(v)[0]
        name = s.variant(e)
        if g['m'] == 'lone':
            return
        if name == 'UnexpectedCharacter':
            if g['m'] != 'dead':
                eng.stats['obligations'] += 1
                if eng.holds(st, c_eq(sub(n, g['pos']))) and not self.text_done(g):
                    self.bad(eng, st, 'error', 'an unexpected character is reported although the text ends too early')
                self.bad(eng, st, 'refuse', 'a text is refused although its beginning is the beginning of a JSON text')
            ch = s.named(e, 'ch')
            o = self.origin(eng, st)
            self.need(eng, st, c_eq(sub(ch, char_at(o, g['dead']))), 'error', 'the reported character is not the first that cannot continue the text')
        elif name == 'UnexpectedEndOfJson':
            if g['m'] == 'dead':
                self.bad(eng, st, 'error', 'the end of the text is reported although a character is unexpected')
            self.need(eng, st, c_eq(sub(n, g['pos'])), 'refuse', 'the end of the text is reported before it is reached')
            if self.text_done(g):
                self.bad(eng, st, 'grammar', 'a complete text is refused')
        elif name == 'ExceededDepthLimit':
            if g['m'] == 'dead' and g['deep'] == 'y':
                return      # the byte after the container that exceeds the limit
            if g['op'] != '-' or g['m'] not in NUMFINAL:
                self.need(eng, st, g['op'] != '-', 'depth', 'the depth limit is reported where no container is opened')
                self.need(eng, st, c_eq(sub(g['D'], LIMIT + 1)), 'depth', 'the depth limit is reported before it is reached')
            else:
                if not self.numbers:
                    return
                self.need(eng, st, c_ge(sub(g['E'], 32767)), 'number', 'the depth limit is reported for a number that can be represented')
        else:
            self.bad(eng, st, 'error', 'a text is refused with %s' % name)



class Others:
    """every kind of problem but these"""

    def __init__(self, *kinds):
        self.kinds = kinds

    def __contains__(self, k):
        return k not in self.kinds


SPEC = ('grammar', 'refuse', 'error', 'string', 'depth', 'number', 'structure')


class Structure(ParseCheck):
    ladder = (512, 32768, (1 << 31) - 1, (1 << 63) - 1, (1 << 64) - 1)

    def __init__(self, kinds=None):
        ParseCheck.__init__(self, kinds, strings=False, numbers=False)


class Numbers(ParseCheck):
    def __init__(self, kinds=None):
        ParseCheck.__init__(self, kinds, strings=False)


class Strings(ParseCheck):
    """what strings denote, in documents of one class"""
    flat = True
    budget = 2000000

    def __init__(self, kinds=None, docs='s'):
        ParseCheck.__init__(self, kinds, strings=True, numbers=False)
        self.docs = docs
