"""Printing of decimal numbers.

A number with an arbitrary mantissa is written for one exponent (or one class of
exponents) at a time.  Loops are unrolled: the mantissa loses digits in every
round, so its interval bounds their number.  Division by a constant introduces
the quotient as an unknown and the remainder as a linear term, a table of digits
becomes a linear term in its index, so the digits on a path add up to a linear
term that must be the mantissa, for all mantissas on that path at once.
"""
from jcheck import *
import models

WHERE = 'json::util::print_dec'
NEAR = 24           # exponents that are looked at one by one: -NEAR .. NEAR


def classes():
    return ['below'] + list(range(-NEAR, NEAR + 1)) + ['above']


class Dec(JsonCheck):
    unroll = True
    tables = True
    budget = 400000

    def __init__(self, cls, writer):
        JsonCheck.__init__(self)
        self.cls = cls
        self.writer = writer
        self.finished = 0

    def ghost0(self):
        return {'out': SeqV(()), 'fail': '-'}

    def prepare(self, eng, st):
        self.args = list(self.args)
        e = self.args[2]
        if self.cls == 'below':
            c = c_ge(sub(-NEAR - 1, e))
        elif self.cls == 'above':
            c = c_ge(sub(e, NEAR + 1))
        else:
            self.args[2] = self.cls
            for o, v in list(st.mem.items()):
                if v == e:
                    st.mem[o] = self.cls
            return
        st.facts = st.facts.assume(c)[0]

    # ---------------------------------------------------------------- tables of digits
    def table_term(self, eng, st, table, idx):
        lo, hi = int(st.facts.lb(idx)), int(st.facts.ub(idx))
        rng = range(lo, hi + 1)
        if all(table[i] == 48 + i for i in rng):
            return add(48, idx)
        if isinstance(idx, int):
            return table[idx]
        odd = idx.c % 2
        if all(k % 2 == 0 for _, k in idx.t):
            half = mk(idx.c // 2, {a: k // 2 for a, k in idx.t})
            if all(table[i] == (48 + i // 2 % 10 if odd else 48 + i // 20) for i in rng if i % 2 == odd and i < 200):
                q, r = eng.divrem(st, half, 10)
                return add(48, r if odd else q)
        return None

    # ---------------------------------------------------------------- the sink
    def take(self, eng, st, q):
        if st.ghost['fail'] == 'y':
            eng.problem(st, 'error', 'something is written after the writer failed', WHERE)
        st.ghost = dict(st.ghost, out=mkseq(list(st.ghost['out'].segs) + list(q.segs)))

    def call(self, eng, st, f, vals, t):
        path = models.norm(f['path'])
        if path == 'harness::opaque_write_all':
            self.take(eng, st, models.slice_seq(eng, st, vals[1]))
            a = st.copy()
            a.ghost = dict(a.ghost, fail='y')
            ety = eng.variant_fields(t[6], 1)[0]
            return eng.ret_val(st, t, Agg(t[6], 0, (UNIT,))) + eng.ret_val(a, t, Agg(t[6], 1, (Opq(ety, ('ioerr',)),)))
        if path in ('harness::opaque_write', 'harness::opaque_flush'):
            raise Unsupported('a number is written in part')
        return None

    # ---------------------------------------------------------------- what was written
    def flat(self, eng, st, q):
        out = []
        for s in q.segs:
            n = seglen(s)
            if not isinstance(n, int):
                n = st.facts.const(n)
            if n is None:
                raise Unsupported('length of what was written')
            for i in range(n):
                out.append(eng.elem_of(st, s, i))
        return out

    def need(self, eng, st, c, kind, msg):
        eng.stats['obligations'] += 1
        if c is True or c is not False and (st.facts.decide(c) is True or all(f.absurd() for f in st.facts.assume(c_not(c)))):
            eng.stats['discharged'] += 1
            return
        eng.problem(st, kind, msg, WHERE)

    def digit(self, eng, st, b):
        """the digit a byte stands for, None when it is none"""
        if isinstance(b, int):
            return b - 48 if 48 <= b <= 57 else None
        if not isinstance(b, Lin):
            raise Unsupported('a byte of a number')
        c = st.facts.const(b)
        if c is not None:
            return c - 48 if 48 <= c <= 57 else None
        lo, hi = st.facts.lb(b), st.facts.ub(b)
        if 48 <= lo and hi <= 57:
            return sub(b, 48)
        self.need(eng, st, c_and(c_ge(sub(b, 48)), c_ge(sub(57, b))), 'number', 'a byte that is no digit is written')
        return sub(b, 48)

    def on_finish(self, eng, st, v):
        self.finished += 1
        s = S(eng, st)
        if self.writer:
            ok = s.variant(v) == 'Ok'
            if st.ghost['fail'] == 'y':
                if ok:
                    eng.problem(st, 'error', 'success is reported although the writer failed', WHERE)
                e = s.fields(v)[0]
                self.need(eng, st, isinstance(e, Opq) and e.key == ('ioerr',), 'error', 'an error other than the one of the writer is reported')
                return
            if not ok:
                eng.problem(st, 'error', 'a failure is reported although the writer did not fail', WHERE)
            q = st.ghost['out']
        else:
            q = s.text(v)
        pos, m, e = self.args[:3]
        bs = self.flat(eng, st, q)
        i = 0
        n = len(bs)

        def char(i, *cs):
            return i < n and isinstance(bs[i], int) and bs[i] in [ord(c) for c in cs]

        minus = char(0, '-')
        i = 1 if minus else 0
        self.need(eng, st, self.truth(pos, not minus), 'number', 'the sign differs from that of the number')
        val, frac, k, first = 0, 0, 0, i
        while i < n and self.is_digit(eng, st, bs[i]):
            val = add(scale(val, 10) if isinstance(val, Lin) else val * 10, self.digit(eng, st, bs[i]))
            i += 1
            k += 1
        self.need(eng, st, k > 0, 'grammar', 'a number without an integer part is written')
        if k > 1:
            self.need(eng, st, c_ge(sub(self.digit(eng, st, bs[first]), 1)), 'grammar', 'a number with a leading zero is written')
        if char(i, '.'):
            i += 1
            while i < n and self.is_digit(eng, st, bs[i]):
                val = add(scale(val, 10) if isinstance(val, Lin) else val * 10, self.digit(eng, st, bs[i]))
                i += 1
                frac += 1
            self.need(eng, st, frac > 0, 'grammar', 'a number without digits after the point is written')
        exp = 0
        if char(i, 'e', 'E'):
            i += 1
            sign = 1
            if char(i, '+', '-'):
                sign = -1 if char(i, '-') else 1
                i += 1
            k = 0
            while i < n and self.is_digit(eng, st, bs[i]):
                exp = add(scale(exp, 10) if isinstance(exp, Lin) else exp * 10, self.digit(eng, st, bs[i]))
                i += 1
                k += 1
            self.need(eng, st, k > 0, 'grammar', 'an exponent without digits is written')
            exp = neg(exp) if sign < 0 else exp
        self.need(eng, st, i == n, 'grammar', 'a byte is written that the grammar of numbers does not allow there')
        if st.facts.decide(c_eq(m)) is True:
            return self.need(eng, st, c_eq(val), 'number', 'zero is written as another number')
        self.need(eng, st, c_ge(sub(m, 1)), 'number', 'a number that may be zero is written like one that is not')
        d = sub(e, sub(exp, frac))
        d = d if isinstance(d, int) else st.facts.const(d)
        if d is None:
            return self.need(eng, st, False, 'number', 'the power of ten that is written differs from that of the number')
        if abs(d) > 40:
            return self.need(eng, st, False, 'number', 'the power of ten that is written differs from that of the number')
        a, b = val, m
        if d > 0:
            b = scale(m, 10 ** d)
        elif d < 0:
            a = scale(val, 10 ** -d) if isinstance(val, Lin) else val * 10 ** -d
        self.need(eng, st, c_eq(sub(a, b)), 'number', 'the digits that are written are not those of the number')

    def truth(self, b, want):
        if isinstance(b, bool):
            return b == want
        if isinstance(b, (int, Lin)):
            return c_eq(sub(b, 1 if want else 0))
        return b if want else c_not(b)

    def is_digit(self, eng, st, b):
        return self.digit(eng, st, b) is not None
