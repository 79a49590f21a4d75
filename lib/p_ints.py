"""integer conversions and exact number arithmetic"""
from jcheck import *

INTS = {'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'u64': (64, False), 'usize': (64, False),
        'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True), 'isize': (64, True)}


class Spec(JsonCheck):
    def __init__(self, fn):
        JsonCheck.__init__(self)
        self.fn = fn
        self.finished = 0

    def on_finish(self, eng, st, v):
        self.fn(S(eng, st), self.args, v)
        self.finished += 1


def int_number(s, x):
    """the Number standing for integer x"""
    if s.H(c_ge(x)):
        return 1, x, 0
    return 0, neg(x), 0


def number_is(s, n, x, msg):
    c, m, e = s.number(n)
    wc, wm, we = int_number(s, x)
    s.require(c_eq(sub(c, wc)), msg + ': wrong sign')
    s.require(c_eq(sub(m, wm)), msg + ': wrong magnitude')
    s.require(c_eq(e), msg + ': exponent is not zero')


def try_spec(s, n, t, res, msg, opt=False):
    """res: Result<T,_> or Option<T>"""
    bits, signed = INTS[t]
    lo, hi = T.ty_range(bits, signed)
    c, m, e = n
    k = s.variant(res)
    good = k in ('Ok', 'Some')
    nan = s.H(s.num_nan(n))
    if nan:
        if good:
            s.fail(msg + ': NaN is converted to an integer')
        s.ok()
        return
    zero = s.H(c_eq(m))
    pos = s.H(c_eq(sub(c, 1)))
    val = m if pos else neg(m)
    if not s.H(c_eq(e)):
        if good:
            s.fail(msg + ': a number with a non zero exponent is converted')
        s.ok()
        return
    fits = s.H(c_and(c_ge(sub(val, lo)), c_ge(sub(hi, val))))
    if good:
        if not fits:
            s.fail(msg + ': an out of range number is converted')
        s.require(c_eq(sub(s.fields(res)[0], val)), msg + ': the converted value differs')
    elif fits and not (zero and not pos):
        s.fail(msg + ': a representable number is refused')
    else:
        s.ok()


def fixed_spec(s, n, p, res, msg, signed):
    c, m, e = n
    some = s.variant(res) == 'Some'
    got = s.fields(res)[0] if some else None
    if s.H(s.num_nan(n)):
        s.require(not some, msg + ': NaN has a fixed point value')
        return
    pos = s.H(c_eq(sub(c, 1)))
    if not pos and not signed:
        s.require(not some, msg + ': a negative number has an unsigned fixed point value')
        return
    lo, hi = T.ty_range(64, signed)
    d = add(e, p)
    if s.H(c_ge(d)):
        k = s.pow10(d)
        if k is None:
            if s.H(c_eq(m)):
                s.require(not some or c_eq(got), msg + ': zero does not stay zero')
            else:
                s.require(not some, msg + ': a value out of range is returned')
            return
        mag = scale_t(m, k)
    else:
        k = s.pow10(neg(d))
        if k is None:
            mag = 0
        else:
            mag = s.eng.divrem(s.st, m, k)[0]
    v = mag if pos else neg(mag)
    fits = s.H(c_and(c_ge(sub(v, lo)), c_ge(sub(hi, v))))
    if signed and fits and s.H(c_ge(sub(mag, 1 << 64))):
        fits = None
    if some:
        if fits is False:
            s.fail(msg + ': a value out of range is returned')
        s.require(c_eq(sub(got, v)), msg + ': the scaled value differs')
    else:
        s.require(not fits, msg + ': a representable value is refused')


def val_number(s, v):
    """the Number inside of a JsonValue reference or None"""
    x = s.deref(v) if isinstance(v, Ptr) else v
    if isinstance(x, Ptr):
        x = s.deref(x)
    if s.variant(x) != 'Number':
        return None
    return s.number(s.fields(x)[0])


def specs_conversions():
    out = {}
    for t in INTS:
        out['from_' + t] = lambda s, a, v, t=t: number_is(s, v, a[0], 'Number::from(%s)' % t)

        def vf(s, a, v, t=t):
            if s.variant(v) != 'Number':
                s.fail('JsonValue::from(%s): not a number' % t)
            number_is(s, s.fields(v)[0], a[0], 'JsonValue::from(%s)' % t)
        out['v_from_' + t] = vf
        out['try_' + t] = lambda s, a, v, t=t: try_spec(s, s.number(a[0]), t, v, '%s::try_from(Number)' % t)

        def asx(s, a, v, t=t):
            n = val_number(s, a[0])
            if n is None:
                s.require(s.variant(v) == 'None', 'as_%s: a value that is not a number is converted' % t)
                return
            try_spec(s, n, t, v, 'as_' + t)
        out['as_' + t] = asx
    return out


def specs_fixed():
    out = {}
    for nm, signed in (('u64', False), ('i64', True)):
        out['number_fixed_' + nm] = lambda s, a, v, nm=nm, signed=signed: fixed_spec(
            s, s.number(a[0]), a[1], v, 'Number::as_fixed_point_' + nm, signed)

        def f(s, a, v, nm=nm, signed=signed):
            n = val_number(s, a[0])
            if n is None:
                s.require(s.variant(v) == 'None', 'as_fixed_point_%s: not a number' % nm)
                return
            fixed_spec(s, n, a[1], v, 'JsonValue::as_fixed_point_' + nm, signed)
        out['as_fixed_point_' + nm] = f
    return out


def specs_numeq():
    out = {}
    out['number_eq'] = lambda s, a, v: s.same_bool(v, s.num_equal(s.number(a[0]), s.number(a[1])), 'Number == Number is not equality of the numbers')
    for t in INTS:
        for r, i, j in (('eq_' + t, 0, 1), (t + '_eq', 1, 0)):
            def f(s, a, v, i=i, j=j, t=t):
                s.same_bool(v, s.num_equal(s.number(a[i]), int_number(s, s.deref(a[j]))), 'comparison of a Number with %s is not equality of the numbers' % t)
            out[r] = f
        for r, i, j in (('v_eq_' + t, 0, 1), (t + '_eq_v', 1, 0), ('vr_eq_' + t, 0, 1)):
            def g(s, a, v, i=i, j=j, t=t):
                n = val_number(s, a[i])
                x = s.deref(a[j])
                s.same_bool(v, n is not None and s.num_equal(n, int_number(s, x)), 'comparison of a JsonValue with %s is not equality of the numbers' % t)
            out[r] = g

    def parts(s, a, v):
        c, m, e = s.number(a[0])
        p, gm, ge = s.fields(v)
        s.same_bool(p, c_eq(sub(c, 1)), 'as_parts: wrong sign')
        s.require(c_eq(sub(m, gm)), 'as_parts: wrong mantissa')
        s.require(c_eq(sub(e, ge)), 'as_parts: wrong exponent')
    out['number_as_parts'] = parts

    def unchecked(s, a, v):
        c, m, e = s.number(v)
        s.require(c_eq(sub(c, 1 if s.H(a[0]) else 0)), 'from_parts_unchecked: wrong sign')
        s.require(c_eq(sub(m, a[1])), 'from_parts_unchecked: wrong mantissa')
        s.require(c_eq(sub(e, a[2])), 'from_parts_unchecked: wrong exponent')
    out['number_from_parts_unchecked'] = unchecked

    def negate(s, a, v):
        n, r = s.number(a[0]), s.number(v)
        if s.H(s.num_nan(n)):
            s.require(s.num_nan(r), 'negating NaN gives a number')
            return
        s.require(c_eq(sub(add(n[0], r[0]), 1)), 'negation keeps the sign')
        s.require(c_eq(sub(n[1], r[1])), 'negation changes the mantissa')
        s.require(c_eq(sub(n[2], r[2])), 'negation changes the exponent')
    out['number_neg'] = negate
    out['number_is_nan'] = lambda s, a, v: s.same_bool(v, s.num_nan(s.number(a[0])), 'is_nan')
    out['number_is_sign_positive'] = lambda s, a, v: s.same_bool(v, c_eq(sub(s.number(a[0])[0], 1)), 'is_sign_positive')
    out['number_is_zero'] = lambda s, a, v: s.same_bool(v, c_and(c_eq(s.number(a[0])[1]), c_not(s.num_nan(s.number(a[0])))), 'is_zero')
    out['number_is_empty'] = lambda s, a, v: s.same_bool(v, c_or(c_eq(s.number(a[0])[1]), s.num_nan(s.number(a[0]))), 'is_empty')
    return out
