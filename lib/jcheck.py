"""Domain knowledge about the crate shared by the checks."""
import os
import time
import traceback

import terms as T
from terms import (Lin, add, sub, neg, scale, var, atom, c_ge, c_eq, c_not, c_or, c_and, INF)
from vals import *
from engine import Engine, Check, Dead, Fork, Unsupported, Budget
import models

NUM = 'json::number::Number'
VAL = 'json::value::JsonValue'
SHORT = 'json::short::Short'
OBJ = 'json::object::Object'
MAXCAP = (1 << 63) - 1


class Timeout(BaseException):
    """the time limit of a task; what was found before counts"""


class JsonCheck(Check):
    """entry points are analysed for arbitrary well formed arguments"""

    def function(self, prog, name):
        return prog.root(name)

    def prepare(self, eng, st):
        """what is assumed at entry"""
    merge = False
    drops = False
    budget = 40000

    def __init__(self):
        self.roots_done = []

    def opaque(self, eng, ty, t, key):
        k = t['k']
        name = k[2]
        if name == SHORT:
            # a Short holds up to 30 initialised bytes (property: Short length bound)
            fs = []
            for n, fty in k[5][0]['fields']:
                fk = eng.prog.tys[fty]['k']
                if fk[0] == 'int':
                    fs.append(var(atom(('slen', key), 0, self.short_max(eng, ty))))
                else:
                    fs.append(eng.mkopq(fty, key + (n,)))
            return Agg(ty, 0, tuple(fs))
        if name in ('core::slice::iter::Iter', 'core::slice::iter::IterMut'):
            ety = [a for a in k[3] if isinstance(a, int) and a in eng.prog.tys][-1]
            o = ('sym', key)
            lo = var(atom(('ilo', key), 0, MAXCAP))
            n = var(atom(('ilen', key), 0, MAXCAP))
            rest = var(atom(('irest', key), 0, MAXCAP))
            eng.symty[o] = ('seq', ety, key, add(add(lo, n), rest))
            fs = []
            i = 0
            for nm, fty in k[5][0]['fields']:
                if eng.prog.tys[fty].get('size', 0):
                    p = Ptr(o, (('el', lo if i == 0 else add(lo, n)),))
                    fs.append(eng.into_newtype(fty, p))
                    i += 1
                else:
                    fs.append(Agg(fty, 0, ()))
            return Agg(ty, 0, tuple(fs))
        return None

    def short_max(self, eng, ty):
        for n, fty in eng.adt(ty)['variants'][0]['fields']:
            fk = eng.prog.tys[fty]['k']
            if fk[0] == 'array':
                return fk[2]
        raise Unsupported('layout of Short')


# ------------------------------------------------------------------ reading values in specifications
class S:
    """specification helper bound to a final state"""

    def __init__(self, eng, st):
        self.eng = eng
        self.st = st

    def H(self, c):
        return self.eng.holds(self.st, c)

    def variant(self, v):
        i = self.eng.variant_of(self.st, v)
        return self.eng.adt(v.ty)['variants'][i]['name']

    def agg(self, v):
        if isinstance(v, Opq):
            return self.eng.expand(self.st, v)
        return v

    def fields(self, v):
        return self.agg(v).fs

    def named(self, v, name):
        """field of a struct by name"""
        v = self.agg(v)
        for (n, _), f in zip(self.eng.adt(v.ty)['variants'][v.var]['fields'], v.fs):
            if n == name:
                return f
        raise Unsupported('field %s' % name)

    def deref(self, p):
        return self.eng.read(self.st, p.obj, p.path)

    def fail(self, msg, where=None):
        self.eng.problem(self.st, 'spec', msg, where)

    def require(self, c, msg, where=None):
        self.eng.stats['obligations'] += 1
        if c is True or c is not False and self.st.facts.decide(c) is True:
            self.eng.stats['discharged'] += 1
            return
        if c is not False and self.st.facts.decide(c) is None:
            alts = self.st.facts.assume(c_not(c))
            if not alts:
                return
        self.fail(msg, where)

    def ok(self):
        self.eng.stats['obligations'] += 1
        self.eng.stats['discharged'] += 1

    def same_bool(self, got, want, msg, where=None):
        if not is_cond(got):
            raise Unsupported('boolean result')
        self.H(want)
        self.require(got if self.H(want) else c_not(got), msg, where)

    def seq_same(self, a, b, msg, where=None):
        r = self.eng.seq_eq(self.st, a, b)
        self.eng.stats['obligations'] += 1
        if r is True:
            self.eng.stats['discharged'] += 1
            return
        self.fail(msg, where)

    # -- crate values
    def text(self, v):
        """bytes of a string-like value: JsonValue string, Short, String, &str"""
        if isinstance(v, Ptr):
            if v.meta is not None:
                return models.slice_seq(self.eng, self.st, v)
            return self.text(self.deref(v))
        if isinstance(v, VecV):
            return models.vec_seq(self.eng, self.st, v)
        n = self.eng.adt_name(v.ty)
        if n == VAL:
            return self.text(self.fields(v)[0])
        if n == SHORT:
            ln = val = None
            v = self.agg(v)
            for f in v.fs:
                if isinstance(f, SeqV):
                    val = f
                else:
                    ln = f
            return self.eng.seq_slice(self.st, val, 0, ln)
        v = self.agg(v)
        if len(v.fs) == 1:
            return self.text(v.fs[0])
        raise Unsupported('text of %r' % (v,))

    def number(self, v):
        """(category, mantissa, exponent)"""
        if isinstance(v, Ptr):
            v = self.deref(v)
        return self.named(v, 'category'), self.named(v, 'mantissa'), self.named(v, 'exponent')

    def num_nan(self, n):
        return c_ge(sub(n[0], 2))

    def pow10(self, d, top=25):
        """10**d for a forked constant 0 <= d < top, None when larger"""
        c = self.st.facts.const(d)
        if c is not None:
            return 10 ** c if c < top else None
        if self.H(c_ge(sub(d, top))):
            return None
        lo = int(self.st.facts.lb(d))
        hi = int(self.st.facts.ub(d))
        for k in range(max(lo, 0), hi):
            if self.H(c_eq(sub(d, k))):
                return 10 ** k
        return 10 ** hi

    def num_equal(self, a, b):
        """mathematical equality of two numbers (forks)"""
        na, nb = self.H(self.num_nan(a)), self.H(self.num_nan(b))
        if na or nb:
            return na and nb
        za, zb = self.H(c_eq(a[1])), self.H(c_eq(b[1]))
        if za or zb:
            return za and zb
        if not self.H(c_eq(sub(a[0], b[0]))):
            return False
        d = sub(a[2], b[2])
        if not self.H(c_ge(d)):
            a, b = b, a
            d = neg(d)
        p = self.pow10(d)
        if p is None:
            return False
        return c_eq(sub(scale_t(a[1], p), b[1]))


def scale_t(t, k):
    return t * k if isinstance(t, int) else scale(t, k)


# ------------------------------------------------------------------ running roots
class RootResult:
    pass


def run_root(prog, name, check, args=None, init=None, ghost=None):
    T.reset()
    f = check.function(prog, name)
    eng = Engine(prog, check, budget=check.budget)
    eng.merge = check.merge
    eng.drops = check.drops
    check.root = name
    if args is None:
        args = [eng.mkopq(f['locals'][i + 1], ('arg', i)) for i in range(f['argc'])]
    else:
        args = args(eng, f)
    check.args = args
    if ghost is None and hasattr(check, 'ghost0'):
        ghost = check.ghost0()
    st = eng.start(f, args, ghost, init)
    check.prepare(eng, st)
    r = RootResult()
    r.name = name
    r.eng = eng
    r.reason = None
    t = time.time()
    try:
        eng.run([st])
    except Budget:
        r.reason = 'state budget exhausted'
    except Unsupported as e:
        r.reason = 'construct outside of the abstract domain: %s' % e
        r.where = getattr(e, 'where', None)
    except Timeout:
        r.reason = 'time limit'
    except RecursionError:
        r.reason = 'recursion limit'
    except (AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
        r.reason = 'internal: %s %s' % (type(e).__name__, e)
        if os.environ.get('JV_DEBUG'):
            traceback.print_exc()
    r.wall = time.time() - t
    return r
