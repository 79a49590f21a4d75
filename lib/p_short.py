"""Short strings: the inline buffer is never exceeded and the text is kept."""
from jcheck import *
from p_table import Table, T_
from run import Task
import models


def short_parts(s, x):
    """(stored length, buffer) of a Short"""
    ln = val = None
    for f in s.fields(x):
        if isinstance(f, SeqV):
            val = f
        elif not isinstance(f, (Agg, VecV, Ptr)):
            ln = f
    if ln is None or val is None:
        raise Unsupported('layout of Short')
    return ln, val


def fits(s, x, what):
    ln, val = short_parts(s, x)
    cap = s.eng.check.short_max(s.eng, x.ty)
    s.require(c_ge(sub(cap, ln)), what + ': the stored length exceeds the buffer')


def keeps(s, x, text, what):
    """x: JsonValue or Short built from the text"""
    if s.eng.adt_name(x.ty) == VAL:
        if not s.is_text(x):
            s.fail(what + ': not a string')
        inner = s.fields(x)[0]
        if s.variant(x) == 'Short':
            fits(s, inner, what)
    else:
        fits(s, x, what)
    s.seq_same(s.text(x), text, what + ': the text differs')


def from_str(s, a, v):
    keeps(s, v, models.content_of(s.eng, s.st, a[0]), 'from a text')


def from_string(s, a, v):
    keeps(s, v, s.text(a[0]), 'from a String')


def reads(s, a, v):
    s.seq_same(models.content_of(s.eng, s.st, v), s.text(s.at(a[0])), 'the text read from a Short differs')


def owned(s, a, v):
    s.seq_same(s.text(v), s.text(a[0]), 'the String made from a Short differs')


def cloned(s, a, v):
    x = s.at(a[0])
    if s.variant(x) == 'Short':
        if s.variant(v) != 'Short':
            s.fail('clone: not a Short')
        fits(s, s.fields(v)[0], 'clone')
        s.seq_same(s.text(v), s.text(x), 'clone: the text differs')


def taken(s, a, v):
    x = s.orig(0)
    if s.variant(x) != 'Short':
        return
    if s.variant(v) != 'Some':
        s.fail('take_string: the text is not returned')
    s.seq_same(s.text(s.fields(v)[0]), s.text(x), 'take_string: the text differs')


def viewed(s, a, v):
    x = s.at(a[0])
    if s.variant(x) != 'Short':
        return
    if s.variant(v) != 'Some':
        s.fail('as_str: the text is not returned')
    s.seq_same(models.content_of(s.eng, s.st, s.fields(v)[0]), s.text(x), 'as_str: the text differs')


def emptied(s, a, v):
    x = s.now(0)
    o = s.orig(0)
    if s.variant(o) != 'Short':
        return
    if not s.is_text(x):
        s.fail('clear: not a string any more')
    if s.variant(x) == 'Short':
        fits(s, s.fields(x)[0], 'clear')


class FromSlice(Table):
    """Short::from_slice is unsafe: callers pass at most as many bytes as fit"""

    def prepare(self, eng, st):
        ty = eng.prog.find_ty(SHORT)
        n = seqlen(models.content_of(eng, st, self.args[0]))
        st.facts = st.facts.assume(c_ge(sub(self.short_max(eng, ty), n)))[0]


def specs():
    out = dict(v_from_str=from_str, v_from_string=from_string, short_as_str=reads, short_deref=reads,
               short_into_string=owned, value_clone=cloned, take_string=taken, as_str=viewed, clear=emptied)
    return {k: T_(f) for k, f in out.items()}


def tasks(prog):
    out = [Task(root, lambda fn=fn: Table(fn)) for root, fn in specs().items()]
    return out + [Task('short_from_slice', lambda: FromSlice(T_(from_str)))]
