# -*- coding: utf-8 -*-
"""Abstract inputs shared by the contracts (stubs of objects whose own methods have contracts elsewhere)."""
import importlib
import z3
from engine import transform
transform.install()
from engine.core import *          # noqa
from engine.core import S
from engine import runtime as rt, contracts
from engine.runtime import *       # noqa
from engine.proofapi import *      # noqa
from engine.proofapi import proof, V, zb, implies


def mod(name):
    return importlib.import_module(name)


def real_tag_class():
    """The code's OpencorporaTag, with an unconstrained set of known grammemes."""
    return mod('pymorphy2.tagset').OpencorporaTag


def sym_tag(v, name='tag', cls=None):
    """A tag object of the code's class holding an arbitrary set of grammemes."""
    cls = cls or real_tag_class()
    t = object.__new__(cls)
    t._str = SStr(z3.String(name + '_str'))
    gs = v.set(name + '_grammemes')
    t._grammemes_cache = gs
    t._cyr = None
    t._cyr_grammemes_cache = None
    return t, gs


def has(gs, g):
    return z3.IsMember(str_val(g), gs.e if isinstance(gs, Sym) else gs)


class SSeq(RTuple):
    """An arbitrary non-empty tuple of strings; order and hash are those of tuples (uninterpreted)."""
    _lt = z3.Function('seq_lt', Obj, Obj, BoolS)

    def __init__(self, v, name, minlen=1):
        self.e = z3.Const(name, Obj)
        self.n = z3.Function('seq_len', Obj, IntS)(self.e)
        S.assume(self.n >= minlen)
        f = z3.Function('seq_item', Obj, IntS, StrS)
        i = S.fresh_binder('i_' + name, IntS, name)
        self.at = lambda k: SStr(f(self.e, z3.IntVal(k) if isinstance(k, int) else k))
        RTuple.__init__(self, segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < self.n))], SStr(f(self.e, i)))], (i, self.n))])

    @staticmethod
    def lt(a, b):
        return SSeq._lt(a.e, b.e)

    @staticmethod
    def total(a, b):
        l, g, e = SSeq.lt(a, b), SSeq.lt(b, a), a.e == b.e
        return z3.And(z3.Or(l, g, e), z3.Not(z3.And(l, g)), z3.Not(z3.And(l, e)), z3.Not(z3.And(g, e)))

    def _eq(self, o):
        return self.e == o.e if isinstance(o, SSeq) else RTuple._eq(self, o)

    def __lt__(self, o): return SBool(SSeq.lt(self, o))
    def __gt__(self, o): return SBool(SSeq.lt(o, self))
    def __le__(self, o): return SBool(z3.Or(SSeq.lt(self, o), self.e == o.e))
    def __ge__(self, o): return SBool(z3.Or(SSeq.lt(o, self), self.e == o.e))

    def _hash_(self):
        return SInt(z3.Function('seq_hash', Obj, IntS)(self.e))

    def __hash__(self):
        return id(self)


def tag_class(v, **attrs):
    """A fresh subclass of the code's class with its own (symbolic) set of known grammemes."""
    known = v.set('known')
    S.assume(known.e != z3.EmptySet(StrS))       # initialised
    cls = type(str('Tag'), (real_tag_class(),), dict(KNOWN_GRAMMEMES=known, **attrs))
    return cls, known


def seq_tag(v, cls, name):
    """A tag with an arbitrary non-empty sequence of known grammemes."""
    t = object.__new__(cls)
    seq = SSeq(v, name)
    t._grammemes_tuple = seq
    t._str = SStr(z3.String(name + '_str'))
    t._POS = seq.at(0)
    t._grammemes_cache = None
    t._cyr = None
    t._cyr_grammemes_cache = None
    shared(t)
    return t, seq


# ---------------------------------------------------------------------- abstract tags

U_gram = z3.Function('tag_grammemes', Obj, SetS)
U_prod = z3.Function('tag_is_productive', Obj, BoolS)
U_unkn = z3.Function('tag_is_unknown', Obj, BoolS)
U_tagstr = z3.Function('tag_str', Obj, StrS)


class STag(SObj):
    """A tag with the contracts of OpencorporaTag: grammemes, is_productive, _is_unknown, membership."""
    @property
    def grammemes(self):
        return SSet(U_gram(self.e))

    def is_productive(self):
        return SBool(U_prod(self.e))

    def _is_unknown(self):
        return SBool(U_unkn(self.e))

    def _contains(self, x):
        if isinstance(x, (str, SStr)):
            return self.grammemes.member(x)
        return zbool(SSet(zset(x)) <= self.grammemes) if concrete_strs(x) is None else zbool(self.grammemes >= x)

    def _str_(self):
        return SStr(U_tagstr(self.e))


# ---------------------------------------------------------------------- abstract method stacks

U_haspara = z3.Function('stack_has_paradigm', Obj, BoolS)
U_para = z3.Function('stack_paradigm', Obj, IntS)


class SMethod(SObj):
    """First method of an abstract stack: only its paradigm number matters."""

    def __getitem__(self, k):
        if k == 2:
            if S.fork(U_haspara(self.e)):
                return SInt(U_para(self.e))
            raise IndexError('tuple index out of range')
        raise Unsupported('item %r of an abstract method' % (k,))


class Stack(object):
    """base (an abstract methods stack) followed by known methods."""
    _symbolic = True

    def __init__(self, base, extra=()):
        self.base = base            # z3 term of sort Obj
        self.extra = tuple(extra)

    def __add__(self, o):
        return Stack(self.base, self.extra + tuple(o))

    def __getitem__(self, k):
        if k == 0:
            return SMethod(self.base)
        if k == -1:
            return self.extra[-1] if self.extra else BaseMethod(self.base)
        if isinstance(k, slice) and k == slice(None, -1, None) and self.extra:
            return Stack(self.base, self.extra[:-1])
        if isinstance(k, slice) and k == slice(-2, None, None) and len(self.extra) == 1:
            return (BaseMethod(self.base), self.extra[0])
        raise Unsupported('item %r of an abstract stack' % (k,))

    def _subst(self, pairs):
        return Stack(z3.substitute(self.base, *pairs), subst(self.extra, pairs))

    def _eq(self, o):
        if isinstance(o, Stack) and len(o.extra) == len(self.extra):
            return zand(self.base == o.base, *[zb(eq(a, b)) for a, b in zip(self.extra, o.extra)])
        return False

    def _truth(self):
        return z3.BoolVal(True)


class BaseMethod(object):
    """Last method of an abstract stack: [0] is the analyzer unit that can inflect the form."""
    def __init__(self, base):
        self.base = base

    def __getitem__(self, k):
        if k == 0:
            return BaseUnit(self.base)
        raise Unsupported('item %r of an abstract method' % (k,))


class BaseUnit(object):
    """The unit that produced the remainder's analysis; get_lexeme/normalized recorded by ``hook``."""
    hook = None

    def __init__(self, base):
        self.base = base

    def get_lexeme(self, form):
        return BaseUnit.hook('get_lexeme', form)

    def normalized(self, form):
        return BaseUnit.hook('normalized', form)


def sym_form(v, name, i=None, facts=None, dom=()):
    """(word, tag, normal form, score, stack) as functions of ``dom`` (z3 terms)."""
    srt = [d.sort() for d in dom]
    f = lambda n, s: (z3.Function('%s_%s' % (name, n), *(srt + [s]))(*dom) if dom else z3.Const('%s_%s' % (name, n), s))
    return (SStr(f('word', StrS)), STag(f('tag', Obj)), SStr(f('nf', StrS)), SReal(f('score', RealS)), Stack(f('stack', Obj)))


class SMorph(object):
    """The analyzer as seen by its units: parse/tag are pure functions of the word (C26) obeying the contracts C01-C03."""
    char_substitutes = 'abstract substitutes'

    def __init__(self, name='morph', same_tags=False, lowered=False):
        self.name = name
        self.same_tags = same_tags
        self.calls = []

    def form(self, w, i):
        return sym_form(None, self.name, dom=(w, i))

    def n(self, w):
        return z3.Function(self.name + '_nparse', StrS, IntS)(w)

    def parse(self, word):
        w = zstr(word)
        n = self.n(w)
        S.assume(n >= 1)
        i = S.fresh_binder('pi', IntS, self.name + '_parse')
        f = self.form(w, i)
        es = [Entry('range', zand(i >= 0, i < n))]
        es += [Entry('fact', x) for x in self.facts(w, f)]
        if self.same_tags:
            wit = z3.Function(self.name + '_tag_of', StrS, IntS, IntS)(w, i)
            es.append(Entry('fact', zand(wit >= 0, wit < self.ntags(w), self.tagterm(w, wit) == f[1].e)))
        return RList(segs=[FSeg([Family([i], es, f)], (i, n))])

    def facts(self, w, f):
        return [f[3].e > 0, P_lc(f[0].e), P_lc(f[2].e), z3.Implies(P_lc(w), z3.Length(f[0].e) == z3.Length(w))]

    def ntags(self, w):
        return z3.Function(self.name + '_ntags', StrS, IntS)(w)

    def tagterm(self, w, j):
        return z3.Function(self.name + '_tags', StrS, IntS, Obj)(w, j)

    def tag(self, word):
        w = zstr(word)
        n = self.ntags(w)
        S.assume(n >= 1)
        j = S.fresh_binder('tj', IntS, self.name + '_tag')
        t = STag(self.tagterm(w, j))
        es = [Entry('range', zand(j >= 0, j < n))]
        if self.same_tags:
            wit = z3.Function(self.name + '_parse_of', StrS, IntS, IntS)(w, j)
            es.append(Entry('fact', zand(wit >= 0, wit < self.n(w), self.form(w, wit)[1].e == t.e)))
        return RList(segs=[FSeg([Family([j], es, t)], (j, n))])


def bare(cls, **attrs):
    """An instance without running __init__ (its representation is given by the contract's precondition)."""
    o = object.__new__(cls)
    for k, x in attrs.items():
        setattr(o, k, x)
    return o


def shared(*objs):
    """Attribute writes to these objects count as side effects."""
    S.memo.setdefault('shared', set()).update(id(o) for o in objs)
    S.memo.setdefault('shared_keep', []).extend(objs)


def shared_list(v, name, value, **k):
    return v.regular_list(name, value, owned=False, **k)


class InvDict(object):
    """A dict of unknown content all of whose entries satisfy value == inv(key): stores are obligations."""
    _symbolic = True

    def __init__(self, v, name, inv):
        self.v, self.name, self.inv = v, name, inv
        self.found = []

    def _hit(self):
        return S.fork(S.fresh('cached', BoolS))

    def __getitem__(self, k):
        if any(x is k for x in self.found) or self._hit():
            return self.inv(k)
        raise KeyError(k)

    def get(self, k, d=None):
        return self.inv(k) if any(x is k for x in self.found) or self._hit() else d

    def _contains(self, k):
        if any(x is k for x in self.found):
            return True
        if self._hit():
            self.found.append(k)
            return True
        return False

    def _store(self, k, x):
        self.found.append(k)
        S.prove(self.name + ': stored entries are right', zb(eq(x, self.inv(k))))

    def __setitem__(self, k, x):
        self._store(k, x)

    def setdefault(self, k, d=None):
        if self._hit():
            return self.inv(k)
        self._store(k, d)
        return d


# ---------------------------------------------------------------------- units: seen sets, prefixes

class SeenBase(object):
    """Unknown earlier content of a seen set: a predicate on (word, tag, paradigm), on tags, or on anything else (none)."""
    def __init__(self, name):
        self.name = name

    def __call__(self, x):
        if isinstance(x, STag):
            return z3.Function(self.name + '_tag', Obj, BoolS)(x.e)
        if isinstance(x, tuple) and len(x) == 3 and isinstance(x[1], STag):
            w, t, p = x
            if p is None:
                return z3.Function(self.name + '_nopara', StrS, Obj, BoolS)(zstr(w), t.e)
            return z3.Function(self.name + '_parse', StrS, Obj, IntS, BoolS)(zstr(w), t.e, zint(p))
        return z3.BoolVal(False)


def seen_set(name, empty=False):
    s = RSet(base=None if empty else SeenBase(name))
    return s


def reduced(parse):
    """(word, tag, paradigm) of an analysis, paradigm as a term that is None-aware: (word, tag, has, number)."""
    w, t, st = parse[0], parse[1], parse[4]
    return (w, t, stack_para(st))


class Para(object):
    """Paradigm number of a stack: (present, number) as terms."""
    def __init__(self, has, num):
        self.has, self.num = has, num


def stack_para(st):
    if isinstance(st, Stack):
        return Para(U_haspara(st.base), U_para(st.base))
    m = st[0]
    if isinstance(m, tuple) and len(m) > 2:
        return Para(z3.BoolVal(True), zint(m[2]) if isinstance(m[2], (int, SInt)) else z3.IntVal(-1))
    return Para(z3.BoolVal(False), z3.IntVal(0))


def para_eq(a, b):
    return z3.And(a.has == b.has, z3.Implies(a.has, a.num == b.num))


def in_base(name, red):
    w, t, p = red
    b = SeenBase(name)
    return z3.If(p.has, b((w, t, SInt(p.num))), b((w, t, None)))


def prefixes_of(v, name, word, minlen=1):
    """Contract of PrefixMatcher.prefixes (C23): the configured prefixes the word starts with, each once."""
    n = z3.Int('n_' + name)
    S.assume(n >= 0)
    f = z3.Function(name, IntS, StrS)
    l = v.regular_list(name, lambda i: SStr(f(i)), n=n, facts=lambda i: [z3.PrefixOf(f(i), zstr(word)), z3.Length(f(i)) >= minlen, P_lc(f(i))])
    return l


def same_obj(a, b):
    """Identity of native objects across re-executions of the proof (loop summaries come from earlier paths)."""
    return a is b or getattr(a, '_vid', 1) == getattr(b, '_vid', 2)


class SUnit(SMorph):
    """A unit used by another unit (the dictionary): possibly empty results, pure in the lower-cased word (C26)."""

    def parse(self, word, lower=None, seen=None):
        w = zstr(word if lower is None else lower)
        n = self.n(w)
        S.assume(n >= 0)
        i = S.fresh_binder('pi', IntS, self.name + '_parse')
        f = self.form(w, i)
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < n))] + [Entry('fact', x) for x in self.facts(w, f)], f)], (i, n))])

    def tag(self, word, lower=None, seen=None):
        w = zstr(word if lower is None else lower)
        n = self.ntags(w)
        S.assume(n >= 0)
        j = S.fresh_binder('tj', IntS, self.name + '_tag')
        return RList(segs=[FSeg([Family([j], [Entry('range', zand(j >= 0, j < n))], STag(self.tagterm(w, j)))], (j, n))])
