# -*- coding: utf-8 -*-
"""Contracts of MorphAnalyzer.parse / tag / normal_forms over abstract analysis units."""
from .common import *

M = 'analyzer.MorphAnalyzer.'
UNITS = ('every unit by its contract: pure in (word, lowered word, seen), records nothing but what it returns in seen; the '
         'last one returns something exactly if nothing was seen (UnknAnalyzer) and the one before it ends a group; tags of the '
         'first k units are the tags of their analyses (C03)')
EST = 'the estimator by its contract (C04): keeps the analyses / tags, changes scores only'

Terminal = z3.Function('terminal', IntS, BoolS)
def natural(f):
    return lambda *a: z3.If(f(*a) > 0, f(*a), z3.IntVal(0))


nP = natural(z3.Function('n_parses', StrS, StrS, IntS, IntS))
nT = natural(z3.Function('n_tags', StrS, StrS, IntS, IntS))
Wi = z3.Function('tag_unit', StrS, StrS, IntS, IntS, IntS)
Wj = z3.Function('tag_pos', StrS, StrS, IntS, IntS, IntS)
Vi = z3.Function('parse_unit', StrS, StrS, IntS, IntS, IntS)
Vj = z3.Function('parse_pos', StrS, StrS, IntS, IntS, IntS)
Tag = z3.Function('unit_tag', StrS, StrS, IntS, IntS, Obj)
Est = z3.Function('est_score', StrS, Obj, RealS, RealS)


def P(w, l, i, j):
    return sym_form(None, 'u', dom=(w, l, i, j))


class Unit(object):
    """Unit number i of the configuration."""
    _symbolic = True

    def __init__(self, i, n):
        self.i, self.n = i, n

    def _subst(self, pairs):
        return Unit(z3.substitute(self.i, *pairs), self.n)

    def _eq(self, o):
        return self.i == o.i if isinstance(o, Unit) else False

    def _note(self, word, lower, seen, count):
        w, l = zstr(word), zstr(lower)
        i = self.i
        if not isinstance(seen, RSet):
            raise Unsupported('seen is not a set')
        c = count(w, l, i)
        # the last unit: only if nothing was seen, and then something
        S.assume(z3.Implies(i == self.n - 1, (c > 0) == z3.Not(zb(seen._truth()))))
        return w, l, i, c

    def parse(self, word, lower, seen):
        w, l, i, c = self._note(word, lower, seen, nP)
        j = S.fresh_binder('pj', IntS, 'unit_pos')
        a, b = Wi(w, l, i, j), Wj(w, l, i, j)
        S.derived.append(([i, j], [a, b]) if z3.is_const(i) else ([j], [a, b]))
        S.set_kind(a, 'units'); S.set_kind(b, 'unit_pos')
        p = P(w, l, i, j)
        es = [Entry('range', zand(j >= 0, j < c)),
              Entry('fact', zand(a >= 0, a <= i, b >= 0, b < nT(w, l, a), Tag(w, l, a, b) == p[1].e))]
        return self._record(seen, j, es, p, c, z3.Function('records_parse', StrS, StrS, IntS, IntS, BoolS)(w, l, i, j))

    def tag(self, word, lower, seen):
        w, l, i, c = self._note(word, lower, seen, nT)
        j = S.fresh_binder('tj', IntS, 'unit_pos')
        a, b = Vi(w, l, i, j), Vj(w, l, i, j)
        S.derived.append(([i, j], [a, b]) if z3.is_const(i) else ([j], [a, b]))
        S.set_kind(a, 'units'); S.set_kind(b, 'unit_pos')
        t = STag(Tag(w, l, i, j))
        es = [Entry('range', zand(j >= 0, j < c)),
              Entry('fact', zand(a >= 0, a <= i, b >= 0, b < nP(w, l, a), P(w, l, a, b)[1].e == t.e))]
        return self._record(seen, j, es, t, c, z3.Function('records_tag', StrS, StrS, IntS, IntS, BoolS)(w, l, i, j))

    def _record(self, seen, j, es, x, c, rec):
        seen.update(RList(segs=[FSeg([Family([j], es + [Entry('dec', rec)], x)])]))
        return RList(segs=[FSeg([Family([j], es, x)], (j, c))])


class Estimator(object):
    _symbolic = True

    def __init__(self):
        self.calls = []

    def apply_to_parses(self, word, lower, parses):
        self.calls.append((word, lower))
        return rt.map_(lambda p: (p[0], p[1], p[2], SReal(Est(zstr(p[0]), p[1].e, zreal(p[3]))), p[4]), parses)

    def apply_to_tags(self, word, lower, tags):
        self.calls.append((word, lower))
        return RList(segs=list(as_list(tags).segs))


def analyzer(v, config=(True, True)):
    """An analyzer with any number of units, any of them terminal, the last one for unknown words."""
    A = mod('pymorphy2.analyzer')
    n = z3.Int('n_units')
    S.assume(n >= 1)
    S.assume(zand(Terminal(n - 1), Terminal(n - 2)))
    S.cand(n - 2, 'units')
    S.cand(n - 1, 'units'); S.cand(z3.IntVal(0), 'unit_pos')
    units = shared_list(v, 'units', lambda i: (Unit(i, n), SBool(Terminal(i))), n=n)
    est, wrap = config
    est = Estimator() if est else None
    wrap = v.obj('Parse', lambda: type('Parse', (A.Parse,), {})) if wrap else None
    m = bare(A.MorphAnalyzer, _units=units, prob_estimator=est, _result_type=wrap)
    shared(m)
    word = v.str('word')
    return m, n, est, wrap, word, word.lower()


def est_args(v, est, word, low):
    for w, l in est.calls if est else ():
        v.check('the estimator is asked for this word', zand(zstr(w) == word.e, zstr(l) == low.e))


def idx(v, name, hi, kind):
    k = v.int(name)
    S.assume(zand(k.e >= 0, k.e < hi))
    v.cand(k, kind=kind)
    return k.e


def like(p, q, est):
    """p is the unit's analysis q (score possibly estimated)."""
    return zand(zstr(p[0]) == zstr(q[0]), p[1].e == q[1].e, zstr(p[2]) == zstr(q[2]), zb(eq(p[4], q[4])),
                zreal(p[3]) == (Est(zstr(q[0]), q[1].e, q[3].e) if est else q[3].e))


def rules(v, r, w, l, n, count, is_elem, what):
    """The rules shared by parse and tag.  is_elem(x, i, j): formula 'result x is element j of unit i'."""
    which = S.choose(['all', 'stop', 'unkn'], 'rule')
    if which == 'all':
        # a unit is reached if no earlier terminal unit ended with something found
        i = idx(v, 'i', n, 'units')
        j = idx(v, 'j', count(w, l, i), 'unit_pos')
        k, i2, j2 = z3.Ints('bk bi bj')
        for b, kd in ((k, 'units'), (i2, 'units'), (j2, 'unit_pos')):
            S.set_kind(b, kd)
        S.add_univ([k, i2, j2], z3.Not(zand(k >= 0, k < i, Terminal(k), i2 >= 0, i2 <= k, j2 >= 0, j2 < count(w, l, i2))))
        v.check('every %s of the units reached is given' % what, v.some(r, lambda x: is_elem(x, i, j)))
    elif which == 'stop':
        # one of the units after a terminal unit with something found gives nothing
        x = v.any(r, 'x')
        k = idx(v, 'k', n, 'units')
        i2 = idx(v, 'i2', k + 1, 'units')
        idx(v, 'j2', count(w, l, i2), 'unit_pos')
        S.assume(Terminal(k))
        b, c = z3.Ints('ai aj')
        S.set_kind(b, 'units'); S.set_kind(c, 'unit_pos')
        S.add_univ([b, c], z3.Implies(zand(b >= 0, b <= k, c >= 0, c < count(w, l, b)), z3.Not(is_elem(x, b, c))))
        v.check('units after a successful terminal unit are not used', False)
    else:
        x = v.any(r, 'x')
        i2 = idx(v, 'i2', n - 1, 'units')
        idx(v, 'j2', count(w, l, i2), 'unit_pos')
        b, c = z3.Ints('ai aj')
        S.set_kind(b, 'units'); S.set_kind(c, 'unit_pos')
        S.add_univ([b, c], z3.Implies(zand(b >= 0, b < n - 1, c >= 0, c < count(w, l, b)), z3.Not(is_elem(x, b, c))))
        v.check('a word is unknown only if no other unit analyses it', False)


def parse(v, config):
    m, n, est, wrap, word, low = analyzer(v, config)
    v.declare('there is an analysis', 'every analysis of the units reached is given', 'an analysis made by a unit',
              'units after a successful terminal unit are not used', 'a word is unknown only if no other unit analyses it',
              'the analyzer and its units are unchanged')
    r = as_list(v.call('parse', m.parse, word))
    est_args(v, est, word, low)
    w, l = word.e, low.e
    which = S.choose(['nonempty', 'some', 'rules', 'frame'], 'which')
    if which == 'nonempty':
        v.check('there is an analysis', v.nonempty(r))
    elif which == 'frame':
        v.no_writes('the analyzer and its units are unchanged')
    elif which == 'some':
        p = v.any(r, 'p')
        if wrap:
            v.check('analyses have the result type', isinstance(p, wrap))
        i, j = z3.Ints('ui uj')
        S.set_kind(i, 'units'); S.set_kind(j, 'unit_pos')
        S.add_univ([i, j], z3.Implies(zand(i >= 0, i < n, j >= 0, j < nP(w, l, i)), z3.Not(like(p, P(w, l, i, j), est))))
        v.check('an analysis made by a unit', False)
    else:
        rules(v, r, w, l, n, nP, lambda p, i, j: like(p, P(w, l, i, j), est), 'analysis')


for _name, _config in [('estimator, Parse results', (True, True)), ('estimator, plain tuples', (True, False)),
                       ('no estimator, Parse results', (False, True)), ('no estimator, plain tuples', (False, False))]:
    proof('C01 C02 C03 C14 C26', 'MorphAnalyzer.parse (%s)' % _name, [M + 'parse'], assumes=[UNITS, EST])(
        lambda v, c=_config: parse(v, c))


@proof('C01 C03 C26', 'MorphAnalyzer.tag', [M + 'tag'], assumes=[UNITS, EST])
def tag(v):
    m, n, est, wrap, word, low = analyzer(v, (S.choose([True, False], 'estimator'), True))
    v.declare('there is a tag', 'a tag given by a unit', 'every tag of the units reached is given', 'units after a successful terminal unit are not used',
              'a word is unknown only if no other unit analyses it', 'the analyzer and its units are unchanged')
    r = as_list(v.call('tag', m.tag, word))
    est_args(v, est, word, low)
    which = S.choose(['nonempty', 'some', 'rules', 'frame'], 'which')
    if which == 'some':
        t = v.any(r, 't')
        i, j = z3.Ints('ui uj')
        S.set_kind(i, 'units'); S.set_kind(j, 'unit_pos')
        S.add_univ([i, j], z3.Implies(zand(i >= 0, i < n, j >= 0, j < nT(word.e, low.e, i)), t.e != Tag(word.e, low.e, i, j)))
        v.check('a tag given by a unit', False)
    elif which == 'nonempty':
        v.check('there is a tag', v.nonempty(r))
    elif which == 'frame':
        v.no_writes('the analyzer and its units are unchanged')
    else:
        rules(v, r, word.e, low.e, n, nT, lambda t, i, j: t.e == Tag(word.e, low.e, i, j), 'tag')


@proof('C03', 'MorphAnalyzer.parse and .tag agree (lemma over their contracts)', [M + 'parse', M + 'tag'],
       assumes=[UNITS, 'the contracts of parse and tag proved above: results are those of the units up to the first successful terminal one'])
def agree(v):
    v.declare('the tag of every analysis is given', 'every tag is the tag of an analysis')
    n = z3.Int('n')
    np_, nt = z3.Function('np', IntS, IntS), z3.Function('nt', IntS, IntS)
    pt, tt = z3.Function('pt', IntS, IntS, Obj), z3.Function('tt', IntS, IntS, Obj)
    elem = lambda c, i, j: z3.And(i >= 0, i < n, j >= 0, j < c(i))

    def cumulative(c, f, c2, f2, name):
        """The hypothesis (every element of c has its counterpart in c2, in the same or an earlier unit), instance by instance."""
        wi, wj = z3.Function(name + '_i', IntS, IntS, IntS), z3.Function(name + '_j', IntS, IntS, IntS)

        def instance(i, j):
            i2, j2 = wi(i, j), wj(i, j)
            S.assume(z3.Implies(elem(c, i, j), z3.And(elem(c2, i2, j2), i2 <= i, f2(i2, j2) == f(i, j))))
            return i2, j2
        return instance

    def reached(c, i, k, i2, j2):
        """Instance of: no terminal unit before i ends a stretch with an element of c."""
        return z3.Not(z3.And(k >= 0, k < i, Terminal(k), i2 <= k, elem(c, i2, j2)))
    here = {0: cumulative(np_, pt, nt, tt, 'tag_of'), 1: cumulative(nt, tt, np_, pt, 'parse_of')}
    for d, (name, c, f, c2, f2) in enumerate([('the tag of every analysis is given', np_, pt, nt, tt),
                                              ('every tag is the tag of an analysis', nt, tt, np_, pt)]):
        a, b = z3.Ints('a%d b%d' % (d, d))
        x, y = here[d](a, b)
        # suppose a terminal unit k before x ends the stretch, with the element (i, j) of c2
        k, i, j = z3.Ints('k%d i%d j%d' % (d, d, d))
        i2, j2 = here[1 - d](i, j)
        v.check(name, z3.Implies(z3.And(elem(c, a, b), reached(c, a, k, i2, j2)),
                                 z3.And(elem(c2, x, y), f2(x, y) == f(a, b), reached(c2, x, k, i, j))))


LANGS = ['ru', 'uk']


def _config(lang):
    @proof('C01 C03', 'default units of %s' % lang, [M + '_init_units'])
    def config(v, lang=lang):
        A = mod('pymorphy2.analyzer')
        L = mod('pymorphy2.lang.' + lang)
        import pymorphy2.units as U
        bound = []

        class Analyzer(A.MorphAnalyzer):
            def _bound_unit(self, unit):
                bound.append(unit)
                return unit

            def _config_value(self, key, default):
                return getattr(L, key) if key == 'DEFAULT_UNITS' else default
        m = bare(Analyzer)
        v.declare('all units, in order', 'groups end with their last unit', 'the unit for unknown words comes last, after a complete group')
        v.call('_init_units', m._init_units, None)
        flat, ends = [], []
        for g in L.DEFAULT_UNITS:
            g = list(g) if isinstance(g, (list, tuple)) else [g]
            flat += g
            ends += [False] * (len(g) - 1) + [True]
        got = [x if isinstance(x, tuple) else tuple(x) for x in as_list(m._units).items()]
        v.check('all units, in order', len(got) == len(flat) and all(a is b for (a, _), b in zip(got, flat)))
        v.check('groups end with their last unit', [bool(t) for _, t in got] == ends)
        names = [type(u).__name__ for u in flat]
        v.check('the unit for unknown words comes last, after a complete group',
                names[-1] == 'UnknAnalyzer' and names.count('UnknAnalyzer') == 1 and ends[-2])
    return config


for _l in LANGS:
    _config(_l)


@proof('C01 C02 C03 C26', 'UnknAnalyzer', ['units.unkn.UnknAnalyzer.parse', 'units.unkn.UnknAnalyzer.tag'])
def unkn(v):
    unit = mod('pymorphy2.units.unkn').UnknAnalyzer()
    unit._vid = 'unkn'
    shared(unit)
    t = v.obj('unkn_tag', lambda: STag(z3.Const('tag_UNKN', Obj)))
    unit._tag = t
    word = v.str('word')
    low = word.lower()
    what = S.choose(['parse', 'tag'], 'method')
    empty = S.choose([True, False], 'seen')
    seen = seen_set('seen', empty=empty)
    if not empty:
        S.assume(zb(seen._truth()))
    r = as_list(v.call('UnknAnalyzer.' + what, getattr(unit, what), word, low, seen))
    v.declare('nothing if something was found', 'exactly one result otherwise', 'the unknown tag', 'the lower-cased word is word and normal form',
              'the unit is unchanged', 'the analysis can be inflected')
    v.no_writes('the unit is unchanged')
    if not empty:
        v.check('nothing if something was found', zint(r.length()) == 0)
        return
    v.check('exactly one result otherwise', zint(r.length()) == 1)
    x = r[0]
    if what == 'tag':
        v.check('the unknown tag', x is t)
        return
    v.check('the unknown tag', x[1] is t)
    v.check('the lower-cased word is word and normal form', zand(zstr(x[0]) == low.e, zstr(x[2]) == low.e))
    v.check('the analysis can be inflected', isinstance(x[4], tuple) and len(x[4]) == 1 and same_obj(x[4][0][0], unit))
