# -*- coding: utf-8 -*-
"""Contracts of the units that detach an affix and analyse the remainder."""
from .common import *

REMAINDER = 'MorphAnalyzer.parse and .tag of the remainder by their contracts (C01, C02, C26)'


def run_unit(v, unit, method, word, lower, seen):
    return v.call('%s.%s' % (type(unit).__name__, method), getattr(unit, method), word, lower, seen)


def setup(v, unit, **kw):
    m = SMorph(**kw)
    unit.morph = m
    unit._vid = 'unit'
    shared(unit)
    word = v.str('word')
    return m, word, word.lower()


def method_of(v, name, p, unit):
    """The last method of a stack (this unit, affix)."""
    st = p[4]
    m = st.extra[0] if isinstance(st, Stack) and len(st.extra) == 1 else None
    v.check(name, isinstance(m, tuple) and len(m) == 2 and same_obj(m[0], unit))
    return m[1]


def is_decorated(parses, p, mk, mult):
    """Formula: p is one of ``parses`` with the affix put back (mk: term -> term)."""
    return parses.v.some(parses.l, lambda f: zand(
        zstr(p[0]) == mk(zstr(f[0])), p[1].e == f[1].e, zstr(p[2]) == mk(zstr(f[2])),
        zreal(p[3]) == zreal(f[3]) * zreal(mult), p[4].base == f[4].base))


class L(object):
    def __init__(self, v, l):
        self.v, self.l = v, l


def given(v, r, word, tag, para):
    return v.some(r, lambda p: zand(zstr(p[0]) == zstr(word), p[1].e == tag.e, para_eq(stack_para(p[4]), para)))


KP = 'units.by_analogy.KnownPrefixAnalyzer.'


@proof('C06 C05 C02 C01 C26', 'KnownPrefixAnalyzer.parse', [KP + 'parse', KP + 'possible_splits', 'units.utils.add_parse_if_not_seen'],
       assumes=['PrefixMatcher.prefixes by its contract (C23)', REMAINDER])
def known_prefix_parse(v):
    unit = mod('pymorphy2.units.by_analogy').KnownPrefixAnalyzer(())
    morph, word, low = setup(v, unit)
    pl = []

    def get_prefixes(w):
        pl.append(prefixes_of(v, 'prefix', w))
        return pl[-1]
    unit.get_prefixes = get_prefixes
    seen = seen_set('seen')
    v.declare('the word starts with the prefix', 'at least three letters remain', 'open class only',
              'a remainder analysis with the prefix put back', 'as long as the word', 'every admissible analysis is given',
              'the unit is unchanged')
    r = run_unit(v, unit, 'parse', word, low, seen)
    e = v.each(r)
    if e is not None:
        p = e[0]
        prefix = method_of(v, 'the method is the unit with the prefix', p, unit)
        v.check('the word starts with the prefix', z3.PrefixOf(zstr(prefix), zstr(low)))
        rest = low[prefix.length():]
        v.check('at least three letters remain', z3.Length(rest.e) >= 3)
        v.check('open class only', U_prod(p[1].e))
        v.check('a remainder analysis with the prefix put back',
                is_decorated(L(v, morph.parse(rest)), p, lambda s: z3.Concat(zstr(prefix), s), unit.score_multiplier))
        v.check('as long as the word', z3.Length(zstr(p[0])) == z3.Length(low.e))
        return
    if S.choose(['all', 'rest'], 'complete') == 'all':
        x = v.any(pl[0], 'px')
        rest = low[x.length():]
        S.assume(z3.Length(rest.e) >= 3)
        f = v.any(morph.parse(rest), 'f')
        S.assume(U_prod(f[1].e))
        w, para = SStr(z3.Concat(x.e, f[0].e)), stack_para(f[4])
        v.check('every admissible analysis is given', z3.Or(in_base('seen', (w, f[1], para)), given(v, r, w, f[1], para)))
        return
    v.no_writes('the unit is unchanged')


@proof('C06 C05 C03 C01 C26', 'KnownPrefixAnalyzer.tag', [KP + 'tag', KP + 'possible_splits', 'units.utils.add_tag_if_not_seen'],
       assumes=['PrefixMatcher.prefixes by its contract (C23)', REMAINDER])
def known_prefix_tag(v):
    unit = mod('pymorphy2.units.by_analogy').KnownPrefixAnalyzer(())
    morph, word, low = setup(v, unit)
    pl = []

    def get_prefixes(w):
        pl.append(prefixes_of(v, 'prefix', w))
        return pl[-1]
    unit.get_prefixes = get_prefixes
    seen = seen_set('seen')
    v.declare('a tag of a remainder of at least three letters', 'open class only', 'every admissible tag is given',
              'the unit is unchanged')
    r = run_unit(v, unit, 'tag', word, low, seen)
    e = v.each(r)
    if e is not None:
        t = e[0]
        v.check('open class only', U_prod(t.e))
        v.check('a tag of a remainder of at least three letters', v.some(pl[0], lambda x: zand(
            z3.PrefixOf(x.e, zstr(low)), z3.Length(low.e) >= z3.Length(x.e) + 3,
            v.some(morph.tag(low[x.length():]), lambda t2: t.e == t2.e))))
        return
    if S.choose(['all', 'rest'], 'complete') == 'all':
        x = v.any(pl[0], 'px')
        rest = low[x.length():]
        S.assume(z3.Length(rest.e) >= 3)
        t = v.any(morph.tag(rest), 't')
        S.assume(U_prod(t.e))
        v.check('every admissible tag is given', z3.Or(SeenBase('seen')(t), v.some(r, lambda t2: t.e == t2.e)))
        return
    v.no_writes('the unit is unchanged')


UP = 'units.by_analogy.UnknownPrefixAnalyzer.'
DICT = 'DictionaryAnalyzer.parse and .tag by their contracts (C02, C14)'


def split_at(low, k):
    return low[:k], low[k:]


@proof('C06 C05 C03 C02 C01 C26', 'UnknownPrefixAnalyzer.parse', [UP + 'parse', 'utils.word_splits', 'units.utils.add_parse_if_not_seen'],
       assumes=[DICT])
def unknown_prefix_parse(v):
    unit = mod('pymorphy2.units.by_analogy').UnknownPrefixAnalyzer()
    _, word, low = setup(v, unit)
    d = unit.dict_analyzer = SUnit('dict')
    seen = seen_set('seen')
    v.declare('one to five letters are cut', 'at least three letters remain', 'open class only',
              'a dictionary analysis of the remainder with the prefix put back', 'as long as the word',
              'every admissible analysis is given', 'the unit is unchanged')
    r = run_unit(v, unit, 'parse', word, low, seen)
    e = v.each(r)
    if e is not None:
        p = e[0]
        prefix = method_of(v, 'the method is the unit with the prefix', p, unit)
        v.check('the word starts with the prefix', z3.PrefixOf(zstr(prefix), zstr(low)))
        v.check('one to five letters are cut', zand(z3.Length(prefix.e) >= 1, z3.Length(prefix.e) <= 5))
        rest = low[prefix.length():]
        v.check('at least three letters remain', z3.Length(rest.e) >= 3)
        v.check('open class only', U_prod(p[1].e))
        v.check('a dictionary analysis of the remainder with the prefix put back',
                is_decorated(L(v, d.parse(rest)), p, lambda s: z3.Concat(zstr(prefix), s), unit.score_multiplier))
        v.check('as long as the word', z3.Length(zstr(p[0])) == z3.Length(low.e))
        return
    if S.choose(['all', 'rest'], 'complete') == 'all':
        k = v.int('k')
        S.assume(zand(k.e >= 1, k.e <= 5, z3.Length(low.e) >= k.e + 3))
        v.cand(SInt(k.e - 1), kind='range')
        pre, rest = split_at(low, k)
        f = v.any(d.parse(rest), 'f')
        S.assume(U_prod(f[1].e))
        w, para = SStr(z3.Concat(pre.e, f[0].e)), stack_para(f[4])
        v.check('every admissible analysis is given', z3.Or(in_base('seen', (w, f[1], para)), given(v, r, w, f[1], para)))
        return
    v.no_writes('the unit is unchanged')


@proof('C06 C05 C03 C01 C26', 'UnknownPrefixAnalyzer.tag', [UP + 'tag', 'utils.word_splits', 'units.utils.add_tag_if_not_seen'],
       assumes=[DICT])
def unknown_prefix_tag(v):
    unit = mod('pymorphy2.units.by_analogy').UnknownPrefixAnalyzer()
    _, word, low = setup(v, unit)
    d = unit.dict_analyzer = SUnit('dict')
    seen = seen_set('seen')
    v.declare('a tag of a remainder of at least three letters after one to five', 'open class only',
              'every admissible tag is given', 'the unit is unchanged')
    r = run_unit(v, unit, 'tag', word, low, seen)
    e = v.each(r)
    if e is not None:
        t = e[0]
        v.check('open class only', U_prod(t.e))
        v.check('a tag of a remainder of at least three letters after one to five', z3.Or(*[
            zand(z3.Length(low.e) >= k + 3, v.some(d.tag(low[k:]), lambda t2: t.e == t2.e)) for k in range(1, 6)]))
        return
    if S.choose(['all', 'rest'], 'complete') == 'all':
        k = v.int('k')
        S.assume(zand(k.e >= 1, k.e <= 5, z3.Length(low.e) >= k.e + 3))
        v.cand(SInt(k.e - 1), kind='range')
        t = v.any(d.tag(low[k:]), 't')
        S.assume(U_prod(t.e))
        v.check('every admissible tag is given', z3.Or(SeenBase('seen')(t), v.some(r, lambda t2: t.e == t2.e)))
        return
    v.no_writes('the unit is unchanged')


HP = 'units.by_hyphen.HyphenSeparatedParticleAnalyzer.'


def particles(v):
    """The configured particles: at least two characters, the first a hyphen."""
    f = z3.Function('particle', IntS, StrS)
    n = z3.Int('n_particles')
    S.assume(n >= 0)
    return shared_list(v, 'particles', lambda i: SStr(f(i)), n=n,
                       facts=lambda i: [z3.PrefixOf(str_val('-'), f(i)), z3.Length(f(i)) >= 2]), n, f


def first_match(v, low, n, f):
    """The first particle the word ends with (and something before it)."""
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < n))
    v.cand(i, kind='particles')
    x = SStr(f(i.e))
    S.assume(zand(z3.PrefixOf(str_val('-'), x.e), z3.Length(x.e) >= 2))
    match = lambda k: zand(z3.SuffixOf(f(k), low.e), z3.Length(low.e) > z3.Length(f(k)))
    S.assume(match(i.e))
    S.assume(z3.Contains(low.e, str_val('-')))      # as it ends with x, which has one (lemma for the string solver)
    k = z3.Int('k')
    S.set_kind(k, 'particles')
    S.add_univ([k], z3.Implies(zand(k >= 0, k < i.e), z3.Not(match(k))))
    return x, low[:-x.length()]


PART = 'the configured particles begin with a hyphen (checked for the shipped configurations)'


@proof('C06 C02 C01 C26', 'HyphenSeparatedParticleAnalyzer.parse', [HP + 'parse', HP + 'possible_splits', 'units.utils.add_parse_if_not_seen'],
       assumes=[REMAINDER, PART])
def particle_parse(v):
    pl, n, f = particles(v)
    unit = mod('pymorphy2.units.by_hyphen').HyphenSeparatedParticleAnalyzer(pl)
    morph, word, low = setup(v, unit)
    seen = seen_set('seen')
    v.declare('the word ends with a configured particle', 'something remains', 'a remainder analysis with the particle put back',
              'as long as the word', 'every analysis of the remainder is given', 'the unit is unchanged')
    r = run_unit(v, unit, 'parse', word, low, seen)
    which = S.choose(['some', 'all', 'frame'], 'which')
    if which == 'some':
        p = v.any(r, 'p')
        x = method_of(v, 'the method is the unit with the particle', p, unit)
        v.check('the word ends with a configured particle', zand(z3.SuffixOf(zstr(x), low.e), v.some(pl, lambda y: y.e == zstr(x))))
        rest = low[:-x.length()]
        v.check('something remains', z3.Length(rest.e) > 0)
        v.check('a remainder analysis with the particle put back',
                is_decorated(L(v, morph.parse(rest)), p, lambda s: z3.Concat(s, zstr(x)), unit.score_multiplier))
        v.check('as long as the word', z3.Length(zstr(p[0])) == z3.Length(low.e))
    elif which == 'all':
        x, rest = first_match(v, low, n, f)
        g = v.any(morph.parse(rest), 'f')
        w, para = SStr(z3.Concat(g[0].e, x.e)), stack_para(g[4])
        v.check('every analysis of the remainder is given', z3.Or(in_base('seen', (w, g[1], para)), given(v, r, w, g[1], para)))
    else:
        v.no_writes('the unit is unchanged')


@proof('C06 C03 C01 C26', 'HyphenSeparatedParticleAnalyzer.tag', [HP + 'tag', HP + 'possible_splits'], assumes=[REMAINDER, PART])
def particle_tag(v):
    pl, n, f = particles(v)
    unit = mod('pymorphy2.units.by_hyphen').HyphenSeparatedParticleAnalyzer(pl)
    morph, word, low = setup(v, unit)
    seen = seen_set('seen')
    v.declare('a tag of the remainder before a particle', 'every tag of the remainder is given', 'the unit is unchanged')
    r = run_unit(v, unit, 'tag', word, low, seen)
    which = S.choose(['some', 'all', 'frame'], 'which')
    if which == 'some':
        t = v.any(r, 't')
        v.check('a tag of the remainder before a particle', v.some(pl, lambda x: zand(
            z3.SuffixOf(x.e, low.e), z3.Length(low.e) > z3.Length(x.e),
            v.some(morph.tag(low[:-x.length()]), lambda u: u.e == t.e))))
    elif which == 'all':
        x, rest = first_match(v, low, n, f)
        t = v.any(morph.tag(rest), 't')
        v.check('every tag of the remainder is given', z3.Or(SeenBase('seen')(t), v.some(r, lambda u: u.e == t.e)))
    else:
        v.no_writes('the unit is unchanged')


@proof('C06 C03', 'shipped particles', [])
def shipped_particles(v):
    v.declare('particles begin with a hyphen and none is the end of another')
    for lang in ('ru', 'uk'):
        for g in mod('pymorphy2.lang.' + lang).DEFAULT_UNITS:
            for u in (g if isinstance(g, (list, tuple)) else [g]):
                ps = getattr(u, 'particles_after_hyphen', None)
                if ps is not None:
                    ps = [str(x) for x in ps]
                    v.check('particles begin with a hyphen and none is the end of another',
                            all(len(a) >= 2 and a[0] == '-' for a in ps) and
                            not any(a != b and a.endswith(b) for a in ps for b in ps))


HA = 'units.by_hyphen.HyphenAdverbAnalyzer.'


@proof('C02 C03 C01 C26', 'HyphenAdverbAnalyzer', [HA + 'parse', HA + 'tag', HA + 'should_parse'], assumes=[REMAINDER])
def adverb(v):
    unit = mod('pymorphy2.units.by_hyphen').HyphenAdverbAnalyzer()
    morph, word, low = setup(v, unit)
    T = v.obj('advb', lambda: STag(z3.Const('tag_ADVB', Obj)))
    unit._tag = T
    seen = seen_set('seen')
    meth = S.choose(['parse', 'tag'], 'method')
    v.declare('an adverb exactly if the rest is a singular dative adjective', 'one result at most', 'the tag of adverbs',
              'the word itself is word and normal form', 'the unit is unchanged')
    r = as_list(run_unit(v, unit, meth, word, low, seen))
    v.no_writes('the unit is unchanged')
    n = zint(r.length())
    v.check('one result at most', n <= 1)
    starts = zand(z3.PrefixOf(str_val('по-'), low.e), z3.Length(low.e) >= 5)
    is_adj = lambda t: zand(*[has(U_gram(t.e), g) for g in ('ADJF', 'sing', 'datv')])
    rest = low[3:]
    if S.choose(['yes', 'no'], 'case') == 'yes':
        S.assume(starts)
        t = v.any(morph.tag(rest), 't')
        S.assume(is_adj(t))
        v.check('an adverb exactly if the rest is a singular dative adjective',
                z3.Or(n == 1, SeenBase('seen')(T)) if meth == 'tag' else n == 1)
    else:
        S.assume(n == 1)
        v.check('an adverb exactly if the rest is a singular dative adjective',
                zand(starts, v.some(morph.tag(rest), is_adj)))
        x = r[0]
        v.check('the tag of adverbs', (x if meth == 'tag' else x[1]).e == T.e)
        if meth == 'parse':
            v.check('the word itself is word and normal form', zand(zstr(x[0]) == low.e, zstr(x[2]) == low.e))


HW = 'units.by_hyphen.HyphenatedWordsAnalyzer.'
FEATURES = z3.Const('feature_grammemes', SetS)


Feat = z3.Function('similarity_features', Obj, SetS)


def hyphenated(v, abstract=True):
    unit = v.obj('hw', lambda: mod('pymorphy2.units.by_hyphen').HyphenatedWordsAnalyzer(()))
    morph, word, low = setup(v, unit)
    unit._FEATURE_GRAMMEMES = SSet(FEATURES)
    skip = z3.Function('has_skip_prefix', StrS, BoolS)
    unit._has_skip_prefix = lambda w: SBool(skip(zstr(w)))
    if abstract:
        unit._similarity_features = lambda tag: SSet(Feat(tag.e))
    return unit, morph, word, low, skip


def features(tag):
    g = z3.SetIntersect(U_gram(tag.e), FEATURES)
    for a, b in (('gen1', 'gent'), ('loc1', 'loct')):
        g = z3.If(z3.IsMember(str_val(a), g), z3.SetAdd(z3.SetDel(g, str_val(a)), str_val(b)), g)
    return g


def hyphen_parts(v, low, skip):
    """low is left-right with exactly one hyphen, inside, and no skipped prefix."""
    h = str_val('-')
    k = z3.IndexOf(low.e, h, z3.IntVal(0))
    left, right = SStr(z3.SubString(low.e, z3.IntVal(0), k)), SStr(z3.SubString(low.e, k + 1, z3.Length(low.e) - k - 1))
    S.assume(zand(z3.Contains(low.e, h), z3.Not(z3.PrefixOf(h, low.e)), z3.Not(z3.SuffixOf(h, low.e)), z3.Not(z3.Contains(right.e, h))))
    S.assume(z3.Not(skip(low.e)))
    return left, right


def parts_used(morph):
    """The two words handed to the analyzer."""
    return morph.asked[-2:]


class Asked(SMorph):
    """Records the words analysed."""
    def __init__(self, *a, **k):
        SMorph.__init__(self, *a, **k)
        self.asked = []

    def parse(self, word):
        self.asked.append(word)
        return SMorph.parse(self, word)


@proof('C06 C02 C01 C26', 'HyphenatedWordsAnalyzer.parse', [HW + x for x in (
    'parse', '_should_parse', '_parse_as_fixed_left', '_parse_as_variable_both')], assumes=[REMAINDER])
def hyphenated_parse(v):
    unit, _, word, low, skip = hyphenated(v)
    morph = unit.morph = Asked()
    seen = seen_set('seen')
    v.declare('only words with exactly one hyphen, inside, and no skipped prefix', 'the parts at the hyphen',
              'an analysis of the right part after the invariable left part, or of both parts', 'as long as the word',
              'every known analysis of the right part is given', 'every pair of analyses inflected alike is given', 'the unit is unchanged')
    r = run_unit(v, unit, 'parse', word, low, seen)
    m = unit.score_multiplier
    h = str_val('-')
    cat = lambda a, b: z3.Concat(zstr(a), h, zstr(b))

    def fixed(p, left, f):
        st = p[4]
        if not (isinstance(st, tuple) and len(st) == 1 and len(st[0]) == 3) or not isinstance(st[0][1], (str, SStr)):
            return False
        return zand(zstr(p[0]) == cat(left, f[0]), p[1].e == f[1].e, zstr(p[2]) == cat(left, f[2]), zreal(p[3]) == zreal(f[3]) * zreal(m),
                    zstr(st[0][1]) == left.e, zb(eq(st[0][2], f[4])), z3.Not(U_unkn(f[1].e)))

    def both(p, f, g):
        st = p[4]
        if not (isinstance(st, tuple) and len(st) == 1 and len(st[0]) == 3) or not isinstance(st[0][1], Stack):
            return False
        return zand(zstr(p[0]) == cat(f[0], g[0]), p[1].e == f[1].e, zstr(p[2]) == cat(f[2], g[2]), zreal(p[3]) == zreal(f[3]) * zreal(m),
                    zb(eq(st[0][1], f[4])), zb(eq(st[0][2], g[4])), z3.Not(U_unkn(f[1].e)), Feat(f[1].e) == Feat(g[1].e))
    which = S.choose(['some', 'fixed', 'both', 'frame'], 'which')
    if which == 'some':
        p = v.any(r, 'p')
        v.check('the method is the unit', same_obj(p[4][0][0], unit))
        left, right = parts_used(morph)
        v.check('the parts at the hyphen', zand(low.e == cat(left, right), z3.Not(z3.Contains(left.e, h)), z3.Not(z3.Contains(right.e, h))))
        v.check('only words with exactly one hyphen, inside, and no skipped prefix',
                zand(z3.Length(left.e) > 0, z3.Length(right.e) > 0, z3.Not(skip(low.e))))
        L_, R_ = SMorph.parse(morph, left), SMorph.parse(morph, right)
        if isinstance(p[4][0][1], Stack):
            v.check('an analysis of the right part after the invariable left part, or of both parts',
                    v.some(L_, lambda f: v.some(R_, lambda g: both(p, f, g))))
        else:
            v.check('an analysis of the right part after the invariable left part, or of both parts',
                    v.some(R_, lambda f: fixed(p, left, f)))
        v.check('as long as the word', z3.Length(zstr(p[0])) == z3.Length(low.e))
    elif which == 'frame':
        v.no_writes('the unit is unchanged')
    else:
        left, right = hyphen_parts(v, low, skip)
        g = v.any(SMorph.parse(morph, right), 'g')
        if which == 'fixed':
            S.assume(z3.Not(U_unkn(g[1].e)))
            v.check('every known analysis of the right part is given', v.some(r, lambda p: fixed(p, left, g)))
        else:
            f = v.any(SMorph.parse(morph, left), 'f')
            S.assume(zand(z3.Not(U_unkn(f[1].e)), Feat(f[1].e) == Feat(g[1].e)))
            v.check('every pair of analyses inflected alike is given', v.some(r, lambda p: both(p, f, g)))


@proof('C06 C26', 'HyphenatedWordsAnalyzer._similarity_features', [HW + '_similarity_features', 'units.by_hyphen.replace_grammemes'])
def hyphenated_features(v):
    unit, morph, word, low, skip = hyphenated(v, abstract=False)
    if not hasattr(unit, '_similarity_features'):
        raise Unsupported('no such function')
    t = STag(z3.Const('tag', Obj))
    v.declare('the features with secondary cases replaced', 'the unit is unchanged')
    r = v.call('_similarity_features', unit._similarity_features, t)
    v.check('the features with secondary cases replaced', zset(r) == features(t))
    v.no_writes('the unit is unchanged')


class Parsed(object):
    """parse() of a unit that has no tag() of its own: pure in (word, lowered word) if nothing was seen."""
    def __init__(self):
        self.unit = SUnit('own')
        self.calls = []

    def __call__(self, word, lower, seen):
        self.calls.append((word, lower, seen, len(seen.segs) if isinstance(seen, RSet) else None, getattr(seen, 'base', None)))
        return self.unit.parse(word, lower, seen)


@proof('C03 C26', 'BaseAnalyzerUnit.tag', ['units.base.BaseAnalyzerUnit.tag', 'units.utils.add_tag_if_not_seen'],
       assumes=['parse of the unit itself by its contract'])
def base_tag(v):
    unit = mod('pymorphy2.units.base').BaseAnalyzerUnit()
    parse = Parsed()
    unit.parse = parse
    shared(unit)
    word = v.str('word')
    low = word.lower()
    seen = seen_set('seen')
    v.declare('a tag of an analysis', 'every tag of an analysis is given', 'analyses are not suppressed by tags seen', 'the unit is unchanged')
    r = v.call('BaseAnalyzerUnit.tag', unit.tag, word, low, seen)
    for w, l, s, k, b in parse.calls:
        v.check('analyses are not suppressed by tags seen', zand(zstr(w) == word.e, zstr(l) == low.e) if k == 0 and b is None else False)
    own = parse.unit.parse(word, low)
    which = S.choose(['some', 'all', 'frame'], 'which')
    if which == 'some':
        t = v.any(r, 't')
        v.check('a tag of an analysis', v.some(own, lambda p: p[1].e == t.e))
    elif which == 'all':
        p = v.any(own, 'p')
        v.check('every tag of an analysis is given', z3.Or(SeenBase('seen')(p[1]), v.some(r, lambda t: t.e == p[1].e)))
    else:
        v.no_writes('the unit is unchanged')
