# -*- coding: utf-8 -*-
"""Contracts of the dictionary wrapper, the dictionary unit and the coroutines that put affixes back."""
from .common import *
from .dictstub import *

W = 'opencorpora_dict.wrapper.Dictionary.'


@proof('C07 C13 C14', 'Dictionary.build_stem, build_normal_form, build_tag_info',
       [W + 'build_stem', W + 'build_normal_form', W + 'build_tag_info'])
def build(v):
    d = SymDict(v)
    para, idx = d.entry(v, 'e')
    stem = v.str('stem')
    word = SStr(z3.Concat(d.pre(para, idx), stem.e, d.suf(para, idx)))
    v.declare('the stem is the word without the prefix and ending of its form', 'the normal form has the prefix and ending of the first form',
              'the tag of the form', 'the dictionary is unchanged')
    which = S.choose(['stem', 'nf', 'tag'], 'which')
    if which == 'stem':
        r = v.call('build_stem', d.dict.build_stem, d.dict.paradigms[para], idx, word)
        v.check('the stem is the word without the prefix and ending of its form', zstr(r) == stem.e)
    elif which == 'nf':
        r = v.call('build_normal_form', d.dict.build_normal_form, para, idx, word)
        v.check('the normal form has the prefix and ending of the first form',
                zstr(r) == z3.Concat(d.pre(para, 0), stem.e, d.suf(para, 0)))
    else:
        r = v.call('build_tag_info', d.dict.build_tag_info, para, idx)
        v.check('the tag of the form', r.e == d.tag(para, idx))
    v.no_writes('the dictionary is unchanged')


@proof('C07 C13', 'Dictionary.build_paradigm_info', [W + 'build_paradigm_info'])
def paradigm_info(v):
    d = SymDict(v)
    para, idx = d.entry(v, 'e')
    r = v.call('build_paradigm_info', d.dict.build_paradigm_info, para)
    v.declare('one entry per form', 'prefix, tag and ending of the form in its place')
    v.check('one entry per form', zint(as_list(r).length()) == d.size(para))
    p, t, s = r[idx]
    v.check('prefix, tag and ending of the form in its place', zand(zstr(p) == d.pre(para, idx), t.e == d.tag(para, idx),
                                                                    zstr(s) == d.suf(para, idx)))
    v.no_writes('the dictionary is unchanged')


D = 'units.by_lookup.DictionaryAnalyzer.'


def form_of(d, unit, para, idx, stem, nf, tag=None, rest=()):
    word = SStr(z3.Concat(d.pre(para, idx), stem.e, d.suf(para, idx)))
    return (word, STag(d.tag(para, idx)), nf, 1.0, ((unit, word, para, idx),) + rest)


def same_form(a, b):
    """Word, tag, normal form and dictionary position agree."""
    ma, mb = a[4][0], b[4][0]
    return zand(zstr(a[0]) == zstr(b[0]), a[1].e == b[1].e, zstr(a[2]) == zstr(b[2]), same_obj(ma[0], mb[0]),
                zstr(ma[1]) == zstr(mb[1]), zint(ma[2]) == zint(mb[2]), zint(ma[3]) == zint(mb[3]))


@proof('C07', 'DictionaryAnalyzer.get_lexeme and normalized',
       [D + 'get_lexeme', D + 'normalized', D + '_extract_para_info', D + '_fix_stack', W + 'build_stem', W + 'build_paradigm_info',
        W + 'build_tag_info'])
def dict_lexeme(v):
    d, unit = dict_unit(v)
    para, idx = d.entry(v, 'e')
    stem = v.str('stem')
    nf = SStr(z3.Concat(d.pre(para, 0), stem.e, d.suf(para, 0)))
    form = form_of(d, unit, para, idx, stem, nf)
    v.declare('the lexeme has as many forms as the paradigm', 'every form of the paradigm in its place', 'the form itself is in the lexeme',
              'all forms have the normal form', 'the normalised form is the first of the lexeme', 'the word of the first form is the normal form',
              'every form has the same lexeme', 'the unit and dictionary are unchanged')
    lex = v.call('get_lexeme', unit.get_lexeme, form)
    which = S.choose(['forms', 'self', 'norm', 'other', 'frame'], 'which')
    if which == 'forms':
        v.check('the lexeme has as many forms as the paradigm', zint(as_list(lex).length()) == d.size(para))
        k = d.index(v, 'k', para)
        f = lex[k]
        v.check('every form of the paradigm in its place', same_form(f, form_of(d, unit, para, k, stem, nf)))
        v.check('all forms have the normal form', zstr(f[2]) == nf.e)
    elif which == 'self':
        v.check('the form itself is in the lexeme', same_form(lex[idx], form))
    elif which == 'norm':
        n = v.call('normalized', unit.normalized, form)
        v.check('the normalised form is the first of the lexeme', same_form(n, lex[0]))
        v.check('the word of the first form is the normal form', zstr(lex[0][0]) == nf.e)
    elif which == 'other':
        k, j = d.index(v, 'k', para), d.index(v, 'j', para)
        lex2 = v.call('get_lexeme', unit.get_lexeme, lex[k])
        v.check('every form has the same lexeme', zint(as_list(lex2).length()) == zint(as_list(lex).length()))
        v.check('every form has the same lexeme', same_form(lex2[j], lex[j]))
    else:
        v.no_writes('the unit and dictionary are unchanged')


# ---------------------------------------------------------------------- affixes put back around another unit's lexeme

class BaseLexeme(object):
    """The lexeme of the remainder's analysis, by induction coherent (C07): it contains the form, its first form is the
    normalised one, all forms have the normal form, and every form has this lexeme."""

    def __init__(self, v, base):
        self.v, self.base, self.asked = v, base, []
        dom = z3.Const('lexeme', Obj)
        self.n = z3.Int('n_lexeme')
        self.pos = z3.Int('pos_in_lexeme')
        S.assume(zand(self.pos >= 0, self.pos < self.n))
        self.stack = z3.Function('lex_stack', IntS, Obj)
        self.word = z3.Function('lex_word', IntS, StrS)
        self.tag = z3.Function('lex_tag', IntS, Obj)
        self.score = z3.Function('lex_score', IntS, RealS)
        self.nf = z3.String('lex_nf')
        S.assume(self.word(z3.IntVal(0)) == self.nf)

    def form(self, k):
        k = k if isinstance(k, z3.ExprRef) else zint(k)
        return (SStr(self.word(k)), STag(self.tag(k)), SStr(self.nf), SReal(self.score(k)), Stack(self.stack(k)))

    def list(self):
        return self.v.regular_list('lexeme', self.form, n=self.n)

    def is_member(self, f):
        """Formula: f is a form of this lexeme at a known position, by word, tag, normal form and stack."""
        if not isinstance(f[4], Stack) or f[4].extra:
            return z3.BoolVal(False)
        k = self.v.int('at')
        return self.at(f, k.e)

    def at(self, f, k):
        return zand(zstr(f[0]) == self.word(k), f[1].e == self.tag(k), zstr(f[2]) == self.nf, f[4].base == self.stack(k))


def affix_proof(props, name, make, decorate, affixes, functions):
    """The unit's lexeme is the remainder's lexeme with the affix put back; its normalised form is its first form."""
    @proof(props, name, functions, assumes=['the remainder\'s unit by the contract C07 (induction over nested affixes)'])
    def prove(v):
        unit = v.obj('unit', make)
        shared(unit)
        affix = v.str('affix')
        S.assume(z3.Length(affix.e) >= 1)
        base = z3.Const('base_stack', Obj)
        L = BaseLexeme(v, base)
        asked = []

        def hook(method, form):
            asked.append(form)
            if method == 'get_lexeme':
                return L.list()
            return L.form(z3.IntVal(0))
        BaseUnit.hook = staticmethod(hook)
        k = v.int('k')
        S.assume(zand(k.e >= 0, k.e < L.n))
        form = put_back(L.form(k), decorate, affix, unit)
        v.declare('the remainder is what the affix was put on', 'as many forms as the remainder has', 'every form with the affix put back',
                  'the form itself is in the lexeme', 'all forms have the normal form', 'the normalised form is the first of the lexeme',
                  'the word of the first form is the normal form', 'the unit is unchanged')
        lex = v.call('get_lexeme', unit.get_lexeme, form)
        v.check('the remainder is what the affix was put on', len(asked) == 1)
        a = asked[0]
        v.check('the remainder is what the affix was put on', zand(L.at(a, k.e)) if isinstance(a[4], Stack) and not a[4].extra else False)
        which = S.choose(['forms', 'norm', 'frame'], 'which')
        if which == 'forms':
            v.check('as many forms as the remainder has', zint(as_list(lex).length()) == L.n)
            j = v.int('j')
            S.assume(zand(j.e >= 0, j.e < L.n))
            f = lex[j]
            v.check('every form with the affix put back', same_dec(f, put_back(L.form(j), decorate, affix, unit)))
            v.check('all forms have the normal form', zstr(f[2]) == zstr(form[2]))
            v.check('the form itself is in the lexeme', same_dec(lex[k], form))
        elif which == 'norm':
            n = v.call('normalized', unit.normalized, form)
            v.check('the normalised form is the first of the lexeme', same_dec(n, lex[0]))
            v.check('the word of the first form is the normal form', zstr(lex[0][0]) == zstr(form[2]))
        else:
            v.no_writes('the unit is unchanged')
    return prove


def put_back(f, decorate, affix, unit):
    return (SStr(decorate(zstr(f[0]), affix.e)), f[1], SStr(decorate(zstr(f[2]), affix.e)), f[3], f[4] + ((unit, affix),))


def no_affix(s, a):
    return s


def same_dec(a, b):
    sa, sb = a[4], b[4]
    if not (isinstance(sa, Stack) and isinstance(sb, Stack) and len(sa.extra) == len(sb.extra) == 1):
        return z3.BoolVal(False)
    ma, mb = sa.extra[0], sb.extra[0]
    return zand(zstr(a[0]) == zstr(b[0]), a[1].e == b[1].e, zstr(a[2]) == zstr(b[2]), sa.base == sb.base,
                same_obj(ma[0], mb[0]), zstr(ma[1]) == zstr(mb[1]))


U = ['units.base.AnalogyAnalizerUnit.normalized', 'units.base.AnalogyAnalizerUnit.get_lexeme', 'units.base.AnalogyAnalizerUnit._method_info',
     'units.utils.without_last_method', 'units.utils.append_method']
front = lambda s, a: z3.Concat(a, s)
back = lambda s, a: z3.Concat(s, a)
PX = ['units.by_analogy._PrefixAnalyzer.normalizer', 'units.by_analogy._PrefixAnalyzer.lexemizer']
affix_proof('C07 C06', 'lexemes behind a known prefix', lambda: mod('pymorphy2.units.by_analogy').KnownPrefixAnalyzer(()), front, 0, U + PX)
affix_proof('C07 C06', 'lexemes behind a guessed prefix', lambda: mod('pymorphy2.units.by_analogy').UnknownPrefixAnalyzer(), front, 0, U + PX)
affix_proof('C07 C06', 'lexemes before a particle', lambda: mod('pymorphy2.units.by_hyphen').HyphenSeparatedParticleAnalyzer(()), back, 0,
            U + ['units.by_hyphen.HyphenSeparatedParticleAnalyzer.normalizer', 'units.by_hyphen.HyphenSeparatedParticleAnalyzer.lexemizer'])
affix_proof('C07', 'lexemes of words predicted by their ending', lambda: mod('pymorphy2.units.by_analogy').KnownSuffixAnalyzer(),
            lambda s, a: s, 0, U + ['units.base.AnalogyAnalizerUnit.normalizer', 'units.base.AnalogyAnalizerUnit.lexemizer'])


H = 'units.by_hyphen.HyphenatedWordsAnalyzer.'


@proof('C07 C06', 'lexemes with an invariable left part', [H + 'get_lexeme', H + 'normalized', H + '_iter_lexeme', H + '_fixed_left_method_was_used',
                                                         'units.utils.without_fixed_prefix', 'units.utils.with_prefix',
                                                         'units.utils.replace_methods_stack'],
       assumes=['the right part\'s unit by the contract C07'])
def fixed_left(v):
    unit = v.obj('unit', lambda: mod('pymorphy2.units.by_hyphen').HyphenatedWordsAnalyzer(()))
    shared(unit)
    left = v.str('left')
    L = BaseLexeme(v, None)
    asked = []

    def hook(method, form):
        asked.append(form)
        return L.list() if method == 'get_lexeme' else L.form(z3.IntVal(0))
    BaseUnit.hook = staticmethod(hook)
    k = v.int('k')
    S.assume(zand(k.e >= 0, k.e < L.n))

    def mk(f):
        w = lambda s: SStr(z3.Concat(left.e, str_val('-'), zstr(s)))
        return (w(f[0]), f[1], w(f[2]), f[3], ((unit, left, f[4]),))
    form = mk(L.form(k))
    v.declare('the right part is what the left part was put on', 'as many forms as the right part has', 'every form with the left part put back',
              'the form itself is in the lexeme', 'all forms have the normal form', 'the normalised form is the first of the lexeme',
              'the word of the first form is the normal form', 'the unit is unchanged')

    def same(a, b):
        ma, mb = a[4][0], b[4][0]
        if len(a[4]) != 1 or len(ma) != 3 or not isinstance(ma[2], Stack) or ma[2].extra:
            return z3.BoolVal(False)
        return zand(zstr(a[0]) == zstr(b[0]), a[1].e == b[1].e, zstr(a[2]) == zstr(b[2]), same_obj(ma[0], mb[0]),
                    zstr(ma[1]) == zstr(mb[1]), ma[2].base == mb[2].base)
    lex = v.call('get_lexeme', unit.get_lexeme, form)
    a = asked[0]
    v.check('the right part is what the left part was put on', L.at(a, k.e) if isinstance(a[4], Stack) and not a[4].extra else False)
    which = S.choose(['forms', 'norm', 'frame'], 'which')
    if which == 'forms':
        v.check('as many forms as the right part has', zint(as_list(lex).length()) == L.n)
        j = v.int('j')
        S.assume(zand(j.e >= 0, j.e < L.n))
        f = lex[j]
        v.check('every form with the left part put back', same(f, mk(L.form(j))))
        v.check('all forms have the normal form', zstr(f[2]) == zstr(form[2]))
        v.check('the form itself is in the lexeme', same(lex[k], form))
    elif which == 'norm':
        n = v.call('normalized', unit.normalized, form)
        v.check('the normalised form is the first of the lexeme', same(n, lex[0]))
        v.check('the word of the first form is the normal form', zstr(lex[0][0]) == zstr(form[2]))
    else:
        v.no_writes('the unit is unchanged')


def alone(mname, cname, make=None):
    @proof('C07', 'lexeme of ' + cname, ['units.%s.%s.get_lexeme' % (mname, cname), 'units.%s.%s.normalized' % (mname, cname)])
    def prove(v):
        cls = getattr(mod('pymorphy2.units.' + mname), cname)
        unit = v.obj('unit', make or cls)
        shared(unit)
        w, t = v.str('word'), STag(z3.Const('tag', Obj))
        form = (w, t, w, 0.5, ((unit, w),))
        lex = v.call('get_lexeme', unit.get_lexeme, form)
        n = v.call('normalized', unit.normalized, form)
        v.declare('the form is its own lexeme', 'and its own normalised form')
        v.check('the form is its own lexeme', zint(rt.len_(lex)) == 1)
        for name, f in (('the form is its own lexeme', lex[0]), ('and its own normalised form', n)):
            v.check(name, len(f) == 5 and len(f[4]) == 1 and f[4][0][0] is unit)
            v.check(name, zand(zstr(f[0]) == w.e, f[1].e == t.e, zstr(f[2]) == w.e, zstr(f[4][0][1]) == w.e))
        v.no_writes('the unit is unchanged')
    return prove


for _m, _c in [('by_shape', 'LatinAnalyzer'), ('by_shape', 'PunctuationAnalyzer'), ('by_shape', 'NumberAnalyzer'),
               ('by_shape', 'RomanNumberAnalyzer'), ('by_hyphen', 'HyphenAdverbAnalyzer'), ('unkn', 'UnknAnalyzer')]:
    alone(_m, _c)
