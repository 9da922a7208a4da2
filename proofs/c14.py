# -*- coding: utf-8 -*-
"""Contracts of known-word lookup."""
from .common import *
from .dictstub import *

D = 'units.by_lookup.DictionaryAnalyzer.'
W = 'opencorpora_dict.wrapper.Dictionary.'
M = 'analyzer.MorphAnalyzer.'
DAWG = ('the word DAWG by its contract: the stored spellings of a word under the substitutions, with their entries (checked against '
        'the real library by the bounded part)')
TABLES = 'well-formed tables (C13, C15)'


class Subst(object):
    """Compiled substitutes (non-empty)."""
    _symbolic = True

    def _truth(self):
        return z3.BoolVal(True)

    def __bool__(self):
        return True


def lookup_unit(v):
    d, unit = dict_unit(v)
    subst = Subst()
    unit.morph = bare(mod('pymorphy2.analyzer').MorphAnalyzer, char_substitutes=subst, dictionary=d.dict)
    shared(unit.morph)
    words = d.dict.words = Words(d, subst)
    word = v.str('word')
    return d, unit, words, word, word.lower()


def an_entry(v, d, words, low):
    """Any entry of any stored spelling of the word."""
    i, j = v.int('i'), v.int('j')
    key = W_sim(low.e, i.e)
    S.assume(zand(i.e >= 0, i.e < W_nsim(low.e), j.e >= 0, j.e < W_nent(key)))
    v.cand(i, kind='spellings')
    v.cand(j, kind='entries')
    for f in words.entry_facts(key, j.e):
        S.assume(f)
    return key, j.e, W_para(key, j.e), W_idx(key, j.e)


def nf_of(d, para, key, j):
    return z3.Concat(d.pre(para, 0), W_stem(key, j), d.suf(para, 0))


@proof('C14', 'the middle of a word made of prefix, stem and ending is the stem', [])
def middle_lemma(v):
    v.declare('the stem')
    pre, stem, suf = v.str('pre').e, v.str('stem').e, v.str('suf').e
    v.check('the stem', middle(z3.Concat(pre, stem, suf), z3.Length(pre), z3.Length(suf)) == stem)


@proof('C14 C02 C01 C26', 'DictionaryAnalyzer.parse', [D + 'parse', W + 'build_normal_form', W + 'build_tag_info', W + 'build_stem'],
       assumes=[DAWG, TABLES])
def dict_parse(v):
    d, unit, words, word, low = lookup_unit(v)
    seen = seen_set('seen')
    v.declare('an entry of a stored spelling', 'as long as the word', 'the normal form is the first form with the entry\'s stem', 'every entry is given', 'the unit and dictionary are unchanged')
    r = v.call('parse', unit.parse, word, low, seen)
    which = S.choose(['some', 'all', 'frame'], 'which')

    def is_entry(p, key, j, para, idx):
        st = p[4]
        m = st[0] if isinstance(st, tuple) and len(st) == 1 else None
        if not (isinstance(m, tuple) and len(m) == 4 and same_obj(m[0], unit)):
            return z3.BoolVal(False)
        return zand(zstr(p[0]) == key, p[1].e == d.tag(para, idx), zreal(p[3]) == 1,
                    zstr(m[1]) == key, zint(m[2]) == para, zint(m[3]) == idx)
    if which == 'some':
        p = v.any(r, 'p')
        i, j = z3.Ints('si sj')
        S.set_kind(i, 'spellings'); S.set_kind(j, 'entries')
        key = W_sim(low.e, i)
        S.add_univ([i, j], z3.Implies(zand(i >= 0, i < W_nsim(low.e), j >= 0, j < W_nent(key)),
                                      z3.Not(is_entry(p, key, j, W_para(key, j), W_idx(key, j)))))
        v.check('an entry of a stored spelling', False)
    elif which == 'all':
        key, j, para, idx = an_entry(v, d, words, low)
        v.check('as long as the word', z3.Implies(z3.Length(key) == z3.Length(low.e), v.some(r, lambda p: zand(
            is_entry(p, key, j, para, idx), z3.Length(zstr(p[0])) == z3.Length(low.e)))))
        v.check('every entry is given', v.some(r, lambda p: is_entry(p, key, j, para, idx)))
        v.check('the normal form is the first form with the entry\'s stem',
                v.some(r, lambda p: zand(is_entry(p, key, j, para, idx), zstr(p[2]) == nf_of(d, para, key, j))))
    else:
        v.no_writes('the unit and dictionary are unchanged')


@proof('C14 C03 C01 C26', 'DictionaryAnalyzer.tag', [D + 'tag'], assumes=[DAWG, TABLES])
def dict_tag(v):
    d, unit, words, word, low = lookup_unit(v)
    seen = seen_set('seen')
    v.declare('the tag of an entry of a stored spelling', 'the tag of every entry is given', 'the unit and dictionary are unchanged')
    r = v.call('tag', unit.tag, word, low, seen)
    which = S.choose(['some', 'all', 'frame'], 'which')
    if which == 'some':
        t = v.any(r, 't')
        i, j = z3.Ints('si sj')
        S.set_kind(i, 'spellings'); S.set_kind(j, 'entries')
        key = W_sim(low.e, i)
        S.add_univ([i, j], z3.Implies(zand(i >= 0, i < W_nsim(low.e), j >= 0, j < W_nent(key)),
                                      t.e != d.tag(W_para(key, j), W_idx(key, j))))
        v.check('the tag of an entry of a stored spelling', False)
    elif which == 'all':
        key, j, para, idx = an_entry(v, d, words, low)
        v.check('the tag of every entry is given', v.some(r, lambda t: t.e == d.tag(para, idx)))
    else:
        v.no_writes('the unit and dictionary are unchanged')


def analyzer(v):
    d, unit = dict_unit(v)
    subst = Subst()
    A = mod('pymorphy2.analyzer')
    words = d.dict.words = Words(d, subst)
    m = bare(A.MorphAnalyzer, char_substitutes=subst, dictionary=d.dict, _units=[(unit, False)], _result_type=None)
    shared(m)
    return m, d, unit, words, subst


@proof('C14 C26', 'MorphAnalyzer.word_is_known', [M + 'word_is_known', W + 'word_is_known'], assumes=[DAWG])
def is_known(v):
    m, d, unit, words, subst = analyzer(v)
    word = v.str('word')
    low = word.lower()
    nosubst = S.choose([False, True], 'no substitutes')
    if nosubst:
        m.char_substitutes = {}
    strict = S.choose([True, False], 'strict')
    r = v.call('word_is_known', m.word_is_known, word, strict=strict) if strict else v.call('word_is_known', m.word_is_known, word)
    v.declare('strict: the lower-cased word is stored', 'otherwise: some spelling is stored', 'a boolean', 'nothing is changed')
    v.check('a boolean', isinstance(r, (bool, SBool)))
    if strict or nosubst:
        v.check('strict: the lower-cased word is stored', zb(r) == W_known(low.e))
    else:
        v.check('otherwise: some spelling is stored', zb(r) == (W_nsim(low.e) > 0))
    v.no_writes('nothing is changed')


@proof('C14 C26', 'iter_known_words and iter_known_word_parses', [M + 'iter_known_word_parses', W + 'iter_known_words'], assumes=[DAWG, TABLES])
def iterate(v):
    m, d, unit, words, subst = analyzer(v)
    A = mod('pymorphy2.analyzer')
    if S.choose([False, True], 'Parse results'):
        m._result_type = v.obj('Parse', lambda: type('Parse', (A.Parse,), {}))
    prefix = v.str('prefix')
    r = as_list(v.call('iter_known_word_parses', m.iter_known_word_parses, prefix))
    n = W_nall(prefix.e)
    v.declare('one analysis per entry with the prefix', 'word, tag and normal form of the entry', 'an analysis of the word by the dictionary',
              'nothing is changed')
    v.check('one analysis per entry with the prefix', zint(r.length()) == n)
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < n))
    p = r[i]
    key, pos = W_key(prefix.e, i.e), W_pos(prefix.e, i.e)
    para, idx = words.entry(key, pos)
    v.check('word, tag and normal form of the entry', zand(zstr(p[0]) == key, p[1].e == d.tag(para, idx), zstr(p[2]) == nf_of(d, para, key, pos)))
    st = p[4]
    v.check('an analysis of the word by the dictionary', len(st) == 1 and len(st[0]) == 4 and same_obj(st[0][0], unit) and
            zand(zstr(st[0][1]) == key, zint(st[0][2]) == para, zint(st[0][3]) == idx))
    v.no_writes('nothing is changed')


@proof('C14 C26', 'Parse.is_known', ['analyzer.Parse.is_known', W + 'word_is_known'], assumes=[DAWG])
def parse_is_known(v):
    m, d, unit, words, subst = analyzer(v)
    P = mod('pymorphy2.analyzer').Parse
    if S.choose([False, True], 'no substitutes'):
        m.char_substitutes = {}
        stored = lambda w: W_known(w)
    else:
        stored = lambda w: W_nsim(w) > 0
    cls = v.obj('Parse', lambda: type('Parse', (P,), {}))
    cls._morph, cls._dict = m, m.dictionary
    word = v.str('word')
    p = cls(word, v.str('tag'), v.str('normal'), v.real('score'), ())
    r = v.call('is_known', lambda: p.is_known)
    v.check('a boolean', isinstance(r, (bool, SBool)))
    v.check('known if some spelling of the word is stored', zb(r) == stored(word.e))
    v.no_writes('nothing is changed')
