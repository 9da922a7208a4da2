# -*- coding: utf-8 -*-
from .common import *

GENDERS = ['masc', 'femn']
CASES = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct']


def unit(v, cls):
    """A unit constructed and initialised by the code itself; arbitrary letters and score."""
    T = real_tag_class()
    # the grammemes the dictionaries define; the ones of the initials may or may not be among them
    known = set(T.PARTS_OF_SPEECH) | set(T.CASES) | set(T.GENDERS) | set(T.NUMBERS) | set(['anim', 'Sgtm', 'Fixd', 'Abbr', 'UNKN'])
    if S.choose(['defined', 'not defined'], 'grammemes') == 'defined':
        known |= set(['Init', 'Name', 'Patr'])
    tags = type(str('Tag'), (T,), dict(KNOWN_GRAMMEMES=known, _LAT2CYR=dict((g, g) for g in known), _CYR2LAT=dict((g, g) for g in known)))
    morph = bare(type(str('Morph'), (object,), {}), TagClass=tags, dictionary=None)
    f = z3.Function('letter', IntS, StrS)
    letters = v.regular_list('letters', lambda i: SStr(f(i)))
    score = v.real('score')
    u = v.call('constructor', cls, letters, score=score)
    v.call('init', u.init, morph)
    return u, tags, letters, score


def pick(v):
    m = mod('pymorphy2.units.abbreviations')
    return S.choose([(m.AbbreviatedFirstNameAnalyzer, 'Name'), (m.AbbreviatedPatronymicAnalyzer, 'Patr')], 'unit')


def table(tags, kind):
    """(gender, case) -> the grammemes the property asks for."""
    return {(g, c): frozenset(['NOUN', 'anim', g, 'Sgtm', kind, 'Fixd', 'Abbr', 'Init', 'sing', c]) for g in GENDERS for c in CASES}


def place(t, tab):
    """The gender and case of a tag of the table (None if it is not one)."""
    return [k for k, gs in tab.items() if gs == t.grammemes]


@proof('C29', 'initials: parse and tag', ['units.abbreviations._InitialsAnalyzer'])
def parse(v):
    cls, kind = pick(v)
    u, tags, letters, score = unit(v, cls)
    tab = table(tags, kind)
    word, low = v.str('word'), v.str('low', lower=True)
    names = ['one analysis per gender and case', 'only initials are analysed', 'every initial is analysed',
             'word and normal form are the lower-cased letter', 'the score is the configured one', 'the form leads back to the unit']
    v.declare(*names)
    shared(u)
    w0 = len(S.writes)
    if S.choose(['parse', 'tag'], 'method') == 'parse':
        r = as_list(v.call('parse', u.parse, word, low, seen_set('seen'))).items()
        for p in r:
            v.check(names[3], z3.And(zstr(p[0]) == low.e, zstr(p[2]) == low.e))
            v.check(names[4], zreal(p[3]) == score.e)
            v.check(names[5], zand(p[4][-1][0] is u, zb(eq(p[4][-1][1], word))))
        got = [p[1] for p in r]
    else:
        got = as_list(v.call('tag', u.tag, word, low, seen_set('seen'))).items()
    if got:
        v.check(names[0], sorted(sum([place(t, tab) for t in got], [])) == sorted(tab) and len(got) == len(tab)
                and all(type(t) is tags for t in got))
        v.check(names[1], v.some(letters, lambda l: l.e == word.e))
    else:
        e = v.each(letters)
        if e is not None:
            v.check(names[2], e[0].e != word.e)
    v.check('the unit is unchanged', S.writes[w0:] == [])


@proof('C29', 'initials: lexemes', ['units.abbreviations.AbbreviatedFirstNameAnalyzer', 'units.abbreviations.AbbreviatedPatronymicAnalyzer'])
def lexemes(v):
    cls, kind = pick(v)
    u, tags, letters, score = unit(v, cls)
    tab = table(tags, kind)
    word, low = v.str('word'), v.str('low', lower=True)
    shared(u)
    w0 = len(S.writes)
    names = ['the lexeme of a first name has the cases of its gender', 'the lexeme of a patronymic has both genders',
             'lexeme forms keep word, normal form, score and stack', 'a first name is normalised within its gender',
             'a patronymic is normalised to the first form of its lexeme', 'the normalised form keeps word, normal form, score and stack']
    v.declare(*names)
    r = as_list(v.call('parse', u.parse, word, low, seen_set('seen'))).items()
    for p in r:
        (g, c), = place(p[1], tab)
        want = [k for k in tab if kind == 'Patr' or k[0] == g]
        lex = as_list(v.call('get_lexeme', u.get_lexeme, p)).items()
        norm = v.call('normalized', u.normalized, p)
        same = lambda f: zand(zb(eq(f[0], p[0])), zb(eq(f[2], p[2])), zb(eq(f[3], p[3])), f[4] is p[4] or zb(eq(f[4], p[4])))
        v.check(names[0 if kind == 'Name' else 1], sorted(sum([place(f[1], tab) for f in lex], [])) == sorted(want) and len(lex) == len(want))
        for f in lex:
            v.check(names[2], same(f))
        first = (g if kind == 'Name' else 'masc', 'nomn')
        v.check(names[3 if kind == 'Name' else 4], place(norm[1], tab) == [first])
        v.check(names[5], same(norm))
    v.check('the unit is unchanged', S.writes[w0:] == [])
