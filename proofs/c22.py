# -*- coding: utf-8 -*-
from .common import *

latin = lambda c: z3.And(contracts.P_uname_known(c), z3.Contains(contracts.U_uname(c), str_val('LATIN')))


def chars_of(s):
    n = z3.Length(s.e)
    i = S.fresh_binder('ch', IntS)
    return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < n))], SStr(z3.SubString(s.e, i, z3.IntVal(1))))], (i, n))])


def cached(v):
    m = mod('pymorphy2.shapes')
    for k, x in list(vars(m).items()):
        if isinstance(x, dict) and k.endswith('_cache'):
            setattr(m, k, InvDict(v, k, lambda c: SBool(latin(zstr(c)))))
        elif isinstance(x, InvDict):
            x.v = v
    return m


@proof('C22 C01', 'is_latin', ['shapes.is_latin', 'shapes.is_latin_char'])
def is_latin(v):
    m = cached(v)
    tok = v.str('token')
    names = ['a Latin token has a letter', 'all letters of a Latin token are Latin', 'other tokens have no letter or a foreign one']
    v.declare(*names)
    r = zbool(v.call('is_latin', m.is_latin, tok))
    e = v.each(chars_of(tok))
    if e is not None:
        c = e[0].e
        v.check(names[1], implies(z3.And(r, P_isalpha(c)), latin(c)))
        v.check(names[2], implies(z3.And(z3.Not(r), P_isalpha(c)), v.some(chars_of(tok), lambda x: z3.And(P_isalpha(x.e), z3.Not(latin(x.e))))))
        return
    v.check(names[0], implies(r, v.some(chars_of(tok), lambda x: P_isalpha(x.e))))


ispunct = lambda c: z3.SubString(contracts.U_ucat(c), z3.IntVal(0), z3.IntVal(1)) == str_val('P')


@proof('C22 C01', 'is_punctuation', ['shapes.is_punctuation'])
def is_punct(v):
    m = mod('pymorphy2.shapes')
    tok = v.str('token')
    names = ['it has a punctuation character', 'its characters are punctuation or whitespace',
             'other tokens have no punctuation character or another one']
    v.declare(*names)
    r = zbool(v.call('is_punctuation', m.is_punctuation, tok))
    c0 = z3.Const('anyc', StrS)
    # punctuation characters are not whitespace (checked for every code point in prelude_shapes)
    for ch in [z3.SubString(tok.e, z3.Int('q'), z3.IntVal(1))]:
        S.add_univ([z3.Int('q')], z3.Not(z3.And(P_isspace(ch), ispunct(ch))))
    e = v.each(chars_of(tok))
    if e is not None:
        c = e[0].e
        v.check(names[1], implies(r, z3.Or(P_isspace(c), ispunct(c))))
        v.check(names[2], implies(z3.And(z3.Not(r), ispunct(c)),
                                  v.some(chars_of(tok), lambda x: z3.And(z3.Not(ispunct(x.e)), z3.Not(P_isspace(x.e))))))
        return
    v.check(names[0], implies(r, v.some(chars_of(tok), lambda x: ispunct(x.e))))


@proof('C22', 'prelude_shapes', ['library facts used by the shape contracts, checked for every code point'])
def prelude(v):
    import unicodedata
    v.check('no punctuation character is whitespace', not any(
        chr(c).isspace() and unicodedata.category(chr(c))[0] == 'P' for c in range(0x110000)))


@proof('C22', 'is_roman_number', ['shapes.is_roman_number'])
def roman(v):
    m = mod('pymorphy2.shapes')
    tok = v.str('token')
    r = zbool(bool(v.call('is_roman_number', m.is_roman_number, tok)))
    U = lambda c: z3.Union(z3.Re(z3.StringVal(c)), z3.Re(z3.StringVal(c.lower())))
    word = lambda w: z3.Concat(*[U(c) for c in w]) if len(w) > 1 else U(w) if w else z3.Re(z3.StringVal(''))

    def digit(one, five, ten):
        alts = ['', one, one * 2, one * 3, one + five, five, five + one, five + one * 2, five + one * 3, one + ten]
        return z3.Union(*[word(a) for a in alts])
    spec = z3.Concat(z3.Union(*[word('M' * k) for k in range(5)]), digit('C', 'D', 'M'), digit('X', 'L', 'C'), digit('I', 'V', 'X'))
    # dotted capital and dotless small I are left out: whether they are an I ignoring case is not for this contract to say
    v.regex_lemma('the pattern describes exactly the numerals 0 to 4999', tok.e, spec, exclude='İı')
    good = z3.And(z3.Length(tok.e) > 0, z3.InRe(tok.e, spec))
    v.check('accepted tokens are Roman numerals of 1 to 4999', implies(r, good))
    v.check('Roman numerals of 1 to 4999 are accepted', implies(good, r))


@proof('C22 C02 C01', 'NumberAnalyzer', ['units.by_shape.NumberAnalyzer.check_shape', 'units.by_shape.NumberAnalyzer.get_tag',
                                     'units.by_shape._ShapeAnalyzer.parse', 'units.by_shape._ShapeAnalyzer.tag'])
def number(v):
    m = mod('pymorphy2.units.by_shape')
    u = bare(m.NumberAnalyzer, score=SReal(z3.Real('score')))
    u._tags = {'intg': STag(z3.Const('intg', Obj)), 'real': STag(z3.Const('real', Obj))}
    shared(u)
    word, low = v.str('word'), v.str('low', lower=True)
    isint = contracts.U_int_ok(word.e)
    isreal = contracts.U_float_ok(contracts.U_replace_all(word.e, str_val(','), str_val('.')))
    names = ['integers are tagged as integers', 'reals are tagged as reals', 'other tokens are not numbers',
             'word and normal form are the lower-cased token']
    v.declare(*names)
    if S.choose(['parse', 'tag'], 'method') == 'parse':
        r = as_list(v.call('NumberAnalyzer.parse', u.parse, word, low, RSet()))
        tags = [f[1] for f in r.items()]
        for f in r.items():
            v.check(names[3], z3.And(zstr(f[0]) == low.e, zstr(f[2]) == low.e))
    else:
        tags = as_list(v.call('NumberAnalyzer.tag', u.tag, word, low, RSet())).items()
    one = len(tags) == 1
    v.check(names[0], implies(isint, v.eq(tags[0], u._tags['intg']) if one else False))
    v.check(names[1], implies(z3.And(z3.Not(isint), isreal), v.eq(tags[0], u._tags['real']) if one else False))
    v.check(names[2], implies(z3.And(z3.Not(isint), z3.Not(isreal)), z3.BoolVal(not tags)))
    v.no_writes('the unit is unchanged')


@proof('C22 C02 C01', 'single_shapes', ['units.by_shape._SingleShapeAnalyzer', 'units.by_shape._ShapeAnalyzer.parse', 'units.by_shape._ShapeAnalyzer.tag'])
def single(v):
    m = mod('pymorphy2.units.by_shape')
    cls, fn = S.choose([(m.LatinAnalyzer, 'is_latin'), (m.PunctuationAnalyzer, 'is_punctuation'), (m.RomanNumberAnalyzer, 'is_roman_number')], 'unit')
    u = bare(cls, score=SReal(z3.Real('score')))
    u._tag = STag(z3.Const('tag', Obj))
    shared(u)
    word, low = v.str('word'), v.str('low', lower=True)
    shape = z3.Function(fn, StrS, BoolS)
    real = getattr(m, fn)
    setattr(m, fn, lambda t: SBool(shape(zstr(t))))
    try:
        name = cls.__name__
        if S.choose(['parse', 'tag'], 'method') == 'parse':
            r = as_list(v.call(name + '.parse', u.parse, word, low, RSet())).items()
            tags = [f[1] for f in r]
            for f in r:
                v.check(name + ': word and normal form are the lower-cased token', z3.And(zstr(f[0]) == low.e, zstr(f[2]) == low.e))
        else:
            tags = as_list(v.call(name + '.tag', u.tag, word, low, RSet())).items()
    finally:
        setattr(m, fn, real)
    v.check(name + ': recognised exactly by the shape of the token', z3.And(shape(word.e) == z3.BoolVal(len(tags) == 1),
                                                                          z3.BoolVal(len(tags) <= 1)))
    for t in tags:
        v.check(name + ': with its own tag', v.eq(t, u._tag))
    v.no_writes('the unit is unchanged')
