# -*- coding: utf-8 -*-
"""Contracts of OpencorporaTag as a sequence of known grammemes."""
from .common import *

T = 'tagset.OpencorporaTag.'
SEQ = 'tuples compare lexicographically by a strict total order and hash by content (Python semantics of tuple)'


@proof('C10', 'OpencorporaTag.__init__', [T + '__init__', T + '_assert_grammemes_are_known'],
       assumes=['sys.intern returns an equal string'])
def init(v):
    cls, known = tag_class(v)
    s = v.str('s')
    parts = s.replace(' ', ',', 1).split(',')
    o = v.run(cls, s)
    v.declare('known names only', 'an unknown name: ValueError', 'as many names as the separators make',
              'every name in its place', 'prints as the string', 'the first name is the part of speech')
    if o.exc is not None:
        v.check('an unknown name: ValueError', isinstance(o.exc, ValueError))
        v.check('an unknown name: ValueError', v.some(parts, lambda g: z3.Not(z3.IsMember(g.e, known.e))))
        return
    t = o.value
    names = t._grammemes_tuple
    x = v.each(names)
    if x is not None:
        v.check('known names only', z3.IsMember(zstr(x[0]), known.e))
        return
    v.check('as many names as the separators make', zint(as_list(names).length()) == zint(parts.length()))
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < zint(parts.length())))
    v.check('every name in its place', zstr(names[i]) == zstr(parts[i]))
    v.check('prints as the string', zstr(t.__str__()) == s.e)
    v.check('the first name is the part of speech', zstr(t._POS) == zstr(parts[0]))


@proof('C10 C25', 'OpencorporaTag comparisons', [T + '__eq__', T + '__ne__', T + '__lt__', T + '__gt__', T + '__hash__', T + '__len__',
                                             T + '__reduce__'], assumes=[SEQ])
def compare(v):
    cls, known = tag_class(v)
    a, sa = seq_tag(v, cls, 'a')
    b, sb = seq_tag(v, cls, 'b')
    S.assume(SSeq.total(sa, sb))
    which = S.choose(['eq', 'ne', 'lt', 'gt', 'hash', 'len', 'reduce'], 'which')
    v.declare('equal exactly if the sequences are', 'unequal exactly if the sequences are', 'less like the sequences',
              'greater like the sequences', 'equal sequences hash alike', 'the length is the number of names',
              'pickled as its class and string')
    if which == 'eq':
        r = v.call('__eq__', a.__eq__, b)
        v.check('equal exactly if the sequences are', zbool(r) == (sa.e == sb.e))
    elif which == 'ne':
        r = v.call('__ne__', a.__ne__, b)
        v.check('unequal exactly if the sequences are', zbool(r) == (sa.e != sb.e))
    elif which == 'lt':
        r = v.call('__lt__', a.__lt__, b)
        v.check('less like the sequences', zbool(r) == SSeq.lt(sa, sb))
    elif which == 'gt':
        r = v.call('__gt__', a.__gt__, b)
        v.check('greater like the sequences', zbool(r) == SSeq.lt(sb, sa))
    elif which == 'hash':
        x = v.call('__hash__', a.__hash__)
        y = v.call('__hash__', b.__hash__)
        v.check('equal sequences hash alike', z3.Implies(sa.e == sb.e, zint(x) == zint(y)))
    elif which == 'len':
        x = v.call('__len__', a.__len__)
        v.check('the length is the number of names', zint(x) == sa.n)
    else:
        r = v.call('__reduce__', a.__reduce__)
        v.check('pickled as its class and string', isinstance(r, tuple) and len(r) in (2, 3) and r[0] is cls and len(r[1]) == 1 and
                (len(r) == 2 or r[2] is None))
        v.check('pickled as its class and string', zstr(r[1][0]) == a._str.e)
    v.no_writes('the tags are unchanged')


@proof('C10', 'grammeme in tag', [T + '__contains__', T + 'grammeme_is_known', T + '_assert_grammemes_are_known',
                                  T + '_assert_grammemes_initialized'])
def contains_one(v):
    cls, known = tag_class(v)
    t, gs = sym_tag(v, cls=cls)
    x = v.str('x')
    o = v.run(t.__contains__, x)
    v.declare('true exactly if the tag has it', 'ValueError exactly if absent and unknown')
    inside = z3.IsMember(x.e, gs.e)
    if o.exc is not None:
        v.check('ValueError exactly if absent and unknown', isinstance(o.exc, ValueError))
        v.check('ValueError exactly if absent and unknown', zand(z3.Not(inside), z3.Not(z3.IsMember(x.e, known.e))))
        return
    v.check('true exactly if the tag has it', zbool(o.value) == inside)
    v.check('ValueError exactly if absent and unknown', z3.Or(inside, z3.IsMember(x.e, known.e)))


@proof('C10', 'set of grammemes in tag', [T + '__contains__', T + '_assert_grammemes_are_known'])
def contains_set(v):
    cls, known = tag_class(v)
    t, gs = sym_tag(v, cls=cls)
    xs = v.set('xs')
    o = v.run(t.__contains__, xs)
    v.declare('true exactly if the tag has all of them', 'ValueError exactly if not all are in and one is unknown')
    inside = z3.IsSubset(xs.e, gs.e)
    allknown = z3.IsSubset(xs.e, known.e)
    if o.exc is not None:
        v.check('ValueError exactly if not all are in and one is unknown', isinstance(o.exc, ValueError))
        v.check('ValueError exactly if not all are in and one is unknown', zand(z3.Not(inside), z3.Not(allknown)))
        return
    v.check('true exactly if the tag has all of them', zbool(o.value) == inside)
    v.check('ValueError exactly if not all are in and one is unknown', z3.Or(inside, allknown))


CATEGORIES = [('POS', 'PARTS_OF_SPEECH'), ('animacy', 'ANIMACY'), ('aspect', 'ASPECTS'), ('case', 'CASES'), ('gender', 'GENDERS'),
              ('involvement', 'INVOLVEMENT'), ('mood', 'MOODS'), ('number', 'NUMBERS'), ('person', 'PERSONS'), ('tense', 'TENSES'),
              ('transitivity', 'TRANSITIVITY'), ('voice', 'VOICES')]
SPEC = {
    'POS': 'NOUN ADJF ADJS COMP VERB INFN PRTF PRTS GRND NUMR ADVB NPRO PRED PREP CONJ PRCL INTJ',
    'animacy': 'anim inan', 'aspect': 'perf impf', 'case': 'nomn gent datv accs ablt loct voct gen1 gen2 acc2 loc1 loc2',
    'gender': 'masc femn neut', 'involvement': 'incl excl', 'mood': 'indc impr', 'number': 'sing plur', 'person': '1per 2per 3per',
    'tense': 'pres past futr', 'transitivity': 'tran intr', 'voice': 'actv pssv'}


def category(attr):
    @proof('C10', 'category ' + attr, ['tagset._select_grammeme_from.__get__'])
    def prove(v):
        cls, known = tag_class(v)
        t, gs = sym_tag(v, cls=cls)
        names = SPEC[attr].split()
        r = v.call(attr, lambda: getattr(t, attr))
        v.declare('the tag\'s grammeme of this category', 'None if it has none', 'the tag is unchanged')
        if r is None:
            v.check('None if it has none', zand(*[z3.Not(has(gs, x)) for x in names]))
        else:
            v.check('the tag\'s grammeme of this category', zand(has(gs, r) if isinstance(r, str) else z3.IsMember(zstr(r), gs.e),
                                                                 z3.Or(*[zstr(r) == str_val(x) for x in names])))
        v.no_writes('the tag is unchanged')
    return prove


for _a, _ in CATEGORIES:
    category(_a)


@proof('C10', 'OpencorporaTag.grammemes', [T + 'grammemes'])
def grammemes(v):
    cls, known = tag_class(v)
    t, seq = seq_tag(v, cls, 't')
    S.memo['shared'] = set()        # the lazily built set is a cache
    r = v.call('grammemes', lambda: t.grammemes)
    x = v.str('x')
    v.cand(x)
    v.declare('every name is in the set', 'nothing else is in the set')
    if S.choose([0, 1], 'which'):
        i = v.int('i')
        S.assume(zand(i.e >= 0, i.e < seq.n))
        v.check('every name is in the set', z3.IsMember(zstr(seq[i]), zset(r)))
    else:
        S.assume(z3.IsMember(x.e, zset(r)))
        v.check('nothing else is in the set', v.some(seq, lambda g: g.e == x.e))


@proof('C10 C05 C01', 'productive and unknown tags', [T + 'is_productive', T + '_is_unknown'])
def productive(v):
    cls, known = tag_class(v)
    t, gs = sym_tag(v, cls=cls)
    v.declare('open class exactly if no closed-class grammeme is in the tag', 'unknown exactly if the first name is no part of speech')
    if S.choose([0, 1], 'which'):
        r = v.call('is_productive', t.is_productive)
        closed = 'NUMR NPRO PRED PREP CONJ PRCL INTJ Apro'.split()
        v.check('open class exactly if no closed-class grammeme is in the tag',
                zbool(r) == z3.Not(z3.Or(*[has(gs, x) for x in closed])))
    else:
        t._POS = SStr(z3.String('pos'))
        r = v.call('_is_unknown', t._is_unknown)
        v.check('unknown exactly if the first name is no part of speech',
                zbool(r) == z3.Not(z3.Or(*[t._POS.e == str_val(x) for x in SPEC['POS'].split()])))
