# -*- coding: utf-8 -*-
from .common import *


@proof('C23', 'PythonPrefixMatcher', ['dawg.PythonPrefixMatcher.__init__', 'dawg.PythonPrefixMatcher.prefixes',
                                      'dawg.PythonPrefixMatcher.is_prefixed'])
def matcher(v):
    D = mod('pymorphy2.dawg')
    n = z3.Int('n')
    S.assume(n >= 0)
    p = z3.Function('prefix', IntS, StrS)
    ps = v.regular_list('prefixes', lambda i: SStr(p(i)), n=n, owned=False, facts=lambda i: [z3.Length(p(i)) > 0])
    a, b = z3.Int('pa'), z3.Int('pb')
    S.add_univ([a, b], z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n, a != b), p(a) != p(b)))     # a set of prefixes
    word = v.str('word')
    m = v.call('PythonPrefixMatcher', D.PythonPrefixMatcher, ps)
    shared(m)
    names = ['each result is a configured prefix', 'each result starts the word', 'all prefixes of the word are found', 'no prefix twice',
             'is_prefixed if there is one', 'there is one if is_prefixed']
    v.declare(*names)
    if S.choose(['prefixes', 'is_prefixed'], 'method') == 'prefixes':
        r = v.call('prefixes', m.prefixes, word)
        e = v.each(r)
        if e is not None:
            v.check(names[0], v.contains(ps, e[0]))
            v.check(names[1], z3.PrefixOf(zstr(e[0]), word.e))
            return
        e = v.each(ps)
        if e is not None:
            v.check(names[2], implies(z3.PrefixOf(e[0].e, word.e), v.contains(r, e[0])))
            return
        e = v.two(r)
        if e is not None:
            v.check(names[3], z3.Not(v.eq(*e)))
            return
    else:
        r = v.call('is_prefixed', m.is_prefixed, word)
        e = v.each(ps)
        if e is not None:
            v.check(names[4], implies(z3.PrefixOf(e[0].e, word.e), zbool(r)))
            return
        v.check(names[5], implies(zbool(r), v.some(ps, lambda x: z3.PrefixOf(x.e, word.e))))
    v.no_writes('matching changes nothing')


class Trie(object):
    """dawg.DAWG: prefixes(word) are the stored keys with which the word starts."""
    _symbolic = True

    def __init__(self, lst):
        self.lst = lst

    def prefixes(self, word):
        return self.lst


@proof('C23', 'DawgPrefixMatcher', ['dawg.DawgPrefixMatcher.is_prefixed'], assumes=['the keys which start a word are found by the DAWG package'])
def dawg_matcher(v):
    D = mod('pymorphy2.dawg')
    n = z3.Int('n')
    S.assume(n >= 0)
    p = z3.Function('prefix', IntS, StrS)
    t = Trie(v.regular_list('found', lambda i: SStr(p(i)), n=n, owned=False))
    r = v.call('is_prefixed', D.DawgPrefixMatcher.is_prefixed, t, v.str('word'))
    v.check('a boolean', isinstance(r, (bool, SBool)))
    v.check('is_prefixed if and only if there is one', zb(r) == (n > 0))
    v.no_writes('matching changes nothing')
