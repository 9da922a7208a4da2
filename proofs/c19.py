# -*- coding: utf-8 -*-
from .common import *


@proof('C19', 'normal_forms', ['analyzer.MorphAnalyzer.normal_forms'])
def normal_forms(v):
    A = mod('pymorphy2.analyzer').MorphAnalyzer
    n = z3.Int('n')
    S.assume(n >= 0)
    nf = z3.Function('nf', IntS, StrS)
    parses = v.regular_list('parses', lambda i: (SStr(z3.Function('w', IntS, StrS)(i)), None, SStr(nf(i)), 1.0, ()), n=n, owned=False)
    v.declare('each is the normal form of an analysis', 'contains the normal form of every analysis', 'no normal form twice')
    a = bare(A)
    a.parse = lambda w: parses
    shared(a)
    r = v.call('normal_forms', a.normal_forms, v.str('word'))
    e = v.each(r, 'r')
    if e is not None:
        v.check('each is the normal form of an analysis', v.some(parses, lambda p: eq(p[2], e[0])))
        return
    e = v.each(parses, 'p')
    if e is not None:
        v.check('contains the normal form of every analysis', v.contains(r, e[0][2]))
        return
    e = v.two(r)
    if e is not None:
        v.check('no normal form twice', z3.Not(v.eq(*e)))
        # iteration order is emission order; the earlier one was first shown earlier
        return
    v.subsequence('in the order of the analyses', r)
    v.no_writes('the analyzer and its result list are unchanged')
