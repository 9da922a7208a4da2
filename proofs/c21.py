# -*- coding: utf-8 -*-
from .common import *


def like(w, ex):
    """The word in the example's capitalisation."""
    return z3.If(P_islower(ex), U_lower(w), z3.If(P_isupper(ex), U_upper(w), z3.If(P_istitle(ex), U_title(w), U_lower(w))))


@proof('C21', 'restore_capitalization', ['shapes.restore_capitalization', 'shapes._make_the_same_case'])
def restore(v):
    m = mod('pymorphy2.shapes')
    word, ex = v.str('word'), v.str('example')
    r = v.call('restore_capitalization', m.restore_capitalization, word, ex)
    hyph = z3.Contains(ex.e, str_val('-'))
    names = ['without hyphens the whole word follows the example', 'with hyphens the parts are joined by hyphens',
             'as many parts as the word has', 'a part follows the example part in its place', 'parts beyond the example are lower-cased']
    v.declare(*names)
    if S.fork(z3.Not(hyph)):
        v.check(names[0], zstr(r) == like(word.e, ex.e))
        return
    n = z3.Function('nparts', StrS, StrS, IntS)
    part = z3.Function('part', StrS, StrS, IntS, StrS)
    h = str_val('-')
    jp = contracts.join_parts(r)
    if jp is None:
        raise Unsupported('the result is not built by join')
    sep, lst = jp
    v.check(names[1], zstr(sep) == h)
    nw, ne = n(word.e, h), n(ex.e, h)
    S.assume(nw >= 1)
    v.check(names[2], lst.zlen() == nw)
    k = v.int('k')
    S.assume(z3.And(k.e >= 0, k.e < nw))
    x = lst[k]
    pw, pe = part(word.e, h, k.e), part(ex.e, h, k.e)
    for f in ('lower', 'upper', 'title'):
        getattr(SStr(pw), f)()              # what is known of the three about this part
    SStr(pe).islower()
    v.check(names[3], implies(k.e < ne, zstr(x) == like(pw, pe)))
    v.check(names[4], implies(k.e >= ne, zstr(x) == U_lower(pw)))
