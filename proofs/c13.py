# -*- coding: utf-8 -*-
"""Contracts of paradigm extraction, the flat layout and its reader."""
from .common import *
from .dictstub import middle

C = 'opencorpora_dict.compile.'
W = 'opencorpora_dict.wrapper.Dictionary.'
A_suf, A_tag, A_pre = [z3.Function('form_' + x, IntS, IntS) for x in ('ending', 'tag', 'prefix')]
T_suf, T_pre, T_tag = z3.Function('ending_text', IntS, StrS), z3.Function('prefix_text', IntS, StrS), z3.Function('tag_text', IntS, StrS)


class Array(object):
    """array.array('H', numbers): the numbers, as long as they fit 16 bits."""
    def array(self, code, items=()):
        return RList(segs=list(as_list(items).segs))


@proof('C13 C14', 'a linearized paradigm is read back as it was', [C + '_linearized_paradigm', W + 'build_tag_info', W + 'build_paradigm_info', W + 'build_stem',
                                                               W + 'build_normal_form'],
       assumes=['array.array keeps numbers below 65536'])
def linear(v):
    m = mod('pymorphy2.opencorpora_dict.compile')
    n_suf, n_tag, n_pre = z3.Ints('n_endings n_tags n_prefixes')
    def facts(i):
        return [A_suf(i) >= 0, A_suf(i) < n_suf, A_tag(i) >= 0, A_tag(i) < n_tag, A_pre(i) >= 0, A_pre(i) < n_pre]
    para = shared_list(v, 'form', lambda i: (SInt(A_suf(i)), SInt(A_tag(i)), SInt(A_pre(i))), facts=facts)
    n = z3.Int('n_form')
    S.assume(n >= 1)
    saved, m.array = m.array, Array()
    try:
        flat = v.call('_linearized_paradigm', m._linearized_paradigm, para)
    finally:
        m.array = saved
    d = bare(mod('pymorphy2.opencorpora_dict.wrapper').Dictionary, paradigms=[flat],
             suffixes=shared_list(v, 'suffixes', lambda i: SStr(T_suf(i)), n=n_suf),
             gramtab=shared_list(v, 'gramtab', lambda i: SStr(T_tag(i)), n=n_tag),
             paradigm_prefixes=shared_list(v, 'prefixes', lambda i: SStr(T_pre(i)), n=n_pre))
    names = ['three numbers per form', 'the tag of the form', 'the whole paradigm', 'as many forms', 'the stem', 'the normal form: the first form with the stem']
    v.declare(*names)
    v.check(names[0], zint(as_list(flat).length()) == 3 * n)
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < n))
    for f in facts(i.e) + facts(z3.IntVal(0)):
        S.assume(f)
    pre, suf = lambda k: T_pre(A_pre(k)), lambda k: T_suf(A_suf(k))
    claim = S.choose(range(4), 'claim')
    if claim == 0:
        v.check(names[1], zstr(v.call('build_tag_info', d.build_tag_info, 0, i)) == T_tag(A_tag(i.e)))
    elif claim == 1:
        r = v.call('build_paradigm_info', d.build_paradigm_info, 0)
        v.check(names[3], zint(as_list(r).length()) == n)
        x = r[i]
        v.check(names[2], zand(zstr(x[0]) == pre(i.e), zstr(x[1]) == T_tag(A_tag(i.e)), zstr(x[2]) == suf(i.e)))
    else:
        stem = v.str('stem').e
        word = z3.Concat(pre(i.e), stem, suf(i.e))
        S.assume(middle(word, z3.Length(pre(i.e)), z3.Length(suf(i.e))) == stem)     # lemma (c14)
        if claim == 2:
            v.check(names[4], zstr(v.call('build_stem', d.build_stem, flat, i, SStr(word))) == stem)
        else:
            r = v.call('build_normal_form', d.build_normal_form, 0, i, SStr(word))
            v.check(names[5], zstr(r) == z3.Concat(pre(z3.IntVal(0)), stem, suf(z3.IntVal(0))))


def three_parts(s, i, n):
    z = z3.IntVal
    a, b, c = z3.SubString(s, z(0), i), z3.SubString(s, i, n), z3.SubString(s, i + n, z3.Length(s) - i - n)
    return z3.Implies(zand(i >= 0, n >= 0, i + n <= z3.Length(s)), zand(s == z3.Concat(a, b, c), z3.Length(a) == i))


def two_parts(s, i):
    a, b = z3.SubString(s, z3.IntVal(0), i), z3.SubString(s, i, z3.Length(s) - i)
    return z3.Implies(zand(i >= 0, i <= z3.Length(s)), zand(s == z3.Concat(a, b), z3.Length(a) == i))


@proof('C13', 'a string is its two, its three parts', [])
def parts_lemma(v):
    v.declare('two parts', 'three parts')
    s, i, n = v.str('s').e, v.int('i').e, v.int('n').e
    v.check('two parts', two_parts(s, i))
    v.check('three parts', z3.Implies(zand(two_parts(s, i), two_parts(z3.SubString(s, i, z3.Length(s) - i), n)), three_parts(s, i, n)))


@proof('C13', '_to_paradigm', [C + '_to_paradigm'], assumes=['longest_common_substring gives a substring of every string it is given'])
def to_paradigm(v):
    m = mod('pymorphy2.opencorpora_dict.compile')
    U_form, U_tag = z3.Function('lex_form', IntS, StrS), z3.Function('lex_tag', IntS, Obj)
    n = z3.Int('n_lexeme')
    common = z3.String('common')        # what all forms have in common (at least the empty string)
    lexeme = shared_list(v, 'lexeme', lambda i: (SStr(U_form(i)), STag(U_tag(i))), facts=lambda i: [z3.Contains(U_form(i), common)])
    S.assume(n >= 1)
    prefixes = shared_list(v, 'prefixes', lambda i: SStr(z3.Function('known_prefix', IntS, StrS)(i)))
    S.assume(zbool(prefixes.member('')))
    saved, m.longest_common_substring = m.longest_common_substring, lambda data: SStr(common)
    try:
        stem, para = v.call('_to_paradigm', m._to_paradigm, lexeme, prefixes)
    finally:
        m.longest_common_substring = saved
    names = ['one entry per form', 'every form is prefix + stem + ending', 'with its own tag', 'prefixes come from the list']
    v.declare(*names)
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < n))
    S.cand(i.e)
    v.check(names[0], zint(as_list(para).length()) == n)
    x = as_list(para)[i]
    for p in (zstr(x[2]), z3.StringVal('')):
        S.assume(three_parts(U_form(i.e), z3.Length(p), z3.Length(zstr(stem))))         # lemma
    S.assume(three_parts(U_form(i.e), z3.IndexOf(U_form(i.e), common, z3.IntVal(0)), z3.Length(common)))
    v.check(names[1], U_form(i.e) == z3.Concat(zstr(x[2]), zstr(stem), zstr(x[0])))
    v.check(names[2], x[1].e == U_tag(i.e))
    v.check(names[3], zbool(prefixes.member(x[2])))


@proof('C13', 'longest_common_substring', ['utils.longest_common_substring'])
def lcs(v):
    m = mod('pymorphy2.utils')
    U = z3.Function('datum', IntS, StrS)
    data = shared_list(v, 'data', lambda i: SStr(U(i)))
    v.declare('contained in every string')
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < z3.Int('n_data')))
    v.cand(i, kind='data')

    def common(loop, name, entry, cur, env):        # candidate loop invariant for every string a loop changes
        return [('common', z3.Contains(U(i.e), zstr(cur)))] if isinstance(cur, (str, SStr)) else []
    S.extra_invariants[:] = [common]
    r = v.call('longest_common_substring', m.longest_common_substring, data)
    v.check('contained in every string', z3.Contains(U(i.e), zstr(r)))
