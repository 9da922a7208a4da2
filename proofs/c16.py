# -*- coding: utf-8 -*-
"""Contracts of tag simplification."""
from .common import *

P = 'opencorpora_dict.preprocess.'
L_n, L_id = z3.Function('n_forms', StrS, IntS), z3.Function('lexeme_id', IntS, StrS)
L_word, L_tag = z3.Function('lexeme_word', StrS, IntS, StrS), z3.Function('lexeme_tag', StrS, IntS, StrS)
U_simple = z3.Function('simplified', StrS, StrS)


class Silent(object):
    def __getattr__(self, n):
        return lambda *a, **k: None


class Lexemes(object):
    """parsed_dict.lexemes: lists of (word, tag) by id; what is stored is recorded."""
    _symbolic = True

    def __init__(self):
        self.stored = RList()
        n = z3.Int('n_lexemes')
        S.assume(n >= 0)
        i = S.fresh_binder('lx', IntS, 'lexemes')
        self.ids = RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < n))], SStr(L_id(i)))], (i, n))], owned=False)
        self.n = n

    def _as_list(self):
        return self.ids
    keys = _as_list

    def items(self):
        i = S.fresh_binder('lx', IntS, 'lexemes')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < self.n))], (SStr(L_id(i)), self.forms(SStr(L_id(i)))))], (i, self.n))],
                     owned=False)

    def values(self):
        i = S.fresh_binder('lx', IntS, 'lexemes')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < self.n))], self.forms(SStr(L_id(i))))], (i, self.n))], owned=False)

    def update(self, pairs):
        self.stored.extend(pairs)

    def _len_(self):
        return SInt(self.n)

    def forms(self, k):
        n = L_n(zstr(k))
        S.assume(n >= 0)
        j = S.fresh_binder('fm', IntS, 'forms')
        return RList(segs=[FSeg([Family([j], [Entry('range', zand(j >= 0, j < n))], (SStr(L_word(zstr(k), j)), SStr(L_tag(zstr(k), j))))], (j, n))],
                     owned=False)

    def __getitem__(self, k):
        return self.forms(k)

    def __setitem__(self, k, x):
        self.stored.append((k, as_list(x)))


class Parsed(object):
    def __init__(self, lexemes):
        self.lexemes = lexemes


def arrange(v, m, **stubs):
    saved = dict((k, getattr(m, k)) for k in list(stubs) + ['logger', 'with_progress'])
    m.logger, m.with_progress = Silent(), lambda it, *a, **k: it
    for k, x in stubs.items():
        setattr(m, k, x)

    def back():
        for k, x in saved.items():
            setattr(m, k, x)
    return back


@proof('C16', 'simplify_tags rewrites every tag and nothing else', [P + 'simplify_tags'],
       assumes=['_simplify_tag, _get_tag_spellings and _get_duplicate_tag_replaces by their contracts', 'with_progress gives the items it is given'])
def simplify(v):
    m = mod('pymorphy2.opencorpora_dict.preprocess')
    lx = Lexemes()
    asked = []
    skip = S.choose([True, False, None], 'skip_space_ambiguity')
    sp, rep = v.obj('spellings', object), v.obj('replaces', lambda: {'': ''})

    def simple(tag, replaces):
        if replaces is not rep:
            raise Unsupported('other replacements')
        return SStr(U_simple(zstr(tag)))
    back = arrange(v, m, _get_tag_spellings=lambda d: sp, _get_duplicate_tag_replaces=lambda s, k: (asked.append((s, k)), rep)[1], _simplify_tag=simple)
    try:
        v.call('simplify_tags', m.simplify_tags, Parsed(lx), *([skip] if skip is not None else []))
    finally:
        back()
    same_forms(v, lx, lambda k, j: z3.BoolVal(True), U_simple)
    v.check('spellings and options are used', all(s is sp and bool(k) == (skip is not False) for s, k in asked))


def same_forms(v, lx, keep, new_tag):
    """What is stored: for every id, in order, the forms that are kept, in order, with the new tag."""
    names = ['every lexeme is stored', 'lexemes in their order, once each', 'only known lexemes', 'words and tags of the lexeme', 'every form kept', 'forms in their order']
    v.declare(*names)
    i, j = v.int('i'), v.int('j')
    S.assume(zand(i.e >= 0, i.e < lx.n))
    v.cand(i, kind='lexemes')
    key = L_id(i.e)
    claim = S.choose(range(5), 'claim')
    if claim == 0:
        v.check(names[0], v.some(lx.stored, lambda x: zstr(x[0]) == key))
    elif claim == 1:
        v.subsequence(names[1], lx.stored)
    else:
        x = v.any(lx.stored)
        k = zstr(x[0])
        forms = lx.forms(x[0])
        if claim == 2:
            v.check(names[2], v.some(lx.ids, lambda y: zstr(y) == k))
        elif claim == 3:
            y = v.any(x[1])
            f = z3.Int('f')
            S.set_kind(f, 'forms')
            S.add_univ([f], z3.Implies(zand(f >= 0, f < L_n(k), keep(k, f)), z3.Not(zand(zstr(y[0]) == L_word(k, f), zstr(y[1]) == new_tag(L_tag(k, f))))))
            v.check(names[3], z3.BoolVal(False))
        else:
            S.assume(zand(j.e >= 0, j.e < L_n(k), keep(k, j.e)))
            v.cand(j, kind='forms')
            v.check(names[4], v.some(x[1], lambda y: zand(zstr(y[0]) == L_word(k, j.e), zstr(y[1]) == new_tag(L_tag(k, j.e)))))
            v.subsequence(names[5], x[1])


@proof('C16', 'drop_unsupported_parses removes the forms tagged as initials', [P + 'drop_unsupported_parses'])
def drop(v):
    m = mod('pymorphy2.opencorpora_dict.preprocess')
    lx = Lexemes()
    back = arrange(v, m)
    try:
        v.call('drop_unsupported_parses', m.drop_unsupported_parses, Parsed(lx))
    finally:
        back()
    same_forms(v, lx, lambda k, j: z3.Not(z3.Contains(L_tag(k, j), z3.StringVal('Init'))), lambda t: t)


@proof('C16', '_simplify_tag', [P + '_simplify_tag'], assumes=['replace_redundant_grammemes by its contract: a function of the tag'])
def simplify_one(v):
    m = mod('pymorphy2.opencorpora_dict.preprocess')
    U_red, U_has, U_rep = z3.Function('without_redundant', StrS, StrS), z3.Function('is_replaced', StrS, BoolS), z3.Function('replacement', StrS, StrS)

    class Base(object):
        def has(self, k):
            return U_has(zstr(k))

        def get(self, k):
            return SStr(U_rep(zstr(k)))
    back = arrange(v, m, replace_redundant_grammemes=lambda t: SStr(U_red(zstr(t))))
    tag = v.str('tag')
    try:
        r = v.call('_simplify_tag', m._simplify_tag, tag, RDict(base=Base()))
    finally:
        back()
    v.check('the replacement if there is one', z3.Implies(U_has(U_red(tag.e)), zstr(r) == U_rep(U_red(tag.e))))
    v.check('else the tag without redundant cases', z3.Implies(z3.Not(U_has(U_red(tag.e))), zstr(r) == U_red(tag.e)))
