# -*- coding: utf-8 -*-
from .common import *


@proof('C20', 'simple_word_tokenize', ['tokenizers.simple_word_tokenize'],
       assumes=['re.split with one captured single-character group returns 2k+1 parts whose concatenation is the text: the odd ones are '
                'the separators in order, the even ones contain none (re documentation)'])
def tokenize(v):
    m = mod('pymorphy2.tokenizers')
    text = v.str('text')
    names = ['exactly the characters that are no letter, digit, underscore or hyphen separate', 'every token is a part of the text',
             'no token is empty', 'no token contains whitespace', 'dropped parts are empty or whitespace', 'tokens are in text order, each part once']
    v.declare(*names)
    r = v.call('simple_word_tokenize', m.simple_word_tokenize, text)
    pat = S.memo.get('split_pattern')
    if pat is None:
        raise Unsupported('the text is not split by a regular expression')
    key = ('sepclass', pat.pattern, pat.flags)
    from engine.proofapi import PERSIST
    if key not in PERSIST:
        PERSIST[key] = [c for c in range(0x110000) if not 0xd800 <= c < 0xe000 and
                        (pat.fullmatch(chr(c)) is not None) == (chr(c).isalnum() or chr(c) in '_-')]
    v.check(names[0], not PERSIST[key])
    n = S.memo['split_n']
    part = lambda i: contracts.U_spart(text.e, i)
    # facts about str.isspace: characters that do not separate are not whitespace (letters, digits, underscore, hyphen)
    q = z3.Const('spq', StrS)
    whole = lambda e: P_isspace(e)
    i = z3.Int('i')
    parts = RList(segs=[FSeg([Family([i], [Entry('range', z3.And(i >= 0, i < n))], (SStr(part(i)), SInt(i)))], (i, n))])

    def space_facts(t, idx):
        """isspace of a part, from its characters."""
        w = z3.Int('w_' + str(idx))
        S.cand(w)
        at0 = z3.SubString(t, z3.IntVal(0), z3.IntVal(1))
        S.cand(z3.IntVal(0))
        S.cand(idx)
        S.assume(implies(z3.And(P_isspace(t), z3.Length(t) > 0), P_isspace(at0)))
        S.assume(implies(z3.Length(t) == 1, t == at0))
        S.assume(implies(z3.Not(contracts.P_sep(at0)), z3.Not(P_isspace(at0))))
    e = v.each(r, 't')
    if e is not None:
        t = zstr(e[0])
        v.check(names[1], v.some(parts, lambda p: p[0].e == t))
        v.check(names[2], z3.Length(t) > 0)
        # whitespace characters separate (they are no word characters), so a part with whitespace is a separator: one character
        k = v.int('k')
        S.assume(z3.And(k.e >= 0, k.e < z3.Length(t)))
        ck = z3.SubString(t, k.e, z3.IntVal(1))
        S.cand(k.e)
        S.assume(implies(z3.Not(contracts.P_sep(ck)), z3.Not(P_isspace(ck))))
        S.assume(implies(z3.Length(t) == 1, ck == t))
        v.check(names[3], z3.Not(P_isspace(ck)))
        return
    e = v.each(parts, 'p')
    if e is not None:
        t, idx = e[0][0].e, e[0][1].e
        space_facts(t, idx)
        v.check(names[4], z3.Or(t == str_val(''), P_isspace(t), v.contains(r, SStr(t))))
        return
    v.subsequence(names[5], r)
