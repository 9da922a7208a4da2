# -*- coding: utf-8 -*-
from .common import *



@proof('C09', 'numeral_agreement_grammemes', ['tagset.OpencorporaTag.numeral_agreement_grammemes'])
def numeral(v):
    tag, gs = sym_tag(v)
    num = v.int('num')
    T = type(tag)
    CASES, POS = T.CASES, T.PARTS_OF_SPEECH
    # contract precondition: a well-formed tag has at most one grammeme of a category
    def at_most_one(names):
        ns = sorted(names)
        return zand(*[z3.Not(z3.And(has(gs, a), has(gs, b))) for i, a in enumerate(ns) for b in ns[i + 1:]])
    S.assume(at_most_one(CASES))
    S.assume(at_most_one(POS))
    S.assume(at_most_one(T.GENDERS))
    S.assume(z3.Implies(has(gs, 'NOUN'), z3.Or(*[has(gs, c) for c in sorted(CASES)])))      # nouns have a case
    r = v.call('numeral_agreement_grammemes', tag.numeral_agreement_grammemes, num)
    got = zset(r)
    last = z3.If(num.e >= 0, num.e, -num.e)         # the digits do not depend on the sign
    m10, m100 = last % 10, last % 100
    one = z3.And(m10 == 1, m100 != 11)
    few = z3.And(m10 >= 2, m10 <= 4, z3.Not(z3.And(m100 >= 12, m100 <= 14)))
    noun, adj = has(gs, 'NOUN'), z3.Or(has(gs, 'ADJF'), has(gs, 'PRTF'))
    lit = lambda *g: zset(frozenset(g))
    nomacc = z3.Or(has(gs, 'nomn'), has(gs, 'accs'))
    v.check('noun, nominative/accusative, one', implies(z3.And(noun, nomacc, one), got == z3.If(
        has(gs, 'nomn'), lit('sing', 'nomn'), lit('sing', 'accs'))))
    v.check('noun, nominative/accusative, paucal', implies(z3.And(noun, nomacc, few), got == lit('sing', 'gent')))
    v.check('noun, nominative/accusative, many', implies(z3.And(noun, nomacc, z3.Not(one), z3.Not(few)),
                                                          got == lit('plur', 'gent')))
    for c in sorted(CASES - {'nomn', 'accs'}):
        v.check('noun in %s keeps its case' % c, implies(z3.And(noun, has(gs, c)), got == z3.If(
            one, lit('sing', c), lit('plur', c))))
    v.check('adjective/participle, one', implies(z3.And(adj, one), got == z3.If(
        has(gs, 'nomn'), lit('sing', 'nomn'), lit('sing', 'accs'))))
    v.check('adjective/participle, not one', implies(z3.And(adj, z3.Not(one)), got == z3.If(
        z3.And(has(gs, 'femn'), few), lit('plur', 'nomn'), lit('plur', 'gent'))))
    v.check('other parts of speech', implies(z3.Not(z3.Or(noun, adj)), got == lit()))
    v.no_writes('the tag is unchanged')
