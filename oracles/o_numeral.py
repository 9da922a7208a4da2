# -*- coding: utf-8 -*-
from __future__ import unicode_literals
from .lib import oracle, check, expect_eq, Fail, Skip
from . import words as W

CASES = None


def expected(tag_gs, n, cases):
    n = abs(n)      # the last digits, not the residue
    one = n % 10 == 1 and n % 100 != 11
    few = n % 10 in (2, 3, 4) and n % 100 not in (12, 13, 14)
    case = [c for c in cases if c in tag_gs]
    if 'NOUN' in tag_gs:
        c = case[0]
        if c in ('nomn', 'accs'):
            return {'sing', c} if one else {'sing', 'gent'} if few else {'plur', 'gent'}
        return {'sing' if one else 'plur', c}
    if 'ADJF' in tag_gs or 'PRTF' in tag_gs:
        if one:
            return {'sing', 'nomn'} if 'nomn' in tag_gs else {'sing', 'accs'}
        return {'plur', 'nomn'} if 'femn' in tag_gs and few else {'plur', 'gent'}
    return set()


def numeral_case(ctx, tag_str, n):
    T = ctx.morph.TagClass
    t = T(tag_str)
    got = t.numeral_agreement_grammemes(n)
    expect_eq(set(got), expected(set(tag_str.replace(' ', ',').split(',')), n, T.CASES), 'numeral agreement of %s with %d' % (tag_str, n))


@oracle('C09')
def numeral(ctx):
    m = ctx.morph
    tags = sorted(set(str(t) for t in m.dictionary.gramtab))
    tags = [t for t in tags if 'NOUN' not in t or any(c in t.split() [-1].split(',') + t.replace(' ', ',').split(',') for c in m.TagClass.CASES)]
    byshape = {}
    for t in tags:
        gs = set(t.replace(' ', ',').split(','))
        key = (t.split(',')[0].split(' ')[0], tuple(sorted(gs & set(m.TagClass.CASES))), tuple(sorted(gs & set(m.TagClass.GENDERS))),
               tuple(sorted(gs & set(m.TagClass.NUMBERS))))
        byshape.setdefault(key, []).append(t)
    nums = list(range(0, 125)) + [211, 212, 221, 1000, 1001, 1011, 1111, 111111, 10**9 + 12, 10**20 + 3]
    nums += [i + d for i in ctx.ints + ctx.hints.get('ints', []) for d in (-1, 0, 1)]
    nums += [ctx.rng.randrange(0, 10 ** 6) for _ in range(60)] + list(range(-130, 0))
    keys = sorted(byshape)
    for k in keys:
        t = ctx.rng.choice(byshape[k])
        for n in nums:
            if not ctx.case(numeral_case, t, n) or not ctx.go():
                return


def agree_case(ctx, word, n):
    for p in ctx.morph.parse(word):
        r = p.make_agree_with_number(n)
        g = expected(set(p.tag.grammemes), n, p.tag.CASES) if 'NOUN' not in p.tag or p.tag.case else None
        if g is None:
            continue
        if r is not None:
            need = set(ctx.morph.TagClass.fix_rare_cases(g))
            check(g <= set(r.tag.grammemes) or need <= set(r.tag.grammemes), 'make_agree_with_number(%d) of %s' % (n, word), tag=str(p.tag), got=str(r.tag))
        else:
            check(not any(g <= set(f.tag.grammemes) for f in p.lexeme), 'an agreeing form exists', word=word, n=n)


@oracle('C09')
def agree(ctx):
    ws = W.words(ctx, 400)
    while ctx.go():
        if not ctx.case(agree_case, ctx.rng.choice(ws), ctx.rng.choice([1, 2, 5, 11, 12, 21, 22, 101, 111, 112, -1, -2, -8, -9, -11, -12, -21, ctx.rng.randrange(10**4)])):
            return
        if ctx.evals > 60000:
            return
