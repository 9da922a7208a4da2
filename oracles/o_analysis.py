# -*- coding: utf-8 -*-
from __future__ import unicode_literals, division
import collections
import itertools
import threading
from .lib import oracle, check, expect_eq, Fail, Skip
from . import words as W

CLOSED = {'NUMR', 'NPRO', 'PRED', 'PREP', 'CONJ', 'PRCL', 'INTJ', 'Apro'}
POS = {'NOUN', 'ADJF', 'ADJS', 'COMP', 'VERB', 'INFN', 'PRTF', 'PRTS', 'GRND', 'NUMR', 'ADVB', 'NPRO', 'PRED', 'PREP', 'CONJ', 'PRCL', 'INTJ'}
PREDICTED = ('KnownPrefixAnalyzer', 'UnknownPrefixAnalyzer', 'KnownSuffixAnalyzer')


def unit(p):
    return type(p[4][-1][0]).__name__


def units_of(stack):
    """All method classes used, also inside nested stacks."""
    out = []
    for m in stack:
        out.append(type(m[0]).__name__)
        for x in m[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], tuple):
                out.extend(units_of(x))
    return out


def tag_units(stack):
    """Method classes on the way the tag came: in a compound, those of the part the tag is taken from."""
    out = []
    for m in stack:
        out.append(type(m[0]).__name__)
        parts = [x for x in m[1:] if isinstance(x, tuple) and x and isinstance(x[0], tuple)]
        if parts:
            out.extend(tag_units(parts[0]))
    return out


def both_inflected(stack):
    for m in stack:
        if type(m[0]).__name__ == 'HyphenatedWordsAnalyzer' and isinstance(m[1], tuple):
            return True
        for x in m[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], tuple) and both_inflected(x):
                return True
    return False


def gs(tag):
    return set(str(tag).replace(' ', ',').split(','))


def key(p):
    return (p[0], str(p[1]), p[2])


def full(p):
    return (p[0], str(p[1]), p[2], round(p[3], 12), stack_repr(p[4]))


def stack_repr(st):
    return tuple(tuple(type(x).__name__ if hasattr(x, 'parse') else stack_repr(x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else x
                       for x in m) for m in st)


# ------------------------------------------------------------------ C01
def total_case(ctx, w):
    m = ctx.morph
    ps = m.parse(w)
    ts = m.tag(w)
    check(len(ps) >= 1, 'parse() of %r gives nothing' % w)
    check(len(ts) >= 1, 'tag() of %r gives nothing' % w)
    unk = [p for p in ps if unit(p) == 'UnknAnalyzer']      # not those of a prefix with an unknown remainder
    if unk:
        check(len(ps) == 1, 'an unknown word has %d results' % len(ps), word=w)
        check(str(ps[0].tag) == 'UNKN', 'tag of an unknown word', word=w, tag=str(ps[0].tag))
        expect_eq((ps[0].word, ps[0].normal_form), (w.lower(), w.lower()), 'word and normal form of an unknown word')
        expect_eq([str(t) for t in ts], ['UNKN'], 'tags of an unknown word', word=w)
    m.normal_forms(w)
    m.word_is_known(w)


@oracle('C01')
def total(ctx):
    import unicodedata
    for w in W.stream(ctx):
        if not ctx.case(total_case, w):
            return
        if ctx.evals % 3 == 0:
            cps = ctx.rng.random()
            if cps < .5:
                c = chr(ctx.rng.randrange(2, 0x3000))
            else:
                c = chr(ctx.rng.randrange(0x3000, 0x110000))
            if not ('\ud800' <= c <= '\udfff'):
                if not ctx.case(total_case, c if cps < .4 else 'кот' + c if cps < .6 else c + '-' + c if cps < .7 else 'а' + c + 'ский' if cps < .9 else c + '1'):
                    return


@oracle('C01')
def unnamed_letters(ctx):
    import unicodedata
    al = [c for c in map(chr, itertools.chain(range(2, 0xd800), range(0xe000, 0x110000))) if c.isalpha() and not unicodedata.name(c, '')]
    ctx.rng.shuffle(al)
    for c in al[:300] + ['\u4db6', '\U00017000']:
        if not ctx.go() or not ctx.case(total_case, c):
            return


@oracle('C01')
def every_char(ctx):
    cs = [chr(i) for i in range(2, 0x2600)]
    ctx.rng.shuffle(cs)
    for c in cs:
        if not ctx.go() or not ctx.case(total_case, c):
            return


# ------------------------------------------------------------------ C02
def spelling_case(ctx, w):
    lw = w.lower()
    for p in ctx.morph.parse(w):
        ok = len(p.word) == len(lw) and all(a == b or (a == 'е' and b == 'ё') for a, b in zip(lw, p.word))
        check(ok, 'word of an analysis of %r' % w, got=p.word, methods=stack_repr(p[4]))


@oracle('C02')
def spelling(ctx):
    for w in W.stream(ctx):
        if not ctx.case(spelling_case, w):
            return


# ------------------------------------------------------------------ C03
def agree_case(ctx, w):
    m = ctx.morph
    a = set(str(p.tag) for p in m.parse(w))
    b = set(str(t) for t in m.tag(w))
    expect_eq(b, a, 'tags of tag(%r) differ from those of parse()' % w)


@oracle('C03')
def agreement(ctx):
    for w in W.stream(ctx):
        if not ctx.case(agree_case, w):
            return


# ------------------------------------------------------------------ C04
def raw_probs(ctx):
    """The stored probabilities, read with the DAWG library itself."""
    def mk():
        import os
        try:
            from dawg import IntCompletionDAWG
        except ImportError:
            from dawg_python import IntCompletionDAWG
        p = os.path.join(ctx.morph.dictionary.path, 'p_t_given_w.intdawg')
        if not os.path.exists(p):
            return None
        return IntCompletionDAWG().load(p)
    return ctx.cached('raw_probs', mk)


def spy_morph(ctx):
    def mk():
        import pymorphy2
        from pymorphy2.analyzer import ProbabilityEstimator
        calls = []

        class Spy(ProbabilityEstimator):
            def apply_to_parses(self, word, word_lower, parses):
                before = list(parses)
                out = ProbabilityEstimator.apply_to_parses(self, word, word_lower, parses)
                calls.append((word, word_lower, before, list(out)))
                return out
        return pymorphy2.MorphAnalyzer(probability_estimator_cls=Spy), calls
    return ctx.cached('spy', mk)


def stored(d, word, tag):
    return d.get('%s:%s' % (word, tag), 0) / 1000000


def compare_scores(ctx, d, lw, before, out, w):
    strip = lambda p: (p[0], str(p[1]), p[2], stack_repr(p[4]))
    expect_eq(collections.Counter(map(strip, out)), collections.Counter(map(strip, before)), 'estimation changed analyses of %r' % w)
    probs = [stored(d, lw, p[1]) for p in before]
    if sum(probs) == 0:
        expect_eq([strip(p) for p in out], [strip(p) for p in before], 'order of %r' % w)
        s = sum(p[3] for p in before)
        for p, q in zip(before, out):
            check(q[3] > 0, 'score of %r not positive' % w, score=q[3])
            check(abs(q[3] - p[3] / s) < 1e-9, 'score of %r not normalised' % w, got=q[3], want=p[3] / s)
        check(abs(sum(q[3] for q in out) - 1) < 1e-9, 'scores of %r do not add up to 1' % w)
    else:
        order = sorted(range(len(before)), key=lambda i: -probs[i])
        expect_eq([strip(p) for p in out], [strip(before[i]) for i in order], 'order of %r by stored probability' % w)
        expect_eq([q[3] for q in out], [probs[i] for i in order], 'stored probabilities of %r' % w)


def score_case(ctx, w):
    d = raw_probs(ctx)
    if d is None:
        raise Skip('no probabilities in this dictionary')
    m, calls = spy_morph(ctx)
    del calls[:]
    res = m.parse(w)
    for word, lw, before, out in list(calls):
        if before:
            compare_scores(ctx, d, lw, before, out, word)
    expect_eq([full(p) for p in res], [full(p) for p in calls[-1][3]], 'result of parse(%r)' % w)
    ps = [stored(d, w.lower(), t) for t in m.tag(w)]
    check(all(a >= b for a, b in zip(ps, ps[1:])), 'tag order of %r' % w, probs=ps)
    if not any(ps):
        check(abs(sum(p.score for p in res) - 1) < 1e-9, 'scores of %r do not add up to 1' % w)


@oracle('C04')
def scores(ctx):
    d = raw_probs(ctx)
    if d is not None:
        ks = []
        for a in W.RU:
            kk = d.keys(a)
            ks += [k.split(':')[0] for k in (ctx.rng.sample(kk, 40) if len(kk) > 40 else kk)]
        ctx.rng.shuffle(ks)
        for w in ks[:800]:
            if not ctx.go() or not ctx.case(score_case, ctx.rng.choice([w, w, w.title(), w.upper()])):
                return
    for w in W.stream(ctx):
        if not ctx.case(score_case, w):
            return


class FakeTag(str):
    pass


def synth_case(ctx, probs, scores):
    """ProbabilityEstimator on made-up parses, with a made-up probability table."""
    from pymorphy2.analyzer import ProbabilityEstimator
    est = ProbabilityEstimator.__new__(ProbabilityEstimator)

    class P(object):
        def prob(self, word, tag):
            return probs[int(tag)]
    est.p_t_given_w = P()
    parses = [('w', str(i), 'n%d' % i, s, ((None, i),)) for i, s in enumerate(scores)]
    out = est.apply_to_parses('W', 'w', list(parses))
    if not parses:
        expect_eq(list(out), [], 'no parses')
        return
    if sum(probs) == 0:
        expect_eq([p[1] for p in out], [p[1] for p in parses], 'order')
        t = sum(scores)
        check(all(abs(q[3] - p[3] / t) < 1e-9 for p, q in zip(parses, out)), 'normalisation', got=[q[3] for q in out])
    else:
        order = sorted(range(len(parses)), key=lambda i: -probs[i])
        expect_eq([p[1] for p in out], [str(i) for i in order], 'stable order by probability')
        expect_eq([p[3] for p in out], [probs[i] for i in order], 'probability')
    expect_eq(sorted((p[0], p[1], p[2], p[4]) for p in out), sorted((p[0], p[1], p[2], p[4]) for p in parses), 'analyses')
    tags = [p[1] for p in parses]
    expect_eq(list(est.apply_to_tags('W', 'w', list(tags))), [str(i) for i in sorted(range(len(tags)), key=lambda i: -probs[i])], 'order of tags')


@oracle('C04')
def synthetic(ctx):
    r = ctx.rng
    while ctx.go() and ctx.evals < 4000000:
        n = r.choice([0, 1, 2, 3, 3, 4, 5, 8])
        probs = [r.choice([0, 0, 0.5, 0.25, 1.0, 0.000001, 0.999999]) for _ in range(n)]
        if r.random() < .4:
            probs = [0] * n
        if not ctx.case(synth_case, probs, [r.choice([1.0, 0.5, 0.1, 0.01, 0.75, 0.375]) for _ in range(n)]):
            return
        if ctx.evals % 50 == 0 and ctx.sub_deadline - ctx.t0 < 0:
            return


# ------------------------------------------------------------------ C05
def dict_entry(ctx, w):
    return ctx.morph.word_is_known(w)


def open_case(ctx, w):
    m = ctx.morph
    lw = w.lower()
    ps = m.parse(w)
    for p in ps:
        us = tag_units(p[4])
        if any(u in PREDICTED for u in us):
            check(not (gs(p.tag) & CLOSED), 'predicted analysis of %r is closed-class' % w, tag=str(p.tag), methods=stack_repr(p[4]))
        cur = lw
        st = list(p[4])
        for meth in reversed(st):
            u = type(meth[0]).__name__
            if u == 'HyphenSeparatedParticleAnalyzer':
                cur = cur[:-len(meth[1])]
            elif u == 'KnownPrefixAnalyzer':
                rest = cur[len(meth[1]):]
                check(len(rest) >= 3, 'known prefix cut off %r leaves %r' % (w, rest))
                cur = rest
            elif u == 'UnknownPrefixAnalyzer':
                pre, rest = cur[:len(meth[1])], cur[len(meth[1]):]
                check(1 <= len(pre) <= 5 and len(rest) >= 3, 'guessed prefix %r of %r' % (pre, w))
                check(m.word_is_known(rest), 'remainder %r of a guessed prefix is no dictionary word' % rest, word=w)
                cur = rest
            elif u == 'KnownSuffixAnalyzer':
                check(len(cur) >= 4, 'ending-based prediction for %r' % cur, word=w)
            else:
                break
    if ps and all(unit(p) in PREDICTED for p in ps):
        for t in m.tag(w):
            check(not (gs(t) & CLOSED), 'predicted tag of %r is closed-class' % w, tag=str(t))
    if len(lw) < 4:
        # too short for a prediction by its ending: every tag is that of an analysis (none of them by ending, see above)
        known = set(str(p.tag) for p in ps)
        for t in m.tag(w):
            check(str(t) in known, 'tag of the short word %r is predicted by its ending' % w, tag=str(t))


@oracle('C05')
def open_class(ctx):
    m = ctx.morph
    closed = []
    for p in W.RU:
        for a, t, _, _, _ in itertools.islice(m.iter_known_word_parses(p), 4000):
            if gs(t) & CLOSED:
                closed.append(a)
    ctx.rng.shuffle(closed)
    for c in closed[:600]:
        for w in (ctx.rng.choice(W.KNOWN) + c, W.pseudo(ctx.rng)[:5] + c, W.pseudo(ctx.rng) + c[-4:]):
            if not ctx.go() or not ctx.case(open_case, w):
                break
    letters = u'абвейфщыюя'
    for a in letters:
        for b in letters:
            for c in letters:
                if not ctx.case(open_case, a + b + c):
                    break
    for w in W.stream(ctx):
        if not ctx.case(open_case, w):
            return


# ------------------------------------------------------------------ C06
def mk(units, est=None):
    import pymorphy2
    return pymorphy2.MorphAnalyzer(units=units, probability_estimator_cls=est)


def cfg(ctx, name):
    def build():
        from pymorphy2 import units as U
        from pymorphy2.lang.ru import config as c
        D = U.DictionaryAnalyzer
        k = ctx.rng
        if name == 'known':
            return mk([D(), U.KnownPrefixAnalyzer(known_prefixes=c.KNOWN_PREFIXES), [U.UnknownPrefixAnalyzer(), U.KnownSuffixAnalyzer()], U.UnknAnalyzer()])
        if name == 'known2':
            return mk([D(), U.KnownPrefixAnalyzer(known_prefixes=['а', 'аб', 'аба', 'не', 'нене'], score_multiplier=0.5, min_remainder_length=2), U.UnknAnalyzer()])
        if name == 'unknown':
            return mk([D(), [U.UnknownPrefixAnalyzer(score_multiplier=0.25)], U.UnknAnalyzer()])
        if name == 'particle':
            return mk([D(), U.HyphenSeparatedParticleAnalyzer(c.PARTICLES_AFTER_HYPHEN), U.KnownPrefixAnalyzer(known_prefixes=c.KNOWN_PREFIXES),
                       [U.UnknownPrefixAnalyzer(), U.KnownSuffixAnalyzer()], U.UnknAnalyzer()])
        if name == 'hyphen':
            return mk([D(), U.LatinAnalyzer(), U.HyphenatedWordsAnalyzer(skip_prefixes=c.KNOWN_PREFIXES), U.UnknAnalyzer()])
    return ctx.cached('cfg-' + name, build)


def cand_key(p):
    m0 = p[4][0]
    try:
        return (p[0], str(p[1]), m0[2] if not isinstance(m0[2], tuple) else stack_repr(m0[2]))
    except IndexError:
        return (p[0], str(p[1]), None)


def remainder_check(ctx, name, w, mult, splits, admissible, put, unit_name):
    m = cfg(ctx, name)
    lw = w.lower()
    res = [p for p in m.parse(w)]
    mine = [p for p in res if unit(p) == unit_name]
    if res and not mine and any(unit(p) not in ('UnknAnalyzer', 'KnownSuffixAnalyzer', 'UnknownPrefixAnalyzer') for p in res):
        return      # another method handled the word
    want, keys = [], set()
    for rest, affix in splits(lw):
        for q in m.parse(rest):
            if unit_name == 'UnknownPrefixAnalyzer' and unit(q) != 'DictionaryAnalyzer':
                continue
            if admissible(q):
                word, nf = put(q, affix)
                want.append((word, str(q.tag), nf, round(q.score * mult, 12)))
                keys.add((word,) + cand_key(q)[1:])
    if unit_name == 'UnknownPrefixAnalyzer':
        want = [(a, t, n, mult) for a, t, n, s in want]
    got = [(p[0], str(p[1]), p[2], round(p[3], 12)) for p in mine]
    for g in got:
        check(g in want, 'analysis of %r is not the remainder\'s with the affix' % w, got=g, want=want[:10])
    gk = set(cand_key(p) for p in mine)
    missing = [k for k in keys if k not in gk]
    if want and not mine and not res:
        raise Fail('no analysis', word=w)
    check(not missing, 'analyses of the remainder of %r are missing' % w, missing=missing[:5], got=got[:10])


def KP(ctx):
    from pymorphy2.lang.ru import config as c
    return c.KNOWN_PREFIXES


def known_case(ctx, w):
    remainder_check(ctx, 'known', w, 0.75,
                    lambda lw: [(lw[len(p):], p) for p in KP(ctx) if lw.startswith(p) and len(lw) - len(p) >= 3],
                    lambda q: not (gs(q.tag) & CLOSED), lambda q, a: (a + q.word, a + q.normal_form), 'KnownPrefixAnalyzer')


def known2_case(ctx, w):
    remainder_check(ctx, 'known2', w, 0.5,
                    lambda lw: [(lw[len(p):], p) for p in ['а', 'аб', 'аба', 'не', 'нене'] if lw.startswith(p) and len(lw) - len(p) >= 2],
                    lambda q: not (gs(q.tag) & CLOSED), lambda q, a: (a + q.word, a + q.normal_form), 'KnownPrefixAnalyzer')


def unknown_case(ctx, w):
    remainder_check(ctx, 'unknown', w, 0.25,
                    lambda lw: [(lw[i:], lw[:i]) for i in range(1, 6) if len(lw) - i >= 3],
                    lambda q: not (gs(q.tag) & CLOSED), lambda q, a: (a + q.word, a + q.normal_form), 'UnknownPrefixAnalyzer')


def particle_case(ctx, w):
    from pymorphy2.lang.ru import config as c
    def splits(lw):
        for p in c.PARTICLES_AFTER_HYPHEN:
            if lw.endswith(p) and len(lw) > len(p):
                return [(lw[:-len(p)], p)]
        return []
    remainder_check(ctx, 'particle', w, 0.9, splits, lambda q: True, lambda q, a: (q.word + a, q.normal_form + a), 'HyphenSeparatedParticleAnalyzer')


def fixed_left_case(ctx, w):
    m = cfg(ctx, 'hyphen')
    lw = w.lower()
    res = m.parse(w)
    mine = [p for p in res if unit(p) == 'HyphenatedWordsAnalyzer']
    if not mine:
        if res and all(unit(p) == 'UnknAnalyzer' for p in res) and lw.count('-') == 1 and not lw.startswith('-') and not lw.endswith('-') and not any(
                lw.startswith(p) for p in KP(ctx)):
            left, right = lw.split('-')
            check(not any(gs(q.tag) & POS for q in m.parse(right)), 'known right part of %r ignored' % w)
        return
    left, right = lw.split('-', 1)
    fixed = [p for p in mine if not isinstance(p[4][-1][1], tuple)]
    want = collections.Counter((left + '-' + q.word, str(q.tag), left + '-' + q.normal_form, round(q.score * .75, 12)) for q in m.parse(right)
                               if str(q.tag).replace(' ', ',').split(',')[0] in POS)
    got = collections.Counter((p[0], str(p[1]), p[2], round(p[3], 12)) for p in fixed)
    expect_eq(got, want, 'fixed-left analyses of %r' % w)


@oracle('C06')
def affixed(ctx):
    r = ctx.rng
    D = W.dict_words(ctx)
    fixed = ['кот-то', 'все-то', 'смотри-ка', 'бутявка-то', '-то', 'а-то', 'то-то', 'кто-то-то', 'ж-с', 'нас-таки', 'ежик-тка', 'ежик-тко', 'кошка-ка']
    for w in fixed:
        ctx.case(particle_case, w)
    while ctx.go():
        k = r.randrange(6)
        d = r.choice(D)
        if k == 0:
            ok = ctx.case(known_case, r.choice(KP(ctx)) + (d if r.random() < .7 else W.pseudo(r) + d[-4:]))
        elif k == 1:
            ok = ctx.case(unknown_case, W.pseudo(r)[:r.randint(1, 7)] + d)
        elif k == 2:
            ok = ctx.case(particle_case, (d if r.random() < .7 else W.pseudo(r) + d[-3:]) + r.choice(W.PARTICLES) + (r.choice(W.PARTICLES) if r.random() < .1 else ''))
        elif k == 3:
            ok = ctx.case(fixed_left_case, (d if r.random() < .5 else W.pseudo(r)) + '-' + (r.choice(D) if r.random() < .9 else W.pseudo(r)))
        elif k == 4:
            ok = ctx.case(known2_case, r.choice(['а', 'аб', 'аба', 'не', 'нене', 'абане']) + (d if r.random() < .8 else d[:2]))
        else:
            ok = ctx.case(known_case, r.choice(KP(ctx)) + r.choice(KP(ctx)) + d)
        if not ok:
            return


def default_forward_case(ctx, w):
    """In the default configuration: each affixed analysis comes from an analysis of the remainder."""
    m = ctx.morph
    lw = w.lower()
    for p in m.parse(w):
        meth = p[4][-1]
        u = type(meth[0]).__name__
        if u == 'KnownPrefixAnalyzer':
            rest, put = lw[len(meth[1]):], lambda q: (meth[1] + q[0], str(q[1]), meth[1] + q[2])
            check(lw.startswith(meth[1]), 'prefix', word=w, prefix=meth[1])
        elif u == 'UnknownPrefixAnalyzer':
            rest, put = lw[len(meth[1]):], lambda q: (meth[1] + q[0], str(q[1]), meth[1] + q[2])
            check(lw.startswith(meth[1]), 'prefix', word=w, prefix=meth[1])
        elif u == 'HyphenSeparatedParticleAnalyzer':
            rest, put = lw[:-len(meth[1])], lambda q: (q[0] + meth[1], str(q[1]), q[2] + meth[1])
            check(lw.endswith(meth[1]), 'particle', word=w, particle=meth[1])
        elif u == 'HyphenatedWordsAnalyzer' and not isinstance(meth[1], tuple):
            rest, put = lw[len(meth[1]) + 1:], lambda q: (meth[1] + '-' + q[0], str(q[1]), meth[1] + '-' + q[2])
            check(lw.startswith(meth[1] + '-'), 'left part', word=w, left=meth[1])
        else:
            continue
        check(key(p) in [put(q) for q in m.parse(rest)], 'analysis of %r has no counterpart for %r' % (w, rest), got=key(p))


@oracle('C06')
def default_forward(ctx):
    for w in W.stream(ctx):
        if not ctx.case(default_forward_case, w):
            return


# ------------------------------------------------------------------ C07
def lexeme_case(ctx, w):
    m = ctx.morph
    for p in m.parse(w):
        if both_inflected(p[4]):
            continue
        lx = p.lexeme
        check(len(lx) > 0, 'empty lexeme of %r' % w)
        check((p.word, str(p.tag)) in [(f[0], str(f[1])) for f in lx], 'lexeme of %r does not contain the form' % w, tag=str(p.tag),
              methods=stack_repr(p[4]))
        check(all(f[2] == p.normal_form for f in lx), 'normal forms in the lexeme of %r' % w, nf=p.normal_form, got=sorted(set(f[2] for f in lx)))
        n = p.normalized
        expect_eq((n.word, str(n.tag)), (lx[0][0], str(lx[0][1])), 'normalised analysis of %r' % w, methods=stack_repr(p[4]))
        expect_eq(lx[0][0], p.normal_form, 'first form of the lexeme of %r' % w)
        expect_eq(n.normal_form, p.normal_form, 'normal form of the normalised analysis of %r' % w)
        want = [key(f) for f in lx]
        fs = list(lx) if len(lx) <= 6 else [lx[0], lx[-1]] + ctx.rng.sample(list(lx), 3)
        for f in fs:
            expect_eq(sorted(key(g) for g in f.lexeme), sorted(want), 'lexeme of the form %r of %r' % (f[0], w), methods=stack_repr(p[4]))
            expect_eq(f.normalized.word, p.normal_form, 'normalising the form %r of %r' % (f[0], w))


@oracle('C07')
def lexemes(ctx):
    for w in W.stream(ctx):
        if not ctx.case(lexeme_case, w):
            return


# ------------------------------------------------------------------ C08
RARE = {'gen1': 'gent', 'gen2': 'gent', 'acc1': 'accs', 'acc2': 'accs', 'loc1': 'loct', 'loc2': 'loct', 'voct': 'nomn'}


def incompat(ctx):
    """The hierarchy's incompatible sets, from grammemes.json."""
    def mk_():
        import json
        import os
        rows = json.load(open(os.path.join(ctx.morph.dictionary.path, 'grammemes.json'), encoding='utf-8'))
        parent = {r[0]: r[1] for r in rows}
        kids = collections.defaultdict(set)
        for n, p in parent.items():
            if p:
                kids[p].add(n)
                if parent.get(p):
                    kids[parent[p]].add(n)
        out = {}
        for n, p in parent.items():
            s = set(kids[p]) if p else set()
            if n == 'plur':
                s |= {'GNdr'} | kids['GNdr']
            out[n] = s - {n}
        return out
    return ctx.cached('incompat', mk_)


def inflect_case(ctx, w, i, req):
    m = ctx.morph
    ps = m.parse(w)
    p = ps[i % len(ps)]
    req = set(req)
    forms = list(p.lexeme)
    G = [gs(f.tag) for f in forms]
    match = [k for k in range(len(forms)) if req <= G[k]]
    eff = set(req)
    if not match:
        eff = set(RARE.get(g, g) for g in req)
        match = [k for k in range(len(forms)) if eff <= G[k]]
    got = p.inflect(set(req))
    if not match:
        check(got is None, 'inflecting %r to %s gives a form without them' % (w, sorted(req)), got=str(got))
        return
    check(got is not None, 'inflecting %r to %s gives nothing' % (w, sorted(req)), form=(forms[match[0]].word, str(forms[match[0]].tag)))
    inc = incompat(ctx)
    target = gs(p.tag) | eff
    for g in eff:
        target -= inc.get(g, set())
    sim = lambda k: (10 * len(target & G[k]) - len(target ^ G[k]))
    best = max(sim(k) for k in match)
    cands = [k for k in match if sim(k) == best]
    shapes = set((len(target & G[k]), len(target ^ G[k])) for k in cands)
    if len(shapes) == 1:
        cands = cands[:1]
    check((got.word, str(got.tag)) in [(forms[k].word, str(forms[k].tag)) for k in cands], 'inflecting %r %s to %s' % (w, p.tag, sorted(req)),
          got=(got.word, str(got.tag)), want=[(forms[k].word, str(forms[k].tag)) for k in cands])


@oracle('C08')
def inflection(ctx):
    r = ctx.rng
    known = sorted(ctx.morph.TagClass.KNOWN_GRAMMEMES)
    cases = sorted(ctx.morph.TagClass.CASES)
    for w in W.stream(ctx):
        for _ in range(4):
            try:
                ps = ctx.morph.parse(w)
                i = r.randrange(len(ps))
                lx = ps[i].lexeme
                k = r.random()
                if k < .5:
                    g = sorted(gs(r.choice(lx).tag))
                    req = r.sample(g, min(len(g), r.randint(1, 3)))
                    req = [x for x in req if x in known]
                elif k < .7:
                    req = [r.choice(cases)] + ([r.choice(['sing', 'plur'])] if r.random() < .5 else [])
                elif k < .8:
                    req = []
                elif k < .9:
                    req = [r.choice(sorted(RARE)), r.choice(sorted(RARE))] if r.random() < .3 else [r.choice(sorted(RARE)), r.choice(known)]
                else:
                    req = r.sample(known, r.randint(1, 2))
            except Exception as ex:
                i, req = 0, []
            if not ctx.case(inflect_case, w, i, req):
                return


# ------------------------------------------------------------------ C14
def raw_words(ctx):
    def mk_():
        import os
        try:
            from dawg import RecordDAWG
        except ImportError:
            from dawg_python import RecordDAWG
        return RecordDAWG(str('>HH')).load(os.path.join(ctx.morph.dictionary.path, 'words.dawg'))
    return ctx.cached('raw_words', mk_)


def raw_tables(ctx):
    def mk_():
        import json
        import os
        import struct
        d = ctx.morph.dictionary.path
        data = open(os.path.join(d, 'paradigms.array'), 'rb').read()
        n, = struct.unpack_from(str('<H'), data, 0)
        pos, paras = 2, []
        for _ in range(n):
            k, = struct.unpack_from(str('<H'), data, pos)
            paras.append(struct.unpack_from(str('<%dH' % k), data, pos + 2))
            pos += 2 + 2 * k
        meta = dict(json.load(open(os.path.join(d, 'meta.json'), encoding='utf-8')))
        J = lambda f: json.load(open(os.path.join(d, f), encoding='utf-8'))
        prefixes = meta['compile_options']['paradigm_prefixes'] if 'paradigm_prefixes' in meta.get('compile_options', {}) else J('paradigm-prefixes.json')
        return paras, J('suffixes.json'), prefixes, J(meta['gramtab_formats']['opencorpora-int'])
    return ctx.cached('raw_tables', mk_)


def raw_decode(ctx, word, para, idx):
    paras, suff, pref, tab = raw_tables(ctx)
    p = paras[para]
    n = len(p) // 3
    stem = word[len(pref[p[2 * n + idx]]):len(word) - len(suff[p[idx]])]
    return (word, tab[p[n + idx]], word if idx == 0 else pref[p[2 * n]] + stem + suff[p[0]])


def spellings(lw):
    idx = [i for i, c in enumerate(lw) if c == 'е']
    if len(idx) > 9:
        return None
    out = []
    for combo in itertools.product('её', repeat=len(idx)):
        s = list(lw)
        for i, c in zip(idx, combo):
            s[i] = c
        out.append(''.join(s))
    return out


def known_word_case(ctx, w):
    m = ctx.morph
    raw = raw_words(ctx)
    lw = w.lower()
    sp = spellings(lw)
    if sp is None or not lw:
        return
    strict = lw in raw
    expect_eq(bool(m.word_is_known(w, strict=True)), strict, 'strict lookup of %r' % w)
    hits = [s for s in sp if s in raw]
    expect_eq(bool(m.word_is_known(w)), bool(hits), 'lookup of %r' % w)
    ps = m.parse(w)
    ini = [p for p in ps if unit(p).startswith('Abbreviated')]
    rest = [p for p in ps if p not in ini]
    if hits:
        want = sorted(raw_decode(ctx, s, a, b) for s in hits for a, b in raw[s])
        expect_eq(sorted(key(p) for p in rest), want, 'analyses of the known word %r' % w)
        check(all(unit(p) == 'DictionaryAnalyzer' for p in rest), 'predicted analysis of a known word %r' % w)
        for p in rest:
            expect_eq(bool(p.is_known), True, 'is_known of an analysis of %r' % w)
    else:
        check(all(units_of(p[4])[0] != 'DictionaryAnalyzer' or len(p[4]) > 1 for p in ps), 'dictionary analysis of an unknown word %r' % w)
    if ini:
        check(len(w) == 1 and w in W.INITIALS, 'initials analyses of %r' % w)


@oracle('C14')
def known_words(ctx):
    for w in W.stream(ctx):
        if not ctx.case(known_word_case, w):
            return


def iter_case(ctx, prefix):
    m = ctx.morph
    raw = raw_words(ctx)
    got = [(p[0], str(p[1]), p[2]) for p in m.iter_known_word_parses(prefix)]
    try:
        items = raw.items(prefix)
    except Exception:
        raise Skip('items')
    want = [raw_decode(ctx, k, v[0], v[1]) for k, v in items]
    expect_eq(sorted(got), sorted(want), 'dictionary words with the prefix %r' % prefix)
    for w, t, n in got[:15]:
        check((w, t, n) in [key(p) for p in m.parse(w)], 'entry %r is no analysis of its word' % w, tag=t)


@oracle('C14')
def enumerate_words(ctx):
    D = W.dict_words(ctx)
    while ctx.go() and ctx.evals < 200000:
        w = ctx.rng.choice(D)
        if not ctx.case(iter_case, w[:ctx.rng.randint(2, 5)] + ctx.rng.choice(['', '', '', 'ё', 'е', 'ъъ'])):
            return


# ------------------------------------------------------------------ C19
def nf_case(ctx, w):
    m = ctx.morph
    out = []
    for p in m.parse(w):
        if p.normal_form not in out:
            out.append(p.normal_form)
    expect_eq(list(m.normal_forms(w)), out, 'normal forms of %r' % w)


@oracle('C19')
def normal_forms(ctx):
    for w in W.stream(ctx):
        if not ctx.case(nf_case, w):
            return


def nf_list_case(ctx, nfs, scores):
    """Any list of analyses: those of units, dictionaries and estimators of other users, too."""
    import pymorphy2
    def mk():
        from pymorphy2.units.base import BaseAnalyzerUnit

        class GivenAnalyzer(BaseAnalyzerUnit):
            given = []

            def parse(self, word, word_lower, seen_parses):
                return list(GivenAnalyzer.given)

            def normalized(self, form):
                return form

            def get_lexeme(self, form):
                return [form]
        return pymorphy2.MorphAnalyzer(units=[GivenAnalyzer()], probability_estimator_cls=None), GivenAnalyzer
    m, unit = ctx.cached('nf-given', mk)
    tag = ctx.cached('nf-tag', lambda: m.dictionary.gramtab[0])
    unit.given = [(f, tag, n, s, ((unit, f),)) for f, n, s in zip('аб' * len(nfs), nfs, scores)]
    out = []
    for n in nfs:
        if n not in out:
            out.append(n)
    expect_eq(list(m.normal_forms('кот')), out, 'normal forms of given analyses')


@oracle('C19')
def normal_forms_lists(ctx):
    r = ctx.rng
    pool = ['кот', 'кот-', 'кот-пёс', 'коты', 'кота', 'Кот', 'КОТ', 'ёж', 'еж', '', 'к', 'кот кот', 'пёс', 'пес', 'пёс-кот', '1', 'a'] + ctx.strs
    t = ctx.sub_deadline
    while ctx.go():
        sub = r.sample(pool, r.randint(1, 6))
        nfs = [r.choice(sub) for _ in range(r.choice([0, 1, 2, 3, 5, 9, 40]))]
        if not ctx.case(nf_list_case, nfs, [r.choice([1.0, .5, .25, .5, 1e-7, 0.0, .1]) for _ in nfs]):
            return


def plain(ctx):
    def mk_():
        import pymorphy2
        return pymorphy2.MorphAnalyzer(result_type=None)
    return ctx.cached('plain', mk_)


def nf_plain_case(ctx, w):
    m = plain(ctx)
    out = []
    for p in m.parse(w):
        if p[2] not in out:
            out.append(p[2])
    expect_eq(list(m.normal_forms(w)), out, 'normal forms of %r with plain tuples' % w)


@oracle('C19')
def normal_forms_plain(ctx):
    for w in W.stream(ctx):
        if not ctx.case(nf_plain_case, w):
            return


# ------------------------------------------------------------------ C26
def snapshot(m):
    """Observable state: everything but caches of derived values."""
    out = []
    for u, term in m._units:
        d = {}
        for k, v in sorted(u.__dict__.items()):
            if k in ('morph', 'dict', 'dict_analyzer', 'fake_dict') or callable(v):
                continue
            d[k] = repr(v)[:4000]
        out.append((type(u).__name__, term, sorted(d.items())))
    d = m.dictionary
    out.append((len(d.paradigms), len(d.gramtab), len(d.suffixes), repr(d.paradigm_prefixes), hash(tuple(map(str, d.gramtab))), repr(m.lang),
                repr(sorted(m.__dict__)), repr(sorted(d.__dict__)), sorted(m.TagClass.KNOWN_GRAMMEMES), repr(sorted(m.char_substitutes.items()))))
    return out


def results(m, w):
    ps = m.parse(w)
    return ([full(p) for p in ps], [str(t) for t in m.tag(w)], list(m.normal_forms(w)), m.word_is_known(w))


def fresh(ctx):
    import pymorphy2
    return pymorphy2.MorphAnalyzer()


def memory_case(ctx, ws):
    """The words in two orders, on two analyzers; results tampered with in between."""
    a = ctx.morph
    b = ctx.cached('fresh', lambda: fresh(ctx))
    ra = {}
    for w in ws:
        ra[w] = results(a, w)
        ps, ts = a.parse(w), a.tag(w)
        for p in ps[:2]:
            lx = p.lexeme
            p.normalized
            try:
                p.inflect({'plur'})
                p.make_agree_with_number(5)
            except ValueError:
                pass
            del lx[:]
        del ps[:], ts[:]
        nf = a.normal_forms(w)
        nf.append('x')
    for w in reversed(ws):
        expect_eq(results(b, w), ra[w], 'result for %r depends on history' % w)
    for w in ws:
        expect_eq(results(a, w), ra[w], 'result for %r changed' % w)


def state_case(ctx, ws):
    m = ctx.morph
    s0 = ctx.cached('snap0', lambda: snapshot(m))
    memory_case(ctx, ws)
    expect_eq(snapshot(m), s0, 'state of the analyzer changed')


@oracle('C26')
def no_memory(ctx):
    m = ctx.morph
    ctx.cached('snap0', lambda: snapshot(m))
    r = ctx.rng
    pool = [w for w in W.FIXED if W.clean(w)]
    seen = []
    while ctx.go():
        ws = [r.choice(pool) if r.random() < .3 else W.word(ctx) for _ in range(12)]
        ws = [w for w in ws if W.clean(w)]
        seen += ws[:2]
        ws += [w.upper() for w in ws[:2]] + [r.choice(seen)] + ['псевдо' + w for w in ws[:1]]
        if not ctx.case(state_case if ctx.evals % 5 == 0 else memory_case, ws):
            return


def thread_case(ctx, ws):
    m = ctx.morph
    base = {w: results(m, w) for w in ws}
    bad = []

    def work(k):
        for w in ws[k:] + ws[:k]:
            try:
                if results(m, w) != base[w]:
                    bad.append(w)
            except Exception as ex:
                bad.append((w, repr(ex)))
    ts = [threading.Thread(target=work, args=(k * 5,)) for k in range(6)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    check(not bad, 'results differ between threads', words=bad[:5])


@oracle('C26')
def threads(ctx):
    while ctx.go():
        ws = [w for w in (W.word(ctx) for _ in range(40)) if W.clean(w)]
        if not ctx.case(thread_case, ws):
            return


# ------------------------------------------------------------------ C29
CASES6 = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct']


def initial_case(ctx, w):
    import pymorphy2
    m = ctx.cached('noest', lambda: pymorphy2.MorphAnalyzer(probability_estimator_cls=None))
    ps = m.parse(w)
    first = [p for p in ps if unit(p) == 'AbbreviatedFirstNameAnalyzer']
    patr = [p for p in ps if unit(p) == 'AbbreviatedPatronymicAnalyzer']
    byinit = [p for p in ps if 'Init' in gs(p.tag)]
    tags = [str(t) for t in m.tag(w) if 'Init' in gs(t)]
    if len(w) == 1 and w in W.INITIALS:
        for name, part in (('Name', first), ('Patr', patr)):
            expect_eq(sorted((g, c) for p in part for g in ('masc', 'femn') for c in CASES6 if {g, c} <= gs(p.tag)),
                      sorted((g, c) for g in ('masc', 'femn') for c in CASES6), '%s initials of %r' % (name, w))
            expect_eq(len(part), 12, 'number of %s initials of %r' % (name, w))
            for p in part:
                check({name, 'Init', 'NOUN', 'sing'} <= gs(p.tag), 'tag of an initial', tag=str(p.tag))
                expect_eq((p.word, p.normal_form, p.score), (w.lower(), w.lower(), 0.1), 'initial %r' % w)
                lx = p.lexeme
                g = 'masc' if 'masc' in gs(p.tag) else 'femn'
                got = sorted((x, c) for f in lx for x in ('masc', 'femn') for c in CASES6 if {x, c} <= gs(f.tag))
                want = sorted((x, c) for x in ([g] if name == 'Name' else ['masc', 'femn']) for c in CASES6)
                expect_eq(got, want, 'lexeme of the %s initial %r' % (name, w), tag=str(p.tag))
                n = p.normalized
                if name == 'Name':
                    check(g in gs(n.tag) and 'nomn' in gs(n.tag), 'normalised first-name initial', tag=str(p.tag), got=str(n.tag))
                check(str(n.tag) == str(lx[0].tag), 'normalised initial', got=str(n.tag))
                for x in n.lexeme:
                    check(name in gs(x.tag), 'lexeme keeps kind')
        expect_eq(sorted(tags), sorted(str(p.tag) for p in first + patr), 'initial tags of %r' % w)
        m.parse(w)[0].lexeme
    else:
        check(not first and not patr and not tags, 'initials analyses of %r' % w, got=[str(p.tag) for p in byinit])


def initial_units_case(ctx, letters, pattern, score, w):
    """The initials after other methods, with other letters, tags and scores: none of it matters."""
    import pymorphy2
    from pymorphy2 import units

    def mk():
        class ManyAnalyzer(units.base.BaseAnalyzerUnit):
            def parse(self, word, word_lower, seen_parses):
                tag = self.morph.dictionary.gramtab[0]
                seen_parses.update((word_lower + str(i), tag, 7) for i in range(40))
                return [(word_lower, tag, word_lower, .01, ((self, word),))]

            def tag(self, word, word_lower, seen_tags):
                seen_tags.update(self.morph.dictionary.gramtab[:40])
                return [self.morph.dictionary.gramtab[0]]
        order = [[units.DictionaryAnalyzer(), ManyAnalyzer(), units.AbbreviatedFirstNameAnalyzer(letters, **dict({'tag_pattern': pattern} if pattern else {}, score=score)),
                  units.AbbreviatedPatronymicAnalyzer(letters, score=score), units.UnknAnalyzer()]]
        return pymorphy2.MorphAnalyzer(units=order, probability_estimator_cls=None)
    m = ctx.cached(('initial-units', letters, pattern, score), mk)
    want = 12 if w in list(letters) else 0
    for _ in range(2):
        ps = m.parse(w)
        for n in ('AbbreviatedFirstNameAnalyzer', 'AbbreviatedPatronymicAnalyzer'):
            mine = [p for p in ps if unit(p) == n]
            expect_eq(len(mine), want, 'analyses of %r by %s' % (w, n), letters=letters)
            for p in mine:
                expect_eq((p.word, p.normal_form, p.score), (w.lower(), w.lower(), score), 'initial %r' % w, letters=letters)
        expect_eq(len([t for t in m.tag(w) if 'Init' in gs(t)]), 2 * want, 'initial tags of %r' % w, letters=letters)


@oracle('C29')
def initials_units(ctx):
    r = ctx.rng
    ws = ['А', 'В', 'С', 'О', 'Я', 'И', 'а', 'в', 'с', 'К', 'Х', 'X', 'AB', 'АВ', 'ВС', '', 'Ё', 'ё', 'Ы']
    for letters, pattern, score in (('АВСОЯИ', None, .1), ('авсА', None, .5), ('X', 'NOUN,anim,%(gender)s,Sgtm,Name,Fixd,Abbr,Init sing,%(case)s', .25), ('Ё', None, 1.0)):
        for w in ws:
            if not ctx.case(initial_units_case, letters, pattern, score, w):
                return


@oracle('C29')
def initials(ctx):
    r = ctx.rng
    for w in list(W.INITIALS) + list(W.INITIALS.lower()) + ['Ъ', 'Ь', 'Ы', 'A', 'B', 'АА', 'А.', '', ' ', 'А ', '-А', 'Ё\u0308'] + list(W.INITIALS):
        if not ctx.case(initial_case, w):
            return
    for w in W.stream(ctx):
        if r.random() < .3:
            w = r.choice(W.INITIALS)
            if r.random() < .3:
                w += r.choice(['', '.', 'А', 'а', ' ', '-'])
        if not ctx.case(initial_case, w):
            return
