# -*- coding: utf-8 -*-
"""Contracts of the probability estimator."""
from .common import *

E = 'analyzer.ProbabilityEstimator.'
SUMS = 'linearity of finite sums: scores multiplied by the reciprocal of their sum add up to 1 (real arithmetic for floats)'


class Probs(object):
    """The stored P(tag|word) table (contract of the DAWG): a non-negative number for every word and tag."""
    _symbolic = True
    f = z3.Function('p_t_given_w', StrS, Obj, RealS)

    def prob(self, word, tag):
        x = self.f(zstr(word), tag.e)
        S.assume(x >= 0) if not S.gidx and not S.idx else S.add_univ([], x >= 0)
        return SReal(x)


def form(i):
    return sym_form(None, 'a', dom=(i,))


def setup(v):
    n = z3.Int('n')
    S.assume(n >= 0)
    S.cand(z3.IntVal(0), 'parses')
    parses = shared_list(v, 'parses', form, n=n, facts=lambda i: [form(i)[3].e > 0])
    est = bare(mod('pymorphy2.analyzer').ProbabilityEstimator, p_t_given_w=Probs())
    shared(est)
    word = v.str('word')
    return n, parses, est, word, word.lower()


def same_but_score(p, q):
    return zand(zstr(p[0]) == zstr(q[0]), p[1].e == q[1].e, zstr(p[2]) == zstr(q[2]), zb(eq(p[4], q[4])))


@proof('C04 C01 C02 C03', 'ProbabilityEstimator.apply_to_parses', [E + 'apply_to_parses'],
       assumes=['stored probabilities are non-negative', SUMS, 'scores of units are positive (C06)', 'the empty sum is 0'])
def to_parses(v):
    n, parses, est, word, low = setup(v)
    r = as_list(v.call('apply_to_parses', est.apply_to_parses, word, low, parses))
    v.declare('no analysis is added or lost', 'nothing but the score changes', 'scores are divided by their sum if nothing is stored',
              'the score is the stored probability otherwise', 'normalised scores are positive', 'highest probability first, ties in order',
              'the analyses given are unchanged')
    v.check('no analysis is added or lost', zint(r.length()) == n)
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < n))
    p = form(i.e)
    v.cand(i, kind='parses')
    stored = lambda f: Probs.f(low.e, f[1].e)
    which = S.choose(['some', 'norm', 'order', 'frame'], 'which')
    src = r.sorted_by[2] if r.sorted_by else r
    if which == 'frame':
        v.no_writes('the analyses given are unchanged')
    elif which == 'some':
        # the source list has, position by position, the analyses given
        q = src[i]
        v.check('nothing but the score changes', same_but_score(q, p))
        if r.sorted_by:
            v.check('the score is the stored probability otherwise', zreal(q[3]) == stored(p))
        else:
            total = raw_sum(i.e, n)
            if total is None:
                # nothing was divided: only right if there is nothing
                v.check('scores are divided by their sum if nothing is stored', False)
            else:
                v.check('scores are divided by their sum if nothing is stored', zand(zreal(q[3]) * total == p[3].e, stored(p) == 0))
                v.check('normalised scores are positive', zreal(q[3]) > 0)
    elif which == 'norm':
        if r.sorted_by:
            S.add_univ([i.e], z3.Implies(zand(i.e >= 0, i.e < n), stored(form(i.e)) == 0))
            v.check('scores are divided by their sum if nothing is stored', False)
    else:
        if r.sorted_by:
            sorted_like(v, 'highest probability first, ties in order', r, lambda f: zreal(f[3]))


def raw_sum(i, n):
    """The term the code computed as the sum of the raw scores (by the contract of sum)."""
    for t, s in S.memo.get('sums', []):
        if len(s.families) == 1 and s.regular and len(s.families[0].binders) == 1:
            es, val = s.families[0].at([i])
            if z3.is_expr(zreal(val)) and zreal(val).eq(form(i)[3].e) and s.regular[1].eq(n):
                return t
    return None


def sorted_like(v, name, r, spec):
    """The list was made by a stable sort whose order is: greatest spec first."""
    key, reverse, src = r.sorted_by
    a, b = v.pair(src)
    ka, kb = (key(a), key(b)) if key else (a, b)
    lt = zb(rt.cmp('<', ka, kb)) if reverse else zb(rt.cmp('>', ka, kb))
    v.check(name, bool(reverse) and (lt == (spec(a) < spec(b))) if reverse else lt == (spec(a) < spec(b)))
    gt = zb(rt.cmp('<', kb, ka)) if reverse else zb(rt.cmp('>', kb, ka))
    v.check(name, gt == (spec(b) < spec(a)))


@proof('C04 C03', 'ProbabilityEstimator.apply_to_tags', [E + 'apply_to_tags'], assumes=['stored probabilities are non-negative'])
def to_tags(v):
    n, parses, est, word, low = setup(v)
    f = z3.Function('t', IntS, Obj)
    tags = shared_list(v, 'tags', lambda i: STag(f(i)), n=n)
    r = as_list(v.call('apply_to_tags', est.apply_to_tags, word, low, tags))
    v.declare('no tag is added or lost', 'the tags given', 'highest probability first, ties in order', 'the tags given are unchanged')
    v.check('no tag is added or lost', zint(r.length()) == n)
    which = S.choose(['some', 'order', 'frame'], 'which')
    if which == 'frame':
        v.no_writes('the tags given are unchanged')
    elif which == 'some':
        i = v.int('i')
        S.assume(zand(i.e >= 0, i.e < n))
        src = r.sorted_by[2] if r.sorted_by else r
        v.check('the tags given', src[i].e == f(i.e))
    elif r.sorted_by:
        sorted_like(v, 'highest probability first, ties in order', r, lambda t: Probs.f(low.e, t.e))
    else:
        a, b = v.pair(r)
        v.check('highest probability first, ties in order', Probs.f(low.e, a.e) >= Probs.f(low.e, b.e))


class Table(object):
    """dawg.IntCompletionDAWG: a number for each stored key."""
    _symbolic = True
    MULTIPLIER = 1000000
    has = z3.Function('stored', StrS, BoolS)
    val = z3.Function('number', StrS, IntS)

    def get(self, key, default=None):
        return SInt(self.val(zstr(key))) if S.fork(self.has(zstr(key))) else default

    def __getitem__(self, key):
        if not S.fork(self.has(zstr(key))):
            raise KeyError(key)
        return SInt(self.val(zstr(key)))

    def _contains(self, key):
        return self.has(zstr(key))


@proof('C04', 'ConditionalProbDistDAWG.prob', ['dawg.ConditionalProbDistDAWG.prob'],
       assumes=['a DAWG gives the number stored under a key, or the default'])
def prob(v):
    D = mod('pymorphy2.dawg')
    Table.MULTIPLIER = D.ConditionalProbDistDAWG.MULTIPLIER
    word, tag = v.str('word'), v.str('tag')
    r = v.call('prob', D.ConditionalProbDistDAWG.prob, Table(), word, tag)
    key = z3.Concat(word.e, str_val(':'), tag.e)
    v.declare('a millionth of the number stored for the word and the tag', 'nothing stored: 0')
    v.check('a millionth of the number stored for the word and the tag',
            implies(Table.has(key), zreal(r) * 1000000 == z3.ToReal(Table.val(key))))
    v.check('nothing stored: 0', implies(z3.Not(Table.has(key)), zreal(r) == 0))
