# -*- coding: utf-8 -*-
from __future__ import unicode_literals
import collections
import json
import os
import pickle
from .lib import oracle, check, expect_eq, Fail, Skip
from . import words as W

CATS = dict(
    POS='NOUN ADJF ADJS COMP VERB INFN PRTF PRTS GRND NUMR ADVB NPRO PRED PREP CONJ PRCL INTJ', animacy='anim inan', gender='masc femn neut',
    number='sing plur', case='nomn gent datv accs ablt loct voct gen1 gen2 acc2 loc1 loc2', aspect='perf impf', transitivity='tran intr',
    person='1per 2per 3per', tense='pres past futr', mood='indc impr', voice='actv pssv', involvement='incl excl')
CATS = {k: v.split() for k, v in CATS.items()}


def gram_rows(ctx):
    return ctx.cached('rows', lambda: json.load(open(os.path.join(ctx.morph.dictionary.path, 'grammemes.json'), encoding='utf-8')))


def names_of(s):
    """Names: split at commas and at the first space."""
    return s.replace(' ', ',', 1).split(',')


def known(ctx):
    return set(ctx.morph.TagClass.KNOWN_GRAMMEMES)


def build_case(ctx, s):
    T = ctx.morph.TagClass
    ns = names_of(s)
    K = known(ctx)
    try:
        t = T(s)
    except ValueError:
        check(any(n not in K for n in ns), 'building %r is refused' % s)
        return
    check(all(n in K for n in ns), 'building %r is accepted' % s)
    expect_eq(set(t.grammemes), set(ns), 'grammemes of %r' % s)
    expect_eq(len(t), len(ns), 'length of %r' % s)
    expect_eq(str(t), s, 'text of %r' % s)
    for k, v in sorted(CATS.items()):
        have = [g for g in v if g in ns]
        got = getattr(t, k)
        if not have:
            check(got is None, '%s of %r' % (k, s), got=got)
        else:
            check(got in have, '%s of %r' % (k, s), got=str(got))
            for g in v:
                expect_eq(got == g, str(got) == g, 'comparing %s of %r with %s' % (k, s, g))
            try:
                got == 'xxxx'
            except ValueError:
                pass
            else:
                raise Fail('typed grammeme of %r compares with an unknown name' % s)
    for g in sorted(K)[::7] + ns:
        expect_eq(g in t, g in ns, '%s in %r' % (g, s))
    c = pickle.loads(pickle.dumps(t, 2))
    check(c == t and str(c) == str(t) and hash(c) == hash(t), 'pickled copy of %r' % s)


def pair_case(ctx, a, b):
    T = ctx.morph.TagClass
    x, y = T(a), T(b)
    p, q = tuple(names_of(a)), tuple(names_of(b))
    expect_eq((x == y, x != y, x < y, x > y), (p == q, p != q, p < q, p > q), 'comparing tags %r and %r' % (a, b))
    if p == q:
        expect_eq(hash(x), hash(y), 'hashes of %r and %r' % (a, b))
    expect_eq(sorted([x, y]) == [x, y], not q < p, 'sorting %r and %r' % (a, b))


def member_case(ctx, s, gr):
    T = ctx.morph.TagClass
    K = known(ctx)
    ns = set(names_of(s))
    t = T(s)
    for val in (set(gr), frozenset(gr)) + ((gr[0],) if len(gr) == 1 else ()):
        want = set(gr) <= ns
        try:
            got = val in t
        except ValueError:
            check(not want and any(g not in K for g in gr), 'testing %r in %r raises' % (gr, s))
        else:
            expect_eq(got, want, 'testing %r in %r' % (gr, s))
            check(want or all(g in K for g in gr), 'testing the unknown %r in %r does not raise' % (gr, s))


def tag_strings(ctx):
    return ctx.cached('tagstrs', lambda: sorted(set(str(t) for t in ctx.morph.dictionary.gramtab)))


def rnd_tag(ctx, bad=0.1):
    r = ctx.rng
    ts = tag_strings(ctx)
    k = r.random()
    if k < .4:
        return r.choice(ts)
    K = sorted(known(ctx))
    n = r.randint(1, 6)
    ns = [r.choice(K) for _ in range(n)]
    if r.random() < bad:
        ns[r.randrange(n)] = r.choice(['', 'xxx', 'noun', 'NOUN ', 'sing plur', 'сущ', 'NOUNx'] + ctx.strs[:20])
    seps = [',' for _ in range(n - 1)]
    if seps and r.random() < .6:
        seps[r.randrange(len(seps))] = ' '
    out = ns[0]
    for s, x in zip(seps, ns[1:]):
        out += s + x
    return out


@oracle('C10')
def tags(ctx):
    r = ctx.rng
    K = sorted(known(ctx))
    for s in ['', ',', ' ', 'NOUN', 'NOUN ', ' NOUN', 'NOUN,', 'NOUN  sing', 'NOUN sing plur', 'NOUN,NOUN', 'UNKN', 'LATN', 'NUMB,intg']:
        ctx.case(build_case, s)
    for s in tag_strings(ctx)[::3]:
        if not ctx.case(build_case, s):
            return
    while ctx.go():
        k = r.random()
        if k < .4:
            ok = ctx.case(build_case, rnd_tag(ctx))
        elif k < .7:
            a = rnd_tag(ctx, 0)
            b = a.replace(' ', ',', 1) if r.random() < .2 else ','.join(names_of(a)[::-1]) if r.random() < .2 else rnd_tag(ctx, 0)
            ok = ctx.case(pair_case, a, b)
        else:
            a = rnd_tag(ctx, 0)
            ns = names_of(a)
            gr = r.sample(ns, r.randint(0, len(ns))) if r.random() < .6 else [r.choice(K)]
            if r.random() < .3:
                gr = gr + [r.choice(['xxx', 'noun', '', r.choice(K)])]
            ok = ctx.case(member_case, a, gr)
        if not ok:
            return


# ------------------------------------------------------------------ C11
def ref_incompat(rows, extra=True):
    parent = collections.OrderedDict((r[0], r[1]) for r in rows)
    kids = collections.defaultdict(set)
    for n, p in parent.items():
        if p:
            kids[p].add(n)
            if parent.get(p):
                kids[parent[p]].add(n)
    out = {}
    for n, p in parent.items():
        s = set(kids[p]) if p else set()
        if n == 'plur' and extra:
            s |= {'GNdr'} | kids['GNdr']
        out[n] = s - {n}
    return out


RARE = {'gen1': 'gent', 'gen2': 'gent', 'acc1': 'accs', 'acc2': 'accs', 'loc1': 'loct', 'loc2': 'loct', 'voct': 'nomn'}


def update_case(ctx, s, req):
    T = ctx.morph.TagClass
    inc = ctx.cached('refinc', lambda: ref_incompat(gram_rows(ctx)))
    K = known(ctx)
    t = T(s)
    ns = set(names_of(s))
    before = (str(t), frozenset(t.grammemes))
    rq = set(req)
    for arg in (set(rq), frozenset(rq)):
        try:
            got = t.updated_grammemes(arg)
        except ValueError:
            check(any(g not in K for g in rq), 'updating %r with %r raises' % (s, sorted(rq)))
        else:
            check(all(g in K for g in rq), 'updating %r with the unknown %r is accepted' % (s, sorted(rq)))
            want = (ns | rq)
            for g in rq:
                want = want - inc.get(g, set())
            expect_eq(set(got), want, 'updating %r with %r' % (s, sorted(rq)))
        expect_eq(arg, rq, 'argument changed')
    expect_eq((str(t), frozenset(t.grammemes)), before, 'tag changed by updating')


def rare_case(ctx, gr):
    T = ctx.morph.TagClass
    expect_eq(set(T.fix_rare_cases(set(gr))), set(RARE.get(g, g) for g in gr), 'fix_rare_cases(%r)' % sorted(gr))


def hier_case(ctx, rows):
    """A made-up hierarchy on a fresh subclass."""
    from pymorphy2.tagset import OpencorporaTag

    class T(OpencorporaTag):
        __slots__ = []
        _EXTRA_INCOMPATIBLE = {'plur': {'GNdr'}}
        _GRAMMEME_INDICES = collections.defaultdict(int)
        _GRAMMEME_INCOMPATIBLE = collections.defaultdict(set)
    T._init_grammemes([tuple(r) for r in rows])
    expect_eq(set(T.KNOWN_GRAMMEMES), set(r[0] for r in rows), 'known grammemes')
    inc = ref_incompat(rows)
    for n in inc:
        expect_eq(set(T._GRAMMEME_INCOMPATIBLE[n]), inc[n], 'incompatible with %s' % n)
    for r in rows:
        got = T(r[0]).updated_grammemes({rows[0][0]})
        want = {r[0], rows[0][0]} - inc[rows[0][0]]
        expect_eq(set(got), want, 'updating %s with %s' % (r[0], rows[0][0]))
    T.add_grammemes_to_known('zzzz', 'яяяя')
    check('zzzz' in T.KNOWN_GRAMMEMES and T.grammeme_is_known('zzzz'), 'added grammeme')


@oracle('C11')
def updating(ctx):
    r = ctx.rng
    K = sorted(known(ctx))
    ctx.case(hier_case, [tuple(x) for x in gram_rows(ctx)])
    T = ctx.morph.TagClass
    for g in K:
        for s in ('NOUN,anim,masc sing,nomn', 'VERB,perf,tran plur,impr,excl', 'ADJF,Qual femn,sing,accs', 'UNKN'):
            ctx.case(update_case, s, [g])
        ctx.case(rare_case, [g])
    while ctx.go():
        k = r.random()
        if k < .6:
            req = r.sample(K, r.randint(0, 4))
            if r.random() < .1:
                req.append(r.choice(['xxx', '', 'noun']))
            ok = ctx.case(update_case, rnd_tag(ctx, 0), req)
        elif k < .8:
            ok = ctx.case(rare_case, r.sample(K + ['xxx', 'acc1', 'gen1'], r.randint(0, 5)))
        else:
            names = ['POST', 'NOUN', 'GNdr', 'masc', 'femn', 'NMbr', 'sing', 'plur', 'CAse', 'gent', 'gen1', 'a1', 'b2', 'c3']
            r.shuffle(names)
            names = names[:r.randint(2, len(names))]
            rows = []
            for i, n in enumerate(names):
                p = r.choice(['', None] + names[:i] + names[:i]) if r.random() < .9 else r.choice(names)
                rows.append((n, p if p != n else '', 'к' + n, 'd'))
            r.shuffle(rows)
            ok = ctx.case(hier_case, rows)
        if not ok:
            return


# ------------------------------------------------------------------ C12
def alias_tables(ctx):
    def mk():
        l2c = collections.OrderedDict((r[0], r[2]) for r in gram_rows(ctx))
        l2c.update([('Init', 'иниц'), ('NUMB', 'ЧИСЛО'), ('intg', 'цел'), ('real', 'вещ'), ('PNCT', 'ЗПР'), ('ROMN', 'РИМ'), ('LATN', 'ЛАТ'), ('UNKN', 'НЕИЗВ')])
        return l2c, {v: k for k, v in l2c.items()}
    return ctx.cached('aliases', mk)


def ref_translate(s, table):
    return ' '.join(','.join(table.get(x, x) for x in part.split(',')) for part in s.split())


def translate_case(ctx, s):
    l2c, c2l = alias_tables(ctx)
    m = ctx.morph
    got = m.lat2cyr(s)
    expect_eq(got, ref_translate(s, l2c), 'lat2cyr(%r)' % s)
    expect_eq(m.cyr2lat(s), ref_translate(s, c2l), 'cyr2lat(%r)' % s)
    if all(x in l2c for part in s.split() for x in part.split(',')) and len(set(l2c.values())) == len(l2c):
        expect_eq(m.cyr2lat(got), ' '.join(s.split()), 'there and back of %r' % s)


def tag_translate_case(ctx, s):
    l2c, c2l = alias_tables(ctx)
    t = ctx.morph.TagClass(s)
    want = ref_translate(s, l2c)
    expect_eq(ctx.morph.lat2cyr(t), want, 'lat2cyr of the tag %r' % s)
    expect_eq(t.cyr_repr, want, 'cyr_repr of %r' % s)
    expect_eq(t.cyr_repr, want, 'cyr_repr of %r' % s)
    expect_eq(set(t.grammemes_cyr), set(l2c[g] for g in names_of(s)), 'grammemes_cyr of %r' % s)


def add_case(ctx, ops):
    from pymorphy2.tagset import OpencorporaTag

    class T(OpencorporaTag):
        __slots__ = []
        _EXTRA_INCOMPATIBLE = {}
        _GRAMMEME_INDICES = collections.defaultdict(int)
        _GRAMMEME_INCOMPATIBLE = collections.defaultdict(set)
    T._init_grammemes([('aa', '', 'аа', ''), ('bb', 'aa', 'бб', '')])
    for lat, cyr, ow in ops:
        b = (set(T.KNOWN_GRAMMEMES), dict(T._LAT2CYR), dict(T._CYR2LAT))
        was = lat in T.KNOWN_GRAMMEMES
        if ow is None:
            T.add_grammemes_to_known(lat, cyr)
        else:
            T.add_grammemes_to_known(lat, cyr, overwrite=ow)
        if was and ow is False:
            expect_eq((set(T.KNOWN_GRAMMEMES), dict(T._LAT2CYR), dict(T._CYR2LAT)), b, 'adding %r again' % lat)
        else:
            expect_eq((T.lat2cyr(lat), T.cyr2lat(cyr)), (cyr, lat), 'adding %r' % lat)
            check(T.grammeme_is_known(lat), 'added %r unknown' % lat)
            for k in b[1]:
                if k != lat:
                    expect_eq(T._LAT2CYR[k], b[1][k], 'other name %r' % k)


@oracle('C12')
def translation(ctx):
    r = ctx.rng
    l2c, c2l = alias_tables(ctx)
    L, Cy = sorted(l2c), sorted(c2l)
    for s in tag_strings(ctx):
        if not ctx.case(tag_translate_case, s):
            break
    for s in ['', ' ', ',', ', ,', 'NOUN,', ' NOUN', 'NOUN  sing', 'NOUN\tsing\nnomn', 'foo', 'СУЩ ед', 'NOUN,foo sing,bar', 'СУЩ,foo', 'NOUN ,sing']:
        ctx.case(translate_case, s)
    while ctx.go():
        k = r.random()
        if k < .8:
            pool = L if r.random() < .5 else Cy if r.random() < .7 else L + Cy + ['foo', '', 'noun']
            s = ''
            for i in range(r.randint(1, 6)):
                s += (r.choice([',', ',', ' ', '  ', '\t', ' ,']) if i else '') + r.choice(pool)
            ok = ctx.case(translate_case, s)
        else:
            ok = ctx.case(add_case, [(r.choice(['aa', 'bb', 'cc', 'dd']), r.choice(['аа', 'бб', 'вв', 'гг']), r.choice([None, True, False])) for _ in range(4)])
        if not ok:
            return
