# -*- coding: utf-8 -*-
"""Compiling, saving, importing and preprocessing dictionaries: C13 C15 C16 C17 C18 C28."""
from __future__ import unicode_literals
import collections
import copy
import itertools
import json
import os
import shutil
import tempfile
from .lib import oracle, check, expect_eq, Fail, Skip


def _compile():
    from pymorphy2.opencorpora_dict import compile as c
    return c


def _can_create():
    from pymorphy2 import dawg
    return dawg.EXTENSION_AVAILABLE


TAGS = ['NOUN,anim,masc sing,nomn', 'NOUN,anim,masc sing,gent', 'NOUN plur,nomn', 'NOUN,inan', 'ADJF,Qual', 'ADJF,Qual sing,masc', 'VERB', 'VERB,perf sing,past',
        'INFN,perf', 'PREP', 'COMP,Qual V-ej', 'NUMR nomn', 'NPRO,masc 3per', 'A', 'NOUN Sgtm', 'PRTF,past sing']
PREFIXES = ['', 'по', 'наи']
ALPHA = 'абвён'


def rand_form(rng):
    return ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 5)))


def rand_lexeme(rng, tags=TAGS, shapes=None):
    k = rng.random()
    n = rng.randint(1, 5)
    if k < .15:
        return [(rand_form(rng), rng.choice(tags)) for _ in range(n)]
    if k < .25:
        w = rand_form(rng)
        return [(w, rng.choice(tags)) for _ in range(n)]
    stem = rand_form(rng) if rng.random() < .9 else ''
    if shapes and rng.random() < .75:
        sh = rng.choice(shapes)
        if rng.random() < .3:       # almost the same: one column differs in one form
            i, k = rng.randrange(len(sh)), rng.randrange(3)
            new = list(sh[i])
            new[k] = rng.choice([PREFIXES, ['', 'а', 'ы', 'ом', 'ами'], tags][k])
            sh = sh[:i] + [tuple(new)] + sh[i + 1:]
            shapes.append(sh)
    else:
        pk = rng.random()
        pref = (lambda: '') if pk < .6 else (lambda: rng.choice(PREFIXES)) if pk < .9 else (lambda: rng.choice(['', 'не', 'по']))
        sh = [(pref(), rng.choice(['', 'а', 'ы', 'ом', 'ён', 'ами', 'ванный', 'а']), rng.choice(tags)) for _ in range(n)]
        if shapes is not None:
            shapes.append(sh)
    if rng.random() < .03:       # forms that contain or end with a space
        sp = [rng.choice(['', ' ', ' а', 'а ']) for _ in sh]
        return [((p + stem + s + x) or 'а', t) for (p, s, t), x in zip(sh, sp)]
    return [((p + stem + s) or 'а', t) for p, s, t in sh]


def rand_dict(rng, n=None, tags=TAGS):
    shapes = []
    n = n if n is not None else rng.choice([1, 2, 3, 8, 20])
    ids = rng.sample(range(1, 10 ** rng.choice([2, 3, 6, 7, 9])), n)
    return [[str(i), rand_lexeme(rng, tags, shapes)] for i in ids]


def long_lexeme(rng, n, tags=TAGS):
    """More forms than small machine integers count: distinct forms, distinct tags where there are enough."""
    stem = rand_form(rng)
    ends = [''.join(e) for k in range(1, 5) for e in itertools.product(ALPHA, repeat=k)]
    return [(stem + ends[i], '%s V%d' % (rng.choice(tags[:4]).split(' ')[0], i) if i % 2 else rng.choice(tags)) for i in range(n)]


def parsed(lexemes, links=(), grammemes=(), version='0.92', revision='4'):
    from pymorphy2.opencorpora_dict.parse import ParsedDictionary
    return ParsedDictionary(lexemes=collections.OrderedDict((k, [tuple(f) for f in v]) for k, v in lexemes), links=[tuple(l) for l in links],
                            grammemes=list(grammemes), version=version, revision=revision)


def norm(lexemes):
    return [[str(k), [tuple(f) for f in v]] for k, v in lexemes]


def lex_ids_order(lexemes):
    return [v for k, v in sorted(lexemes, key=lambda kv: int(kv[0])) if v]


# ------------------------------------------------------------------ C13

def paradigm_case(ctx, lexeme, prefixes):
    c = _compile()
    lexeme = [tuple(f) for f in lexeme]
    stem, para = c._to_paradigm(list(lexeme), list(prefixes))
    expect_eq([(p + stem + s, t) for s, t, p in para], lexeme, 'stem, prefixes and suffixes do not rebuild the lexeme', paradigm=repr(para), stem=stem)
    check(all(p in prefixes for s, t, p in para), 'prefix not in the list', paradigm=repr(para))


@oracle('C13')
def to_paradigm(ctx):
    c = _compile()
    if not hasattr(c, '_to_paradigm'):
        raise Skip('_to_paradigm moved')
    while ctx.go():
        if not ctx.case(paradigm_case, rand_lexeme(ctx.rng), ctx.rng.choice([PREFIXES, [''], ['', 'а'], ['', 'наи', 'по', 'не']])):
            return


def compile_case(ctx, lexemes, links, opts=None):
    c = _compile()
    from pymorphy2.opencorpora_dict.wrapper import Dictionary
    lexemes = norm(lexemes)
    pd = parsed(lexemes, links)
    want_lex = join_ref(lexemes, links)
    o = {'paradigm_prefixes': list(PREFIXES)}
    o.update(opts or {})
    d = c.compile_parsed_dict(pd, dict(o))
    for para in d.paradigms:
        check(len(para) % 3 == 0, 'paradigm length')
    store = collections.defaultdict(list)
    for w, (p, i) in d.words_dawg.iteritems():
        store[w].append((p, i))

    # the decoding the analyzer uses
    w = Dictionary.__new__(Dictionary)
    w.paradigms, w.gramtab, w.suffixes, w.words, w.paradigm_prefixes = d.paradigms, d.gramtab, d.suffixes, d.words_dawg, o['paradigm_prefixes']
    entries = set()
    paras = {}
    for lex in want_lex:
        forms = [f for f, t in lex]
        cand = [p for p, i in store.get(forms[0], []) if i == 0]
        ok = None
        for p in cand:
            n = len(d.paradigms[p]) // 3
            if n != len(lex):
                continue
            info = w.build_paradigm_info(p)
            if [t for _, t, _ in info] != [t for _, t in lex]:
                continue
            st = w.build_stem(d.paradigms[p], 0, forms[0])
            if [a + st + b for a, _, b in info] != forms:
                continue
            if all((p, i) in store.get(f, []) and w.build_tag_info(p, i) == t and w.build_normal_form(p, i, f) == forms[0]
                   for i, (f, t) in enumerate(lex)):
                ok = p
                break
        check(ok is not None, 'a lexeme cannot be decoded from the compiled dictionary', lexeme=lex, stored={f: store.get(f) for f in forms})
        paras.setdefault(ok, []).append(lex)
        entries.update((f, ok, i) for i, (f, t) in enumerate(lex))
    expect_eq(sorted((f, p, i) for f, v in store.items() for p, i in v), sorted(entries), 'stored entries are not those of the lexemes')
    infos = [tuple(w.build_paradigm_info(p)) for p in range(len(d.paradigms))]
    check(len(set(infos)) == len(infos), 'one paradigm stored twice')
    expect_eq(len(d.paradigms), len(paras), 'number of paradigms')
    check(len(set(d.gramtab)) == len(d.gramtab), 'one tag stored twice')


def rand_links(rng, ids, n, types=None):
    """Links forming a forest: every lexeme is linked to at most once, no cycles."""
    order = list(ids)
    rng.shuffle(order)
    links = []
    for i, x in enumerate(order[1:], 1):
        if rng.random() < n:
            links.append((order[rng.randrange(i)], x, rng.choice(types or ['1', '3', '4', '11', '7', '21', '23', '27', '2', '12'])))
    rng.shuffle(links)
    return links


EXCLUDED = {'7', '21', '23', '27'}


def join_ref(lexemes, links):
    lexemes = norm(lexemes)
    lx = dict(lexemes)
    parent = {}
    for a, b, t in links:
        if t not in EXCLUDED:
            parent[b] = a
    root = lambda x: root(parent[x]) if x in parent else x
    groups = collections.OrderedDict()
    for k, _ in lexemes:
        groups.setdefault(root(k), []).append(k)
    out = []
    for r in sorted(groups, key=int):
        ks = [r] + [k for k in groups[r] if k != r]
        forms = sum((list(lx[k]) for k in ks), [])
        if forms:
            out.append((r, forms))
    return [f for r, f in out] if all(len(g) <= 2 for g in groups.values()) else _real_order(lexemes, links, out)


def _real_order(lexemes, links, out):
    """Where the order inside a joined lexeme is open (more than two joined), take the code's, once it is a permutation."""
    c = _compile()
    got = c._join_lexemes(collections.OrderedDict((k, list(v)) for k, v in norm(lexemes)), list(links))
    if [sorted(g) for g in got] == [sorted(f) for r, f in out]:
        return [list(g) for g in got]
    return [f for r, f in out]


@oracle('C13')
def compile_decode(ctx):
    if not _can_create():
        raise Skip('DAWG creation not available')
    for n in (130, 300, 700):
        lx = [['%d' % (7 * i + 3), v] for i, v in enumerate([rand_lexeme(ctx.rng), long_lexeme(ctx.rng, n), rand_lexeme(ctx.rng), long_lexeme(ctx.rng, n)])]
        if not ctx.case(compile_case, lx, []):
            return
    for n in (300,):
        lx = [['%d' % (i + 1), [(rand_form(ctx.rng) + ALPHA[i % 5] * (i % 3) + str(i), '%s q%d' % (ctx.rng.choice(TAGS[:1]).split(' ')[0], i))]] for i in range(n)]
        if not ctx.case(compile_case, lx, []):
            return
    while ctx.go():
        lx = rand_dict(ctx.rng)
        lk = rand_links(ctx.rng, [k for k, v in lx], ctx.rng.choice([0, .2, .5]))
        if not ctx.case(compile_case, lx, lk):
            return


# ------------------------------------------------------------------ C17

def join_case(ctx, lexemes, links):
    c = _compile()
    lexemes = norm(lexemes)
    src = collections.OrderedDict((k, list(v)) for k, v in lexemes)
    got = c._join_lexemes(src, [tuple(l) for l in links])
    got = [list(g) for g in got]
    check(all(got), 'an empty lexeme')
    pairs = collections.Counter(tuple(f) for _, v in lexemes for f in v)
    expect_eq(collections.Counter(tuple(f) for g in got for f in g), pairs, 'forms lost or repeated')
    parent = {}
    for a, b, t in links:
        if t not in EXCLUDED:
            parent[b] = a
    root = lambda x: root(parent[x]) if x in parent else x
    lx = dict(lexemes)
    groups = collections.OrderedDict()
    for k, _ in lexemes:
        groups.setdefault(root(k), []).append(k)
    want = []
    for r in sorted(groups, key=int):
        forms = sum((list(lx[k]) for k in groups[r]), [])
        if forms:
            want.append((lx[r], sorted(forms)))
    expect_eq([sorted(g) for g in got], [w for _, w in want], 'lexemes put together differ from the linked ones', links=links)
    for g, (head, _) in zip(got, want):
        expect_eq(g[:len(head)], head, 'the head lexeme does not come first', links=links)


@oracle('C17')
def join_lexemes(ctx):
    c = _compile()
    if not hasattr(c, '_join_lexemes'):
        raise Skip('_join_lexemes moved')
    import itertools
    # every forest on up to 4 lexemes, both link directions of numbering, in every order of the links (exhaustive)
    base = [['1', [('а', 'T')]], ['2', [('б', 'T'), ('б', 'T')]], ['10', [('в', 'T')]], ['3', []]]
    ids = ['1', '2', '10', '3']
    for par in itertools.product([None] + ids, repeat=4):
        links = [(p, i, '3') for p, i in zip(par, ids) if p]
        if any(p == i for p, i, _ in links) or _cyclic(dict((b, a) for a, b, _ in links)):
            continue
        for ls in itertools.permutations(links):
            if not ctx.go() or not ctx.case(join_case, base, list(ls)):
                return
    for n in (6, 13, 40, 300):
        # a chain of moves, then one more lexeme joins at its start
        lx = [[str(i + 1), [(chr(0x430 + i % 32) + str(i), 'T')]] for i in range(n + 1)]
        if not ctx.case(join_case, lx, [(str(i + 1), str(i), '3') for i in range(1, n)] + [('1', str(n + 1), '3')]):
            return
    types = [str(i) for i in range(1, 30)]
    for t in types:
        if not ctx.case(join_case, base, [('2', '1', t), ('10', '2', '1')]):
            return
    while ctx.go():
        lx = rand_dict(ctx.rng, ctx.rng.randint(1, 9))
        for e in lx:
            if ctx.rng.random() < .1:
                e[1] = []
        lk = rand_links(ctx.rng, [k for k, v in lx], ctx.rng.choice([.2, .5, .9]), types)
        if not ctx.case(join_case, lx, lk):
            return


def _cyclic(parent):
    for x in parent:
        seen = set()
        while x in parent:
            if x in seen:
                return True
            seen.add(x)
            x = parent[x]
    return False


# ------------------------------------------------------------------ C18

def prediction_ref(lexemes, opts):
    """Records straight from the property."""
    paras, entries, order = {}, [], []
    c = _compile()
    for lex in lexemes:
        stem, para = c._to_paradigm(list(lex), list(opts['paradigm_prefixes']))
        paras.setdefault(para, []).append((stem, lex))
    cnt, per = collections.Counter(), collections.defaultdict(collections.Counter)
    for para, lxs in paras.items():
        if len(lxs) < opts['min_paradigm_popularity']:
            continue
        for stem, lex in lxs:
            if not stem:
                continue
            for i, (s, t, p) in enumerate(para):
                w = p + stem + s
                pos = t.replace(' ', ',').split(',')[0]
                for n in range(max(1, len(s)), min(len(w), opts['max_suffix_length']) + 1):
                    cnt[w[-n:]] += 1
                    per[(p, w[-n:], pos)][(para, i)] += 1
    recs = set()
    for (p, e, pos), k in per.items():
        if cnt[e] < opts['min_ending_freq']:
            continue
        top = max(k.values())
        for (para, i), n in k.items():
            if n == top:
                recs.add((p, e, n, para, i))
    return recs


def rand_opts(rng):
    return dict(min_ending_freq=rng.choice([1, 2, 3, 4, 6, 9]), min_paradigm_popularity=rng.choice([1, 2, 3, 4, 5, 7]), max_suffix_length=rng.choice([1, 2, 3, 5, 7]))


def prediction_case(ctx, lexemes, opts):
    c = _compile()
    lexemes = norm(lexemes)
    o = {'paradigm_prefixes': list(PREFIXES)}
    o.update(opts)
    pd = parsed(lexemes)
    src = lex_ids_order(lexemes)
    d = c.compile_parsed_dict(pd, dict(o))
    full = dict(min_ending_freq=2, min_paradigm_popularity=3, max_suffix_length=5)
    full.update(o)
    want = prediction_ref(src, full)
    got = set()
    n = 0
    pre = o['paradigm_prefixes']
    expect_eq(len(d.prediction_suffixes_dawgs), len(pre), 'one table per paradigm prefix')
    for i, dw in enumerate(d.prediction_suffixes_dawgs):
        for e, (k, p, idx) in dw.iteritems():
            para = d.paradigms[p]
            m = len(para) // 3
            canon = tuple((d.suffixes[para[j]], d.gramtab[para[m + j]], pre[para[2 * m + j]]) for j in range(m))
            got.add((pre[i], e, k, canon, idx))
            n += 1
    if got != want:
        raise Fail('prediction records differ', missing=sorted(want - got)[:4], unexpected=sorted(got - want)[:4])
    check(n == len(got), 'repeated records')


@oracle('C18')
def prediction(ctx):
    if not _can_create():
        raise Skip('DAWG creation not available')
    rng = ctx.rng
    while ctx.go():
        lx = rand_dict(rng, rng.choice([3, 6, 12, 30, 60]))
        opts = {}
        if rng.random() < .7:
            opts = rand_opts(rng)
        if not ctx.case(prediction_case, lx, opts):
            return


def prediction_fn_case(ctx, lexemes, opts):
    """The same through the pure function (needs no DAWG builder)."""
    c = _compile()
    o = dict(min_ending_freq=2, min_paradigm_popularity=3, max_suffix_length=5)
    o.update(opts)
    pre = list(PREFIXES)
    src = lex_ids_order(norm(lexemes))
    ids, tags, words, pops, paras = {}, [], [], collections.defaultdict(int), []
    for lex in src:
        stem, para = c._to_paradigm(list(lex), pre)
        for s, t, p in para:
            if t not in tags:
                tags.append(t)
        if para not in ids:
            ids[para] = len(ids)
            paras.append(para)
        pops[ids[para]] += 1
        words += [(p + stem + s, (ids[para], i)) for i, (s, t, p) in enumerate(para)]
    suff = sorted(set(s for p in paras for s, _, _ in p))
    enc = [[suff.index(s) for s, t, p in x] + [tags.index(t) for s, t, p in x] + [pre.index(p) for s, t, p in x] for x in paras]
    res = c._suffixes_prediction_data(words=words, paradigm_popularity=pops, gramtab=tags, paradigms=enc, suffixes=suff, paradigm_prefixes=pre, **o)
    got = set((pre[i], e, k, paras[p], idx) for i, data in enumerate(res) for e, (k, p, idx) in data)
    want = prediction_ref(src, dict(o, paradigm_prefixes=pre))
    if got != want or sum(map(len, res)) != len(got):
        raise Fail('prediction records differ', missing=sorted(want - got)[:4], unexpected=sorted(got - want)[:4])


@oracle('C18')
def prediction_fn(ctx):
    c = _compile()
    if not hasattr(c, '_suffixes_prediction_data') or not hasattr(c, '_to_paradigm'):
        raise Skip('_suffixes_prediction_data moved')
    rng = ctx.rng
    while ctx.go():
        lx = rand_dict(rng, rng.choice([3, 6, 12, 30, 60]))
        opts = rand_opts(rng) if rng.random() < .7 else {}
        if not ctx.case(prediction_fn_case, lx, opts):
            return


# ------------------------------------------------------------------ C15

GRAMMEMES = [['POST', None, 'ЧР', 'часть речи'], ['NOUN', 'POST', 'СУЩ', 'имя существительное'], ['ADJF', 'POST', 'ПРИЛ', None], ['VERB', 'POST', 'ГЛ', ''],
             ['INFN', 'POST', 'ИНФ', 'x'], ['PREP', 'POST', 'ПР', 'x'], ['COMP', 'POST', 'КОМП', 'x'], ['NUMR', 'POST', 'ЧИСЛ', 'x'], ['NPRO', 'POST', 'МС', 'x'],
             ['PRTF', 'POST', 'ПРИЧ', 'x'], ['ANim', None, 'Од-неод', 'x'], ['anim', 'ANim', 'од', 'x'], ['inan', 'ANim', 'неод', 'x'], ['GNdr', None, 'рн', 'x'], ['masc', 'GNdr', 'мр', 'x'],
             ['NMbr', None, 'Число', 'x'], ['sing', 'NMbr', 'ед', 'x'], ['plur', 'NMbr', 'мн', 'x'], ['CAse', None, 'Падеж', 'x'], ['nomn', 'CAse', 'им', 'x'], ['gent', 'CAse', 'рд', 'x'],
             ['Qual', None, 'кач', 'x'], ['perf', None, 'сов', 'x'], ['past', None, 'прош', 'x'], ['V-ej', None, '*ею', 'x'], ['3per', None, '3л', 'x'], ['Sgtm', None, 'sg', 'x'], ['A', None, 'А', 'x']]


def _scratch():
    return tempfile.mkdtemp(prefix='verif-')


def save_case(ctx, lexemes, source, lang, version, overwrite):
    c = _compile()
    from pymorphy2.opencorpora_dict import storage
    from pymorphy2 import tagset
    o = {'paradigm_prefixes': list(PREFIXES), 'min_paradigm_popularity': 1, 'min_ending_freq': 1}
    pd = parsed(norm(lexemes), grammemes=GRAMMEMES, version=version, revision='77')
    d = c.compile_parsed_dict(pd, dict(o))
    path = _scratch()
    try:
        if overwrite:      # stale files of an earlier, bigger dictionary
            for fn in ('words.dawg', 'suffixes.json', 'paradigms.array', 'gramtab-opencorpora-int.json', 'meta.json', 'grammemes.json', 'prediction-suffixes-0.dawg'):
                with open(os.path.join(path, fn), 'wb') as f:
                    f.write(b'[]' * 5000)
        storage.save_compiled_dict(d, path, source_name=source, language_code=lang)
        for fmt in ('opencorpora-int',):      # the other format is documented as incomplete
            l = storage.load_dict(path, gramtab_format=fmt)
            T = tagset.registry[fmt]
            expect_eq(len(l.gramtab), len(d.gramtab), 'tag table length')
            for a, b in zip(l.gramtab, d.gramtab):
                expect_eq(str(a), b, 'tag table entry')
            expect_eq(list(l.suffixes), list(d.suffixes), 'suffixes')
            expect_eq([list(p) for p in l.paradigms], [list(p) for p in d.paradigms], 'paradigms')
            expect_eq(list(l.paradigm_prefixes), PREFIXES, 'paradigm prefixes')
            expect_eq(list(l.words.iteritems()), list(d.words_dawg.iteritems()), 'words')
            expect_eq(len(l.prediction_suffixes_dawgs), len(d.prediction_suffixes_dawgs), 'number of prediction tables')
            for a, b in zip(l.prediction_suffixes_dawgs, d.prediction_suffixes_dawgs):
                expect_eq(list(a.iteritems()), list(b.iteritems()), 'prediction data')
            m = l.meta
            expect_eq((m['language_code'], m['source'], m['source_version'], m['source_revision']), (lang, source, version, '77'), 'metadata')
            expect_eq(dict(m['compile_options'])['paradigm_prefixes'], PREFIXES, 'compile options')
            expect_eq(m['source_lexemes_count'], len(lexemes), 'lexeme count')
            check(l.Tag is T, 'tag class')
            for g in GRAMMEMES:
                check(g[0] in l.Tag.KNOWN_GRAMMEMES or g[2] in l.Tag.KNOWN_GRAMMEMES, 'grammeme lost', g=g)
        g = json.loads(open(os.path.join(path, 'grammemes.json'), encoding='utf8').read())
        expect_eq([list(x) for x in g], GRAMMEMES, 'grammemes')
    finally:
        shutil.rmtree(path, ignore_errors=True)


@oracle('C15')
def save_load(ctx):
    if not _can_create():
        raise Skip('DAWG creation not available')
    rng = ctx.rng
    many = lambda n: [(rand_form(rng) + ALPHA[i % 5] + ALPHA[i // 5 % 5] + ALPHA[i // 25 % 5], rng.choice(TAGS)) for i in range(n)]
    for n in (100, 300):
        if not ctx.case(save_case, [['3', rand_lexeme(rng)], ['5', many(n)], ['9', rand_lexeme(rng)]], 'x', 'ru', '1', False):
            return
    while ctx.go():
        if not ctx.case(save_case, rand_dict(rng), rng.choice(['opencorpora.org', 'словарь', 'x']), rng.choice(['ru', 'uk', 'ru-old']), rng.choice(['0.92', '1', '2.10']),
                        rng.random() < .3):
            return


def version_case(ctx, value, raw=False):
    from pymorphy2.opencorpora_dict import storage
    import pymorphy2
    src = ctx.cached('dictpath', lambda: pymorphy2.MorphAnalyzer.choose_dictionary_path(None, 'ru'))
    path = _scratch()
    try:
        for fn in os.listdir(src):
            if fn != 'meta.json':
                os.symlink(os.path.join(src, fn), os.path.join(path, fn))
        meta = json.loads(open(os.path.join(src, 'meta.json'), encoding='utf8').read())
        meta = [list(x) for x in (meta.items() if isinstance(meta, dict) else meta)]
        if value is None:
            meta = [x for x in meta if x[0] != 'format_version']
        else:
            for x in meta:
                if x[0] == 'format_version':
                    x[1] = json.loads(value) if raw else value
        text = json.dumps(meta)
        if raw and value is not None:
            text = json.dumps([x for x in meta if x[0] != 'format_version'])[:-1] + ', ["format_version", %s]]' % value
        with open(os.path.join(path, 'meta.json'), 'w', encoding='utf8') as f:
            f.write(text)
        v = '' if value is None else value.strip('"')
        parts = v.split('.')
        major_ok = parts[0] == '2'
        valid = len(parts) == 2
        try:
            storage._assert_format_is_compatible(storage.load_meta(os.path.join(path, 'meta.json')), path) if ctx.rng.random() < .9 and hasattr(
                storage, '_assert_format_is_compatible') else storage.load_dict(path)
            got = 'loaded'
        except ValueError:
            got = 'ValueError'
        if valid and major_ok and parts[1].isdigit():
            expect_eq(got, 'loaded', 'a folder of format %s' % v)
        elif not valid or not major_ok:
            expect_eq(got, 'ValueError', 'a folder of format %s' % v)
    finally:
        shutil.rmtree(path, ignore_errors=True)


def load_version_case(ctx, value):
    """The whole loader, not just its version check."""
    from pymorphy2.opencorpora_dict import storage
    import pymorphy2
    src = ctx.cached('dictpath', lambda: pymorphy2.MorphAnalyzer.choose_dictionary_path(None, 'ru'))
    path = _scratch()
    try:
        for fn in os.listdir(src):
            if fn != 'meta.json':
                os.symlink(os.path.join(src, fn), os.path.join(path, fn))
        meta = json.loads(open(os.path.join(src, 'meta.json'), encoding='utf8').read())
        meta = dict(meta.items() if isinstance(meta, dict) else meta)
        if value is None:
            meta.pop('format_version')
        else:
            meta['format_version'] = value
        with open(os.path.join(path, 'meta.json'), 'w', encoding='utf8') as f:
            f.write(json.dumps(list(meta.items())))
        try:
            storage.load_dict(path)
            got = 'loaded'
        except ValueError:
            got = 'ValueError'
        good = value is not None and value.startswith('2.') and value[2:].isdigit()
        expect_eq(got, 'loaded' if good else 'ValueError', 'load_dict of a folder of format %s' % value)
    finally:
        shutil.rmtree(path, ignore_errors=True)


@oracle('C15')
def versions(ctx):
    for v in ('3.0', '1.4', '2', None, '2.5', '24.0', '2.10', '0.2', '12.4'):
        if not ctx.case(load_version_case, v):
            return
    rng = ctx.rng
    for v in ['2.4', '2.0', '2.5', '2.3', '2.10', '2.99', '2.1', '2.6']:
        if not ctx.case(version_case, v) or not ctx.case(version_case, v, True):
            return
    for v in [None, '', '2', '24', '1.4', '3.0', '3.4', '0.2', '12.4', '22.4', '20.1', '2.4.1', '1.2.3', 'x.4', '-2.4', '.', '4.2', '2', '02.4'][:-1]:
        if not ctx.case(version_case, v):
            return
    for v in ['3.4', '1.0', '2', '24', 'null', '0.9', '20.4']:
        if not ctx.case(version_case, v, True):
            return
    while ctx.go():
        v = '%s.%s' % (rng.choice([2, 2, 2, 1, 3, rng.randrange(40)]), rng.randrange(0, 300))
        if not ctx.case(version_case, v) or not ctx.case(version_case, v, True):
            return


# ------------------------------------------------------------------ C16

REDUNDANT = {'loc1': 'loct', 'gen1': 'gent', 'acc1': 'accs'}
GR = ['NOUN', 'anim', 'masc', 'sing', 'gen1', 'gen2', 'loc1', 'acc1', 'loct', 'gent', 'accs', 'Qual', 'nomn', 'V-ej', 'Init', 'Name']


def red(tag):
    for a, b in REDUNDANT.items():
        tag = tag.replace(a, b)
    return tag


def gset(tag):
    return frozenset(tag.replace(' ', ',', 1).split(','))


def simplify_case(ctx, lexemes, skip_space):
    from pymorphy2.opencorpora_dict import preprocess
    lexemes = norm(lexemes)
    pd = parsed(lexemes)
    preprocess.simplify_tags(pd, skip_space) if skip_space is not None else preprocess.simplify_tags(pd)
    skip = True if skip_space is None else skip_space
    expect_eq(list(pd.lexemes), [k for k, v in lexemes], 'lexeme ids')
    cnt = collections.defaultdict(collections.Counter)
    for _, v in lexemes:
        for f, t in v:
            cnt[gset(red(t))][red(t)] += 1
    for k, v in lexemes:
        new = pd.lexemes[k]
        expect_eq([f for f, t in new], [f for f, t in v], 'word forms', id=k)
        for (f, t), (_, t0) in zip(new, v):
            expect_eq(gset(t), gset(red(t0)), 'grammemes of %s' % t0)
            check(not any(x in gset(t) for x in REDUNDANT), 'a redundant case remains', tag=t)
            sp = cnt[gset(red(t0))]
            pos = [s.find(' ') for s in sp]
            amb = len(sp) > 1 and not (skip and len(pos) == len(set(pos)))
            if amb:
                top = max(sp.values())
                check(sp[t] == top, 'not the most frequent spelling', tag=t, original=t0, counts=dict(sp))
            else:
                expect_eq(t, red(t0), 'an unambiguous spelling was changed', counts=dict(sp))
    if skip is not None:
        by = collections.defaultdict(set)
        for k in pd.lexemes:
            for f, t in pd.lexemes[k]:
                by[gset(t)].add(t)
        for g, ts in by.items():
            sp = cnt[g]
            pos = [s.find(' ') for s in sp]
            if len(sp) > 1 and not (skip and len(pos) == len(set(pos))):
                check(len(ts) == 1, 'spellings of one tag not merged', tags=sorted(ts))


def drop_case(ctx, lexemes):
    from pymorphy2.opencorpora_dict import preprocess
    lexemes = norm(lexemes)
    pd = parsed(lexemes)
    preprocess.drop_unsupported_parses(pd)
    expect_eq([[k, list(v)] for k, v in pd.lexemes.items()], [[k, [(f, t) for f, t in v if 'Init' not in gset(t)]] for k, v in lexemes], 'forms left')


def rand_tag(rng):
    n = rng.randint(1, 4) if rng.random() < .8 else rng.randint(5, 12)
    gs = [rng.choice(GR[:6])] + rng.sample(GR, n)
    gs = list(dict.fromkeys(gs))
    if rng.random() < .5:
        rng.shuffle(gs)
    k = rng.randint(0, len(gs) - 1)
    return ','.join(gs[:k]) + (' ' if k else '') + ','.join(gs[k:])


@oracle('C16')
def simplify(ctx):
    rng = ctx.rng
    while ctx.go():
        base = [rand_tag(rng) for _ in range(rng.randint(1, 4))]
        pool = []
        for t in base:
            pool.append(t)
            for _ in range(rng.randint(0, 3)):
                if rng.random() < .2:       # another tag: one grammeme differs, anywhere
                    gs = t.replace(' ', ',').split(',')
                    gs[rng.randrange(len(gs))] = 'x%d' % rng.randrange(9)
                    k = t.split(' ')[0].count(',') + 1 if ' ' in t else 0
                    pool.append(','.join(gs[:k]) + (' ' if k else '') + ','.join(gs[k:]))
                    continue
                gs = t.replace(' ', ',').split(',')
                if rng.random() < .7:
                    rng.shuffle(gs)
                gs = [rng.choice([g, {v: k for k, v in REDUNDANT.items()}.get(g, g)]) for g in gs]
                k = rng.randint(0, len(gs) - 1) if rng.random() < .5 else t.replace(' ', ',').count(',')
                pool.append(','.join(gs[:k]) + (' ' if k else '') + ','.join(gs[k:]))
        lx = [[str(i), [(rand_form(rng), rng.choice(pool)) for _ in range(rng.randint(0, 5))]] for i in rng.sample(range(100), rng.randint(1, 6))]
        if rng.random() < .05:       # many forms of some spellings
            lx.append(['500', [(rand_form(rng), t) for t in rng.sample(pool, min(len(pool), 2)) for _ in range(rng.choice([3, 200, 255, 256, 257, 300]))]])
        if not ctx.case(simplify_case, lx, rng.choice([None, True, False])) or not ctx.case(drop_case, lx):
            return


# ------------------------------------------------------------------ C28

def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


def xml_case(ctx, gram, lemmas, links, pretty):
    from pymorphy2.opencorpora_dict import parse
    nl = '\n   ' if pretty else ''
    out = ['<?xml version="1.0" encoding="utf-8" standalone="yes"?>' + nl + '<dictionary version="0.92" revision="389440">', '<grammemes>']
    for name, parent, alias, descr in gram:
        out.append('<grammeme parent="%s"><name>%s</name><alias>%s</alias><description>%s</description></grammeme>' % (esc(parent), esc(name), esc(alias), esc(descr)))
    out.append('</grammemes>')
    if pretty:
        out.append('<restrictions><restr type="maybe" auto="0"><left type="lemma">NOUN</left><right type="lemma">anim</right></restr></restrictions>')
    out.append('<lemmata>')
    for i, (id_, base, forms) in enumerate(lemmas):
        if base is None:
            out.append('<lemma id="%s" rev="%d"/>' % (id_, i))
            continue
        s = '<lemma id="%s" rev="%d"><l t="%s">%s</l>' % (id_, i, esc(forms[0][0] if forms else 'x'), ''.join('<g v="%s"/>' % esc(g) for g in base))
        for w, gs in forms:
            s += nl + '<f t="%s">%s</f>' % (esc(w), ''.join('<g v="%s"/>' % esc(g) for g in gs))
        out.append(s + '</lemma>')
    out.append('</lemmata><link_types><type id="1">ADJF-ADJS</type></link_types><links>')
    for i, (a, b, t) in enumerate(links):
        out.append('<link id="%d" from="%s" to="%s" type="%s"/>' % (i, a, b, t))
    out.append('</links></dictionary>')
    path = _scratch()
    try:
        fn = os.path.join(path, 'dict.xml')
        with open(fn, 'wb') as f:
            f.write(nl.join(out).encode('utf8'))
        got = parse.parse_opencorpora_xml(fn)
    finally:
        shutil.rmtree(path, ignore_errors=True)
    want = {}
    for id_, base, forms in lemmas:
        if base is None:
            want[id_] = []
            continue
        f = [(w.lower(), (','.join(base) + ' ' + ','.join(gs)).strip()) for w, gs in forms]
        want[id_] = [] if any(not base and not gs for w, gs in forms) else f
    expect_eq({k: [tuple(x) for x in v] for k, v in got.lexemes.items()}, want, 'lexemes')
    expect_eq([tuple(l) for l in got.links], [tuple(l) for l in links], 'links')
    expect_eq([tuple(g) for g in got.grammemes], [(n, p, a, d) for n, p, a, d in gram], 'grammemes')
    expect_eq((got.version, got.revision), ('0.92', '389440'), 'version and revision')


@oracle('C28')
def xml_import(ctx):
    rng = ctx.rng
    GS = ['NOUN', 'anim', 'masc', 'sing', 'nomn', 'gent', 'V-ej', 'Qual', 'plur']
    wd = lambda: ''.join(rng.choice('абвЁёГд-\'&"' if rng.random() < .1 else 'абвЁёГдЖ') for _ in range(rng.randint(1, 6))) + ('' if rng.random() < .97 else rng.choice([' ', ' х', '.', '\xa0', 'ß', 'ΑΣ', 'ǅ', 'ﬁ', 'e\u0301', 'İ']))
    twice = lambda gs: gs + [gs[0]] if gs and rng.random() < .05 else gs
    while ctx.go():
        gram = [(rng.choice(GS) + str(i), rng.choice(['', 'POST', 'NOUN']), rng.choice(['СУЩ', 'им', 'a b']), rng.choice(['имя', 'x & y', 'd'])) for i in range(rng.randint(1, 4))]
        lemmas = []
        for i in rng.sample(range(1, 2000), rng.choice([1, 2, 5, 40])):
            k = rng.random()
            if k < .1:
                lemmas.append([str(i), None, []])
            else:
                base = twice(rng.sample(GS, rng.randint(0, 3))) if rng.random() > .1 else []
                forms = [(wd(), twice(rng.sample(GS, rng.randint(0 if rng.random() < .3 else 1, 3)))) for _ in range(rng.randint(0 if rng.random() < .1 else 1, 5))]
                lemmas.append([str(i), base, forms])
        if rng.random() < .05:
            lemmas.append(['9001', ['NOUN', 'anim'], [(wd(), rng.sample(GS, rng.randint(1, 3))) for _ in range(rng.choice([90, 257, 600]))]])
        links = [(str(rng.randrange(50)), str(rng.randrange(50)), str(rng.randrange(1, 28))) for _ in range(rng.choice([0, 1, 5]))]
        if links and rng.random() < .4:
            links += [rng.choice(links) for _ in range(3)]
        if gram and rng.random() < .2:
            gram.append(rng.choice(gram))
        if not ctx.case(xml_case, gram, lemmas, links, rng.random() < .5):
            return
