# -*- coding: utf-8 -*-
"""Input generators shared by the oracles."""
from __future__ import unicode_literals

RU = 'абвгдежзийклмнопрстуфхцчшщъыьэюя'
INITIALS = 'АБВГДЕЁЖЗИЙКЛМНОПРСТУФХЦЧШЩЭЮЯ'
PARTICLES = ["-то", "-ка", "-таки", "-де", "-тко", "-тка", "-с", "-ста"]
KNOWN = ["авиа", "анти", "анти-", "арт-", "без", "вице-", "де", "до", "за", "квази-", "контр", "космо-", "лже", "мега", "не", "небез", "недо", "низко",
         "пере", "пост", "пра-", "псевдо", "ре", "сверх", "супер-", "экс-", "экстра", "эконом-", "обще", "много", "дву", "двух", "противо"]
SUFF = ['ому', 'ами', 'ский', 'ость', 'остью', 'ировать', 'ующий', 'нуть', 'ейший', 'ая', 'ого', 'ишь', 'лся', 'чик', 'ёнок', 'енок', 'изм', 'ев', 'ых']
FIXED = ['кот', 'ёж', 'еж', 'ежу', 'все', 'всё', 'стали', 'тяжелый', 'котенок', 'зеленый', 'наистарейший', 'поярче', 'псевдокошка', 'байткод',
         'смотри-ка', 'по-западному', 'по-зеленому', 'интернет-магазин', 'человек-гора', 'команд-участниц', 'воздушно-капельный', 'бутявка', 'бутявками',
         'хабрахабр', 'А', 'а', 'Ё', 'В', 'в', 'я', 'Я', 'О', 'Ы', 'I', 'V', 'X', 'i', '1', '12', '1,5', '1.5', '-1', '.', ',', '...', '-', '--', 'a', 'foo', 'Foo-Bar',
         '', ' ', 'все-таки', 'еще-то', 'кто-то', 'какой-то', 'дед-ёжик', 'елка-береза', 'женщина-ученая', 'полтора', 'мы', 'нам', 'он', 'на', 'и', 'ох', 'быть', 'есть',
         'псевдовсе', 'суперпупервсе', 'еееее', 'недоёлка', 'недоелка', 'пан-елка', 'экс-министр', 'экс-по', 'не-то', 'бес-то', 'пере-то', 'ст.', 'уж', 'уже', 'ужее',
         'наизеленейший', 'наибутявнейший', 'побутявнее', 'позеленее', 'по-бутявному', 'по-твоему', 'по-своему', 'по-а', 'по-ад', 'кошка-то-то', 'кошка-ка-то',
         'лингвистика-то', 'царь-пушка', 'пол-литра', 'диван-кровать', 'муж-то', 'чтоб-то', 'прощай-ка', 'приезжай-ка', 'ан', 'ант', 'анти', 'анти-', 'антикот', 'квази',
         'квази-квази', 'не-не', 'ре-ре-ре', 'а-а', 'в-в', 'а-б', 'Ж-то', 'III-й', 'xii', 'MMXX', 'IIII', 'IVX', '٣', '½', '²', '①', 'ǅ', 'ŉ', 'ß', 'İ', 'ı', 'ﬁ', 'Ω',
         'nan', 'inf', '1e5', '1_0', '0x1', '１２', 'Ⅻ', 'ДЖОН', 'МакДональд', 'е', 'ЕЁ', 'её', 'ее', 'Еще', 'ЕЩЁ', 'пёс-рыцарь', 'ёлка-ёж', 'елки-то', 'елкаматематика']
ODD = ['\u4db6', '\U00017000', '\u0301', 'е\u0308', 'и\u0306', '\xa0', '\u2003', '\u200b', '\u2019', '—', '–', '\u2011', '\ufeff', '\x00', '\n', '\t', 'X\n', '١٢', '𝟙', '𝐀', '🙂',
       'a\u0301', 'йо\u0301', '\u02bc', 'ʹ', 'ª', 'º', 'ĳ', '\u1e9e', '\ufb03', 'Ǆ', 'ᾳ', 'Σ', 'ς']


def dict_words(ctx, n=4000):
    """A seeded sample of the dictionary's own words."""
    def mk():
        out = []
        d = ctx.morph.dictionary.words
        pre = [a + b for a in RU for b in RU]
        ctx.rng.shuffle(pre)
        for p in pre[:120]:
            try:
                ks = d.keys(p)
            except Exception:
                ks = [w for w, _ in d.iteritems(p)] if hasattr(d, 'iteritems') else []
            if len(ks) > 60:
                ks = ctx.rng.sample(ks, 60)
            out.extend(ks)
        for p in ('ё', 'её', 'по', 'наи', 'не', 'кто-', 'по-', 'бес'):
            try:
                ks = d.keys(p)
            except Exception:
                ks = []
            if len(ks) > 40:
                ks = ctx.rng.sample(ks, 40)
            out.extend(ks)
        yo = [w for w in out if 'ё' in w]
        out += [w.replace('ё', 'е') for w in yo]
        return sorted(set(out))
    return ctx.cached('dict_words', mk)


def recase(rng, w):
    k = rng.random()
    return w if k < .7 else w.title() if k < .85 else w.upper() if k < .95 else ''.join(c.upper() if rng.random() < .4 else c for c in w)


def pseudo(rng):
    return ''.join(rng.choice(RU) for _ in range(rng.randint(1, 9)))


def word(ctx):
    rng = ctx.rng
    D = dict_words(ctx)
    d = lambda: rng.choice(D) if D else 'кот'
    k = rng.randrange(100)
    if k < 22:
        w = d()
    elif k < 26:
        w = rng.choice(FIXED)
    elif k < 36:
        w = rng.choice(KNOWN) + d()
    elif k < 46:
        w = pseudo(rng)[:rng.randint(1, 6)] + d()
    elif k < 56:
        x = d()
        w = pseudo(rng) + (x[-rng.randint(2, 6):] if rng.random() < .7 else rng.choice(SUFF))
    elif k < 64:
        w = (d() if rng.random() < .7 else pseudo(rng) + rng.choice(SUFF)) + rng.choice(PARTICLES)
        if rng.random() < .15:
            w += rng.choice(PARTICLES)
    elif k < 72:
        w = (d() if rng.random() < .6 else pseudo(rng)) + '-' + (d() if rng.random() < .8 else pseudo(rng) + rng.choice(SUFF))
    elif k < 76:
        x = similar_pair(ctx)
        w = x
    elif k < 79:
        w = 'по-' + (d() if rng.random() < .5 else rng.choice(['зелёному', 'зеленому', 'западному', 'собачьему', 'бутявному', 'всякому', 'моему', 'ему']))
    elif k < 82:
        w = rng.choice(['по', 'наи']) + (pseudo(rng) + rng.choice(['ее', 'ейший', 'ому', 'айший', 'ейшую']) if rng.random() < .6 else d())
    elif k < 84:
        w = rng.choice(KNOWN) + rng.choice(KNOWN) + d()
    elif k < 86:
        w = pseudo(rng)
    elif k < 88:
        w = rng.choice(INITIALS)
    elif k < 90:
        w = ''.join(rng.choice('IVXLCDM') for _ in range(rng.randint(1, 5)))
    elif k < 92:
        w = rng.choice(['%d', '%d,5', '%d.25', '-%d', '%d-%d', '%dx', '+%d', ' %d ']).replace('%d', str(rng.randrange(3000)))
    elif k < 94:
        w = ''.join(rng.choice('.,!?-—«»()… ') for _ in range(rng.randint(1, 4)))
    elif k < 96:
        w = ''.join(rng.choice('abcXYZéß12-.') for _ in range(rng.randint(1, 6)))
    elif k < 98:
        h = ctx.hints.get('strs') or ctx.strs
        w = rng.choice(h) if h else 'x'
        if rng.random() < .4:
            w = w + d() if rng.random() < .5 else d() + w
    else:
        w = d() if rng.random() < .5 else ''
        i = rng.randint(0, len(w))
        w = w[:i] + rng.choice(ODD) + w[i:]
    return recase(rng, w)


def similar_pair(ctx):
    """Two dictionary nouns in the same number and case joined by a hyphen."""
    rng = ctx.rng

    def mk():
        by = {}
        for w in dict_words(ctx):
            try:
                for p in ctx.morph.parse(w)[:2]:
                    t = p.tag
                    if t.POS in ('NOUN', 'ADJF') and len(w) < 12 and '-' not in w:
                        by.setdefault((t.POS, t.number, t.case), []).append(w)
            except Exception:
                pass
            if sum(map(len, by.values())) > 3000:
                break
        return [v for k, v in sorted(by.items(), key=repr) if len(v) > 3]
    g = ctx.cached('pairs', mk)
    if not g:
        return 'человек-гора'
    x = rng.choice(g)
    return rng.choice(x) + '-' + rng.choice(x)


def clean(w):
    """Inputs within the properties' scope: no lone surrogates, none of the storage separators."""
    return not any('\ud800' <= c <= '\udfff' or c in '\x00\x01' for c in w)


def words(ctx, n):
    out = [w for w in FIXED + ODD + [s for s in ctx.hints.get('strs', [])] + ctx.strs if clean(w)]
    while len(out) < n + len(FIXED):
        w = word(ctx)
        if clean(w):
            out.append(w)
    ctx.rng.shuffle(out)
    return out


def stream(ctx):
    """Fixed words and mined literals first, then random ones, until time is up."""
    first = [w for w in list(FIXED) + ODD + list(ctx.hints.get('strs', [])) + list(ctx.strs) if clean(w)]
    for w in first:
        if not ctx.go():
            return
        yield w
    while ctx.go():
        w = word(ctx)
        if clean(w):
            yield w
