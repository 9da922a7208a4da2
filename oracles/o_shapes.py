# -*- coding: utf-8 -*-
from __future__ import unicode_literals
import re
import unicodedata
from .lib import oracle, check, expect_eq, Fail, Skip
from . import words as W

ROMAN = None


def romans():
    global ROMAN
    if ROMAN is None:
        ROMAN = set()
        vals = [(1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')]
        for n in range(1, 5000):
            s, k = '', n
            for v, t in vals:
                while k >= v:
                    s += t
                    k -= v
            ROMAN.add(s)
    return ROMAN


def chars(ctx, n):
    r = ctx.rng
    pools = ['abcXYZ', 'абвЁё', '0123456789', '.,!?:;()«»—–-_+', ' \t\n\xa0\u2003', 'éßñÆœªº', 'ＡＢｃ', '日本語', '٠١٢', 'IVXLCDMivx', 'ǅŉ\u0301\u200b\u200d\u2028\x85\x1c', '$€№%^`~|<>=',
             '¿¡§¶', 'Ⅷⅻ½²', 'ʼ’‘', 'ªʰᵃ', '\U0001d400\U0001f642\u4db6\U00017000', 'Ἀά']
    out = ''
    two = [r.choice(pools) for _ in range(r.randint(1, 3))]
    for _ in range(n):
        out += r.choice(r.choice(two)) if r.random() < .93 else chr(r.choice([r.randrange(1, 0x500), r.randrange(0x2000, 0x2100), r.randrange(0xe000, 0x10ffff)]))
    return out


def is_latin_letter(c):
    return 'LATIN' in unicodedata.name(c, '')


def latin_case(ctx, s):
    from pymorphy2 import shapes
    al = [c for c in s if c.isalpha()]
    expect_eq(bool(shapes.is_latin(s)), bool(al) and all(is_latin_letter(c) for c in al), 'is_latin(%r)' % s)
    expect_eq(bool(shapes.is_latin(s)), bool(al) and all(is_latin_letter(c) for c in al), 'is_latin(%r), repeated' % s)


def punct_case(ctx, s):
    from pymorphy2 import shapes
    p = [unicodedata.category(c).startswith('P') for c in s]
    want = any(p) and all(a or c.isspace() for a, c in zip(p, s))
    expect_eq(bool(shapes.is_punctuation(s)), want, 'is_punctuation(%r)' % s)


def roman_case(ctx, s):
    from pymorphy2 import shapes
    if any(c in s for c in '\u0130\u0131'):
        return
    expect_eq(bool(shapes.is_roman_number(s)), s.upper() in romans() and len(s.upper()) == len(s) and all(c in 'IVXLCDMivxlcdm' for c in s), 'is_roman_number(%r)' % s)


def number_case(ctx, s):
    from pymorphy2 import shapes
    m = ctx.morph
    try:
        int(s)
        want = 'NUMB,intg'
    except ValueError:
        try:
            float(s.replace(',', '.'))
            want = 'NUMB,real'
        except ValueError:
            want = None
    if m.word_is_known(s):
        return
    got = [str(p.tag) for p in m.parse(s)]
    if want:
        expect_eq(got, [want], 'parse of the number %r' % s)
        expect_eq([str(t) for t in m.tag(s)], [want], 'tag of the number %r' % s)
    else:
        check(not any(t.startswith('NUMB') for t in got), '%r analysed as a number' % s, got=got)
        al = [c for c in s if c.isalpha()]
        p = [unicodedata.category(c).startswith('P') for c in s]
        punct = any(p) and all(a or c.isspace() for a, c in zip(p, s))
        if any(c in s for c in '\u0130\u0131'):
            return
        roman = s.upper() in romans() and all(c in 'IVXLCDMivxlcdm' for c in s)
        latin = bool(al) and all(is_latin_letter(c) for c in al)
        shape = sorted(['PNCT'] if punct else (['ROMN'] if roman else []) + (['LATN'] if latin else []))
        if shape:
            expect_eq(sorted(got), shape, 'shape of %r' % s)
            expect_eq(sorted(str(t) for t in m.tag(s)), shape, 'shape tags of %r' % s)
        else:
            check(not set(got) & {'PNCT', 'ROMN', 'LATN'}, '%r is analysed by shape' % s, got=got)


FIX = ['', ' ', '\n', 'X', 'X\n', 'X ', ' X', 'iv', 'IIII', 'MMMM', 'MMMMM', 'MMMMCMXCIX', 'IC', 'VX', 'XIIIII', 'Xii', 'foo', '123-FOO', '123', ':)', ', ', '..!', 'x', 'a.b', 'é', 'ªº', '1', '-1', '+1', '1_0', '1 0',
       '1,5', '1.5', '1,', ',1', ',', '.', '1e5', '1E-3', 'nan', 'NaN', 'inf', '-inf', 'infinity', '0x10', '1,000.5', '1.5.2', '١٢', '１２', '½', '²', '1\n', ' 12 ', '1,2,3', '\u4db6', 'a\u4db6', '\U00017000', '_', '__', 'a_b', '$', '+', 'Ⅻ',
       '10', '00', '-0', '1.', '.5', 'е5', '5е', '1/2', '1-2', '--', '—', '« »', '!\n', '1' * 30]


def related(c):
    """Characters that some mapping relates to this one."""
    out = [c] + [f(c) for f in (str.lower, str.upper, str.title, str.casefold, str.swapcase)] + [unicodedata.normalize(k, c) for k in ('NFC', 'NFD', 'NFKC', 'NFKD')]
    return [x for x in dict.fromkeys(''.join(out))]


def history_case(ctx, cs):
    """Related characters, one after the other: what was classified before must not matter."""
    from pymorphy2 import shapes
    for c in list(cs) + list(cs)[::-1]:
        expect_eq(bool(shapes.is_latin(c)), c.isalpha() and is_latin_letter(c), 'is_latin(%r) after related characters' % c, order=cs)
        expect_eq(bool(shapes.is_punctuation(c)), unicodedata.category(c).startswith('P'), 'is_punctuation(%r)' % c, order=cs)


SPECIAL = ['\u212a', '\u212b', '\u0130', '\u0131', '\u017f', '\u1e9e', '\u2126', '\u00b5', '\ufb01', '\uff21', '\u24b6', '\u1d2c', '\u2160', '\u2c62']


@oracle('C22')
def shapes_history(ctx):
    """In an analyzer-independent, fresh order: the related characters first, before the bulk of the cases fills any cache."""
    for c in SPECIAL:
        if not ctx.case(history_case, ''.join(related(c))):
            return
    t = ctx.sub_deadline
    ctx.sub_deadline = min(t, __import__('time').time() + 2)
    while ctx.go():
        c = chr(ctx.rng.choice([ctx.rng.randrange(0x80, 0x600), ctx.rng.randrange(0x1d00, 0x2c80), ctx.rng.randrange(0xa640, 0xabff), ctx.rng.randrange(0xf900, 0xffef), ctx.rng.randrange(0x10000, 0x1f200)]))
        if not ctx.case(history_case, ''.join(related(c))):
            break
    ctx.sub_deadline = t


@oracle('C22')
def shapes_(ctx):
    r = ctx.rng
    for n in (25, 41, 64, 300, 2000):
        for s in ('1' * n, '0' * n + '.5', '1,' + '3' * n, '-' + '9' * n, '1e' + '0' * n, '9' * n + 'x', 'x' * n, '.' * n, 'IV' * n, 'а' * n + 'b', '1.' + '2' * n + '.3'):
            for f in (latin_case, punct_case, roman_case):
                ctx.case(f, s)
            if n <= 300:
                ctx.case(number_case, s)
    for s in FIX + ctx.hints.get('strs', []) + ctx.strs:
        for f in (latin_case, punct_case, roman_case):
            ctx.case(f, s)
        if W.clean(s):
            ctx.case(number_case, s)
    allr = sorted(romans())
    for s in allr:
        if not ctx.case(roman_case, s if r.random() < .7 else s.lower()):
            return
    while ctx.go():
        k = r.random()
        if k < .3:
            s = ''.join(r.choice('IVXLCDM') for _ in range(r.randint(1, 7)))
            if r.random() < .3:
                s = r.choice(allr) + r.choice(['\n', ' ', 'I', 'x', '.', ''])
        elif k < .5:
            s = r.choice(['%d', '-%d', '%d,%d', '%d.%d', '%de%d', '%d %d', '%d-%d', '%d,%d,%d', '+%d', '%d.', ',%d', '%dх']) .replace('%d', '{}')
            s = s.format(*[r.randrange(2000) for _ in range(3)])
        else:
            s = chars(ctx, r.randint(1, 5))
        for f in (latin_case, punct_case, roman_case) + ((number_case,) if W.clean(s) else ()):
            if not ctx.case(f, s):
                return


# ------------------------------------------------------------------ C20
def token_case(ctx, s):
    from pymorphy2.tokenizers import simple_word_tokenize
    if any(c.isspace() != (not c.strip()) for c in s):
        raise Skip('the methods of this interpreter (PyPy: U+001C-U+001F, U+180E) disagree about what whitespace is')
    toks = list(simple_word_tokenize(s))
    expect_eq(''.join(toks), ''.join(c for c in s if not c.isspace()), 'text of the tokens of %r' % s)
    inword = lambda c: c in '_-' or re.match(r'\w', c, re.U) is not None
    want, cur = [], ''
    for c in s:
        if inword(c) and c != '+':
            cur += c
        else:
            if cur:
                want.append(cur)
            cur = ''
            if not c.isspace():
                want.append(c)
    if cur:
        want.append(cur)
    expect_eq(toks, want, 'tokens of %r' % s)


@oracle('C20')
def tokens(ctx):
    r = ctx.rng
    for s in FIX + ['а-б_в+г', 'привет, мир!', 'a\u2028b', 'a\x1cb', 'что-то - где-то', 'a+b', '++', '-', '_', 'e\u0301', 'т.е.', 'a\x00b']:
        ctx.case(token_case, s)
    for n in (300, 3000, 50000):
        for s in ('а, ' * n, 'а' * n, '+' * n, 'кот-' * n, ' ' * n + 'x', ('слово ' * 7 + '\n') * (n // 8)):
            if not ctx.case(token_case, s):
                return
    for i in range(0x3000):
        if not ctx.case(token_case, 'а%sб' % chr(i)):
            return
    while ctx.go():
        s = chars(ctx, r.randint(0, 12)) if r.random() < .7 else ' '.join(W.word(ctx) for _ in range(3)) + r.choice(['', '.', '!', '\n'])
        if not ctx.case(token_case, s):
            return


# ------------------------------------------------------------------ C21
def same_case(word, ex):
    return word.lower() if ex.islower() else word.upper() if ex.isupper() else word.title() if ex.istitle() else word.lower()


def cap_case(ctx, word, ex):
    from pymorphy2.shapes import restore_capitalization
    if '-' in ex:
        w, e = word.split('-'), ex.split('-')
        want = '-'.join(same_case(x, e[i]) if i < len(e) else x.lower() for i, x in enumerate(w))
    else:
        want = same_case(word, ex)
    got = restore_capitalization(word, ex)
    expect_eq(got, want, 'restore_capitalization(%r, %r)' % (word, ex))


@oracle('C21')
def capitals(ctx):
    r = ctx.rng
    exs = ['Hello', 'HELLO', 'hello', 'hELLO', 'A', 'a', '', '-', '1', 'Foo-BAR-baz', 'foo-bar', 'IEEE', 'anti-World', '--', 'Кот-Пёс', 'МакДональд', 'foo-', '-Foo', '123-IEEE', "O'Neil"]
    ws = ['bye', 'half-an-hour', 'usa', 'pre-world', '123-do', '123--do', 'foo-BAR-BAZ', '', '-', 'ß', 'ŉ', 'ёж-кот', 'foo']
    for w in ws:
        for e in exs:
            ctx.case(cap_case, w, e)
    while ctx.go():
        def mk():
            k = r.random()
            if k < .5:
                return '-'.join(W.recase(r, W.pseudo(r)) if r.random() < .9 else '' for _ in range(r.randint(1, 4)))
            return chars(ctx, r.randint(0, 6))
        if not ctx.case(cap_case, mk(), mk()):
            return


# ------------------------------------------------------------------ C23
def prefix_case(ctx, ps, w):
    from pymorphy2 import dawg
    from collections import Counter
    want = sorted(set(p for p in ps if w.startswith(p)))
    for cls in matchers():
        m = cls(list(ps))
        for _ in range(2):
            got = m.prefixes(w)
            expect_eq(sorted(got), want, '%s: prefixes of %r' % (cls.__name__, w), prefixes=ps)
            expect_eq(bool(m.is_prefixed(w)), bool(want), '%s: is_prefixed(%r)' % (cls.__name__, w), prefixes=ps)
            expect_eq(sorted(m.prefixes('x' + w)), sorted(set(p for p in ps if ('x' + w).startswith(p))), 'prefixes', prefixes=ps)


def matchers():
    from pymorphy2 import dawg
    out = [dawg.PrefixMatcher]
    if dawg.PythonPrefixMatcher not in out:
        out.append(dawg.PythonPrefixMatcher)
    return out


@oracle('C23')
def prefix_matching(ctx):
    from pymorphy2.lang.ru import config as c
    r = ctx.rng
    for w in ['', 'а', 'анти', 'анти-', 'антикот', 'небезкот', 'экс-кот', 'экскот']:
        ctx.case(prefix_case, list(c.KNOWN_PREFIXES), w)
    long_ = 'аб' * 40
    for ps in ([long_[:i] for i in range(1, 81)], [long_], [long_[:30], long_[:31] + 'я'], [long_[:i] for i in range(70, 20, -3)], ['-', '--', '-а', 'ё', ' ', '\xa0', 'Аб', 'аБ'],
               ['а%d' % i for i in range(300)]):
        for w in (long_, long_[:31], long_[:29], long_ + 'в', long_[:30] + 'я', '--а', 'ё', 'е', '\xa0б', 'Абв', 'абв', 'а299'):
            if not ctx.case(prefix_case, ps, w):
                return
    while ctx.go():
        al = r.choice(['аб', 'аб-', 'abё', 'я\u0301а'])
        mk = lambda lo, hi: ''.join(r.choice(al) for _ in range(r.randint(lo, hi)))
        ps = sorted(set(mk(1, 4) for _ in range(r.randint(0, 8)))) if r.random() < .8 else r.sample(c.KNOWN_PREFIXES, r.randint(1, 20))
        r.shuffle(ps)
        w = mk(0, 7) if r.random() < .8 else r.choice(ps or ['']) + mk(0, 3)
        if not ctx.case(prefix_case, ps, w):
            return
