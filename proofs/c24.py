# -*- coding: utf-8 -*-
"""Contracts of the command line's parse command."""
from .common import *

C = 'cli.'
U_line = z3.Function('line_of', StrS, StrS)


class Out(object):
    """The output file: what is written, in order."""
    def __init__(self):
        self.written = RList()

    def write(self, s):
        self.written.append(s)


def stream(v, name):
    """A file of any number of lines."""
    f = z3.Function(name, IntS, StrS)
    return v.regular_list(name, lambda i: SStr(f(i))), f


for _cache in ['0', 'unlim', '20000']:
    def _make(cache=_cache):
        @proof('C24', 'cli.parse, cache size ' + cache, [C + 'parse'],
               assumes=['functools.lru_cache / fastcache return what the function returned for an equal argument',
                        'memoized_with_single_argument by its contract (proved separately)'])
        def prove(v, cache=cache):
            m = mod('pymorphy2.cli')
            opts = dict((k, v.obj(k, object)) for k in ('morph', 'score', 'normal_form', 'tag', 'newlines', 'thresh'))
            made = []

            class Formatter(object):
                """By its contract: the line is a function of the token (given the options)."""
                def __init__(self, **k):
                    made.append(k)

                def parse(self, tok):
                    return SStr(U_line(zstr(tok)))
            saved = {}

            def swap(name, x):
                saved[name] = getattr(m, name)
                setattr(m, name, x)
            lines = v.obj('file', object)
            toks, f = stream(v, 'token')
            tokenize = S.choose([True, False], 'tokenize')
            asked = []
            swap('_TokenParserFormatter', Formatter)
            swap('_iter_tokens_tokenize', lambda fp: (asked.append((True, fp)), RIter(toks))[1])
            swap('_iter_tokens_notokenize', lambda fp: (asked.append((False, fp)), RIter(toks))[1])
            out = Out()
            fresh = []
            swap('memoized_with_single_argument', lambda cache: (fresh.append(not truth(cache)), lambda func: func)[1])
            swap('lru_cache', lambda *a, **k: a[0] if a and callable(a[0]) else (lambda func: func))
            try:
                v.call('parse', m.parse, in_file=lines, out_file=out, tokenize=tokenize, cache_size=cache, **opts)
            finally:
                for k, x in saved.items():
                    setattr(m, k, x)
            names = ['the formatter gets the options as they are', 'the tokens come from the input', 'only lines of tokens are written',
                     'every token has its line', 'lines come in the order of the tokens, one per token']
            v.declare(*names)
            v.check(names[0], len(made) == 1 and sorted(made[0]) == sorted(opts) and all(made[0][k] is opts[k] for k in opts))
            v.check(names[1], asked == [(tokenize, lines)])
            w = out.written
            v.check('a cache starts empty', all(fresh))
            claim = S.choose(['written', 'all', 'order'], 'claim')
            if claim == 'written':
                x = v.any(w)
                v.check(names[2], v.some(toks, lambda t: U_line(t.e) == zstr(x)))
            elif claim == 'all':
                t = v.any(toks)
                v.check(names[3], v.some(w, lambda x: zstr(x) == U_line(t.e)))
            else:
                v.subsequence(names[4], w)
    _make()


@proof('C24', 'cache.memoized_with_single_argument', ['cache.memoized_with_single_argument'])
def memoized(v):
    """With a cache that holds only right entries: the same answer as the function's, and the cache stays right."""
    m = mod('pymorphy2.cache')
    cache = InvDict(v, 'cache', lambda k: SStr(U_line(zstr(k))))
    made = v.call('memoized_with_single_argument', m.memoized_with_single_argument, cache)
    func = v.call('decorator', made, lambda tok: SStr(U_line(zstr(tok))))
    a, b = v.str('a'), v.str('b')
    v.check('the answer is the one of the function', zstr(v.call('wrapper', func, a)) == U_line(a.e))
    v.check('also the second time', zstr(v.call('wrapper', func, a)) == U_line(a.e))
    v.check('and for another argument', zstr(v.call('wrapper', func, b)) == U_line(b.e))


@proof('C24', 'cli._iter_tokens_notokenize', [C + '_iter_tokens_notokenize'])
def notokenize(v):
    m = mod('pymorphy2.cli')
    lines, f = stream(v, 'line')
    names = ['tokens are stripped lines that are not empty', 'every such line is a token', 'in the order of the lines']
    v.declare(*names)
    r = as_list(v.call('_iter_tokens_notokenize', m._iter_tokens_notokenize, lines))
    claim = S.choose(range(3), 'claim')
    if claim == 0:
        t = v.any(r)
        v.check(names[0], z3.And(z3.Length(zstr(t)) > 0, v.some(lines, lambda l: zstr(l.strip()) == zstr(t))))
    elif claim == 1:
        l = v.any(lines)
        s = zstr(l.strip())
        S.assume(z3.Length(s) > 0)
        v.check(names[1], v.some(r, lambda t: zstr(t) == s))
    else:
        v.subsequence(names[2], r)


@proof('C24', 'cli._iter_tokens_tokenize', [C + '_iter_tokens_tokenize'], assumes=['simple_word_tokenize by its contract (C19-C21)'])
def tokenize(v):
    m = mod('pymorphy2.cli')
    lines, f = stream(v, 'line')
    n, t = z3.Function('n_tokens', StrS, IntS), z3.Function('token_of', StrS, IntS, StrS)
    S.add_univ([z3.Const('l', StrS)], n(z3.Const('l', StrS)) >= 0)

    def split(line):
        l = zstr(line)
        i = S.fresh_binder('tk', IntS, 'tokens')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < n(l)))], SStr(t(l, i)))], (i, n(l)))])
    saved, m.simple_word_tokenize = m.simple_word_tokenize, split
    names = ['only tokens of the lines', 'every token of every line', 'in the order of the lines and their tokens']
    v.declare(*names)
    try:
        r = as_list(v.call('_iter_tokens_tokenize', m._iter_tokens_tokenize, lines))
    finally:
        m.simple_word_tokenize = saved
    claim = S.choose([0, 1, 2], 'claim')
    if claim == 0:
        x = v.any(r)
        k, j = z3.Ints('sk sj')
        S.set_kind(k, 'line')
        S.set_kind(j, 'tokens')
        S.add_univ([k, j], z3.Implies(zand(k >= 0, k < z3.Int('n_line'), j >= 0, j < n(f(k))), t(f(k), j) != zstr(x)))
        v.check(names[0], z3.BoolVal(False))
    elif claim == 2:
        v.subsequence(names[2], r)
    else:
        i, j = v.int('i'), v.int('j')
        l = f(i.e)
        S.assume(zand(i.e >= 0, i.e < z3.Int('n_line'), j.e >= 0, j.e < n(l)))
        v.cand(i, kind='line')
        v.cand(j, kind='tokens')
        v.check(names[1], v.some(r, lambda x: zstr(x) == t(l, j.e)))
# ---------------------------------------------------------------------- the line of a token

F3 = z3.Function('format_.3f', RealS, StrS)
U_an = z3.Function('analysis', StrS, IntS, Obj)
O_nf, O_score, O_tag = (z3.Function('an_normal_form', Obj, StrS), z3.Function('an_score', Obj, RealS), z3.Function('an_tag', Obj, Obj))
N_p = z3.Function('n_parses', StrS, IntS)


def A_nf(tok, i):
    return O_nf(U_an(tok, i))


def A_score(tok, i):
    return O_score(U_an(tok, i))


def A_tag(tok, i):
    return O_tag(U_an(tok, i))


class Analysis(SObj):
    """An analysis."""
    normal_form = property(lambda self: SStr(O_nf(self.e)))
    score = property(lambda self: SReal(O_score(self.e)))
    tag = property(lambda self: STag(O_tag(self.e)))


class Morph(object):
    """morph.parse: any list with scores of at least 0, the same for the same token; morph.tag: the tags of it, in its order (C05)."""
    def parse(self, tok):
        e = zstr(tok)
        w, k = z3.Const('w', StrS), z3.Int('k')
        S.add_univ([w], N_p(w) >= 0)
        S.set_kind(k, 'analyses')
        S.add_univ([w, k], A_score(w, k) >= 0)
        i = S.fresh_binder('an', IntS, 'analyses')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < N_p(e)))], Analysis(U_an(e, i)))], (i, N_p(e)))])

    def tag(self, tok):
        e = zstr(tok)
        self.parse(tok)
        i = S.fresh_binder('tg', IntS, 'analyses')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < N_p(e)))], STag(A_tag(e, i)))], (i, N_p(e)))])


for _opts in [(nf, tag, score) for nf in (True, False) for tag in (True, False) for score in (True, False) if tag]:
    def _make(nf=_opts[0], tag=_opts[1], score=_opts[2]):
        what = ', '.join(n for n, on in (('normal form', nf), ('tag', tag), ('score', score)) if on)

        @proof('C24', 'cli._TokenParserFormatter: ' + what, [C + '_TokenParserFormatter.__init__', C + '_TokenParserFormatter.parse'],
               assumes=['number formatting (%0.3f) is a function of the number', 'MorphAnalyzer.parse and .tag by their contracts (C01, C05)'])
        def prove(v):
            m = mod('pymorphy2.cli')
            thresh = v.real('thresh')
            newlines = S.choose([True, False], 'newlines')
            names = ['the token, then its analyses in braces', 'every item is an analysis that reaches the threshold', 'every such analysis is given',
                     'in the order of the analyses']
            v.declare(*names)
            f = v.call('__init__', m._TokenParserFormatter, morph=Morph(), score=score, normal_form=nf, tag=tag, newlines=newlines, thresh=thresh)
            tok = v.str('tok')
            r = v.call('parse', f.parse, tok)
            joined = S.memo.get('joins', [])
            if len(joined) != 1:
                raise Unsupported('the line is not made by joining one list')
            (j, sep, items), = joined
            end = '}\n' if newlines else '} '
            v.check(names[0], zand(sep.e == '|', zstr(r) == z3.Concat(tok.e, z3.StringVal('{'), j, z3.StringVal(end))))

            def text(i):
                parts = ([A_nf(tok.e, i), z3.StringVal(':')] if nf else []) + ([F3(A_score(tok.e, i)), z3.StringVal('=')] if score else [])
                parts.append(zstr(STag(A_tag(tok.e, i))._str_()))
                return z3.Concat(*parts) if len(parts) > 1 else parts[0]
            n, ok = N_p, (lambda i: A_score(tok.e, i) >= thresh.e)
            claim = S.choose(['each', 'all', 'order'], 'claim')
            if claim == 'each':
                x = v.any(items)
                k = z3.Int('sk')
                S.set_kind(k, 'analyses')
                S.add_univ([k], z3.Implies(zand(k >= 0, k < n(tok.e), ok(k)), text(k) != zstr(x)))
                v.check(names[1], z3.BoolVal(False))
            elif claim == 'all':
                k = v.int('k')
                v.cand(k, kind='analyses')
                S.assume(zand(k.e >= 0, k.e < n(tok.e), ok(k.e)))
                v.check(names[2], v.some(items, lambda x: zstr(x) == text(k.e)))
            else:
                v.subsequence(names[3], items)
    _make()
