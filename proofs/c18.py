# -*- coding: utf-8 -*-
"""Contracts of the prediction tables: what is counted, and what is kept of the counts."""
from .common import *

C = 'opencorpora_dict.compile.'
W_word, W_para, W_idx = z3.Function('entry_word', IntS, StrS), z3.Function('entry_paradigm', IntS, IntS), z3.Function('entry_form', IntS, IntS)
Q_forms, Q_at = z3.Function('n_forms_of', IntS, IntS), z3.Function('paradigm_number', IntS, IntS, IntS)
Q_suf, Q_prod = z3.Function('ending_text', IntS, StrS), z3.Function('popular', IntS, BoolS)
N_count = z3.Function('count_so_far', IntS, IntS)


class Silent(object):
    def __getattr__(self, n):
        return lambda *a, **k: None


class Popular(object):
    _symbolic = True

    def __contains__(self, k):
        return S.fork(Q_prod(zint(k)))
    _contains_ = __contains__


class Table(object):
    """A list indexed by numbers."""
    _symbolic = True

    def __init__(self, fn):
        self.fn = fn

    def __getitem__(self, i):
        return self.fn(zint(i))


class Counts(object):
    """Counters, possibly nested; every increase by one is recorded with its keys."""
    _symbolic = True

    def __init__(self, log, depth, path=()):
        self.log, self.depth, self.path = log, depth, path

    def __getitem__(self, k):
        if self.depth:
            return Counts(self.log, self.depth - 1, self.path + (k,))
        return Count(self.log, self.path + (k,))

    def __setitem__(self, k, x):
        if self.depth or not isinstance(x, Count) or not x.one or len(x.path) != len(self.path) + 1 or x.log is not self.log or \
                not S.entails(zb(eq(tuple(x.path), self.path + (k,)))):
            raise Unsupported('a count is changed by something else than one')
        self.log.append(self.path + (k,))


class Count(object):
    _symbolic = True

    def __init__(self, log, path, one=False):
        self.log, self.path, self.one = log, path, one

    def __add__(self, n):
        if self.one or not (isinstance(n, int) and n == 1):
            raise Unsupported('a count is changed by something else than one')
        return Count(self.log, self.path, True)
    __radd__ = __add__


T_pos, T_rest = z3.Function('part_of_speech', IntS, StrS), z3.Function('further_grammemes', IntS, StrS)


class TagText(object):
    """A tag as text: grammemes separated by commas and at most one space; its first grammeme is the part of speech."""
    _symbolic = True

    def __init__(self, n, space=True):
        self.n, self.space = n, space

    def replace(self, a, b, count=-1):
        if (a, b) != (' ', ',') or count not in (1, -1):
            raise Unsupported('replacement in a tag')
        return TagText(self.n, False)

    def split(self, sep=None, maxsplit=-1):
        if self.space or sep != ',':
            raise Unsupported('splitting a tag')
        return [SStr(T_pos(self.n)), SStr(T_rest(self.n))]

    def partition(self, sep):
        return tuple(self.split(sep)[:1]) + (sep, SStr(T_rest(self.n)))


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x.e if isinstance(x, SBool) else x


def one_each(v, name, lst, at):
    """No two records of one entry are of the same ending (the outer loop is over the entries)."""
    fams = [f for s in lst.segs for f in rt._arr_as_fseg(s).families]
    if any(len(f.binders) != 2 for f in fams):
        raise Unsupported('counts that are not made by two loops')
    i, a, b = z3.Int('i_once'), z3.Int('l_once'), z3.Int('l_once2')
    v.cand(i, kind='words')
    v.cand(a, b)
    fs = []
    for x in range(len(fams)):
        for y in range(x, len(fams)):
            (ea, va), (eb, vb) = fams[x].at([i, a]), fams[y].at([i, b])
            fs.append(z3.Not(zand(*(guards(ea) + guards(eb) + fact_formulas(ea, True) + fact_formulas(eb, True) +
                                    [a < b if x == y else z3.BoolVal(True), zstr(va[at]) == zstr(vb[at])]))))
    v.check(name, zand(*fs))


def counting(lang):
    @proof('C18', 'endings that are counted, with the prefixes of ' + lang, [C + '_suffixes_prediction_data'],
           assumes=['every entry is prefix, stem and ending of its form (C13)', '_popular_keys and _get_suffixes_dawg_data by their contracts'])
    def f(v, lang=lang):
        m = mod('pymorphy2.opencorpora_dict.compile')
        prefixes = list(mod('pymorphy2.lang.%s.config' % lang).PARADIGM_PREFIXES)
        maxlen = v.int('max_suffix_length')
        n = z3.Int('n_words')
        S.assume(n >= 0)
        popularity, popular, min_pop, min_freq = object(), Popular(), object(), object()
        npre = len(prefixes)

        def form(i):
            p, x = W_para(i), W_idx(i)
            k = Q_forms(p)
            return p, x, k, Q_suf(Q_at(p, x)), Q_at(p, 2 * k + x)

        def pre_text(e):
            r = str_val(prefixes[-1])
            for a in reversed(range(npre - 1)):
                r = z3.If(e == a, str_val(prefixes[a]), r)
            return r

        def facts(i):
            p, x, k, suf, pre = form(i)
            w = W_word(i)
            return [zand(k >= 1, x >= 0, x < k, pre >= 0, pre < npre), z3.SuffixOf(suf, w), z3.PrefixOf(pre_text(pre), w),
                    z3.Length(w) >= z3.Length(suf) + z3.Length(pre_text(pre)), z3.Length(w) >= 1]
        words = v.regular_list('words', lambda i: (SStr(W_word(i)), (SInt(W_para(i)), SInt(W_idx(i)))), n=n, facts=facts)
        class P(object):
            _symbolic = True
            def __init__(self, num):
                self.num = num
            def _len_(self):
                return SInt(3 * Q_forms(self.num))
            def __getitem__(self, i):
                return SInt(Q_at(self.num, zint(i)))
        total, by_form = RList(), RList()
        made, level = [], [0]

        def defaultdict(factory):
            level[0] += 1
            try:
                inner = factory()
            finally:
                level[0] -= 1
            depth = inner.depth + 1 if isinstance(inner, Counts) else 0 if isinstance(inner, int) and inner == 0 else None
            if depth not in (0, 1, 2):
                raise Unsupported('defaultdict')
            if level[0]:
                return Counts(None, depth)
            if not depth:
                return Counts(total, 0)
            made.append(Counts(by_form, depth, (len(made),)))
            return made[-1]
        tables = []

        class Coll(object):
            pass
        coll = Coll()
        coll.defaultdict = defaultdict
        coll.Counter = lambda: defaultdict(int)
        stubs = dict(logger=Silent(), with_progress=lambda it, *a, **k: it, collections=coll,
                     _popular_keys=lambda c, t: popular if c is popularity and t is min_pop else None,
                     _get_suffixes_dawg_data=lambda e, c, t: (tables.append((e, c, t)), tables[-1])[1])
        saved = dict((k, getattr(m, k)) for k in stubs)
        for k, x in stubs.items():
            setattr(m, k, x)
        names = ['every ending of every entry of a popular paradigm is counted', 'only those are counted', 'once each',
                 'and by prefix, ending, part of speech and form, in the same way: only those',
                 'and by prefix, ending, part of speech and form, in the same way: all', 'one table for each prefix, in order']
        v.declare(*names)
        try:
            r = v.call('_suffixes_prediction_data', m._suffixes_prediction_data, words=words, paradigm_popularity=popularity,
                       gramtab=Table(TagText), paradigms=Table(P), suffixes=Table(lambda i: SStr(Q_suf(i))),
                       min_ending_freq=min_freq, min_paradigm_popularity=min_pop, max_suffix_length=maxlen, paradigm_prefixes=prefixes)
        finally:
            for k, x in saved.items():
                setattr(m, k, x)
        v.check(names[5], [x[0].path for x in tables] == [(a,) for a in range(npre)] and [x[0].depth for x in tables] == [2] * npre and
                all(isinstance(x[1], Counts) and x[1].log is total and x[2] is min_freq for x in tables) and as_list(r).concrete() and
                [x for x in as_list(r).items()] == tables)

        def spec(i, l):
            p, x, k, suf, pre = form(i)
            w = W_word(i)
            g = zand(i >= 0, i < n, Q_prod(p), z3.Length(w) > z3.Length(suf) + z3.Length(pre_text(pre)),
                     l >= 1, l >= z3.Length(suf), l <= maxlen.e, l <= z3.Length(w))
            return g, z3.SubString(w, z3.Length(w) - l, l)

        def full(i, l, key):
            g, e = spec(i, l)
            p, x, k, suf, pre = form(i)
            return zand(g, key[0] == pre if isinstance(key[0], z3.ExprRef) else pre == key[0], zstr(key[1]) == e,
                        zstr(key[2]) == T_pos(Q_at(p, k + x)), zint(key[3][0]) == p, zint(key[3][1]) == x)
        claim = S.choose(range(4), 'claim')
        if claim < 2:
            one_each(v, names[2], total if claim == 0 else by_form, 0 if claim == 0 else 1)
        else:
            which = total if S.choose([True, False], 'table') else by_form

            def match(y, i, l):
                return zand(spec(i, l)[0], zstr(y[0]) == spec(i, l)[1]) if which is total else full(i, l, y)
            if claim == 2:
                y = v.any(which)
                i, l = z3.Int('qi'), z3.Int('ql')
                S.set_kind(i, 'words')
                S.add_univ([i, l], z3.Not(match(y, i, l)))
                v.check(names[1] if which is total else names[3], z3.BoolVal(False))
            else:
                i, l = v.int('i'), v.int('l')
                S.assume(spec(i.e, l.e)[0])
                for x in facts(i.e):
                    S.assume(x)
                v.cand(i, kind='words')
                suf = form(i.e)[3]
                v.cand(l, l.e - z3.If(z3.Length(suf) > 1, z3.Length(suf), 1))
                v.check(names[0] if which is total else names[4], v.some(which, lambda y: match(y, i.e, l.e)))
    f.__name__ = 'counting_' + lang


for _l in ('ru', 'uk'):
    counting(_l)


# ---------------------------------------------------------------------- what is kept of the counts

K_key, K_of = z3.Function("counted_paradigm", IntS, IntS), z3.Function("count_of", IntS, IntS)
K_cnt = lambda i: K_of(K_key(i))


class Counter(object):
    _symbolic = True

    def items(self):
        n = z3.Int('n_counted')
        S.assume(n >= 0)
        i = S.fresh_binder('ck', IntS, 'counted')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < n))], (SInt(K_key(i)), SInt(K_cnt(i))))], (i, n))], owned=False)

    def _as_list(self):
        n = z3.Int('n_counted')
        S.assume(n >= 0)
        i = S.fresh_binder('ck', IntS, 'counted')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < n)), Entry('fact', K_of(K_key(i)) == K_cnt(i))], SInt(K_key(i)))], (i, n))], owned=False)
    keys = _as_list

    def __getitem__(self, k):
        return SInt(K_of(zint(k)))




@proof('C18', '_popular_keys', [C + '_popular_keys'])
def popular_keys(v):
    m = mod('pymorphy2.opencorpora_dict.compile')
    t = v.int('threshold')
    r = v.call('_popular_keys', m._popular_keys, Counter(), t)
    names = ['every key counted often enough', 'no other']
    v.declare(*names)
    n = z3.Int('n_counted')
    lst = r.unordered() if isinstance(r, RSet) else as_list(r)
    if S.choose([True, False], 'claim'):
        i = v.int('i')
        S.assume(zand(i.e >= 0, i.e < n, K_cnt(i.e) >= t.e, K_of(K_key(i.e)) == K_cnt(i.e)))
        v.cand(i, kind='counted')
        v.check(names[0], v.some(lst, lambda y: zint(y) == K_key(i.e)))
    else:
        y = v.any(lst)
        i = z3.Int('qk')
        S.set_kind(i, 'counted')
        S.add_univ([i], z3.Implies(zand(i >= 0, i < n, K_of(K_key(i)) == K_cnt(i)), z3.Not(zand(zint(y) == K_key(i), K_cnt(i) >= t.e))))
        v.check(names[1], z3.BoolVal(False))


D_end, D_pos = z3.Function('ending', IntS, StrS), z3.Function('its_part_of_speech', StrS, IntS, StrS)
D_total, D_npos, D_nform = z3.Function('count_of_ending', StrS, IntS), z3.Function('n_parts_of_speech', StrS, IntS), z3.Function('n_forms_counted', StrS, StrS, IntS)
D_para, D_idx, D_cnt = [z3.Function('counted_form_' + x, StrS, StrS, IntS, IntS) for x in ('paradigm', 'index', 'count')]


def stretch(kind, n, value):
    if kind != 'forms':
        S.assume(n >= 0)
    i = S.fresh_binder(kind[:2], IntS, kind)
    return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < n))], value(i))], (i, n))], owned=False)


class Endings(object):
    """[ending][part of speech][form]: counts."""
    _symbolic = True

    def __init__(self, path=()):
        self.path = path

    def _subst(self, pairs):
        return Endings(tuple(z3.substitute(x, *pairs) for x in self.path))

    def _each(self):
        if not self.path:
            return 'endings', z3.Int('n_endings'), lambda i: SStr(D_end(i))
        if len(self.path) == 1:
            return 'parts', D_npos(self.path[0]), lambda i: SStr(D_pos(self.path[0], i))
        S.assume(D_nform(*self.path) >= 1)          # an entry is made by counting a form
        return 'forms', D_nform(*self.path), lambda i: (SInt(D_para(*self.path, i)), SInt(D_idx(*self.path, i)))

    def _as_list(self):
        return stretch(*self._each())
    keys = _as_list

    def items(self):
        kind, n, key = self._each()
        return stretch(kind, n, lambda i: (key(i), SInt(D_cnt(*self.path, i)) if len(self.path) == 2 else Endings(self.path + (zstr(key(i)),))))

    def values(self):
        kind, n, key = self._each()
        return stretch(kind, n, lambda i: SInt(D_cnt(*self.path, i)) if len(self.path) == 2 else Endings(self.path + (zstr(key(i)),)))

    def _len_(self):
        return SInt(self._each()[1])

    def __getitem__(self, k):
        if len(self.path) == 2:
            raise Unsupported('count of a form')
        return Endings(self.path + (zstr(k),))


@proof('C18', 'the most frequent forms of an ending are kept, with their count', [C + '_get_suffixes_dawg_data', 'utils.largest_elements'])
def kept(v):
    m = mod('pymorphy2.opencorpora_dict.compile')
    least = v.int('min_ending_freq')
    r = v.call('_get_suffixes_dawg_data', m._get_suffixes_dawg_data, Endings(), Table2(), least)
    names = ['the most frequent forms of each part of speech of each frequent ending are kept', 'only those are kept', 'no form of the part of speech was counted more often',
             'once each']
    v.declare(*names)
    ok = lambda i, j, k: zand(i >= 0, i < z3.Int('n_endings'), j >= 0, j < D_npos(D_end(i)), k >= 0, k < D_nform(D_end(i), D_pos(D_end(i), j)))
    at = lambda i, j: (D_end(i), D_pos(D_end(i), j))

    def is_it(y, i, j, k):
        e, p = at(i, j)
        return zand(zstr(y[0]) == e, zint(y[1][0]) == D_cnt(e, p, k), zint(y[1][1]) == D_para(e, p, k), zint(y[1][2]) == D_idx(e, p, k), D_total(e) >= least.e)
    claim = S.choose(range(3), 'claim')
    if claim == 0:
        i, j, k = v.int('i'), v.int('j'), v.int('k')
        S.assume(ok(i.e, j.e, k.e))
        e, p = at(i.e, j.e)
        S.assume(D_total(e) >= least.e)
        q = z3.Int('qf')
        S.set_kind(q, 'forms')
        S.add_univ([q], z3.Implies(zand(q >= 0, q < D_nform(e, p)), D_cnt(e, p, q) <= D_cnt(e, p, k.e)))
        v.cand(i, kind='endings')
        v.cand(j, kind='parts')
        v.cand(k, kind='forms')
        v.check(names[0], v.some(r, lambda y: is_it(y, i.e, j.e, k.e)))
    elif claim == 1:
        y = v.any(r)
        i, j, k = z3.Int('qi'), z3.Int('qj'), z3.Int('qk')
        S.set_kind(i, 'endings')
        S.set_kind(j, 'parts')
        S.set_kind(k, 'forms')
        other = S.choose([False, True], 'more often')
        if other:
            # a form counted more often than the one that was kept
            f = v.int('f')
            v.cand(f, kind='forms')
            S.add_univ([i, j, k], z3.Implies(ok(i, j, k), z3.Not(zand(is_it(y, i, j, k), z3.Or(f.e < 0, f.e >= D_nform(*at(i, j)), D_cnt(*at(i, j), f.e) <= D_cnt(*at(i, j), k))))))
            v.check(names[2], z3.BoolVal(False))
        else:
            S.add_univ([i, j, k], z3.Implies(ok(i, j, k), z3.Not(is_it(y, i, j, k))))
            v.check(names[1], z3.BoolVal(False))
    else:
        v.subsequence(names[3], r)


class Table2(object):
    _symbolic = True

    def __getitem__(self, e):
        return SInt(D_total(zstr(e)))

    def get(self, e, default=None):
        return self[e]
