# -*- coding: utf-8 -*-
"""The code's Dictionary over symbolic tables (contract of loading, C15), and the words it stores (contract of the DAWG)."""
from .common import *

P_n = z3.Function('paradigm_size', IntS, IntS)
P_item = z3.Function('paradigm_item', IntS, IntS, IntS)
P_prefix = z3.Function('paradigm_prefix', IntS, StrS)
P_suffix = z3.Function('suffix', IntS, StrS)
P_tag = z3.Function('gramtab', IntS, Obj)


def zi(x):
    return x if isinstance(x, z3.ExprRef) else zint(x)


class Paradigms(object):
    """dict.paradigms: flat arrays of 3 * size numbers (endings, tags, prefixes)."""
    _symbolic = True

    def __init__(self, d):
        self.d = d

    def __getitem__(self, para):
        return self.d.flat(zint(para))


class SymDict(object):
    """Tables of a well-formed dictionary (C15, C13): numbers in a paradigm are valid positions of the other tables."""

    def __init__(self, v):
        self.v = v
        n_pre, n_suf, n_tag = [z3.Int(x) for x in ('n_prefixes', 'n_suffixes', 'n_tags')]
        for n in (n_pre, n_suf, n_tag):
            S.assume(n >= 1)
        self.bounds = (n_suf, n_tag, n_pre)
        cls = mod('pymorphy2.opencorpora_dict.wrapper').Dictionary
        self.memo = {}
        self.dict = bare(cls, paradigms=Paradigms(self),
                         paradigm_prefixes=shared_list(v, 'prefixes', lambda i: SStr(P_prefix(i)), n=n_pre),
                         suffixes=shared_list(v, 'suffixes', lambda i: SStr(P_suffix(i)), n=n_suf),
                         gramtab=shared_list(v, 'gramtab', lambda i: STag(P_tag(i)), n=n_tag))

    def facts(self, para):
        """Well-formedness of one paradigm."""
        n = P_n(para)
        key = ('paradigm', para.sexpr())
        if key in S.memo:
            return
        S.memo[key] = True
        S.assume(n >= 1)

    def flat(self, para):
        key = ('flat', para.sexpr())
        if key not in S.memo:
            self.facts(para)
            n = P_n(para)
            b = self.bounds
            name = 'para%d' % len([k for k in S.memo if isinstance(k, tuple) and k[0] == 'flat'])

            def facts(i):
                x = P_item(para, i)
                return [x >= 0, z3.Implies(i < n, x < b[0]), z3.Implies(z3.And(i >= n, i < 2 * n), x < b[1]),
                        z3.Implies(i >= 2 * n, x < b[2])]
            S.memo[key] = shared_list(self.v, name, lambda i: SInt(P_item(para, i)), n=3 * n, facts=facts)
        return S.memo[key]

    # ---- specification
    def size(self, para):
        return P_n(zi(para))

    def pre(self, para, idx):
        para = zi(para)
        return P_prefix(P_item(para, 2 * P_n(para) + zi(idx)))

    def suf(self, para, idx):
        return P_suffix(P_item(zi(para), zi(idx)))

    def tag(self, para, idx):
        para = zi(para)
        return P_tag(P_item(para, P_n(para) + zi(idx)))

    def index(self, v, name, para):
        i = v.int(name)
        S.assume(zand(i.e >= 0, i.e < P_n(zi(para))))
        return i

    def entry(self, v, name):
        para = v.int(name + '_para')
        S.assume(para.e >= 0)
        self.facts(para.e)
        return para, self.index(v, name + '_idx', para)


# ---------------------------------------------------------------------- the words (contract of the DAWG)

W_known = z3.Function('is_stored', StrS, BoolS)
W_nsim = z3.Function('n_spellings', StrS, IntS)
W_sim = z3.Function('spelling', StrS, IntS, StrS)
W_nent = z3.Function('n_entries', StrS, IntS)
W_para = z3.Function('entry_paradigm', StrS, IntS, IntS)
W_idx = z3.Function('entry_index', StrS, IntS, IntS)
W_stem = z3.Function('entry_stem', StrS, IntS, StrS)
W_nall = z3.Function('n_with_prefix', StrS, IntS)
W_key = z3.Function('key_with_prefix', StrS, IntS, StrS)
W_pos = z3.Function('pos_with_prefix', StrS, IntS, IntS)


def middle(key, a, b):
    return z3.SubString(key, a, z3.Length(key) - b - a)


class Words(object):
    """dict.words: similar_items gives the stored spellings of a word, each with its entries (paradigm, position)."""
    _symbolic = True

    def __init__(self, d, substitutes):
        self.d, self.substitutes = d, substitutes
        self.asked = []

    def _ok(self, word, substitutes):
        self.asked.append((word, substitutes))
        if substitutes is not self.substitutes:
            S.prove('the configured substitutes are used', z3.BoolVal(False))

    def entry(self, key, j):
        return W_para(key, j), W_idx(key, j)

    def entry_facts(self, key, j):
        """A stored entry is a well-formed paradigm position whose prefix, some stem and ending make up the word (C13)."""
        para, idx = self.entry(key, j)
        pre, stem, suf = self.d.pre(para, idx), W_stem(key, j), self.d.suf(para, idx)
        return [para >= 0, idx >= 0, P_n(para) >= 1, idx < P_n(para), key == z3.Concat(pre, stem, suf),
                middle(key, z3.Length(pre), z3.Length(suf)) == stem]        # follows (lemma in c14.py)

    def entries(self, key):
        j = S.fresh_binder('ent', IntS, 'entries')
        para, idx = self.entry(key, j)
        es = [Entry('range', zand(j >= 0, j < W_nent(key)))] + [Entry('fact', f) for f in self.entry_facts(key, j)]
        return RList(segs=[FSeg([Family([j], es, (SInt(para), SInt(idx)))], (j, W_nent(key)))])

    def _spellings(self, word, value):
        w = zstr(word)
        n = W_nsim(w)
        S.assume(n >= 0)
        i = S.fresh_binder('sp', IntS, 'spellings')
        key = W_sim(w, i)
        es = [Entry('range', zand(i >= 0, i < n)), Entry('fact', z3.Length(key) == z3.Length(w)), Entry('fact', W_nent(key) >= 1),
              Entry('fact', W_known(key))]
        return RList(segs=[FSeg([Family([i], es, value(key))], (i, n))])

    def similar_items(self, word, substitutes):
        self._ok(word, substitutes)
        return self._spellings(word, lambda k: (SStr(k), self.entries(k)))

    def similar_item_values(self, word, substitutes):
        self._ok(word, substitutes)
        return self._spellings(word, self.entries)

    def similar_keys(self, word, substitutes):
        self._ok(word, substitutes)
        return self._spellings(word, SStr)

    def _contains(self, word):
        return W_known(zstr(word))

    def iteritems(self, prefix=''):
        p = zstr(prefix)
        n = W_nall(p)
        S.assume(n >= 0)
        i = S.fresh_binder('wi', IntS, 'all_words')
        key, pos = W_key(p, i), W_pos(p, i)
        para, idx = self.entry(key, pos)
        es = [Entry('range', zand(i >= 0, i < n)), Entry('fact', z3.PrefixOf(p, key)), Entry('fact', zand(pos >= 0, pos < W_nent(key)))]
        es += [Entry('fact', f) for f in self.entry_facts(key, pos)]
        return RList(segs=[FSeg([Family([i], es, (SStr(key), (SInt(para), SInt(idx))))], (i, n))])
    items = iteritems


def dict_unit(v, cls=None):
    d = SymDict(v)
    unit = v.obj('unit', cls or mod('pymorphy2.units.by_lookup').DictionaryAnalyzer)
    unit.dict = d.dict
    unit._vid = 'unit'
    shared(unit, d.dict)
    return d, unit
