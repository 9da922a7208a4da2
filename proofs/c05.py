# -*- coding: utf-8 -*-
"""Contracts of the prediction by the ending of the word."""
from .common import *
from .dictstub import *

KS = 'units.by_analogy.KnownSuffixAnalyzer.'
RECORDS = ('the ending DAWGs by their contract (C18): records of the spellings of an ending, counts positive, valid paradigm '
           'positions, the spelling as long as the ending')
TABLES = 'well-formed tables (C13, C15)'

N_sp = z3.Function('n_endings', IntS, StrS, IntS)
N_key = z3.Function('ending', IntS, StrS, IntS, StrS)
N_rec = z3.Function('n_records', IntS, StrS, IntS)
R_cnt = z3.Function('record_count', IntS, StrS, IntS, IntS)
R_para = z3.Function('record_paradigm', IntS, StrS, IntS, IntS)
R_idx = z3.Function('record_index', IntS, StrS, IntS, IntS)


class Endings(object):
    """dict.prediction_suffixes_dawgs[pid]"""
    _symbolic = True

    def __init__(self, d, subst, pid):
        self.d, self.subst, self.pid = d, subst, pid

    def _subst(self, pairs):
        return Endings(self.d, self.subst, z3.substitute(self.pid, *pairs))

    def similar_items(self, end, substitutes):
        if substitutes is not self.subst:
            S.prove('the configured substitutes are used', z3.BoolVal(False))
        end, pid = zstr(end), self.pid
        i = S.fresh_binder('sp', IntS, 'endings')
        key = N_key(pid, end, i)
        es = [Entry('range', zand(i >= 0, i < N_sp(pid, end))), Entry('fact', z3.Length(key) == z3.Length(end))]
        return RList(segs=[FSeg([Family([i], es, (SStr(key), self.records(key)))], (i, N_sp(pid, end)))])

    def records(self, key):
        j = S.fresh_binder('rec', IntS, 'records')
        pid = self.pid
        es = [Entry('range', zand(j >= 0, j < N_rec(pid, key)))] + [Entry('fact', f) for f in record_facts(self.d, pid, key, j)]
        return RList(segs=[FSeg([Family([j], es, tuple(SInt(f(pid, key, j)) for f in (R_cnt, R_para, R_idx)))], (j, N_rec(pid, key)))])


def record_facts(d, pid, key, j):
    para, idx = R_para(pid, key, j), R_idx(pid, key, j)
    return [R_cnt(pid, key, j) >= 1, para >= 0, idx >= 0, P_n(para) >= 1, idx < P_n(para), z3.SuffixOf(d.suf(para, idx), key),
            d.pre(para, idx) == P_prefix(pid)]


class Subst(object):
    _symbolic = True


PID = z3.Function('tried_prefix', IntS, IntS)       # what init leaves: every prefix id once, ending lengths from the longest
LEN = z3.Function('tried_length', IntS, IntS)


def tables(v):
    d = SymDict(v)
    subst = v.obj('subst', Subst)
    unit = mod('pymorphy2.units.by_analogy').KnownSuffixAnalyzer()
    unit._vid = 'unit'
    d.dict.prediction_suffixes_dawgs = shared_list(v, 'endings', lambda i: Endings(d, subst, i), n=d.bounds[2])
    morph = bare(mod('pymorphy2.analyzer').MorphAnalyzer, char_substitutes=subst, dictionary=d.dict)
    return d, unit, morph, d.bounds[2]


@proof('C05 C18 C03', 'KnownSuffixAnalyzer.init', [KS + 'init', KS + '_max_suffix_length'], assumes=[TABLES])
def init(v):
    d, unit, morph, n = tables(v)
    m = v.int('max_suffix_length')
    S.assume(m.e >= 1)
    opts = {'max_suffix_length': m}
    d.dict.meta = {'compile_options': opts} if S.choose([True, False], 'format') else {'prediction_options': opts}
    shared(d.dict, morph)
    v.declare('every prefix is tried once', 'with its number', 'all ending lengths up to the maximum', 'the longest ending first')
    v.call('init', unit.init, morph)
    pp, sp = as_list(unit._paradigm_prefixes), as_list(unit._prediction_splits)
    v.check('every prefix is tried once', zint(pp.length()) == n)
    v.check('all ending lengths up to the maximum', zint(sp.length()) == m.e)
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < n))
    pid, p = pp[i]
    v.check('with its number', zand(zint(pid) == n - 1 - i.e, zstr(p) == P_prefix(zint(pid))))
    c = v.int('c')
    S.assume(zand(c.e >= 0, c.e < m.e))
    v.check('the longest ending first', zint(sp[c]) == m.e - c.e)
    v.no_writes('the analyzer is unchanged')


def suffix_unit(v):
    d, unit, morph, n = tables(v)
    m = z3.Int('max_suffix_length')
    S.assume(m >= 1)
    unit.morph, unit.dict = morph, d.dict
    unit.fake_dict = v.obj('fake_dict', lambda: bare(unit.FakeDictionary))
    unit.fake_dict.dict, unit.fake_dict.morph, unit.fake_dict._vid = d.dict, morph, 'fake_dict'
    a, b = z3.Ints('pa pb')
    S.set_kind(a, 'tried_prefixes'); S.set_kind(b, 'tried_prefixes')
    S.add_univ([a, b], z3.Implies(zand(a >= 0, a < n, b >= 0, b < n, PID(a) == PID(b)), a == b))
    unit._paradigm_prefixes = shared_list(v, 'tried_prefixes', lambda i: (SInt(PID(i)), SStr(P_prefix(PID(i)))), n=n,
                                          facts=lambda i: [PID(i) >= 0, PID(i) < n])
    unit._prediction_splits = shared_list(v, 'tried_lengths', lambda i: SInt(LEN(i)), n=m, facts=lambda i: [LEN(i) >= 1])
    shared(d.dict, morph, unit, unit.fake_dict)
    word = v.str('word')
    return d, unit, word, word.lower(), n, m


class Rec(object):
    """A record: position q in the unit's prefixes, position c in the ending lengths (longest first), spelling i, record j."""

    def __init__(self, d, low, n, maxlen, q, c, i, j, fact=False):
        self.d, self.n, self.maxlen = d, n, maxlen
        self.q, self.c, self.i, self.j = q, c, i, j
        self.pid = PID(q)
        k = LEN(c)
        self.end, self.start = cut_from(low, -k, fact), cut_upto(low, -k, fact)
        self.key = N_key(self.pid, self.end, i)
        a = (self.pid, self.key, j)
        self.cnt, self.para, self.idx = R_cnt(*a), R_para(*a), R_idx(*a)
        self.tag = d.tag(self.para, self.idx)
        self.word = z3.Concat(self.start, self.key)

    def exists(self):
        return zand(self.q >= 0, self.q < self.n, self.c >= 0, self.c < self.maxlen, self.i >= 0, self.i < N_sp(self.pid, self.end),
                    self.j >= 0, self.j < N_rec(self.pid, self.key))

    def usable(self):
        return zand(self.exists(), U_prod(self.tag))


KINDS = dict(q='tried_prefixes', c='tried_lengths', i='endings', j='records')


def terms(tag, names='qcij', args=()):
    out = []
    for n in names:
        nm = '%s_%s' % (tag, n)
        t = z3.Function(nm, *([a.sort() for a in args] + [IntS]))(*args) if args else z3.Int(nm)
        S.set_kind(t, KINDS[n])
        out.append(t)
    return out


def a_record(v, d, low, n, maxlen):
    """Any usable record of the longest ending that has one, for a prefix the word starts with."""
    r = Rec(d, low.e, n, maxlen, *terms('any'), fact=True)
    for t in (r.q, r.c, r.i, r.j):
        S.cand(t)
    S.assume(zand(r.usable(), z3.PrefixOf(P_prefix(r.pid), low.e)))
    for f in record_facts(d, r.pid, r.key, r.j):
        S.assume(f)
    S.assume(zand(z3.Length(r.key) == z3.Length(r.end), r.pid >= 0, r.pid < n, LEN(r.c) >= 1))
    # no longer ending has a usable record
    c, i, j = terms('no', 'cij')
    S.add_univ([c, i, j], z3.Implies(c < r.c, z3.Not(Rec(d, low.e, n, maxlen, r.q, c, i, j).usable())))
    return r


def not_from_any(d, low, n, maxlen, is_rec):
    """Assume the result is not from a usable record of the longest ending with one."""
    q, c, i, j = terms('so')
    r = Rec(d, low.e, n, maxlen, q, c, i, j)
    c2, i2, j2 = terms('longer', 'cij', (q, c))
    longer = zand(c2 < c, Rec(d, low.e, n, maxlen, q, c2, i2, j2).usable())
    S.derived.append(([q, c], [c2, i2, j2]))
    S.add_univ([q, c, i, j], z3.Implies(zand(r.usable(), z3.PrefixOf(P_prefix(r.pid), low.e), is_rec(r)), longer))


@proof('C05 C03 C01 C26', 'KnownSuffixAnalyzer.tag', [KS + 'tag', KS + '_possible_prefixes'],
       assumes=[RECORDS, TABLES], budget=200)
def suffix_tag(v):
    d, unit, word, low, n, maxlen = suffix_unit(v)
    seen = seen_set('seen')
    v.declare('words shorter than four letters get nothing', 'open class only', 'every usable record of the longest ending is given',
              'the unit and dictionary are unchanged', 'the tag of a usable record of the longest ending with one')
    short = S.choose([True, False], 'short')
    S.assume(z3.Length(word.e) < 4 if short else z3.Length(word.e) >= 4)
    r = v.call('tag', unit.tag, word, low, seen)
    if short:
        v.check('words shorter than four letters get nothing', not as_list(r).segs or zint(as_list(r).length()) == 0)
        return
    which = S.choose(['open', 'some', 'all', 'frame'], 'which')
    if which == 'open':
        e = v.any(r, 't')
        v.check('open class only', U_prod(e.e))
    elif which == 'some':
        t = v.any(r, 't')
        not_from_any(d, low, n, maxlen, lambda x: x.tag == t.e)
        v.check('the tag of a usable record of the longest ending with one', False)
    elif which == 'all':
        x = a_record(v, d, low, n, maxlen)
        v.check('every usable record of the longest ending is given',
                z3.Or(SeenBase('seen')(STag(x.tag)), v.some(r, lambda t: t.e == x.tag)))
    else:
        v.no_writes('the unit and dictionary are unchanged')


U_nf = z3.Function('normal_form_of', IntS, IntS, StrS, StrS)


def nf_stub(d):
    """build_normal_form by its contract (C07): a function of paradigm, position and word."""
    def build_normal_form(para_id, idx, fixed_word):
        return SStr(U_nf(zint(para_id), zint(idx), zstr(fixed_word)))
    d.dict.build_normal_form = build_normal_form


@proof('C05 C03 C01 C26', 'KnownSuffixAnalyzer.parse', [KS + 'parse', KS + '_possible_prefixes'],
       assumes=[RECORDS, TABLES], budget=200)
def suffix_parse(v):
    d, unit, word, low, n, maxlen = suffix_unit(v)
    nf_stub(d)
    mult = v.real('score_multiplier')
    S.assume(zand(mult.e > 0, mult.e <= 1))
    unit.score_multiplier = mult
    seen = seen_set('seen')
    v.declare('words shorter than four letters get nothing', 'open class only', 'the unit and dictionary are unchanged', 'an analysis by a usable record of the longest ending with one',
              'the score is positive')
    short = S.choose([True, False], 'short')
    S.assume(z3.Length(word.e) < 4 if short else z3.Length(word.e) >= 4)
    r = v.call('parse', unit.parse, word, low, seen)
    if short:
        v.check('words shorter than four letters get nothing', not as_list(r).segs or zint(as_list(r).length()) == 0)
        return
    which = S.choose(['open', 'some', 'score', 'frame'], 'which')

    def by_record(p, x):
        st = p[4]
        ok = (len(st) == 2 and len(st[0]) == 4 and same_obj(st[0][0], unit.fake_dict) and len(st[1]) == 2 and same_obj(st[1][0], unit))
        if not ok:
            return z3.BoolVal(False)
        return zand(zstr(p[0]) == x.word, p[1].e == x.tag, zstr(p[2]) == U_nf(x.para, x.idx, x.word), zstr(st[0][1]) == x.word,
                    zint(st[0][2]) == x.para, zint(st[0][3]) == x.idx, zstr(st[1][1]) == x.key)
    if which == 'open':
        v.check('open class only', U_prod(v.any(r, 'p')[1].e))
    elif which == 'some':
        p = v.any(r, 'p')
        not_from_any(d, low, n, maxlen, lambda x: by_record(p, x))
        v.check('an analysis by a usable record of the longest ending with one', False)
    elif which == 'score':
        v.check('the score is positive', v.any(r, 'p')[3].e > 0)
    else:
        v.no_writes('the unit and dictionary are unchanged')
