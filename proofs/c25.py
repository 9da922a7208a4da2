# -*- coding: utf-8 -*-
"""Contracts of copying: units are duplicated with their parameters, analyzers are rebuilt from what they were given."""
import inspect
from .common import *

A = 'analyzer.MorphAnalyzer.'
B = 'units.base.BaseAnalyzerUnit.'
PICKLE = 'pickle calls the class with the restored arguments of __reduce__ (and restores plain objects attribute by attribute)'
ARGSPEC = 'inspect.getargspec gives the names of the parameters in order'


class Inspect(object):
    """inspect, with getargspec also where Python no longer has it."""
    def getargspec(self, fn):
        s = inspect.getfullargspec(fn)
        return (s.args, s.varargs, s.varkw, s.defaults)

    def __getattr__(self, n):
        return getattr(inspect, n)


def unit_classes():
    units = mod('pymorphy2.units')
    base = mod('pymorphy2.units.base').BaseAnalyzerUnit
    return [c for n, c in sorted(vars(units).items()) if inspect.isclass(c) and issubclass(c, base)]


def params_of(cls):
    return [] if cls.__init__ is object.__init__ else list(inspect.signature(cls.__init__).parameters)[1:]


def a_value(v, cls, p):
    """Any value of a parameter (text and lists: fixed ones, passed on as they are)."""
    if p == 'letters':
        return ''.join(['К', 'М'])
    if p == 'tag_pattern':
        return ''.join(['NOUN,%(gender)s', ',%(case)s'])
    if 'prefix' in p or 'particle' in p:
        return [''.join(['не', 'при']), '-то']
    return v.int(p) if 'min' in p or 'max' in p else v.real(p)


def same(x, y):
    if x is y:
        return z3.BoolVal(True)
    try:
        return zb(eq(x, y))
    except Unsupported:
        return z3.BoolVal(False)


class Opaque(object):
    def __init__(self, name, **k):
        self.name = name
        self.__dict__.update(k)


@proof('C25', 'units are duplicated with their parameters', [B + 'clone', B + '_get_params', B + '_get_param_names', 'units.*.__init__'],
       assumes=[ARGSPEC])
def clone(v):
    m = mod('pymorphy2.units.base')
    classes = unit_classes()
    names = ['a unit of the same class', 'another object', 'with the parameters it was given', 'the unit is unchanged']
    v.declare(*names)
    cls = classes[S.choose(range(len(classes)), 'class')]
    ps = params_of(cls)
    left_out = S.choose([False, True], 'defaults')
    vals = dict((p, a_value(v, cls, p)) for p in ps if not left_out or inspect.signature(cls.__init__).parameters[p].default is inspect._empty)
    if left_out:
        full = inspect.signature(cls.__init__).parameters if ps else {}
        for p in ps:
            if p not in vals and full[p].default is not None:
                vals.setdefault(p, full[p].default)
    real, m.inspect = m.inspect, Inspect()
    try:
        given = dict((p, x) for p, x in vals.items() if not left_out or full[p].default is inspect._empty)
        u = v.call('constructor', cls, **given)
        before = dict(vars(u))
        c = v.call('clone', u.clone)
        cc = v.call('clone of the copy', c.clone)
    finally:
        m.inspect = real
    v.check(names[0], type(c) is cls and type(cc) is cls)
    v.check(names[1], c is not u)
    for p, x in sorted(vals.items()):
        v.check(names[2], zand(same(getattr(c, p), x), same(getattr(cc, p), x)))
    v.check(names[2], all(same_attr(c, u, p) for p in vars(u)) and all(same_attr(cc, u, p) for p in vars(u)))
    v.check(names[3], set(before) == set(vars(u)) and all(before[k] is vars(u)[k] for k in before))


def same_attr(a, b, p):
    x, y = getattr(a, p, Opaque), getattr(b, p, None)
    if x is y:
        return True
    try:
        return bool(S.entails(zb(eq(x, y))))
    except Unsupported:
        return x == y


class Words(object):
    _symbolic = True

    def __init__(self, log):
        self.log = log

    def compile_replaces(self, x):
        self.log.append(x)
        return Opaque('compiled', source=x)


class DictStub(object):
    def __init__(self, path, lang, has_prob):
        self.path, self.lang = path, lang
        self.compiled = []
        self.words = Words(self.compiled)
        self.meta = {'P(t|w)': True} if has_prob else {}


class UnitStub(object):
    """A unit by its contract (above): a copy has the parameters of the original."""
    def __init__(self, what):
        self.what = what
        self.morph = None

    def clone(self):
        return UnitStub(self.what)

    def init(self, morph):
        self.morph = morph


class Estimator(object):
    def __init__(self, path):
        self.path = path


class Res(tuple):
    pass


def facts(a):
    t = a._result_type
    return {
        'dictionary path': a.dictionary.path,
        'language': a.lang,
        'result type': None if t is None else (t.__name__, t.__mro__[1], t._dict is a.dictionary, t._morph is a),
        'methods': [(u.what, term, u.morph is a) for u, term in a._units],
        'estimator': None if a.prob_estimator is None else (type(a.prob_estimator), a.prob_estimator.path),
        'substitutes': (a.char_substitutes.source, len(a.dictionary.compiled)),
    }


def agree(x, y):
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return zand(*([z3.BoolVal(len(x) == len(y) and type(x) is type(y))] + [agree(a, b) for a, b in zip(x, y)]))
    if x is None or y is None or isinstance(x, type) or isinstance(x, (UnitStub, Opaque)):
        return z3.BoolVal(x is y)
    if isinstance(x, (dict, RDict)) and isinstance(y, (dict, RDict)):
        return z3.BoolVal(not x and not y)
    return same(x, y)


@proof('C25', 'an analyzer is rebuilt from what it was given', [A + '__reduce__', A + '__init__', A + '_init_units', A + '_bound_unit',
                                                             A + '_init_char_substitutes', A + '_get_prob_estimator', A + '_config_value'],
       assumes=[PICKLE, 'choose_dictionary_path and choose_language by their contracts (C27): functions of path, language, environment and dictionary',
                'the dictionary at a path is the same when read again'])
def rebuilt(v):
    m = mod('pymorphy2.analyzer')
    MA = m.MorphAnalyzer
    path_for = z3.Function('path_for', BoolS, StrS, StrS)
    lang_for = z3.Function('lang_for', StrS, StrS)
    has_prob = S.choose([True, False], 'P(t|w)')

    def opt(x):
        return (z3.BoolVal(x is not None), zstr(x) if x is not None else z3.StringVal(''))

    def choose_path(path=None, lang=None):
        return path if path is not None else SStr(path_for(*opt(lang)))

    def choose_lang(dictionary, lang):
        return lang if lang is not None else SStr(lang_for(zstr(dictionary.path)))

    class Lang(object):
        DEFAULT_UNITS = [[UnitStub('default 1'), UnitStub('default 2')], UnitStub('default 3')]
        CHAR_SUBSTITUTES = Opaque('default substitutes')
    lang_conf = Lang()
    path = v.str('path') if S.choose([True, False], 'path') else None
    lang = v.str('lang') if S.choose([True, False], 'lang') else None
    result = S.choose([m.Parse, None, Res], 'result type')
    us = S.choose([None, 'own'], 'units')
    units_ = None if us is None else v.obj('units', lambda: [UnitStub('a'), [UnitStub('b'), UnitStub('c')], (UnitStub('d'), UnitStub('e')), UnitStub('f')])
    est = S.choose([m.auto, None, Estimator], 'estimator')
    subs = S.choose([m.auto, None, v.obj('subs', lambda: Opaque('substitutes'))], 'substitutes')
    kw = dict(path=path, lang=lang, result_type=result, units=units_, probability_estimator_cls=est, char_substitutes=subs)
    if S.choose(['given', 'left out'], 'keywords') == 'left out':      # what is as by default is not passed at all
        for k, d in (('path', None), ('lang', None), ('result_type', m.Parse), ('units', None), ('probability_estimator_cls', m.auto),
                     ('char_substitutes', m.auto)):
            if kw[k] is d:
                del kw[k]

    class OD(object):
        def Dictionary(self, path):
            return DictStub(path, 'xx', has_prob)
    saved = (m.opencorpora_dict, MA.choose_dictionary_path, MA.choose_language, MA._lang_default_config, m.ProbabilityEstimator)
    m.opencorpora_dict = OD()
    MA.choose_dictionary_path = staticmethod(choose_path)
    MA.choose_language = staticmethod(choose_lang)
    MA._lang_default_config = lambda self: lang_conf
    m.ProbabilityEstimator = Estimator
    names = ['the same ' + k for k in ('class', 'dictionary path', 'language', 'result type', 'methods', 'estimator', 'substitutes')]
    v.declare(*names)
    try:
        a = v.call('constructor', MA, **kw)
        r = v.call('__reduce__', a.__reduce__)
        if not (isinstance(r, tuple) and 2 <= len(r) and isinstance(r[1], tuple)):
            raise Unsupported('another form of __reduce__')
        if r[0] is not MA or any(x is not None for x in r[2:]):
            raise Unsupported('another form of __reduce__')
        b = v.call('constructor', r[0], *r[1])
        r2 = v.call('__reduce__', b.__reduce__)
        c = v.call('constructor', r2[0], *r2[1])
    finally:
        m.opencorpora_dict = saved[0]
        MA.choose_dictionary_path, MA.choose_language = staticmethod(saved[1]), staticmethod(saved[2])
        MA._lang_default_config, m.ProbabilityEstimator = saved[3:]
    fa, fb, fc = facts(a), facts(b), facts(c)
    v.check(names[0], type(b) is MA and type(c) is MA)
    for k in fa:
        v.check('the same ' + k, zand(agree(fa[k], fb[k]), agree(fa[k], fc[k])))
    v.check('the same methods', units_ is None or [u.what for u, _ in b._units] == list('abcdef'))
