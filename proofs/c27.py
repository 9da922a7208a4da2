# -*- coding: utf-8 -*-
from .common import *


class Env(object):
    """os.environ: presence and value of the variable are unknown."""
    _symbolic = True

    def __init__(self, v, name):
        self.name = name
        self.present = v.bool('env_has')
        self.value = v.str('env_value')

    def _contains(self, k):
        if k != self.name:
            raise Unsupported('another environment variable: %r' % (k,))
        return self.present.e

    def get(self, k, d=None):
        return self.value if truth(self._contains(k)) else d

    def __getitem__(self, k):
        if not truth(self._contains(k)):
            raise KeyError(k)
        return self.value


class OS(object):
    def __init__(self, real, env):
        self.real, self.environ = real, env

    def getenv(self, k, d=None):
        return self.environ.get(k, d)

    def __getattr__(self, n):
        return getattr(self.real, n)


class Warn(object):
    """Module warnings, recording."""
    def __init__(self):
        self.n = 0

    def warn(self, *a, **k):
        self.n += 1


@proof('C27', 'choose_dictionary_path', ['analyzer.MorphAnalyzer.choose_dictionary_path', 'analyzer.lang_dict_path'])
def choose_path(v):
    m = mod('pymorphy2.analyzer')
    A = m.MorphAnalyzer
    env = Env(v, 'PYMORPHY2_DICT_PATH')
    real_os = m.os
    has_installed = z3.Function('installed', StrS, BoolS)
    path_of = z3.Function('path_of', StrS, StrS)

    class Base(object):
        def has(self, k):
            return has_installed(zstr(k))

        def get(self, k):
            return SStr(path_of(zstr(k)))
    m.os = OS(real_os, env)
    real_paths = m._lang_dict_paths

    class Paths(RDict):
        def keys(self):
            return RList(['...'])
    m._lang_dict_paths = lambda: Paths(base=Base())
    try:
        path = v.str('path') if S.choose([True, False], 'path given') else None
        lang = v.str('lang')
        o = v.run(A.choose_dictionary_path, path, lang)
    finally:
        m.os, m._lang_dict_paths = real_os, real_paths
    v.declare('unknown language: ValueError', 'an explicit path wins', 'then the environment variable', 'then the installed dictionary')
    ok = o.exc is None
    if path is not None:
        v.check('an explicit path wins', v.eq(o.value, path) if ok else False)
        return
    if ok:
        r = zstr(o.value)
        v.check('then the environment variable', implies(env.present, r == env.value.e))
        v.check('then the installed dictionary', implies(z3.Not(env.present.e), z3.And(has_installed(lang.e), r == path_of(lang.e))))
    else:
        v.check('unknown language: ValueError', z3.And(isinstance(o.exc, ValueError), z3.Not(env.present.e), z3.Not(has_installed(lang.e))))


class DictLang(object):
    def __init__(self, lang):
        self.lang = lang


@proof('C27', 'choose_language', ['analyzer.MorphAnalyzer.choose_language'])
def choose_lang(v):
    m = mod('pymorphy2.analyzer')
    d = DictLang(v.str('declared') if S.choose([True, False], 'declared') else None)
    lang = v.str('lang') if S.choose([True, False], 'requested') else None
    w = Warn()
    real, m.warnings = m.warnings, w
    try:
        r = v.call('choose_language', m.MorphAnalyzer.choose_language, d, lang)
    finally:
        m.warnings = real
    v.declare('the requested language', 'the declared language', 'Russian by default', 'a mismatch is accepted with a warning',
              'no warning without a mismatch')
    if lang is not None:
        v.check('the requested language', v.eq(r, lang))
        if d.lang is not None:
            v.check('a mismatch is accepted with a warning', implies(lang.e != d.lang.e, z3.BoolVal(w.n >= 1)))
            v.check('no warning without a mismatch', implies(lang.e == d.lang.e, z3.BoolVal(w.n == 0)))
        else:
            v.check('a mismatch is accepted with a warning', w.n >= 1)
    elif d.lang is not None:
        v.check('the declared language', v.eq(r, d.lang))
    else:
        v.check('Russian by default', v.eq(r, 'ru'))


class Read(object):
    """opencorpora_dict.Dictionary: the dictionary at a path declares a language, or none."""
    def __init__(self, path, lang):
        self.path, self.lang, self.meta = path, lang, {}

        class Words(object):
            def compile_replaces(self, x):
                return {}
        self.words = Words()


class Unit(object):
    def clone(self):
        return Unit()

    def init(self, morph):
        self.morph = morph


INIT = 'analyzer.MorphAnalyzer.'


@proof('C27', 'the dictionary and the language of a new analyzer', [INIT + '__init__', INIT + 'choose_dictionary_path', INIT + 'choose_language',
                                                                   'analyzer.lang_dict_path', INIT + '_get_prob_estimator'])
def constructor(v):
    m = mod('pymorphy2.analyzer')
    env, w = Env(v, 'PYMORPHY2_DICT_PATH'), Warn()
    has_installed = z3.Function('installed', StrS, BoolS)
    path_of = z3.Function('path_of', StrS, StrS)

    class Base(object):
        def has(self, k):
            return has_installed(zstr(k))

        def get(self, k):
            return SStr(path_of(zstr(k)))

    class Paths(RDict):
        def keys(self):
            return RList(['...'])
    declared = v.str('declared') if S.choose([True, False], 'declared') else None
    opened = []

    class OD(object):
        def Dictionary(self, path):
            opened.append(path)
            return Read(path, declared)
    path = v.str('path') if S.choose([True, False], 'path given') else None
    lang = v.str('lang') if S.choose([True, False], 'requested') else None
    saved = m.os, m._lang_dict_paths, m.warnings, m.opencorpora_dict
    m.os, m._lang_dict_paths, m.warnings, m.opencorpora_dict = OS(m.os, env), (lambda: Paths(base=Base())), w, OD()
    try:
        kw = {} if path is None else {'path': path}
        kw.update({} if lang is None else {'lang': lang})
        o = v.run(m.MorphAnalyzer, units=[Unit()], char_substitutes={}, **kw)
    finally:
        m.os, m._lang_dict_paths, m.warnings, m.opencorpora_dict = saved
    names = ['an explicit path wins', 'then the environment variable', 'then the installed dictionary', 'no such dictionary: ValueError',
             'the requested language', 'the declared language', 'Russian by default', 'a mismatch is accepted with a warning', 'no warning without a mismatch']
    v.declare(*names)
    asked = lang if lang is not None else (SStr(str_val('ru')) if path is None else None)
    if o.exc is not None:
        v.check(names[3], z3.And(isinstance(o.exc, ValueError) and path is None, z3.Not(env.present.e), z3.Not(has_installed(zstr(asked))))
                if path is None else False)
        return
    a = o.value
    used = zstr(a.dictionary.path)
    if path is not None:
        v.check(names[0], used == path.e)
    else:
        v.check(names[1], implies(env.present, used == env.value.e))
        v.check(names[2], implies(z3.Not(env.present.e), z3.And(has_installed(zstr(asked)), used == path_of(zstr(asked)))))
    if asked is not None:
        v.check(names[4] if lang is not None else names[6], v.eq(a.lang, asked))
        mismatch = zstr(asked) != declared.e if declared is not None else z3.BoolVal(True)
        v.check(names[7], implies(mismatch, z3.BoolVal(w.n >= 1)))
        v.check(names[8], implies(z3.Not(mismatch), z3.BoolVal(w.n == 0)))
    elif declared is not None:
        v.check(names[5], v.eq(a.lang, declared))
    else:
        v.check(names[6], v.eq(a.lang, 'ru'))


PKG_NAME = z3.Function('pkg_name', Obj, StrS)
PKG_PATH = z3.Function('pkg_path', Obj, StrS)


class Package(SObj):
    """An entry point: a name, and a module which knows where its dictionary is."""
    @property
    def name(self):
        return SStr(PKG_NAME(self.e))

    def load(self):
        return self

    def get_path(self):
        return SStr(PKG_PATH(self.e))


@proof('C27', 'installed dictionaries', ['analyzer._lang_dict_paths'])
def installed(v):
    import sys
    import types
    m = mod('pymorphy2.analyzer')
    pkg = z3.Function('pkg', IntS, Obj)
    name, where = (lambda k: PKG_NAME(pkg(k))), (lambda k: PKG_PATH(pkg(k)))
    n = z3.Int('n_packages')
    pkgs = v.regular_list('packages', lambda i: Package(pkg(i)))
    old = S.choose([True, False], 'old package')
    asked = []

    def entry_points(*a, **k):
        asked.append((a, k))
        return pkgs
    stub = types.ModuleType('pymorphy2_dicts')
    old_path = v.str('old_path')
    stub.get_path = lambda: old_path
    saved = sys.modules.get('pymorphy2_dicts', stub), 'pymorphy2_dicts' in sys.modules
    real, m._iter_entry_points = m._iter_entry_points, entry_points
    sys.modules['pymorphy2_dicts'] = stub if old else None
    try:
        r = v.call('_lang_dict_paths', m._lang_dict_paths)
    finally:
        m._iter_entry_points = real
        if saved[1]:
            sys.modules['pymorphy2_dicts'] = saved[0]
        else:
            del sys.modules['pymorphy2_dicts']
    names = ['an installed package is found by its name', 'only installed packages are found', 'the old package is found']
    v.declare(*names)
    k, x = v.int('k'), v.str('x')
    S.assume(z3.And(k.e >= 0, k.e < n))
    v.cand(k, kind='packages')
    v.check(names[2], zstr(r['ru-old']) == old_path.e if old else True)
    which = S.choose(['found', 'only'], 'which')
    if which == 'found':
        j = S.fresh_binder('other', IntS, 'packages')
        S.add_univ([j], z3.Implies(z3.And(j >= 0, j < n, j != k.e), name(j) != name(k.e)))
        if old:
            S.assume(name(k.e) != str_val('ru-old'))
        key = SStr(name(k.e))
        found, val = r.lookup(key) if isinstance(r, RDict) else (key in r, r[key])
        v.check(names[0], zstr(val) == where(k.e) if found else False)
    else:
        j = S.fresh_binder('every', IntS, 'packages')
        S.add_univ([j], z3.Implies(z3.And(j >= 0, j < n), name(j) != x.e))
        if old:
            S.assume(x.e != str_val('ru-old'))
        v.check(names[1], not (x in r))
