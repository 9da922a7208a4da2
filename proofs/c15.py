# -*- coding: utf-8 -*-
"""Contracts of the version gate and of loading."""
from .common import *

D = 'opencorpora_dict.storage.'


@proof('C15', 'the version gate', [D + '_assert_format_is_compatible'])
def gate(v):
    m = mod('pymorphy2.opencorpora_dict.storage')
    major = m.CURRENT_FORMAT_VERSION.split('.')[0]
    s = v.str('version')
    meta = {'format_version': s} if S.choose([True, False], 'declared') else {}
    contracts.split_facts(s, '.')
    o = v.run(m._assert_format_is_compatible, meta, 'path')
    names = ['accepted: the supported major version', 'accepted: a minor version follows', 'refused with ValueError', 'a version major.minor of the supported major is accepted',
             'no declared version: refused']
    v.declare(*names)
    dot = z3.StringVal('.')
    if not meta:
        v.check(names[4], isinstance(o.exc, ValueError))
        return
    i = z3.IndexOf(s.e, dot, z3.IntVal(0))
    first = z3.SubString(s.e, z3.IntVal(0), i)
    rest = z3.SubString(s.e, i + 1, z3.Length(s.e) - i - 1)
    good = z3.And(z3.Contains(s.e, dot), first == major, z3.Not(z3.Contains(rest, dot)))
    if o.exc is None:
        v.check(names[0], z3.PrefixOf(z3.StringVal(major + '.'), s.e))
        v.check(names[1], z3.Contains(s.e, dot))
    else:
        v.check(names[2], isinstance(o.exc, ValueError))
        v.check(names[3], z3.Not(good))


# ---------------------------------------------------------------------- saving and loading

FILES = ('files by their contract: what is written is what is read, JSON keeps lists, dicts, strings and numbers (tuples come back as lists), '
         'array.tofile/fromfile and struct keep 16-bit numbers, DAWG.save/load keep the data')
K_tag = z3.Function('tag_of_string', StrS, Obj)
K_out = z3.Function('external_form', StrS, StrS)


class Disk(object):
    """Files by name."""
    def __init__(self):
        self.files = {}

    def json_write(self, name, x, **k):
        self.files[name] = ('json', as_json(x))

    def json_read(self, name, **k):
        kind, x = self.files[name]
        assert kind == 'json'
        return x

    def open(self, name, mode='r', *a):
        if 'w' in mode:
            self.files[name] = ('stream', [])
        return Stream(self.files[name][1])

    def exists(self, name):
        return name in self.files


def as_json(x):
    if isinstance(x, tuple):
        return [as_json(y) for y in x]
    if type(x) is list:
        return [as_json(y) for y in x]
    if isinstance(x, dict):
        return dict((k, as_json(y)) for k, y in x.items())
    if isinstance(x, RDict):
        return dict((k, as_json(y)) for k, y in x.items())
    if isinstance(x, RList) and x.concrete():
        return [as_json(y) for y in x.items()]
    return x


class Stream(object):
    """A binary file: the 16-bit numbers and arrays written, in order."""
    def __init__(self, content):
        self.content, self.pos = content, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, x):
        self.content.append(x)

    def read(self, n):
        x = self.content[self.pos]
        self.pos += 1
        if n != 2 or not isinstance(x, Packed):
            raise Unsupported('reading other than what was written')
        return x


class Packed(object):
    def __init__(self, x):
        self.x = x


class Struct(object):
    def pack(self, fmt, x):
        return Packed((fmt, x))

    def unpack(self, fmt, p):
        if p.x[0] != fmt:
            raise Unsupported('another format')
        return (p.x[1],)


class Arr(object):
    """An array of n 16-bit numbers."""
    _symbolic = True

    def __init__(self, n=0, content=None):
        self.n, self.content = n, content

    def _len_(self):
        return self.n

    def tofile(self, f):
        f.write(self)

    def fromfile(self, f, n):
        x = f.content[f.pos]
        f.pos += 1
        if not isinstance(x, Arr):
            raise Unsupported('reading other than what was written')
        S.prove('as many numbers are read as were written', zint(n) == zint(x.n))
        self.n, self.content = x.n, x.content


class Array(object):
    def array(self, code, *a):
        if a or code != 'H':
            raise Unsupported('array')
        return Arr()


class Dawg(object):
    """A DAWG (the data it was made from)."""
    def __init__(self, disk, kind, data=None):
        self.disk, self.kind, self.data = disk, kind, data

    def iterkeys(self):
        return []

    def save(self, fn):
        self.disk.files[fn] = ('dawg', self.kind, self.data)

    def load(self, fn):
        if self.disk.files[fn][:2] != ('dawg', self.kind):
            raise Unsupported('another file')
        self.data = self.disk.files[fn][2]
        return self


class Dawgs(object):
    def __init__(self, disk):
        self.WordsDawg = lambda: Dawg(disk, 'words')
        self.PredictionSuffixesDAWG = lambda: Dawg(disk, 'prediction')


class Registry(object):
    def __init__(self, log):
        class Int(object):
            @staticmethod
            def _init_grammemes(g):
                log.append(g)

            @staticmethod
            def _from_internal_tag(t):
                return t

            def __new__(cls, s):
                return STag(K_tag(zstr(s)))

        class Ext(object):
            _init_grammemes = staticmethod(lambda g: None)
            _from_internal_tag = staticmethod(lambda t: SStr(K_out(zstr(t))))
        self.registry = {'opencorpora-int': Int, 'opencorpora-ext': Ext}
        self.Int = Int


class Path(object):
    def __init__(self, disk):
        self.disk = disk

    def join(self, *a):
        return '/'.join(a)

    def exists(self, fn):
        return self.disk.exists(fn)


class OS(object):
    def __init__(self, disk):
        self.path = Path(disk)


class Record(object):
    def __init__(self, **k):
        self.__dict__.update(k)


@proof('C15', 'what is saved is what is loaded (up to three paradigms and prefixes)', [D + 'save_compiled_dict', D + 'load_dict', D + '_load_paradigms', D + '_load_gramtab',
                                                                 D + '_load_tag_class', D + 'load_meta', D + 'write_meta', D + '_assert_format_is_compatible'],
       assumes=[FILES])
def round_trip(v):
    m = mod('pymorphy2.opencorpora_dict.storage')
    disk, log = Disk(), []
    npara, npre = S.choose([0, 1, 3], 'paradigms'), S.choose([1, 3], 'prefixes')
    listed = lambda name: v.regular_list(name, lambda i: SStr(z3.Function(name, IntS, StrS)(i)))
    paras = [Arr(v.int('length%d' % i), z3.Const('content%d' % i, Obj)) for i in range(npara)]
    gramtab, suffixes = listed('gramtab'), listed('suffixes')
    grammemes = v.obj('grammemes', object)
    prefixes = [v.str('prefix%d' % i) for i in range(npre)]
    words, preds = Dawg(disk, 'words', v.obj('words', object)), [Dawg(disk, 'prediction', v.obj('pred%d' % i, object)) for i in range(npre)]
    lang, source = v.str('lang'), v.str('source')
    c = Record(gramtab=RTuple(segs=gramtab.segs), suffixes=suffixes, paradigms=paras, words_dawg=words, prediction_suffixes_dawgs=preds,
               parsed_dict=Record(grammemes=grammemes, version='1', revision='2', lexemes=[], links=[]),
               compile_options={'paradigm_prefixes': prefixes, 'max_suffix_length': 5})
    reg = Registry(log)
    saved = dict((k, getattr(m, k)) for k in ('json_read', 'json_write', 'dawg', 'tagset', 'os', 'struct', 'array', 'logger'))

    class Silent(object):
        def __getattr__(self, n):
            return lambda *a, **k: None
    m.json_read, m.json_write, m.dawg, m.tagset, m.os, m.struct, m.array, m.logger = (disk.json_read, disk.json_write, Dawgs(disk), reg, OS(disk), Struct(),
                                                                                      Array(), Silent())
    m.open = disk.open
    try:
        v.call('save_compiled_dict', m.save_compiled_dict, c, 'dir', source, lang)
        r = v.call('load_dict', m.load_dict, 'dir')
    finally:
        for k, x in saved.items():
            setattr(m, k, x)
        del m.open
    names = ['the tag table', 'suffixes', 'paradigms', 'paradigm prefixes', 'grammemes', 'word data', 'prediction data', 'language and source', 'the tag class']
    v.declare(*names)
    conc = lambda x: as_list(x).items()
    got_paras, got_pre, got_pred = conc(r.paradigms), conc(r.paradigm_prefixes), conc(r.prediction_suffixes_dawgs)
    v.check(names[1], v.same_list(r.suffixes, suffixes))
    v.check(names[2], zand(*([z3.BoolVal(len(got_paras) == npara)] + [zand(a.content == b.content, zint(a.n) == zint(b.n)) for a, b in zip(got_paras, paras)])))
    v.check(names[3], zand(*([z3.BoolVal(len(got_pre) == npre)] + [zstr(a) == b.e for a, b in zip(got_pre, prefixes)])))
    v.check(names[4], bool(log) and all(g is grammemes for g in log))
    v.check(names[5], r.words.data is words.data)
    v.check(names[6], len(got_pred) == npre and all(a.data is b.data for a, b in zip(got_pred, preds)))
    v.check(names[7], zand(zstr(r.meta['language_code']) == lang.e, zstr(r.meta['source']) == source.e))
    v.check(names[8], r.Tag is reg.Int)
    i = v.int('i')
    v.check(names[0], zint(as_list(r.gramtab).length()) == zint(gramtab.length()))
    S.assume(zand(i.e >= 0, i.e < zint(gramtab.length())))
    v.check(names[0], r.gramtab[i].e == K_tag(zstr(gramtab[i])))
