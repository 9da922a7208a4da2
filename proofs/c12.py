# -*- coding: utf-8 -*-
"""Contracts of translating tag names between the alphabets."""
from .common import *

T = 'tagset.OpencorporaTag.'


class NameMap(object):
    """The alias table: a partial map of names to names."""
    _symbolic = True

    def __init__(self, name):
        self.dom = z3.Function(name + '_has', StrS, BoolS)
        self.f = z3.Function(name, StrS, StrS)

    def tr(self, x):
        return z3.If(self.dom(x), self.f(x), x)

    def get(self, k, d=None):
        if truth(self.dom(zstr(k))):
            return SStr(self.f(zstr(k)))
        return d

    def __getitem__(self, k):
        if truth(self.dom(zstr(k))):
            return SStr(self.f(zstr(k)))
        raise KeyError(k)

    def _contains(self, k):
        return self.dom(zstr(k))

    def __contains__(self, k):
        return truth(self.dom(zstr(k)))


def joined(v, name, s, sep):
    """The parts of a joined string."""
    if isinstance(s, str):
        return RList(s.split(sep)) if s else RList()
    jp = contracts.join_parts(s)
    if jp is None:
        raise Unsupported('not a joined string')
    got, parts = jp
    v.check(name, zstr(got) == str_val(sep))
    return parts


@proof('C12', 'translate the names of a comma-separated part', ['tagset._translate_comma_separated'])
def comma(v):
    m = NameMap('map')
    s = v.str('part')
    r = v.call('_translate_comma_separated', mod('pymorphy2.tagset')._translate_comma_separated, s, m)
    parts = s.split(',')
    v.declare('as many names', 'each name through the alias table, unknown names untouched')
    out = joined(v, 'names stay separated by commas', r, ',')
    v.check('as many names', zint(as_list(out).length()) == zint(parts.length()))
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < zint(parts.length())))
    v.check('each name through the alias table, unknown names untouched', zstr(out[i]) == m.tr(zstr(parts[i])))


@proof('C12', 'translate a tag string', ['tagset._translate_tag', T + 'lat2cyr', T + 'cyr2lat', T + 'cyr_repr'],
       assumes=['_translate_comma_separated by its contract'])
def whole(v):
    ts = mod('pymorphy2.tagset')
    lat2cyr, cyr2lat = NameMap('lat2cyr'), NameMap('cyr2lat')
    cls, known = tag_class(v, _LAT2CYR=lat2cyr, _CYR2LAT=cyr2lat)
    used = []
    U = {id(lat2cyr): z3.Function('comma_lat2cyr', StrS, StrS), id(cyr2lat): z3.Function('comma_cyr2lat', StrS, StrS)}
    real = ts._translate_comma_separated
    if real.__code__.co_argcount != 2:
        raise Unsupported('another signature')

    def stub(part, m):
        if id(m) not in U:
            raise Unsupported('another table')
        return SStr(U[id(m)](zstr(part)))
    ts._translate_comma_separated = stub
    s = v.str('s')
    which = S.choose(['lat2cyr', 'cyr2lat', 'tag object', 'cyr_repr'], 'which')
    v.declare('as many whitespace-separated parts', 'each part translated with the right table')
    try:
        if which == 'cyr2lat':
            r, u = v.call('cyr2lat', cls.cyr2lat, s), U[id(cyr2lat)]
        elif which == 'lat2cyr':
            r, u = v.call('lat2cyr', cls.lat2cyr, s), U[id(lat2cyr)]
        else:
            t, seq = seq_tag(v, cls, 't')
            S.memo['shared'] = set()
            t._str = s
            r, u = v.call(which, (lambda: cls.lat2cyr(t)) if which == 'tag object' else (lambda: t.cyr_repr)), U[id(lat2cyr)]
    finally:
        ts._translate_comma_separated = real
    parts = s.split()
    out = joined(v, 'parts are separated by one space', r, ' ')
    v.check('as many whitespace-separated parts', zint(as_list(out).length()) == zint(parts.length()))
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < zint(parts.length())))
    v.check('each part translated with the right table', zstr(out[i]) == u(zstr(parts[i])))


class Store(object):
    """A dict of unknown content that records stores."""
    _symbolic = True

    def __init__(self, name):
        self.name, self.log = name, []

    def __setitem__(self, k, x):
        self.log.append((k, x))


class KnownSet(SSet):
    pass


@proof('C12', 'add_grammemes_to_known', [T + 'add_grammemes_to_known'])
def add(v):
    l2c, c2l = Store('l2c'), Store('c2l')
    cls, known = tag_class(v, _LAT2CYR=l2c, _CYR2LAT=c2l)
    known.mutable = True
    known.oid, known.birth = S.name_for('ms'), S.tick()
    before = known.e
    lat, cyr = v.str('lat'), v.str('cyr')
    ow = S.choose(['default', True, False], 'overwrite')
    a = () if ow == 'default' else (ow,)
    v.call('add_grammemes_to_known', cls.add_grammemes_to_known, lat, cyr, *a)
    v.declare('an already known grammeme is kept without overwriting', 'the two names translate to each other', 'it becomes known')
    was = z3.IsMember(lat.e, before)
    after = cls.KNOWN_GRAMMEMES
    changed = bool(l2c.log or c2l.log)
    if not changed:
        v.check('an already known grammeme is kept without overwriting', zand(ow is False, was, zset(after) == before))
        return
    v.check('an already known grammeme is kept without overwriting', z3.Not(was) if ow is False else True)
    v.check('the two names translate to each other', len(l2c.log) == 1 and len(c2l.log) == 1)
    v.check('the two names translate to each other', zand(*[zstr(a) == b.e for a, b in zip(l2c.log[0] + c2l.log[0], (lat, cyr, cyr, lat))]))
    v.check('it becomes known', zset(after) == z3.SetAdd(before, lat.e))
