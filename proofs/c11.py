# -*- coding: utf-8 -*-
"""Contracts of grammeme updating and rare-case replacement."""
from .common import *

T = 'tagset.OpencorporaTag.'


class SetMap(object):
    """A mapping from grammemes to sets of grammemes (the incompatibility table)."""
    _symbolic = True

    def __init__(self, name):
        self.f = z3.Function(name, StrS, SetS)

    def at(self, g):
        return self.f(zstr(g))

    def __getitem__(self, g):
        return SSet(self.at(g))

    def get(self, g, d=None):
        return self[g]


RARE = {'gen1': 'gent', 'gen2': 'gent', 'acc1': 'accs', 'acc2': 'accs', 'loc1': 'loct', 'loc2': 'loct', 'voct': 'nomn'}


@proof('C11 C08', 'updated_grammemes', [T + 'updated_grammemes', T + 'grammeme_is_known'],
       assumes=['the incompatibility table gives a set for every known grammeme (C11, _init_grammemes)'])
def updated(v):
    inc = SetMap('incompatible')
    cls, known = tag_class(v, _GRAMMEME_INCOMPATIBLE=inc)
    t, own = sym_tag(v, cls=cls)
    shared(t)
    req = v.set('required')
    o = v.run(t.updated_grammemes, req)
    v.declare('an unknown required grammeme: ValueError', 'nothing but own and required grammemes',
              'nothing incompatible with a required one', 'everything else is kept', 'the tag is unchanged')
    unknown = z3.Not(z3.IsSubset(req.e, known.e))
    if o.exc is not None:
        v.check('an unknown required grammeme: ValueError', isinstance(o.exc, ValueError))
        v.check('an unknown required grammeme: ValueError', unknown)
        return
    r = zset(o.value)
    x, g = v.str('x'), v.str('g')
    v.cand(x, g)
    inr = z3.IsMember(x.e, r)
    allx = z3.Or(z3.IsMember(x.e, own.e), z3.IsMember(x.e, req.e))
    which = S.choose(range(5), 'which')
    if which == 0:
        S.assume(z3.IsMember(g.e, req.e))
        v.check('an unknown required grammeme: ValueError', z3.IsMember(g.e, known.e))
    elif which == 1:
        v.check('nothing but own and required grammemes', implies(inr, allx))
    elif which == 2:
        S.assume(z3.IsMember(g.e, req.e))
        v.check('nothing incompatible with a required one', z3.Not(z3.And(inr, z3.IsMember(x.e, inc.at(g)))))
    elif which == 3:
        k = z3.Const('k', StrS)
        S.add_univ([k], z3.Implies(z3.IsMember(k, req.e), z3.Not(z3.IsMember(x.e, inc.f(k)))))
        v.check('everything else is kept', implies(allx, inr))
    else:
        v.no_writes('the tag is unchanged')


@proof('C11 C08', 'fix_rare_cases', [T + 'fix_rare_cases'])
def rare(v):
    cls, known = tag_class(v)
    gs = v.set('grammemes')
    r = zset(v.call('fix_rare_cases', cls.fix_rare_cases, gs))
    v.declare('no rare case remains', 'rare cases become common', 'other grammemes stay', 'nothing else is added')
    x = v.str('x')
    v.cand(x)
    inr, ing = z3.IsMember(x.e, r), z3.IsMember(x.e, gs.e)
    israre = z3.Or(*[x.e == str_val(a) for a in RARE])
    which = S.choose(range(4), 'which')
    if which == 0:
        v.check('no rare case remains', implies(inr, z3.Not(israre)))
    elif which == 1:
        for a, b in sorted(RARE.items()):
            S.cand(str_val(a))
            v.check('rare cases become common', implies(z3.IsMember(str_val(a), gs.e), z3.IsMember(str_val(b), r)))
    elif which == 2:
        v.check('other grammemes stay', implies(z3.And(ing, z3.Not(israre)), inr))
    else:
        v.check('nothing else is added', implies(inr, z3.Or(ing, *[z3.And(x.e == str_val(b), z3.IsMember(str_val(a), gs.e))
                                                                   for a, b in RARE.items()])))


G_n = z3.Int('n_declared')
G_name, G_parent, G_alias = z3.Function('declared_name', IntS, StrS), z3.Function('declared_parent', IntS, StrS), z3.Function('declared_alias', IntS, StrS)
G_children, G_parent_of = z3.Function('children_of', StrS, SetS), z3.Function('parent_of', StrS, StrS)


class Kids(SSet):
    """The children of one grammeme: what is added is recorded; what is read is the set of all of them."""
    __slots__ = ('table', 'key', 'all')

    def __init__(self, table, key):
        SSet.__init__(self, G_children(zstr(key)))
        self.table, self.key = table, key

    @property
    def e(self):
        self.table.read = True
        if any(l.key in self.table.loops for l in S.loopstack):
            raise Unsupported('children are read in the loop that adds them')
        return self.all

    @e.setter
    def e(self, x):
        self.all = x

    def add(self, x):
        if self.table.read:
            raise Unsupported('children are added after they were read')
        self.table.loops.update(l.key for l in S.loopstack)
        self.table.added.append((self.key, x))

    def update(self, xs):
        raise Unsupported('children are added together')


class Children(object):
    _symbolic = True

    def __init__(self):
        self.added, self.loops, self.read = RList(), set(), False

    def __getitem__(self, k):
        return Kids(self, k)

    def get(self, k, d=None):
        return Kids(self, k)


class Growing(object):
    """A set of the class that the children of its members are put into."""
    _symbolic = True

    def __init__(self, own):
        self.own, self.more = own, []

    @property
    def e(self):
        r = zset(frozenset(self.own))
        for k in self.more:
            r = z3.SetUnion(r, k)
        return r

    def copy(self):
        if self.more:
            raise Unsupported('a set that was added to is copied')
        return sorted(self.own)

    def _as_list(self):
        return RList(self.copy())

    def update(self, *xs):
        self.more.extend(zset(x) for x in xs)

    def __or__(self, o):
        return SSet(self.e) | o

    def __ror__(self, o):
        return SSet(self.e) | o

    def __ior__(self, o):
        self.more.append(zset(o))
        return self


class Extra(object):
    _symbolic = True

    def __init__(self, d):
        self.d = dict((k, Growing(x)) for k, x in d.items())

    def items(self):
        return sorted(self.d.items())

    def get(self, k, default=None):
        if default is None:
            raise Unsupported('no set where there is none of the class')
        r = zset(default)
        for n in sorted(self.d):
            r = z3.If(zstr(k) == str_val(n), self.d[n].e, r)
        return SSet(r)


class Stored(object):
    _symbolic = True

    def __init__(self):
        self.stored = RList()

    def __setitem__(self, k, x):
        self.stored.append((k, x))


class Parents(object):
    _symbolic = True

    def get(self, k, default=None):
        if default not in (None, ''):
            raise Unsupported('the parent of a grammeme without parent')
        return SStr(G_parent_of(zstr(k)))

    def __getitem__(self, k):
        if not S.entails(G_parent_of(zstr(k)) != str_val('')):
            raise Unsupported('the parent of a grammeme that may have none')
        return SStr(G_parent_of(zstr(k)))


def elements(s):
    if not hasattr(s, 'segs'):
        raise Unsupported('known grammemes that are not a set made here')
    return RList(segs=list(s.segs), owned=False)


def declared(i):
    return zand(i >= 0, i < G_n)


@proof('C11 C12', 'what is known about grammemes after loading', [T + '_init_grammemes', T + 'add_grammemes_to_known'],
       assumes=['grammemes are declared once', 'a grammeme without parent has no text in its place (None or empty)',
                'the set of the children of a grammeme is the set of what was added to it (collections.defaultdict)'])
def loading(v):
    m = mod('pymorphy2.tagset')
    S.assume(G_n >= 0)
    i = S.fresh_binder('g', IntS, 'declared')
    rows = RList(segs=[FSeg([Family([i], [Entry('range', declared(i))],
                                    (SStr(G_name(i)), SStr(G_parent(i)), SStr(G_alias(i)), SStr(z3.Function('declared_text', IntS, StrS)(i))))],
                            (i, G_n))], owned=False)
    # parent_of is the parent a grammeme is declared with, and nothing for others
    a = z3.Int('ga')
    S.set_kind(a, 'declared')
    S.add_univ([a], z3.Implies(declared(a), zand(G_parent_of(G_name(a)) == G_parent(a), G_name(a) != str_val(''))))
    kids, extra, inc, idx = Children(), Extra(real_tag_class()._EXTRA_INCOMPATIBLE), Stored(), Stored()
    cls = type(str('Tag'), (real_tag_class(),), dict(_EXTRA_INCOMPATIBLE=extra, _GRAMMEME_INCOMPATIBLE=inc, _GRAMMEME_INDICES=idx,
                                                     KNOWN_GRAMMEMES=frozenset(['before']), _CYR2LAT={}, _LAT2CYR={}))
    made, parents = [], []

    class Coll(object):
        def defaultdict(self, f):
            made.append(f)
            return kids
    saved, had = m.collections, m.__dict__.get('dict')
    real_dict = dict

    def mk(*x, **k):
        if len(x) == 1 and not k and isinstance(x[0], (RList, rt.RIter)):
            parents.append(as_list(x[0]))
            return Parents()
        return (had or real_dict)(*x, **k)
    m.collections, m.dict = Coll(), mk
    names = ['children of a grammeme: those declared with it as parent, and theirs', 'nothing else is a child', 'each grammeme gets its incompatible ones',
             'for every declared grammeme', 'every declared grammeme is known', 'no other grammeme is known', 'parents are looked up as declared',
             'both names translate to each other', 'plural excludes the genders']
    v.declare(*names)
    try:
        v.call('_init_grammemes', cls._init_grammemes, rows)
    finally:
        m.collections = saved
        if had is None:
            del m.dict
        else:
            m.dict = had
    if len(made) != 1 or not made[0] == set or len(parents) != 1:
        raise Unsupported('children and parents are not kept in one table each')
    k = v.int('k')
    S.assume(declared(k.e))
    claim = S.choose(range(9), 'claim')
    if claim == 0:
        v.cand(k, kind='declared')
        p, name = G_parent(k.e), G_name(k.e)
        up = S.choose([False, True], 'parent of the parent')
        key = G_parent_of(p) if up else p
        S.assume(zand(p != str_val(''), key != str_val('')))
        v.check(names[0], v.some(kids.added, lambda r: zand(zstr(r[0]) == key, zstr(r[1]) == name)))
    elif claim == 1:
        r = v.any(kids.added)
        j = z3.Int('gj')
        S.set_kind(j, 'declared')
        S.add_univ([j], z3.Not(zand(declared(j), G_name(j) == zstr(r[1]), z3.Or(G_parent(j) == zstr(r[0]), G_parent_of(G_parent(j)) == zstr(r[0])))))
        v.check(names[1], z3.BoolVal(False))
    elif claim == 2:
        r = v.any(inc.stored)
        x = v.str('x')
        v.cand(x)
        plural = zand(zstr(r[0]) == str_val('plur'), z3.Or(x.e == str_val('GNdr'), z3.IsMember(x.e, G_children(str_val('GNdr')))))
        v.check(names[2], z3.IsMember(x.e, zset(r[1])) == zand(x.e != zstr(r[0]), z3.Or(z3.IsMember(x.e, G_children(G_parent_of(zstr(r[0])))), plural)))
    elif claim == 3:
        v.cand(k, kind='declared')
        v.check(names[3], v.some(inc.stored, lambda r: zstr(r[0]) == G_name(k.e)))
    elif claim == 4:
        v.cand(k, kind='declared')
        v.check(names[4], v.some(elements(cls.KNOWN_GRAMMEMES), lambda x: zstr(x) == G_name(k.e)))
    elif claim == 5:
        x = v.any(elements(cls.KNOWN_GRAMMEMES))
        j = z3.Int('gj')
        S.set_kind(j, 'declared')
        S.add_univ([j], z3.Not(zand(declared(j), G_name(j) == zstr(x))))
        v.check(names[5], z3.BoolVal(False))
    elif claim == 6:
        r = v.any(parents[0])
        v.check(names[6], zstr(r[1]) == G_parent_of(zstr(r[0])))
        v.cand(k, kind='declared')
        v.check(names[6], v.some(parents[0], lambda r: zand(zstr(r[0]) == G_name(k.e), zstr(r[1]) == G_parent(k.e))))
    elif claim == 7:
        v.cand(k, kind='declared')
        v.check(names[7], v.some(cls._LAT2CYR.items(), lambda r: zand(zstr(r[0]) == G_name(k.e), zstr(r[1]) == G_alias(k.e))))
        v.check(names[7], v.some(cls._CYR2LAT.items(), lambda r: zand(zstr(r[1]) == G_name(k.e), zstr(r[0]) == G_alias(k.e))))
    else:
        v.check(names[8], real_dict((g, x.own) for g, x in extra.d.items()) == {'plur': {'GNdr'}})
