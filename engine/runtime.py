# -*- coding: utf-8 -*-
"""Runtime for transformed code: symbolic containers, loop rule, builtins, call dispatch."""
import builtins
import itertools
import sys
import types
import z3

from .core import (S, Sym, SBool, SInt, SReal, SStr, SSet, SObj, PathEnd, Unsupported, Restart, Entry, zint, zreal, zstr,
                   zbool, zset, eq, zand, subst, is_sym, is_num, IntS, BoolS, RealS, StrS, SetS, Obj, U_card, str_val)


class _Unbound(object):
    def __repr__(self):
        return '<unbound>'


class Unknown(object):
    """Value of a loop-carried variable whose earlier assignments are not known yet; may not be used."""

    def _bad(self, *a, **k):
        raise Unsupported('use of a loop-carried value of unknown shape')
    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = _bad
    __mul__ = __rmul__ = __getitem__ = __iter__ = __contains__ = __call__ = __len__ = __mod__ = _bad
    __hash__ = None

    def __getattr__(self, name):
        if name.startswith('__') or name in ('_eq', '_subst', '_truth', '_as_zset'):
            raise AttributeError(name)
        self._bad()


UNBOUND = _Unbound()
UNKNOWN = Unknown()


# ====================================================================== list contents

class Item(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def sub(self, pairs):
        return Item(subst(self.v, pairs))


class Family(object):
    """{ value(binders) | guards hold }.  entries: list of Entry in path order ('range'/'dec' are guards, 'fact' follow)."""
    __slots__ = ('binders', 'entries', 'value', 'co')

    def __init__(self, binders, entries, value, co=None):
        self.binders = list(binders)
        self.entries = list(entries)
        self.value = value
        self.co = co            # other containers' emissions in the same alternative (oid -> segs)

    def sub(self, pairs):
        return Family(self.binders, [Entry(e.kind, z3.substitute(e.f, *pairs), e.known) for e in self.entries],
                      subst(self.value, pairs), self.co)

    def renamed(self, tag='x', pick=False):
        """Fresh copies of the binders; returns (new binders, entries, value, pairs).

        pick: one particular element (inside a loop body: a function of the loop indices)."""
        if pick:
            new = [S.fresh_like(tag, b) for b in self.binders]
            if S.idx:
                for t in new:
                    S.picks[t.decl().name()] = (list(S.idx), t)
        else:
            new = [S.fresh_binder(tag, b.sort(), S.kind(b)) for b in self.binders]
        pairs = list(zip(self.binders, new))
        if not pairs:
            return new, self.entries, self.value, pairs
        return (new, [Entry(e.kind, z3.substitute(e.f, *pairs), e.known) for e in self.entries], subst(self.value, pairs), pairs)

    def at(self, terms):
        pairs = list(zip(self.binders, terms))
        if not pairs:
            return self.entries, self.value
        return ([Entry(e.kind, z3.substitute(e.f, *pairs), e.known) for e in self.entries], subst(self.value, pairs))


def guards(entries):
    return [e.f for e in entries if e.kind != 'fact']


def fact_formulas(entries, known=False):
    """Facts, each under the guards that precede it (known: also those stated for all iterations anyway)."""
    out, g = [], []
    for e in entries:
        if e.kind == 'fact':
            if not e.known or known:
                out.append(z3.Implies(zand(*g), e.f) if g else e.f)
        else:
            g.append(e.f)
    return out


def is_way(f):
    """A guard that only names the way taken by the code (Ctx.choose_one, Loop._enter)."""
    if z3.is_not(f) or z3.is_eq(f):
        f = f.arg(0)
    return z3.is_app(f) and f.decl().name().startswith(('way!', 'through!'))


class FSeg(object):
    """A symbolic stretch of a list: a bag of families.  regular=(index, n): exactly one element per 0<=index<n, in order."""
    __slots__ = ('families', 'regular', 'key', 'sorted_by', 'ordered')

    def __init__(self, families, regular=None, key=None):
        self.families = families
        self.regular = regular
        self.key = key
        self.sorted_by = None
        self.ordered = bool(regular)    # at most one element per value of the (single) index, in the order of the index

    def sub(self, pairs):
        r = self.regular
        if r:
            r = (r[0], z3.substitute(r[1], *pairs))
        n = FSeg([f.sub(pairs) for f in self.families], r, None)
        n.sorted_by = self.sorted_by
        n.ordered = self.ordered
        n.key = self.key and ('sub', self.key, tuple(str(p[1]) for p in pairs))
        return n

    def length(self):
        """z3 term; for irregular stretches an unknown that is positive iff some element exists."""
        if self.regular:
            return self.regular[1]
        if all(not f.binders for f in self.families):
            return z3.Sum(*[z3.If(zand(*guards(f.entries)), z3.IntVal(1), z3.IntVal(0)) for f in self.families])
        k = ('len', id(self))
        t = S.memo.get(k)
        if t is None:
            t = S.memo[k] = S.fresh('len', IntS)
            S.assume(t >= 0)
            S.memo[('keep', id(self))] = self
            for f in self.families:
                # any instance of a family witnesses that the length is positive
                g = zand(*guards(f.entries))
                S.add_univ(f.binders, z3.Implies(g, t > 0)) if f.binders else S.assume(z3.Implies(g, t > 0))
            # and a positive length is witnessed by some instance
            wit, facts = [], []
            for f in self.families:
                w = [S.fresh('lw', b.sort()) for b in f.binders]
                for x, b in zip(w, f.binders):
                    S.set_kind(x, S.kind(b))
                    S.cand(x)
                entries, _ = f.at(w)
                wit.append(zand(*guards(entries)))
                facts.extend(fact_formulas(entries))
            S.assume(z3.Implies(t > 0, zand(z3.Or(*wit), *facts)))
        return t


ANY = _Unbound()       # pending test: is there any element?


class HSeg(object):
    """Unknown elements added by earlier iterations (while a loop body is being summarised)."""
    __slots__ = ('loop',)

    def __init__(self, loop):
        self.loop = loop

    def sub(self, pairs):
        return self


class ArrSeg(object):
    """n integers held in a z3 array, individually assignable."""
    __slots__ = ('n', 'arr')

    def __init__(self, n, arr):
        self.n = n
        self.arr = arr

    def sub(self, pairs):
        return ArrSeg(z3.substitute(self.n, *pairs), z3.substitute(self.arr, *pairs))

    def length(self):
        return self.n


class Container(object):
    kind = '?'
    __hash__ = None

    def __init__(self, segs=None, owned=True):
        self.segs = list(segs or [])
        self.birth = S.tick()
        self.oid = S.name_for('o')
        self.owned = owned          # False: belongs to the caller / shared state
        S.heap[self.oid] = self
        self.sorted_by = None
        self.shadow = None          # of an integer array: (initial array, positions increased so far)

    # -------- mutation bookkeeping
    def _mutate(self, how='append'):
        if not self.owned:
            S.writes.append((self.kind, getattr(self, 'label', self.oid)))
        new = [L.note_mutation(self, how) for L in S.loopstack]
        if any(new):
            raise Restart()
        self.sorted_by = None
        if how not in ('array', 'append'):
            self.shadow = None

    def _subst(self, pairs):
        n = type(self).__new__(type(self))
        n.__dict__.update(self.__dict__)
        n.segs = [s.sub(pairs) for s in self.segs]
        n.shadow = None
        n.oid = S.name_for('o')
        n.birth = S.tick()
        return n

    def concrete(self):
        return all(isinstance(s, Item) for s in self.segs)

    def items(self):
        if not self.concrete():
            raise Unsupported('native iteration over a symbolic %s' % self.kind)
        return [s.v for s in self.segs]

    def _truth(self):
        if any(isinstance(s, Item) for s in self.segs):
            return True
        if not self.segs:
            return False
        if all(isinstance(s, FSeg) and all(not f.binders for f in s.families) for s in self.segs):
            return z3.Or(*[zand(*guards(f.entries)) for s in self.segs for f in s.families])
        return Container.zlen(self) > 0

    def __bool__(self):
        t = self._truth()
        return t if isinstance(t, bool) else S.fork(t)

    def zlen(self):
        n = z3.IntVal(0)
        c = 0
        for s in self.segs:
            if isinstance(s, Item):
                c += 1
            elif isinstance(s, HSeg):
                k = ('hlen', s.loop.uid, self.oid)
                t = S.memo.get(k)
                if t is None:
                    t = S.fresh('hlen', IntS)
                    t = S.memo[k] = z3.If(t > 0, t, z3.IntVal(0))
                    # positive iff an earlier iteration added something (see _link_members)
                    s.loop.pending_members.append((self.oid, ANY, t.arg(0), [x for x in S.idx[s.loop.mark:] if not x.children()]))
                n = n + t
            else:
                n = n + s.length()
        return z3.simplify(n + c)

    def length(self):
        if self.concrete():
            return len(self.segs)
        return SInt(self.zlen())


def emission_families(segs, binders, entries, co=None):
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(Family(binders, entries, s.v, co))
        elif isinstance(s, FSeg):
            for f in s.families:
                # keep inner binders distinct from the outer ones
                out.append(Family(list(binders) + list(f.binders), list(entries) + list(f.entries), f.value, co))
        elif isinstance(s, HSeg):
            raise Unsupported('havocked stretch inside an emission')
        else:
            raise Unsupported('array stretch inside an emission')
    return out


class RList(Container):
    kind = 'list'
    _real = list

    def __init__(self, items=(), segs=None, owned=True):
        Container.__init__(self, segs if segs is not None else [Item(x) for x in items], owned)

    def append(self, v):
        self._mutate()
        self.segs.append(Item(v))

    def extend(self, it):
        other = as_list(it)
        self._mutate()
        self.segs.extend(list(other.segs))

    def insert(self, i, v):
        if not self.concrete():
            raise Unsupported('insert')
        self._mutate('clobber')
        self.segs.insert(i, Item(v))

    def pop(self, i=-1):
        if not self.concrete():
            raise Unsupported('pop from a symbolic list')
        self._mutate('clobber')
        if not self.segs:
            raise IndexError('pop from empty list')
        return self.segs.pop(i).v

    def copy(self):
        return RList(segs=list(self.segs))

    def __iter__(self):
        return iter(self.items())

    def __add__(self, o):
        if not isinstance(o, (RList, list)):
            raise TypeError('can only concatenate list')
        return RList(segs=list(self.segs) + list(as_list(o).segs))

    def __radd__(self, o):
        return as_list(o) + self

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        if isinstance(n, int):
            return RList(segs=list(self.segs) * n)
        if isinstance(n, SInt) and len(self.segs) == 1 and isinstance(self.segs[0], Item):
            v = self.segs[0].v
            nn = z3.If(n.e >= 0, n.e, z3.IntVal(0))
            if isinstance(v, int) and not isinstance(v, bool):
                r = RList(segs=[ArrSeg(nn, z3.K(IntS, z3.IntVal(v)))])
                r.shadow = (r.segs[0].arr, RList())
                return r
            i = S.fresh_binder('rep', IntS)
            return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < nn))], v)], (i, nn))])
        raise Unsupported('list repetition')
    __rmul__ = __mul__

    # -------- indexing
    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        n = self.zlen() if not self.concrete() else z3.IntVal(len(self.segs))
        if self.concrete() and isinstance(i, int):
            try:
                return self.segs[i].v
            except IndexError:
                raise IndexError('list index out of range')
        iz = zint(i)
        if S.fork(z3.Or(iz >= n, iz < -n)):
            raise IndexError('list index out of range')
        if isinstance(i, int) and i in (0, -1) and self.segs and not isinstance(self.segs[i], Item):
            v = end_of(self, i == -1)
            if v is not None:
                return v[0]
        pos = z3.simplify(iz if isinstance(i, int) and i >= 0 else z3.If(iz >= 0, iz, n + iz))
        if not isinstance(i, int) and S.entails(iz >= 0, 1500):
            pos = z3.simplify(iz)
        off = z3.IntVal(0)
        segs = self.segs
        for k, s in enumerate(segs):
            ln = z3.IntVal(1) if isinstance(s, Item) else s.length() if not isinstance(s, HSeg) else None
            if ln is None:
                raise Unsupported('index into a havocked list')
            last = (k == len(segs) - 1)
            if last or S.fork(pos < off + ln):
                return self._elem(s, z3.simplify(pos - off))
            off = off + ln
        raise PathEnd()

    def _elem(self, s, pos):
        if isinstance(s, Item):
            return s.v
        if isinstance(s, ArrSeg):
            return SInt(self._read(s, pos))
        if s.regular:
            return elem_at(s, pos)
        # irregular: some element of the stretch; the same index gives the same element
        key = ('elem', id(s), pos.sexpr())
        if key not in S.memo:
            S.memo[key] = (s, arbitrary(s))
        return S.memo[key][1]

    def _read(self, s, pos):
        val = z3.Select(s.arr, pos)
        if self.shadow is not None and not S.gidx and ('unordered', self.oid) not in S.persist:
            # an entry exceeds its initial value iff it has been increased
            b = member(self.shadow[1], SInt(pos))
            S.assume((val > z3.Select(self.shadow[0], pos)) == b)
        return val

    def _increased(self, old, pos, new):
        if self.shadow is None or ('unordered', self.oid) in S.persist:
            return
        if not S.entails(new > z3.Select(old, pos)):
            S.persist.add(('unordered', self.oid))
            raise Restart()
        self.shadow[1].append(SInt(pos))

    def __setitem__(self, i, v):
        if isinstance(i, slice) and i.start in (None, 0) and i.step is None and (i.stop is None or (i.stop == 0 and i.start == 0) or (i.stop == 0 and i.start is None)):
            new = list(as_list(v).segs)
            self._mutate('clobber')
            self.segs = new if i.stop is None else new + self.segs
            return
        if self.concrete() and isinstance(i, int):
            self._mutate('set')
            if not -len(self.segs) <= i < len(self.segs):
                raise IndexError('list assignment index out of range')
            self.segs[i] = Item(v)
            return
        if len(self.segs) == 1 and isinstance(self.segs[0], ArrSeg):
            s = self.segs[0]
            iz = zint(i)
            if S.fork(z3.Or(iz >= s.n, iz < -s.n)):
                raise IndexError('list assignment index out of range')
            pos = iz if S.entails(iz >= 0, 1500) else z3.If(iz >= 0, iz, s.n + iz)
            self._mutate('array')
            self.segs[0] = ArrSeg(s.n, z3.Store(s.arr, pos, zint(v)))
            self._increased(s.arr, pos, zint(v))
            return
        raise Unsupported('assignment into a symbolic list')

    def _slice(self, sl):
        if sl.step not in (None, 1, -1):
            raise Unsupported('list slice step')
        if sl.start is None and sl.stop is None:
            return self.copy() if sl.step != -1 else reversed_(self)
        if self.concrete() and all(isinstance(x, (int, type(None))) for x in (sl.start, sl.stop)):
            return RList(segs=self.segs[sl])
        # a stretch of a regular symbolic list
        if isinstance(sl.start, (int, type(None))) and sl.stop is None and sl.step is None:
            k = sl.start or 0
            segs = list(self.segs)
            while k > 0 and segs and isinstance(segs[0], Item):
                segs.pop(0)
                k -= 1
            if k == 0:
                return RList(segs=segs)
        if isinstance(sl.stop, int) and sl.stop < 0 and sl.start in (None, 0):
            k = -sl.stop
            segs = list(self.segs)
            while k > 0 and segs and isinstance(segs[-1], Item):
                segs.pop()
                k -= 1
            if k == 0:
                return RList(segs=segs)
        if sl.step is None and (sl.start, sl.stop) in ((None, 1), (0, 1), (-1, None), (None, -1), (0, -1), (1, None)):
            last = (sl.start, sl.stop) in ((-1, None), (None, -1), (0, -1))
            if not truth(self._truth()):
                return RList()
            r = end_of(self, last)
            if r is not None:
                if (sl.start, sl.stop) in ((None, 1), (0, 1), (-1, None)):
                    return RList([r[0]])
                if r[1] is not None:
                    return RList(segs=r[1])
        if len(self.segs) == 1 and isinstance(self.segs[0], FSeg) and self.segs[0].regular and sl.step is None:
            s = self.segs[0]
            n = s.regular[1]
            lo, hi = [k is None or isinstance(k, (int, SInt)) for k in (sl.start, sl.stop)]
            if lo and hi:
                at = lambda k, d: d if k is None else z3.If(zint(k) < 0, z3.If(n + zint(k) < 0, 0, n + zint(k)), z3.If(zint(k) > n, n, zint(k)))
                a, b = z3.simplify(at(sl.start, z3.IntVal(0))), z3.simplify(at(sl.stop, n))
                m = z3.simplify(z3.If(b > a, b - a, 0))
                if len(s.families) == 1:
                    j = S.fresh_binder('sl', IntS, S.kind(s.regular[0]))
                    entries, v = s.families[0].at([j + a])
                    entries = [Entry('range', zand(j >= 0, j < m))] + [Entry('fact' if e.kind == 'range' else e.kind, e.f) for e in entries]
                    return RList(segs=[FSeg([Family([j], entries, v)], (j, m))])
        # fall back: a list of elements of this one (sub-bag)
        if any(isinstance(s, FSeg) and s.sorted_by for s in self.segs):
            S.taint('slice of a sorted list')
        return subbag(self)

    def sort(self, key=None, reverse=False):
        r = sorted_(self, key=key, reverse=reverse)
        self._mutate('clobber')
        self.segs = r.segs
        self.sorted_by = r.sorted_by

    def reverse(self):
        r = reversed_(self)
        self._mutate('clobber')
        self.segs = r.segs

    def clear(self):
        self._mutate('clobber')
        self.segs = []

    def index(self, x):
        if not self.concrete():
            raise Unsupported('index')
        for i, s in enumerate(self.segs):
            if truth(eq(s.v, x)):
                return i
        raise ValueError('not in list')

    def count(self, x):
        raise Unsupported('list.count')

    def _eq(self, o):
        if isinstance(o, (list, RList)):
            o = as_list(o)
            if self.concrete() and o.concrete():
                if len(self.segs) != len(o.segs):
                    return False
                return zand(*[eq(a.v, b.v) for a, b in zip(self.segs, o.segs)])
            if not o.segs:
                return self.zlen() == 0
            if not self.segs:
                return o.zlen() == 0
            raise Unsupported('comparison of symbolic lists')
        return False

    def __eq__(self, o):
        r = self._eq(o)
        return r if isinstance(r, bool) else SBool(r)

    def __ne__(self, o):
        r = self._eq(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r))

    def member(self, x):
        return member(self, x)

    def __contains__(self, x):
        return truth(member(self, x))


class RTuple(RList):
    kind = 'tuple'
    _real = tuple

    def append(self, v):
        raise AttributeError("'tuple' object has no attribute 'append'")
    extend = insert = sort = append

    def __setitem__(self, i, v):
        raise TypeError("'tuple' object does not support item assignment")

    def __add__(self, o):
        return RTuple(segs=list(self.segs) + list(as_list(o).segs))

    def __radd__(self, o):
        return RTuple(segs=list(as_list(o).segs) + list(self.segs))

    def _slice(self, sl):
        return RTuple(segs=RList._slice(self, sl).segs)


class RSet(Container):
    """Mutable set built by the code (elements are arbitrary values)."""
    kind = 'set'
    _real = set

    def __init__(self, items=(), segs=None, owned=True, base=None):
        Container.__init__(self, segs if segs is not None else [Item(x) for x in items], owned)
        self.base = base            # callable value -> z3 formula: unknown initial content

    def _subst(self, pairs):
        n = Container._subst(self, pairs)
        return n

    def add(self, v):
        self._mutate()
        self.segs.append(Item(v))

    def update(self, *its):
        for it in its:
            if isinstance(it, RSet):
                self._mutate()
                if it.base is not None and it.base is not self.base:
                    raise Unsupported('update with an abstract set')
                # elements that are already here need not be repeated
                k = 0
                while k < len(it.segs) and k < len(self.segs) and it.segs[k] is self.segs[k]:
                    k += 1
                self.segs.extend(it.segs[k:])
            else:
                self._mutate()
                self.segs.extend((it.unordered() if isinstance(it, RSet) else as_list(it)).segs)

    def copy(self):
        return RSet(segs=list(self.segs), base=self.base)

    def discard(self, x):
        raise Unsupported('set.discard')
    remove = pop = discard

    def member(self, x):
        return member(self, x)

    def __contains__(self, x):
        return truth(member(self, x))

    def _truth(self):
        t = Container._truth(self)
        if t is True or self.base is None:
            return t
        b = S.memo.get(('basene', self.base.name))
        if b is None:
            b = S.memo[('basene', self.base.name)] = z3.Bool('nonempty_' + self.base.name)
        return z3.Or(b, z3.BoolVal(t) if isinstance(t, bool) else t)

    def ordered(self):
        """The elements, each once, in any one order (few elements: every order and every coincidence is explored)."""
        if len(self.segs) <= 1 and self.concrete():
            return list(self.segs)
        if not self.concrete() or len(self.segs) > 3:
            raise Unsupported('the order of a set')
        key = ('order', self.oid, len(self.segs))
        if key not in S.memo:
            out = self.distinct()
            perms = list(itertools.permutations(range(len(out))))
            p = perms[S.choose(range(len(perms)), 'order')] if len(perms) > 1 else perms[0]
            S.memo[key] = [out[i] for i in p]
        return list(S.memo[key])

    def distinct(self):
        out = []
        for s in self.segs:
            if not any(truth(eq(s.v, o.v)) for o in out):
                out.append(s)
        return out

    def unordered(self):
        if self.base is not None:
            raise Unsupported('iteration over an abstract set')
        return RList(segs=list(self.segs))

    def __iter__(self):
        return iter([s.v for s in self.ordered()])

    def length(self):
        if self.base is None and self.concrete():
            if len(self.segs) <= 1:
                return len(self.segs)
            if all(not has_sym(s.v) for s in self.segs):
                return len(set(s.v for s in self.segs))
            n = z3.IntVal(0)
            for k, s in enumerate(self.segs):
                new = zand(*[z3.Not(zbool(eq(s.v, t.v))) for t in self.segs[:k]])
                n = n + z3.If(new, z3.IntVal(1), z3.IntVal(0))
            return SInt(z3.simplify(n))
        if any(not isinstance(s, (Item, FSeg)) for s in self.segs):
            raise Unsupported('the size of a set')
        key = ('setlen', self.oid, len(self.segs))
        t = S.memo.get(key)
        if t is None:
            t = S.memo[key] = S.fresh('setlen', IntS)
            f = self._truth()
            S.assume(z3.And(t >= 0, (t > 0) == (z3.BoolVal(f) if isinstance(f, bool) else f)))
            if self.base is None:
                S.assume(t <= Container.zlen(self))
        return SInt(t)

    def zlen(self):
        return zint(self.length())

    def _as_zset(self):
        if self.base is not None:
            raise Unsupported('abstract set as string set')
        r = z3.EmptySet(StrS)
        rest = []
        for s in self.segs:
            if isinstance(s, Item):
                if not isinstance(s.v, (str, SStr)):
                    raise Unsupported('set of non-strings')
                r = z3.SetAdd(r, zstr(s.v))
            else:
                rest.append(s)
        for s in rest:
            if all(not f.binders for f in s.families):
                for f in s.families:
                    r = z3.If(zand(*guards(f.entries)), z3.SetAdd(r, zstr(f.value)), r)
            else:
                r = z3.SetUnion(r, set_of_seg(s))
        return r

    def _concrete_strs(self):
        if self.base is None and self.concrete() and all(isinstance(s.v, str) for s in self.segs):
            return sorted(set(str(s.v) for s in self.segs))
        return None

    def __or__(self, o): return _zs(self) | o
    def __ror__(self, o): return _zs(o) | self
    def __and__(self, o): return _zs(self) & o
    def __rand__(self, o): return _zs(o) & self
    def __sub__(self, o): return _zs(self) - o
    def __rsub__(self, o): return _zs(o) - self
    def __xor__(self, o): return _zs(self) ^ o
    def __rxor__(self, o): return _zs(o) ^ self
    def __le__(self, o):
        if self.concrete() and not isinstance(o, RSet):
            return _zs(self) <= o
        return pylib().subset(self.unordered(), o)

    def __ge__(self, o):
        if self.concrete() and not isinstance(o, RSet):
            return _zs(self) >= o
        return pylib().subset(o.unordered() if isinstance(o, RSet) else o, self)

    def issubset(self, o): return self <= o
    def issuperset(self, o): return self >= o
    def isdisjoint(self, o): return pylib().disjoint(self.unordered(), o)
    def difference(self, o): return _zs(self) - o
    def union(self, *o):
        r = _zs(self)
        for x in o:
            r = r | x
        return r
    def intersection(self, o): return _zs(self) & o

    def _eq(self, o):
        if isinstance(o, (set, frozenset, SSet, RSet)):
            return zset(self) == zset(o)
        return False

    def __eq__(self, o):
        r = self._eq(o)
        return r if isinstance(r, bool) else SBool(r)

    def __ne__(self, o):
        r = self._eq(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r))


def guarded_set(pairs):
    """{ x | its guard holds } for concrete x."""
    return RSet(segs=[FSeg([Family([], [Entry('dec', g)], x) for x, g in pairs])] if pairs else [])


def _zs(o):
    return SSet(zset(o))


def set_of_seg(s):
    """z3 set of the (string) elements of a symbolic stretch: contains every instance, and only instances."""
    key = ('setof', id(s))
    if key in S.memo:
        return S.memo[key][1]
    a = S.fresh('setof', SetS)
    S.memo[key] = (s, a)
    x = z3.Const(S.name_for('sx'), StrS)
    alts = []
    for f in s.families:
        g = zand(*guards(f.entries))
        fact = z3.Implies(g, z3.IsMember(zstr(f.value), a))
        S.add_univ(f.binders, fact) if f.binders else S.assume(fact)
        if f.binders:
            w = [z3.Function(S.name_for('wit'), StrS, b.sort())(x) for b in f.binders]
            for t, b in zip(w, f.binders):
                S.set_kind(t, S.kind(b))
            S.derived.append(([x], w))
            entries, val = f.at(w)
            for ff in fact_formulas(entries):
                S.add_univ([x], z3.Implies(z3.IsMember(x, a), ff))
            alts.append(zand(*(guards(entries) + [zstr(val) == x])))
        else:
            alts.append(zand(g, zstr(f.value) == x))
    S.add_univ([x], z3.Implies(z3.IsMember(x, a), z3.Or(*alts) if alts else z3.BoolVal(False)))
    return a


class RDict(Container):
    """Dictionary as an assignment history; later assignments win."""
    kind = 'dict'
    _real = dict

    def __init__(self, pairs=(), segs=None, owned=True, default=None, base=None):
        Container.__init__(self, segs if segs is not None else [Item(p) for p in pairs], owned)
        self.default = default
        self.base = base            # object with has(k)->formula, get(k)->value

    def lookup(self, k):
        """(found: bool, value); forks."""
        for s in reversed(self.segs):
            if isinstance(s, Item):
                if truth(eq(s.v[0], k)):
                    return True, s.v[1]
            elif isinstance(s, FSeg):
                b = S.fresh('hit', BoolS)
                if S.fork(b):
                    v = arbitrary(s, lambda p: eq(p[0], k))
                    return True, v[1]
                for f in s.families:
                    c = eq(f.value[0], k)
                    c = z3.BoolVal(c) if isinstance(c, bool) else c
                    S.add_univ(f.binders, z3.Not(zand(*(guards(f.entries) + [c]))))
            elif isinstance(s, HSeg):
                b = S.fresh('hit', BoolS)
                if S.fork(b):
                    return True, UNKNOWN
            else:
                raise Unsupported('dict stretch')
        if self.base is not None:
            h = self.base.has(k)
            if truth(h):
                return True, self.base.get(k)
        return False, None

    def __getitem__(self, k):
        ok, v = self.lookup(k)
        if ok:
            return v
        if self.default is not None:
            v = self.default()
            self[k] = v
            return v
        raise KeyError(k)

    def get(self, k, d=None):
        ok, v = self.lookup(k)
        return v if ok else d

    def setdefault(self, k, d=None):
        ok, v = self.lookup(k)
        if ok:
            return v
        self[k] = d
        return d

    def __setitem__(self, k, v):
        self._mutate()
        if all(isinstance(s, Item) for s in self.segs):
            for n, s in enumerate(self.segs):
                r = eq(s.v[0], k)
                if r is True or (not isinstance(r, bool) and z3.is_true(z3.simplify(r))):
                    if not S.loopstack:
                        self.segs[n] = Item((k, v))
                        return
        self.segs.append(Item((k, v)))

    def update(self, other=None, **kw):
        if other is not None:
            if isinstance(other, (dict,)):
                for k, v in other.items():
                    self[k] = v
            elif isinstance(other, RDict):
                self._mutate()
                self.segs.extend(other.segs)
            else:
                for s in as_list(other).segs:
                    self._mutate()
                    self.segs.append(s)
        for k, v in kw.items():
            self[k] = v

    def __contains__(self, k):
        return self.lookup(k)[0]

    def copy(self):
        return RDict(segs=list(self.segs), default=self.default, base=self.base)

    def _nobase(self):
        if self.base is not None:
            if hasattr(self.base, 'segs'):
                return
            raise Unsupported('iteration over an abstract dict')

    def _pairs(self):
        self._nobase()
        segs = list(self.segs)
        # syntactically repeated keys: keep the last
        return (list(self.base.segs()) if self.base is not None else []) + segs

    def items(self):
        return RList(segs=self._pairs())

    def iteritems(self):
        return self.items()

    def keys(self):
        return map_(lambda p: p[0], RList(segs=self._pairs()))

    def values(self):
        return map_(lambda p: p[1], RList(segs=self._pairs()))

    def length(self):
        if self.concrete() and self.base is None:
            return len(self.segs)
        return SInt(S.fresh('dictlen', IntS))

    def pop(self, k, *d):
        raise Unsupported('dict.pop')


class RIter(object):
    """An iterator over an already computed list (generators are evaluated eagerly)."""

    def __init__(self, lst):
        self._lst = lst
        self.used = False
        self.vague = None
        self.first = None
        self.unordered = False

    @property
    def lst(self):
        if self.vague:
            S.taint(self.vague)
        return self._lst

    @lst.setter
    def lst(self, l):
        self._lst = l

    def take(self):
        return self.lst

    def next(self):
        segs = self.lst.segs
        if not segs:
            raise StopIteration
        if self.unordered and not self.vague:
            # of a set the code has built: any element comes first, the same one each time
            if not truth(RList(segs=segs)):
                raise StopIteration
            key = ('first', self.first)
            if key not in S.memo:
                seg = S.choose(segs, 'element') if len(segs) > 1 else segs[0]
                S.memo[key] = seg.v if isinstance(seg, Item) else arbitrary(seg)
            v = S.memo[key]
            self.lst = subbag(self.lst)
            self.vague = 'iterator of unknown order'
            return v
        if isinstance(segs[0], Item):
            v = segs[0].v
            self.lst = RList(segs=segs[1:])
            return v
        s = segs[0]
        if S.fork(s.length() == 0):
            self.lst = RList(segs=segs[1:])
            return self.next()
        r = end_of(self.lst, False)
        if r is not None and r[1] is not None:
            self.lst = RList(segs=r[1])
            return r[0]
        if s.regular:
            v = elem_at(s, z3.IntVal(0))
        elif self.first is not None:
            # the order of a set: any of its elements may come first, the same one each time
            key = ('first', self.first)
            if key not in S.memo:
                S.memo[key] = arbitrary(s)
            v = S.memo[key]
        else:
            v = arbitrary(s)
            S.taint('iterator of unknown order')
        self.lst = subbag(self.lst)
        self.vague = 'iterator of unknown order'
        return v

    def __iter__(self):
        return iter(self.lst.items())

    def __next__(self):
        return self.next()


class SRange(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def as_seg(self):
        i = S.fresh_binder('r', IntS, 'range')
        lo, hi = zint(self.lo), zint(self.hi)
        if self.step == 1:
            n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            if S.entails(hi >= lo, 1500):
                n = z3.simplify(hi - lo)
            v = lo + i
        elif self.step == -1:
            n = z3.simplify(z3.If(lo > hi, lo - hi, z3.IntVal(0)))
            v = lo - i
        else:
            raise Unsupported('range step')
        return FSeg([Family([i], [Entry('range', zand(i >= 0, i < n))], SInt(z3.simplify(v)))], (i, n))


# ====================================================================== element access

def elem_at(seg, pos):
    """Element at ``pos`` (known to be in range) of a regular stretch."""
    S.cand(pos, S.kind(seg.regular[0]))
    fams = seg.families
    if len(fams) == 1:
        entries, v = fams[0].at([pos])
        for f in fact_formulas(entries, known=True):
            S.assume(f)
        return v
    f = S.choose_one(fams, 'family')
    entries, v = f.at([pos] + [S.fresh_like('b', b) for b in f.binders[1:]])
    for e in entries:
        S.add(e.kind, e.f)
    if not S.feasible():
        raise PathEnd()
    return v


def arbitrary(seg, cond=None, tag='a', where=None, exists=False):
    """Some element of a symbolic stretch (forks over its families); its guards and facts are assumed."""
    if not seg.families:
        raise PathEnd()
    if len(seg.families) > 1 and all(not f.binders for f in seg.families):
        f = S.choose_feasible(seg.families, [zand(*guards(f.entries)) for f in seg.families], 'family')
    else:
        f = S.choose_one(seg.families, 'family')
    new, entries, v, _ = f.renamed(tag, pick=True)
    if where is not None:
        where.extend(new)
    for b in new:
        S.cand(b)
    for e in entries:
        # where it is known that there is an element, that this one is it restricts nothing
        S.add('fact' if exists else e.kind, e.f)
    if cond is not None:
        c = cond(v)
        if c is False:
            raise PathEnd()
        if c is not True:
            S.add('dec', c)
    if not S.feasible():
        raise PathEnd()
    return v


def end_of(lst, last):
    """(first or last element of a non-empty list, the other segments or None if they cannot be told); None if nothing is known."""
    segs = list(lst.segs)
    s = segs.pop(-1 if last else 0)
    glue = lambda x: segs + x if last else x + segs

    def same(make):
        # asking again gives the same element
        k = ('end', id(s), last)
        if k not in S.memo:
            S.memo[k] = (s, make())
        return S.memo[k][1]
    if isinstance(s, Item):
        return s.v, segs
    if isinstance(s, (ArrSeg, HSeg)):
        return None
    if s.sorted_by and not segs:
        from . import contracts
        key, reverse, src = s.sorted_by
        return same(lambda: contracts.extremum(src, key, bool(reverse) != last, {}, last=last)), None
    if segs and S.fork(s.length() == 0):
        return end_of(RList(segs=segs), last)
    if s.regular and len(s.families) == 1:
        n = s.regular[1]
        v = elem_at(s, z3.simplify(n - 1) if last else z3.IntVal(0))
        i = S.fresh_binder('rest', IntS, S.kind(s.regular[0]))
        entries, x = s.families[0].at([i if last else i + 1])
        entries = [Entry('range', zand(i >= 0, i < n - 1))] + [Entry('fact' if e.kind == 'range' else e.kind, e.f) for e in entries]
        return v, glue([FSeg([Family([i], entries, x)], (i, z3.simplify(n - 1)))])
    if not s.ordered or any(len(f.binders) != 1 or f.binders[0].sort() != IntS for f in s.families):
        return None

    def make():
        where = []
        v = arbitrary(s, where=where)
        rest = []
        for f in s.families:
            b = f.binders[0]
            beyond = b > where[0] if last else b < where[0]
            S.add_univ(f.binders, z3.Implies(zand(*guards(f.entries)), z3.Not(beyond)))
            rest.append(Family(f.binders, list(f.entries) + [Entry('dec', b < where[0] if last else b > where[0])], f.value))
        r = FSeg(rest)
        r.ordered = True
        return v, r
    v, r = same(make)
    return v, glue([r])


def subbag(lst):
    """A list whose elements all come from ``lst`` (sub-sequence of unknown shape)."""
    fams = []
    for s in lst.segs:
        if isinstance(s, Item):
            fams.append(Family([], [], s.v))
        elif isinstance(s, FSeg):
            fams.extend(s.families)
        else:
            raise Unsupported('slice of a havocked list')
    # membership of each element in the sub-bag is an unknown predicate of its index
    out = []
    for f in fams:
        name = S.name_for('kept')
        g = z3.Function(name, *([b.sort() for b in f.binders] + [BoolS]))(*f.binders) if f.binders else z3.Bool(name)
        out.append(Family(f.binders, list(f.entries) + [Entry('dec', g)], f.value))
    return RList(segs=[FSeg(out)])


def member(cont, x):
    """z3 formula (or bool) that holds iff ``x`` is an element.

    For symbolic stretches a fresh Boolean b is returned with:  b => some element equals x (Skolem witness), and
    not b => no element equals x (universal fact, instantiated on candidate indices)."""
    alts = []
    for s in cont.segs:
        if isinstance(s, Item):
            r = eq(s.v, x)
            if r is True:
                return True
            if r is not False:
                alts.append(r)
        elif isinstance(s, FSeg):
            b = S.fresh('in', BoolS)
            wit = []
            for f in s.families:
                c = eq(f.value, x)
                if c is False:
                    continue
                c = z3.BoolVal(True) if c is True else c
                g = zand(*(guards(f.entries) + [c]))
                nb = z3.Implies(z3.Not(b), z3.Not(g))
                S.add_univ(f.binders, nb) if f.binders else S.assume(nb)
                w = [S.fresh('w', bb.sort()) for bb in f.binders]
                for t, bb in zip(w, f.binders):
                    S.set_kind(t, S.kind(bb))
                    S.cand(t)
                entries, v = f.at(w)
                for ff in fact_formulas(entries):
                    S.assume(z3.Implies(b, ff))
                c2 = eq(v, x)
                c2 = z3.BoolVal(True) if c2 is True else c2
                wit.append(zand(*(guards(entries) + [c2])))
            S.assume(z3.Implies(b, z3.Or(*wit) if wit else z3.BoolVal(False)))
            alts.append(b)
        elif isinstance(s, HSeg):
            b = S.fresh('hin', BoolS)
            s.loop.pending_members.append((cont.oid, x, b, [t for t in S.idx[s.loop.mark:] if not t.children()]))
            alts.append(b)
        else:
            raise Unsupported('membership in an array stretch')
    base = getattr(cont, 'base', None)
    if base is not None:
        alts.append(base(x))
    if not alts:
        return False
    return z3.Or(*alts) if len(alts) > 1 else alts[0]


def truth(f):
    """Fork on a formula/bool."""
    if isinstance(f, bool):
        return f
    if isinstance(f, z3.BoolRef):
        return S.fork(f)
    return bool(f)


# ====================================================================== conversion

def as_list(x):
    """View any supported iterable as an RList (not copied if it already is one)."""
    if isinstance(x, RList):
        return x
    if isinstance(x, RIter):
        return x.lst
    if isinstance(x, RSet):
        if x.base is not None:
            raise Unsupported('iteration over an abstract set')
        return RList(segs=x.ordered())
    if isinstance(x, RDict):
        return x.keys()
    if isinstance(x, SRange):
        return RList(segs=[x.as_seg()])
    if isinstance(x, SStr):
        n = z3.Length(x.e)
        i = S.fresh_binder('c', IntS, 'chars:' + x.e.sexpr())
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < n))],
                                        SStr(z3.SubString(x.e, i, z3.IntVal(1))))], (i, n))])
    if isinstance(x, SSet):
        g = S.fresh_binder('g', StrS)
        return RList(segs=[FSeg([Family([g], [Entry('range', z3.IsMember(g, x.e))], SStr(g))])])
    if hasattr(x, '_as_list'):
        return x._as_list()
    if isinstance(x, Sym) or isinstance(x, Unknown):
        raise Unsupported('iteration over %r' % (x,))
    return RList(list(x))


# ====================================================================== the loop rule

class Loop(object):
    """Iterator driving a transformed ``for`` statement (see DESIGN.md, loop rule).

    Concrete elements are iterated natively.  For a symbolic stretch three continuations are explored in order:
      SUMMARISE  an arbitrary iteration, earlier effects unknown; ends at the back edge and records what it emitted
      ITERATE    an arbitrary iteration, earlier effects known by the summaries; continues after break/return/raise
      EXIT       all iterations done; containers hold the summarised emissions
    """
    count = 0

    def __init__(self, iterable, site, names):
        self.site = site
        self.names = names
        self.sym = False
        self.h = None
        self.mode = None
        self.pending_members = []
        self.hset = {}
        if isinstance(iterable, (list, tuple, str, range, dict, set, frozenset)) or not S.active:
            self.native = iter(iterable)
        elif isinstance(iterable, (RList, RIter, RSet, RDict, SRange, SStr, SSet)) or hasattr(iterable, '_as_list'):
            self.native = None
            src = as_list(iterable)
            self.segs = list(src.segs)
            if isinstance(iterable, RIter):
                iterable.lst = RList()
        else:
            self.native = iter(iterable)
        self.si = 0
        self.reload = None

    def __iter__(self):
        return self

    # ---------------------------------------------------------------- protocol
    def __next__(self):
        if self.native is not None:
            return next(self.native)
        if self.mode in ('SUMMARISE', 'ITERATE'):
            self._back_edge(sys._getframe(1).f_locals)
        self.sym = False
        while True:
            if self.si >= len(self.segs):
                if self.reload is not None:
                    self.sym, self.h, self.reload = True, self.reload, None
                raise StopIteration
            s = self.segs[self.si]
            if isinstance(s, Item):
                self.si += 1
                if self.reload is not None:
                    self.sym, self.h, self.reload = True, self.reload, None
                return s.v
            if isinstance(s, ArrSeg):
                i = S.fresh_binder('ai', IntS)
                s = FSeg([Family([i], [Entry('range', zand(i >= 0, i < s.n))], SInt(z3.Select(s.arr, i)))], (i, s.n))
            if isinstance(s, HSeg):
                raise Unsupported('iteration over a list that the enclosing loop is building')
            v = self._enter(s, sys._getframe(1).f_locals)
            if v is not None:
                return v[0]
            self.si += 1

    def _env(self, flocals):
        if self.reload is not None:
            return dict(zip(self.names, self.reload))
        return dict((n, flocals.get(n, UNBOUND)) for n in self.names)

    def _enter(self, seg, flocals):
        if isinstance(seg, FSeg) and not seg.families:
            return None
        env = self._env(flocals)
        self.key = (S.node, self.site, self.si)
        self.info = S.loops.get(self.key)
        if self.info is None:
            from .core import LoopInfo
            self.info = S.loops[self.key] = LoopInfo()
            # what the same loop needed elsewhere (no more than a head start)
            for k, other in S.loops.items():
                if k[1] == self.site:
                    self.info.mut |= other.mut
                    self.info.dropped |= other.dropped
        self.uid = 'L%d' % S.node
        self.entry_env = env
        self.seg = seg
        self.objs = [S.heap[o] for o in sorted(self.info.mut) if o in S.heap]
        self._check_initial()
        self.entry_n = len(S.entries)
        through = S.fresh('through', BoolS) if S.idx else None
        if through is not None:
            S.ways[through.decl().name()] = (list(S.idx), through, [through, z3.Not(through)])
        mode = S.choose(['SUMMARISE', 'ITERATE', 'EXIT'], 'loop')
        if mode == 'ITERATE' and not self.info.breaks:
            raise PathEnd()     # SUMMARISE has covered every iteration, and none of them leaves the loop
        if mode != 'SUMMARISE':
            self._body_facts()
        if through is not None and self.info.breaks and mode != 'SUMMARISE':
            # in one iteration of the enclosing loop, this loop either runs to its end or is left in the middle
            S.add('dec', through if mode == 'EXIT' else z3.Not(through))
        self.mode = mode
        self.start_clock = S.tick()
        if mode == 'SUMMARISE':
            self.info_alts_new = True
        if mode == 'EXIT':
            self._exit(env)
            return None
        # an arbitrary element
        self.entry_n = len(S.entries)
        fams = seg.families
        f = S.choose_one(fams, 'family') if mode == 'ITERATE' else S.choose(fams, 'family') if len(fams) > 1 else fams[0]
        new, entries, v, pairs = f.renamed('i', pick=(mode == 'ITERATE'))
        self.binders = new
        for b in new:
            S.cand(b)
        self.mark = len(S.idx)
        S.idx.extend(new)
        for e in entries:
            n = len(S.entries)
            S.add(e.kind, e.f)
            if len(S.entries) > n:
                S.entries[-1].known = e.known
        self.given = len(S.entries) - self.entry_n
        if not S.feasible():
            S.idx[self.mark:] = []
            raise PathEnd()
        self.regular = bool(seg.ordered) and len(new) == 1
        # havoc
        self.saved = {}
        for o in self.objs:
            self.saved[o.oid] = o.e if isinstance(o, SSet) else list(o.segs)
            self._havoc_obj(o)
        self.h = self._havoc_locals(env)
        self.reload = None
        self.sym = True
        self.univ_from = len(S.univ)
        self.derived_from = len(S.derived)
        self.outer_counts = [(L, len(L.pending_members)) for L in S.loopstack]
        S.loopstack.append(self)
        self.body_entries_from = self.entry_n
        return (v,)

    # ---------------------------------------------------------------- containers
    def note_mutation(self, obj, how='append'):
        """True if the body is found to change ``obj`` for the first time."""
        if self.mode not in ('SUMMARISE', 'ITERATE'):
            return False
        if obj.birth < self.start_clock and obj.oid not in self.info.mut:
            self.info.mut.add(obj.oid)
            return True
        if obj.birth < self.start_clock and how in ('clobber', 'set'):
            raise Unsupported('a loop rearranges a container it did not create')
        return False

    def _havoc_obj(self, o):
        if isinstance(o, SSet):
            old = self.saved[o.oid]
            o.e = S.fresh('ms', SetS)
            self.hset[o.oid] = o.e
            if self.mode == 'ITERATE':
                self._fold_facts(o.oid, old, o.e, earlier=True)
            return
        if len(o.segs) == 1 and isinstance(o.segs[0], ArrSeg):
            old = o.segs[0]
            arr = S.fresh('arr', old.arr.sort())
            o.segs = [ArrSeg(old.n, arr)]
            self._arr_invariant(o, old, arr)
            return
        if self.mode == 'SUMMARISE':
            o.segs = list(o.segs) + [HSeg(self)]
        else:
            fams = self._families(o.oid, earlier=True)
            fs = FSeg(fams)
            fs.ordered = self._emits_in_order(o.oid)
            o.segs = list(o.segs) + ([fs] if fams else [])

    def _arr_invariant(self, o, old, arr):
        """Candidate invariant: entries only grow."""
        name = ('arrmono', o.oid)
        if name in self.info.dropped:
            return
        k = z3.Const(S.name_for('k'), IntS)
        S.add_univ([k], z3.Select(arr, k) >= z3.Select(old.arr, k))

    def _families(self, oid, earlier=False):
        out = []
        for alt in self.info.alts:
            segs = alt['emit'].get(oid)
            if not segs:
                continue
            entries = list(alt['entries'])
            binders = list(alt['binders'])
            if earlier:
                # rename, and restrict to earlier iterations when the order is known
                new = [S.fresh_binder('e', b.sort(), S.kind(b)) for b in binders]
                pairs = list(zip(binders, new))
                entries = [Entry(e.kind, z3.substitute(e.f, *pairs), e.known) for e in entries]
                segs = [s.sub(pairs) for s in segs]
                binders = new
                if self.regular:
                    entries = [Entry('range', new[0] < self.binders[0])] + entries
            co = dict((k, [s.sub(pairs) for s in v] if earlier else v) for k, v in alt['emit'].items() if k != oid)
            out.extend(emission_families(segs, binders, entries, co))
        return out

    def _back_edge(self, flocals):
        mode = self.mode
        self.mode = 'DONE'
        if S.loopstack and S.loopstack[-1] is self:
            S.loopstack.pop()
        else:
            raise Unsupported('loop nesting')
        if mode == 'ITERATE':
            self._check_inductive(flocals)
            raise PathEnd()
        emit, fold = {}, {}
        for o in self.objs:
            if isinstance(o, SSet):
                fold[o.oid] = set_updates(o.e, self.hset[o.oid])
                continue
            base = self.saved[o.oid]
            if len(o.segs) == 1 and isinstance(o.segs[0], ArrSeg):
                continue
            n = len(base)
            if len(o.segs) <= n or not isinstance(o.segs[n], HSeg) or any(a is not b for a, b in zip(base, o.segs)):
                raise Unsupported('a loop rearranges a container it did not create')
            emit[o.oid] = list(o.segs[n + 1:])
        entries = S.entries[self.body_entries_from:]
        local, flags = {}, {}
        for n, hv in zip(self.names, self.h):
            v = flocals.get(n, UNBOUND)
            if isinstance(hv, SBool) and isinstance(v, (SBool, bool)):
                flags[n] = (hv.e, zbool(v))
            if v is not hv:
                local[n] = v
            if n in self.hset and isinstance(v, (SSet, RSet)):
                fold[n] = set_updates(zset(v), self.hset[n])
        self._check_inductive(flocals)
        self.info.alts.append(dict(binders=list(self.binders), given=self.given, own=list(entries),
                                   entries=[Entry(e.kind, e.f, e.kind == 'fact') for e in entries], emit=emit, locals=local, fold=fold, flags=flags,
                                   members=list(self.pending_members),
                                   univ=[(bs, f, n - self.body_entries_from) for (bs, f), n in
                                         zip(S.univ[self.univ_from:], S.univ_at[self.univ_from:])], derived=S.derived[self.derived_from:],
                                   outer=[(L.key, L.pending_members[n:]) for L, n in self.outer_counts]))
        raise PathEnd()

    def brk(self):
        """break / return / exception leaves the loop from inside an iteration."""
        if self.mode == 'SUMMARISE':
            self.info.breaks.append((list(self.binders), list(S.entries[self.body_entries_from:])))
            self.info.break_members.append(list(self.pending_members))
            self.info.break_given.append(self.given)
            raise PathEnd()
        if self.mode == 'ITERATE':
            self.mode = 'DONE'
            if S.loopstack and S.loopstack[-1] is self:
                S.loopstack.pop()
            S.idx[self.mark:] = []
            # no earlier iteration left the loop
            if self.regular:
                for binders, entries in self.info.breaks:
                    S.add_univ(binders, z3.Implies(binders[0] < self.binders[0],
                                                   z3.Not(zand(*guards(entries)))))
                # the tests of earlier iterations against what had been added before them
                for o in self.objs:
                    if not isinstance(o, SSet) and any(m[0] == o.oid for _, ms in self._tests() for m in ms):
                        self._link_members(o, FSeg(self._families(o.oid)))

    def exc(self):
        """An exception leaves the loop; one raised by the engine itself is not a behaviour of the code."""
        if self.mode == 'SUMMARISE':
            from .proofapi import classify
            ex = sys.exc_info()[1]
            if classify(ex) == 'unsupported':
                raise Unsupported('engine: %r' % (ex,))
        self.brk()

    def _exit(self, env):
        regular = bool(self.seg.regular)
        idxb, n = self.seg.regular if regular else (None, None)
        for o in self.objs:
            if isinstance(o, SSet):
                old, o.e = o.e, S.fresh('ms', SetS)
                self._fold_facts(o.oid, old, o.e)
                continue
            if len(o.segs) == 1 and isinstance(o.segs[0], ArrSeg):
                self._havoc_obj(o)
                continue
            fams = self._families(o.oid)
            if not fams:
                continue
            reg = None
            if regular and all(len(a['emit'].get(o.oid, ())) == 1 and isinstance(a['emit'][o.oid][0], Item) and
                               len(a['binders']) == 1 for a in self.info.alts) and not self.info.breaks:
                reg = (fams[0].binders[0], n)
                if len(fams) == 1:
                    pass
            fs = FSeg(fams, reg, key=(self.key, o.oid))
            fs.ordered = fs.ordered or self._emits_in_order(o.oid)
            o.segs = list(o.segs) + [fs]
            self._link_members(o, fs)
        for alt in self.info.alts:
            # tests made by the summarised iterations against what an enclosing loop has built so far
            for key, tests in alt.get('outer', ()):
                for L in S.loopstack:
                    if L.key == key:
                        L.pending_members.extend(tests)
        for binders, entries in self.info.breaks:
            S.add_univ(binders, z3.Not(zand(*guards(entries))))
        self.reload = self._exit_locals(env)
        for n, v in zip(self.names, self.reload):
            if isinstance(env[n], (SBool, bool)) and ('assigned', n) in self.info.dropped:
                self._flag_facts(n, zbool(env[n]), zbool(v), [], None)
                if self.seg.ordered:
                    for a in self.info.alts:
                        h = a['flags'].get(n)
                        if h is not None and len(a['binders']) == 1:
                            self._flag_facts(n, zbool(env[n]), h[0], list(a['binders']), a['binders'][0])
        self.mode = 'DONE'

    def _emits_in_order(self, oid):
        """At most one element per iteration, and the iterations are ordered."""
        return bool(self.seg.ordered) and all(
            len(a['binders']) == 1 and (not a['emit'].get(oid) or
                                        (len(a['emit'][oid]) == 1 and isinstance(a['emit'][oid][0], Item)))
            for a in self.info.alts)

    def _body_facts(self):
        """What every iteration that got that far knows."""
        seen = set()
        for binders, entries in [(a['binders'], a['own']) for a in self.info.alts] + self.info.breaks:
            for f in fact_formulas(entries):
                if f.get_id() not in seen:
                    seen.add(f.get_id())
                    S.memo.setdefault('keepf', []).append(f)
                    S.add_univ(binders, f)
        # what was known about the parts of an iteration
        for alt in self.info.alts:
            for bs, f, n in alt['univ']:
                S.add_univ(list(alt['binders']) + list(bs), z3.Implies(zand(*guards(alt['entries'][:n])), f))
            S.derived.extend(alt['derived'])
        # every iteration follows one of the alternatives (the rest of the guards says so by itself)
        ways = {}
        for binders, entries, n in ([(a['binders'], a['entries'], a['given']) for a in self.info.alts] +
                                    [(b, es, n) for (b, es), n in zip(self.info.breaks, self.info.break_given)]):
            ways.setdefault(tuple(b.get_id() for b in binders), []).append((binders, guards(entries[:n]), guards(entries[n:])))
        for alts in ways.values():
            if any(is_way(f) for _, _, gs in alts for f in gs):
                S.add_univ(alts[0][0], z3.Implies(zand(*alts[0][1]), z3.Or(*[zand(*gs) for _, _, gs in alts])))

    def _tests(self):
        out, seen = [], set()
        for binders, ms in ([(a['binders'], a['members']) for a in self.info.alts] +
                            [(b[0], ms) for b, ms in zip(self.info.breaks, self.info.break_members)]):
            new = [m for m in ms if m[2].get_id() not in seen]
            seen.update(m[2].get_id() for m in new)
            out.append((binders, new))
        return out

    def _link_members(self, o, fs):
        """Membership tests made by the summarised iterations: true means an element present at the end."""
        for binders, tests in self._tests():
            for oid, x, b, mb in tests:
                if oid != o.oid or not isinstance(o, (RSet, RList)):
                    continue
                # for every iteration: b(i) => x(i) equals an element emitted by an (earlier) iteration
                ordered = bool(self.seg.ordered) and len(binders) == 1 and bool(mb)
                same = lambda v: True if x is ANY else eq(v, x)
                wit = []
                ants = []
                for f in fs.families:
                    if same(f.value) is False:
                        continue
                    args = list(S.idx) + list(mb)
                    w = [z3.Function(S.name_for('mw'), *([bb.sort() for bb in args] + [fb.sort()]))(*args)
                         for fb in f.binders]
                    for t, fb in zip(w, f.binders):
                        S.set_kind(t, S.kind(fb))
                    if w:
                        S.derived.append((args, w))
                    entries, v = f.at(w)
                    c = same(v)
                    c = z3.BoolVal(c) if isinstance(c, bool) else c
                    g = guards(entries) + [c]
                    if ordered:
                        g.append(w[0] < mb[0])
                    wit.append(zand(*g))
                    ants.extend(fact_formulas(entries))
                    if ordered:
                        # conversely an element emitted by an earlier iteration makes the test true
                        new, es, v2, _ = f.renamed('cv')
                        c = same(v2)
                        c = z3.BoolVal(c) if isinstance(c, bool) else c
                        S.add_univ(list(mb) + new,
                                   z3.Implies(zand(*([new[0] < mb[0], c] + guards(es))), b))
                S.add_univ(mb, z3.Implies(b, zand(z3.Or(*wit) if wit else z3.BoolVal(False), *ants)))

    # ---------------------------------------------------------------- flags
    def _flag_facts(self, name, old, new, mb, before):
        """``new`` is the value of a flag after all iterations (or those before index ``before``): a change has an iteration
        that made it, and if the flag only goes up (down) the last value is at least (at most) that of every iteration."""
        alts = [(a, a['flags'][name]) for a in self.info.alts if name in a['flags']]
        for a, (h, v) in alts:
            if before is not None and len(a['binders']) != 1:
                return
        outer = [x for x in S.idx if not any(x.eq(y) for y in mb)]
        wits = {True: [], False: []}
        facts = []
        for a, (h, v) in alts:
            bs = list(a['binders'])
            ren = [S.fresh_binder('e', b.sort(), S.kind(b)) for b in bs]
            pairs = list(zip(bs, ren))
            g = [z3.substitute(q, *pairs) for q in guards(a['entries'])]
            if before is not None:
                g.append(ren[0] < before)
            h2, v2 = z3.substitute(h, *pairs), z3.substitute(v, *pairs)
            if ('up', name) not in self.info.dropped:
                S.add_univ(mb + ren, z3.Implies(zand(*(g + [z3.Or(h2, v2)])), new))
            if ('down', name) not in self.info.dropped:
                S.add_univ(mb + ren, z3.Implies(zand(*(g + [z3.Not(z3.And(h2, v2))])), z3.Not(new)))
            args = outer + mb
            w = [z3.Function(S.name_for('gw'), *([t.sort() for t in args] + [b.sort()]))(*args) if args else
                 z3.Const(S.name_for('gw'), b.sort()) for b in bs]
            for t, b in zip(w, bs):
                S.set_kind(t, S.kind(b))
                if not mb:
                    S.cand(t)
            if mb:
                S.derived.append((args, w))
            pairs = list(zip(bs, w))
            sub = lambda q: z3.substitute(q, *pairs)
            gw = [sub(q) for q in guards(a['entries'])] + ([w[0] < before] if before is not None else [])
            wits[True].append(zand(*(gw + [z3.Not(sub(h)), sub(v)])))
            wits[False].append(zand(*(gw + [sub(h), z3.Not(sub(v))])))
            facts += [sub(q) for q in fact_formulas(a['entries'])]
        for up in (True, False):
            ch = z3.And(z3.Not(old), new) if up else z3.And(old, z3.Not(new))
            f = z3.Implies(ch, zand(z3.Or(*wits[up]) if wits[up] else z3.BoolVal(False), *facts))
            S.add_univ(mb, f) if mb else S.assume(f)

    # ---------------------------------------------------------------- folds of string sets
    def _fold_facts(self, key, old, new, earlier=False):
        """``new`` is ``old`` after (earlier) iterations that only add to it, or only remove from it."""
        alts = [(a, a['fold'].get(key)) for a in self.info.alts]
        if any(f is None and key in a['fold'] for a, f in alts):
            return
        alts = [(a, f) for a, f in alts if f]
        ops = set(op for _, f in alts for op, _ in f)
        if len(ops) > 1:
            return
        add = ops != set(['-'])
        x = z3.Const(S.name_for('sx'), StrS)
        mem = lambda s: z3.IsMember(x, s)
        # nothing else changes
        S.add_univ([x], z3.Implies(mem(old), mem(new)) if add else z3.Implies(mem(new), mem(old)))
        if not ops:
            S.assume(new == old)
            return
        wits = []
        for a, f in alts:
            bs = list(a['binders'])
            fs = [s for _, s in f]
            inside = lambda sets: z3.Or(*[mem(s) for s in sets])
            g = guards(a['entries'])
            if not earlier or self.regular:
                order = []
                if earlier:
                    bs2 = [S.fresh_binder('e', b.sort(), S.kind(b)) for b in bs]
                    pairs = list(zip(bs, bs2))
                    order = [bs2[0] < self.binders[0]]
                else:
                    bs2, pairs = bs, []
                g2 = [z3.substitute(q, *pairs) for q in g]
                fs2 = [z3.substitute(s, *pairs) for s in fs]
                S.add_univ(bs2 + [x], z3.Implies(zand(*(order + g2 + [inside(fs2)])), mem(new) if add else z3.Not(mem(new))))
            args = list(S.idx) + [x]
            w = [z3.Function(S.name_for('fw'), *([t.sort() for t in args] + [b.sort()]))(*args) for b in bs]
            for t, b in zip(w, bs):
                S.set_kind(t, S.kind(b))
            S.derived.append((args, w))
            pairs = list(zip(bs, w))
            sub = lambda q: z3.substitute(q, *pairs)
            changed = z3.And(mem(new), z3.Not(mem(old))) if add else z3.And(mem(old), z3.Not(mem(new)))
            wits.append(zand(*([sub(q) for q in g] + [inside([sub(s) for s in fs])] +
                               ([w[0] < self.binders[0]] if earlier and self.regular else []))))
            for q in fact_formulas(a['entries']):
                S.add_univ([x], z3.Implies(changed, sub(q)))
        S.add_univ([x], z3.Implies(changed, z3.Or(*wits)))

    # ---------------------------------------------------------------- locals
    def _typed(self, v):
        if isinstance(v, (SBool, bool)):
            return 'bool'
        if isinstance(v, (SInt, int)):
            return 'int'
        if isinstance(v, (SReal, float)):
            return 'real'
        if isinstance(v, (SStr, str)):
            return 'str'
        if isinstance(v, SSet):
            return 'set'
        return None

    def _fresh_typed(self, t, name, like=None):
        if t == 'bool':
            return SBool(S.fresh(name, BoolS))
        if t == 'int':
            return SInt(S.fresh(name, IntS))
        if t == 'real':
            return SReal(S.fresh(name, RealS))
        if t == 'str':
            return SStr(S.fresh(name, StrS))
        if t == 'set':
            return SSet(S.fresh(name, SetS), like.mutable)

    def _candidates(self, name, entry, cur, env):
        """(id, formula) candidate invariants for one loop-carried scalar."""
        t = self._typed(entry)
        out = []
        try:
            e = eq(cur, entry)
        except Unsupported:
            e = False
        out.append((('eq', name), e))
        if t in ('int', 'real') and self._typed(cur) in ('int', 'real'):
            z = zreal if (t == 'real' or self._typed(cur) == 'real') else zint
            out.append((('ge', name), z(cur) >= z(entry)))
            out.append((('le', name), z(cur) <= z(entry)))
            out.append((('nonneg', name), z(cur) >= 0))
        if t == 'bool':
            out.append((('up', name), z3.Implies(zbool(entry), zbool(cur))))
            out.append((('down', name), z3.Implies(zbool(cur), zbool(entry))))
        for gen in S.extra_invariants:
            for cid, f in gen(self, name, entry, cur, env):
                out.append(((cid, name), f))
        return out

    def _havoc_locals(self, env):
        vals = []
        cur_env = dict(env)
        for n in self.names:
            v = env[n]
            if v is UNBOUND:
                vals.append(UNBOUND)
                continue
            t = self._typed(v)
            if t is None:
                vals.append(self._choice(n, v))
            elif ('assigned', n) in self.info.dropped:
                vals.append(self._fresh_typed(t, n, v))
                if t == 'set':
                    self.hset[n] = vals[-1].e
                    if self.mode == 'ITERATE':
                        self._fold_facts(n, v.e, vals[-1].e, earlier=True)
            else:
                vals.append(v)        # first attempt: the loop does not change it
            cur_env[n] = vals[-1]
        for n, v in zip(self.names, vals):
            entry = env[n]
            if entry is UNBOUND or self._typed(entry) is None or v is entry:
                continue
            for cid, f in self._candidates(n, entry, v, cur_env):
                if cid not in self.info.dropped and f is not False:
                    S.assume(f if not isinstance(f, bool) else z3.BoolVal(f))
        return vals

    def _choice(self, n, entry):
        """Loop-carried value that is not a scalar: the entry value or a value assigned by an earlier iteration."""
        if ('assigned', n) not in self.info.dropped:
            return entry
        if self.mode == 'SUMMARISE':
            return UNKNOWN
        fams = []
        for a in self.info.alts:
            if n in a['locals']:
                v = a['locals'][n]
                if v is UNBOUND:
                    continue
                if v is UNKNOWN:
                    continue
                fams.append(Family(a['binders'], a['entries'], v))
        if not fams:
            return entry
        if S.choose_one([False, True], 'carried'):
            return entry
        return arbitrary(FSeg(fams))

    def _exit_locals(self, env):
        vals = []
        for n in self.names:
            v = env[n]
            if v is UNBOUND or self._typed(v) is None:
                if v is UNBOUND:
                    # assigned by the last iteration, if there was one
                    fams = [Family(a['binders'], a['entries'], a['locals'][n]) for a in self.info.alts
                            if n in a['locals'] and a['locals'][n] is not UNBOUND]
                    vals.append(LazyLast(fams) if fams else UNBOUND)
                elif isinstance(v, LazyLast) and ('assigned', n) in self.info.dropped:
                    vals.append(v)      # of an earlier loop or of this one: unusable either way
                else:
                    vals.append(self._choice(n, v))
            elif ('assigned', n) in self.info.dropped:
                vals.append(self._fresh_typed(self._typed(v), n, v))
                if self._typed(v) == 'set':
                    self._fold_facts(n, v.e, vals[-1].e)
            else:
                vals.append(v)
        cur_env = dict(zip(self.names, vals))
        for n, v in zip(self.names, vals):
            entry = env[n]
            if entry is UNBOUND or self._typed(entry) is None or v is entry:
                continue
            for cid, f in self._candidates(n, entry, v, cur_env):
                if cid not in self.info.dropped and f is not False:
                    S.assume(f if not isinstance(f, bool) else z3.BoolVal(f))
        return vals

    def _check_initial(self):
        for n in self.names:
            e = self.entry_env[n]
            if e is UNBOUND or self._typed(e) is None or ('assigned', n) not in self.info.dropped:
                continue
            for cid, f in self._candidates(n, e, e, self.entry_env):
                if cid not in self.info.dropped and not S.entails(f):
                    self.info.dropped.add(cid)
                    raise Restart()

    def _check_inductive(self, flocals):
        again = False
        for n, hv in zip(self.names, self.h):
            e = self.entry_env[n]
            if e is UNBOUND:
                continue
            v = flocals.get(n, UNBOUND)
            t = self._typed(e)
            if ('assigned', n) not in self.info.dropped:
                if v is not e and not (t is not None and self._same(v, e)):
                    self.info.dropped.add(('assigned', n))
                    again = True
                    if t == 'bool' and e is False and v is True:
                        self.info.dropped |= set([('eq', n), ('down', n)])
                continue
            if t is None:
                continue
            if self._typed(v) != t and not (t in ('int', 'real') and self._typed(v) in ('int', 'real')):
                raise Unsupported('loop-carried variable %s changes its type' % n)
            if t == 'int' and self._typed(v) == 'real':
                raise Unsupported('loop-carried variable %s changes its type' % n)
            for cid, f in self._candidates(n, e, v, flocals):
                if cid in self.info.dropped:
                    continue
                if not S.entails(f, 1500):
                    self.info.dropped.add(cid)
                    again = True
        for o in self.objs:
            if not isinstance(o, SSet) and len(o.segs) == 1 and isinstance(o.segs[0], ArrSeg):
                name = ('arrmono', o.oid)
                if name in self.info.dropped:
                    continue
                k = S.fresh_binder('k', IntS)
                S.cand(k)
                old = self.saved[o.oid][0]
                if not S.entails(z3.Select(o.segs[0].arr, k) >= z3.Select(old.arr, k)):
                    self.info.dropped.add(name)
                    again = True
        if again:
            raise Restart()

    @staticmethod
    def _same(a, b):
        r = eq(a, b)
        return r is True or (not isinstance(r, bool) and z3.is_true(z3.simplify(r)))


def set_updates(e, h):
    """[('+', s) | ('-', s)] such that e is h with these additions / removals, or None."""
    out = []
    while not e.eq(h):
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_SET_DIFFERENCE:
            out.append(('-', e.arg(1)))
            e = e.arg(0)
        elif k == z3.Z3_OP_SET_UNION and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if not mentions(a, h):
                a, b = b, a
            if mentions(b, h):
                return None
            out.append(('+', b))
            e = a
        elif k == z3.Z3_OP_STORE:
            v = z3.simplify(e.arg(2))
            one = z3.SetAdd(z3.EmptySet(StrS), e.arg(1))
            if z3.is_true(v):
                out.append(('+', one))
            elif z3.is_false(v):
                out.append(('-', one))
            else:
                return None
            e = e.arg(0)
        else:
            return None
    return out if all(not mentions(s, h) for _, s in out) else None


def mentions(e, h):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.eq(h):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return False


class LazyLast(object):
    """Variable first assigned inside a loop, read after it: resolved on use (rare)."""

    def __init__(self, fams):
        self.fams = fams

    def __getattr__(self, n):
        if n.startswith('__') or n in ('_eq', '_subst', '_truth', '_as_zset', '_as_list'):
            raise AttributeError(n)
        raise Unsupported('variable assigned only inside a loop used after it')


def loop(iterable, site, names):
    return Loop(iterable, site, names)


# ====================================================================== comprehension / generator support

def newlist(items=()):
    return RList(items) if S.active else list(items)


def newset(items=()):
    if not S.active:
        return set(items)
    items = list(items)
    if items and all(isinstance(x, str) for x in items):
        return RSet(items)
    return RSet(items)


def newdict(pairs=()):
    if S.active and not pairs and S.memo.get('empty_dict'):
        # a proof that stands for the one empty dict a function makes
        return S.memo['empty_dict']()
    return RDict(pairs) if S.active else dict(pairs)


def gen(acc):
    return RIter(acc) if isinstance(acc, RList) else iter(acc)


# ====================================================================== operators

_BIN = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
    '//': lambda a, b: a // b, '%': lambda a, b: a % b, '|': lambda a, b: a | b, '&': lambda a, b: a & b,
    '^': lambda a, b: a ^ b, '**': lambda a, b: a ** b, '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b,
    '@': lambda a, b: a @ b,
}


def format_value(x, spec):
    if S.active:
        from . import contracts
        return contracts.format_value(x, spec)
    return format(x, spec)


def has_sym(v):
    if isinstance(v, (Sym, Container, RIter)):
        return True
    if isinstance(v, (tuple, list)):
        return any(has_sym(x) for x in v)
    if isinstance(v, dict):
        return any(has_sym(x) for x in v.values())
    return hasattr(v, '_symbolic')


def binop(op, a, b):
    if S.active:
        if op == '%' and isinstance(a, str) and has_sym(b):
            from . import contracts
            return contracts.str_mod(a, b)
        if op == '+' and isinstance(a, list) and isinstance(b, RList):
            return as_list(a) + b
        if op == '+' and isinstance(a, tuple) and isinstance(b, RTuple):
            return b.__radd__(a)
        if op == '*' and isinstance(a, list) and isinstance(b, SInt):
            return as_list(a) * b
    return _BIN[op](a, b)


def ibinop(op, a, b):
    if S.active and op == '+' and isinstance(a, list) and isinstance(b, (RList, RIter)):
        raise Unsupported('in-place extension of a native list')
    if op == '+' and isinstance(a, (RList,)) and not isinstance(a, RTuple):
        a.extend(b)
        return a
    if op == '+' and isinstance(a, list):
        a += b
        return a
    if op == '|' and isinstance(a, RSet):
        a.update(b)
        return a
    if op == '-' and isinstance(a, RSet):
        return binop('-', a, b)
    if op == '|' and getattr(a, '_symbolic', False) and hasattr(type(a), '__ior__'):
        return a.__ior__(b)
    if isinstance(a, SSet) and a.mutable and op in '|-&^':
        r = zset(binop(op, a, b))
        a._own()
        a.e = r
        return a
    return binop(op, a, b)


def cmp(op, a, b):
    if not S.active:
        return _native_cmp(op, a, b)
    if op == 'is':
        return a is b
    if op == 'is not':
        return a is not b
    if op in ('in', 'not in'):
        r = contains(b, a)
        if op == 'in':
            return r if isinstance(r, (bool, SBool)) else SBool(r)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(zbool(r)))
    if op in ('==', '!='):
        if isinstance(a, (Sym, Container, tuple)) or isinstance(b, (Sym, Container, tuple)):
            if _uses_dunder(a) or _uses_dunder(b):
                return _native_cmp(op, a, b)
            r = eq(a, b)
            if op == '==':
                return r if isinstance(r, bool) else SBool(r)
            return (not r) if isinstance(r, bool) else SBool(z3.Not(r))
        return _native_cmp(op, a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, RSet):
        return _native_cmp(op, a, SSet(zset(b)))
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return _native_cmp(op, SInt(zint(a)), SInt(zint(b)))
    if isinstance(a, str) and isinstance(b, SStr):
        a = SStr(str_val(a))
    if isinstance(a, tuple) and isinstance(b, tuple) and (has_sym(a) or has_sym(b)):
        from . import contracts
        return contracts.tuple_cmp(op, a, b)
    return _native_cmp(op, a, b)


def _uses_dunder(a):
    return False


def _native_cmp(op, a, b):
    if op == '==': return a == b
    if op == '!=': return a != b
    if op == '<': return a < b
    if op == '<=': return a <= b
    if op == '>': return a > b
    if op == '>=': return a >= b
    if op == 'in': return a in b
    if op == 'not in': return a not in b
    if op == 'is': return a is b
    return a is not b


def contains(cont, x):
    """bool or z3 formula"""
    if hasattr(cont, '_contains'):
        return cont._contains(x)
    if isinstance(cont, (RList, RSet)):
        return cont.member(x)
    if isinstance(cont, RDict):
        return cont.lookup(x)[0]
    if isinstance(cont, SSet):
        return cont.member(x)
    if isinstance(cont, SStr):
        return z3.Contains(cont.e, zstr(x))
    if isinstance(cont, str) and isinstance(x, SStr):
        return z3.Contains(str_val(cont), x.e)
    if isinstance(cont, RIter):
        return cont.lst.member(x)
    if isinstance(cont, (tuple, list, set, frozenset, dict)) and (has_sym(x) or (isinstance(cont, (tuple, list)) and has_sym(cont))):
        keys = sorted(cont) if isinstance(cont, (set, frozenset)) else list(cont)
        rs = [eq(k, x) for k in keys]
        if any(r is True for r in rs):
            return True
        rs = [r for r in rs if r is not False]
        return z3.Or(*rs) if rs else False
    return x in cont


def getitem(o, i):
    if S.active:
        if isinstance(o, str) and has_sym_slice(i):
            return SStr(str_val(o))[i]
        if isinstance(o, (tuple, list)) and isinstance(i, SInt):
            e = z3.simplify(i.e)
            if z3.is_int_value(e):
                return o[e.as_long()]
            n = len(o)
            for k in range(n):
                if S.fork(z3.Or(i.e == k, i.e == k - n)):
                    return o[k]
            raise IndexError('index out of range')
        if isinstance(o, dict) and has_sym(i):
            for k in o:
                if truth(eq(k, i)):
                    return o[k]
            if hasattr(o, '__missing__'):
                raise Unsupported('default entry of a native dict')
            raise KeyError(i)
    return o[i]


def has_sym_slice(i):
    if isinstance(i, slice):
        return is_sym(i.start) or is_sym(i.stop)
    return is_sym(i)


def setitem(o, i, v):
    if S.active and isinstance(o, (list, dict)):
        S.writes.append(('native ' + type(o).__name__, id(o)))
        if has_sym(i):
            raise Unsupported('symbolic key stored in a native container')
    o[i] = v


def delitem(o, i):
    if isinstance(o, RList):
        if isinstance(i, slice) and i.start is None and i.stop is None:
            o.clear()
            return
        raise Unsupported('del of list items')
    if isinstance(o, Container):
        raise Unsupported('del')
    del o[i]


def setattr_(o, name, v):
    if S.active:
        hook = getattr(type(o), '_on_setattr', None)
        if hook is not None:
            hook(o, name, v)
        elif id(o) in S.memo.get('shared', ()):
            S.writes.append(('attribute', '%s.%s' % (type(o).__name__, name)))
    setattr(o, name, v)


# ====================================================================== builtins

class TypeProxy(object):
    """Stands for a builtin type inside transformed modules."""

    def __init__(self, real, fn):
        self.real = real
        self.fn = fn
        self.__name__ = real.__name__

    def __mro_entries__(self, bases):
        return (self.real,)

    def __eq__(self, o):
        return o is self or o is self.real

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.real)

    def __call__(self, *a, **k):
        if not S.active:
            return self.real(*a, **k)
        return self.fn(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __repr__(self):
        return '<proxy %s>' % self.real.__name__


def _mk_list(it=None):
    if it is None:
        return RList()
    return RList(segs=list(as_list(it).segs))


def _mk_tuple(it=()):
    if isinstance(it, tuple):
        return it
    l = as_list(it)
    if l.concrete():
        return tuple(l.items())
    if isinstance(l, RTuple):
        return l
    return RTuple(segs=list(l.segs))


def _mk_set(it=None):
    if it is None:
        return RSet()
    if isinstance(it, SSet):
        return SSet(it.e, mutable=True)
    if isinstance(it, RSet):
        return it.copy()
    l = as_list(it)
    return RSet(segs=list(l.segs))


def _mk_frozenset(it=None):
    if it is None:
        return frozenset()
    if isinstance(it, SSet):
        return SSet(it.e)
    l = as_list(it) if not isinstance(it, RSet) else it
    if l.concrete() and not any(has_sym(s.v) for s in l.segs):
        return frozenset(s.v for s in l.segs)
    r = l if isinstance(l, RSet) else RSet(segs=list(l.segs))
    return SSet(zset(r))


def _mk_dict(it=None, **kw):
    d = RDict()
    if it is not None:
        if isinstance(it, dict):
            d.segs = [Item((k, v)) for k, v in it.items()]
        elif isinstance(it, RDict):
            d = it.copy()
        else:
            d.segs = list(as_list(it).segs)
    for k, v in kw.items():
        d[k] = v
    return d


def _mk_str(x='', *a):
    if isinstance(x, (SStr, str)):
        return x
    if hasattr(x, '_str_'):
        return x._str_()
    if isinstance(x, SInt):
        return SStr(z3.IntToStr(x.e))
    if is_sym(x):
        raise Unsupported('str() of %r' % x)
    if has_sym(x):
        raise Unsupported('str() of a symbolic container')
    r = str.__call__(x) if False else type(x).__str__(x)
    return r


def _mk_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(zint(x))
    if isinstance(x, SReal):
        from . import contracts
        return contracts.real_to_int(x)
    if isinstance(x, SStr):
        from . import contracts
        return contracts.int_of_str(x)
    return int(x, *a)


def _mk_float(x=0.0):
    if isinstance(x, SReal):
        return x
    if isinstance(x, (SInt, SBool)):
        return SReal(zreal(x))
    if isinstance(x, SStr):
        from . import contracts
        return contracts.float_of_str(x)
    return float(x)


def _mk_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, (Sym, Container)) or hasattr(x, '_truth'):
        return SBool(zbool(x))
    return bool(x)


list_ = TypeProxy(list, _mk_list)
tuple_ = TypeProxy(tuple, _mk_tuple)
set_ = TypeProxy(set, _mk_set)
frozenset_ = TypeProxy(frozenset, _mk_frozenset)
dict_ = TypeProxy(dict, _mk_dict)
str_ = TypeProxy(str, _mk_str)
int_ = TypeProxy(int, _mk_int)
float_ = TypeProxy(float, _mk_float)
bool_ = TypeProxy(bool, _mk_bool)


def len_(x):
    if hasattr(x, '_len_'):
        return x._len_()
    if isinstance(x, SStr):
        return x.length()
    if isinstance(x, Container):
        return x.length()
    if isinstance(x, SSet):
        n = card(x.e)
        S.assume(n >= 0)
        S.assume((n == 0) == (x.e == z3.EmptySet(StrS)))
        return SInt(n)
    if isinstance(x, SRange):
        return SInt(x.as_seg().regular[1])
    if isinstance(x, Unknown):
        x._bad()
    if type(x).__len__ is not None and not isinstance(x, (str, list, tuple, dict, set, frozenset, bytes)):
        return type(x).__len__(x)
    return len(x)


def card(e):
    """Size of a set built from other sets, by the sizes of their intersections (inclusion and exclusion)."""
    atoms = []

    def inside(t):
        k = t.decl().kind() if z3.is_app(t) else None
        if k in (z3.Z3_OP_SET_UNION, z3.Z3_OP_SET_INTERSECT, z3.Z3_OP_SET_DIFFERENCE, z3.Z3_OP_SET_COMPLEMENT):
            args = [inside(c) for c in t.children()]
            if k == z3.Z3_OP_SET_UNION:
                return lambda r: any(a(r) for a in args)
            if k == z3.Z3_OP_SET_INTERSECT:
                return lambda r: all(a(r) for a in args)
            if k == z3.Z3_OP_SET_COMPLEMENT:
                return lambda r: not args[0](r)
            return lambda r: args[0](r) and not any(a(r) for a in args[1:])
        if k == z3.Z3_OP_ARRAY_MAP:
            op = z3.get_map_func(t).kind()
            args = [inside(c) for c in t.children()]
            if op == z3.Z3_OP_AND:
                return lambda r: all(a(r) for a in args)
            if op == z3.Z3_OP_OR:
                return lambda r: any(a(r) for a in args)
            if op == z3.Z3_OP_NOT:
                return lambda r: not args[0](r)
        for i, a in enumerate(atoms):
            if a.eq(t):
                break
        else:
            i = len(atoms)
            atoms.append(t)
        return lambda r: i in r
    f = inside(e)
    n = len(atoms)
    if n == 1 and f({0}) and not f(set()) or n > 4 or f(set()):
        return U_card(e)
    order = sorted(range(n), key=lambda i: atoms[i].sexpr())

    def both(js):
        js = [i for i in order if i in js]
        t = atoms[js[0]]
        for i in js[1:]:
            t = z3.SetIntersect(t, atoms[i])
        c = U_card(t)
        S.assume(c >= 0)
        S.assume((c == 0) == (t == z3.EmptySet(StrS)))
        return c
    coeff = {}
    for m in range(1, 2 ** n):
        pos = frozenset(i for i in range(n) if m >> i & 1)
        if not f(pos):
            continue
        for m2 in range(2 ** n):
            if m2 & m == m:
                js = frozenset(i for i in range(n) if m2 >> i & 1)
                coeff[js] = coeff.get(js, 0) + (-1) ** len(js - pos)
    r = z3.Sum([z3.IntVal(c) * both(js) for js, c in sorted(coeff.items(), key=lambda x: sorted(x[0])) if c] + [z3.IntVal(0)])
    return r


def range_(*a):
    if not any(is_sym(x) for x in a):
        return range(*a)
    a = [z if not isinstance(z, SInt) or not z3.is_int_value(z3.simplify(z.e)) else z3.simplify(z.e).as_long() for z in a]
    if not any(is_sym(x) for x in a):
        return range(*a)
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(a[0], a[1])
    return SRange(a[0], a[1], a[2])


def isinstance_(x, cls):
    if isinstance(cls, TypeProxy):
        cls = cls.real
    if isinstance(cls, tuple):
        return any(isinstance_(x, c) for c in cls)
    hook = getattr(x, '_isinstance', None)
    if hook is not None:
        return hook(cls)
    if isinstance(x, SStr):
        return issubclass(str, cls)
    if isinstance(x, SInt):
        return issubclass(int, cls)
    if isinstance(x, SBool):
        return issubclass(bool, cls)
    if isinstance(x, SReal):
        return issubclass(float, cls)
    if isinstance(x, SSet):
        return issubclass(frozenset, cls) or issubclass(set, cls)
    if isinstance(x, Container):
        return issubclass(x._real, cls)
    return isinstance(x, cls)


def _map_segs(fn, lst, site):
    """Map through the loop rule."""
    out = RList()
    L = Loop(lst, ('map', site), ())
    for v in L:
        out.append(fn(v))
    return out


_SITE = [0]


def map_(fn, *its):
    if not S.active:
        return map(fn, *its)
    lst = as_list(its[0]) if len(its) == 1 else zip_(*its)
    if lst.concrete():
        return RList([fn(s.v) if len(its) == 1 else fn(*s.v) for s in lst.segs])
    out = RList()
    L = Loop(lst, ('map', S.node, S.k), ())
    for v in L:
        out.append(fn(v) if len(its) == 1 else fn(*v))
    return out


def filter_(fn, it):
    if not S.active:
        return filter(fn, it)
    out = RList()
    L = Loop(as_list(it), ('filter', S.node, S.k), ())
    for v in L:
        if (fn(v) if fn is not None else v):
            out.append(v)
    return RIter(out)


def enumerate_(it, start=0):
    if not S.active:
        return enumerate(it, start)
    lst = as_list(it)
    segs = []
    off = zint(start)
    conc = start if isinstance(start, int) else None
    for s in lst.segs:
        if isinstance(s, Item):
            segs.append(Item(((conc if conc is not None else SInt(z3.simplify(off))), s.v)))
            off = off + 1
            conc = conc + 1 if conc is not None else None
        elif isinstance(s, ArrSeg):
            i = S.fresh_binder('ai', IntS)
            segs.append(FSeg([Family([i], [Entry('range', zand(i >= 0, i < s.n))],
                                     (SInt(off + i), SInt(z3.Select(s.arr, i))))], (i, s.n)))
            off, conc = off + s.n, None
        elif s.regular:
            i = s.regular[0]
            fams = []
            for f in s.families:
                fams.append(Family(f.binders, f.entries, (SInt(z3.simplify(off + f.binders[0])), f.value)))
            segs.append(FSeg(fams, s.regular))
            off, conc = off + s.regular[1], None
        else:
            # positions are unknown but distinct; only bounds are known
            fams = []
            ln = s.length()
            for f in s.families:
                nm = S.name_for('pos')
                p = z3.Function(nm, *([b.sort() for b in f.binders] + [IntS]))(*f.binders) if f.binders else z3.Int(nm)
                fams.append(Family(f.binders, list(f.entries) + [Entry('fact', zand(p >= off, p < off + ln))],
                                   (SInt(p), f.value)))
            segs.append(FSeg(fams))
            off, conc = off + ln, None
    return RList(segs=segs)


def zip_(*its):
    if not S.active:
        return zip(*its)
    ls = [as_list(x) for x in its]
    if not ls:
        return RList()
    if all(l.concrete() for l in ls):
        return RList([tuple(t) for t in zip(*[l.items() for l in ls])])
    k = next((len(l.segs) for l in ls if l.concrete()), None)
    if k is not None and k <= 4:            # lists known to have k elements: element by element
        full = []
        for l in ls:
            if not l.concrete() and not any(isinstance(s, HSeg) for s in l.segs) and S.entails(l.zlen() == k, 2000):
                l = RList([l[i] for i in range(k)])
            full.append(l)
        if all(l.concrete() for l in full):
            return RList([tuple(t) for t in zip(*[l.items() for l in full])])
    # aligned stretches of equal length
    segs = []
    for k in range(max(len(l.segs) for l in ls)):
        if any(k >= len(l.segs) for l in ls):
            raise Unsupported('zip of lists of different shape')
        row = [l.segs[k] for l in ls]
        if all(isinstance(s, Item) for s in row):
            segs.append(Item(tuple(s.v for s in row)))
            continue
        row = [_arr_as_fseg(s) for s in row]
        if not all(isinstance(s, FSeg) and s.regular and len(s.families) == 1 for s in row):
            raise Unsupported('zip of irregular stretches')
        ns = [s.regular[1] for s in row]
        nmin = ns[0]
        for m in ns[1:]:
            if not S.entails(m == nmin, 2000):
                if k != 0 or len(ls[0].segs) != 1 or any(len(l.segs) != 1 for l in ls):
                    raise Unsupported('zip of stretches of different length')
                nmin = z3.If(m < nmin, m, nmin)
        i = S.fresh_binder('z', IntS)
        entries, vals = [Entry('range', zand(i >= 0, i < nmin))], []
        for s in row:
            es, v = s.families[0].at([i])
            entries += [e for e in es if e.kind == 'fact']
            vals.append(v)
        segs.append(FSeg([Family([i], entries, tuple(vals))], (i, nmin)))
    return RList(segs=segs)


def _arr_as_fseg(s):
    if isinstance(s, ArrSeg):
        i = S.fresh_binder('ai', IntS)
        return FSeg([Family([i], [Entry('range', zand(i >= 0, i < s.n))], SInt(z3.Select(s.arr, i)))], (i, s.n))
    return s


def reversed_(it):
    if not S.active:
        return reversed(it)
    lst = as_list(it)
    segs = []
    for s in reversed(lst.segs):
        if isinstance(s, Item):
            segs.append(s)
            continue
        s = _arr_as_fseg(s)
        if s.regular and len(s.families) == 1:
            i, n = s.regular
            j = S.fresh_binder('rv', IntS, S.kind(i))
            entries, v = s.families[0].at([n - 1 - j])
            segs.append(FSeg([Family([j], entries, v)], (j, n)))
        else:
            segs.append(FSeg(s.families))
    return RList(segs=segs)


def sorted_(it, key=None, reverse=False):
    if not S.active:
        return sorted(it, key=key, reverse=reverse)
    lst = as_list(it)
    fams = []
    if lst.concrete() and len(lst.segs) <= 1:
        return RList(segs=list(lst.segs))
    for s in lst.segs:
        if isinstance(s, Item):
            fams.append(Family([], [], s.v))
        elif isinstance(s, FSeg):
            fams.extend(s.families)
        elif isinstance(s, ArrSeg):
            fams.extend(_arr_as_fseg(s).families)
        else:
            raise Unsupported('sorting a havocked list')
    if lst.concrete():
        ks = [key(s.v) if key else s.v for s in lst.segs]
        if not any(has_sym(k) for k in ks):
            order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=reverse)
            return RList([lst.segs[i].v for i in order])
    # evaluate the key once on an arbitrary element: it must not fail, and its effects are checked
    n = lst.zlen()
    src = RList(segs=list(lst.segs))        # as it is now: the list itself may be sorted in place
    src.sorted_by = lst.sorted_by
    lst = src
    fs = FSeg(fams)
    fs.sorted_by = (key, reverse, lst)
    r = RList(segs=[fs])
    S.memo[('len', id(fs))] = n
    S.memo[('keep', id(fs))] = fs
    r.sorted_by = (key, reverse, lst)
    return r


_PYLIB = []


def pylib():
    if not _PYLIB:
        from . import transform
        _PYLIB.append(transform.library())
    return _PYLIB[0]


def _quant(it, want):
    """Formula b for any()/all(); want=True: any."""
    lst = it.unordered() if isinstance(it, RSet) else as_list(it)
    parts = []
    for s in lst.segs:
        if isinstance(s, Item):
            parts.append(zbool(s.v) if has_sym(s.v) else z3.BoolVal(bool(s.v)))
        elif isinstance(s, FSeg):
            b = S.fresh('any' if want else 'all', BoolS)
            wit = []
            for f in s.families:
                t = zbool(f.value)
                t = t if want else z3.Not(t)
                g = zand(*guards(f.entries))
                # strong: b (any) / not b (all) has a witness; weak: otherwise no element satisfies t
                has = b if want else z3.Not(b)
                univ = z3.Implies(z3.Not(has), z3.Implies(g, z3.Not(t)))
                S.add_univ(f.binders, univ) if f.binders else S.assume(univ)
                w = [S.fresh('w', bb.sort()) for bb in f.binders]
                for x, bb in zip(w, f.binders):
                    S.set_kind(x, S.kind(bb))
                    S.cand(x)
                entries, v = f.at(w)
                tv = zbool(v) if want else z3.Not(zbool(v))
                for ff in fact_formulas(entries):
                    S.assume(z3.Implies(has, ff))
                wit.append(zand(*(guards(entries) + [tv])))
            has = b if want else z3.Not(b)
            S.assume(z3.Implies(has, z3.Or(*wit) if wit else z3.BoolVal(False)))
            parts.append(b)
        else:
            raise Unsupported('any/all over a havocked list')
    if want:
        return SBool(z3.Or(*parts) if parts else z3.BoolVal(False))
    return SBool(zand(*parts))


def any_(it):
    if not S.active or isinstance(it, (list, tuple)) and not has_sym(it):
        return any(it)
    return _quant(it, True)


def all_(it):
    if not S.active or isinstance(it, (list, tuple)) and not has_sym(it):
        return all(it)
    return _quant(it, False)


U_sum = {}


def sum_(it, start=0):
    if not S.active:
        return sum(it, start)
    from . import contracts
    return contracts.sum_list(as_list(it), start)


def min_(*a, **k):
    if len(a) > 1 and any(is_sym(x) for x in a) and not k:
        r = a[0]
        for x in a[1:]:
            if isinstance(r, (SInt, int)) and isinstance(x, (SInt, int)):
                r = SInt(z3.If(zint(x) < zint(r), zint(x), zint(r)))
            else:
                r = x if x < r else r
        return r
    if len(a) == 1 and (isinstance(a[0], (Container, RIter))):
        from . import contracts
        return contracts.extremum(as_list(a[0]), k.get('key'), False, k)
    return min(*a, **k)


def max_(*a, **k):
    if len(a) > 1 and any(is_sym(x) for x in a) and not k:
        r = a[0]
        for x in a[1:]:
            if isinstance(r, (SInt, int)) and isinstance(x, (SInt, int)):
                r = SInt(z3.If(zint(x) > zint(r), zint(x), zint(r)))
            else:
                r = x if x > r else r
        return r
    if len(a) == 1 and (isinstance(a[0], (Container, RIter))):
        from . import contracts
        return contracts.extremum(as_list(a[0]), k.get('key'), True, k)
    return max(*a, **k)


def iter_(x, *a):
    if S.active and not a and (isinstance(x, (Container, SStr, SSet, SRange)) or hasattr(x, '_as_list')):
        if isinstance(x, RSet) and not (x.concrete() and len(x.segs) <= 1):
            r = RIter(x.unordered())
            r.first, r.unordered = ('rset', x.oid, len(x.segs)), True
            return r
        r = RIter(as_list(x))
        if isinstance(x, SSet):
            r.first = x.e.sexpr()
        return r
    return iter(x, *a)


def next_(it, *d):
    if isinstance(it, RIter):
        try:
            return it.next()
        except StopIteration:
            if d:
                return d[0]
            raise
    return next(it, *d)


def hash_(x):
    if hasattr(x, '_hash_'):
        return x._hash_()
    if has_sym(x):
        from . import contracts
        return contracts.hash_of(x)
    return hash(x)


def type_(x, *a):
    if not a:
        if isinstance(x, SStr):
            return str
        if isinstance(x, SInt):
            return int
        if isinstance(x, Container):
            return x._real
        if isinstance(x, SObj) and hasattr(x, '_pytype'):
            return x._pytype
        return type(x)
    return type(x, *a)


BUILTINS = dict(len=len_, range=range_, isinstance=isinstance_, map=map_, filter=filter_, enumerate=enumerate_, zip=zip_,
                reversed=reversed_, sorted=sorted_, any=any_, all=all_, sum=sum_, min=min_, max=max_, iter=iter_,
                next=next_, hash=hash_, list=list_, tuple=tuple_, set=set_, frozenset=frozenset_, dict=dict_, str=str_,
                int=int_, float=float_, bool=bool_)

OVERRIDES = {}


def call(f, *args, **kw):
    if not S.active:
        return f(*args, **kw)
    if any(isinstance(a, Spread) for a in args):
        if f in (zip, zip_) and len(args) == 1 and not kw:
            return columns(args[0].lst)
        args = [y for a in args for y in (a.lst.items() if isinstance(a, Spread) else [a])]
    if isinstance(f, types.BuiltinMethodType):
        slf = getattr(f, '__self__', None)
        if isinstance(slf, str):
            name = f.__name__
            if name == 'join' or has_sym(args) or has_sym(tuple(kw.values())):
                return getattr(SStr(str_val(slf)), name)(*args, **kw) if name != 'join' else _join(slf, args[0])
        elif isinstance(slf, dict) and has_sym(args):
            name = f.__name__
            if name == 'get':
                for k in slf:
                    if truth(eq(k, args[0])):
                        return slf[k]
                return args[1] if len(args) > 1 else None
            if name == 'setdefault':
                raise Unsupported('symbolic key stored in a native dict')
        elif isinstance(slf, (set, frozenset)) and has_sym(args):
            if f.__name__ in ('issubset', 'issuperset', 'union', 'intersection', 'difference', 'isdisjoint'):
                return getattr(SSet(zset(slf)), f.__name__)(*args)
            raise Unsupported('symbolic value in a native set')
        elif type(slf).__name__ == 'Pattern' and has_sym(args):
            from . import contracts
            if f.__name__ in ('match', 'fullmatch') and isinstance(args[0], SStr) and len(args) == 1:
                return contracts.re_match(slf, args[0], f.__name__ == 'fullmatch')
            if f.__name__ == 'split' and hasattr(contracts, 're_split'):
                return contracts.re_split(slf, args[0])
            raise Unsupported('regular expression method %s' % f.__name__)
        elif isinstance(slf, list) and has_sym(args) and f.__name__ in ('extend', 'index', 'remove', 'count'):
            raise Unsupported('symbolic operation on a native list')
    elif f is type and len(args) == 3:
        return type(args[0], tuple(args[1]), dict(args[2].items()) if isinstance(args[2], RDict) else args[2])
    try:
        ov = OVERRIDES.get(f)
    except TypeError:
        ov = None
    if ov is not None:
        return ov(*args, **kw)
    return f(*args, **kw)


def _join(sep, items):
    from . import contracts
    return contracts.str_join(SStr(str_val(sep)), items)


# ====================================================================== helpers of the transformed code

def not_(x):
    if isinstance(x, SBool):
        return SBool(z3.Not(x.e))
    if S.active and (isinstance(x, (Sym, Container)) or hasattr(x, '_truth')):
        return SBool(z3.Not(zbool(x)))
    return not x


def unpack(v, n):
    if isinstance(v, (tuple, list, str)) or not S.active:
        return v
    if isinstance(v, (RList, RIter)):
        l = as_list(v)
        if l.concrete():
            vals = l.items()
            if len(vals) != n:
                raise ValueError('wrong number of values to unpack (expected %d, got %d)' % (n, len(vals)))
            return tuple(vals)
        if not S.fork(l.zlen() == n):
            raise ValueError('wrong number of values to unpack')
        return tuple(l[k] for k in range(n))
    if hasattr(v, '_unpack'):
        return v._unpack(n)
    if isinstance(v, (Sym, Unknown)):
        raise Unsupported('unpacking %r' % (v,))
    return v


class Spread(object):
    """*list for a list of unknown length (only zip can take it)."""
    def __init__(self, lst):
        self.lst = lst


def columns(l):
    """zip(*l) for a list of tuples of one width."""
    s = l.segs[0]
    n = s.regular[1]
    if not truth(n > 0):
        return RList()
    fam = s.families[0]
    out = []
    for j in range(len(fam.value)):
        i = S.fresh_binder('col', IntS)
        es, val = fam.at([i])
        out.append(Item(RTuple(segs=[FSeg([Family([i], es, val[j])], (i, n))])))
    return RList(segs=out)


def star(v):
    if isinstance(v, (RList, RIter, RSet)):
        l = as_list(v)
        if len(l.segs) == 1 and isinstance(l.segs[0], FSeg) and l.segs[0].regular and len(l.segs[0].families) == 1 and \
                isinstance(l.segs[0].families[0].value, tuple) and isinstance(v, RList):
            return [Spread(l)]
        return l.items()
    if hasattr(v, '_as_list'):
        return v._as_list().items()
    return v


def kwstar(v):
    if isinstance(v, RDict):
        if not v.concrete():
            raise Unsupported('** of a symbolic dict')
        return dict(s.v for s in v.segs)
    return v


class WhileLoop(object):
    """A ``while`` statement: run natively; a bound on the iterations keeps symbolic conditions from running away."""
    sym = False
    LIMIT = 200

    def __init__(self):
        self.n = 0
        self.forks = len(S.trail) if S.active else 0

    def tick(self):
        self.n += 1
        if S.active:
            if self.n == 1:
                S.memo['whiles'] = S.memo.get('whiles', 0) + 1
            S.memo['ticks'] = (S.memo.get('whiles', 0), self.n)
        if S.active and self.n > 12 and len(S.trail) - self.forks >= self.n - 2:
            raise Unsupported('while loop with a symbolic condition')
        return True

    def brk(self):
        pass
    exc = brk


def while_loop():
    return WhileLoop()
