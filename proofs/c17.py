# -*- coding: utf-8 -*-
"""Contracts of joining linked lexemes.

The loop over the links is proved by its invariant: the state (which lexeme was moved where, what every lexeme holds) is arbitrary but keeps the
invariant, one arbitrary link is handled by the real code, and the invariant is shown to hold again with the groups united.  Root(x) (ghost) is the lexeme
that holds the group of x:
    moved(x)  =>  Root(x) = Root(moves[x]) and x holds nothing;    not moved(x)  =>  Root(x) = x;    not moved(Root(x)).
The loop that follows the moves has the invariant Root(to_id) = Root(link_start)."""
import ast
from .common import *

J = 'opencorpora_dict.compile._join_lexemes'
J_moved, J_next, J_root = z3.Function('moved', StrS, BoolS), z3.Function('moved_to', StrS, StrS), z3.Function('group_of', StrS, StrS)
J_n, J_form = z3.Function('n_held', StrS, IntS), z3.Function('held', StrS, IntS, Obj)
J_cell, J_idx = z3.Function('holder', Obj, StrS), z3.Function('place', Obj, IntS)
J_lex = z3.Function('lexeme_number', IntS, StrS)
EXCLUDED = ('7', '21', '23', '27')


def source(m):
    """The real function, from the file that is run."""
    tree = ast.parse(open(m.__file__, encoding='utf-8').read())
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name == '_join_lexemes']


def stores(nodes):
    return set(x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)))


def loops_carry_only_the_state(m):
    """The invariant rules apply: no local variable is carried from link to link, and a loop that follows the moves carries one variable and is left by its test."""
    fs = source(m)
    if len(fs) != 1:
        raise Unsupported('no function _join_lexemes')
    f = fs[0]
    if any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(f)):
        raise Unsupported('variables of other functions are written')
    for x in ast.walk(f):
        if isinstance(x, ast.For):
            t = stores([x.target])
            for name in stores(x.body) - t:
                # set before it is read, in every iteration
                s = [s for s in x.body if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(s))][0]
                if not isinstance(s, ast.Assign) or name not in stores(s.targets) or \
                        any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(s.value)):
                    raise Unsupported('the loop over the links carries the variable %s' % name)
        if isinstance(x, ast.While):
            b = stores(x.body)
            if len(b) > 1 or any(isinstance(y, (ast.Break, ast.Return, ast.Continue, ast.Call, ast.Raise)) for s in x.body for y in ast.walk(s)) or \
                    any(isinstance(y, ast.Subscript) and not isinstance(y.ctx, ast.Load) for s in x.body for y in ast.walk(s)):
                raise Unsupported('a loop that does more than follow the moves')


class Silent(object):
    def __getattr__(self, n):
        return lambda *a, **k: None


class Form(SObj):
    pass


class Moves(object):
    """moves: an arbitrary state that keeps the invariant."""
    _symbolic = True

    def __init__(self, lemmas):
        self.log, self.sets, self.gets = [], [], {}
        self.about, self.end = lemmas, None

    def _contains_(self, k):
        return self.__contains__(k)

    def __contains__(self, k):
        if self.sets:
            raise Unsupported('moves are read after they were changed')
        self.about(zstr(k))
        self.log.append('in')
        if self.end is not None and zstr(k).eq(self.end):
            # the test that ends the loop
            self.in_test()
            S.assume(z3.Not(J_moved(zstr(k))))
            return False
        return S.fork(J_moved(zstr(k)))

    def __getitem__(self, k):
        if self.sets:
            raise Unsupported('moves are read after they were changed')
        if not S.fork(J_moved(zstr(k))):
            raise KeyError(k)
        n = sum(1 for x in self.log if x == 'get')
        self.log.append('get')
        if n == 0:
            r = SStr(J_next(zstr(k)))
        elif n == 1:
            self.in_test()
            # an arbitrary number of further steps: what the invariant says
            r = SStr(S.fresh('followed', StrS))
            S.assume(J_root(r.e) == J_root(zstr(k)))
            self.end = r.e
        else:
            raise Unsupported('the moves are followed further than the contract of the state reaches')
        self.about(r.e)
        return r

    def in_test(self):
        """The moves are asked in the test of one ``while`` loop only, once each time."""
        if S.memo.get('ticks') != (1, sum(1 for x in self.log if x == 'in')):
            raise Unsupported('the moves are followed further than the contract of the state reaches')

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __setitem__(self, k, x):
        self.sets.append((zstr(k), zstr(x)))


class Cells(object):
    """lexemes: what each lexeme holds."""
    _symbolic = True

    def __init__(self, v, about, n=None):
        self.v, self.cells, self.about, self.n = v, [], about, n

    def cell(self, k):
        k = zstr(k)
        for c, l in self.cells:
            if c.eq(k) or S.fork(c == k):
                return l
        self.about(k)
        l = held(k)
        self.cells.append((k, l))
        return l

    def __getitem__(self, k):
        return self.cell(k)

    def __setitem__(self, k, x):
        k = zstr(k)
        self.cell(SStr(k))
        for i, (c, l) in enumerate(self.cells):
            if c.eq(k) or S.fork(c == k):
                self.cells[i] = (c, as_list(x))
                return

    def pop(self, k):
        raise Unsupported('lexemes are removed')

    def keys(self):
        i = S.fresh_binder('lx', IntS, 'lexemes')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < self.n))], SStr(J_lex(i)))], (i, self.n))], owned=False)
    _as_list = keys

    def values(self):
        i = S.fresh_binder('lx', IntS, 'lexemes')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < self.n))], held(J_lex(i)))], (i, self.n))], owned=False)

    def items(self):
        i = S.fresh_binder('lx', IntS, 'lexemes')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < self.n))], (SStr(J_lex(i)), held(J_lex(i))))], (i, self.n))], owned=False)


def held(k):
    n = J_n(k)
    S.assume(n >= 0)
    j = S.fresh_binder('hf', IntS, 'held')
    es = [Entry('range', zand(j >= 0, j < n)), Entry('fact', zand(J_cell(J_form(k, j)) == k, J_idx(J_form(k, j)) == j))]
    return RList(segs=[FSeg([Family([j], es, Form(J_form(k, j)))], (j, n))])


@proof('C17', 'one link: the group of the second lexeme is put behind the group of the first', [J],
       assumes=['invariant rule for the loops of _join_lexemes (their bodies carry no other variable: checked on the source on every run)',
                'the second lexeme of an allowed link was not moved before and does not hold the first one\'s group (no cycles, one allowed link into a lexeme)',
                'links name existing lexemes'])
def one_link(v):
    m = mod('pymorphy2.opencorpora_dict.compile')
    loops_carry_only_the_state(m)
    start, end = v.str('link_start'), v.str('link_end')
    kind = v.str('type_id')

    def about(x):
        S.assume(z3.If(J_moved(x), zand(J_root(x) == J_root(J_next(x)), J_n(x) == 0), J_root(x) == x))
        S.assume(z3.Not(J_moved(J_root(x))))
    about(start.e)
    about(end.e)
    about(J_root(start.e))
    S.assume(zand(z3.Not(J_moved(end.e)), J_root(start.e) != end.e))
    moves, cells = Moves(about), Cells(v, about)
    used = []
    real = m.__dict__.get('dict')
    m.dict = lambda *a, **k: (used.append(1), moves)[1] if not a and not k else dict(*a, **k)
    S.memo['empty_dict'] = m.dict
    logger, m.logger = m.logger, Silent()
    cells.keys = cells._as_list = lambda: RList()
    names = ['the first lexeme\'s group keeps its forms and gets those of the second', 'no other form is put there', 'first the group of the first lexeme, in order',
             'nothing is left in the second lexeme', 'other lexemes are as they were', 'the second lexeme counts as moved', 'its group is that of the first',
             'a link of an excluded type changes nothing']
    v.declare(*names)
    try:
        v.call('_join_lexemes', m._join_lexemes, cells, [(start, end, kind)])
    finally:
        m.logger = logger
        if real is None:
            del m.dict
        else:
            m.dict = real
    if len(used) != 1:
        raise Unsupported('the moves are not kept in one dict')
    excluded = z3.Or(*[kind.e == x for x in EXCLUDED])
    t, f = J_root(start.e), end.e
    if S.fork(excluded):
        v.check(names[7], not moves.sets and all(same(l, c) for c, l in cells.cells))
        return
    v.check(names[5], z3.BoolVal(bool(moves.sets)) if not moves.sets else zand(*[k == f for k, x in moves.sets]))
    if moves.sets:
        x = moves.sets[-1][1]
        about(x)
        v.check(names[6], zand(J_root(x) == t, x != f))
    into, rest = cells.cell(SStr(t)), cells.cell(SStr(f))
    for c, l in cells.cells:
        if l is not into and l is not rest:
            v.check(names[4], same(l, c))
    v.check(names[4], True)
    claim = S.choose(range(4), 'claim')
    if claim == 0:
        v.check(names[3], v.empty(rest))
    elif claim == 1:
        src = t if S.choose([True, False], 'whose') else f
        j = v.int('j')
        S.assume(zand(j.e >= 0, j.e < J_n(src)))
        S.assume(zand(J_cell(J_form(src, j.e)) == src, J_idx(J_form(src, j.e)) == j.e))
        v.cand(j, kind='held')
        v.check(names[0], v.some(into, lambda y: y.e == J_form(src, j.e)))
    elif claim == 2:
        y = v.any(into)
        k = z3.Int('k')
        S.set_kind(k, 'held')
        S.add_univ([k], z3.Implies(zand(k >= 0, k < J_n(t)), J_form(t, k) != y.e))
        S.add_univ([k], z3.Implies(zand(k >= 0, k < J_n(f)), J_form(f, k) != y.e))
        v.check(names[1], z3.BoolVal(False))
    else:
        p, q = v.pair(into)
        v.check(names[2], z3.Or(zand(J_cell(p.e) == t, J_cell(q.e) == f), zand(J_cell(p.e) == J_cell(q.e), J_idx(p.e) < J_idx(q.e))))


def same(l, c):
    if not isinstance(l, RList) or len(l.segs) != 1 or not isinstance(l.segs[0], FSeg) or len(l.segs[0].families) != 1:
        return False
    f = l.segs[0].families[0]
    return isinstance(f.value, Form) and z3.is_app(f.value.e) and f.value.e.decl().eq(J_form) and f.value.e.arg(0).eq(c) and len(f.entries) == 2


@proof('C17', 'what is returned: the lexemes that hold forms, by number', [J], assumes=['lexeme numbers are decimal numbers, each used once'])
def listing(v):
    m = mod('pymorphy2.opencorpora_dict.compile')
    n = z3.Int('n_lexemes')
    S.assume(n >= 0)
    cells = Cells(v, lambda x: None, n)
    cells.cell = lambda k: held(zstr(k))
    names = ['every lexeme that holds forms is returned', 'nothing else is returned', 'in the order of their numbers',
             'the numbers of all lexemes are sorted as numbers']
    v.declare(*names)
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < n))
    j = z3.Int('li')
    S.set_kind(j, 'lexemes')
    S.add_univ([j], z3.Implies(zand(j >= 0, j < n), contracts.U_int_ok(J_lex(j))))
    asked = []
    real = m.__dict__.get('sorted')
    m.sorted = lambda it, **k: (asked.append((as_list(it), k)), by_number(n))[1]
    try:
        r = v.call('_join_lexemes', m._join_lexemes, cells, [])
    finally:
        if real is None:
            del m.sorted
        else:
            m.sorted = real
    if len(asked) != 1 or set(asked[0][1]) != {'key'}:
        raise Unsupported('not sorted by a key once')
    x = v.str('x')
    S.assume(contracts.U_int_ok(x.e))
    v.check(names[3], zand(z3.BoolVal(only_ids(asked[0][0])), eq(asked[0][1]['key'](x), SInt(contracts.U_int_val(x.e)))))
    claim = S.choose(range(3), 'claim')
    if claim == 0:
        v.cand(i, kind='lexemes')
        v.cand(SInt(J_pos(i.e)), kind='places')
        v.cand(SInt(z3.IntVal(0)), kind='held')
        k = J_lex(i.e)
        S.assume(J_n(k) > 0)
        S.assume(J_cell(J_form(k, 0)) == k)
        v.check(names[0], v.some(r, lambda x: whose(x) == k))
    elif claim == 1:
        x = v.any(r)
        k = whose(x)
        v.check(names[1], zand(J_n(k) > 0, v.some(cells.keys(), lambda y: y.e == k)))
    else:
        p, q = v.pair(r)
        v.check(names[2], contracts.U_int_val(whose(p)) <= contracts.U_int_val(whose(q)))


J_pos, J_at = z3.Function('position_of_number', IntS, IntS), z3.Function('number_at', IntS, IntS)


def only_ids(l):
    if len(l.segs) != 1 or not isinstance(l.segs[0], FSeg) or len(l.segs[0].families) != 1:
        return False
    f = l.segs[0].families[0]
    return isinstance(f.value, SStr) and z3.is_app(f.value.e) and f.value.e.decl().eq(J_lex) and len(f.entries) == 1 and len(f.binders) == 1


def by_number(n):
    """sorted(numbers, key=int): its contract (a rearrangement, ordered by the key)."""
    i, j, a, b = z3.Int('sp'), z3.Int('sq'), z3.Int('sa'), z3.Int('sb')
    S.set_kind(i, 'places')
    S.set_kind(a, 'places')
    S.set_kind(b, 'places')
    S.set_kind(j, 'lexemes')
    val = lambda p: contracts.U_int_val(J_lex(J_at(p)))
    S.add_univ([i], z3.Implies(zand(i >= 0, i < n), zand(J_at(i) >= 0, J_at(i) < n)))
    S.add_univ([j], z3.Implies(zand(j >= 0, j < n), zand(J_pos(j) >= 0, J_pos(j) < n, J_at(J_pos(j)) == j)))
    S.add_univ([a, b], z3.Implies(zand(a >= 0, a < b, b < n), val(a) <= val(b)))
    p = S.fresh_binder('pl', IntS, 'places')
    return RList(segs=[FSeg([Family([p], [Entry('range', zand(p >= 0, p < n))], SStr(J_lex(J_at(p))))], (p, n))], owned=False)


def whose(l):
    """Whose list it is (the lists of lexemes are returned as they are)."""
    if isinstance(l, RList) and len(l.segs) == 1 and isinstance(l.segs[0], FSeg) and len(l.segs[0].families) == 1:
        f = l.segs[0].families[0]
        if isinstance(f.value, Form) and z3.is_app(f.value.e) and f.value.e.decl().eq(J_form):
            return f.value.e.arg(0)
    raise Unsupported('a list that is not that of one lexeme')
