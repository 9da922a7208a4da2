# -*- coding: utf-8 -*-
"""Weakening of a query: strings become elements of an uninterpreted sort and string operations uninterpreted functions.

Every model of the original query gives one of the weakened query, so "unsatisfiable" carries over; any other answer says
nothing.  Kept facts: distinct literals are distinct, lengths are non-negative, literal lengths, lengths of concatenations,
only the empty string has length 0.  Terms are converted once per process (raw API calls: there are many)."""
import ctypes
import z3
from z3 import z3core

AStr = z3.DeclareSort('AStr')
StrS = z3.StringSort()
LEN = z3.Function('a!len', AStr, z3.IntSort())
CONCAT = z3.Function('a!concat', AStr, AStr, AStr)


class lib:
    pass


for _n in ('Z3_mk_app', 'Z3_inc_ref', 'Z3_get_ast_id', 'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_to_app', 'Z3_get_app_decl',
           'Z3_get_func_decl_id', 'Z3_get_ast_kind'):
    setattr(lib, _n, staticmethod(getattr(z3core, _n).__defaults__[0].f))      # the C function itself
ctx = z3.main_ctx().ref()


class Skip(Exception):
    pass


def sort_of(s):
    if s == StrS:
        return AStr
    if s.kind() == z3.Z3_ARRAY_SORT:
        return z3.ArraySort(sort_of(s.domain()), sort_of(s.range()))
    if s.kind() == z3.Z3_RE_SORT:
        raise Skip()
    return s


def stringy(s):
    return s == StrS or s.kind() == z3.Z3_ARRAY_SORT and (stringy(s.domain()) or stringy(s.range()))


CACHE = {}      # id of a term -> raw converted term
KEEP = []       # original terms (so that ids stay valid)
FACTS = {}      # id of a term -> facts about its conversion
HANDLERS = {}   # id of a declaration -> how to convert an application
LITERALS = {}
UFS = {}
DONE = {}       # id of a formula -> (formula, converted, facts)


def uf(name, dom, rng):
    key = (name, tuple(str(d) for d in dom), str(rng))
    f = UFS.get(key)
    if f is None:
        nm = 'a!%s!%d' % (name, len(UFS))
        f = UFS[key] = z3.Function(nm, *(list(dom) + [rng])) if dom else z3.Const(nm, rng)
    return f


def wrap(raw):
    return z3.z3._to_expr_ref(raw, z3.main_ctx())


def raw_of(e):
    KEEP.append(e)
    return e.as_ast()


def mk_app(decl, args):
    n = len(args)
    arr = (z3.Ast * n)(*args)
    r = lib.Z3_mk_app(ctx, decl, n, arr)
    lib.Z3_inc_ref(ctx, r)
    return r


def handler(x):
    """x: wrapped application."""
    d = x.decl()
    k = d.kind()
    KEEP.append(d)
    dom = [d.domain(i) for i in range(d.arity())]
    # polymorphic operators have the sorts of their arguments
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE):
        if not any(stringy(c.sort()) for c in x.children()) and not any(c.sort().kind() == z3.Z3_RE_SORT for c in x.children()):
            return ('same', d.ast)
        if k == z3.Z3_OP_EQ:
            return ('py', lambda *a: wrap(a[0]) == wrap(a[1]))
        if k == z3.Z3_OP_DISTINCT:
            return ('py', lambda *a: z3.Distinct(*[wrap(t) for t in a]))
        return ('py', lambda *a: z3.If(*[wrap(t) for t in a]))
    if k == z3.Z3_OP_SEQ_IN_RE:
        f = uf('inre:' + x.arg(1).sexpr(), [AStr], z3.BoolSort())
        KEEP.append(f)
        return ('inre', f.ast)
    if any(s.kind() == z3.Z3_RE_SORT for s in dom) or x.sort().kind() == z3.Z3_RE_SORT:
        raise Skip()
    plain = not any(stringy(s) for s in dom) and not stringy(x.sort())
    if plain:
        return ('same', d.ast)
    if k == z3.Z3_OP_SELECT:
        return ('py', lambda *a: z3.Select(wrap(a[0]), wrap(a[1])))
    if k == z3.Z3_OP_STORE:
        return ('py', lambda *a: z3.Store(*[wrap(t) for t in a]))
    if k == z3.Z3_OP_CONST_ARRAY:
        ds = sort_of(x.sort().domain())
        return ('py', lambda *a: z3.K(ds, wrap(a[0])))
    if k == z3.Z3_OP_SEQ_LENGTH:
        return ('len', None)
    if k == z3.Z3_OP_SEQ_CONCAT:
        return ('concat', None)
    sorts = [sort_of(c.sort()) for c in x.children()]
    name = d.name() if k == z3.Z3_OP_UNINTERPRETED else 'op:%s:%s' % (d.name(), k)
    if k in (z3.Z3_OP_SET_UNION, z3.Z3_OP_SET_INTERSECT) or len(sorts) != d.arity():
        # any number of arguments
        return ('py', lambda *a: uf('%s/%d' % (name, len(a)), [wrap(t).sort() for t in a], sort_of(x.sort()))(*[wrap(t) for t in a]))
    f = uf(name, sorts, sort_of(x.sort()))
    if not sorts:
        raw = raw_of(f)
        return ('const', raw)
    KEEP.append(f)
    return ('uf', f.ast)


def literal(x):
    s = x.as_string()
    c = LITERALS.get(s)
    if c is None:
        c = LITERALS[s] = z3.Const('a!lit!%d' % len(LITERALS), AStr)
    fact = LEN(c) == z3.simplify(z3.Length(x))
    return raw_of(c), [fact]


EMPTY = z3.StringVal('')


def convert(t):
    """Raw conversion of a wrapped term."""
    get_id, num, arg, to_app, decl_of, decl_id = (lib.Z3_get_ast_id, lib.Z3_get_app_num_args, lib.Z3_get_app_arg, lib.Z3_to_app,
                                                  lib.Z3_get_app_decl, lib.Z3_get_func_decl_id)
    root = t.as_ast()
    KEEP.append(t)
    stack = [root]
    while stack:
        x = stack[-1]
        i = get_id(ctx, x)
        if i in CACHE:
            stack.pop()
            continue
        kind = lib.Z3_get_ast_kind(ctx, x)
        if kind == z3.Z3_NUMERAL_AST:
            CACHE[i] = x
            lib.Z3_inc_ref(ctx, x)
            stack.pop()
            continue
        if kind != z3.Z3_APP_AST:
            raise Skip()
        a = to_app(ctx, x)
        d = decl_of(ctx, a)
        di = decl_id(ctx, d)
        h = HANDLERS.get(di)
        lib.Z3_inc_ref(ctx, x)
        if h is None:
            w = wrap(x)
            if z3.is_string_value(w):
                CACHE[i], FACTS[i] = literal(w)
                stack.pop()
                continue
            h = handler(w)
            if w.decl().kind() not in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE) or True:
                HANDLERS[di] = h
        n = num(ctx, a)
        if h[0] == 'inre':
            n = 1
        kids = [arg(ctx, a, j) for j in range(n)]
        args = [CACHE.get(get_id(ctx, c)) for c in kids]
        todo = [c for c, v in zip(kids, args) if v is None]
        if todo:
            stack.extend(todo)
            continue
        what, f = h
        if what == 'same':
            r = x if not n else mk_app(f, args)
        elif what == 'uf' or what == 'inre':
            r = mk_app(f, args)
        elif what == 'const':
            r = f
        elif what == 'py':
            r = raw_of(f(*args))
        elif what == 'len':
            e = wrap(args[0])
            v = LEN(e)
            empty = wrap(CACHE[EMPTY.get_id()]) if EMPTY.get_id() in CACHE else wrap(convert(EMPTY))
            FACTS[i] = [v >= 0, (v == 0) == (e == empty)]
            r = raw_of(v)
        else:
            v = wrap(args[0])
            fs = []
            for c in args[1:]:
                c = wrap(c)
                w = CONCAT(v, c)
                fs.append(LEN(w) == LEN(v) + LEN(c))
                v = w
            FACTS[i] = fs
            r = raw_of(v)
        CACHE[i] = r
        stack.pop()
    return CACHE[get_id(ctx, root)]


def facts_under(root):
    """Facts about the terms in a converted formula."""
    get_id, num, arg, to_app = lib.Z3_get_ast_id, lib.Z3_get_app_num_args, lib.Z3_get_app_arg, lib.Z3_to_app
    seen, stack, out = set(), [root.as_ast()], []
    while stack:
        x = stack.pop()
        i = get_id(ctx, x)
        if i in seen:
            continue
        seen.add(i)
        fs = FACTS.get(i)
        if fs:
            out.extend(fs)
        if lib.Z3_get_ast_kind(ctx, x) != z3.Z3_APP_AST:
            continue
        a = to_app(ctx, x)
        for j in range(num(ctx, a)):
            stack.append(arg(ctx, a, j))
    return out


def abstract(f):
    """(converted formula, facts about its terms)"""
    f = z3.simplify(f)
    i = f.get_id()
    hit = DONE.get(i)
    if hit is None:
        hit = DONE[i] = (f, wrap(convert(f)), facts_under(f))
    return hit[1], hit[2]


SCALE = [1.0]       # more than 1: a second attempt with more time


def check(out, mbqi, timeout, seed=0):
    s = z3.Solver()
    if seed:
        s.set('random_seed', seed)
    # counted in the solver's own steps, so that a busy machine makes it slower but not different; the clock is the second limit
    s.set('rlimit', int(timeout * SCALE[0] * 3000))
    s.set('timeout', int(timeout * SCALE[0] * 3))
    if not mbqi:
        s.set('mbqi', False)
    for f in out:
        s.add(f)
    if len(LITERALS) > 1:
        s.add(z3.Distinct(*LITERALS.values()))
    return s.check() == z3.unsat


def unsat(formulas, templates, timeout):
    """True only if ``formulas`` and the instances of ``templates`` are jointly unsatisfiable.

    templates: (binders, formula, list of tuples of terms); converted once, then instantiated."""
    out = []
    seen = set()

    def add(x):
        if x.get_id() not in seen:
            seen.add(x.get_id())
            out.append(x)
    try:
        for f in formulas:
            t, facts = abstract(f)
            add(t)
            for x in facts:
                add(x)
        terms = {}

        def term(t):
            k = t.get_id()
            if k not in terms:
                terms[k], facts = abstract(t)
                for x in facts:
                    add(x)
            return terms[k]
        for binders, f, combos in templates:
            t, facts = abstract(f)
            bs = [abstract(b)[0] for b in binders]
            body = z3.And(t, *facts) if facts else t
            for combo in combos:
                add(z3.substitute(body, *list(zip(bs, [term(c) for c in combo]))) if bs else body)
    except Skip:
        return False
    return check(out, True, timeout)


def unsat_quant(formulas, univ, timeout, seed=0):
    """The same with the universal facts left to the solver's own instantiation (E-matching)."""
    out = []
    try:
        for f in formulas:
            t, facts = abstract(f)
            out.append(t)
            out.extend(facts)
        for binders, f in univ:
            t, facts = abstract(f)
            bs = [abstract(b)[0] for b in binders]
            body = z3.And(t, *facts) if facts else t
            bs = [b for b in bs if b.decl().arity() == 0]
            out.append(z3.ForAll(bs, body) if bs else body)
    except Skip:
        return False
    return check(out, False, timeout, seed)
