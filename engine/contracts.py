# -*- coding: utf-8 -*-
"""Contracts assumed for Python builtins and library functions the code calls (trusted base, listed in evidence)."""
import builtins
import collections
import functools
import heapq
import itertools
import operator
import re
import sys
import unicodedata
import z3

from .core import (S, py_string, P_lc, Sym, SBool, SInt, SReal, SStr, SSet, SObj, PathEnd, Unsupported, Entry, zint, zreal, zstr, zbool,
                   zset, eq, zand, subst, is_sym, is_num, IntS, BoolS, RealS, StrS, SetS, Obj, str_val, P_isspace)
from . import runtime as rt
from .runtime import (RList, RTuple, RSet, RDict, RIter, SRange, Item, FSeg, HSeg, ArrSeg, Family, as_list, guards,
                      fact_formulas, truth, has_sym, OVERRIDES, Container)

U_replace_all = z3.Function('replace_all', StrS, StrS, StrS, StrS)
U_strip = z3.Function('strip', StrS, StrS)
U_count = z3.Function('count', StrS, StrS, IntS)
U_int_ok = z3.Function('int_ok', StrS, BoolS)
U_int_val = z3.Function('int_val', StrS, IntS)
U_float_ok = z3.Function('float_ok', StrS, BoolS)
U_float_val = z3.Function('float_val', StrS, RealS)
USED = set()


def used(name):
    USED.add(name)


# ---------------------------------------------------------------------- strings

def str_replace(s, a, b, n=None):
    used('str.replace')
    az, bz = zstr(a), zstr(b)
    if n is not None:
        if n != 1:
            raise Unsupported('str.replace with a count')
        return SStr(z3.Replace(s.e, az, bz))        # SMT-LIB str.replace: the first occurrence
    r = U_replace_all(s.e, az, bz)
    # replacing nothing; single-character facts
    S.assume(z3.Implies(z3.And(z3.Length(az) > 0, z3.Not(z3.Contains(s.e, az))), r == s.e))
    S.assume(z3.Implies(z3.Length(az) == z3.Length(bz), z3.Length(r) == z3.Length(s.e)))
    S.assume(z3.Implies(z3.And(z3.Length(az) == 1, z3.Not(z3.Contains(bz, az))), z3.Not(z3.Contains(r, az))))
    return SStr(r)


def str_strip(s, chars=None):
    used('str.strip')
    if chars is not None:
        if not isinstance(chars, str) or len(chars) != 1:
            raise Unsupported('strip(chars)')
        c = str_val(chars)
        r = z3.Function('strip_chars', StrS, StrS, StrS)(s.e, c)
        S.assume((r == s.e) == z3.And(z3.Not(z3.PrefixOf(c, s.e)), z3.Not(z3.SuffixOf(c, s.e))))
        S.assume(z3.And(z3.Not(z3.PrefixOf(c, r)), z3.Not(z3.SuffixOf(c, r))))
        S.assume(z3.Contains(s.e, r))
        return SStr(r)
    r = U_strip(s.e)
    S.assume(z3.Contains(s.e, r))
    S.assume((z3.Length(r) == 0) == z3.Or(z3.Length(s.e) == 0, P_isspace(s.e)))
    return SStr(r)


U_side = {'l': z3.Function('lstrip', StrS, StrS), 'r': z3.Function('rstrip', StrS, StrS)}


def str_side_strip(s, side, chars=None):
    """lstrip, rstrip of whitespace."""
    used('str.%sstrip' % side)
    if chars is not None:
        raise Unsupported('%sstrip(chars)' % side)
    r = U_side[side](s.e)
    S.assume((z3.PrefixOf if side == 'r' else z3.SuffixOf)(r, s.e))
    S.assume(U_strip(r) == U_strip(s.e))
    S.assume((z3.Length(r) == 0) == (z3.Length(U_strip(s.e)) == 0))
    other = U_side['l' if side == 'r' else 'r']
    if z3.is_app(s.e) and s.e.decl().eq(other):
        S.assume(r == U_strip(s.e.arg(0)))
    return SStr(r)


def str_format(s, *args, **kw):
    """'...{}...'.format(...): plain fields."""
    import string
    used('str.format')
    fmt = py_string(s.e)
    pieces, k = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            pieces.append(str_val(lit))
        if field is None:
            continue
        if conv not in (None, 's'):
            raise Unsupported('format !%s' % conv)
        if field == '':
            x, k = args[k], k + 1
        elif field.isdigit():
            x = args[int(field)]
        elif field.isidentifier():
            x = kw[field]
        else:
            raise Unsupported('format field %r' % field)
        x = format_value(x, spec)
        pieces.append(zstr(x))
    if not pieces:
        return ''
    return SStr(z3.Concat(*pieces) if len(pieces) > 1 else pieces[0])


def single_char(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(e.arg(2)) and e.arg(2).as_long() == 1


def str_isspace(s):
    """Non-empty and every character is whitespace."""
    used('str.isspace')
    p = P_isspace(s.e)
    if not single_char(s.e):
        n = z3.Length(s.e)
        i = z3.Const(S.name_for('si'), IntS)
        at = lambda k: P_isspace(z3.SubString(s.e, k, z3.IntVal(1)))
        S.add_univ([i], z3.Implies(z3.And(p, i >= 0, i < n), at(i)))
        w = S.fresh('sw', IntS)
        S.cand(w)
        S.assume(z3.Implies(p, n > 0))
        S.assume(z3.Implies(z3.And(z3.Not(p), n > 0), z3.And(w >= 0, w < n, z3.Not(at(w)))))
    else:
        S.assume(z3.Implies(p, z3.Length(s.e) > 0))
    return SBool(p)


def str_count(s, sub):
    used('str.count')
    c = U_count(s.e, zstr(sub))
    S.assume(c >= 0)
    S.assume((c > 0) == z3.Contains(s.e, zstr(sub)))
    if isinstance(sub, str) and len(sub) == 1:
        # more than one: another one after the first
        z = zstr(sub)
        i = z3.IndexOf(s.e, z, z3.IntVal(0))
        S.assume((c > 1) == z3.And(z3.Contains(s.e, z), z3.Contains(z3.SubString(s.e, i + 1, z3.Length(s.e) - i - 1), z)))
    return SInt(c)


def str_split(s, sep=None, maxsplit=-1):
    used('str.split')
    if sep is None:
        if maxsplit != -1:
            raise Unsupported('split(None, maxsplit)')
        key = ('split', s.e.sexpr(), None)
        if key not in S.memo:
            n = z3.Function('nwsparts', StrS, IntS)(s.e)
            i = S.fresh_binder('p', IntS)
            part = z3.Function('wspart', StrS, IntS, StrS)(s.e, i)
            S.assume(n >= 0)
            fam = Family([i], [Entry('range', zand(i >= 0, i < n)), Entry('fact', z3.Length(part) > 0),
                               Entry('fact', z3.Contains(s.e, part)), Entry('fact', z3.Not(P_isspace(part)))], SStr(part))
            S.memo[key] = (FSeg([fam], (i, n)), s)
        r = RList(segs=[S.memo[key][0]])
        r.split_of = (s, None)
        return r
    if is_sym(sep) or not sep:
        raise Unsupported('symbolic separator')
    sz = str_val(sep)
    if isinstance(maxsplit, int) and maxsplit == 1:
        if S.fork(z3.Contains(s.e, sz)):
            i = z3.IndexOf(s.e, sz, z3.IntVal(0))
            left = S.fresh('left', StrS)
            right = S.fresh('right', StrS)
            S.assume(s.e == z3.Concat(left, sz, right))
            S.assume(z3.Length(left) == i)
            S.assume(i >= 0)
            S.assume(left == z3.SubString(s.e, z3.IntVal(0), i))
            S.assume(right == z3.SubString(s.e, i + len(sep), z3.Length(s.e) - i - len(sep)))
            S.assume((i == 0) == z3.PrefixOf(sz, s.e))
            S.assume(z3.Implies(z3.Length(right) == 0, z3.SuffixOf(sz, s.e)))
            if len(sep) == 1:
                S.assume(z3.Not(z3.Contains(left, sz)))
            if s.lc:
                S.assume(z3.And(P_lc(left), P_lc(right)))
            return RList([SStr(left, s.lc), SStr(right, s.lc)])
        return RList([s])
    if maxsplit != -1:
        raise Unsupported('split(maxsplit)')
    # parts(i), 0 <= i < n: none contains the separator; n == 1 iff the separator does not occur
    key = ('split', s.e.sexpr(), sep)
    if key not in S.memo:
        n = z3.Function('nparts', StrS, StrS, IntS)(s.e, sz)
        f = z3.Function('part', StrS, StrS, IntS, StrS)
        i = S.fresh_binder('p', IntS)
        part = f(s.e, sz, i)
        S.assume(n >= 1)
        S.assume((n == 1) == z3.Not(z3.Contains(s.e, sz)))
        S.assume(z3.Implies(n == 1, f(s.e, sz, z3.IntVal(0)) == s.e))
        fam = Family([i], [Entry('range', zand(i >= 0, i < n)), Entry('fact', z3.Not(z3.Contains(part, sz))),
                           Entry('fact', z3.Contains(s.e, part))], SStr(part))
        S.memo[key] = (FSeg([fam], (i, n)), s)
    r = RList(segs=[S.memo[key][0]])
    r.split_of = (s, sep)
    return r


def split_facts(s, sep):
    """More of the contract of s.split(sep), for proofs that need it: the first part, and the whole when there are two parts."""
    sz = str_val(sep)
    n = z3.Function('nparts', StrS, StrS, IntS)(s.e, sz)
    f = z3.Function('part', StrS, StrS, IntS, StrS)
    p0, p1 = f(s.e, sz, z3.IntVal(0)), f(s.e, sz, z3.IntVal(1))
    i = z3.IndexOf(s.e, sz, z3.IntVal(0))
    rest = z3.SubString(s.e, i + len(sep), z3.Length(s.e) - i - len(sep))
    S.assume(z3.Implies(z3.Contains(s.e, sz), z3.And(i >= 0, n >= 2, p0 == z3.SubString(s.e, z3.IntVal(0), i), z3.PrefixOf(z3.Concat(p0, sz), s.e))))
    S.assume((n <= 2) == z3.Or(z3.Not(z3.Contains(s.e, sz)), z3.Not(z3.Contains(rest, sz))))
    S.assume(z3.Implies(n == 2, z3.And(s.e == z3.Concat(p0, sz, p1), p1 == rest)))


def str_partition(s, sep):
    p = str_split(s, sep, 1).items()
    return (p[0], sep, p[1]) if len(p) == 2 else (s, '', '')


U_join = z3.Function('join_opaque', StrS, IntS, StrS)


def str_join(sep, items):
    used('str.join')
    lst = as_list(items)
    if lst.concrete():
        vals = lst.items()
        for v in vals:
            if not isinstance(v, (str, SStr)):
                raise TypeError('sequence item: expected str instance')
        if not any(is_sym(v) for v in vals) and z3.is_string_value(sep.e):
            from .core import py_string
            return py_string(sep.e).join(vals)
        if not vals:
            return ''
        r = zstr(vals[0])
        for v in vals[1:]:
            r = z3.Concat(r, sep.e, zstr(v)) if not _is_empty(sep.e) else z3.Concat(r, zstr(v))
        return SStr(r)
    r = S.fresh('joined', StrS)
    out = SStr(r)
    S.memo.setdefault('joins', []).append((r, sep, lst))
    return out


def _is_empty(e):
    e = z3.simplify(e)
    return z3.is_string_value(e) and e.as_string() == ''


def join_parts(s):
    """The list a symbolic join was made of (proof API)."""
    for r, sep, lst in S.memo.get('joins', []):
        if r.eq(s.e):
            return sep, lst
    return None


_SPEC = re.compile(r'[-#0 +]*\d*(\.\d+)?[dfeg]')


def format_value(x, spec):
    """format(x, spec): for unknown numbers an (unknown) function of the number, one for each way of formatting."""
    if spec == '' or not has_sym(x):
        return rt._mk_str(x) if spec == '' else format(x, spec)
    used('number formatting')
    m = re.match(r'([-#0 +]*)(\d*)((?:\.\d+)?)([dfeg]?)$', spec)
    if not m or not isinstance(x, (SInt, SReal)):
        raise Unsupported('format %r' % spec)
    flags = ''.join(sorted(set(m.group(1)) - (set('0') if not m.group(2) else set())))
    name = 'format_%s%s%s%s' % (flags, m.group(2), m.group(3), m.group(4))
    e = z3.ToReal(x.e) if isinstance(x, SInt) and m.group(4) != 'd' else x.e
    return SStr(z3.Function(name, e.sort(), StrS)(e))


def str_mod(fmt, args):
    used('str %')
    named = args
    if not isinstance(args, tuple):
        args = (args,)
    parts, i, k = [], 0, 0
    out = z3.StringVal('')
    buf = ''
    pieces = []
    while i < len(fmt):
        c = fmt[i]
        if c == '%':
            d = fmt[i + 1]
            if d == '%':
                buf += '%'
            elif d in 'sdr':
                pieces.append(str_val(buf))
                buf = ''
                v = args[k]
                k += 1
                if d == 'r':
                    pieces.append(S.fresh('repr', StrS))
                else:
                    sv = rt._mk_str(v) if not isinstance(v, (str, SStr)) else v
                    pieces.append(zstr(sv))
            elif d == '(' and fmt[fmt.index(')', i):fmt.index(')', i) + 2] == ')s' and isinstance(named, (dict, rt.RDict)):
                j = fmt.index(')', i)
                pieces.append(str_val(buf))
                buf = ''
                v = named[fmt[i + 2:j]]
                pieces.append(zstr(rt._mk_str(v) if not isinstance(v, (str, SStr)) else v))
                i = j
            elif _SPEC.match(fmt, i + 1):
                m = _SPEC.match(fmt, i + 1)
                pieces.append(str_val(buf))
                buf = ''
                pieces.append(zstr(format_value(args[k], m.group())))
                k += 1
                i = m.end() - 2
            else:
                return SStr(S.fresh('fmt', StrS))
            i += 2
        else:
            buf += c
            i += 1
    pieces.append(str_val(buf))
    pieces = [p for p in pieces if not _is_empty(p)]
    if not pieces:
        return ''
    if all(z3.is_string_value(p) for p in pieces):
        return ''.join(py_string(p) for p in pieces)
    return SStr(z3.Concat(*pieces) if len(pieces) > 1 else pieces[0])


def int_of_str(s):
    used('int(str)')
    if not S.fork(U_int_ok(s.e)):
        raise ValueError('invalid literal for int()')
    return SInt(U_int_val(s.e))


def float_of_str(s):
    used('float(str)')
    if not S.fork(U_float_ok(s.e)):
        raise ValueError('could not convert string to float')
    return SReal(U_float_val(s.e))


def real_to_int(x):
    used('int(float)')
    return SInt(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))


def tuple_cmp(op, a, b):
    """Lexicographic comparison of two tuples of scalars."""
    def lt(x, y):
        if not x:
            return z3.BoolVal(bool(y)) if y else z3.BoolVal(False)
        if not y:
            return z3.BoolVal(False)
        e = eq(x[0], y[0])
        e = z3.BoolVal(e) if isinstance(e, bool) else e
        r = rt.cmp('<', x[0], y[0])
        return z3.Or(zbool(r), z3.And(e, lt(x[1:], y[1:])))
    e = eq(a, b)
    e = z3.BoolVal(e) if isinstance(e, bool) else e
    l = lt(a, b)
    return SBool({'<': l, '<=': z3.Or(l, e), '>': z3.And(z3.Not(l), z3.Not(e)), '>=': z3.Not(l)}[op])


U_hash = z3.Function('hash_str', StrS, IntS)
U_hash2 = z3.Function('hash_mix', IntS, IntS, IntS)


def hash_of(x):
    used('hash')
    if isinstance(x, SStr):
        return SInt(U_hash(x.e))
    if isinstance(x, Container) and hasattr(x, '_hash_'):
        return x._hash_()
    if isinstance(x, tuple):
        h = z3.IntVal(len(x))
        for v in x:
            h = U_hash2(h, zint(rt.hash_(v)))
        return SInt(h)
    if hasattr(x, '_hash_'):
        return x._hash_()
    if isinstance(x, (SInt, int)):
        return SInt(z3.Function('hash_int', IntS, IntS)(zint(x)))
    if isinstance(x, RTuple):
        return SInt(z3.Int(S.name_for('hash')))
    raise Unsupported('hash of %r' % (x,))


# ---------------------------------------------------------------------- folds over symbolic lists

def _num_z(v):
    return zreal(v) if isinstance(v, (SReal, float)) else zint(v)


def sum_list(lst, start=0):
    used('sum')
    if isinstance(start, (list, RList)):
        raise Unsupported('sum of lists')
    total = start
    for s in lst.segs:
        if isinstance(s, Item):
            total = rt.binop('+', total, s.v)
            continue
        if isinstance(s, ArrSeg):
            s = rt._arr_as_fseg(s)
        if isinstance(s, HSeg):
            raise Unsupported('sum of a havocked list')
        isreal = any(isinstance(f.value, (SReal, float)) for f in s.families)
        t = S.fresh('sum', RealS if isreal else IntS)
        z = zreal if isreal else _zint_b
        nonneg = True
        for f in s.families:
            if not rt_entails_family(f, lambda v: z(v) >= 0):
                nonneg = False
        if nonneg:
            S.assume(t >= 0)
            wit = []
            for f in s.families:
                g = zand(*guards(f.entries))
                fact = z3.Implies(g, zand(t >= z(f.value), *fact_formulas(f.entries)))
                S.add_univ(f.binders, fact) if f.binders else S.assume(fact)
                w = [S.fresh('w', b.sort()) for b in f.binders]
                for x, bb in zip(w, f.binders):
                    S.set_kind(x, S.kind(bb))
                    S.cand(x)
                es, v = f.at(w)
                for ff in fact_formulas(es):
                    S.assume(z3.Implies(t > 0, ff))
                wit.append(zand(*(guards(es) + [z(v) > 0])))
            S.assume(z3.Implies(t > 0, z3.Or(*wit) if wit else z3.BoolVal(False)))
        S.memo.setdefault('sums', []).append((t, s))
        total = rt.binop('+', total, SReal(t) if isreal else SInt(t))
    return total


def _zint_b(v):
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    return zint(v)


def rt_entails_family(f, prop):
    """Does ``prop`` hold for every element of the family on the current path?"""
    new, entries, v, _ = f.renamed('q')
    for b in new:
        S.cand(b)
    pre = zand(*([e.f for e in entries]))
    p = prop(v)
    if isinstance(p, bool):
        p = z3.BoolVal(p)
    return S.entails(z3.Implies(pre, p))


def extremum(lst, key, maximum, kw, last=False):
    """max()/min() of a list: the first element whose key is greatest/least."""
    used('max/min')
    if lst.concrete():
        vals = lst.items()
        if not vals:
            if 'default' in kw:
                return kw['default']
            raise ValueError('max() arg is an empty sequence')
        best = vals[0]
        bk = key(best) if key else best
        for v in vals[1:]:
            k = key(v) if key else v
            if truth(_as_formula(rt.cmp(('>' if maximum else '<') + ('=' if last else ''), k, bk))):
                best, bk = v, k
        return best
    if not S.fork(lst.zlen() > 0):
        if 'default' in kw:
            return kw['default']
        raise ValueError('max() arg is an empty sequence')
    if any(isinstance(s, FSeg) and s.sorted_by for s in lst.segs):
        S.taint('first of equal elements of a sorted list')
    v, pos = pick(lst)
    k = key(v) if key else v
    _bound(lst, key, k, maximum, pos, last)
    return v


def _as_formula(r):
    return r.e if isinstance(r, SBool) else r


def pick(lst):
    """An arbitrary element of the list (forks over its parts), and where it stands: (part, index in it or None)."""
    opts = list(range(len(lst.segs)))
    n = S.choose_one(opts, 'pick')
    s = lst.segs[n]
    if isinstance(s, Item):
        return s.v, (n, None)
    if isinstance(s, ArrSeg):
        s = rt._arr_as_fseg(s)
    where = []
    v = rt.arbitrary(s, where=where, exists=True)
    return v, (n, where[0] if s.ordered and len(where) == 1 else None)


def _bound(lst, key, k, maximum, pos=None, last=False):
    """Every element's key is at most (least) k; of the elements before the first (after the last) extreme one: less (more)."""
    for n, s in enumerate(lst.segs):
        before = pos is not None and (n > pos[0] if last else n < pos[0])
        op = ('<' if before else '<=') if maximum else ('>' if before else '>=')
        if isinstance(s, Item):
            kk = key(s.v) if key else s.v
            c = rt.cmp(op, kk, k)
            S.assume(zbool(c))
            continue
        if isinstance(s, ArrSeg):
            s = rt._arr_as_fseg(s)
        for f in s.families:
            kk, extra = map_family(f, key)
            c = zbool(rt.cmp(op, kk, k))
            if pos is not None and n == pos[0] and pos[1] is not None and len(f.binders) == 1:
                c = zand(c, z3.Implies(f.binders[0] > pos[1] if last else f.binders[0] < pos[1], zbool(rt.cmp('<' if maximum else '>', kk, k))))
            body = z3.Implies(zand(*guards(f.entries)), zand(*(extra + [c])))
            S.add_univ(f.binders, body) if f.binders else S.assume(body)


def map_family(f, key):
    """Value of key() on the generic element of a family, without forking; (value, facts added)."""
    if key is None:
        return f.value, []
    n0 = len(S.entries)
    saved = S.idx
    S.idx = list(S.idx) + list(f.binders)
    trail = len(S.trail)
    try:
        v = key(f.value)
    finally:
        S.idx = saved
    if len(S.trail) != trail:
        raise Unsupported('sort key that branches')
    return v, []


def nsmallest(n, it, key=None):
    return nlargest(n, it, key, False)


def nlargest(n, it, key=None, largest=True):
    used('heapq.nlargest')
    lst = it.unordered() if isinstance(it, rt.RSet) and key is None and n == 1 else as_list(it)
    if not isinstance(n, int):
        raise Unsupported('nlargest')
    if n != 1:
        if lst.concrete() and not any(has_sym(s.v) for s in lst.segs):
            return RList((heapq.nlargest if largest else heapq.nsmallest)(n, lst.items(), key=key))
        raise Unsupported('nlargest with n > 1')
    if not S.fork(lst._truth() if not isinstance(lst._truth(), bool) else z3.BoolVal(lst._truth())):
        return RList()
    return RList([extremum(lst, key, largest, {})])


def chain(*its):
    used('itertools.chain')
    segs = []
    for it in its:
        segs.extend(as_list(it).segs)
    return RIter(RList(segs=segs))


def tee(it, n=2):
    used('itertools.tee')
    l = as_list(it)
    return tuple(RIter(RList(segs=list(l.segs))) for _ in range(n))


class DefaultDict(RDict):
    pass


def defaultdict_(factory=None, *a):
    if not S.active:
        return collections.defaultdict(factory, *a)
    d = RDict(default=(lambda: factory()) if factory else None)
    if a:
        d.update(a[0])
    return d


def ordereddict_(*a):
    if not S.active:
        return collections.OrderedDict(*a)
    return rt._mk_dict(*a)


def starmap(f, it):
    return rt.map_(lambda t: f(*t), it)


def reduce_(f, it, *init):
    lst = as_list(it)
    vals = list(init) + lst.items()
    r = vals[0]
    for v in vals[1:]:
        r = f(r, v)
    return r


def _guarded(real, sym):
    def f(*a, **k):
        return sym(*a, **k)
    f.__name__ = getattr(real, '__name__', '?')
    return f


P_uname_known = z3.Function('has_unicode_name', StrS, BoolS)
U_uname = z3.Function('unicode_name', StrS, StrS)
U_ucat = z3.Function('unicode_category', StrS, StrS)


def uname(c, *default):
    if not isinstance(c, SStr):
        return unicodedata.name(c, *default)
    used('unicodedata.name')
    if S.fork(P_uname_known(c.e)):
        return SStr(U_uname(c.e))
    if default:
        return default[0]
    raise ValueError('no such name')


def ucat(c):
    if not isinstance(c, SStr):
        return unicodedata.category(c)
    used('unicodedata.category')
    r = U_ucat(c.e)
    S.assume(z3.Length(r) == 2)
    return SStr(r)


def intern_(x):
    return x


def op_eq(a, b): return rt.cmp('==', a, b)


# ---------------------------------------------------------------------- regular expressions

def regex_to_z3(pat):
    """(z3 regular language, anchored at the end) of a compiled pattern, for match(); case-insensitivity is expanded by
    asking the re module itself which single characters a literal accepts."""
    import re
    import re._parser as sp
    import re._constants as sc
    flags = pat.flags
    tree = sp.parse(pat.pattern, flags)
    anchored = [False]

    def chars(ok):
        rs, lo = [], None
        for c in range(0, 0x30000):
            hit = ok(chr(c))
            if hit and lo is None:
                lo = c
            if not hit and lo is not None:
                rs.append((lo, c - 1))
                lo = None
        if lo is not None:
            rs.append((lo, 0x2ffff))
        out = [z3.Range(_ch(a), _ch(b)) if a != b else z3.Re(_ch(a)) for a, b in rs]
        return z3.Union(*out) if len(out) > 1 else out[0] if out else z3.Empty(z3.ReSort(StrS))

    def lit(c):
        if not flags & re.IGNORECASE:
            return z3.Re(_ch(c))
        r = re.compile(re.escape(chr(c)), flags & ~re.VERBOSE)
        return chars(lambda x: r.match(x) is not None)
    cache = {}

    def seq(items, last):
        out = []
        for n, (op, av) in enumerate(items):
            end = last and n == len(items) - 1
            if op is sc.LITERAL:
                if av not in cache:
                    cache[av] = lit(av)
                out.append(cache[av])
            elif op is sc.MAX_REPEAT:
                lo, hi, sub = av
                r = seq(sub, False)
                if hi is sc.MAXREPEAT:
                    r = z3.Star(r) if lo == 0 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)) if lo > 1 else z3.Plus(r)
                else:
                    r = z3.Loop(r, lo, hi) if hi > 0 else z3.Re(z3.StringVal(''))
                out.append(r)
            elif op is sc.SUBPATTERN:
                out.append(seq(av[3], end))
            elif op is sc.BRANCH:
                alts = [seq(a, end) for a in av[1]]
                out.append(z3.Union(*alts) if len(alts) > 1 else alts[0])
            elif op is sc.AT and end and av is sc.AT_END_STRING:
                anchored[0] = True
            elif op is sc.AT and n == 0 and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                pass
            elif op is sc.IN and len(out) >= 0 and all(x[0] in (sc.LITERAL, sc.RANGE) for x in av):
                r = re.compile('[%s]' % ''.join(re.escape(chr(x[1])) if x[0] is sc.LITERAL else '%s-%s' % (
                    re.escape(chr(x[1][0])), re.escape(chr(x[1][1]))) for x in av), flags & ~re.VERBOSE)
                out.append(chars(lambda x: r.match(x) is not None))
            else:
                raise Unsupported('regular expression construct %s' % op)
        out = [o for o in out]
        return z3.Concat(*out) if len(out) > 1 else out[0] if out else z3.Re(z3.StringVal(''))
    r = seq(list(tree), True)
    return r, anchored[0]


def _ch(c):
    return z3.StringVal('\\u{%x}' % c)


def re_match(pat, s, full=False):
    used('re.match')
    key = ('re', pat.pattern, pat.flags)
    if key not in S.memo:
        S.memo[key] = regex_to_z3(pat)
    r, anchored = S.memo[key]
    if not anchored and not full:
        r = z3.Concat(r, z3.Full(z3.ReSort(StrS)))
    S.memo.setdefault('matches', []).append((s.e, r))
    return 'match object' if S.fork(z3.InRe(s.e, r)) else None


OVERRIDES.update({
    heapq.nlargest: nlargest,
    heapq.nsmallest: nsmallest,
    itertools.chain: chain,
    itertools.chain.from_iterable: lambda it: chain(*as_list(it).items()),
    itertools.tee: tee,
    itertools.starmap: starmap,
    functools.reduce: reduce_,
    collections.defaultdict: defaultdict_,
    collections.OrderedDict: ordereddict_,
    unicodedata.name: uname,
    unicodedata.category: ucat,
    sys.intern: intern_,
    operator.eq: op_eq,
    operator.ne: lambda a, b: rt.cmp('!=', a, b),
    operator.lt: lambda a, b: rt.cmp('<', a, b),
    operator.gt: lambda a, b: rt.cmp('>', a, b),
    operator.le: lambda a, b: rt.cmp('<=', a, b),
    operator.ge: lambda a, b: rt.cmp('>=', a, b),
    operator.contains: lambda a, b: rt.cmp('in', b, a),
    operator.add: lambda a, b: rt.binop('+', a, b),
    operator.getitem: lambda a, b: rt.getitem(a, b),
})


# ---------------------------------------------------------------------- splitting by a captured single character
P_sep = z3.Function('is_separator', StrS, BoolS)
U_sparts = z3.Function('split_nseps', StrS, IntS)
U_spart = z3.Function('split_part', StrS, IntS, StrS)


def one_char_group(pat):
    """The compiled single-character class if the pattern is one capturing group around exactly one character, else None."""
    import re
    import re._parser as sp
    import re._constants as sc
    t = sp.parse(pat.pattern, pat.flags)
    items = list(t)
    if len(items) != 1 or items[0][0] is not sc.SUBPATTERN or items[0][1][0] != 1 or pat.groups != 1:
        return None
    if t.getwidth() != (1, 1):
        return None
    if any(op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT) for op, _ in items[0][1][3]):
        return None
    return pat


def re_split(pat, s):
    """parts 0..2k: the odd ones are single separator characters, the even ones the stretches between them."""
    used('re.split by one captured character')
    if one_char_group(pat) is None:
        raise Unsupported('split by this regular expression')
    k = U_sparts(s.e)
    S.assume(k >= 0)
    n = 2 * k + 1
    i = S.fresh_binder('sp', IntS)
    part = U_spart(s.e, i)
    c = z3.Int(S.name_for('spc'))
    odd = i % 2 == 1
    es = [Entry('range', zand(i >= 0, i < n)), Entry('fact', z3.Implies(odd, z3.And(z3.Length(part) == 1, P_sep(part))))]
    j = z3.Int(S.name_for('spj'))
    pj = U_spart(s.e, j)
    S.add_univ([j, c], z3.Implies(z3.And(j >= 0, j < n, j % 2 == 0, c >= 0, c < z3.Length(pj)),
                                  z3.Not(P_sep(z3.SubString(pj, c, z3.IntVal(1))))))
    S.memo['split_pattern'] = pat
    S.memo['split_n'] = n
    return RList(segs=[FSeg([Family([i], es, SStr(part))], (i, n))])
