# -*- coding: utf-8 -*-
"""Decision procedure for equivalence of regular languages (Brzozowski derivatives, bisimulation up to equal derivatives)."""
import z3


def _str(e):
    from .core import py_string
    return py_string(e)


def conv(r):
    k = r.decl().kind()
    ch = [r.arg(i) for i in range(r.num_args())]
    if k == z3.Z3_OP_SEQ_TO_RE:
        s = _str(ch[0])
        return cat(*[('ch', ((ord(c), ord(c)),)) for c in s]) if s else EPS
    if k == z3.Z3_OP_RE_RANGE:
        return ('ch', ((ord(_str(ch[0])), ord(_str(ch[1]))),))
    if k == z3.Z3_OP_RE_UNION:
        return alt(*[conv(c) for c in ch])
    if k == z3.Z3_OP_RE_CONCAT:
        return cat(*[conv(c) for c in ch])
    if k == z3.Z3_OP_RE_STAR:
        return star(conv(ch[0]))
    if k == z3.Z3_OP_RE_PLUS:
        c = conv(ch[0])
        return cat(c, star(c))
    if k == z3.Z3_OP_RE_OPTION:
        return alt(conv(ch[0]), EPS)
    if k == z3.Z3_OP_RE_LOOP:
        c = conv(ch[0])
        ps = r.decl().params() if r.num_args() == 1 else [x.as_long() for x in ch[1:]]
        lo, hi = ps[0], (ps[1] if len(ps) > 1 else None)
        out = [c] * lo
        if hi is None:
            return cat(*(out + [star(c)]))
        tail = EPS
        for _ in range(hi - lo):
            tail = alt(cat(c, tail), EPS)
        return cat(*(out + [tail]))
    if k == z3.Z3_OP_RE_FULL_SET:
        return star(('ch', ((0, 0x10ffff),)))
    if k == z3.Z3_OP_RE_EMPTY_SET:
        return NUL
    raise NotImplementedError('regular expression %s' % r.decl())


EPS, NUL = ('eps',), ('nul',)


def cat(*rs):
    out = []
    for r in rs:
        if r == NUL:
            return NUL
        if r[0] == 'cat':
            out.extend(r[1])
        elif r != EPS:
            out.append(r)
    return EPS if not out else out[0] if len(out) == 1 else ('cat', tuple(out))


def alt(*rs):
    s = set()
    for r in rs:
        if r[0] == 'alt':
            s |= set(r[1])
        elif r != NUL:
            s.add(r)
    return NUL if not s else next(iter(s)) if len(s) == 1 else ('alt', frozenset(s))


def star(r):
    return EPS if r in (EPS, NUL) else r if r[0] == 'star' else ('star', r)


def nullable(r):
    t = r[0]
    return t in ('eps', 'star') or t == 'cat' and all(nullable(x) for x in r[1]) or t == 'alt' and any(nullable(x) for x in r[1])


def deriv(r, c):
    t = r[0]
    if t in ('eps', 'nul'):
        return NUL
    if t == 'ch':
        return EPS if any(a <= c <= b for a, b in r[1]) else NUL
    if t == 'alt':
        return alt(*[deriv(x, c) for x in r[1]])
    if t == 'star':
        return cat(deriv(r[1], c), r)
    out = []
    for i, x in enumerate(r[1]):
        out.append(cat(deriv(x, c), *r[1][i + 1:]))
        if not nullable(x):
            break
    return alt(*out)


def bounds(r, acc):
    if r[0] == 'ch':
        for a, b in r[1]:
            acc.add(a)
            acc.add(b + 1)
    elif r[0] in ('cat', 'alt'):
        for x in r[1]:
            bounds(x, acc)
    elif r[0] == 'star':
        bounds(r[1], acc)
    return acc


def difference(ra, rb, exclude=(), limit=200000):
    """None if the z3 regular languages agree on all strings without the excluded characters, else a shortest difference."""
    a, b = conv(ra), conv(rb)
    acc = bounds(a, set()) | bounds(b, set()) | {0} | set(x for c in exclude for x in (ord(c), ord(c) + 1))
    ex = set(ord(c) for c in exclude)
    letters = [c for c in sorted(acc) if c not in ex and c < 0x110000]
    seen, todo = {(a, b)}, [((a, b), '')]
    while todo:
        nxt = []
        for (x, y), w in todo:
            if nullable(x) != nullable(y):
                return w
            for c in letters:
                p = (deriv(x, c), deriv(y, c))
                if p not in seen:
                    seen.add(p)
                    if len(seen) > limit:
                        raise NotImplementedError('automaton too large')
                    nxt.append((p, w + chr(c)))
        todo = nxt
    return None
