# -*- coding: utf-8 -*-
"""Executable form of the properties: bounded search for failing inputs on the real code, and replay.

Runs under the project's own interpreters (PyPy), on /repo's working tree, unmodified.
"""
from __future__ import unicode_literals, print_function
import ast
import json
import os
import random
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
ORACLES = {}


class Fail(Exception):
    def __init__(self, msg, **data):
        Exception.__init__(self, msg)
        self.msg = msg
        self.data = data


class Skip(Exception):
    """The oracle's probe does not fit this tree (an internal helper it uses has moved): nothing is concluded."""


def oracle(prop):
    def deco(f):
        ORACLES.setdefault(prop, []).append(f)
        return f
    return deco


def in_repo(tb):
    """Was the exception raised by the code under test (or by what it called)?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/pymorphy2'):
            return True
        tb = tb.tb_next
    return False


def mine():
    """String and integer literals of the current source: candidates for special cases."""
    strs, ints = set(), set()
    for root, dirs, files in os.walk(os.path.join(REPO, 'pymorphy2')):
        for f in files:
            if not f.endswith('.py'):
                continue
            try:
                tree = ast.parse(open(os.path.join(root, f), 'rb').read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                v = getattr(n, 'value', None) if isinstance(n, ast.Constant) else getattr(n, 's', getattr(n, 'n', None)) \
                    if type(n).__name__ in ('Str', 'Num') else None
                if isinstance(v, bool):
                    continue
                if isinstance(v, str) and 0 < len(v) <= 30 and '\n' not in v:
                    strs.add(v)
                elif isinstance(v, int):
                    ints.add(v)
    return sorted(strs), sorted(ints)


class Ctx(object):
    def __init__(self, prop, seed, budget, hints=None):
        self.prop = prop
        self.rng = random.Random('%s-%s' % (prop, seed))
        self.seed = seed
        self.t0 = time.time()
        self.budget = budget
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.fails = []
        self.skips = []
        self.hints = hints or {}
        self.strs, self.ints = mine()
        self._cache = {}
        self.share = 1.0

    # -- time
    def left(self):
        return self.sub_deadline - time.time()

    def go(self):
        return time.time() < self.sub_deadline and len(self.fails) < 3

    # -- cases
    def case(self, fn, *args):
        """Evaluate one case; a failure is recorded with its arguments."""
        self.evals += 1
        key = (fn.__name__,) + tuple(_short(a) for a in args)
        if key not in self.distinct:
            self.distinct.add(key)
            if len(self.samples) < 6 or self.evals % 997 == 0 and len(self.samples) < 12:
                self.samples.append('%s%s' % (fn.__name__, key[1:]))
        try:
            fn(self, *args)
        except Fail as ex:
            self.fails.append(dict(oracle=fn.__name__, args=[_short(a) for a in args], what=ex.msg,
                                   data={k: _short(v) for k, v in ex.data.items()}))
            return False
        except Skip as ex:
            if str(ex) not in self.skips:
                self.skips.append(str(ex))
        except Exception as ex:
            if in_repo(ex.__traceback__) and not isinstance(ex, RecursionError):
                self.fails.append(dict(oracle=fn.__name__, args=[_short(a) for a in args],
                                       what='unexpected exception %s: %s' % (type(ex).__name__, ex),
                                       data={'traceback': traceback.format_exc()[-1200:]}))
                return False
            s = 'harness: ' + traceback.format_exc()[-400:]
            if s not in self.skips:
                self.skips.append(s)
        return True

    # -- shared objects
    def cached(self, key, fn):
        if key not in self._cache:
            self._cache[key] = fn()
        return self._cache[key]

    @property
    def morph(self):
        def mk():
            import pymorphy2
            return pymorphy2.MorphAnalyzer()
        return self.cached('morph', mk)


def _short(x):
    if isinstance(x, (int, float, str, type(None), bool)):
        return x
    try:
        s = repr(x)
    except Exception:
        s = '<%s>' % type(x).__name__
    return s if len(s) < 600 else s[:600] + '...'


def check(cond, msg, **data):
    if not cond:
        raise Fail(msg, **data)


def expect_eq(got, want, msg, **data):
    if got != want:
        raise Fail(msg, got=got, want=want, **data)


def run(prop, seed, budget, hints, out):
    from . import load_all
    load_all(prop)
    ctx = Ctx(prop, seed, budget, hints)
    fns = ORACLES.get(prop, [])
    for i, f in enumerate(fns):
        rest = ctx.t0 + budget - time.time()
        ctx.sub_deadline = time.time() + max(1.0, rest / (len(fns) - i))
        try:
            f(ctx)
        except Skip as ex:
            ctx.skips.append('%s: %s' % (f.__name__, ex))
        except Fail as ex:
            ctx.fails.append(dict(oracle=f.__name__, args=[], what=ex.msg, data={k: _short(v) for k, v in ex.data.items()}))
        except Exception as ex:
            if in_repo(ex.__traceback__):
                ctx.fails.append(dict(oracle=f.__name__, args=[], what='unexpected exception %s: %s' % (type(ex).__name__, ex),
                                      data={'traceback': traceback.format_exc()[-1500:]}))
            else:
                ctx.skips.append('%s: harness: %s' % (f.__name__, traceback.format_exc()[-600:]))
    res = dict(prop=prop, seed=seed, python=sys.version.split('\n')[0], executable=sys.executable, evaluations=ctx.evals,
               distinct=len(ctx.distinct), samples=ctx.samples, fails=ctx.fails, skips=ctx.skips, wall=round(time.time() - ctx.t0, 2),
               oracles=[f.__name__ for f in fns])
    with open(out, 'wb') as f:
        f.write(json.dumps(res, ensure_ascii=False, indent=1).encode('utf-8', 'surrogatepass'))
