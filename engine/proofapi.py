# -*- coding: utf-8 -*-
"""API for writing contracts: inputs, obligations, quantification over symbolic lists, stubs; and the proof runner."""
import os
import re
import sys
import time
import traceback
import z3

from .core import (S, Ctx, Sym, SBool, SInt, SReal, SStr, SSet, SObj, PathEnd, Unsupported, Restart, Budget, Entry, zint,
                   zreal, zstr, zbool, zset, eq, zand, subst, is_sym, IntS, BoolS, RealS, StrS, SetS, Obj, str_val,
                   P_lc, U_lower)
from . import runtime as rt
from . import contracts
from .runtime import (RList, RTuple, RSet, RDict, RIter, SRange, Item, FSeg, HSeg, ArrSeg, Family, as_list, guards,
                      fact_formulas, truth, member, arbitrary)

ENGINE_DIR = os.path.dirname(os.path.abspath(__file__))
VERIF_DIR = os.path.dirname(ENGINE_DIR)
PROOFS = []
PERSIST = {}


class Proof(object):
    def __init__(self, prop, name, fn, functions, assumes, budget):
        self.prop, self.name, self.fn = prop, name, fn
        self.functions = functions
        self.assumes = assumes
        self.budget = budget


def proof(props, name, functions=(), assumes=(), budget=150):
    if isinstance(props, str):
        props = props.split()

    def deco(fn):
        PROOFS.append(Proof(props, name, fn, list(functions), list(assumes), budget))
        return fn
    return deco


class Outcome(object):
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc


ENGINE_NAMES = ('SStr', 'SInt', 'SBool', 'SReal', 'SSet', 'SObj', 'RList', 'RSet', 'RDict', 'RIter', 'RTuple', 'Unknown',
                'SRange', 'LazyLast', 'TypeProxy', 'STag', 'ExprRef', 'z3')


def about_a_stub(exc, msg):
    """The error says that an object of the proof (a stand-in for a library, say) cannot do what the code asks of it."""
    if isinstance(exc, AttributeError):
        o = getattr(exc, 'obj', None)
        return (o if isinstance(o, type) else type(o)).__module__.split('.')[0] in ('proofs', 'engine')
    if isinstance(exc, TypeError):
        m = re.search(r'(\S+)\(\) (got|takes|missing)', msg)
        if m is not None and (m.group(1).startswith(('<lambda>',)) or '<locals>' in m.group(1)):
            return True
        names = re.findall(r"'(\w+)' object|type '(\w+)'|type (\w+)|and '(\w+)'|(\w+) object", msg) + ([(m.group(1).split('.')[0],)] if m else [])
        return any(n in stub_classes() for t in names for n in t if n)
    return False


_STUBS = {}


def stub_classes():
    if not _STUBS:
        todo = [object]
        while todo:
            for c in type.__subclasses__(todo.pop()):
                if c not in _STUBS:
                    _STUBS[c] = c.__name__
                    todo.append(c)
    return set(n for c, n in _STUBS.items() if str(c.__module__).split('.')[0] in ('proofs', 'engine'))


def classify(exc):
    """A native exception that crossed from the engine (not from the code under proof) means: unsupported."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fname = last.tb_frame.f_code.co_filename if last else ''
    msg = str(exc)
    if isinstance(exc, (AttributeError, TypeError, NameError, AssertionError, z3.Z3Exception, NotImplementedError,
                        RecursionError, ImportError, SyntaxError)):
        if any(n in msg for n in ENGINE_NAMES) or fname.startswith(VERIF_DIR) or isinstance(
                exc, (z3.Z3Exception, RecursionError)):
            if not getattr(exc, '_modelled', False):
                return 'unsupported'
        if not getattr(exc, '_modelled', False) and about_a_stub(exc, msg):
            return 'unsupported'
    if 'z3' in fname:
        return 'unsupported'
    return 'code'


class V(object):
    """Handle passed to a proof."""

    def __init__(self):
        self.covered = set()
        self.names = set()

    # ------------------------------------------------------------ inputs
    def _in(self, name, e):
        S.inputs.append((name, e))
        return e

    def str(self, name, lower=False):
        e = self._in(name, z3.String(name))
        if lower:
            S.assume(P_lc(e))
        return SStr(e, lower or None)

    def int(self, name):
        return SInt(self._in(name, z3.Int(name)))

    def real(self, name):
        return SReal(self._in(name, z3.Real(name)))

    def bool(self, name):
        return SBool(self._in(name, z3.Bool(name)))

    def set(self, name):
        return SSet(self._in(name, z3.Const(name, SetS)))

    def regular_list(self, name, value, n=None, facts=None, owned=True, cls=RList):
        """A list of symbolic length whose i-th element is value(i)."""
        i = S.fresh_binder('i_' + name, IntS, name)
        if n is None:
            n = z3.Int('n_' + name)
            S.assume(n >= 0)
        es = [Entry('range', zand(i >= 0, i < n))]
        v = value(i)
        if facts is not None:
            for f in facts(i):
                es.append(Entry('fact', f))
        l = cls(segs=[FSeg([Family([i], es, v)], (i, n))], owned=owned)
        l.label = name
        return l

    def obj(self, name, make):
        """A native object that is the same one in all re-executions (loop summaries carry it from path to path)."""
        if name not in S.natives:
            S.natives[name] = make()
        return S.natives[name]

    # ------------------------------------------------------------ assumptions, obligations
    def assume(self, f):
        S.assume(zb(f))
        if not S.feasible():
            raise PathEnd()

    def check(self, name, f, hints=()):
        self.names.add(name)
        if name not in self.covered and S.feasible() and S.alive():
            self.covered.add(name)
        return S.prove(name, zb(f), hints)

    def done(self, name='done'):
        self.names.add(name)
        if name not in self.covered and S.feasible() and S.alive():
            self.covered.add(name)

    def cover(self, name):
        self.done('cover:' + name)

    def declare(self, *names):
        self.names.update(names)

    # ------------------------------------------------------------ running code
    def run(self, fn, *a, **k):
        try:
            r = Outcome(value=fn(*a, **k))
            S.returned = len(S.univ)
            return r
        except Exception as ex:
            S.returned = len(S.univ)
            if classify(ex) == 'unsupported':
                tb = traceback.format_exc().strip().splitlines()
                raise Unsupported('engine: %r at %s' % (ex, ' / '.join(x.strip() for x in tb[-6:-1])))
            return Outcome(exc=ex)

    def call(self, name, fn, *a, **k):
        """Run; any exception is a failed obligation '<name>: raises nothing'."""
        o = self.run(fn, *a, **k)
        if o.exc is not None:
            self.check(name + ': raises nothing', False)
            raise PathEnd()
        self.done(name + ': raises nothing')
        S.prove(name + ': raises nothing', True)
        return o.value

    # ------------------------------------------------------------ quantification
    def each(self, lst, tag='e'):
        """Branch: yields an arbitrary element (then the path must end), or None for 'the rest of the proof'."""
        if S.choose(['elem', 'rest'], 'each') == 'rest':
            return None
        lst = as_list(lst)
        return (self.any(lst, tag),)

    def any(self, lst, tag='e'):
        """An arbitrary element; the path ends if there is none."""
        lst = as_list(lst)
        segs = [s for s in lst.segs if not (isinstance(s, FSeg) and not s.families)]
        if not segs:
            raise PathEnd()
        s = S.choose(segs, 'seg') if len(segs) > 1 else segs[0]
        if isinstance(s, Item):
            return s.v
        if isinstance(s, HSeg):
            raise Unsupported('element of a havocked list')
        return arbitrary(rt._arr_as_fseg(s), tag=tag)

    def regex_lemma(self, name, s, spec, exclude=''):
        """Every pattern the code matched ``s`` against describes the language ``spec`` (or its complement part that matters):
        decided by derivatives; the equivalence is then used as a fact."""
        from . import relang
        self.names.add(name)
        self.covered.add(name)
        t0 = time.time()
        for e, r in S.memo.get('matches', []):
            if not e.eq(s):
                continue
            key = ('relang', r.sexpr(), exclude)
            if key not in PERSIST:
                try:
                    PERSIST[key] = relang.difference(r, spec, exclude)
                except NotImplementedError as ex:
                    raise Unsupported(str(ex))
            diff = PERSIST[key]
            from .core import Obligation
            S.results.append(Obligation(name, diff is None, 'derivatives', time.time() - t0, '' if diff is None else 'differs on a string',
                                        None if diff is None else dict(token=diff), None if diff is None else S.describe_path()))
            if diff is None:
                S.assume(z3.InRe(s, r) == z3.InRe(s, spec))

    def pair(self, lst):
        """Two elements at different positions, the first one earlier (ends the path if there are none)."""
        segs = [s for s in as_list(lst).segs if not (isinstance(s, FSeg) and not s.families)]
        combos = [(i, j) for i in range(len(segs)) for j in range(i, len(segs))
                  if i != j or not isinstance(segs[i], Item)]
        if not combos:
            raise PathEnd()
        i, j = S.choose(combos, 'pair') if len(combos) > 1 else combos[0]
        vals, idx = [], []
        for k in (i, j):
            s = segs[k]
            if isinstance(s, Item):
                vals.append(s.v)
                idx.append(None)
                continue
            s = rt._arr_as_fseg(s)
            f = S.choose(s.families, 'family') if len(s.families) > 1 else s.families[0]
            new, entries, val, _ = f.renamed('p')
            for b in new:
                S.cand(b)
            for e in entries:
                S.add(e.kind, e.f)
            vals.append(val)
            idx.append((f, new, s))
        if i == j:
            (f, a, s), (g, b, _) = idx
            # positions follow the iteration order: the index of the (outermost) loop
            if not a or not b or a[0].sort() != IntS or len(a) > 1 or len(b) > 1 or not s.ordered:
                raise Unsupported('pair of elements of an unordered stretch')
            S.add('dec', a[0] < b[0])
        if not S.feasible():
            raise PathEnd()
        return vals[0], vals[1]

    def subsequence(self, name, lst):
        """The list holds at most one element per iteration of the one loop that filled it, in iteration order."""
        segs = [s for s in as_list(lst).segs if not (isinstance(s, FSeg) and not s.families)]
        if not segs:
            return self.check(name, True)
        if len(segs) != 1 or isinstance(segs[0], Item):
            raise Unsupported('list not filled by one loop')
        s = rt._arr_as_fseg(segs[0])
        if s.sorted_by:
            raise Unsupported('order of a sorted list')
        if len(s.families) == 1:            # one element per iteration of all its loops, in their order
            return self.check(name, True)
        sorts = [[b.sort() for b in f.binders] for f in s.families]
        if any(x != sorts[0] for x in sorts):
            raise Unsupported('list filled by different nested loops')
        xs = [S.fresh('x', b.sort()) for b in s.families[0].binders]
        for x in xs:
            S.cand(x)
        fs = []
        for a in range(len(s.families)):
            for b in range(a + 1, len(s.families)):
                ea, eb = s.families[a].at(xs)[0], s.families[b].at(xs)[0]
                fs.append(z3.Not(zand(*(guards(ea) + guards(eb) + fact_formulas(ea, True) + fact_formulas(eb, True)))))
        return self.check(name, zand(*fs))

    def two(self, lst):
        """Branch: like each(), yields (earlier, later)."""
        if S.choose(['pair', 'rest'], 'two') == 'rest':
            return None
        return self.pair(lst)

    def forall(self, lst, fn, tag='e'):
        e = self.each(lst, tag)
        if e is not None:
            fn(e[0])
            raise PathEnd()

    def contains(self, lst, x):
        """Formula: ``lst`` contains an element equal to x (use as goal)."""
        return self.some(lst, lambda v: eq(v, x))

    def some(self, lst, pred):
        """Formula implied by the existence of an element that satisfies pred (nothing else is known about it: use as goal)."""
        alts, fams = [], []
        for s in as_list(lst).segs:
            if isinstance(s, Item):
                alts.append(zb(pred(s.v)))
            elif isinstance(s, HSeg):
                raise Unsupported('element of a havocked list')
            else:
                fams.extend(rt._arr_as_fseg(s).families)
        if fams:
            ex = S.fresh('some', BoolS)
            for f in fams:
                new, es, v, _ = f.renamed('x')
                mark, gmark = len(S.idx), len(S.gidx)
                S.idx.extend(new)
                S.gidx = S.gidx + new
                try:
                    for ff in fact_formulas(es):
                        S.assume(ff)
                    r = pred(v)
                    if r is not False:
                        S.add_univ([], z3.Implies(zand(*(guards(es) + [zb(r)])), ex))
                finally:
                    S.idx[mark:] = []
                    S.gidx = S.gidx[:gmark]
            alts.append(ex)
        return z3.Or(*alts) if alts else z3.BoolVal(False)

    def empty(self, lst):
        t = as_list(lst)._truth()
        return z3.Not(zb(t))

    def nonempty(self, lst):
        return zb(as_list(lst)._truth())

    def same_list(self, a, b):
        """Syntactic identity of contents (same stretches in the same order)."""
        a, b = as_list(a), as_list(b)
        if len(a.segs) != len(b.segs):
            return False
        fs = []
        for x, y in zip(a.segs, b.segs):
            if x is y:
                continue
            if isinstance(x, Item) and isinstance(y, Item):
                fs.append(zb(eq(x.v, y.v)))
                continue
            return False
        return zand(*fs)

    def eq(self, a, b):
        return zb(eq(a, b))

    def cand(self, *ts, kind=None):
        for t in ts:
            S.cand(t.e if isinstance(t, Sym) else t, kind)

    def writes(self):
        return list(S.writes)

    def no_writes(self, name):
        self.check(name, not S.writes)


def zb(f):
    if isinstance(f, bool):
        return z3.BoolVal(f)
    if isinstance(f, SBool):
        return f.e
    if isinstance(f, z3.ExprRef):
        return f
    raise Unsupported('not a formula: %r' % (f,))


def implies(a, b):
    return z3.Implies(zb(a), zb(b))


# ====================================================================== runner

def track_functions():
    """Record which of the repository's functions are executed (sys.monitoring, no overhead after the first start)."""
    seen = set()
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return seen
    from .transform import REPO
    try:
        mon.use_tool_id(3, 'verif')
    except ValueError:
        pass

    def start(code, off):
        if not S.active:
            return None
        if (code.co_flags & 1) and code.co_filename.startswith(REPO + '/pymorphy2'):
            q = code.co_qualname
            if '_c_' not in q:
                seen.add(code.co_filename[len(REPO) + 1:] + ':' + q)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    mon.restart_events()
    return seen


def run_proof(p, timeout_ms=20000):
    t0 = time.time()
    v = V()
    S.start_proof(p.name, timeout_ms=timeout_ms, budget_s=p.budget)
    contracts.USED.clear()
    fns = track_functions()
    status, detail = 'ok', ''

    def body():
        try:
            p.fn(v)
        except Exception as ex:
            raise Unsupported('proof script: %s' % ' / '.join(x.strip() for x in traceback.format_exc().splitlines()[-5:]))
        # reaching the end of the script
    try:
        S.run(body)
    except Unsupported as ex:
        status, detail = 'unsupported', str(ex)
    except Budget as ex:
        status, detail = 'budget', str(ex)
    except Restart:
        status, detail = 'unsupported', 'restart'
    except RecursionError:
        status, detail = 'unsupported', 'recursion'
    obs = {}
    for o in S.results:
        d = obs.setdefault(o.name, dict(name=o.name, ok=True, n=0, backends={}, time=0.0, fails=[]))
        d['n'] += 1
        d['time'] += o.time
        d['backends'][o.backend] = d['backends'].get(o.backend, 0) + 1
        if not o.ok:
            d['ok'] = False
            d['fails'].append(dict(reason=o.reason, model=o.model, path=o.path))
    missing = sorted(n for n in v.names if n not in v.covered)
    if status == 'ok':
        if not S.results:
            status, detail = 'vacuous', 'no obligation was generated'
        elif missing:
            status, detail = 'vacuous', 'never reached on a feasible path: %s' % ', '.join(missing)
    return dict(proof=p.name, props=p.prop, status=status, detail=detail, obligations=list(obs.values()),
                paths=S.paths, restarts=S.restarts, queries=S.queries, solver_time=round(S.solver_time, 3),
                wall=round(time.time() - t0, 3), functions=sorted(fns), builtins=sorted(contracts.USED),
                assumes=p.assumes, declared=p.functions)
