# -*- coding: utf-8 -*-
"""Core of the deductive verifier: path exploration, verification conditions, symbolic values.

Programs are executed natively by CPython after a mechanical source transformation (transform.py) that routes
operators, calls and loops through the runtime (runtime.py).  A path is a list of decisions; exploration is depth first
by deterministic re-execution.  All scalar values are z3 terms; a branch on a symbolic truth value forks the path.
"""
import fractions
import time
import z3

Obj = z3.DeclareSort('Obj')
StrS = z3.StringSort()
IntS = z3.IntSort()
BoolS = z3.BoolSort()
RealS = z3.RealSort()
SetS = z3.ArraySort(StrS, BoolS)


_STRINGY = {}


def with_strings(f):
    """Is there a string in the formula?"""
    k = f.get_id()
    if k not in _STRINGY:
        stack, seen, found = [f], set(), False
        while stack and not found:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            found = x.sort() == z3.StringSort()
            stack.extend(x.children())
        _STRINGY[k] = (f, found)
    return _STRINGY[k][1]


class PathEnd(BaseException):
    """The current path is finished (infeasible, summarised, or a goal branch that is complete)."""


class Unsupported(BaseException):
    """The code under verification left the supported subset."""


class Restart(BaseException):
    """A loop assumption (frame or candidate invariant) was refuted: restart the proof without it."""


class Budget(BaseException):
    """The proof's time or path budget ran out."""


class Obligation(object):
    __slots__ = ('name', 'ok', 'backend', 'time', 'reason', 'model', 'path')

    def __init__(self, name, ok, backend, t, reason='', model=None, path=None):
        self.name = name
        self.ok = ok
        self.backend = backend
        self.time = t
        self.reason = reason
        self.model = model
        self.path = path


class LoopInfo(object):
    def __init__(self):
        self.mut = set()        # oids of pre-existing containers the body changes
        self.dropped = set()    # refuted candidate invariants
        self.alts = []
        self.breaks = []
        self.break_members = []
        self.break_given = []
        self.widen = set()


class Entry(object):
    __slots__ = ('kind', 'f', 'known')

    def __init__(self, kind, f, known=False):
        self.kind = kind
        self.f = f
        self.known = known          # a fact that is also stated for all iterations of the loop it comes from


class Ctx(object):
    """State of the proof being run and of the current path."""

    def __init__(self):
        self.active = False

    # ---------------------------------------------------------------- proof level
    def start_proof(self, name, timeout_ms=20000, budget_s=240, max_paths=6000):
        self.name = name
        self.timeout_ms = timeout_ms
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.loops = {}
        self.answers = {}       # queries already answered
        self.closed_by = {}     # obligation -> stage of the proof search that closed it
        self.persist = set()    # what restarts have established
        self.node_ids = {}
        self.node_cache = {}
        self.results = []
        self.tainted = ''
        self.backend_cvc5 = True
        self.paths = 0
        self.restarts = 0
        self.reached = {}
        self.queries = 0
        self.solver_time = 0.0
        self.cov = {}
        self.extra_invariants = []
        self.ways = {}          # the terms that say which way the code went (see choose_one)
        self.picks = {}         # the terms for the elements at which a loop was left
        self.natives = {}       # native objects that stay the same in every re-execution of the proof
        self.kinds = {}         # name of an index constant / witness function -> the list it ranges over

    def run(self, fn):
        self.active = True
        try:
            while True:
                try:
                    self._explore(fn)
                    return
                except Restart:
                    self.restarts += 1
                    if self.restarts > 60:
                        raise Unsupported('loop assumptions did not stabilise')
                    for li in self.loops.values():
                        li.alts = []
                        li.breaks = []
                        li.break_given = []
                        li.break_members = []
                    self.results = []
                    self.ways, self.picks = {}, {}
                    self.reached = {}
                    self.node_ids = {}
                    self.node_cache = {}
        finally:
            self.active = False

    def _explore(self, fn):
        self.stack = [[]]
        while self.stack:
            plan = self.stack.pop()
            self.paths += 1
            if self.paths > self.max_paths or time.time() > self.deadline:
                raise Budget('proof budget exhausted (%d paths)' % self.paths)
            self._start_path(plan)
            try:
                fn()
            except PathEnd:
                pass
            self.cov['paths'] = self.paths

    def _start_path(self, plan):
        self.plan = plan
        self.trail = []
        self.pos = 0
        self.node = 0
        self.k = 0
        self.entries = []
        self.univ = []
        self.univ_at = []       # how many entries there were when the universal fact was stated
        self.univ_done = set()
        self.derived = []
        self.cands = {}
        self.idx = []
        self.gidx = []          # binders of the formula being built (proofapi.some)
        self.loopstack = []
        self.clock = 0
        self.heap = {}
        self.inputs = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 1000)
        self.memo = {}
        self.writes = []
        self.frozen_ok = True
        self.pending = []
        self.returned = None    # (how many universal facts there were when the code under proof returned)

    def alive(self):
        """The context is not contradictory, as far as can be seen."""
        from . import abstraction
        univ = self.univ if self.returned is None else self.univ[:self.returned]
        return not abstraction.unsat_quant([en.f for en in self.entries], univ, 500)

    # ---------------------------------------------------------------- decisions
    def _step(self, choice):
        self.trail.append(choice)
        key = (self.node, choice)
        nid = self.node_ids.get(key)
        if nid is None:
            nid = self.node_ids[key] = len(self.node_ids) + 1
        self.node = nid
        self.k = 0

    def choose(self, options, label=''):
        """options: list of (label) values; returns the chosen one. Explored in order."""
        n = len(options)
        if n == 0:
            raise PathEnd()
        if self.gidx and n > 1:
            raise Unsupported('case distinction inside a quantified formula')
        if self.pos < len(self.plan):
            c = self.plan[self.pos]
        else:
            c = 0
            for alt in range(n - 1, 0, -1):
                self.stack.append(self.trail + [alt])
        self.pos += 1
        self._step(c)
        return options[c]

    def choose_one(self, options, label=''):
        """choose(), where the cases exclude each other: inside a loop body every iteration follows one of them."""
        if len(options) < 2 or not self.idx:
            return self.choose(options, label)
        t = self.fresh('way', IntS)
        self.ways[t.decl().name()] = (list(self.idx), t, [t == k for k in range(len(options))])
        c = self.choose(range(len(options)), label)
        self.add('dec', t == c)
        return options[c]

    def choose_feasible(self, options, conds, label=''):
        """choose() among the options whose condition is consistent with the path (computed once per node)."""
        key = (self.node, self.k, label)
        ok = self.node_cache.get(key)
        if ok is None:
            ok = [i for i, c in enumerate(conds) if self.feasible(c)]
            self.node_cache[key] = ok
        if len(ok) == 1:
            return options[ok[0]]
        return options[self.choose_one(ok, label)]

    def fork(self, e):
        """Branch on a z3 boolean; returns a Python bool."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.plan):
            c = self.plan[self.pos]
            self.pos += 1
            self._step(c)
            if c in (0, 1):
                val = (c == 0)
                self.add('dec', e if val else z3.Not(e))
                return val
            return c == 2          # forced: 2 -> True, 3 -> False
        t_ok = self.feasible(e)
        f_ok = self.feasible(z3.Not(e)) if t_ok else True
        if t_ok and f_ok and self.gidx:
            raise Unsupported('branch inside a quantified formula')
        self.pos += 1
        if t_ok and f_ok:
            self.stack.append(self.trail + [1])
            self._step(0)
            self.add('dec', e)
            return True
        if t_ok:
            self._step(2)
            return True
        self._step(3)
        return False

    def feasible(self, *extra):
        t = time.time()
        key = ('f',) + tuple([en.f.get_id() for en in self.entries]) + tuple([f.get_id() for f in extra])
        hit = self.answers.get(key)
        if hit is not None:
            return hit[0]
        self.solver.push()
        try:
            for f in extra:
                self.solver.add(f)
            r = self.solver.check()
        finally:
            self.solver.pop()
        self.queries += 1
        self.answers[key] = (r != z3.unsat, [en.f for en in self.entries], extra)   # keeps the terms (and their ids) alive
        self.solver_time += time.time() - t
        if time.time() > self.deadline:
            raise Budget('proof budget exhausted')
        return r != z3.unsat

    # ---------------------------------------------------------------- assumptions and obligations
    def add(self, kind, f):
        if isinstance(f, bool):
            if f:
                return
            f = z3.BoolVal(False)
        self.entries.append(Entry(kind, f))
        self.solver.add(f)

    def assume(self, f):
        """Add a fact that holds by a contract (not a branch decision)."""
        if self.gidx:
            return self.add_univ([], f if not isinstance(f, bool) else z3.BoolVal(f))
        self.add('fact', f)
        if isinstance(f, bool) and not f or (not isinstance(f, bool) and z3.is_false(z3.simplify(f))):
            raise PathEnd()

    def add_univ(self, binders, f):
        """A universally quantified fact; instantiated on the candidate terms when an obligation is checked."""
        bs = self.gidx + list(binders)
        used = [b for b in bs if b.decl().arity() == 0]
        if len(used) == len(bs):        # the same fact with other names for the binders adds nothing
            pos = {}
            reps = []
            for b in bs:
                k = (sort_key(b), self.kind(b))
                pos[k] = pos.get(k, 0) + 1
                reps.append(z3.Const('b!%s!%s!%d' % (k[0], k[1], pos[k]), b.sort()))
            c = z3.simplify(z3.substitute(f, *list(zip(bs, reps))) if bs else f)
            if z3.is_true(c) or c.get_id() in self.univ_done:
                return
            self.univ_done.add(c.get_id())
            self.memo.setdefault('keepu', []).append(c)
        self.univ.append((bs, f))
        self.univ_at.append(len(self.entries))

    def kind(self, t):
        """Which list an index term ranges over (None: unknown)."""
        return self.kinds.get(t.decl().name()) if z3.is_app(t) else None

    def set_kind(self, t, kind):
        if kind is not None and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            self.kinds[t.decl().name()] = kind

    def cand(self, t, kind=None):
        """A term universal facts are instantiated with."""
        lst = self.cands.setdefault(sort_key(t), [])
        if kind is None:
            kind = self.kind(t)
        if not any(t.eq(x) and k == kind for x, k in lst):
            lst.append((t, kind))

    def pool(self, derived=True):
        """Candidate terms per sort, plus one round of derived witnesses."""
        pool = dict((k, list(l)) for k, l in self.cands.items())
        if derived:
            for tup in self.witnesses():
                for x in tup:
                    lst = pool.setdefault(sort_key(x), [])
                    if not any(x.eq(y) for y, _ in lst):
                        lst.append((x, self.kind(x)))
        return pool

    def witnesses(self):
        """Tuples of witness terms for the candidate terms."""
        import itertools
        out = {}
        for binders, terms in self.derived:
            for combo in itertools.islice(itertools.product(*[self.suited(b, self.cands, True) for b in binders]), 200):
                tup = tuple(z3.substitute(t, *list(zip(binders, combo))) for t in terms)
                out[tuple(t.get_id() for t in tup)] = tup
        return list(out.values())

    def suited(self, b, pool, typed):
        """Candidates for binder ``b``: those ranging over the same list, or all of its sort."""
        kb = self.kind(b)
        out = []
        for t, k in pool.get(sort_key(b), []):
            if not typed or kb is None or k is None or k == kb:
                if not any(t.eq(x) for x in out):
                    out.append(t)
        return out

    def instances(self, typed=False, derived=True):
        """(binders, formula, combinations of candidate terms) of each universal fact.

        typed: terms that range over the binders' lists; witnesses of one fact are used together."""
        import itertools
        tuples = [(t, [self.kind(x) for x in t]) for t in self.witnesses()] if derived and typed else []
        cands = self.cands if typed else self.pool(derived)
        memo = {}
        for binders, f in self.univ:
            pools = []
            kinds = []
            for b in binders:
                k = (sort_key(b), self.kind(b))
                if k not in memo:
                    memo[k] = self.suited(b, cands, typed)
                pools.append(memo[k])
                kinds.append(k[1])
            combos = list(itertools.islice(itertools.product(*pools), 4000 if typed else 1500))
            done = set()
            for tup, tk in tuples:
                if len(binders) > 2 * len(tup):
                    continue
                fixed, start = {}, 0
                for x, k in zip(tup, tk):
                    for j in range(start, len(binders)):
                        if kinds[j] == k and k is not None:
                            fixed[j] = x
                            start = j + 1
                            break
                if not fixed:
                    continue
                key = tuple((j, x.get_id()) for j, x in sorted(fixed.items()))
                if key in done:
                    continue
                done.add(key)
                ps = [[fixed[j]] if j in fixed else pools[j] for j in range(len(binders))]
                combos.extend(itertools.islice(itertools.product(*ps), 200))
            yield binders, f, combos

    def univ_instances(self, typed=False, derived=True, limit=20000):
        out = {}
        for binders, f, combos in self.instances(typed, derived):
            limit -= len(combos)
            if limit < 0:
                break               # too many to be of use (the others are left out: fewer facts)
            for combo in combos:
                x = z3.simplify(z3.substitute(f, *list(zip(binders, combo))))
                if not z3.is_true(x):
                    out[x.get_id()] = x
        return list(out.values())

    def many(self):
        n = 0
        for _, _, combos in self.instances(True, False):
            n += len(combos)
            if n > 6000:
                return True
        return False

    def taint(self, why):
        """From here on failed obligations of this proof may be due to what was forgotten: they decide nothing."""
        self.tainted = why

    def prove(self, name, goal, hints=()):
        """Discharge ``goal`` under the current path condition; record the obligation. Returns True if discharged."""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.reached[name] = self.reached.get(name, 0) + 1
        t0 = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.results.append(Obligation(name, True, 'simplifier', time.time() - t0))
            return True
        from . import abstraction
        ok, backend, reason, model = False, '', '', None
        neg = z3.Not(goal)
        size, few = -1, None
        order = ['bare', 'short', 'few', 'ways', 'quant', 'abstract', 'typed', 'all']
        if len(self.univ) > 120:        # too many instances
            order = ['bare', 'short', 'ways', 'quant', 'few', 'abstract', 'typed', 'all']
        if name in self.closed_by and self.closed_by[name] in order:      # what worked for it on another path first
            order.remove(self.closed_by[name])
            order.insert(0, self.closed_by[name])
        while order:
            stage = order.pop(0)
            if time.time() - t0 > 40 * abstraction.SCALE[0] and stage in ('abstract', 'typed', 'all'):
                reason = reason or 'unknown: time'
                backend = backend or 'z3'
                break
            if stage == 'ways':
                if self.by_ways([en.f for en in self.entries] + list(hints) + [neg]):
                    ok, backend, reason, model = True, 'z3', '', None
                    break
                continue
            if stage == 'bare':
                from . import abstraction
                if abstraction.unsat([en.f for en in self.entries] + list(hints) + [neg], [], 500):
                    ok, backend, reason, model = True, 'z3', '', None
                    break
                continue
            if stage in ('short', 'quant'):
                self.queries += 1
                from . import abstraction
                if abstraction.unsat_quant([en.f for en in self.entries] + list(hints) + [neg], self.univ,
                                          700 if stage == 'short' else 5000):
                    ok, backend, reason, model = True, 'z3', '', None
                    break
                continue
            if stage == 'abstract':
                self.queries += 1
                from . import abstraction
                insts, n = [], 0
                for x in self.instances(True, True):
                    n += len(x[2])
                    if n > 60000:
                        break
                    insts.append(x)
                if abstraction.unsat([en.f for en in self.entries] + list(hints) + [neg], insts, 10000):
                    ok, backend, reason, model = True, 'z3', '', None
                    break
                continue
            if stage == 'few' and 'ways' in order and 'quant' in order and self.many():
                order.insert(order.index('quant') + 1, 'few')       # too many instances: later
                continue
            inst = self.univ_instances(stage != 'all', stage != 'few')
            if len(inst) == size and (few is False or reason.startswith('counter')):
                continue            # nothing new to try
            size = len(inst)
            few = (stage == 'few')
            if few and self.tries([en.f for en in self.entries], list(hints) + inst, neg):
                ok, backend, reason, model = True, 'z3', '', None
                break
            ok, backend, reason, model = self.solve(list(hints) + inst + [neg], 1500 if few else None, not few)
            if ok:
                break
        if ok and stage != "short":
            self.closed_by[name] = stage
        dt = time.time() - t0
        self.solver_time += dt
        if not ok and self.tainted:
            reason = 'imprecise: %s (%s)' % (self.tainted, reason)
        self.results.append(Obligation(name, ok, backend, dt, reason, model, self.describe_path() if not ok else None))
        self.entries.append(Entry('fact', goal))
        self.solver.add(goal)
        if not ok and z3.is_false(g):
            raise PathEnd()
        return ok

    def entails(self, goal, timeout=4000):
        """True if the current path condition implies ``goal`` (used for candidate invariants; not an obligation)."""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_true(z3.simplify(goal)):
            return True
        t = time.time()
        key = (('e', timeout) + tuple([en.f.get_id() for en in self.entries]), tuple([f.get_id() for _, f in self.univ]),
               tuple([t.get_id() for _, ts in self.derived for t in ts]),
               tuple([t.get_id() for l in self.cands.values() for t, _ in l]), goal.get_id())
        hit = self.answers.get(key)
        if hit is not None:
            return hit[0]
        s = z3.Solver()
        s.set('timeout', timeout)
        for en in self.entries:
            s.add(en.f)
        s.add(z3.Not(goal))
        done = 0
        for typed in (True, None, False):
            if typed is None:
                from . import abstraction
                self.queries += 1
                if self.univ and abstraction.unsat_quant([en.f for en in self.entries] + [z3.Not(goal)], self.univ, 500):
                    r = z3.unsat
                    break
                continue
            inst = self.univ_instances(typed, True, 2000)
            if not typed and len(inst) <= done:
                break
            done = len(inst)
            for f in inst:
                s.add(f)
            r = s.check()
            self.queries += 1
            if r == z3.unsat:
                break
        self.solver_time += time.time() - t
        self.answers[key] = (r == z3.unsat, [en.f for en in self.entries], list(self.univ), list(self.derived),
                             [list(l) for l in self.cands.values()], goal)
        return r == z3.unsat

    def by_ways(self, formulas):
        """First find out which way the code went in the iterations of interest (and which iteration was the last one)."""
        import itertools
        from . import abstraction
        names = set()
        seen = set()
        todo = [f for _, f in self.univ]
        while todo:
            f = todo.pop()
            if f.get_id() in seen:
                continue
            seen.add(f.get_id())
            if z3.is_app(f):
                names.add(f.decl().name())
                todo.extend(f.children())
        const = lambda t: z3.is_app(t) and t.decl().arity() == 0
        tests = []
        for n, (idx, t, lits) in self.ways.items():
            if n in names and all(const(b) for b in idx):
                tests.append((idx, t, lits))
        if not tests:
            return False
        for n, (idx, t) in self.picks.items():
            if n in names and all(const(b) for b in idx):
                tests.append((idx, t, None))
        known = []
        until = time.time() + 12 * abstraction.SCALE[0]
        tests.sort(key=lambda x: len(x[0]))
        for idx, t, lits in tests:
            pools = [self.of_interest(b) for b in idx]
            for combo in itertools.islice(itertools.product(*pools), 6):
                pairs = list(zip(idx, combo))
                at = z3.substitute(t, *pairs)
                ls = [z3.substitute(l, *pairs) for l in lits] if lits else [at == c for c in self.of_interest(t)[:6]]
                for l in ls:
                    if time.time() > until:
                        break
                    self.queries += 1
                    if abstraction.unsat_quant(formulas + known + [z3.Not(l)], self.univ, 400):
                        known.append(l)
                        break
        if not known:
            return False
        sizes = sorted(set(len(bs) for bs, _ in self.univ if len(bs) > 1)) or [1]
        mid = sizes[len(sizes) // 2]
        for most, ms, seed in ((mid, 4000, 0), (4, 8000, 3), (99, 10000, 1)):       # facts about many things at once are seldom of use
            self.queries += 1
            if most == mid == 4 and ms == 4000:
                continue
            if abstraction.unsat_quant(formulas + known, [u for u in self.univ if len(u[0]) <= most], ms, seed):
                return True
        return False

    def of_interest(self, b):
        """Candidates for ``b``, the latest first, without the witnesses of lists that are not empty."""
        return [t for t in self.suited(b, self.cands, True)[::-1] if not t.decl().name().startswith('lw!')]

    def tries(self, entries, extra, neg):
        """Short runs over parts of the facts (the solver's luck with strings varies much with what else is there)."""
        near = [f for f in entries if with_strings(f)]
        for fs in (near + [neg], near + [f for f in extra if with_strings(f)] + [neg], [z3.simplify(f) for f in entries + extra + [neg]]):
            s = z3.Solver()
            s.set('timeout', 400)
            s.add(*fs)
            self.queries += 1
            if s.check() == z3.unsat:
                return True
        return False

    def solve(self, extra, timeout=None, cvc5=True):
        """Is pc + extra unsatisfiable?  z3 first, then cvc5 on the same SMT-LIB text."""
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout_ms)
        for en in self.entries:
            s.add(en.f)
        for f in extra:
            s.add(f)
        self.queries += 1
        r = s.check()
        if r == z3.unsat:
            return True, 'z3', '', None
        model = None
        if r == z3.sat:
            model = self.read_model(s.model())
            return False, 'z3', 'counter-model', model
        from . import backends
        if self.backend_cvc5 and cvc5:
            r2 = backends.cvc5_check(s, self.timeout_ms)
            if r2 == 'unsat':
                return True, 'cvc5', '', None
            if r2 == 'sat':
                return False, 'cvc5', 'counter-model (cvc5)', None
        return False, 'z3+cvc5', 'unknown: %s' % s.reason_unknown(), None

    def read_model(self, m):
        out = {}
        for name, e in self.inputs:
            try:
                v = m.eval(e, model_completion=True)
                if z3.is_string_value(v):
                    out[name] = py_string(v)
                elif z3.is_int_value(v):
                    out[name] = v.as_long()
                else:
                    out[name] = str(v)[:300]
            except Exception as ex:     # model reading is best effort
                out[name] = '?%s' % ex
        return out

    def describe_path(self):
        return [' '.join(str(en.f).split())[:160] for en in self.entries if en.kind == 'dec'][-12:]

    # ---------------------------------------------------------------- naming
    def name_for(self, base):
        self.k += 1
        return '%s!%d!%d' % (base, self.node, self.k)

    def fresh(self, base, sort):
        """A fresh unknown; inside loop bodies it is a function of the loop indices so that summaries stay closed."""
        nm = self.name_for(base)
        if not self.idx:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *([b.sort() for b in self.idx] + [sort]))
        return f(*self.idx)

    def fresh_like(self, base, b):
        """A fresh unknown of the sort of ``b`` ranging over the same list."""
        t = self.fresh(base, b.sort())
        self.set_kind(t, self.kind(b))
        return t

    def fresh_binder(self, base, sort, kind=None):
        nm = self.name_for(base)
        self.kinds[nm] = kind if kind is not None else nm
        return z3.Const(nm, sort)

    def tick(self):
        self.clock += 1
        return self.clock


S = Ctx()


def sort_key(t):
    return t.sort().name() if not z3.is_array(t) else str(t.sort())


def py_string(v):
    s = v.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


# ====================================================================== symbolic scalars

def is_sym(v):
    return isinstance(v, Sym)


class Sym(object):
    __slots__ = ('e',)
    __hash__ = None

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, str(self.e)[:120])

    def _rebuild(self, e):
        return type(self)(e)


def zint(v):
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('int expected, got %r' % (v,))


def zreal(v):
    if isinstance(v, SReal):
        return v.e
    if isinstance(v, (SInt, bool)) or (isinstance(v, int)):
        return z3.ToReal(zint(v))
    if isinstance(v, float):
        return z3.RealVal(fractions.Fraction(repr(v)))
    raise Unsupported('number expected, got %r' % (v,))


def zstr(v):
    if isinstance(v, SStr):
        return v.e
    if isinstance(v, str):
        return str_val(v)
    raise Unsupported('str expected, got %r' % (v,))


def str_val(s):
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))


def zbool(v):
    """z3 truth formula of any supported value."""
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, Sym):
        return v._truth()
    if hasattr(v, '_truth'):
        t = v._truth()
        return z3.BoolVal(t) if isinstance(t, bool) else t
    return z3.BoolVal(bool(v))


def is_num(v):
    return isinstance(v, (SInt, SReal, int, float)) and not isinstance(v, bool) or isinstance(v, (bool, SBool))


class SBool(Sym):
    __slots__ = ()

    def __init__(self, e):
        self.e = e if not isinstance(e, bool) else z3.BoolVal(e)

    def __bool__(self):
        return S.fork(self.e)

    def _truth(self):
        return self.e

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.e == zbool(o))
        return False

    def __ne__(self, o):
        return SBool(z3.Not(zbool(self == o)))


def _num2(a, b, fi, fr):
    if isinstance(a, (SInt, SBool, int)) and isinstance(b, (SInt, SBool, int)):
        return fi(zint(a), zint(b))
    return fr(zreal(a), zreal(b))


class _Num(Sym):
    __slots__ = ()

    def __bool__(self):
        return S.fork(self._truth())

    def _truth(self):
        return self.e != 0

    def _arith(self, o, op, rev=False):
        if not is_num(o):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if op == '/':
            bz = zreal(b)
            if S.fork(bz == 0):
                raise ZeroDivisionError('division by zero')
            return SReal(zreal(a) / bz)
        if op in ('//', '%'):
            if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
                raise Unsupported('float floor division')
            bz = zint(b)
            if S.fork(bz == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            if not S.fork(bz > 0):
                raise Unsupported('division by a negative integer')
            az = zint(a)
            return SInt(az / bz) if op == '//' else SInt(az % bz)
        f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[op]
        isint = isinstance(a, (SInt, SBool, int)) and isinstance(b, (SInt, SBool, int))
        return SInt(f(zint(a), zint(b))) if isint else SReal(f(zreal(a), zreal(b)))

    def __add__(self, o): return self._arith(o, '+')
    def __radd__(self, o): return self._arith(o, '+', True)
    def __sub__(self, o): return self._arith(o, '-')
    def __rsub__(self, o): return self._arith(o, '-', True)

    def __mul__(self, o):
        if isinstance(o, (str, tuple)) or not is_num(o):
            return NotImplemented
        return self._arith(o, '*')
    __rmul__ = __mul__

    def __truediv__(self, o): return self._arith(o, '/')
    def __rtruediv__(self, o): return self._arith(o, '/', True)
    def __floordiv__(self, o): return self._arith(o, '//')
    def __rfloordiv__(self, o): return self._arith(o, '//', True)
    def __mod__(self, o): return self._arith(o, '%')
    def __rmod__(self, o): return self._arith(o, '%', True)
    def __neg__(self): return type(self)(-self.e)
    def __pos__(self): return self

    def __abs__(self):
        return type(self)(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, op):
        if not is_num(o):
            return NotImplemented
        f = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
             '==': lambda x, y: x == y, '!=': lambda x, y: x != y}[op]
        return SBool(_num2(self, o, f, f))

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r


class SInt(_Num):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported('symbolic int used as a native index')

    __int__ = __index__

    def __lshift__(self, o): raise Unsupported('shift')


class SReal(_Num):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __float__(self):
        raise Unsupported('symbolic real used as a native float')


# uninterpreted string functions (contracts in contracts.py)
U_lower = z3.Function('lower', StrS, StrS)
U_upper = z3.Function('upper', StrS, StrS)
U_title = z3.Function('title', StrS, StrS)


def _no_text(e):
    return e == z3.StringVal('')

P_lc = z3.Function('is_lowercased', StrS, BoolS)      # every character is a fixed point of lower()
P_isspace = z3.Function('isspace', StrS, BoolS)
P_isalpha = z3.Function('isalpha', StrS, BoolS)
P_islower = z3.Function('islower', StrS, BoolS)
P_isupper = z3.Function('isupper', StrS, BoolS)
P_istitle = z3.Function('istitle', StrS, BoolS)


U_from = z3.Function('slice_last', StrS, IntS, StrS)       # s[-m:] and s[:-m] for any integer m
U_upto = z3.Function('slice_but_last', StrS, IntS, StrS)


def cut_from(s, k, fact=True):
    return _cut(s, k, fact, True)


def cut_upto(s, k, fact=True):
    return _cut(s, k, fact, False)


def _cut(s, k, fact, tail):
    k = z3.simplify(k)
    n = z3.Length(s)
    r = (U_from if tail else U_upto)(s, z3.simplify(-k))
    if fact:
        at = z3.If(k >= 0, z3.If(k <= n, k, n), z3.If(n + k >= 0, n + k, z3.IntVal(0)))
        S.assume(r == (z3.SubString(s, at, n - at) if tail else z3.SubString(s, z3.IntVal(0), at)))
        S.assume(z3.Length(r) == (n - at if tail else at))
    return r


class SStr(Sym):
    __slots__ = ('lc',)

    def __init__(self, e, lc=None):
        self.e = e
        self.lc = lc

    def _truth(self):
        return z3.Length(self.e) > 0

    def __bool__(self):
        return S.fork(self._truth())

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return SBool(self.e == zstr(o))
        return False

    def __ne__(self, o):
        if isinstance(o, (str, SStr)):
            return SBool(self.e != zstr(o))
        return True

    def __lt__(self, o): return SBool(self.e < zstr(o))
    def __le__(self, o): return SBool(self.e <= zstr(o))
    def __gt__(self, o): return SBool(zstr(o) < self.e)
    def __ge__(self, o): return SBool(zstr(o) <= self.e)

    def __add__(self, o):
        if not isinstance(o, (str, SStr)):
            raise TypeError('can only concatenate str')
        return SStr(z3.Concat(self.e, zstr(o)))

    def __radd__(self, o):
        if not isinstance(o, (str, SStr)):
            raise TypeError('can only concatenate str')
        return SStr(z3.Concat(zstr(o), self.e))

    def length(self):
        return SInt(z3.Length(self.e))

    def __contains__(self, o):
        return S.fork(z3.Contains(self.e, zstr(o)))

    def __getitem__(self, i):
        n = z3.Length(self.e)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('string slice step')
            lo = self._clamp(i.start, z3.IntVal(0), n)
            hi = self._clamp(i.stop, n, n)
            if i.stop is None and isinstance(i.start, SInt) and z3.is_app_of(lo, z3.Z3_OP_ITE):
                return self._part(cut_from(self.e, i.start.e))
            if i.start is None and isinstance(i.stop, SInt) and z3.is_app_of(hi, z3.Z3_OP_ITE):
                return self._part(cut_upto(self.e, i.stop.e))
            return self._part(z3.SubString(self.e, lo, hi - lo))
        iz = zint(i)
        if S.fork(z3.Or(iz >= n, iz < -n)):
            raise IndexError('string index out of range')
        if isinstance(i, int):
            pos = iz if i >= 0 else n + iz
        else:
            pos = z3.If(iz >= 0, iz, n + iz)
        return self._part(z3.SubString(self.e, pos, z3.IntVal(1)))

    def _part(self, e):
        if self.lc:
            S.assume(P_lc(e))       # the parts of a lower-cased string are lower-cased
        return SStr(e, self.lc)

    @staticmethod
    def _clamp(i, default, n):
        if i is None:
            return default
        if isinstance(i, int):
            if i >= 0:
                return z3.If(z3.IntVal(i) <= n, z3.IntVal(i), n) if i else z3.IntVal(0)
            return z3.If(n + i >= 0, n + i, z3.IntVal(0))
        e = i.e
        if S.entails(e >= 0, 1500):
            if S.entails(e <= n, 1500):
                return e
            return z3.If(e <= n, e, n)
        if S.entails(e <= 0, 1500):     # -len(x): note that -0 is 0
            return z3.If(e == 0, z3.IntVal(0), z3.If(n + e >= 0, n + e, z3.IntVal(0)))
        return z3.If(e >= 0, z3.If(e <= n, e, n), z3.If(n + e >= 0, n + e, z3.IntVal(0)))

    # --- methods
    def startswith(self, p):
        if isinstance(p, tuple):
            r = z3.BoolVal(False)
            for x in p:
                r = z3.Or(r, z3.PrefixOf(zstr(x), self.e))
            return SBool(r)
        if getattr(p, '_real', None) is tuple:
            from . import runtime
            return runtime._quant(runtime.map_(lambda x: SBool(z3.PrefixOf(zstr(x), self.e)), p), True)
        return SBool(z3.PrefixOf(zstr(p), self.e))

    def endswith(self, p):
        if isinstance(p, tuple):
            return SBool(z3.Or(*[z3.SuffixOf(zstr(x), self.e) for x in p]))
        return SBool(z3.SuffixOf(zstr(p), self.e))

    def lower(self):
        r = U_lower(self.e)
        S.assume(_no_text(self.e) == _no_text(r))
        S.assume(P_lc(r))
        S.assume(z3.Implies(P_lc(self.e), r == self.e))
        return SStr(r, True)

    def upper(self):
        r = U_upper(self.e)
        S.assume(_no_text(self.e) == _no_text(r))
        return SStr(r)

    def title(self):
        r = U_title(self.e)
        S.assume(_no_text(self.e) == _no_text(r))
        return SStr(r)

    def isspace(self):
        from . import contracts
        return contracts.str_isspace(self)

    def isalpha(self): return SBool(P_isalpha(self.e))
    def islower(self): return self._cased(P_islower)
    def isupper(self): return self._cased(P_isupper)
    def istitle(self): return self._cased(P_istitle)

    def _cased(self, p):
        # a lower-case text has no upper-case and no title-case letters, and no text without letters has a case
        e = self.e
        S.assume(z3.Not(z3.And(P_islower(e), z3.Or(P_isupper(e), P_istitle(e)))))
        S.assume(z3.Implies(_no_text(e), z3.Not(z3.Or(P_islower(e), P_isupper(e), P_istitle(e)))))
        return SBool(p(e))

    def index(self, sub):
        i = z3.IndexOf(self.e, zstr(sub), z3.IntVal(0))
        if S.fork(z3.Not(z3.Contains(self.e, zstr(sub)))):
            raise ValueError('substring not found')
        S.assume(z3.And(i >= 0, i + z3.Length(zstr(sub)) <= z3.Length(self.e), z3.SubString(self.e, i, z3.Length(zstr(sub))) == zstr(sub)))
        return SInt(i)

    def find(self, sub):
        return SInt(z3.IndexOf(self.e, zstr(sub), z3.IntVal(0)))

    def replace(self, a, b, n=None):
        from . import contracts
        return contracts.str_replace(self, a, b, n)

    def split(self, sep=None, maxsplit=-1):
        from . import contracts
        return contracts.str_split(self, sep, maxsplit)

    def strip(self, chars=None):
        from . import contracts
        return contracts.str_strip(self, chars)

    def partition(self, sep):
        from . import contracts
        return contracts.str_partition(self, sep)

    def lstrip(self, chars=None):
        from . import contracts
        return contracts.str_side_strip(self, 'l', chars)

    def rstrip(self, chars=None):
        from . import contracts
        return contracts.str_side_strip(self, 'r', chars)

    def format(self, *args, **kw):
        from . import contracts
        if not z3.is_string_value(self.e):
            from .runtime import Unsupported
            raise Unsupported('unknown format string')
        return contracts.str_format(self, *args, **kw)

    def count(self, sub):
        from . import contracts
        return contracts.str_count(self, sub)

    def encode(self, enc='utf8'):
        raise Unsupported('encode')

    def join(self, items):
        from . import contracts
        return contracts.str_join(self, items)


class SSet(Sym):
    """An immutable finite set of strings (z3 array)."""
    __slots__ = ('mutable', 'oid', 'birth')

    def __init__(self, e, mutable=False):
        self.e = e
        self.mutable = mutable
        if mutable and S.active:
            self.oid = S.name_for('ms')
            self.birth = S.tick()
            S.heap[self.oid] = self

    def _truth(self):
        r = self.e != z3.EmptySet(StrS)
        set_witness(r, self.e, None)
        return r

    def __bool__(self):
        return S.fork(self._truth())

    def member(self, x):
        if isinstance(x, (str, SStr)):
            return z3.IsMember(zstr(x), self.e)
        raise Unsupported('non-string set member %r' % (x,))

    def __contains__(self, x):
        return S.fork(self.member(x))

    def _o(self, o):
        return zset(o)

    def __or__(self, o): return SSet(z3.SetUnion(self.e, zset(o)), self.mutable)
    def __ror__(self, o): return SSet(z3.SetUnion(zset(o), self.e))
    def __and__(self, o):
        c = concrete_strs(o)
        if c is not None:
            from . import runtime
            return runtime.guarded_set([(x, z3.IsMember(str_val(x), self.e)) for x in c])
        return SSet(z3.SetIntersect(self.e, zset(o)), self.mutable)
    __rand__ = __and__

    def __sub__(self, o): return SSet(z3.SetDifference(self.e, zset(o)), self.mutable)

    def __rsub__(self, o):
        c = concrete_strs(o)
        if c is not None:
            from . import runtime
            return runtime.guarded_set([(x, z3.Not(z3.IsMember(str_val(x), self.e))) for x in c])
        return SSet(z3.SetDifference(zset(o), self.e))

    def __xor__(self, o):
        a, b = self.e, zset(o)
        return SSet(z3.SetUnion(z3.SetDifference(a, b), z3.SetDifference(b, a)), self.mutable)

    def __rxor__(self, o): return SSet(zset(o)) ^ self
    def __le__(self, o): return SBool(subset(self.e, zset(o)))

    def __ge__(self, o):
        c = concrete_strs(o)
        if c is not None:
            return SBool(zand(*[z3.IsMember(str_val(x), self.e) for x in c]))
        return SBool(subset(zset(o), self.e))
    def issubset(self, o): return self <= o
    def issuperset(self, o): return self >= o
    def isdisjoint(self, o): return SBool(z3.SetIntersect(self.e, zset(o)) == z3.EmptySet(StrS))
    def intersection(self, o): return self & o
    def union(self, o): return self | o
    def difference(self, o): return self - o
    def symmetric_difference(self, o): return self ^ o

    def __eq__(self, o):
        try:
            return SBool(self.e == zset(o))
        except Unsupported:
            return False

    def __ne__(self, o):
        return SBool(z3.Not(zbool(self == o)))

    def copy(self):
        return SSet(self.e, self.mutable)

    # in-place changes replace the term of a set created by the code itself; loops summarise them (runtime.Loop)
    def update(self, *os):
        self._own()
        for o in os:
            self.e = z3.SetUnion(self.e, zset(o))

    def difference_update(self, *os):
        self._own()
        for o in os:
            self.e = z3.SetDifference(self.e, zset(o))

    def clear(self):
        self._own()
        self.e = z3.EmptySet(StrS)

    def add(self, x):
        self._own()
        self.e = z3.SetAdd(self.e, zstr(x))

    def remove(self, x):
        self._own()
        if not S.fork(self.member(x)):
            raise KeyError(x)
        self.e = z3.SetDel(self.e, zstr(x))

    def discard(self, x):
        self._own()
        self.e = z3.SetDel(self.e, zstr(x))

    def _own(self):
        if not self.mutable:
            raise Unsupported('mutation of a shared set')
        new = [L.note_mutation(self) for L in S.loopstack]
        if any(new):
            raise Restart()


def set_witness(f, a, b):
    """f implies that a has a member (outside b): name it, so that universal facts are instantiated with it."""
    if not S.active or S.gidx:
        return
    key = ('setwit', f.sexpr())
    if key in S.memo:
        return
    w = S.memo[key] = S.fresh('sw', StrS)
    S.assume(z3.Implies(f, zand(z3.IsMember(w, a), *([] if b is None else [z3.Not(z3.IsMember(w, b))]))))
    S.cand(w)


def subset(a, b):
    r = z3.IsSubset(a, b)
    set_witness(z3.Not(r), a, b)
    return r


def concrete_strs(o):
    if isinstance(o, (set, frozenset)) and all(isinstance(x, str) for x in o):
        return sorted(str(x) for x in o)
    if hasattr(o, '_concrete_strs'):
        return o._concrete_strs()
    return None


def zset(o):
    if isinstance(o, SSet):
        return o.e
    if hasattr(o, '_as_zset'):
        return o._as_zset()
    if isinstance(o, (set, frozenset)):
        r = z3.EmptySet(StrS)
        for x in sorted(o):
            r = z3.SetAdd(r, str_val(x))
        return r
    raise Unsupported('set expected, got %r' % (o,))


U_card = z3.Function('card', SetS, IntS)


class SObj(Sym):
    """Opaque object identified by a term of sort Obj; subclasses give it the contract of its methods."""
    __slots__ = ('__dict__',)

    def __init__(self, e):
        self.e = e

    def _truth(self):
        return z3.BoolVal(True)

    def __eq__(self, o):
        if isinstance(o, SObj):
            return SBool(self.e == o.e)
        return False

    def __ne__(self, o):
        return SBool(z3.Not(zbool(self == o)))


# ====================================================================== structural helpers

def eq(a, b):
    """z3 formula (or bool) for Python equality of two values."""
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        rs = [eq(x, y) for x, y in zip(a, b)]
        if any(r is False for r in rs):
            return False
        rs = [r for r in rs if r is not True]
        return z3.And(*rs) if rs else True
    if hasattr(a, '_eq'):
        return a._eq(b)
    if hasattr(b, '_eq'):
        return b._eq(a)
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = (a == b) if isinstance(a, Sym) else (b == a)
        return r.e if isinstance(r, SBool) else r
    r = (a == b)
    if isinstance(r, SBool):
        return r.e
    return bool(r)


def zand(*fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return z3.BoolVal(False)
        out.append(f)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)


def subst(v, pairs):
    """Substitute z3 constants inside an arbitrary value."""
    if not pairs:
        return v
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if hasattr(v, '_subst'):
        return v._subst(pairs)
    if isinstance(v, SStr):
        return SStr(z3.substitute(v.e, *pairs))
    if isinstance(v, SSet):
        return SSet(z3.substitute(v.e, *pairs))
    if isinstance(v, SObj):
        n = v.__class__.__new__(v.__class__)
        n.__dict__.update(v.__dict__)
        n.e = z3.substitute(v.e, *pairs)
        return n
    if isinstance(v, Sym):
        return type(v)(z3.substitute(v.e, *pairs))
    if isinstance(v, tuple):
        t = tuple(subst(x, pairs) for x in v)
        if type(v) is not tuple:
            return type(v)(*t) if hasattr(v, '_fields') else t
        return t
    return v
