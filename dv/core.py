"""Solver context, path exploration and the undo trail of the deductive verifier.

The verifier executes the *live* functions of the code under test symbolically (see interp.py).  This module holds
what is independent of Python's syntax: path conditions, forking, the heap trail, quantified facts and obligations.
"""
import contextlib
import mmap
import os
import struct
import time

import z3

z3.set_param('auto_config', True)

from .fastz3 import apps_of

FEAS_MS = int(os.environ.get('DV_FEAS_MS', '1500'))
GOAL_MS = int(os.environ.get('DV_GOAL_MS', '12000'))


class Early(object):
    """Shared by all processes: once something has failed, the rest of the proof may take only so much longer."""

    def __init__(self):
        self.m = mmap.mmap(-1, 8)

    def get(self):
        return struct.unpack('d', self.m[:8])[0]

    def hurry(self, seconds):
        t = time.time() + seconds
        if not self.get() or t < self.get():
            self.m[:8] = struct.pack('d', t)


EARLY = Early()


class Unsupported(Exception):
    """The code (or the property) is outside the verifier's reach; never an alarm by itself."""


class PathEnd(Exception):
    """This path is infeasible, or the specification leaves its behaviour open."""


class Unspecified(PathEnd):
    """Raised by ``need`` when the precondition of a specification does not hold."""


class Raised(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, exc):
        Exception.__init__(self, exc)
        self.exc = exc


class D(dict):
    """A dictionary of mutable cells; every write goes through Ctx.write so that it can be undone."""
    __slots__ = ('birth', 'owner')
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o


MISSING = object()
IntS = z3.IntSort()
BoolS = z3.BoolSort()
StrS = z3.DeclareSort('PyStr')
BytS = z3.DeclareSort('PyBytes')
ObjS = z3.DeclareSort('PyObj')


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def is_sint(v):
    return isinstance(v, z3.ArithRef)


def is_sbool(v):
    return isinstance(v, z3.BoolRef)


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def quotient(x, c):
    """x / c for a linear term whose coefficients c divides, else None"""
    out = []
    for e in (x.children() if x.decl().kind() == z3.Z3_OP_ADD else [x]):
        if z3.is_int_value(e):
            q, y = e.as_long(), None
        elif e.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(e.arg(0)) and e.num_args() == 2:
            q, y = e.arg(0).as_long(), e.arg(1)
        else:
            q, y = 1, e
        if q % c:
            return None
        out.append(z3.IntVal(q // c) if y is None else (q // c) * y)
    return z3.simplify(z3.Sum(*out))


def contains(e, v):
    st = [e]
    while st:
        x = st.pop()
        if x.eq(v):
            return True
        st.extend(x.children())
    return False


class ForallFact(object):
    """for all i in [lo, hi): (And simple(i)) and nested facts(i)"""

    def __init__(self, lo, hi, var, simple, nested=()):
        self.lo, self.hi, self.var, self.simple, self.nested = lo, hi, var, simple, list(nested)

    def subst(self, pairs):
        # the bound variable is a fresh constant, so no capture is possible
        return ForallFact(zsub(self.lo, pairs), zsub(self.hi, pairs), self.var,
                          zsub(self.simple, pairs), [n.subst(pairs) for n in self.nested])


def zsub(e, pairs):
    if not is_sym(e):
        return e
    if not pairs:
        return e
    return z3.substitute(e, *[(a, iv(b)) for a, b in pairs])


class Frame(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.i = 0
        self.taken = []
        self.pending = []
        self.conds = []
        self.facts = []
        self.forking = None


class Stats(object):
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.queries = 0
        self.feas = 0
        self.solver_s = 0.0
        self.paths = 0
        self.by_solver = {}
        self.loops = 0

    def as_dict(self):
        return dict(self.__dict__)

    def add(self, d):
        for k, v in d.items():
            if isinstance(v, dict):
                m = getattr(self, k)
                for kk, vv in v.items():
                    m[kk] = m.get(kk, 0) + vv
            else:
                setattr(self, k, getattr(self, k) + v)


class Ctx(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.solver = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
        self.solver.set('timeout', FEAS_MS)
        self.trail = []
        self.clock = 0
        self.frames = []
        self.seen_apps = {}         # id -> (application, name)
        self.keep = []
        self.facts = []
        self.index_terms = []
        self.stats = Stats()
        self.fresh_n = 0
        self.app_axioms = {}     # prefix -> fn(app) -> ([axioms], [facts])
        self.loop_vars = []
        self.bases = []
        self.merge_depth = 0
        self.nofork = 0
        self.optimistic = 0     # preliminary rounds of loop inference: contracts may assume their preconditions
        self.trip_counts = []
        self.while_trips = []
        self.hoist_guard = []
        self.decl_axioms = {}
        self.goal_log = []
        self.ghosts = []
        self.expand_apps = None     # last resort of prove_goal: relate numbers to the bytes they are made of
        self.deadline = None

    # ------------------------------------------------------------------ heap
    def newD(self, *a, **k):
        d = D(*a, **k)
        self.clock += 1
        d.birth = self.clock
        d.owner = None
        return d

    def write(self, d, key, val):
        self.trail.append((d, key, d.get(key, MISSING)))
        d[key] = val

    def delete(self, d, key):
        self.trail.append((d, key, d[key]))
        del d[key]

    def mark(self):
        return len(self.trail)

    def undo(self, mark):
        t = self.trail
        while len(t) > mark:
            d, key, old = t.pop()
            if d is None:
                key()           # custom undo
            elif old is MISSING:
                d.pop(key, None)
            else:
                d[key] = old

    def on_undo(self, fn):
        self.trail.append((None, fn, None))

    def written_since(self, mark, born_before):
        out = []
        seen = set()
        for d, key, old in self.trail[mark:]:
            if d is None:
                continue
            if d.birth <= born_before and (id(d), key) not in seen:
                seen.add((id(d), key))
                out.append((d, key))
        return out

    # ------------------------------------------------------------------ fresh
    def fresh(self, name, sort=None):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (name, self.fresh_n), IntS if sort is None else sort)

    # ------------------------------------------------------------------ assertions
    def _collect(self, e):
        """Assert the instances of the background axioms for every application in e that is new in this scope."""
        seen = self.seen_apps
        new = []
        for xid, x, name in apps_of(e):
            if xid in seen:
                continue
            seen[xid] = (x, name)
            new.append(xid)
            h = self.app_axioms.get(name.split('!', 1)[0])
            if h is not None:
                for ax in h(x, name):
                    if isinstance(ax, ForallFact):
                        self.add_fact(ax, False)
                    else:
                        self._assert(ax)
        if new:
            def un(seen=seen, new=new):
                for q in new:
                    seen.pop(q, None)
            self.on_undo(un)

    def _assert(self, e):
        self._collect(e)
        self.solver.add(e)

    def assume(self, cond):
        """Add a condition to the path (and to every enclosing frame's record)."""
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        if self.frames:
            self.frames[-1].conds.append(cond)
            f = self.frames[-1]
            self.on_undo(lambda f=f: f.conds.pop())
        self._assert(cond)

    def add_fact(self, fact, record=True):
        self.facts.append(fact)
        self.on_undo(lambda: self.facts.pop())
        if self.frames and record:
            f = self.frames[-1]
            f.facts.append(fact)
            self.on_undo(lambda f=f: f.facts.pop())

    def add_index(self, t):
        self.index_terms.append(t)
        self.on_undo(lambda: self.index_terms.pop())

    # ------------------------------------------------------------------ queries
    def check(self, *conds, **kw):
        timeout = kw.get('timeout')
        self.stats.queries += 1
        t0 = time.time()
        m = self.mark()
        self.solver.push()
        try:
            if timeout:
                self.solver.set('timeout', timeout)
            for c in conds:
                self._assert(c)
            return self.solver.check()
        finally:
            self.solver.pop()
            if timeout:
                self.solver.set('timeout', FEAS_MS)
            self.undo(m)
            self.stats.solver_s += time.time() - t0

    def feasible(self, cond):
        self.stats.feas += 1
        return self.check(cond) != z3.unsat

    def proves(self, cond):
        """cond follows from the path condition (cheap: no instantiation of quantified facts)."""
        if cond is True or cond is False:
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(cond)) == z3.unsat

    def matched(self, fact, seen):
        """the indices at which an application in the fact is one that the path speaks of (f(a + c*i) with |c| > 1)"""
        out = []
        if not is_sym(fact.simple):
            return out
        for _, x, name in apps_of(fact.simple):
            if x.num_args() != 1 or x.arg(0).sort() != IntS:
                continue
            zero = z3.IntVal(0)
            at0 = z3.simplify(z3.substitute(x.arg(0), (fact.var, zero)))
            c = z3.simplify(z3.substitute(x.arg(0), (fact.var, z3.IntVal(1))) - at0)
            if not z3.is_int_value(c) or abs(c.as_long()) < 2:
                continue
            c = c.as_long()
            for y, other in list(self.seen_apps.values()):
                if other == name and len(out) < 12:
                    t = quotient(z3.simplify(y.arg(0) - at0), c)
                    if t is not None and t.get_id() not in seen and not contains(t, fact.var):
                        seen.add(t.get_id())
                        self.keep.append(t)
                        out.append(t)
        return out

    def instances(self, extra=()):
        """Instantiate the quantified facts at the index terms of this path."""
        terms = []
        seen = set()
        for t in list(self.index_terms) + list(extra):
            for v in (t, t + 1, t - 1):
                v = z3.simplify(iv(v))
                if v.get_id() not in seen:
                    seen.add(v.get_id())
                    self.keep.append(v)
                    terms.append(v)
        z = z3.IntVal(0)
        if z.get_id() not in seen:
            terms.append(z)
        out = []
        count = [0]

        def inst(fact, guard, depth):
            for t in terms + ([] if depth else self.matched(fact, seen)):
                count[0] += 1
                if count[0] > 6000:
                    return
                g = z3.And(guard, t >= fact.lo, t < fact.hi)
                p = [(fact.var, t)]
                s = zsub(fact.simple, p)
                if not (s is True):
                    out.append(z3.Implies(g, s))
                if depth < 3:
                    for n in fact.nested:
                        inst(n.subst(p), g, depth + 1)
        for f in list(self.facts):
            inst(f, z3.BoolVal(True), 0)
        return out

    def instantiate(self, t):
        """assert what the quantified facts say about index t (used at the generic index of a loop)"""
        t = iv(t)
        done = 0
        todo = list(self.facts)
        while todo and done < 400:
            f = todo.pop(0)
            done += 1
            g = z3.And(t >= f.lo, t < f.hi)
            if self.proves(g):
                s = zsub(f.simple, [(f.var, t)])
                if s is not True:
                    self._assert(s)
                for n in f.nested:
                    self.add_fact(n.subst([(f.var, t)]))
            elif not f.nested and f.simple is not True and self.check(g) != z3.unsat:
                self._assert(z3.Implies(g, zsub(f.simple, [(f.var, t)])))

    def prove_goal(self, goal, extra_index=(), hyps=(), cheap=False):
        """Return (True, how, None) or (False, how, model)."""
        if goal is True:
            return True, 'trivial', None
        if goal is False:
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True, 'simplify', None
        t0 = time.time()
        self.stats.queries += 1
        m = self.mark()
        self.solver.push()
        try:
            self.solver.set('timeout', 1000 if cheap else GOAL_MS)
            for h in hyps:
                self._assert(h)
            self._assert(z3.Not(goal))
            r = self.solver.check()
            if r == z3.unsat:
                return True, 'z3', None
            small = [(x, nm) for _, x, nm in apps_of(goal)]
            if self.expand_apps is not None and any(nm[:5] == 'byte!' for _, nm in small):
                exp = self.expand_apps(small)
                if exp:
                    m2 = self.mark()
                    self.solver.push()
                    for ax in exp:
                        self._assert(ax)
                    r2 = self.solver.check()
                    self.solver.pop()
                    self.undo(m2)
                    if r2 == z3.unsat:
                        return True, 'z3+bytes', None
            model = self.solver.model() if r == z3.sat else None
            rounds = 0
            if self.facts:
                for rounds in range(2):
                    nfacts = len(self.facts)
                    for ax in self.instances(extra_index):
                        self._assert(ax)
                    r = self.solver.check()
                    if r == z3.unsat:
                        return True, 'z3+inst', None
                    if len(self.facts) == nfacts:
                        break
                model = self.solver.model() if r == z3.sat else None
            if self.expand_apps is not None and not cheap:
                for ax in self.expand_apps(list(self.seen_apps.values())):
                    self._assert(ax)
                r = self.solver.check()
                if r == z3.unsat:
                    return True, 'z3+bytes', None
                model = self.solver.model() if r == z3.sat else None
            return False, str(r), model
        finally:
            self.solver.pop()
            self.solver.set('timeout', FEAS_MS)
            self.undo(m)
            self.stats.solver_s += time.time() - t0

    # ------------------------------------------------------------------ forking
    def branch(self, cond):
        """Decide a symbolic condition on this path (forking when both sides are feasible)."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.merge_depth:
            if self.proves(cond):
                return True
            if self.proves(z3.Not(cond)):
                return False
            raise MergeAbort()
        return self.choose([cond, z3.Not(cond)]) == 0

    def prefer(self, cond):
        """branch, but take the ordinary side without exploring the other one in a preliminary round"""
        if self.optimistic and is_sym(cond) and not self.merge_depth and not self.nofork and self.feasible(cond):
            self.assume(cond)
            return True
        return self.branch(cond)

    def choose(self, options):
        """n-ary choice between exhaustive conditions; returns the index taken."""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        early = EARLY.get()
        if early and time.time() > early:
            raise Unsupported('stopped: another obligation has failed')
        f = self.frames[-1]
        if self.merge_depth or self.nofork:
            known = [k for k, o in enumerate(options) if o is True or self.proves(self._opt_cond(o))]
            if known and not (len(options) > 1 and all(o is True for o in options)):
                return known[0]
            raise MergeAbort() if self.merge_depth else NoFork()
        if f.i < len(f.prefix):
            k = f.prefix[f.i]
            f.i += 1
            f.taken.append(k)
            if isinstance(k, tuple):      # forced choice, nothing to assume
                return k[0]
            self.assume_option(options[k])
            return k
        feas = [k for k, o in enumerate(options) if o is True or self.feasible(self._opt_cond(o))]
        if not feas:
            raise PathEnd()
        if len(feas) > 1:
            for hg in self.hoist_guard:
                hg(options)
        f.i += 1
        if f.forking and len(feas) > 1:
            for o in feas[1:]:
                if f.forking.fork(f):
                    k = o
                    break
            else:
                k = feas[0]
            f.taken = f.taken + [k]
            f.prefix = f.prefix + [k]
            self.assume_option(options[k])
            return k
        if len(feas) == 1 and len(options) == 2 and all(is_sym(o) for o in options):
            f.prefix = f.prefix + [(feas[0],)]
            f.taken.append((feas[0],))
            # entailed by the path: no need to assert it again
            return feas[0]
        k = feas[0]
        for o in feas[1:]:
            f.pending.append(f.taken + [o])
        f.prefix = f.prefix + [k]
        f.taken = f.taken + [k]
        self.assume_option(options[k])
        return k

    @staticmethod
    def _opt_cond(o):
        return o if is_sym(o) or isinstance(o, bool) else o.cond

    def assume_option(self, o):
        if o is True:
            return
        self.assume(self._opt_cond(o))

    def explore(self, thunk, on_path, limit=5000):
        """Run ``thunk`` on every feasible path from the current state; the state is restored after each path."""
        saved = (self.nofork, self.merge_depth)
        self.nofork = self.merge_depth = 0
        try:
            return self._explore(thunk, on_path, limit)
        finally:
            self.nofork, self.merge_depth = saved

    @contextlib.contextmanager
    def detached(self):
        """A state without any path condition (for facts that hold on every path)."""
        names = ('solver', 'facts', 'index_terms', 'seen_apps', 'frames', 'merge_depth', 'nofork', 'optimistic',
                 'hoist_guard', 'ghosts', 'loop_vars')
        saved = {n: getattr(self, n) for n in names}
        m = self.mark()
        self.solver = z3.Solver()
        self.solver.set('timeout', FEAS_MS)
        self.facts, self.index_terms, self.seen_apps, self.frames = [], [], {}, []
        self.hoist_guard, self.ghosts, self.loop_vars = [], [], []
        self.merge_depth = self.nofork = self.optimistic = 0
        try:
            yield
        finally:
            self.undo(m)
            for n, v in saved.items():
                setattr(self, n, v)

    def impossible(self):
        """the assumptions of the path contradict each other"""
        try:
            return self.prove_goal(False)[0]
        except (Exception, RecursionError):
            return False

    def explore_forked(self, thunk, on_path, pool):
        """Like explore, but every alternative of a choice is taken by a forked process (results go to pool.report)."""
        m = self.mark()
        self.solver.push()
        f = Frame([])
        f.forking = pool
        self.frames.append(f)
        try:
            try:
                try:
                    res = ('ok', thunk())
                except Raised as e:
                    res = ('exc', e.exc)
                except PathEnd:
                    res = None
                if res is not None:
                    self.stats.paths += 1
                    on_path(res, f)
            except (Exception, RecursionError) as e:
                if not (isinstance(e, Unsupported) and not str(e).startswith(('time budget', 'stopped')) and self.impossible()):
                    if os.environ.get('DV_PATH'):
                        print('PATH', e, '\n', '\n '.join(str(z3.simplify(a)).replace('\n', ' ') for a in self.solver.assertions()), '\nFACTS', '\n '.join((str(f.lo) + ' ' + str(f.hi) + ' ' + str(f.var) + ': ' + str(z3.simplify(f.body))).replace('\n', ' ') for f in self.facts if hasattr(f, 'body')), '\nINDEX', self.index_terms, flush=True)
                    pool.failed(e)
        finally:
            pool.finish(f)      # never returns in a process born in this frame
            self.frames.pop()
            self.solver.pop()
            self.undo(m)

    def _explore(self, thunk, on_path, limit):
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > limit:
                raise Unsupported('too many paths')
            m = self.mark()
            self.solver.push()
            f = Frame(list(prefix))
            self.frames.append(f)
            try:
                try:
                    res = ('ok', thunk())
                except Raised as e:
                    res = ('exc', e.exc)
                except PathEnd:
                    res = None
                if res is not None:
                    self.stats.paths += 1
                    on_path(res, f)
            finally:
                self.frames.pop()
                self.solver.pop()
                self.undo(m)
            stack.extend(f.pending)
        return n


class MergeAbort(Exception):
    pass


class NoFork(Exception):
    """a fork was needed where only straight-line execution was wanted"""


C = Ctx()
