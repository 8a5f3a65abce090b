"""Theorems about an opened log, how they are proved, and how a failing one is searched for a concrete input."""
import io
import mmap
import itertools
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
from collections import OrderedDict

import z3

from .core import *
from .values import *
from . import models, handlers, loops, verify, api, interp
from .interp import INTERP as I, HANDLERS, CALL_LOG
from .gen import Gen
from .harness import fresh_file


class Var(object):
    """A value the theorem quantifies over."""

    def __init__(self, name, domain=None):
        self.name, self.domain = name, domain


class Theorem(object):
    """spec(L, *args) and impl(reader, *args) have the same outcome, for every well-formed file and every variable."""

    def __init__(self, name, spec, impl, sargs=(), iargs=(), flags=(True, True), bits=(64, 32), want=None, focus=None,
                 pre=None, frame=False, mix=True, search_only=False, fresh=False, expect=True):
        self.expect = expect
        self.fresh = fresh          # each instance gets a reader of its own (it uses up the iterator)
        self.search_only = search_only
        self.name, self.spec, self.impl = name, spec, impl
        self.sargs, self.iargs, self.flags, self.bits, self.want, self.focus = sargs, iargs, flags, bits, want, focus
        self.pre, self.frame, self.mix = pre, frame, mix

    def variables(self):
        out = []
        for a in tuple(self.sargs) + tuple(self.iargs):
            if isinstance(a, Var) and a not in out:
                out.append(a)
        return out


# ------------------------------------------------------------------------------------------------ symbolic side
class Session(object):
    """One opened log per word size and set of reader options."""

    def __init__(self, pool, theorems, verbose=False, reader_class=None):
        import procmon_parser
        from specs import pml
        self.pml = pml
        self.pool, self.verbose = pool, verbose
        self.theorems = [t for t in theorems if not t.search_only]
        self.reader_class = reader_class or procmon_parser.ProcmonLogsReader

    def run(self):
        bits = [b for b in (64, 32) if any(b in t.bits for t in self.theorems)]
        self.pool.where = 'opening the log'
        data = fresh_file()

        def start():
            C.deadline = self.pool.deadline
            L = I.call(self.pml.open_log, [data])
            k = C.choose([zbool(L.f['is_64bit']) == (b == 64) for b in bits] if len(bits) == 2
                         else [zbool(L.f['is_64bit']) == (bits[0] == 64)])
            b = bits[k]
            flagsets = sorted({t.flags for t in self.theorems if b in t.bits}, reverse=True)
            fl = flagsets[C.choose([True] * len(flagsets))] if len(flagsets) > 1 else flagsets[0]
            s = SStream(data, 0)
            reader = I.call(self.reader_class, [s] + list(fl))
            return L, reader, s, b, fl

        def opened(res, fr):
            if res[0] != 'ok':
                th = self.pool.report.theorem('opening the log')
                p = verify.Prover(self.pool, verbose=self.verbose)
                p.oblige('opening the log', th, verify.Goal('a well-formed log opens: raises %s%r' % (
                    res[1].cls.__name__, tuple(res[1].f.get('args', ()))[:1]), False))
                return
            L, reader, s, b, fl = res[1]
            C.write(s.f, 'pos', C.fresh('pos'))
            C.assume(s.f['pos'] >= 0)
            mine = [t for t in self.theorems if b in t.bits and t.flags == fl]

            def pick():
                return mine[C.choose([True] * len(mine))] if len(mine) > 1 else mine[0]

            def picked(res, fr):
                self.prove(res[1], L, reader, s, b)
            C.explore_forked(pick, picked, self.pool)
        C.explore_forked(start, opened, self.pool)

    def prove(self, t, L, reader, s, b):
        P = verify.Prover(self.pool, verbose=self.verbose)
        name = '%s (%d-bit)' % (t.name, b)
        vs = {v: C.fresh(v.name) for v in t.variables()}

        def val(a):
            if isinstance(a, Var):
                return vs[a]
            return a
        self.pool.where = name
        if t.pre:
            t.pre(L, reader, s, vs)
        state = {}

        def spec():
            r = I.call(t.spec, [L] + [val(a) for a in t.sargs])
            if t.frame:
                state['mark'], state['clock'] = C.mark(), C.clock
            return r

        def impl():
            r = I.call(t.impl, [reader] + [val(a) for a in t.iargs])
            if t.frame:
                state['writes'] = [(d, k) for d, k in C.written_since(state['mark'], state['clock'])]
            return r

        def compare(label, a, c):
            if t.frame:
                bad = [k for d, k in state['writes'] if not (d is s.f and k == 'pos')]
                yield verify.Goal('frame: only the position of the stream is written (also %s)' % bad if bad else
                                  'frame: only the position of the stream is written', not bad)
            for g in verify.goals(label, a, c):
                yield g
        P.product(name, spec, impl, compare=compare)


# ------------------------------------------------------------------------------------------------ native side
def same(a, b):
    if isinstance(a, OrderedDict) and isinstance(b, OrderedDict):
        return len(a) == len(b) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.items(), b.items()))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (int, str, bytes, bool, float)) or a is None:
        return (isinstance(b, type(a)) or isinstance(a, type(b))) and a == b
    return type(a) is type(b) and a == b


def differ(a, b, path='result'):
    """the first differing part of two values, for the report"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return '%s: %r is missing' % (path, k)
            if not same(a[k], b[k]):
                return differ(a[k], b[k], '%s[%r]' % (path, k))
        for k in b:
            if k not in a:
                return '%s: extra %r = %.200r' % (path, k, b[k])
        return '%s: order %r instead of %r' % (path, list(b), list(a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return differ(x, y, '%s[%d]' % (path, i))
    return '%s: expected %.300r, got %.300r' % (path, a, b)


class Timeout(Exception):
    pass


def alarm(*a):
    raise Timeout('no answer within 5 s')


def native_outcome(thunk):
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(5)
    try:
        return ('ok', thunk())
    except api.Open:
        return ('open', None)
    except Timeout as e:
        return ('timeout', e)
    except RecursionError as e:
        return ('exc', e)
    except Exception as e:
        return ('exc', e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def native_check(s, thunk):
    """compare the specification's outcome with the code's; a description of the difference or None"""
    i = native_outcome(thunk)
    if s[0] == 'ok':
        if i[0] != 'ok':
            return 'expected %.200r, got %s: %s' % (s[1], type(i[1]).__name__, str(i[1])[:200])
        if same(s[1], i[1]):
            return None
        return differ(s[1], i[1])
    # the specification demands an exception
    if i[0] == 'exc' and isinstance(i[1], type(s[1])):
        return None
    return 'expected %s, got %s' % (type(s[1]).__name__, 'the result %.200r' % (i[1],) if i[0] == 'ok' else
                                    '%s: %s' % (type(i[1]).__name__, str(i[1])[:200]))


def native_run(t, F, history=None):
    """Every instance of a theorem on one file; returns (number of instances inside the precondition, first failure)."""
    import procmon_parser
    from specs import pml
    o = native_outcome(lambda: pml.open_log(F))
    if o[0] != 'ok':
        return 0, None
    L = o[1]
    if (64 if L.is_64bit else 32) not in t.bits:
        return 0, None
    n = L.number_of_events
    vs = t.variables()
    doms = [list(v.domain(n) if v.domain else range(n)) for v in vs]
    count = 0
    r = native_outcome(lambda: procmon_parser.ProcmonLogsReader(io.BytesIO(F), *t.flags))
    for combo in itertools.islice(itertools.product(*doms), 400):
        m = dict(zip(vs, combo))
        sargs = [m[a] if isinstance(a, Var) else a for a in t.sargs]
        iargs = [m[a] if isinstance(a, Var) else a for a in t.iargs]
        s = native_outcome(lambda: t.spec(L, *sargs))
        if s[0] in ('open', 'timeout'):
            continue
        count += 1
        if r[0] != 'ok':
            return count, dict(variables={v.name: m[v] for v in vs}, difference='opening the log raises %s: %s' % (
                type(r[1]).__name__, str(r[1])[:200]))
        if t.fresh:
            r = native_outcome(lambda: procmon_parser.ProcmonLogsReader(io.BytesIO(F), *t.flags))
        d = native_check(s, lambda: t.impl(r[1], *iargs))
        if d is not None:
            # the failing input is the file and this call on a fresh reader; fall back to the history of calls
            fresh = native_outcome(lambda: procmon_parser.ProcmonLogsReader(io.BytesIO(F), *t.flags))
            d2 = native_check(s, lambda: t.impl(fresh[1], *iargs)) if fresh[0] == 'ok' else 'opening fails'
            return count, dict(variables={v.name: m[v] for v in vs}, difference=d2 or d,
                               history='' if d2 else 'after the calls with all earlier values of the variables')
    return count, None


PREFER = set()     # names of theorems whose proof failed: searched first


def search(theorems, seconds, seed):
    """Look for a file on which the specification and the code differ.  Returns (failure or None, instances checked)."""
    theorems = [t for t in theorems if t.mix]
    if not theorems:
        return None, 0

    first = [t for t in theorems if any(n.startswith(t.name) for n in PREFER)]

    def work(rng):
        t = rng.choice(first if first and rng.random() < 0.6 else theorems)
        g = Gen(rng, rng.choice(t.bits))
        F = g.log(t.want if t.want and rng.random() < 0.97 else None, focus_name=t.focus)
        c, f = native_run(t, F)
        if f is not None:
            f = dict(theorem=t.name, file=F.hex(), options=list(t.flags), **f)
        return c, f
    return parallel_search(work, seconds, seed)


def parallel_search(work, seconds, seed, nproc=8):
    """Repeat work(rng) -> (instances, failure or None) in workers until one fails or the time is over."""
    end = time.time() + seconds
    pids = []
    sys.stdout.flush()
    tmp = tempfile.mkdtemp(prefix='dvsearch')
    hit = mmap.mmap(-1, 1)      # set when a worker has found a failure: the others stop
    for k in range(nproc):
        pid = os.fork()
        if pid == 0:
            total, found = 0, None
            try:
                rng = random.Random(seed * 1000003 + k)
                while time.time() < end and found is None and not hit[0]:
                    c, found = work(rng)
                    total += c
                if found is not None:
                    hit[0] = 1
            except BaseException as e:
                sys.stderr.write('search worker: %r\n' % e)
            try:
                with open(os.path.join(tmp, str(k)), 'wb') as fh:
                    pickle.dump((total, found), fh)
            finally:
                os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    total, found = 0, None
    for k in range(nproc):
        try:
            with open(os.path.join(tmp, str(k)), 'rb') as fh:
                a, b = pickle.load(fh)
        except Exception:
            continue
        total += a
        if b is not None and (found is None or len(repr(b)) < len(repr(found))):
            found = b
    shutil.rmtree(tmp, ignore_errors=True)
    return found, total


def replay_pml(theorems, w):
    """run a recorded failing input against the real code again"""
    F = bytes.fromhex(w['file'])
    for t in theorems:
        if t.name == w['theorem']:
            c, f = native_run(t, F)
            return f['difference'] if f else None
    return 'the theorem is gone'
