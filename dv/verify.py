"""Theorems: product executions of a specification and the live code, and the obligations they generate."""
import json
import os
import pickle
import sys
import time
import traceback

import z3

from .core import (C, EARLY, D, MISSING, Unsupported, PathEnd, Unspecified, Raised, MergeAbort, ForallFact, is_sym, is_sint,
                   is_sbool, zsub, iv, IntS, BoolS, StrS)
from .values import *
from .interp import INTERP, HANDLERS, CONTRACTS, CALL_LOG, SYMTYPES, is_native, pytype_of
from . import models, handlers, loops


# ------------------------------------------------------------------------------------------------ equality goals
class Goal(object):
    __slots__ = ('label', 'goal', 'hyps', 'idx')

    def __init__(self, label, goal, hyps=(), idx=()):
        self.label, self.goal, self.hyps, self.idx = label, goal, tuple(hyps), tuple(idx)


def as_list_segs(v):
    if isinstance(v, SList):
        return v.segs
    if isinstance(v, list):
        return tuple(elems(v))
    if isinstance(v, SObj) and v.base is not None and isinstance(v.base, (SList, list)):
        return as_list_segs(v.base)
    return None


def is_text(v):
    return isinstance(v, (str, SStr))


def is_bytes(v):
    return isinstance(v, (bytes, bytearray, SBytes))


def is_intlike(v):
    return type(v) is int or is_sint(v) or isinstance(v, SEnum) or (isinstance(v, int) and not isinstance(v, bool))


def goals(label, a, b, hyps=(), idx=()):
    """Yield the goals whose truth makes the two values equal (exactly)."""
    def g(t):
        return Goal(label, t, hyps, idx)
    if a is b:
        yield g(True)
        return
    if isinstance(a, Havoc) or isinstance(b, Havoc):
        raise Unsupported('havocked result: %s' % label)
    if (isinstance(a, bool) or is_sbool(a)) and (isinstance(b, bool) or is_sbool(b)):
        yield g(normb(zbool(a) == zbool(b)))
        return
    if is_intlike(a) and is_intlike(b):
        yield g(int_eq(models.num(a), models.num(b)))
        return
    if is_text(a) and is_text(b):
        for x in text_goals(label, a, b, hyps, idx):
            yield x
        return
    if is_bytes(a) and is_bytes(b):
        for x in bytes_goals(label, a, b, hyps, idx):
            yield x
        return
    sa, sb = as_list_segs(a), as_list_segs(b)
    if sa is not None and sb is not None:
        for x in list_goals(label, sa, sb, hyps, idx):
            yield x
        return
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            yield g(False)
            return
        for i, (x, y) in enumerate(zip(a, b)):
            for z in goals('%s[%d]' % (label, i), x, y, hyps, idx):
                yield z
        return
    if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        for x in dict_goals(label, a, b, hyps, idx):
            yield x
        return
    if isinstance(a, SObj) and isinstance(b, SObj):
        if a.cls is not b.cls:
            yield g(False)
            return
        ks = sorted(set(a.f) | set(b.f), key=str)
        for k in ks:
            if k not in a.f or k not in b.f:
                yield g(False)
                return
            for z in goals('%s.%s' % (label, k), a.f[k], b.f[k], hyps, idx):
                yield z
        if a.base is not None or b.base is not None:
            for z in goals(label, a.base, b.base, hyps, idx):
                yield z
        return
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op != b.op or len(a.args) != len(b.args):
            yield g(False)
            return
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            for z in goals('%s:%s[%d]' % (label, a.op, i), x, y, hyps, idx):
                yield z
        return
    if isinstance(a, View) and isinstance(b, View) and a.op == b.op:
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            for z in goals('%s:%s' % (label, a.op), x, y, hyps, idx):
                yield z
        return
    if is_native(a) and is_native(b):
        yield g(bool(a == b) and type(a) is type(b))
        return
    if type(a) is type(b) and skey(a) == skey(b):
        yield g(True)
        return
    yield g(False)


def bytes_goals(label, a, b, hyps, idx):
    """two byte strings, compared segment by segment where their segments line up"""
    if isinstance(a, (bytes, bytearray)) or isinstance(b, (bytes, bytearray)) or (
            len(a.segs) == 1 and len(b.segs) == 1 and a.segs[0][0] != 'rep') or skey(a) == skey(b):
        yield Goal(label, bytes_eq_cond(a, b), hyps, idx)
        return
    out = []
    sa, sb = list(a.segs), list(b.segs)
    n = 0

    def empty(s):
        ln = seg_len(s)
        return C.proves(ln == 0) if is_sym(ln) else ln == 0
    def expand(*sides):
        hit = False
        for side in sides:
            s = side[0]
            if s[0] == 'rep':
                c = C_const(s[1]) if is_sym(s[1]) else s[1]
                if c is not None and (isinstance(s[3], bytes) and c < 10000 or c < 10):
                    side[:1] = [x for m in range(c) for x in bytes_segs(subst(s[3], [(s[2], z3.IntVal(m))]))]
                    hit = True
        return hit
    while sa and sb:
        x, y = sa[0], sb[0]
        lab = '%s/%d' % (label, n)
        n += 1
        if x[0] == y[0] == 'lit':
            m = min(len(x[1]), len(y[1]))
            if x[1][:m] != y[1][:m]:
                break
            sa[:1] = [('lit', x[1][m:])] if len(x[1]) > m else []
            sb[:1] = [('lit', y[1][m:])] if len(y[1]) > m else []
            continue
        if x[0] == y[0] == 'int' and x[2:] == y[2:]:
            out.append(Goal(lab, int_eq(x[1], y[1]), hyps, idx))
        elif {x[0], y[0]} == {'int', 'lit'}:
            i, l = (x, y) if x[0] == 'int' else (y, x)
            if len(l[1]) < i[2]:
                break
            out.append(Goal(lab, int_eq(i[1], int.from_bytes(l[1][:i[2]], i[3])), hyps, idx))
            rest = [('lit', l[1][i[2]:])] if len(l[1]) > i[2] else []
            sa[:1], sb[:1] = (([], rest) if x[0] == 'int' else (rest, []))
            continue
        elif x[0] == y[0] == 'enc' and x[1] == y[1]:
            if not definitely_eq(x[2], y[2]):
                out.extend(text_goals(lab, x[2], y[2], hyps, idx))
        elif x[0] == y[0] == 'sl' and x[1] is y[1] and C.proves(z3.And(iv(x[2]) == iv(y[2]), iv(x[3]) == iv(y[3]))):
            out.append(Goal(lab, True, hyps, idx))
        elif x[0] == y[0] == 'op' and skey(x) == skey(y):
            out.append(Goal(lab, True, hyps, idx))
        elif x[0] == y[0] == 'rep':
            k = C.fresh('k')
            out.append(Goal(lab + '#', int_eq(x[1], y[1]), hyps, idx))
            h = tuple(hyps) + (z3.And(k >= 0, k < iv(x[1])),)
            out.extend(bytes_goals(lab, subst(x[3], [(x[2], k)]), subst(y[3], [(y[2], k)]), h, tuple(idx) + (k,)))
        elif 'rep' in (x[0], y[0]) and expand(sa, sb):
            continue
        elif empty(x):
            sa.pop(0)
            continue
        elif empty(y):
            sb.pop(0)
            continue
        else:
            break
        sa.pop(0)
        sb.pop(0)
    rest = [s for s in sa + sb if not empty(s)]
    if rest and (not sa or not sb):
        out.append(Goal(label, False, hyps, idx))
    elif rest:
        if os.environ.get('DV_DEBUG'):
            print('BYTES', a, b)
        out = [Goal(label, bytes_eq_cond(a, b), hyps, idx)]
    for g in out:
        yield g


def text_goals(label, a, b, hyps, idx):
    if definitely_eq(a, b):
        yield Goal(label, True, hyps, idx)
        return
    pa, pb = strip_common(list(str_parts(a)), list(str_parts(b)))
    if any(isinstance(p, str) for p in pa) or any(isinstance(p, str) for p in pb):
        qa, qb = pinned(pa), pinned(pb)
        if qa is not pa or qb is not pb:
            for x in text_goals(label, mkstr(qa), mkstr(qb), hyps, idx):
                yield x
            return
    if any(isinstance(p, (PRep, PJoin)) for p in pa + pb) and len(pa) == len(pb) and (
            len(pa) > 1 or type(pa[0]) is type(pb[0])):
        out = []
        for i, (x, y) in enumerate(zip(pa, pb)):
            lab = '%s/%d' % (label, i)
            if isinstance(x, PRep) and isinstance(y, PRep):
                k = C.fresh('k')
                yield Goal(lab + '#', int_eq(x.n, y.n), hyps, idx)
                h = tuple(hyps) + (z3.And(k >= 0, k < iv(x.n)),)
                for z in text_goals(lab, subst(x.body, [(x.k, k)]), subst(y.body, [(y.k, k)]), h, tuple(idx) + (k,)):
                    yield z
            elif isinstance(x, PJoin) and isinstance(y, PJoin):
                if len(x.items) != len(y.items):
                    yield Goal(lab, align_join(x, y), hyps, idx)
                    continue
                for z in text_goals(lab, x.sep, y.sep, hyps, idx):
                    yield z
                for (g1, t1), (g2, t2) in zip(x.items, y.items):
                    yield Goal(lab, normb(zbool(g1) == zbool(g2)), hyps, idx)
                    if g1 is False:
                        continue
                    for z in text_goals(lab, t1, t2, tuple(hyps) + ((zbool(g1),) if g1 is not True else ()), idx):
                        yield z
            else:
                for z in text_goals(lab, mkstr([x]), mkstr([y]), hyps, idx):
                    yield z
        return
    if len(pa) == len(pb) and len(pa) > 1 and all(
            (isinstance(x, str) and x == y) or part_eq_syntactic(x, y) or
            (isinstance(x, PFmt) and isinstance(y, PFmt) and x.spec == y.spec) for x, y in zip(pa, pb)):
        for n, (x, y) in enumerate(zip(pa, pb)):
            if isinstance(x, PFmt) and not part_eq_syntactic(x, y):
                yield Goal('%s/%d' % (label, n), int_eq(x.val, y.val), hyps, idx)
        return
    yield Goal(label, str_eq_cond(a, b), hyps, idx)


def pinned(parts):
    """numbers in a text that can only be one constant on this path, written out"""
    out = list(parts)
    hit = False
    for i, p in enumerate(parts):
        if isinstance(p, PFmt) and is_sint(p.val):
            c = C_const(p.val)
            if c is not None:
                out[i] = format(c, p.spec)
                hit = True
    return out if hit else parts


def align_join(x, y):
    """joins with different item lists: drop items whose guard is refutable, match the rest by text"""
    if x.sep != y.sep:
        return False
    fx = [(g, t) for g, t in x.items if g is not False and not (is_sym(g) and C.proves(z3.Not(g)))]
    fy = [(g, t) for g, t in y.items if g is not False and not (is_sym(g) and C.proves(z3.Not(g)))]
    # items with equal text at corresponding places of a merged order
    conds = []
    i = j = 0
    while i < len(fx) or j < len(fy):
        if i < len(fx) and j < len(fy) and definitely_eq(fx[i][1], fy[j][1]):
            conds.append(zbool(fx[i][0]) == zbool(fy[j][0]))
            i += 1
            j += 1
        elif i < len(fx) and not any(definitely_eq(fx[i][1], t) for _, t in fy[j:]):
            conds.append(z3.Not(zbool(fx[i][0])))
            i += 1
        elif j < len(fy):
            conds.append(z3.Not(zbool(fy[j][0])))
            j += 1
        else:
            conds.append(z3.Not(zbool(fx[i][0])))
            i += 1
    return z3.And(*conds)


def seg_count(s):
    return 1 if s[0] == 'e' else s[1]


def list_goals(label, sa, sb, hyps, idx):
    sa, sb = list(sa), list(sb)
    # drop empty runs
    sa = [s for s in sa if not (s[0] == 's' and isinstance(s[1], int) and s[1] == 0) and not (s[0] == 'e' and s[2] is False)]
    sb = [s for s in sb if not (s[0] == 's' and isinstance(s[1], int) and s[1] == 0) and not (s[0] == 'e' and s[2] is False)]
    i = j = 0
    n = 0
    while i < len(sa) and j < len(sb):
        x, y = sa[i], sb[j]
        lab = '%s[%d]' % (label, n)
        n += 1
        if x[0] == 'e' and y[0] == 'e':
            if not (x[2] is True and y[2] is True):
                yield Goal(lab + '?', normb(zbool(x[2]) == zbool(y[2])), hyps, idx)
            h = hyps if x[2] is True else tuple(hyps) + (zbool(x[2]),)
            for z in goals(lab, x[1], y[1], h, idx):
                yield z
            i += 1
            j += 1
        elif x[0] == 's' and y[0] == 's':
            k = C.fresh('k')
            C.trip_counts.append(x[1])
            yield Goal(label + '#', int_eq(x[1], y[1]), hyps, idx)
            h = tuple(hyps) + (z3.And(k >= 0, k < iv(x[1])),)
            for z in goals('%s[k]' % label, subst(x[3], [(x[2], k)]), subst(y[3], [(y[2], k)]), h, tuple(idx) + (k,)):
                yield z
            i += 1
            j += 1
        else:
            # a run against single elements: unfold the run when its length is known
            s = x if x[0] == 's' else y
            c = C_const(s[1]) if is_sym(s[1]) else s[1]
            if c is None:
                # the other side fixes the length
                other = sb[j:] if s is x else sa[i:]
                if all(q[0] == 'e' for q in other) and len(sa if s is x else sb) == (i if s is x else j) + 1:
                    yield Goal(label + '#', int_eq(s[1], len(other)), hyps, idx)
                    c = len(other)
                else:
                    yield Goal(label, False, hyps, idx)
                    return
            ex = [('e', subst(s[3], [(s[2], z3.IntVal(m))]), True) for m in range(c)]
            if s is x:
                sa[i:i + 1] = ex
            else:
                sb[j:j + 1] = ex
    for s in sa[i:] + sb[j:]:
        yield Goal(label + '#', int_eq(s[1], 0) if s[0] == 's' else znot(s[2]), hyps, idx)


def dict_goals(label, a, b, hyps, idx):
    ea = models.dict_entries(INTERP, a)
    eb = models.dict_entries(INTERP, b)
    if ea is not None and eb is not None:
        if len(ea) != len(eb):
            yield Goal(label + '#', False, hyps, idx)
            return
        if type_of_dict(a) is dict or type_of_dict(b) is dict:
            # unordered comparison: match keys
            rest = list(eb)
            for k, v in ea:
                for t, (k2, v2) in enumerate(rest):
                    e = models.eq_cond(INTERP, k, k2)
                    if e is True or (e is not False and C.proves(e)):
                        for z in goals('%s[%s]' % (label, k if isinstance(k, str) else '..'), v, v2, hyps, idx):
                            yield z
                        del rest[t]
                        break
                else:
                    yield Goal('%s[%s]' % (label, k), False, hyps, idx)
            return
        for n, ((k, v), (k2, v2)) in enumerate(zip(ea, eb)):
            nm = '%s[%s]' % (label, k if isinstance(k, str) else n)
            for z in goals(nm + '.key', k, k2, hyps, idx):
                yield z
            for z in goals(nm, v, v2, hyps, idx):
                yield z
        return
    la = a.log if isinstance(a, SDict) else tuple(('e', k, v) for k, v in a.items())
    lb = b.log if isinstance(b, SDict) else tuple(('e', k, v) for k, v in b.items())
    if len(la) != len(lb):
        la, lb = ([e for e in z if e[0] == 'e' or not C.prove_goal(iv(e[1]) <= 0, hyps=hyps)[0]] for z in (la, lb))
    if len(la) != len(lb):
        yield Goal(label, False, hyps, idx)
        return
    for n, (x, y) in enumerate(zip(la, lb)):
        nm = '%s{%d}' % (label, n)
        if x[0] != y[0]:
            yield Goal(nm, False, hyps, idx)
            return
        if x[0] == 'e':
            for z in goals(nm + '.key', x[1], y[1], hyps, idx):
                yield z
            for z in goals(nm, x[2], y[2], hyps, idx):
                yield z
        else:
            k = C.fresh('k')
            yield Goal(nm + '#', int_eq(x[1], y[1]), hyps, idx)
            h = tuple(hyps) + (z3.And(k >= 0, k < iv(x[1])),)
            for q in (3, 4):
                for z in goals(nm, subst(x[q], [(x[2], k)]), subst(y[q], [(y[2], k)]), h, tuple(idx) + (k,)):
                    yield z


def type_of_dict(v):
    return v.pytype if isinstance(v, SDict) else type(v)


# ------------------------------------------------------------------------------------------------ outcomes
def outcome(thunk):
    try:
        return ('ok', thunk())
    except Raised as e:
        return ('exc', e.exc)


def show(o):
    if o[0] == 'ok':
        return repr(o[1])[:300]
    return 'raises %s%r' % (o[1].cls.__name__, tuple(o[1].f.get('args', ()))[:1])


class Failure(object):
    def __init__(self, theorem, label, how, detail, hints=None):
        self.theorem, self.label, self.how, self.detail, self.hints = theorem, label, how, detail, hints

    def as_dict(self):
        return dict(theorem=self.theorem, obligation=self.label, how=self.how, detail=self.detail, hints=self.hints)


class Report(object):
    """What a set of theorems generated; additive over workers."""

    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.by = {}
        self.failures = []
        self.theorems = {}
        self.unsupported = []
        self.functions = {}
        self.covers = 0
        self.stats = {}

    def add_stats(self, d, calls):
        for k, v in d.items():
            if isinstance(v, (int, float)):
                self.stats[k] = self.stats.get(k, 0) + v
        for k, v in calls.items():
            self.functions[k] = self.functions.get(k, 0) + v

    def theorem(self, name):
        return self.theorems.setdefault(name, {'paths': 0, 'obligations': 0, 'discharged': 0, 'covered': 0})

    def dump(self):
        d = dict(self.__dict__)
        d['failures'] = [f if isinstance(f, dict) else f.as_dict() for f in self.failures]
        return d

    def merge(self, d):
        self.obligations += d['obligations']
        self.discharged += d['discharged']
        self.covers += d['covers']
        self.failures += d['failures']
        self.unsupported += d['unsupported']
        for k, v in d['by'].items():
            self.by[k] = self.by.get(k, 0) + v
        for k, v in d['functions'].items():
            self.functions[k] = self.functions.get(k, 0) + v
        self.add_stats(d['stats'], {})
        for k, v in d['theorems'].items():
            t = self.theorem(k)
            for kk in v:
                t[kk] = t.get(kk, 0) + v[kk]


GRACE = float(os.environ.get('DV_GRACE', '25'))     # seconds left to the other obligations once one has failed


class Pool(object):
    """Processes exploring alternative paths; each sends its report to the process that forked it."""

    def __init__(self, nproc=None):
        n = (nproc or int(os.environ.get('DV_PROCS', '0')) or os.cpu_count() or 4) - 1
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)
        os.write(self.w, b'.' * max(0, n))
        self.report = Report()
        self.children = []      # (frame, pid, fd)
        self.born = None
        self.up = None
        self.token = False
        self.where = ''
        self.verbose = False

    def fork(self, frame):
        """True in the new process."""
        try:
            tok = os.read(self.r, 1)
        except BlockingIOError:
            tok = b''
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for _, _, fd in self.children:
                os.close(fd)
            if self.up is not None:
                os.close(self.up)
            self.children = []
            self.born, self.up, self.token = frame, w, bool(tok)
            self.report = Report()
            C.stats = type(C.stats)()
            CALL_LOG.clear()
            if os.environ.get('DV_STACK'):
                import faulthandler, signal
                out = open('%s/%d' % (os.environ.get('DV_STACK_DIR', '/tmp'), os.getpid()), 'w')
                signal.signal(signal.SIGALRM, lambda *a: (faulthandler.dump_traceback(out), out.flush()))
                signal.setitimer(signal.ITIMER_REAL, float(os.environ['DV_STACK']), float(os.environ['DV_STACK']))
            return True
        os.close(w)
        if tok:
            self.children.append((frame, pid, r))
        else:
            self.collect(pid, r)
        return False

    def collect(self, pid, fd):
        with os.fdopen(fd, 'rb') as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        try:
            d = pickle.loads(data)
        except Exception:
            self.report.unsupported.append({'theorem': self.where, 'why': 'a worker died'})
            return
        self.report.merge(d)

    def failed(self, e):
        if isinstance(e, Unsupported):
            why = str(e)
        else:
            why = '%s: %s' % (type(e).__name__, str(e)[:300])
        if self.verbose or os.environ.get("DV_TB"):
            traceback.print_exc()
        EARLY.hurry(GRACE)
        self.report.unsupported.append({'theorem': self.where, 'why': why[:600]})

    def sync(self):
        """fold this process's counters into its report"""
        self.report.add_stats(C.stats.as_dict(), CALL_LOG)
        C.stats = type(C.stats)()
        CALL_LOG.clear()

    def finish(self, frame):
        if self.born is frame and self.token:
            os.write(self.w, b'.')
            self.token = False
        mine = [c for c in self.children if c[0] is frame]
        self.children = [c for c in self.children if c[0] is not frame]
        for _, pid, fd in mine:
            self.collect(pid, fd)
        if self.born is frame:
            try:
                self.sync()
                with os.fdopen(self.up, 'wb') as fh:
                    pickle.dump(self.report.dump(), fh)
                sys.stdout.flush()
            finally:
                os._exit(0)


class Prover(object):
    def __init__(self, pool=None, stop_after=6, verbose=False):
        self.pool = pool or Pool()
        self.stop_after = stop_after
        self.pool.verbose = verbose
        self.verbose = verbose
        self.concretise = None

    @property
    def report(self):
        return self.pool.report

    def product(self, name, spec, impl, label='result', limit=20000, compare=None):
        """For every path of spec: impl has the same outcome.  ``spec`` and ``impl`` are thunks run by the interpreter."""
        self.report.theorem(name)

        def thunk():
            s = outcome(spec)
            i = outcome(impl)
            return (s, i)

        def on_path(res, fr):
            if res[0] != 'ok':
                raise Unsupported('escaped exception')
            s, i = res[1]
            th = self.report.theorem(name)
            th['paths'] += 1
            self.check_outcomes(name, th, label, s, i, compare)
        self.pool.where = name
        C.explore_forked(thunk, on_path, self.pool)

    def unsup(self, name, e):
        EARLY.hurry(GRACE)
        self.report.unsupported.append({'theorem': name, 'why': str(e)[:400]})
        if self.verbose:
            print('UNSUPPORTED', name, e)
            traceback.print_exc()

    def check_outcomes(self, name, th, label, s, i, compare=None):
        if s[0] != i[0]:
            self.oblige(name, th, Goal('%s: outcome (spec %s, code %s)' % (label, show(s), show(i)), False))
            return
        if s[0] == 'exc':
            ok = s[1].cls is i[1].cls or issubclass(i[1].cls, s[1].cls)
            self.oblige(name, th, Goal('%s: exception type (spec %s, code %s)' % (label, show(s), show(i)), ok))
            return
        th['covered'] += 1
        if compare is not None:
            gs = compare(label, s[1], i[1])
        else:
            gs = goals(label, s[1], i[1])
        for g in gs:
            self.oblige(name, th, g)

    def oblige(self, name, th, g):
        th['obligations'] += 1
        self.report.obligations += 1
        t0 = time.time()
        for h in g.hyps:
            pass
        ok, how, model = C.prove_goal(g.goal, g.idx, g.hyps)
        dt = time.time() - t0
        if ok:
            th['discharged'] += 1
            self.report.discharged += 1
            self.report.by[how] = self.report.by.get(how, 0) + 1
            return True
        hints = None
        if self.concretise is not None and sum(1 for f in self.report.failures if f.theorem == name) < self.stop_after:
            try:
                hints = self.concretise(g)
            except Exception as e:      # the witness search is best effort
                hints = {'error': repr(e)[:200]}
        EARLY.hurry(GRACE)
        self.report.failures.append(Failure(name, g.label, how, str(g.goal)[:600], hints))
        if self.verbose:
            print('FAILED', name, g.label, how, str(g.goal)[:400])
        return False
