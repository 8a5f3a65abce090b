"""The loop rule: closed forms for the cells a loop writes are inferred and then *checked* to be inductive by the solver.

For a loop whose body runs for k = 0, 1, ... the rule finds, for every heap cell the body writes, a term at(k) describing the
cell before iteration k.  The body is executed symbolically at an arbitrary k from the state {cell: at(k)}; the form is
accepted only when the state after the iteration is {cell: at(k + 1)} on every iterating path (otherwise Unsupported).  The
condition under which the iteration is an iterating one becomes a quantified fact; every other way of leaving the body
(break, return, exception, unusual iteration) is explored at a fresh index j with the fact for all m < j.
"""
import ast
import itertools

import z3

from .core import (C, D, MISSING, Unsupported, PathEnd, Raised, MergeAbort, ForallFact, is_sym, is_sint, is_sbool, zsub, iv,
                   IntS, BoolS)
from .values import *
from . import values as V

INF = z3.IntVal(2 ** 200)
MAX_ROUNDS = 12
SIDE_DEPTH = 3
_side = [0]
import os
DEBUG = os.environ.get('DV_DEBUG')
_uid = itertools.count(1)
RECS = {}


class Hoist(Exception):
    def __init__(self, owner, cond):
        self.owner, self.cond = owner, cond


# ------------------------------------------------------------------------------------------------ snapshots
def snapshot(v, born, memo=None):
    """Deep copy of a value as it is now; objects that existed before ``born`` are kept by reference."""
    if memo is None:
        memo = {}
    if v is None or isinstance(v, (int, str, bytes, float)) or is_sym(v):
        return v
    if isinstance(v, (SObj, SList, SDict, SStream)):
        if v.f.birth <= born:
            return v
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, SObj):
            r = SObj(v.cls)
            memo[id(v)] = r
            for k, x in v.f.items():
                r.f[k] = snapshot(x, born, memo)
            r.base = snapshot(v.base, born, memo)
        elif isinstance(v, SList):
            r = SList((), v.pytype)
            memo[id(v)] = r
            r.f['segs'] = tuple(tuple(snapshot(x, born, memo) for x in s) for s in v.segs)
        elif isinstance(v, SDict):
            r = SDict((), v.pytype)
            memo[id(v)] = r
            r.f['log'] = tuple(tuple(snapshot(x, born, memo) for x in s) for s in v.log)
        else:
            r = SStream(v.f['data'], v.f['pos'])
            memo[id(v)] = r
        return r
    if isinstance(v, tuple):
        xs = [snapshot(x, born, memo) for x in v]
        if all(a is b for a, b in zip(xs, v)):
            return v
        return tuple(xs) if type(v) is tuple else tuple.__new__(type(v), xs)
    if isinstance(v, (Term, View)):
        xs = [snapshot(x, born, memo) for x in v.args]
        if all(a is b for a, b in zip(xs, v.args)):
            return v
        return Term(v.op, xs, v.pytype) if isinstance(v, Term) else View(v.op, xs)
    return v


def consts_in(v):
    """All uninterpreted 0-ary constants (as {name: const}) in a value."""
    out = {}
    seen, vseen = set(), set()

    def z(e):
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
            st.extend(x.children())

    def walk(v):
        if v is None or isinstance(v, (int, str, bytes, float)):
            return
        if is_sym(v):
            return z(v)
        if id(v) in vseen:
            return
        vseen.add(id(v))
        for c in children(v):
            walk(c)
    walk(v)
    return out


def fresh_no(name):
    if '!' in name:
        t = name.rsplit('!', 1)[1]
        if t.isdigit():
            return int(t)
    return -1


def fact_consts(f):
    out = consts_in((f.lo, f.hi, f.simple))
    out.pop(f.var.decl().name(), None)
    for n in f.nested:
        o = fact_consts(n)
        o.pop(f.var.decl().name(), None)
        out.update(o)
    return out


# ------------------------------------------------------------------------------------------------ forms
class Form(object):
    pass


class Unknown(Form):
    """nothing known yet; a marker value is used in the body"""

    def __init__(self, v0, key):
        self.v0, self.key = v0, key
        self.marker = None
        self.h = None

    def trial(self, k):
        v0 = self.v0
        if is_sint(v0) or type(v0) is int:
            self.h = C.fresh('h')
            self.marker = self.h
        elif is_sbool(v0) or isinstance(v0, bool):
            self.h = C.fresh('h', BoolS)
            self.marker = self.h
        elif isinstance(v0, (str, SStr)):
            self.marker = SStr([PApp('havoc%d' % next(_uid), ())])
        elif isinstance(v0, (bytes, SBytes)):
            self.h = C.fresh('h')
            self.marker = SBytes([('op', 'havoc%d' % next(_uid), (), self.h)])
        elif self.key == 'segs' and isinstance(v0, tuple):
            if len(v0) == 1 and v0[0][0] == 's':
                self.seg = ('s', v0[0][1], C.fresh('k'), Havoc('list cell in a loop'))
                self.marker = (self.seg,)
            else:
                self.h = C.fresh('h')
                self.seg = ('s', self.h, C.fresh('k'), Havoc('list in a loop'))
                self.marker = v0 + (self.seg,)
        elif self.key == 'log' and isinstance(v0, tuple):
            self.seg = ('h', next(_uid))
            self.marker = v0 + (self.seg,)
        else:
            self.marker = Havoc('loop-carried value')
        return self.marker

    def assumption(self, k):
        if self.h is not None and isinstance(self.marker, (SBytes, tuple)):
            return self.h >= 0
        if self.h is not None and is_sint(self.h):
            v0 = self.v0
            if (isinstance(v0, int) and v0 >= 0):
                return None
        return None


class Lin(Form):
    def __init__(self, v0, d):
        self.v0, self.d = v0, d

    def at(self, k):
        return add(self.v0, mul(self.d, k))

    trial = at

    def assumption(self, k):
        return None


class Rec(Form):
    """R(k) + w for a recursively defined sequence R"""

    def __init__(self, rec, w):
        self.rec, self.w = rec, w

    def at(self, k):
        return add(self.rec.app(k), self.w)

    trial = at

    def assumption(self, k):
        return self.rec.instance(iv(k))


NotLike = object()


class Peel(Exception):
    """the first iteration is to be done by itself"""


class Dep(Form):
    """f(w) for the value w of another cell"""

    def __init__(self, f, W, wkey, cells, forms):
        self.f, self.W, self.wkey, self.cells, self.forms = f, W, wkey, cells, forms

    def of(self, w):
        return norm(zsub(iv(self.f), [(self.W, iv(w))]))

    def trial(self, k):
        d, f = self.cells[self.wkey]
        return self.of(d[f])

    def at(self, k):
        return self.of(self.forms[self.wkey].at(k))

    def assumption(self, k):
        return None


class RecDef(object):
    def __init__(self, v0, g, h, k):
        self.v0, self.g, self.h, self.k = v0, g, h, k
        self.id = next(_uid)
        self.fn = z3.Function('rec!%d' % self.id, IntS, IntS)
        self.mono = False
        RECS['rec!%d' % self.id] = self

    def app(self, k):
        if isinstance(k, int) and k == 0:
            return self.v0
        return self.fn(iv(k))

    def step(self, m):
        return zsub(iv(self.g), [(self.h, self.fn(m)), (self.k, m)])

    def instance(self, m):
        t = z3.And(self.fn(iv(0)) == iv(self.v0), self.fn(m + 1) == self.step(m))
        if self.mono:
            t = z3.And(t, self.fn(m) >= iv(self.v0), self.fn(m + 1) >= self.fn(m))
        return t

    def register(self):
        # v0 <= g(h): unconditional monotonicity of the step
        h, k = self.h, self.k
        self.mono = C.check(z3.And(k >= 0, h >= 0, z3.Not(iv(self.g) >= h))) == z3.unsat and \
            C.proves(iv(self.v0) >= 0)
        m = C.fresh('m')
        C._assert(self.fn(iv(0)) == iv(self.v0))
        C.add_fact(ForallFact(z3.IntVal(0), INF, m, self.instance(m)))
        C.ghosts.append(self)
        C.on_undo(lambda: C.ghosts.pop())


def _rec_axiom(app, name):
    g = RECS.get(name)
    if g is None or not g.mono:
        return []
    return [z3.Implies(app.arg(0) >= 0, app >= iv(g.v0))]


V.C_AX['rec'] = _rec_axiom
C.app_axioms['rec'] = _rec_axiom


class Over(Form):
    """overwritten in every iteration: before iteration k the value is tmpl(k - 1), initially v0"""

    def __init__(self, v0, tmpl, kv):
        self.v0, self.tmpl, self.kv = v0, tmpl, kv
        self.as_hav = True

    def trial(self, k):
        v0 = self.v0
        t = self.tmpl
        if (is_sint(v0) or type(v0) is int) and (is_sint(t) or type(t) is int) or \
                (is_sbool(v0) or isinstance(v0, bool)) and (is_sbool(t) or isinstance(t, bool)):
            return self.at(k)
        if isinstance(v0, (str, SStr)) and isinstance(t, (str, SStr)):
            return self.at(k)
        return Havoc('value of an earlier iteration')

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return self.v0
        t = subst(self.tmpl, [(self.kv, sub(k, 1))])
        v0 = self.v0
        if isinstance(k, int):
            return t
        if is_sym(k) and C.proves(k > 0):
            return t
        z = normb(iv(k) == 0)
        if (is_sint(v0) or type(v0) is int) and (is_sint(t) or type(t) is int) or \
                (is_sbool(v0) or isinstance(v0, bool)) and (is_sbool(t) or isinstance(t, bool)):
            return zite(z, v0, t)
        if isinstance(v0, (str, SStr)) and isinstance(t, (str, SStr)):
            return site(z, v0, t)
        if v0 is MISSING or isinstance(v0, Havoc):
            return Havoc('loop variable after the loop')
        if C.merge_depth:
            raise MergeAbort()
        if C.branch(z):
            return v0
        return t

    def assumption(self, k):
        return None


class AppStr(Form):
    def __init__(self, v0, tmpl, kv):
        self.v0, self.tmpl, self.kv = v0, tmpl, kv
        self.marker = None

    def trial(self, k):
        self.marker = SStr([PApp('havoc%d' % next(_uid), ())])
        return self.marker

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return self.v0
        if not has_var(self.tmpl, {self.kv.get_id()}) and isinstance(k, int):
            return scat(*([self.v0] + [self.tmpl] * k))
        return scat(self.v0, SStr([PRep(k, self.kv, self.tmpl)]))

    def assumption(self, k):
        return None


class AppBytes(Form):
    def __init__(self, v0, tmpl, kv):
        self.v0, self.tmpl, self.kv = v0, tmpl, kv
        self.contig = None
        if isinstance(tmpl, SBytes) and len(tmpl.segs) == 1 and tmpl.segs[0][0] == 'sl' and isinstance(tmpl.segs[0][3], int):
            _, base, off, ln = tmpl.segs[0]
            d = sub(subst(off, [(kv, kv + 1)]), off)
            if isinstance(d, int) and d == ln:
                self.contig = (base, subst(off, [(kv, z3.IntVal(0))]), ln)
        self.marker = None
        self.h = None

    def total(self, k):
        """the number of bytes accumulated before iteration k"""
        ln = blen(self.tmpl)
        if isinstance(ln, int):
            return mul(ln, k)
        if getattr(self, 'totals', None) is None or self.totals[0] is not self.tmpl:
            self.totals = (self.tmpl, sums(self.kv, ln))
        return self.totals[1].app(k)

    def trial(self, k):
        if self.contig:
            return self.at(k)
        # the bytes themselves are not looked at, only how many they are
        self.h = add(blen(self.v0), self.total(k))
        self.marker = SBytes([('op', 'havoc%d' % next(_uid), (), self.h)])
        self.inst = None
        if not isinstance(blen(self.tmpl), int):
            self.inst = self.totals[1].instance(iv(k))
        return self.marker

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return self.v0
        if self.contig:
            base, off, ln = self.contig
            return bcat(self.v0, mkbytes([('sl', base, off, mul(ln, k))]))
        return bcat(self.v0, mkbytes([('rep', k, self.kv, self.tmpl, self.total(k))]))

    def assumption(self, k):
        if self.h is None:
            return None
        if getattr(self, 'inst', None) is not None:
            return z3.And(iv(self.h) >= 0, self.inst)
        return iv(self.h) >= 0


class AtEnd(Form):
    """the position of a stream that is only appended to: the length of its contents"""

    def __init__(self, v0, data, cells, forms):
        self.v0, self.data, self.cells, self.forms = v0, data, cells, forms

    def trial(self, k):
        d, f = self.cells[self.data]
        return blen(d[f])

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return self.v0
        return blen(self.forms[self.data].at(k))

    def assumption(self, k):
        return None


def mergeable_segs(r, v):
    """lists that differ in the last element only, a byte string"""
    return isinstance(r, tuple) and isinstance(v, tuple) and r and len(r) == len(v) and \
        all(isinstance(s, tuple) and s and s[0] == 'e' and s[2] is True and isinstance(s[1], (bytes, SBytes))
            for s in (r[-1], v[-1])) and all(a is b or skey(a) == skey(b) for a, b in zip(r[:-1], v[:-1]))


def same_total(a, b):
    """do two forms accumulate equally many bytes?  (the position of the stream depended on it)"""
    x, y = blen(a.tmpl), blen(b.tmpl)
    if isinstance(x, int) or isinstance(y, int):
        return isinstance(x, int) and isinstance(y, int) and x == y
    return a.totals[1] is b.totals[1]


def sums(kv, ln):
    """the sequence of the sums of ln(0), ..., ln(k - 1); the known one when these lengths were summed up before"""
    k = C.fresh('k')
    want = zsub(iv(ln), [(kv, k)])
    for g in reversed(C.ghosts):
        if getattr(g, 'sum_of', None) is not None and isinstance(g.v0, int) and g.v0 == 0:
            theirs = zsub(g.sum_of[1], [(g.sum_of[0], k)])
            if z3.simplify(theirs).eq(z3.simplify(want)) or C.proves(z3.Implies(k >= 0, theirs == want)):
                return g
        if DEBUG:
            print('SUMS', theirs, '|', want)
    h, k = C.fresh('h'), C.fresh('k')
    step = zsub(iv(ln), [(kv, k)])
    g = RecDef(0, h + step, h, k)
    g.sum_of = (k, step)
    g.register()
    if not g.mono:
        raise Unsupported('bytes of unknown lengths accumulated in a loop')
    return g


class AppList(Form):
    def __init__(self, v0, tmpl, kv):
        self.v0, self.tmpl, self.kv = v0, tmpl, kv

    def trial(self, k):
        self.seg = ('s', iv(k), C.fresh('k'), Havoc('list in a loop'))
        self.marker = self.v0 + (self.seg,)
        return self.marker

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return self.v0
        return self.v0 + (('s', k, self.kv, self.tmpl),)

    def assumption(self, k):
        return None


class SetList(Form):
    """element k is assigned in iteration k of a list with a single symbolic run"""

    def __init__(self, v0, tmpl, kv):
        self.v0, self.tmpl, self.kv = v0, tmpl, kv

    def trial(self, k):
        self.seg = ('s', self.v0[0][1], C.fresh('k'), Havoc('list cell in a loop'))
        self.marker = (self.seg,)
        return self.marker

    def at(self, k):
        s = self.v0[0]
        if isinstance(k, int) and k == 0:
            return self.v0
        if is_sym(k) and C.proves(iv(k) == iv(s[1])) or not is_sym(k) and k == s[1]:
            return (('s', s[1], self.kv, self.tmpl),)
        kv = C.fresh('k')
        new, old = subst(self.tmpl, [(self.kv, kv)]), subst(s[3], [(s[2], kv)])
        if (is_sint(new) or type(new) is int) and (is_sint(old) or type(old) is int):
            return (('s', s[1], kv, zite(normb(kv < iv(k)), new, old)),)
        if isinstance(new, (str, SStr)) and isinstance(old, (str, SStr)):
            return (('s', s[1], kv, site(normb(kv < iv(k)), new, old)),)
        return (('s', k, self.kv, self.tmpl), ('s', sub(s[1], k), kv, subst(old, [(kv, add(kv, k))])))

    def assumption(self, k):
        return None


class DictRun(Form):
    def __init__(self, v0, key, val, kv):
        self.v0, self.ktmpl, self.vtmpl, self.kv = v0, key, val, kv

    def trial(self, k):
        self.seg = ('h', next(_uid))
        self.marker = self.v0 + (self.seg,)
        return self.marker

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return self.v0
        return self.v0 + (('s', k, self.kv, self.ktmpl, self.vtmpl),)

    def assumption(self, k):
        return None


class KeyDict(Form):
    """the same constant keys are assigned in every iteration"""

    def __init__(self, v0, tmpls, kv):
        self.v0, self.tmpls, self.kv = v0, tmpls, kv
        self.ids = {key: next(_uid) for key in tmpls}

    def known(self):
        return {s[1]: i for i, s in enumerate(self.v0)}

    def log(self, entry):
        at = self.known()
        log = list(self.v0)
        for key in self.tmpls:
            if key in at:
                log[at[key]] = entry(key, True)
            else:
                log.append(entry(key, False))
        return tuple(log)

    def trial(self, k):
        self.marker = self.log(lambda key, old: ('h', self.ids[key], key, old))
        return self.marker

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return self.v0
        if isinstance(k, int) or C.proves(k > 0):
            return self.log(lambda key, old: ('e', key, subst(self.tmpls[key], [(self.kv, sub(k, 1))])))
        return self.log(lambda key, old: ('h', self.ids[key], key, old))

    def assumption(self, k):
        return None


def constant_keys(v0, entries):
    return all(s[0] == 'e' and isinstance(s[1], str) for s in tuple(v0) + tuple(entries)) and \
        len({s[1] for s in entries}) == len(entries)


def same_value(a, b):
    if a is b:
        return True
    if a is MISSING or b is MISSING:
        return False
    if is_sym(a) and is_sym(b):
        return a.sort() == b.sort() and (a.eq(b) or C.proves(a == b))
    if type(a) is int and type(b) is int:
        return a == b
    if (is_sint(a) and type(b) is int) or (is_sint(b) and type(a) is int):
        return C.proves(iv(a) == iv(b))
    if type(a) is not type(b):
        return False
    if isinstance(a, (str, bytes, bool, float)) or a is None:
        return a == b
    try:
        return skey(a) == skey(b)
    except Exception:
        return False


class Path(object):
    pass


class LoopRule(object):
    """``body(k)`` performs iteration k and returns None/CONT to go on, BRK, ('ret', v); n is None for while loops."""

    def __init__(self, I, n, body, what):
        self.I, self.n, self.body, self.what = I, n, body, what

    # -- one symbolic iteration ---------------------------------------------------------------
    def trial(self, cells, forms):
        from .interp import BRK, CONT
        k = C.fresh('k')
        fresh0 = C.fresh_n
        born = C.clock
        paths = []
        self.started = {}
        loop_consts = [k]

        def guard(options):
            if C.merge_depth:
                return
            for o in options:
                if o is True or not is_sym(C._opt_cond(o)):
                    return
            for o in options:
                for nm, c in consts_in(C._opt_cond(o)).items():
                    if nm == k.decl().name() or fresh_no(nm) > fresh0 or nm.startswith('stropaque') or \
                            nm.startswith('strconst!havoc'):
                        return
            raise Hoist(self, [C._opt_cond(o) for o in options])
        C.hoist_guard.append(guard)
        nsetup = [0, 0]

        def thunk():
            m0 = C.mark()
            C.assume(k >= 0)
            C.trial_ks = getattr(C, 'trial_ks', ()) + (k,)
            C.on_undo(lambda: setattr(C, 'trial_ks', C.trial_ks[:-1]))
            if self.n is not None:
                C.assume(k < iv(self.n))
            for key, (d, f) in sorted(cells.items(), key=lambda c: isinstance(forms[c[0]], (Dep, AtEnd))):
                v = self.started[key] = forms[key].trial(k)
                if v is MISSING:
                    if f in d:
                        C.delete(d, f)
                else:
                    C.write(d, f, v)
                a = forms[key].assumption(k)
                if a is not None:
                    C.assume(a)
            if C.facts:
                C.instantiate(k)
            fr = C.frames[-1]
            nsetup[0], nsetup[1] = len(fr.conds), len(fr.facts)
            self.m1 = C.mark()
            return self.body(k)

        def on_path(res, fr):
            p = Path()
            p.kind = res[0]
            p.value = snapshot(res[1], born) if res[0] == 'ok' else res[1]
            p.iterates = res[0] == 'ok' and (res[1] is None or res[1] is CONT)
            p.conds = list(fr.conds[nsetup[0]:])
            p.facts = list(fr.facts[nsetup[1]:])
            p.post = {}
            p.started = dict(self.started)
            p.index = list(C.index_terms)
            memo = {}
            for d, f in C.written_since(self.m1, born):
                key = (id(d), f)
                if key not in cells:
                    self.newcells[key] = (d, f)
                p.post[key] = snapshot(d.get(f, MISSING), born, memo)
            p.markers = {key: getattr(forms[key], 'marker', None) for key in cells}
            p.segs = {key: getattr(forms[key], 'seg', None) for key in cells}
            p.hs = {key: getattr(forms[key], 'h', None) for key in cells}
            p.setup = list(fr.conds[:nsetup[0]])
            for key in cells:
                if key not in p.post:
                    p.post[key] = SAME
            paths.append(p)
        try:
            C.explore(thunk, on_path, limit=400)
        finally:
            C.hoist_guard.remove(guard)
        return k, fresh0, paths

    # -- inference ----------------------------------------------------------------------------
    def infer(self):
        cells, forms = {}, {}
        init = {}
        rejected = {}
        strict, none = False, None
        for rnd in range(MAX_ROUNDS):
            self.newcells = {}
            prelim = not strict and (rnd == 0 or any(isinstance(f, Unknown) for f in forms.values()))
            saved = C.optimistic
            C.optimistic = 1 if saved or prelim else 0
            try:
                k, fresh0, paths = self.trial(cells, forms)
            except (Unsupported, MergeAbort) as e:
                if strict and none and isinstance(e, Unsupported):
                    # it seems that the first iteration leaves: let it (should it go on after all, the rest is a loop again)
                    return none
                if not C.optimistic or not self.newcells:
                    raise
            finally:
                C.optimistic = saved
            if self.newcells:
                for key, (d, f) in self.newcells.items():
                    cells[key] = (d, f)
                    init[key] = d.get(f, MISSING)
                    forms[key] = multi.given(key, d, f, init[key], cells) or Unknown(init[key], f)
                for key, (d, f) in cells.items():
                    data = (key[0], 'data')
                    if f == 'pos' and data in cells and type(forms[key]) is Unknown and 'end' not in rejected.get(key, ()) \
                            and isinstance(init[data], (bytes, SBytes)) and (is_sint(init[key]) or type(init[key]) is int) \
                            and C.proves(normb(iv(init[key]) == iv(blen(init[data])))):
                        forms[key] = AtEnd(init[key], data, cells, forms)
                continue
            iters = [p for p in paths if p.iterates]
            exits = [p for p in paths if not p.iterates]
            if DEBUG:
                print('ROUND', rnd, self.what, 'opt', C.optimistic, prelim, [(key[1], type(forms[key]).__name__) for key in cells], 'iters', len(iters), 'exits', [(p.kind, p.value.cls.__name__ if p.kind == 'exc' else p.value) for p in exits][:5])
            if not iters:
                if prelim:
                    strict = True
                    none = (k, fresh0, cells, forms, None, [], exits) if exits else None
                    continue
                return k, fresh0, cells, forms, None, [], exits
            told = [key for key in cells if isinstance(forms[key], multi.Given)]
            for key in told:
                for p in iters:
                    post = p.started[key] if p.post[key] is SAME else p.post[key]
                    if not prelim and not forms[key].kept(self, k, p, post, p.started[key]):
                        raise Unsupported('the loop does not keep the invariant (%s): %s' % (forms[key].kind, self.what))
            found = {key: x for key, x in cells.items() if key not in told}
            main, sides = self.pick_main(k, fresh0, found, forms, iters)
            changed = False
            for key in found:
                new = self.infer_cell(k, fresh0, cells, forms, key, init[key], main, rejected)
                if new is not None:
                    forms[key] = new
                    changed = True
            if not changed:
                if prelim:
                    strict = True
                    continue
                return k, fresh0, cells, forms, main, sides, exits
        raise Unsupported('loop invariant not found: %s' % self.what)

    def pick_main(self, k, fresh0, cells, forms, iters):
        """Merge the iterating paths into one when their effects can be expressed by conditionals; else main and side paths."""
        if len(iters) == 1:
            p = iters[0]
            p.cond = z3.And(*p.conds) if p.conds else z3.BoolVal(True)
            return p, []
        m = self.merge_paths(cells, iters)
        if m is not None:
            return m, []
        best = None
        for p in iters:
            p.cond = z3.And(*p.conds) if p.conds else z3.BoolVal(True)
        for p in iters:
            # the main path is one that can follow itself
            pairs = [(k, k + 1)]
            ok = True
            for key in cells:
                f = forms[key]
                h = p.hs.get(key)
                if isinstance(f, Unknown) and h is not None and is_sint(h) and is_sint(iv(0)):
                    post = p.post[key]
                    if post is SAME:
                        continue
                    if is_sint(post) or type(post) is int:
                        pairs.append((h, iv(post)))
            nxt = zsub(p.cond, pairs)
            if C.check(k >= 0, p.cond, nxt, *([k + 1 < iv(self.n)] if self.n is not None else [])) != z3.unsat:
                best = p
                break
        if best is None:
            best = iters[0]
        return best, [p for p in iters if p is not best]

    def merge_paths(self, cells, iters):
        if any(p.facts for p in iters):
            if DEBUG:
                print('MERGE facts', self.what)
            return None
        m = Path()
        m.kind, m.value, m.iterates = 'ok', None, True
        m.facts = []
        m.index = [i for p in iters for i in p.index]
        m.markers, m.segs, m.hs = iters[-1].markers, iters[-1].segs, iters[-1].hs
        base = iters[-1]
        # bring all paths to the markers of the last one
        post = {}
        for key in cells:
            vals = []
            for p in iters:
                v = p.post[key]
                vals.append(v)
            first = vals[0]
            if all(v is SAME for v in vals):
                post[key] = SAME
                continue
            ren = []
            for p, v in zip(iters, vals):
                v = p.markers[key] if v is SAME else v
                if v is None and key not in p.post:
                    return None
                sg = p.segs.get(key)
                if isinstance(v, tuple) and sg is not None:
                    v = tuple(base.segs[key] if x is sg else x for x in v)
                if isinstance(v, tuple) and isinstance(base.markers[key], tuple):
                    # entries from before the iteration stay what they are
                    old = [x for x in base.markers[key]] + [x for x in p.markers[key] or ()]
                    ren.append(tuple(x if any(x is y for y in old) else self.rename(p, base, x) for x in v))
                    continue
                ren.append(self.rename(p, base, v))
            if all(same_value(ren[0], v) for v in ren[1:]):
                post[key] = ren[0]
                continue
            r = ren[-1]
            for p, v in list(zip(iters, ren))[-2::-1]:
                c = self.rename(p, base, z3.And(*p.conds) if p.conds else z3.BoolVal(True))
                if (is_sint(r) or type(r) is int) and (is_sint(v) or type(v) is int) or \
                        (is_sbool(r) or isinstance(r, bool)) and (is_sbool(v) or isinstance(v, bool)):
                    r = zite(normb(c), v, r)
                elif isinstance(r, (str, SStr)) and isinstance(v, (str, SStr)):
                    r = site(normb(c), v, r)
                elif isinstance(r, (bytes, SBytes)) and isinstance(v, (bytes, SBytes)):
                    if any(x is SAME for x in vals):
                        return None     # (some iterations append, others do not)
                    r = bite(normb(c), v, r)
                elif mergeable_segs(r, v):
                    r = r[:-1] + (('e', bite(normb(c), v[-1][1], r[-1][1]), True),)
                else:
                    r = None
                    break
            if r is None:
                r = self.most_general(iters, ren, base)
                if r is None:
                    return None
            post[key] = r
        m.post = post
        m.conds = [z3.Or(*[self.rename(p, base, z3.And(*p.conds) if p.conds else z3.BoolVal(True)) for p in iters])]
        m.cond = m.conds[0]
        m.setup = base.setup
        return m

    def most_general(self, iters, vals, base):
        """a value of one path that equals the value of each other path under that path's conditions"""
        from .verify import goals

        def pairs(a, b):
            if isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[-1], tuple):
                # list segments / dict logs that differ in the last entry
                if len(a) != len(b) or len(a[-1]) != len(b[-1]) or a[-1][0] != b[-1][0] or a[-1][0] != 'e':
                    return None
                for x, y in zip(a[:-1], b[:-1]):
                    if x is not y and skey(x) != skey(y):
                        return None
                return list(zip(a[-1][1:], b[-1][1:]))
            return [(a, b)]
        for i, a in enumerate(vals):
            ok = True
            for j, b in enumerate(vals):
                if i == j:
                    continue
                ps = pairs(a, b)
                if ps is None:
                    ok = False
                    break
                hy = [self.rename(iters[j], base, c) for c in iters[j].conds]
                try:
                    for x, y in ps:
                        for g in goals('merge', x, y):
                            if g.goal is True:
                                continue
                            if C.check(*(base.setup + hy + list(g.hyps) + [z3.Not(zbool(g.goal))])) != z3.unsat:
                                ok = False
                                if DEBUG:
                                    print('MERGE', i, j, g.label, str(g.goal)[:300], g.hyps)
                                break
                        if not ok:
                            break
                except (Unsupported, MergeAbort) as e:
                    ok = False
                    if DEBUG:
                        print('MERGE', e)
                if not ok:
                    break
            if ok:
                return a
        return None

    @staticmethod
    def rename(p, base, v):
        pairs = []
        for key, h in p.hs.items():
            h2 = base.hs.get(key)
            if h is not None and h2 is not None and not h.eq(h2):
                pairs.append((h, h2))
        names = {}
        for key, mk in p.markers.items():
            m2 = base.markers.get(key)
            if isinstance(mk, SStr) and isinstance(m2, SStr):
                names[mk.parts[0].name] = m2.parts[0]
        v = subst(v, pairs) if pairs else v
        if isinstance(v, SBytes):
            ops = {}
            for key, mk in p.markers.items():
                m2 = base.markers.get(key)
                if isinstance(mk, SBytes) and isinstance(m2, SBytes) and mk.segs[0][0] == m2.segs[0][0] == 'op':
                    ops[mk.segs[0][1]] = m2.segs[0]
            v = mkbytes([ops.get(s[1], s) if s[0] == 'op' else s for s in v.segs])
        if names and isinstance(v, SStr):
            v = mkstr([names.get(q.name, q) if isinstance(q, PApp) else q for q in v.parts])
        return v

    def infer_cell(self, k, fresh0, cells, forms, key, v0, p, rejected):
        """None when the present form is confirmed, else a better form (Unsupported when there is none)."""
        d, f = cells[key]
        form = forms[key]
        post = p.post[key]
        rej = rejected.setdefault(key, set())

        def loopvars(v):
            """fresh constants of this trial other than k that the value mentions"""
            return [c for nm, c in consts_in(v).items() if fresh_no(nm) > fresh0]

        if isinstance(form, Lin):
            want = form.at(k + 1)
            if post is SAME:
                post = form.at(k)
            if (is_sint(post) or type(post) is int) and self.eq_under(p, post, want):
                return None
            rej.add('lin')
            return Unknown(v0, f)
        if isinstance(form, AtEnd):
            w = p.post[form.data]
            if post is SAME and w is SAME:
                return None
            if post is not SAME and w is not SAME and isbytes_(w) and (is_sint(post) or type(post) is int) and \
                    self.eq_under(p, post, blen(w)):
                return None
            rej.add('end')
            return Unknown(v0, f)
        if isinstance(form, Dep):
            w = p.post[form.wkey]
            if post is SAME or w is SAME:
                raise Unsupported('dependent value in a loop: %s' % self.what)
            if self.eq_under(p, post, form.of(w)):
                return None
            raise Unsupported('dependent value in a loop: %s' % self.what)
        if isinstance(form, Rec):
            want = form.at(k + 1)
            if post is SAME:
                post = form.at(k)
            if (is_sint(post) or type(post) is int) and self.eq_under(p, post, want):
                return None
            rej.add(('rec', form.rec.id))
            return Unknown(v0, f)
        if isinstance(form, Over):
            if post is SAME:
                rej.add('over')
                return Unknown(v0, f)
            if has_havoc(post):
                raise Unsupported('loop-carried value: %s' % self.what)
            self.skolem_check(loopvars(post))
            new = Over(v0, post, k)
            try:
                if skey(subst(post, [(k, form.kv)])) == skey(form.tmpl):
                    form.tmpl, form.kv = post, k
                    return None
            except Exception:
                pass
            n = getattr(form, 'rounds', 0) + 1
            if n > 3:
                # same shape up to fresh names: accept the latest template
                form.tmpl, form.kv = post, k
                return None
            new.rounds = n
            return new
        marker = p.markers[key]
        if isinstance(form, (AppStr, Unknown)) and isinstance(v0, (str, SStr)):
            if post is SAME or post is marker:
                return None if False else self.const_cell(form, v0, f, k)
            mk = marker.parts[0] if isinstance(marker, SStr) else None
            if isinstance(post, SStr) and mk is not None and post.parts and isinstance(post.parts[0], PApp) and \
                    post.parts[0].name == mk.name:
                tmpl = mkstr(post.parts[1:])
                if mentions_part(tmpl, mk.name):
                    raise Unsupported('text recurrence in a loop')
                new = AppStr(v0, tmpl, k)
                if isinstance(form, AppStr):
                    form.tmpl, form.kv = tmpl, k
                    return None
                return new
            if mk is not None and mentions_part(post, mk.name):
                raise Unsupported('text recurrence in a loop')
            return Over(v0, post, k)
        if isinstance(form, AppBytes) and form.contig:
            want = form.at(k + 1)
            if post is SAME:
                raise Unsupported('bytes in a loop')
            if isbytes_(post) and C_bytes_same(post, want):
                return None
            raise Unsupported('bytes in a loop')
        if isinstance(form, (AppBytes, Unknown)) and isinstance(v0, (bytes, SBytes)):
            if post is SAME or post is marker:
                return self.const_cell(form, v0, f, k)
            if isinstance(post, SBytes) and post.segs and post.segs[0][0] == 'op' and \
                    post.segs[0][1] == marker.segs[0][1]:
                tmpl = mkbytes(post.segs[1:])
                new = AppBytes(v0, tmpl, k)
                if new.contig:
                    return new
                new.total(k)
                if isinstance(form, AppBytes) and same_total(form, new):
                    form.tmpl, form.kv = tmpl, k
                    form.totals = getattr(new, 'totals', None)
                    return None
                return new
            return Over(v0, post, k)
        if f == 'segs' and isinstance(v0, tuple):
            seg = p.segs[key]
            if post is SAME or post is marker:
                return self.const_cell(form, v0, f, k)
            m = len(marker)
            from .models import StoreVal
            if len(post) == m + 1 and all(a is b for a, b in zip(post[:m], marker)) and post[m][0] == 'e' and \
                    post[m][2] is True:
                tmpl = post[m][1]
                if has_havoc(tmpl):
                    raise Unsupported('loop-carried list element')
                if isinstance(form, AppList):
                    form.tmpl, form.kv = tmpl, k
                    return None
                return AppList(v0, tmpl, k)
            if len(post) == 1 and post[0][0] == 's' and isinstance(post[0][3], StoreVal):
                sv = post[0][3]
                if isinstance(sv.old, Havoc) and (sv.i is k or (is_sym(sv.i) and C.proves(sv.i == k))):
                    if has_havoc(sv.x):
                        raise Unsupported('loop-carried list element')
                    if isinstance(form, SetList):
                        form.tmpl, form.kv = sv.x, k
                        return None
                    return SetList(v0, sv.x, k)
            raise Unsupported('list update in a loop: %s' % self.what)
        if f == 'log' and isinstance(v0, tuple):
            if post is SAME or post is marker:
                return self.const_cell(form, v0, f, k)
            m = len(marker)
            if isinstance(form, KeyDict):
                if len(post) == m and all(a is b or a[0] == 'e' and b[0] == 'h' and a[1] == b[2] for a, b in zip(post, marker)):
                    new = {a[1]: a[2] for a, b in zip(post, marker) if b[0] == 'h'}
                    if set(new) == set(form.tmpls) and not any(has_havoc(x) for x in new.values()):
                        form.tmpls, form.kv = new, k
                        return None
                raise Unsupported('dict update in a loop: %s' % self.what)
            if len(post) > m and all(a is b for a, b in zip(post[:m], marker)) and isinstance(form, Unknown) and \
                    constant_keys(v0, post[m:]):
                return KeyDict(v0, {s[1]: s[2] for s in post[m:]}, k)
            if len(post) == m + 1 and all(a is b for a, b in zip(post[:m], marker)) and post[m][0] == 'e':
                if isinstance(form, DictRun):
                    form.ktmpl, form.vtmpl, form.kv = post[m][1], post[m][2], k
                    return None
                return DictRun(v0, post[m][1], post[m][2], k)
            raise Unsupported('dict update in a loop: %s' % self.what)
        # integers and others
        if isinstance(form, Unknown):
            if post is SAME:
                # written on some other path only
                return self.const_cell(form, v0, f, k)
            h = p.hs.get(key)
            if h is not None and is_sint(h) and (is_sint(post) or type(post) is int):
                post = norm(iv(post))
                hs = {x.get_id() for x in [p.hs[c] for c in p.hs if p.hs[c] is not None]}
                lv = [c for c in loopvars(post)]
                if not lv:
                    return Over(v0, post, k)
                dlt = sub(post, h)
                if not loopvars(dlt) and 'lin' not in rej and not (is_sym(dlt) and has_var(dlt, {k.get_id()})):
                    return Lin(v0, dlt)
                # a fixed stride that shows only under the path condition
                if 'lin' not in rej and is_sym(dlt):
                    c = self.const_under(p, dlt)
                    if c is not None:
                        return Lin(v0, c)
                # sequences the loop shares with an earlier one (typically the specification's)
                for g in reversed(C.ghosts):
                    if ('rec', g.id) not in rej and self.same_step(p, g, h, post, v0, k):
                        return Rec(g, sub(v0, g.v0))
                others = [c for c in lv if not c.eq(h)]
                if others:
                    # resolve the other cells first
                    unresolved = [c for c in forms if isinstance(forms[c], Unknown) and c != key]
                    if unresolved and not rej.__contains__('waited'):
                        rej.add('waited')
                        return Unknown(v0, f)
                    dep = self.dependent(post, p, cells, forms, key, v0)
                    if dep is not None:
                        return dep
                    if unresolved and 'waited twice' not in rej:
                        rej.add('waited twice')
                        return Unknown(v0, f)
                    raise Unsupported('mutual recurrence in a loop: %s' % self.what)
                g = RecDef(v0, post, h, k)
                g.register()
                return Rec(g, 0)
            if h is not None and is_sbool(h) and (is_sbool(post) or isinstance(post, bool)):
                if self.same_bool(p, post, v0):
                    return self.const_cell(form, v0, f, k)
                if not loopvars(post):
                    return Over(v0, post, k)
                raise Unsupported('boolean recurrence in a loop: %s' % self.what)
            if has_havoc(post):
                raise Unsupported('loop-carried value: %s' % self.what)
            return Over(v0, post, k)
        raise Unsupported('loop cell: %s' % self.what)

    def dependent(self, post, p, cells, forms, key, v0):
        """post = f(post of another cell w)?  Then f(w) is the cell's value whenever an iteration has been done."""
        for wkey in cells:
            h, w = p.hs.get(wkey), p.post.get(wkey)
            if DEBUG:
                print('DEP', key[1], 'on', wkey[1], type(forms[wkey]).__name__, h, w, '|', post, '|', v0)
            if wkey == key or h is None or not is_sint(h) or w is SAME or not is_sint(w) or \
                    not isinstance(forms[wkey], Unknown):
                continue
            for x in consts_in(w).values():
                rest = norm(iv(w) - x)
                if is_sym(rest) and has_var(rest, {x.get_id()}):
                    continue
                W = C.fresh('W')
                f = z3.simplify(zsub(iv(post), [(x, norm(W - iv(rest)))]))
                if any(c.eq(x) or any(c.eq(q) for q in p.hs.values() if q is not None) for c in consts_in(f).values()):
                    continue
                dep = Dep(f, W, wkey, cells, forms)
                d, fld = cells[wkey]
                w0 = d.get(fld, MISSING)
                if (is_sint(w0) or type(w0) is int) and C.proves(normb(iv(v0) == iv(dep.of(w0)))):
                    return dep
                if self.n is None and not getattr(self, 'peeled', False):
                    raise Peel(self)
        return None

    @staticmethod
    def same_step(p, g, h, post, v0, k):
        """does the cell (h -> post) advance like the known sequence g?"""
        r = C.fresh('r')
        w = iv(sub(v0, g.v0))
        mine = zsub(iv(post), [(h, r + w)])
        conds = [zsub(c, [(h, r + w)]) for c in p.setup + list(p.conds)]
        theirs = zsub(iv(g.g), [(g.h, r), (g.k, k)]) + w
        return C.check(*(conds + [mine != theirs])) == z3.unsat

    @staticmethod
    def const_cell(form, v0, f, k):
        """the main path leaves the cell alone: it keeps its initial value (other paths leave the loop)"""
        if isinstance(form, Const):
            return None
        return Const(v0)

    def skolem_check(self, lv):
        return

    def same_bool(self, p, a, b):
        """two truth values are the same under the conditions of the path"""
        def z(x):
            return z3.BoolVal(x) if isinstance(x, bool) else x
        if not (is_sbool(a) or isinstance(a, bool)) or not (is_sbool(b) or isinstance(b, bool)):
            return False
        return C.check(*(p.setup + list(p.conds) + [z(a) != z(b)])) == z3.unsat

    def eq_under(self, p, a, b):
        t = iv(a) == iv(b)
        return C.check(*(p.setup + list(p.conds) + [z3.Not(t)])) == z3.unsat

    def const_under(self, p, t):
        """the constant value of t under the conditions of the path, if there is one"""
        C.solver.push()
        m = C.mark()
        try:
            for c in p.setup + list(p.conds):
                C._assert(c)
            if C.solver.check() != z3.sat:
                return None
            v = C.solver.model().eval(t, model_completion=True)
            if not z3.is_int_value(v):
                return None
            return v.as_long() if C.proves(t == v) else None
        finally:
            C.solver.pop()
            C.undo(m)

    # -- applying the rule --------------------------------------------------------------------
    def run(self):
        from .interp import BRK, CONT
        if C.merge_depth:
            raise MergeAbort()
        C.stats.loops += 1
        if self.n is None:
            r = self.run_like()
            if r is not NotLike:
                return r
        while True:
            try:
                k, fresh0, cells, forms, main, sides, exits = self.infer()
                break
            except Hoist as h:
                if h.owner is not self:
                    raise
                C.choose([c for c in h.cond])
            except Peel as e:
                if e.args[0] is not self:
                    raise
                r = self.body(0)
                if not (r is None or r is CONT):
                    return r
                body = self.body
                rest = LoopRule(self.I, None, lambda k: body(add(k, 1)), self.what)
                rest.peeled = True
                return rest.run()
        # the condition of an ordinary iteration as a quantified fact; per-iteration unknowns become functions of k
        can_complete = self.n is not None
        if main is None:
            # no iteration ever goes on: either zero iterations, or the first one leaves
            if self.n is None:
                return self.leave(0, cells, forms, k, None, [], False)
            if C.branch(normb(iv(self.n) <= 0)):
                return None
            return self.leave(0, cells, forms, k, None, [], False)
        cond, nested = main.cond, list(main.facts)
        if DEBUG:
            print('LOOP', self.what, 'main', z3.simplify(cond), 'sides', len(sides), 'exits', len(exits), {key[1]: (type(forms[key]).__name__, getattr(forms[key], 'd', None), getattr(forms[key], 'tmpl', None)) for key in cells})
        fresh_cs = {}
        for nm, c in list(consts_in(cond).items()) + [x for f in nested for x in fact_consts(f).items()]:
            if fresh_no(nm) > fresh0 and not any(c.eq(f.var) for f in nested):
                fresh_cs[nm] = c
        for key in cells:
            for nm, c in self.form_consts(forms[key]).items():
                if fresh_no(nm) > fresh0 and not c.eq(k):
                    fresh_cs[nm] = c
        bound = set()
        for key in cells:
            bound |= bound_vars(getattr(forms[key], 'tmpl', None)) | bound_vars(getattr(forms[key], 'vtmpl', None)) | \
                bound_vars(getattr(forms[key], 'ktmpl', None)) | bound_vars(tuple(getattr(forms[key], 'tmpls', {}).values()))
        pairs = []
        for nm, c in fresh_cs.items():
            if c.get_id() in bound or c.eq(k):
                continue
            pairs.append((c, z3.Function('sk!' + nm, IntS, c.sort())(k)))
        if pairs:
            cond = zsub(cond, pairs)
            nested = [f.subst(pairs) for f in nested]
            for key in cells:
                fo = forms[key]
                for a in ('tmpl', 'ktmpl', 'vtmpl'):
                    if getattr(fo, a, None) is not None:
                        setattr(fo, a, subst(getattr(fo, a), pairs))
                if isinstance(fo, KeyDict):
                    fo.tmpls = {a: subst(t, pairs) for a, t in fo.tmpls.items()}

        def fact(hi):
            return ForallFact(z3.IntVal(0), iv(hi), k, cond, nested)
        trivial = z3.is_true(z3.simplify(cond)) and not nested
        exact = not nested and not pairs
        opts = []
        if can_complete:
            opts.append('all')
        if exits or sides:
            opts.append('leave')
        if not opts:
            raise PathEnd()     # the loop never ends
        w = opts[0] if len(opts) == 1 else opts[C.choose([True] * len(opts))]
        if w == 'all':
            if not trivial:
                C.add_fact(fact(self.n))
                self.probe(self.n)
            self.set_cells(cells, forms, self.n)
            C.trip_counts.append(self.n)
            C.on_undo(lambda: C.trip_counts.pop())
            return None
        j = C.fresh('j')
        C.assume(j >= 0)
        if self.n is not None:
            C.assume(j < iv(self.n))
        if not trivial:
            C.add_fact(fact(j))
        C.add_index(j)
        if self.n is None:
            C.while_trips.append(j)
            C.on_undo(lambda: C.while_trips.pop())
        C.trip_counts.append(j)
        C.on_undo(lambda: C.trip_counts.pop())
        return self.leave(j, cells, forms, k, cond if exact else None, sides, True)

    def run_like(self):
        """Does this loop make as many iterations as an earlier one (the specification's)?  By induction: every iteration
        before that number goes on; what follows is whatever iteration j does."""
        for j in C.while_trips[:-4:-1]:
            t = LoopRule(self.I, j, self.body, self.what)
            m = C.mark()
            try:
                k, fresh0, cells, forms, main, sides, exits = t.infer()
            except (Hoist, Peel, Unsupported, MergeAbort, PathEnd):
                continue
            if exits or sides or main is None:
                continue
            if t.per_iteration(cells, forms, k, fresh0, main):
                continue
            if main.facts:
                continue
            if DEBUG:
                print('LIKE', self.what, j)
            C.add_fact(ForallFact(z3.IntVal(0), iv(j), k, main.cond, []))
            t.n = None
            C.while_trips.append(j)
            C.on_undo(lambda: C.while_trips.pop())
            return t.leave(j, cells, forms, k, None, [0], True, False)
        return NotLike

    def per_iteration(self, cells, forms, k, fresh0, main):
        """unknowns of single iterations (they would have to be made functions of k)"""
        cs = dict(consts_in(main.cond))
        for key in cells:
            cs.update(self.form_consts(forms[key]))
        bound = set()
        for key in cells:
            for a in ('tmpl', 'vtmpl', 'ktmpl'):
                bound |= bound_vars(getattr(forms[key], a, None))
        return [c for nm, c in cs.items() if fresh_no(nm) > fresh0 and not c.eq(k) and c.get_id() not in bound]

    def probe(self, n):
        """let the ends of the range take part in instantiations"""
        return

    @staticmethod
    def form_consts(fo):
        out = {}
        for a in ('tmpl', 'ktmpl', 'vtmpl'):
            if getattr(fo, a, None) is not None:
                out.update(consts_in(getattr(fo, a)))
        for t in getattr(fo, 'tmpls', {}).values():
            out.update(consts_in(t))
        return out

    def set_cells(self, cells, forms, k):
        vals = [(d, f, forms[key].at(k), forms[key]) for key, (d, f) in cells.items()]
        for d, f, v, fo in vals:
            if v is MISSING:
                if f in d:
                    C.delete(d, f)
            else:
                C.write(d, f, v)

    def leave(self, j, cells, forms, k, cond, sides, general, refute=True):
        from .interp import BRK, CONT
        if general:
            vals = []
            for key, (d, f) in cells.items():
                fo = forms[key]
                v = fo.trial(j) if isinstance(fo, Over) else fo.at(j)
                vals.append((d, f, v))
                a = fo.assumption(j)
                if a is not None and isinstance(fo, (Rec, multi.Given)):
                    C.assume(a)
            for d, f, v in vals:
                if v is MISSING:
                    if f in d:
                        C.delete(d, f)
                else:
                    C.write(d, f, v)
            if cond is not None:
                C.assume(z3.Not(zsub(cond, [(k, j)])))
            if C.facts:
                C.instantiate(j)
            if refute and C.facts and self.refuted():
                raise PathEnd()
        r = self.body(iv(j) if is_sym(j) else j)
        if r is None or r is CONT:
            if not general and (self.n is not None or True):
                return self.resume(j)
            if not sides:
                raise PathEnd()
            return self.resume(j)
        if refute and C.facts and general and self.refuted():
            raise PathEnd()
        return r

    @staticmethod
    def refuted():
        return C.prove_goal(False, cheap=True)[0]

    def resume(self, j):
        """an unusual iteration happened at j; the rest of the loop is a loop again"""
        if _side[0] >= SIDE_DEPTH:
            raise Unsupported('unusual iterations repeat: %s' % self.what)
        _side[0] += 1
        try:
            off = add(j, 1)
            n = None if self.n is None else sub(self.n, off)
            if n is not None:
                if isinstance(n, int) and n <= 0:
                    return None
                if is_sym(n) and not C.branch(normb(n > 0)):
                    return None
            body = self.body
            return LoopRule(self.I, n, lambda k: body(add(k, off)), self.what).run()
        finally:
            _side[0] -= 1


class Const(Form):
    def __init__(self, v0):
        self.v0 = v0
        self.marker = v0

    def trial(self, k):
        return self.v0

    def at(self, k):
        return self.v0

    def assumption(self, k):
        return None


class _Same(object):
    def __repr__(self):
        return 'SAME'


SAME = _Same()
_old_infer = LoopRule.infer_cell


def _infer_cell(self, k, fresh0, cells, forms, key, v0, p, rejected):
    form = forms[key]
    if isinstance(form, Const):
        post = p.post[key]
        if post is SAME or same_value(post, v0) or self.same_bool(p, post, v0):
            return None
        raise Unsupported('loop cell changes unexpectedly: %s' % self.what)
    return _old_infer(self, k, fresh0, cells, forms, key, v0, p, rejected)


LoopRule.infer_cell = _infer_cell


def isbytes_(v):
    return isinstance(v, (bytes, SBytes))


def C_bytes_same(a, b):
    e = bytes_eq_cond(a, b)
    return e is True or (e is not False and C.proves(e))


def has_havoc(v):
    seen = set()

    def walk(v):
        if v is None or isinstance(v, (int, str, bytes, float)) or is_sym(v):
            return False
        if isinstance(v, Havoc):
            return True
        if id(v) in seen:
            return False
        seen.add(id(v))
        if isinstance(v, PApp) and v.name.startswith('havoc'):
            return True
        if isinstance(v, SBytes) and any(s[0] == 'op' and isinstance(s[1], str) and s[1].startswith('havoc')
                                         for s in v.segs):
            return True
        return any(walk(c) for c in children(v))
    return walk(v)


def mentions_part(v, name):
    seen = set()

    def walk(v):
        if v is None or isinstance(v, (int, str, bytes, float)) or is_sym(v):
            return False
        if id(v) in seen:
            return False
        seen.add(id(v))
        if isinstance(v, PApp) and v.name == name:
            return True
        return any(walk(c) for c in children(v))
    return walk(v)


def bound_vars(v):
    """ids of the variables bound by runs inside a value"""
    out = set()
    seen = set()

    def walk(v):
        if v is None or isinstance(v, (int, str, bytes, float)) or is_sym(v) or id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, PRep):
            out.add(v.k.get_id())
        if isinstance(v, SBytes):
            for s in v.segs:
                if s[0] == 'rep':
                    out.add(s[2].get_id())
        if isinstance(v, SList):
            for s in v.segs:
                if s[0] == 's':
                    out.add(s[2].get_id())
        if isinstance(v, SDict):
            for s in v.log:
                if s[0] == 's':
                    out.add(s[2].get_id())
        for c in children(v):
            walk(c)
    walk(v)
    return out


# ------------------------------------------------------------------------------------------------ statements
def for_loop(I, st, src, env):
    from . import models
    from .interp import BRK, CONT
    what = 'for at line %d of %s' % (st.lineno, getattr(env.func, '__name__', '?'))
    parts = src.parts if isinstance(src, models.Chain) else [src]
    broke = False
    for p in parts:
        if isinstance(p, models.Finite):
            for x in p.items:
                I.assign(st.target, x, env)
                r = I.exec_block(st.body, env)
                if r is BRK:
                    return None
                if r is not None and r is not CONT:
                    return r
            continue
        if isinstance(p, models.Guarded):
            for g, x in p.items:
                if C.branch(g):
                    I.assign(st.target, x, env)
                    r = I.exec_block(st.body, env)
                    if r is BRK:
                        return None
                    if r is not None and r is not CONT:
                        return r
            continue
        if isinstance(p, models.SeqProtocol):
            r = protocol_loop(I, p, lambda x: (I.assign(st.target, x, env), I.exec_block(st.body, env))[1], what)
        else:
            def body(k, p=p):
                I.assign(st.target, p.get(k), env)
                return I.exec_block(st.body, env)
            r = symbolic_loop(I, p.n, body, what)
        if r is BRK:
            return None
        if r is not None and r is not CONT:
            return r
    if st.orelse:
        return I.exec_block(st.orelse, env)
    return None


def symbolic_loop(I, n, body, what):
    from .interp import BRK, CONT
    if is_sym(n):
        c = None
        if not C.merge_depth:
            c = quick_const(n)
        if c is not None:
            n = c
    if isinstance(n, int):
        for k in range(n):
            r = body(k)
            if r is not None and r is not CONT:
                return r
        return None
    return LoopRule(I, n, body, what).run()


def quick_const(n):
    for v in (0, 1):
        if C.proves(n == v):
            return v
    return None


def is_flag_loop(st):
    """the test reads a local truth value that the body computes"""
    if any(isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)) for n in ast.walk(st.test)):
        return False
    names = {n.id for n in ast.walk(st.test) if isinstance(n, ast.Name)}
    for n in ast.walk(ast.Module(body=st.body, type_ignores=[])):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in n.targets):
            v = n.value
            if isinstance(v, (ast.Compare, ast.BoolOp)) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) or \
                    isinstance(v, ast.Constant) and isinstance(v.value, bool):
                return True
    return False


def while_loop(I, st, env):
    from .interp import BRK, CONT, is_const_true
    what = 'while at line %d of %s' % (st.lineno, getattr(env.func, '__name__', '?'))

    class Stop(object):
        pass
    stop = ('stop',)

    def body(k):
        if not is_const_true(st.test):
            if not C.branch(I.truth(I.eval(st.test, env))):
                return stop
        return I.exec_block(st.body, env)
    if is_flag_loop(st):
        # while T: B  is  if T: loop { B; if not T: break }, and T holds whenever B begins
        def rotated(k):
            t = I.truth(I.eval(st.test, env))
            if t is not True:
                if not is_sym(t):
                    raise PathEnd()
                C.assume(t)
            r = I.exec_block(st.body, env)
            if r is not None and r is not CONT:
                return r
            if not C.branch(I.truth(I.eval(st.test, env))):
                return stop
            return r
        if C.branch(I.truth(I.eval(st.test, env))):
            r = LoopRule(I, None, rotated, what).run()
        else:
            r = stop
    else:
        r = LoopRule(I, None, body, what).run()
    if r is BRK:
        return None
    if r is stop or r == stop:
        return I.exec_block(st.orelse, env) if st.orelse else None
    return r


def protocol_loop(I, src, use, what):
    """for x in obj, with obj.__getitem__(0), (1), ... until IndexError"""
    from .interp import BRK, CONT
    stop = ('stop',)

    def body(k):
        try:
            x = I.call(src.method, [src.obj, k] if src.indexed else [src.obj])
        except Raised as e:
            if issubclass(e.exc.cls, src.stop):
                return stop
            raise
        return use(x)
    r = LoopRule(I, None, body, what).run()
    return None if r == stop else r


def list_of_protocol(I, src):
    out = SList(())

    def use(x):
        from . import models
        models.list_append(out, x)
        return None
    protocol_loop(I, src, use, 'list() of a sequence')
    return out


def comprehension(I, gens, cenv, emit, out, env):
    from . import models

    def level(i):
        if i == len(gens):
            models.list_append(out, emit(cenv))
            return
        g = gens[i]
        src = models.iter_source(I, I.eval(g.iter, env if i == 0 else cenv))
        one = lambda x: element(i, g, x)
        parts = src.parts if isinstance(src, models.Chain) else [src]
        for p in parts:
            if isinstance(p, models.Finite):
                for x in p.items:
                    one(x)
            elif isinstance(p, models.Guarded):
                for gd, x in p.items:
                    guarded(gd, lambda x=x: one(x))
            elif isinstance(p, models.SeqProtocol):
                protocol_loop(I, p, one, 'comprehension over a sequence')
            else:
                symbolic_loop(I, p.n, lambda k, p=p: one(p.get(k)), 'comprehension in %s' %
                              getattr(env.func, '__name__', '?'))

    def element(i, g, x):
        I.assign(g.target, x, cenv)
        cond = True
        for t in g.ifs:
            c = I.truth(I.eval(t, cenv))
            if c is False:
                return None
            if c is not True:
                if i == len(gens) - 1:
                    if C.proves(c):
                        continue
                    if C.proves(znot(c)):
                        return None
                    cond = zand(cond, c)
                elif not C.branch(c):
                    return None
        if cond is True:
            level(i + 1)
        elif cond is not False:
            guarded(cond, lambda: level(i + 1))
        return None

    def guarded(g, run):
        """append under a guard when the element has no side effects, else fork"""
        if g is True:
            return run()
        if g is False:
            return None
        m = C.mark()
        before = out.segs
        C.merge_depth += 1
        try:
            try:
                run()
            finally:
                C.merge_depth -= 1
            after = out.segs
            if len(after) >= len(before) and all(a is b for a, b in zip(before, after)) and \
                    all(s[0] == 'e' for s in after[len(before):]):
                out.set_segs(before + tuple(('e', s[1], zand(g, s[2])) for s in after[len(before):]))
                return None
        except (MergeAbort, Raised, Unsupported):
            pass
        C.undo(m)
        if C.branch(g):
            run()
        return None
    level(0)
    return out


def map_symbolic(I, f, src, star):
    from . import models
    out = SList(())

    def body(k):
        x = src.get(k)
        models.list_append(out, I.call(f, list(x) if star else [x]))
        return None
    symbolic_loop(I, src.n, body, 'map')
    return out


from . import multi  # noqa: E402  (the invariant that is not inferred)
