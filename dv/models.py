"""Symbolic models of the Python operations and library functions the code under test uses."""
import ast
import binascii
import builtins
import collections
import datetime
import enum
import functools
import io
import itertools
import operator
import string
import struct
import types

import z3

from .core import C, D, MISSING, Unsupported, PathEnd, Raised, MergeAbort, ForallFact, is_sym, is_sint, is_sbool
from .values import *
from .interp import (py_raise, SFunc, SMethod, BMethod, SSuper, SPartial, SIter, SRange, SSlice, is_native, nativize,
                     wrap_native, pytype_of, HANDLERS, interpretable_module, SYMTYPES, merge_val, Env, qualname)


class Finite(object):
    def __init__(self, items):
        self.items = items


class Symbolic(object):
    """n elements, element k given by get(k)"""

    def __init__(self, n, get):
        self.n, self.get = n, get


class Chain(object):
    def __init__(self, parts):
        self.parts = parts


class Guarded(object):
    """finite list of (guard, value)"""

    def __init__(self, items):
        self.items = items


def isnum(v):
    return type(v) in (int, bool) or is_sint(v) or is_sbool(v) or isinstance(v, SEnum) or \
        (isinstance(v, int))


def num(v):
    """the integer value of an int-like"""
    if isinstance(v, SEnum):
        return v.val
    if is_sbool(v):
        t = norm(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        if is_sym(t):
            set_bits(t, [v])
        return t
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, enum.Enum):
        return int(v)
    return v


def isstr(v):
    return isinstance(v, (str, SStr))


def isbytes(v):
    return isinstance(v, (bytes, bytearray, SBytes))


# ------------------------------------------------------------------------------------------------ truth, comparison
def truth(I, v):
    if v is None or v is False or v is True:
        return bool(v)
    if is_sbool(v):
        return normb(v)
    if is_sint(v):
        return znot(int_eq(v, 0))
    if isinstance(v, SEnum):
        return znot(int_eq(v.val, 0))
    if isinstance(v, SStr):
        return nonempty(v)
    if isinstance(v, SBytes):
        return znot(int_eq(blen(v), 0))
    if isinstance(v, (SList, SDict, View, SRange)):
        n = py_len(I, v)
        return znot(int_eq(n, 0))
    if isinstance(v, SObj):
        m = I.class_attr(v.cls, '__bool__')
        if isinstance(m, types.FunctionType):
            return truth(I, I.call(m, [v]))
        m = I.class_attr(v.cls, '__len__')
        if isinstance(m, types.FunctionType):
            return truth(I, I.call(m, [v]))
        if v.base is not None:
            return truth(I, v.base)
        return True
    if isinstance(v, (SStream, SFunc, SMethod, BMethod, SPartial)):
        return True
    if isinstance(v, Term):
        return z3.Const('truth!%s' % hash(skey(v)), BoolS)
    if isinstance(v, Havoc):
        raise Unsupported('truth of a havocked value')
    if isinstance(v, tuple):
        return len(v) > 0
    return bool(v)


def eq_cond(I, a, b):
    """Exact condition for a == b."""
    if a is b and not isinstance(a, float):
        return True
    if isnum(a) and isnum(b):
        return int_eq(num(a), num(b))
    if isstr(a) and isstr(b):
        return str_eq_cond(a, b)
    if isbytes(a) and isbytes(b):
        return bytes_eq_cond(a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SObj):
            m = I.class_attr(x.cls, '__eq__')
            if isinstance(m, types.FunctionType):
                r = I.call(m, [x, y])
                if r is NotImplemented:
                    continue
                return truth(I, r)
            if x.base is not None:
                yb = y.base if isinstance(y, SObj) else y
                return eq_cond(I, x.base, yb)
            return False
    if isinstance(a, (Term, View)) or isinstance(b, (Term, View)):
        if skey(a) == skey(b):
            return True
        if isinstance(a, Term) and isinstance(b, Term) and a.op == 'dt' and b.op == 'dt':
            return int_eq(a.args[0], b.args[0])
        if (isinstance(a, Term) and a.pytype is not None and b is None) or \
                (isinstance(b, Term) and b.pytype is not None and a is None):
            return False
        return z3.Const('eq!%s' % hash((skey(a), skey(b))), BoolS)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return zand(*[eq_cond(I, x, y) for x, y in zip(a, b)])
    if isinstance(a, SList) or isinstance(b, SList):
        ta, tb = pytype_of(a), pytype_of(b)
        if not ((ta is list and tb is list) or (ta is tb)):
            return False
        sa, sb = list_items(a), list_items(b)
        if sa is not None and sb is not None:
            if len(sa) != len(sb):
                return False
            return zand(*[eq_cond(I, x, y) for x, y in zip(sa, sb)])
        if skey(a) == skey(b):
            return True
        raise Unsupported('comparison of symbolic lists')
    if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        da, db = dict_entries(I, a), dict_entries(I, b)
        if da is None or db is None:
            if skey(a) == skey(b):
                return True
            raise Unsupported('comparison of symbolic dicts')
        if len(da) != len(db):
            return False
        conds = []
        for k, v in da:
            w = dict_find(I, b, k)
            if w is MISSING:
                return False
            conds.append(eq_cond(I, v, w))
        return zand(*conds)
    if isinstance(a, Havoc) or isinstance(b, Havoc):
        raise Unsupported('comparison of a havocked value')
    if is_sym(a) or is_sym(b) or isinstance(a, SYMTYPES) or isinstance(b, SYMTYPES):
        ta, tb = pytype_of(a), pytype_of(b)
        if isinstance(a, (SFunc, SMethod, BMethod)) or isinstance(b, (SFunc, SMethod, BMethod)):
            return False
        if isinstance(a, SStream) or isinstance(b, SStream):
            return False
        if ta is not tb:
            return False
        raise Unsupported('equality of %s and %s' % (ta, tb))
    return bool(a == b)


def list_items(v):
    if isinstance(v, SList):
        if all(s[0] == 'e' and s[2] is True for s in v.segs):
            return [s[1] for s in v.segs]
        return None
    if isinstance(v, (list, tuple)):
        return list(v)
    return None


def compare(I, op, a, b):
    if op is ast.Is or op is ast.IsNot:
        r = is_same(a, b)
        return r if op is ast.Is else znot(r)
    if op is ast.Eq:
        return eq_cond(I, a, b)
    if op is ast.NotEq:
        for x, y in ((a, b),):
            if isinstance(x, SObj):
                m = I.class_attr(x.cls, '__ne__')
                if isinstance(m, types.FunctionType):
                    return truth(I, I.call(m, [x, y]))
        return znot(eq_cond(I, a, b))
    if op is ast.In:
        return contains(I, b, a)
    if op is ast.NotIn:
        return znot(truth(I, contains(I, b, a)))
    if isnum(a) and isnum(b):
        a, b = num(a), num(b)
        if isinstance(a, int) and isinstance(b, int):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        a, b = iv(a), iv(b)
        r = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[op]()
        # zero tests on values with a bit view stay propositional
        return normb(r)
    na, nb = nativize(a), nativize(b)
    if na is not MISSING and nb is not MISSING:
        try:
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](na, nb)
        except TypeError as e:
            py_raise(TypeError, str(e))
    if a is None or b is None:
        py_raise(TypeError, 'unorderable')
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        # lexicographic
        res = op in (ast.LtE, ast.GtE)
        strict = {ast.LtE: ast.Lt, ast.GtE: ast.Gt}.get(op, op)
        for x, y in reversed(list(zip(a, b))):
            res = zor(compare(I, strict, x, y), zand(eq_cond(I, x, y), res))
        return res
    raise Unsupported('ordering of %s and %s' % (pytype_of(a), pytype_of(b)))


def is_same(a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(y, bool) and is_sbool(x):
            return x if y else znot(x)
        if isinstance(x, SEnum) and isinstance(y, x.cls):
            return int_eq(x.val, int(y))
        if isinstance(x, SEnum) and isinstance(y, SEnum) and x.cls is y.cls:
            return int_eq(x.val, y.val)
    if isinstance(a, enum.Enum) or isinstance(a, type) or a is None or b is None or isinstance(a, bool):
        return a is b
    if isinstance(a, (int, str)) and isinstance(b, (int, str)):
        return type(a) is type(b) and a == b
    return a is b


def contains(I, cont, x):
    if isinstance(cont, SObj):
        m = I.class_attr(cont.cls, '__contains__')
        if isinstance(m, types.FunctionType):
            return truth(I, I.call(m, [cont, x]))
        if cont.base is not None:
            return contains(I, cont.base, x)
    if isstr(cont):
        return str_contains(cont, x)
    if isinstance(cont, (dict, SDict)):
        return dict_has(I, cont, x)
    if isbytes(cont):
        raise Unsupported('in bytes')
    if isinstance(cont, enum.EnumMeta):
        items = list(cont)
    elif isinstance(cont, (set, frozenset)):
        items = sorted(cont, key=repr)
    elif isinstance(cont, SRange) or isinstance(cont, range):
        xv = num(x)
        if cont.step == 1 and (is_sint(xv) or isinstance(xv, int)):
            return zand(normb(iv(xv) >= iv(cont.start)), normb(iv(xv) < iv(cont.stop)))
        raise Unsupported('in range')
    else:
        src = iter_source(I, cont)
        if isinstance(src, Guarded):
            return zor(*[zand(g, eq_cond(I, v, x)) for g, v in src.items])
        if not isinstance(src, Finite):
            raise Unsupported('in symbolic sequence')
        items = src.items
    return zor(*[eq_cond(I, y, x) for y in items])


def str_contains(s, x):
    """x in s"""
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    if isinstance(x, str):
        if x == '':
            return True
        parts = str_parts(s)
        if any(isinstance(p, str) and x in p for p in parts):
            return True
        if len(parts) == 1:
            p = parts[0]
            if isinstance(p, PSel):
                conds = [int_eq(p.key, k) for k, v in p.table if str_contains(v, x) is True]
                rest = [(k, v) for k, v in p.table if str_contains(v, x) not in (True, False)]
                if not rest:
                    d = str_contains(p.default, x)
                    if d is not False:
                        conds.append(zand(d, *[znot(int_eq(p.key, k)) for k, v in p.table]))
                    return zor(*conds)
            if isinstance(p, PIte):
                return zite(p.c, str_contains(p.a, x), str_contains(p.b, x))
        # ropes of literals and formatted integers: the needle cannot start or end inside digits
        if all(isinstance(p, str) or (isinstance(p, PFmt) and is_sint(p.val)) for p in parts):
            alpha = set('0123456789abcdefABCDEF-, x')
            if all(ch not in alpha for ch in x):
                return False
            if len([ch for ch in x if ch not in alpha]) and all(isinstance(p, PFmt) or not (set(p) & (set(x) - alpha))
                                                                  for p in parts):
                return False
        if len(parts) > 1 and len(x) == 1:
            return zor(*[str_contains(mkstr([p]), x) for p in parts])
        if len(parts) > 1:
            # a needle without characters of the literal parts must lie inside one symbolic part
            lits = set(''.join(p for p in parts if isinstance(p, str)))
            syms = [p for p in parts if not isinstance(p, str)]
            if len(syms) == 1 and not (lits & set(x)):
                return str_contains(mkstr(syms), x)
    f = z3.Function('strcontains', StrS, StrS, BoolS)
    return f(enc_str(s), enc_str(x))


# ------------------------------------------------------------------------------------------------ dictionaries
def key_str(k):
    return k


def dict_entries(I, d):
    """[(key, value)] when all keys are known to be distinct, else None."""
    if isinstance(d, dict):
        return list(d.items())
    out = []
    for s in d.log:
        if s[0] != 'e':
            return None
        for k, _ in out:
            e = eq_cond(I, k, s[1])
            if e is not False and not C.proves(znot(e)):
                return None
        out.append((s[1], s[2]))
    return out


def dict_set(I, d, key, val):
    if not isinstance(d, SDict):
        raise Unsupported('mutation of a native dict')
    log = list(d.log)
    for i in range(len(log) - 1, -1, -1):
        s = log[i]
        if s[0] == 'h' and len(s) > 2 and type(key) is type(s[2]):
            if key != s[2]:
                continue
            if s[3] or i == len(log) - 1:
                log[i] = ('e', key, val)
                C.write(d.f, 'log', tuple(log))
                return
            break
        if s[0] != 'e':
            break
        e = eq_cond(I, s[1], key)
        if e is True or (e is not False and C.proves(e)):
            log[i] = ('e', s[1], val)
            C.write(d.f, 'log', tuple(log))
            return
        if e is False or C.proves(znot(e)):
            continue
        break       # uncertain: keep a raw assignment (later entries win)
    log.append(('e', key, val))
    C.write(d.f, 'log', tuple(log))


def dict_find(I, d, key, decide=True):
    """value or MISSING (forks when needed)"""
    if isinstance(d, dict):
        return native_dict_find(I, d, key)
    for i in range(len(d.log) - 1, -1, -1):
        s = d.log[i]
        if s[0] == 'e':
            e = eq_cond(I, s[1], key)
            if C.branch(e):
                return s[2]
        elif s[0] == 's':
            has, m = run_lookup(I, s, key)
            if C.branch(has):
                return subst(s[4], [(s[2], m)])
        elif len(s) > 2 and type(key) is type(s[2]) and key != s[2] or len(s) == 2 and C.optimistic:
            continue
        else:
            raise Unsupported('lookup in a havocked dict')
    return MISSING


LOGS = {}


def key_terms(key):
    """flatten a key to a tuple of z3 terms"""
    if isinstance(key, tuple):
        out = []
        for k in key:
            out.extend(key_terms(k))
        return out
    if isnum(key):
        return [iv(num(key))]
    if isstr(key):
        return [enc_str(key)]
    if isbytes(key):
        return [enc_bytes(key)]
    raise Unsupported('dict key %r' % (key,))


def run_lookup(I, s, key):
    """(present, index) of the last assignment with this key in a symbolic run of assignments."""
    _, n, k, kt, vt = s
    bv = z3.Const('bound!', IntS)
    sig = repr((skey(n), skey(subst(kt, [(k, bv)]))))
    name = LOGS.setdefault(sig, 'L%d' % len(LOGS))
    ks = key_terms(key)
    sorts = [t.sort() for t in ks]
    has = z3.Function('has!' + name, *(sorts + [BoolS]))(*ks)
    idx = z3.Function('last!' + name, *(sorts + [IntS]))(*ks)
    LOG_DEF[name] = s
    return has, idx


LOG_DEF = {}


def _has_axiom(app, name):
    return []


def _last_axiom(app, name):
    """0 <= last < n whenever present; the key there is the key looked up."""
    s = LOG_DEF.get(name.split('!', 1)[1])
    ks = [app.arg(i) for i in range(app.num_args())]
    has = z3.Function('has!' + name.split('!', 1)[1], *([t.sort() for t in ks] + [BoolS]))(*ks)
    kk = key_terms(subst(s[3], [(s[2], app)]))
    m = C.fresh('m')
    km = key_terms(subst(s[3], [(s[2], m)]))
    C.add_index(app)
    eqs = z3.And(*[a == b for a, b in zip(kk, ks)])
    nz = iv(s[1])
    return [z3.Implies(has, z3.And(app >= 0, app < nz, eqs)),
            ForallFact(z3.IntVal(0), nz, m, z3.Implies(z3.And(*[a == b for a, b in zip(km, ks)]),
                                                        z3.And(has, m <= app)))]


C.app_axioms['last'] = _last_axiom
C_AX['last'] = _last_axiom


def native_dict_find(I, d, key):
    if is_native(key):
        try:
            return wrap_native_ref(d.get(key, MISSING))
        except TypeError:
            py_raise(TypeError, 'unhashable')
    if isnum(key):
        kv = num(key)
        if all(isinstance(k, int) for k in d):
            c = C_quick_const(kv)
            if c is not None:
                return d.get(c, MISSING)
            if d and all(isinstance(v, str) for v in d.values()):
                present = zor(*[int_eq(kv, int(k)) for k in d])
                if C.branch(present):
                    return sel(d, kv, '')
                return MISSING
            opts = list(d.items())
            conds = [zbool(int_eq(kv, int(k))) for k, _ in opts]
            i = C.choose(conds + [z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True)])
            return opts[i][1] if i < len(opts) else MISSING
    for k, v in d.items():
        e = eq_cond(I, k, key)
        if C.branch(e):
            return v
    return MISSING


def wrap_native_ref(v):
    return v


def C_quick_const(t):
    if isinstance(t, int):
        return t
    return None


def sel(d, kv, default):
    tbl = tuple(sorted((int(k), v) for k, v in d.items()))
    return SStr([PSel(tbl, kv, default)])


def dict_has(I, d, key):
    if isinstance(d, dict):
        if is_native(key):
            return key in d
        conds = [eq_cond(I, k, key) for k in d]
        return zor(*conds)
    conds = []
    for s in d.log:
        if s[0] == 'e':
            conds.append(eq_cond(I, s[1], key))
        elif s[0] == 's':
            conds.append(run_lookup(I, s, key)[0])
        else:
            raise Unsupported('membership in a havocked dict')
    return zor(*conds)


def dict_update(I, d, other):
    if isinstance(other, SObj) and other.base is not None:
        other = other.base
    if isinstance(other, dict):
        for k, v in other.items():
            dict_set(I, d, k, v)
        return
    if isinstance(other, SDict):
        if not d.log:
            C.write(d.f, 'log', other.log)
            return
        for s in other.log:
            if s[0] == 'e':
                dict_set(I, d, s[1], s[2])
            else:
                C.write(d.f, 'log', d.log + (s,))
        return
    if isinstance(other, (SList, tuple, list, Finite, Symbolic, Chain, SIter)):
        x = dict_from_pairs(I, other, dict)
        return dict_update(I, d, x)
    raise Unsupported('dict.update')


def dict_from_pairs(I, pairs, ty):
    d = SDict((), ty)
    if isinstance(pairs, View):
        raise Unsupported('dict of a view')
    src = iter_source(I, pairs)
    for part in (src.parts if isinstance(src, Chain) else [src]):
        if isinstance(part, Finite):
            for p in part.items:
                k, v = unpack_n(I, p, 2)
                dict_set(I, d, k, v)
        elif isinstance(part, Symbolic):
            k = C.fresh('k')
            kv, vv = unpack_n(I, part.get(k), 2)
            C.write(d.f, 'log', d.log + (('s', part.n, k, kv, vv),))
        else:
            raise Unsupported('dict of guarded pairs')
    return d


def dict_delete(I, d, key):
    if not isinstance(d, SDict):
        raise Unsupported('del on native dict')
    log = list(d.log)
    for i in range(len(log) - 1, -1, -1):
        s = log[i]
        if s[0] != 'e':
            raise Unsupported('del in a symbolic dict')
        e = eq_cond(I, s[1], key)
        if C.branch(e):
            if dict_entries(I, d) is None:
                raise Unsupported('del in a raw log')
            del log[i]
            C.write(d.f, 'log', tuple(log))
            return s[2]
    return MISSING


# ------------------------------------------------------------------------------------------------ sequences
def list_len(v):
    n = 0
    for s in v.segs:
        if s[0] == 'e':
            n = add(n, 1) if s[2] is True else add(n, zite(s[2], 1, 0))
        elif s[0] == 's':
            n = add(n, s[1])
        else:
            raise Unsupported('length of a havocked list')
    return n


def list_append(v, x):
    v.set_segs(v.segs + (('e', x, True),))


def as_segs(I, v):
    if isinstance(v, SObj) and v.base is not None:
        v = v.base
    if isinstance(v, SList):
        return v.segs
    if isinstance(v, (list, tuple)):
        return tuple(elems([wrap_native(x) for x in v]))
    src = iter_source(I, v)
    out = []
    for p in (src.parts if isinstance(src, Chain) else [src]):
        if isinstance(p, Finite):
            out.extend(elems(p.items))
        elif isinstance(p, Guarded):
            out.extend(('e', x, g) for g, x in p.items)
        else:
            k = C.fresh('k')
            out.append(('s', p.n, k, p.get(k)))
    return tuple(out)


def list_get(I, v, i):
    """v[i] for a symbolic list (forks on the bounds)"""
    items = list_items(v)
    if items is not None:
        if isinstance(i, int):
            try:
                return items[i]
            except IndexError:
                py_raise(IndexError, 'list index out of range')
        n = len(items)
        opts = [z3.Or(i == k, i == k - n) for k in range(n)]
        j = C.choose(opts + [z3.Or(i < -n, i >= n)])
        if j == n:
            py_raise(IndexError, 'list index out of range')
        return items[j]
    n = list_len(v)
    if isinstance(i, int) and i < 0 or (is_sym(i) and not C.proves(i >= 0)):
        if C.branch(normb(iv(i) < 0)):
            i = add(i, n)
    if not C.prefer(normb(z3.And(iv(i) >= 0, iv(i) < iv(n)))):
        py_raise(IndexError, 'list index out of range')
    pos = 0
    for s in v.segs:
        if s[0] == 'e':
            if s[2] is not True:
                raise Unsupported('index into a guarded list')
            if C.branch(int_eq(i, pos)):
                return s[1]
            pos = add(pos, 1)
        else:
            end = add(pos, s[1])
            if C.branch(normb(iv(i) < iv(end))):
                return subst(s[3], [(s[2], sub(i, pos))])
            pos = end
    raise PathEnd()


def slice_bounds(I, sl, n):
    """start, stop, step as CPython computes them for a sequence of length n (step 1 only when symbolic)"""
    step = 1 if sl.step is None else sl.step
    if is_native((sl.start, sl.stop, step)) and isinstance(n, int):
        return slice(sl.start, sl.stop, step).indices(n)
    if step != 1:
        raise Unsupported('slice step')

    def clamp(x, dflt):
        if x is None:
            return dflt
        x = num(x)
        if isinstance(x, int):
            if x >= 0:
                if x == 0:
                    return 0
                return n if not C.branch(normb(x <= iv(n))) else x
            x2 = add(n, x)
            return x2 if C.branch(normb(iv(x2) >= 0)) else 0
        if not C.branch(normb(x >= 0)):
            x2 = add(n, x)
            return x2 if C.branch(normb(iv(x2) >= 0)) else 0
        return x if C.branch(normb(x <= iv(n))) else n
    a = clamp(sl.start, 0)
    b = clamp(sl.stop, n)
    if not C.branch(normb(iv(a) <= iv(b))):
        b = a
    return a, b, 1


def list_slice(I, v, sl):
    items = list_items(v)
    if items is not None and is_native((sl.start, sl.stop, sl.step)):
        return SList(elems(items[slice(sl.start, sl.stop, sl.step)]), v.pytype if isinstance(v, SList) else list)
    n = list_len(v)
    if len(v.segs) == 1 and v.segs[0][0] == 's':
        s = v.segs[0]
        st = num(sl.step) if sl.step is not None else 1
        if isinstance(st, int) and st == 1:
            a, b, _ = slice_bounds(I, sl, n)
            k = C.fresh('k')
            return SList([('s', sub(b, a), k, subst(s[3], [(s[2], add(a, k))]))])
        # general step: the index list of the slice is an opaque (but common) sequence
        args = [iv(x) if x is not None else z3.IntVal(-10 ** 30) for x in (
            num(sl.start) if sl.start is not None else None, num(sl.stop) if sl.stop is not None else None, st)]
        fl = z3.Function('slicelen', IntS, IntS, IntS, IntS, IntS)
        fi = z3.Function('sliceidx', IntS, IntS, IntS, IntS, IntS, IntS)
        if is_sym(st) and C.branch(normb(st == 0)) or st == 0:
            py_raise(ValueError, 'slice step cannot be zero')
        k = C.fresh('k')
        return SList([('s', fl(iv(n), *args), k, subst(s[3], [(s[2], fi(iv(n), args[0], args[1], args[2], k))]))])
    if len(v.segs) >= 1:
        a, b, _ = slice_bounds(I, sl, n)
        pos = 0
        out = []
        for s in v.segs:
            m = 1 if s[0] == 'e' else s[1]
            end = add(pos, m)
            if s[0] == 'e':
                if C.branch(normb(z3.And(iv(a) <= iv(pos), iv(pos) < iv(b)))):
                    out.append(s)
            else:
                lo = zite(normb(iv(a) > iv(pos)), sub(a, pos), 0)
                hi = zite(normb(iv(b) < iv(end)), sub(b, pos), m)
                k = C.fresh('k')
                out.append(('s', zite(normb(iv(hi) > iv(lo)), sub(hi, lo), 0), k, subst(s[3], [(s[2], add(lo, k))])))
            pos = end
        return SList(out)
    raise Unsupported('slice of a symbolic list')


def _slicelen_axiom(app, name):
    return [app >= 0]


def _sliceidx_axiom(app, name):
    n, a, b, st, k = [app.arg(i) for i in range(5)]
    fl = z3.Function('slicelen', IntS, IntS, IntS, IntS, IntS)(n, a, b, st)
    return [z3.Implies(z3.And(k >= 0, k < fl), z3.And(app >= 0, app < n))]


C_AX['slicelen'] = _slicelen_axiom
C_AX['sliceidx'] = _sliceidx_axiom
C.app_axioms.update(C_AX)


def list_set(I, v, i, x):
    items = list_items(v)
    if items is not None and isinstance(i, int):
        n = len(items)
        if not -n <= i < n:
            py_raise(IndexError, 'list assignment index out of range')
        items[i] = x
        v.set_segs(elems(items))
        return
    if len(v.segs) == 1 and v.segs[0][0] == 's':
        s = v.segs[0]
        if not C.branch(normb(z3.And(iv(i) >= 0, iv(i) < iv(s[1])))):
            raise Unsupported('list assignment out of a symbolic range')
        k = C.fresh('k')
        old = subst(s[3], [(s[2], k)])
        v.set_segs((('s', s[1], k, StoreVal(k, i, x, old)),))
        return
    raise Unsupported('assignment into a symbolic list')


class StoreVal(object):
    """value at k of a list after v[i] = x; resolved by the loop rule"""
    __slots__ = ('k', 'i', 'x', 'old')

    def __init__(self, k, i, x, old):
        self.k, self.i, self.x, self.old = k, i, x, old


def iter_source(I, v):
    if isinstance(v, (Finite, Symbolic, Chain, Guarded)):
        return v
    if isinstance(v, SObj):
        m = I.class_attr(v.cls, '__iter__')
        if isinstance(m, types.FunctionType):
            it = I.call(m, [v])
            if isinstance(it, SObj):
                nx = I.class_attr(it.cls, '__next__')
                if not isinstance(nx, types.FunctionType):
                    py_raise(TypeError, 'iter() returned non-iterator')
                return SeqProtocol(it, nx, False, StopIteration)
            return iter_source(I, it)
        if v.base is not None:
            return iter_source(I, v.base)
        m = I.class_attr(v.cls, '__getitem__')
        if isinstance(m, types.FunctionType):
            return SeqProtocol(v, m)
        raise Unsupported('iteration over %s' % v.cls.__name__)
    if isinstance(v, SList):
        if all(s[0] == 'e' for s in v.segs):
            if all(s[2] is True for s in v.segs):
                return Finite([s[1] for s in v.segs])
            return Guarded([(s[2], s[1]) for s in v.segs])
        parts = []
        for s in v.segs:
            if s[0] == 'e':
                if s[2] is not True:
                    raise Unsupported('mixed guarded list')
                if parts and isinstance(parts[-1], Finite):
                    parts[-1].items.append(s[1])
                else:
                    parts.append(Finite([s[1]]))
            elif s[0] == 's':
                parts.append(Symbolic(s[1], lambda k, s=s: subst(s[3], [(s[2], k)])))
            else:
                raise Unsupported('iteration over a havocked list')
        return parts[0] if len(parts) == 1 else Chain(parts)
    if isinstance(v, SRange):
        st, sp, step = num(v.start), num(v.stop), num(v.step)
        if isinstance(st, int) and isinstance(sp, int) and isinstance(step, int):
            return Finite(list(range(st, sp, step)))
        if not isinstance(step, int) or step == 0:
            raise Unsupported('range step')
        d = sub(sp, st) if step > 0 else sub(st, sp)
        a = abs(step)
        if a != 1:
            d = norm((iv(d) + (a - 1)) / a)
        c = C_const(d) if is_sym(d) and not C.proves(d >= 0) else None
        n = d if (isinstance(d, int) and d >= 0) or (is_sym(d) and C.proves(d >= 0)) else \
            (0 if isinstance(d, int) else zite(normb(d > 0), d, 0))
        return Symbolic(n, lambda k: add(st, mul(step, k)))
    if isinstance(v, range):
        return Finite(list(v))
    if isinstance(v, SDict):
        return iter_source(I, dict_keys(I, v))
    if isinstance(v, dict):
        return Finite(list(v))
    if isinstance(v, (list, tuple)):
        return Finite(list(v))
    if isinstance(v, str):
        return Finite(list(v))
    if isinstance(v, bytes):
        return Finite(list(v))
    if isinstance(v, SBytes):
        n = blen(v)
        if isinstance(n, int):
            return Finite([byte_at(v, i) for i in range(n)])
        return Symbolic(n, lambda k: byte_at(v, k))
    if isinstance(v, (set, frozenset)):
        return Finite(sorted(v, key=repr))
    if isinstance(v, enum.EnumMeta):
        return Finite(list(v))
    if isinstance(v, View):
        if v.op == 'items':
            return dict_items_source(I, v.args[0])
        if v.op in ('values', 'keys'):
            src = dict_items_source(I, v.args[0])
            j = 1 if v.op == 'values' else 0
            return map_source(src, lambda p: p[j])
        if v.op == 'list':
            return iter_source(I, v.args[0])
    if isinstance(v, SIter):
        src = iter_source(I, v.src)
        if isinstance(src, Finite):
            pos = v.f['pos']
            items = src.items[pos:]
            C.write(v.f, 'pos', len(src.items))
            return Finite(items)
        if v.f['pos'] == 0 and isinstance(v.f['pos'], int):
            C.write(v.f, 'pos', MISSING)
            return src
        raise Unsupported('resumed symbolic iterator')
    if isinstance(v, (type({}.items()), type({}.keys()), type({}.values()), type(reversed([])), enumerate, zip, map)):
        return Finite(list(v))
    if isinstance(v, SStr):
        raise Unsupported('iteration over symbolic text')
    if hasattr(v, '__iter__') and not is_sym(v) and not isinstance(v, SYMTYPES):
        if isinstance(v, itertools.count):
            a = v.__reduce__()[1]
            a, d = a[0], a[1] if len(a) > 1 else 1
            return Symbolic(None, lambda k: add(a, mul(d, k)))
        return Finite(list(v))
    py_raise(TypeError, 'not iterable')


class SeqProtocol(object):
    """elements come from obj.__getitem__(0), (1), ... or from obj.__next__() until the exception"""

    def __init__(self, obj, method, indexed=True, stop=IndexError):
        self.obj, self.method, self.indexed, self.stop = obj, method, indexed, stop


def map_source(src, f):
    if isinstance(src, Finite):
        return Finite([f(x) for x in src.items])
    if isinstance(src, Symbolic):
        return Symbolic(src.n, lambda k: f(src.get(k)))
    if isinstance(src, Guarded):
        return Guarded([(g, f(x)) for g, x in src.items])
    return Chain([map_source(p, f) for p in src.parts])


def dict_keys(I, d):
    return View('keys', (d,))


def dict_items_source(I, d):
    if isinstance(d, dict):
        return Finite([(k, v) for k, v in d.items()])
    ents = dict_entries(I, d)
    if ents is not None:
        return Finite([(k, v) for k, v in ents])
    # symbolic runs whose keys are pairwise distinct
    parts = []
    seen = []
    ok = True
    for s in d.log:
        if s[0] == 'e':
            for t in seen:
                if not keys_distinct(I, t, s):
                    ok = False
            if parts and isinstance(parts[-1], Finite):
                parts[-1].items.append((s[1], s[2]))
            else:
                parts.append(Finite([(s[1], s[2])]))
        elif s[0] == 's':
            for t in seen:
                if not keys_distinct(I, t, s):
                    ok = False
            if not run_injective(s):
                ok = False
            parts.append(Symbolic(s[1], lambda k, s=s: (subst(s[3], [(s[2], k)]), subst(s[4], [(s[2], k)]))))
        else:
            ok = False
        seen.append(s)
        if not ok:
            break
    if ok:
        return parts[0] if len(parts) == 1 else Chain(parts)
    # opaque: the de-duplicated items of this very assignment log
    sig = repr(skey(d))
    name = LOGS.setdefault(sig, 'D%d' % len(LOGS))
    n = z3.Const('dictlen!' + name, IntS)
    fk = z3.Function('dictsrc!' + name, IntS, IntS)
    raise Unsupported('iteration over a dict with possibly repeated symbolic keys')


def keys_distinct(I, s, t):
    a = s[1] if s[0] == 'e' else s[3]
    b = t[1] if t[0] == 'e' else t[3]
    if isstr(a) and isstr(b) and definitely_ne(a, b):
        return True
    if s[0] == 'e' and t[0] == 'e':
        e = eq_cond(I, a, b)
        return e is False or C.proves(znot(e))
    if isnum(a) and isnum(b):
        k1, k2 = C.fresh('k'), C.fresh('k')
        x = subst(a, [(s[2], k1)]) if s[0] == 's' else a
        y = subst(b, [(t[2], k2)]) if t[0] == 's' else b
        hyp = [z3.And(k >= 0, k < iv(q[1])) for q, k in ((s, k1), (t, k2)) if q[0] == 's']
        return C.proves(z3.Implies(z3.And(*hyp), iv(num(x)) != iv(num(y))))
    if isstr(a) and isstr(b) and isinstance(a, SStr) and isinstance(b, SStr) and len(a.parts) == 1 and \
            len(b.parts) == 1 and isinstance(a.parts[0], PFmt) and isinstance(b.parts[0], PFmt) and \
            a.parts[0].spec == b.parts[0].spec == 'd':
        s2 = (s[0], s[1], s[2], a.parts[0].val) if s[0] == 's' else ('e', a.parts[0].val, None)
        t2 = (t[0], t[1], t[2], b.parts[0].val) if t[0] == 's' else ('e', b.parts[0].val, None)
        return keys_distinct(I, s2, t2)
    return False


def run_injective(s):
    a = s[3]
    if isinstance(a, SStr) and len(a.parts) == 1 and isinstance(a.parts[0], PFmt) and a.parts[0].spec == 'd':
        a = a.parts[0].val
    if is_sint(a):
        k1, k2 = C.fresh('k'), C.fresh('k')
        goal = z3.Implies(z3.And(0 <= k1, k1 < k2, k2 < iv(s[1])),
                          iv(subst(a, [(s[2], k1)])) != iv(subst(a, [(s[2], k2)])))
        return C.proves(goal) or C.prove_goal(goal, (k1, k2))[0]
    return False


def unpack_n(I, v, n):
    if isinstance(v, tuple):
        if len(v) != n:
            py_raise(ValueError, 'unpack')
        return list(v)
    src = iter_source(I, v)
    if isinstance(src, Finite):
        if len(src.items) != n:
            py_raise(ValueError, 'unpack')
        return src.items
    if isinstance(src, Symbolic):
        if not C.branch(int_eq(src.n, n)):
            py_raise(ValueError, 'unpack')
        return [src.get(i) for i in range(n)]
    raise Unsupported('unpacking')


def unpack_seq(I, v, elts):
    stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    if not stars:
        return unpack_n(I, v, len(elts))
    src = iter_source(I, v)
    if not isinstance(src, Finite):
        raise Unsupported('starred unpacking')
    i = stars[0]
    after = len(elts) - i - 1
    items = src.items
    if len(items) < len(elts) - 1:
        py_raise(ValueError, 'unpack')
    return items[:i] + [SList(elems(items[i:len(items) - after]))] + items[len(items) - after:]


# ------------------------------------------------------------------------------------------------ item access
def getitem(I, o, i):
    if isinstance(o, SObj):
        m = I.class_attr(o.cls, '__getitem__')
        if isinstance(m, types.FunctionType):
            return I.call(m, [o, i])
        if o.base is not None:
            return getitem(I, o.base, i)
        py_raise(TypeError, 'not subscriptable')
    if isinstance(o, (SDict,)) or isinstance(o, dict):
        v = dict_find(I, o, i)
        if v is MISSING:
            if isinstance(o, collections.defaultdict):
                raise Unsupported('defaultdict')
            py_raise(KeyError, i)
        return v
    if isinstance(o, enum.EnumMeta):
        if isinstance(i, str):
            try:
                return o[i]
            except KeyError:
                py_raise(KeyError, i)
        if isinstance(i, SStr):
            names = list(o.__members__.items())
            p = i.parts[0] if len(i.parts) == 1 else None
            if isinstance(p, PSel) and all(v in o.__members__ for _, v in p.table) and \
                    all(int(o[v]) == k for k, v in p.table) and C.proves(zor(*[int_eq(p.key, k) for k, _ in p.table])):
                return SEnum(o, p.key)
            conds = [zbool(str_eq_cond(i, n)) for n, _ in names]
            j = C.choose(conds + [z3.Not(z3.Or(*conds))])
            if j == len(names):
                py_raise(KeyError, i)
            return names[j][1]
        py_raise(KeyError, i)
    if isinstance(i, SSlice):
        if isinstance(o, SList):
            return list_slice(I, o, i)
        if isinstance(o, View):
            return getitem(I, SList(as_segs(I, o)), i)
        if isbytes(o):
            if isinstance(o, bytes) and is_native((i.start, i.stop, i.step)):
                return o[slice(i.start, i.stop, i.step)]
            n = blen(o)
            if i.step not in (None, 1):
                raise Unsupported('bytes slice step')
            a, b, _ = slice_bounds(I, i, n)
            return bslice(o, a, b)
        if isinstance(o, str) and is_native((i.start, i.stop, i.step)):
            return o[slice(i.start, i.stop, i.step)]
        if isinstance(o, SStr):
            return str_slice(o, i)
        if isinstance(o, (tuple, list)) and is_native((i.start, i.stop, i.step)):
            r = o[slice(i.start, i.stop, i.step)]
            return wrap_native(r) if isinstance(r, list) else r
        if isinstance(o, (tuple, list)):
            return list_slice(I, SList(elems(list(o))), i)
        raise Unsupported('slice of %r' % type(o))
    if isinstance(i, SEnum):
        i = i.val
    if isinstance(i, enum.Enum) and isinstance(i, int):
        i = int(i)
    if isinstance(o, SList):
        return list_get(I, o, num(i))
    if isinstance(o, (tuple, list)):
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                py_raise(IndexError, 'index out of range')
        if is_sint(i):
            return list_get(I, SList(elems(list(o))), i)
        py_raise(TypeError, 'bad index')
    if isinstance(o, str) and isinstance(i, int):
        try:
            return o[i]
        except IndexError:
            py_raise(IndexError, 'string index out of range')
    if isinstance(o, SStr) and isinstance(i, int):
        return str_index(o, i)
    if isbytes(o):
        n = blen(o)
        if not (is_sint(i) or isinstance(i, int)):
            py_raise(TypeError, 'bad index')
        if isinstance(i, int) and i < 0 or (is_sym(i) and not C.proves(i >= 0) and C.branch(i < 0)):
            i = add(i, n)
        if not C.branch(normb(z3.And(iv(i) >= 0, iv(i) < iv(n)))):
            py_raise(IndexError, 'index out of range')
        return byte_at(o, i)
    if isinstance(o, View):
        return getitem(I, SList(as_segs(I, o)), i)
    if isinstance(o, SRange):
        src = iter_source(I, o)
        if isinstance(src, Finite):
            return getitem(I, src.items, i)
        if C.branch(normb(z3.And(iv(i) >= 0, iv(i) < iv(src.n)))):
            return src.get(i)
        raise Unsupported('range index')
    if is_sym(o) or isinstance(o, SYMTYPES):
        raise Unsupported('subscript of %r' % (o,))
    if o is None or isinstance(o, int):
        py_raise(TypeError, 'not subscriptable')
    ni = nativize(i)
    if ni is MISSING:
        raise Unsupported('native subscript')
    m = getattr(type(o), '__getitem__', None)
    if isinstance(m, types.FunctionType) and interpretable_module(m.__module__):
        return I.call(m, [o, i])
    try:
        return o[ni]
    except Exception as e:
        py_raise(type(e), *e.args)


def str_index(s, i):
    if not C.branch(nonempty(s)):
        py_raise(IndexError, 'string index out of range')
    if i in (0, -1):
        p = s.parts[i]
        if isinstance(p, str):
            return p[i]
        # the end part may be empty; only simplify when it cannot be
        if len(s.parts) > 1:
            ne = nonempty(mkstr([p]))
            if ne is True or C.proves(ne):
                return str_index(mkstr([p]), i)
            if C.branch(ne):
                return str_index(mkstr([p]), i)
            return str_index(mkstr(s.parts[1:] if i == 0 else s.parts[:-1]), i) if len(s.parts) > 1 else s
    return SStr([PApp('index%d' % i, (s,))])


def str_slice(s, sl):
    if sl.step not in (None, 1):
        raise Unsupported('text slice step')
    a, b = sl.start, sl.stop
    if is_native((a, b)):
        p = s.parts
        if b is None and isinstance(a, int) and a >= 0 and isinstance(p[0], str) and len(p[0]) >= a:
            return mkstr((p[0][a:],) + p[1:])
        if a in (None, 0) and isinstance(b, int) and b >= 0 and isinstance(p[0], str) and len(p[0]) >= b:
            return p[0][:b]
        if a in (None, 0) and isinstance(b, int) and b < 0 and isinstance(p[-1], str) and len(p[-1]) >= -b:
            return mkstr(p[:-1] + (p[-1][:b],))
        if b is None and isinstance(a, int) and a < 0 and isinstance(p[-1], str) and len(p[-1]) >= -a:
            return p[-1][a:]
        if b is None and a == -1:
            if not C.branch(nonempty(s)):
                return ''
            return str_index(s, -1)
        if a in (None, 0) and b == 1:
            if not C.branch(nonempty(s)):
                return ''
            return str_index(s, 0)
        return SStr([PApp('slice%s:%s' % (a, b), (s,))])
    if len(s.parts) == 1 and isinstance(s.parts[0], PApp) and s.parts[0].name in ('hex', 'HEX') and isnum(a) and isnum(b):
        # one byte of a hexadecimal dump
        data = s.parts[0].args[0]
        if C.proves(z3.And(iv(a) >= 0, iv(a) % 2 == 0, iv(b) == iv(a) + 2, iv(b) <= 2 * iv(blen(data)))):
            return mkstr([PFmt('02x' if s.parts[0].name == 'hex' else '02X', byte_at(data, norm(iv(a) / 2)))])
    raise Unsupported('text slice %r %r of %r' % (a, b, s))


def setitem(I, o, i, v):
    if isinstance(o, SObj):
        m = I.class_attr(o.cls, '__setitem__')
        if isinstance(m, types.FunctionType):
            I.call(m, [o, i, v])
            return
        if o.base is not None:
            return setitem(I, o.base, i, v)
    if isinstance(o, SDict):
        dict_set(I, o, i, v)
        return
    if isinstance(o, SList):
        if isinstance(i, SSlice):
            if is_native((i.start, i.stop, i.step)) and list_items(o) is not None:
                items = list_items(o)
                new = as_segs(I, v)
                if i.start is None and i.stop is None and i.step is None:
                    o.set_segs(new)
                    return
                if all(s[0] == 'e' and s[2] is True for s in new):
                    items[slice(i.start, i.stop, i.step)] = [s[1] for s in new]
                    o.set_segs(elems(items))
                    return
            elif i.start is None and i.stop is None and i.step is None:
                o.set_segs(as_segs(I, v))
                return
            raise Unsupported('slice assignment')
        list_set(I, o, num(i), v)
        return
    raise Unsupported('item assignment on %r' % type(o))


def delitem(I, o, i):
    if isinstance(o, SObj) and o.base is not None:
        m = I.class_attr(o.cls, '__delitem__')
        if isinstance(m, types.FunctionType):
            return I.call(m, [o, i])
        o = o.base
    if isinstance(o, SDict):
        if dict_delete(I, o, i) is MISSING:
            py_raise(KeyError, i)
        return
    if isinstance(o, SList):
        items = list_items(o)
        if items is not None and isinstance(i, int):
            try:
                del items[i]
            except IndexError:
                py_raise(IndexError, 'del')
            o.set_segs(elems(items))
            return
        if items is not None and isinstance(i, SSlice) and is_native((i.start, i.stop, i.step)):
            del items[slice(i.start, i.stop, i.step)]
            o.set_segs(elems(items))
            return
    raise Unsupported('del item')


# ------------------------------------------------------------------------------------------------ operators
NATIVE_OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
              ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift,
              ast.RShift: operator.rshift, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
              ast.MatMult: operator.matmul}
OPNAMES = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__',
           ast.FloorDiv: '__floordiv__', ast.Mod: '__mod__', ast.BitAnd: '__and__', ast.BitOr: '__or__',
           ast.RShift: '__rshift__', ast.LShift: '__lshift__', ast.BitXor: '__xor__', ast.Pow: '__pow__'}


def binop(I, op, a, b):
    if isinstance(a, Havoc) or isinstance(b, Havoc):
        raise Unsupported('arithmetic on a havocked value')
    if is_native(a) and is_native(b) and not isinstance(a, SYMTYPES):
        m = getattr(type(a), OPNAMES.get(op, '?'), None)
        if isinstance(m, types.FunctionType) and interpretable_module(m.__module__):
            return I.call(m, [a, b])
        try:
            return wrap_native(NATIVE_OPS[op](a, b))
        except Exception as e:
            py_raise(type(e), *e.args)
    if isinstance(a, (Term, float)) or isinstance(b, (Term, float)):
        return term_binop(op, a, b)
    if isnum(a) and isnum(b):
        if is_sbool(a) and is_sbool(b) and op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            return {ast.BitAnd: zand, ast.BitOr: zor, ast.BitXor: lambda x, y: normb(x != y)}[op](a, b)
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and all(is_sbool(x) or isinstance(x, bool) for x in (a, b)):
            x, y = a, b
            return {ast.BitAnd: zand, ast.BitOr: zor,
                    ast.BitXor: lambda x, y: normb(zbool(x) != zbool(y))}[op](x, y)
        x, y = num(a), num(b)
        if op is ast.Add:
            return add(x, y)
        if op is ast.Sub:
            return sub(x, y)
        if op is ast.Mult:
            return mul(x, y)
        if op is ast.FloorDiv or op is ast.Mod:
            if isinstance(y, int) and y > 0:
                if op is ast.FloorDiv and y & (y - 1) == 0 and width_of(x) is not None:
                    return int_shr(x, y.bit_length() - 1)
                if op is ast.Mod and y & (y - 1) == 0 and width_of(x) is not None:
                    return int_and(x, y - 1)
                return norm(iv(x) / y if op is ast.FloorDiv else iv(x) % y)
            if isinstance(y, int) and y < 0 and isinstance(x, int):
                return x // y if op is ast.FloorDiv else x % y
            if is_sym(y):
                if C.branch(normb(y == 0)):
                    py_raise(ZeroDivisionError, 'division by zero')
                if C.proves(y > 0):
                    return norm(iv(x) / y if op is ast.FloorDiv else iv(x) % y)
            raise Unsupported('division by a negative or symbolic divisor')
        if op is ast.BitAnd:
            return int_and(x, y)
        if op is ast.BitOr:
            return int_or(x, y)
        if op is ast.BitXor:
            return int_xor(x, y)
        if op is ast.RShift:
            return int_shr(x, y)
        if op is ast.LShift:
            return int_shl(x, y)
        if op is ast.Div:
            return Term('truediv', (x, y), float)
        if op is ast.Pow and isinstance(y, int) and y in (1, 2):
            return x if y == 1 else mul(x, x)
        raise Unsupported('operator %s' % op.__name__)
    if op is ast.Mod and isstr(a):
        return percent_format(I, a, b)
    if op is ast.Add:
        if isstr(a) and isstr(b):
            return scat(a, b)
        if isbytes(a) and isbytes(b):
            return bcat(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
            return SList(as_segs(I, a) + as_segs(I, b))
    if op is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if isnum(y):
                n = num(y)
                if isinstance(x, (SList, list)) and is_sint(n):
                    items = list_items(x)
                    if items is not None and len(items) == 1:
                        k = C.fresh('k')
                        n2 = n if C.proves(n >= 0) else zite(normb(n > 0), n, 0)
                        return SList([('s', n2, k, items[0])])
                if isinstance(x, (SList, list)) and isinstance(n, int):
                    return SList(as_segs(I, x) * n)
                if isstr(x) and isinstance(n, int):
                    return scat(*[x] * n)
                if isstr(x) and is_sint(n):
                    k = C.fresh('k')
                    return SStr([PRep(zite(normb(n > 0), n, 0), k, x)])
                if isbytes(x) and isinstance(n, int):
                    return mkbytes(bytes_segs(x) * n)
                if isinstance(x, bytes) and is_sint(n) and len(set(x)) == 1:
                    n2 = n if C.proves(n >= 0) else zite(normb(n > 0), n, 0)
                    k = C.fresh('k')
                    return mkbytes([('rep', n2, k, x, mul(n2, len(x)))])
    if isinstance(a, SObj):
        m = I.class_attr(a.cls, OPNAMES.get(op, '?'))
        if isinstance(m, types.FunctionType):
            return I.call(m, [a, b])
        if a.base is not None:
            return binop(I, op, a.base, b)
    if op is ast.BitOr and isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        d = SDict()
        dict_update(I, d, a)
        dict_update(I, d, b)
        return d
    ta, tb = pytype_of(a), pytype_of(b)
    if op is ast.Add and (ta in (int, str, bytes, list, tuple, dict, type(None)) and
                          tb in (int, str, bytes, list, tuple, dict, type(None))) and ta is not tb:
        py_raise(TypeError, 'unsupported operand types')
    raise Unsupported('operator %s on %s and %s' % (op.__name__, ta, tb))


def term_binop(op, a, b):
    if isinstance(a, Term) and a.op == 'dt' and isinstance(b, Term) and b.op == 'td' and op in (ast.Add, ast.Sub):
        return Term('dt', ((add if op is ast.Add else sub)(a.args[0], b.args[0]),) + a.args[1:], a.pytype)
    if isinstance(a, Term) and a.op == 'td' and isinstance(b, Term) and b.op == 'td':
        return Term('td', ((add if op is ast.Add else sub)(a.args[0], b.args[0]),), a.pytype)
    if isinstance(a, Term) and a.op == 'td' and isinstance(b, Term) and b.op == 'dt' and op is ast.Add:
        return term_binop(op, b, a)
    x = a
    y = b
    return Term(op.__name__, (x, y), float)


def inplace(I, op, a, b):
    if isinstance(a, SList) and op is ast.Add:
        a.set_segs(a.segs + as_segs(I, b))
        return a
    if isinstance(a, SObj) and op is ast.Add and hasattr(a.cls, '__iadd__'):
        return I.call(I.getattr(a, '__iadd__'), [b])
    return binop(I, op, a, b)


def unop(I, op, a):
    if op is ast.Not:
        return znot(truth(I, a))
    if is_native(a):
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[op](a)
    if isnum(a):
        x = num(a)
        if op is ast.USub:
            return sub(0, x)
        if op is ast.UAdd:
            return x
        if op is ast.Invert:
            return sub(-1, x)
    raise Unsupported('unary operator')


# ------------------------------------------------------------------------------------------------ formatting
def py_str(I, v):
    if isstr(v):
        return v
    if isinstance(v, SEnum) or is_sint(v) or is_sbool(v):
        return py_format(I, v, '')
    if v is None or isinstance(v, (int, float, bytes, type)) and not isinstance(v, enum.Enum):
        return str(v)
    if isinstance(v, SObj):
        m = I.class_attr(v.cls, '__str__')
        if isinstance(m, types.FunctionType):
            return I.call(m, [v])
        m = I.class_attr(v.cls, '__repr__')
        if isinstance(m, types.FunctionType):
            return I.call(m, [v])
        if issubclass(v.cls, BaseException):
            a = v.f.get('args', ())
            return py_str(I, a[0]) if len(a) == 1 else SStr([PApp('str', (a,))])
    if isinstance(v, enum.Enum):
        return str(v)
    if isinstance(v, Term):
        if v.op == 'ip4':
            return ip4_text(I, v)
        return SStr([PApp('str', (v,))])
    nv = nativize(v)
    if nv is not MISSING:
        return str(nv)
    return SStr([PApp('repr', (v,))])


def py_repr(I, v):
    nv = nativize(v)
    if nv is not MISSING and not isinstance(v, SObj):
        return repr(nv)
    if isinstance(v, SObj):
        m = I.class_attr(v.cls, '__repr__')
        if isinstance(m, types.FunctionType):
            return I.call(m, [v])
    if is_sint(v) or is_sbool(v):
        return py_str(I, v)
    return SStr([PApp('repr', (v,))])


def nonneg(x):
    return (isinstance(x, int) and x >= 0) or (is_sym(x) and (width_of(x) is not None or C.proves(x >= 0)))


def py_format(I, v, spec):
    if isinstance(v, enum.Enum) and isinstance(v, int):
        return format(v, spec)
    if isinstance(v, SEnum):
        v = v.val
    if is_sbool(v):
        if spec == '':
            return site(v, 'True', 'False')
        v = num(v)
    if is_sint(v):
        return fmt_int(v, spec)
    if isinstance(v, bool) or (isinstance(v, (int, float, str)) and not isinstance(v, enum.Enum)):
        try:
            return format(v, spec)
        except ValueError as e:
            py_raise(ValueError, str(e))
    if isstr(v):
        if spec in ('', 's'):
            return v
        return SStr([PApp('format:' + spec, (v,))])
    if spec == '':
        return py_str(I, v)
    if isinstance(v, SObj):
        m = I.class_attr(v.cls, '__format__')
        if isinstance(m, types.FunctionType):
            return I.call(m, [v, spec])
    if isinstance(v, Term):
        if v.op == 'dt':
            return strftime(v, spec)
        return SStr([PApp('format:' + spec, (v,))])
    if v is None or isinstance(v, (SList, SDict, tuple, SObj)):
        py_raise(TypeError, 'unsupported format string')
    return SStr([PApp('format:' + spec, (v,))])


def fmt_int(v, spec):
    if spec in ('', 'd', 'n') or spec == 's':
        if spec == 's':
            py_raise(ValueError, 'format code s')
        return SStr([PFmt('d', v)])
    if spec == '#x' and nonneg(v):
        return mkstr(['0x', PFmt('x', v)])
    if spec == '#X' and nonneg(v):
        return mkstr(['0X', PFmt('X', v)])
    if spec == ',d':
        spec = ','
    if spec.startswith('0>') and spec[2:-1].isdigit() and spec[-1] in 'dxX' and nonneg(v):
        spec = '0' + spec[2:]
    if spec.startswith('0') and spec[1:].isdigit():
        spec = spec + 'd'
    # validate the spec once on a concrete integer
    try:
        format(1, spec)
    except ValueError as e:
        py_raise(ValueError, str(e))
    if spec[0] == '0' and spec[1:-1].isdigit() and spec[-1] in 'xX' or spec[-1] == 'd' and spec[0] == '0' and spec[1:-1].isdigit():
        # a padded field that is certainly wide enough already
        wd = int(spec[1:-1])
        if wd <= 1:
            spec = spec[-1]
    return SStr([PFmt(spec, v)])


def format_method(I, fmt, args, kwargs):
    if isinstance(fmt, SStr):
        # literal parts may contain fields; symbolic parts are known not to contain braces (digits, AM/PM)
        out = []
        ai = [0]
        for p in fmt.parts:
            if isinstance(p, str):
                out.append(_format_lit(I, p, args, kwargs, ai))
            elif isinstance(p, PFmt):
                out.append(mkstr([p]))
            elif no_braces(p):
                out.append(mkstr([p]))
            else:
                raise Unsupported('format of a symbolic template (%s)' % type(p).__name__)
        return scat(*out)
    return _format_lit(I, fmt, args, kwargs, [0])


def no_braces(x):
    if isinstance(x, str):
        return '{' not in x and '}' not in x
    if isinstance(x, SStr):
        return all(no_braces(p) for p in x.parts)
    if isinstance(x, PFmt):
        return is_sint(x.val)
    if isinstance(x, PIte):
        return no_braces(x.a) and no_braces(x.b)
    if isinstance(x, PSel):
        return no_braces(x.default) and all(no_braces(v) for _, v in x.table)
    return False


def _format_lit(I, fmt, args, kwargs, ai):
    out = []
    try:
        parsed = list(string.Formatter().parse(fmt))
    except ValueError as e:
        py_raise(ValueError, str(e))
    for lit, field, spec, conv in parsed:
        if lit:
            out.append(lit)
        if field is None:
            continue
        name = field
        rest = ''
        for i, ch in enumerate(field):
            if ch in '.[':
                name, rest = field[:i], field[i:]
                break
        if name == '':
            idx = ai[0]
            ai[0] += 1
            if idx >= len(args):
                py_raise(IndexError, 'Replacement index out of range')
            v = args[idx]
        elif name.isdigit():
            if int(name) >= len(args):
                py_raise(IndexError, 'Replacement index out of range')
            v = args[int(name)]
        else:
            if name not in kwargs:
                py_raise(KeyError, name)
            v = kwargs[name]
        while rest:
            if rest[0] == '.':
                j = 1
                while j < len(rest) and rest[j] not in '.[':
                    j += 1
                v = I.getattr(v, rest[1:j])
                rest = rest[j:]
            else:
                j = rest.index(']')
                k = rest[1:j]
                v = getitem(I, v, int(k) if k.isdigit() else k)
                rest = rest[j + 1:]
        if conv == 'r':
            v = py_repr(I, v)
        elif conv == 's':
            v = py_str(I, v)
        if spec and '{' in spec:
            spec = _format_lit(I, spec, args, kwargs, ai)
            if not isinstance(spec, str):
                raise Unsupported('symbolic format spec')
        out.append(py_format(I, v, spec or ''))
    return scat(*out) if out else ''


def percent_format(I, fmt, arg):
    import re
    if not isinstance(fmt, str):
        raise Unsupported('symbolic % template')
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out = []
    pos = 0
    ai = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([a-zA-Z%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, ty = m.groups()
        if ty == '%':
            out.append('%')
            continue
        if key is not None:
            v = getitem(I, args[0], key)
        else:
            if ai >= len(args):
                py_raise(TypeError, 'not enough arguments for format string')
            v = args[ai]
            ai += 1
        if ty == 's':
            s = py_str(I, v)
            if flags or width or prec:
                s = SStr([PApp('pct:%s%s' % (flags, width), (s,))]) if not isinstance(s, str) else m.group(0).replace(
                    '(%s)' % key, '') % s
            out.append(s)
        elif ty == 'r':
            out.append(py_repr(I, v))
        elif ty in 'dixX':
            ty = 'd' if ty == 'i' else ty
            if not isnum(v):
                py_raise(TypeError, '%d format: a real number is required')
            spec = ('#' if '#' in flags else '') + ('0' if '0' in flags and width else '') + width + ty
            if prec:
                if width or flags:
                    raise Unsupported('% precision')
                spec = '0' + prec + ty
            if '-' in flags or ' ' in flags or '+' in flags:
                raise Unsupported('% flags')
            if width and '0' not in flags:
                spec = ('#' if '#' in flags else '') + '>' + width + ty if False else spec
            out.append(py_format(I, num(v), spec))
        else:
            raise Unsupported('%%%s formatting' % ty)
    if not isinstance(arg, (SDict, dict)) and ai < len(args):
        py_raise(TypeError, 'not all arguments converted during string formatting')
    out.append(fmt[pos:])
    return scat(*out)


def map_str(fn, s):
    """Apply a concrete text function through tables and conditionals; None when not possible."""
    if isinstance(s, str):
        return fn(s)
    if len(s.parts) == 1:
        p = s.parts[0]
        if isinstance(p, PSel):
            d = map_str(fn, p.default)
            vals = [(k, map_str(fn, v)) for k, v in p.table]
            if d is None:
                # the default may be unreachable
                if C.proves(zor(*[int_eq(p.key, k) for k, _ in p.table])):
                    d = ''
            if d is None or any(v is None for _, v in vals):
                return None
            return SStr([PSel(tuple(vals), p.key, d)])
        if isinstance(p, PIte):
            a, b = map_str(fn, p.a), map_str(fn, p.b)
            if a is None or b is None:
                return None
            return site(p.c, a, b)
    return None


def str_join(I, sep, seq):
    src = iter_source(I, seq)
    if isinstance(src, Finite):
        for x in src.items:
            if not isstr(x):
                py_raise(TypeError, 'sequence item: expected str instance')
        out = []
        for i, x in enumerate(src.items):
            if i:
                out.append(sep)
            out.append(x)
        return scat(*out)
    if isinstance(src, Guarded):
        its = [(g, x) for g, x in src.items if g is not False]
        return SStr([PJoin(sep, its)])
    parts = src.parts if isinstance(src, Chain) else [src]
    out = []
    first = True
    for p in parts:
        if isinstance(p, Finite):
            for x in p.items:
                if not first:
                    out.append(sep)
                out.append(x)
                first = False
        elif isinstance(p, Symbolic):
            k = C.fresh('k')
            body = p.get(k)
            if not isstr(body):
                if pytype_of(body) is not str:
                    py_raise(TypeError, 'sequence item: expected str instance')
            if first:
                if sep == '':
                    out.append(SStr([PRep(p.n, k, body)]))
                elif len(parts) == 1:
                    # x0 + (sep x1)(sep x2)... ; empty when n == 0
                    out.append(SStr([PRep(p.n, k, scat(SStr([PIte(normb(k > 0), sep, '')]), body))]))
                else:
                    raise Unsupported('join starting with a symbolic run')
            else:
                out.append(SStr([PRep(p.n, k, scat(sep, body))]))
            first = False
        else:
            raise Unsupported('join')
    return scat(*out)


# ------------------------------------------------------------------------------------------------ builtin methods
def builtin_method(I, o, name, args, kwargs):
    sup = False
    if name.startswith('super:'):
        name = name[6:]
        sup = True
    if isinstance(o, SObj):
        if name == '__init__':
            if isinstance(o.base, SList):
                if args:
                    o.base.set_segs(as_segs(I, args[0]))
            elif isinstance(o.base, SDict):
                if args:
                    dict_update(I, o.base, args[0])
                for k, v in kwargs.items():
                    dict_set(I, o.base, k, v)
            elif isinstance(o.base, SStream):
                d = args[0] if args else kwargs.get('initial_bytes', b'')
                if not isbytes(d):
                    py_raise(TypeError, 'a bytes-like object is required')
                C.write(o.base.f, 'data', d)
                C.write(o.base.f, 'pos', 0)
            elif issubclass(o.cls, BaseException):
                C.write(o.f, 'args', tuple(args))
            return None
        if name == '__eq__' and o.base is None:
            return o is args[0] or NotImplemented
        if name == '__setattr__':
            C.write(o.f, args[0], args[1])
            return None
        if name == '__getattribute__':
            if args[0] in o.f:
                return o.f[args[0]]
            py_raise(AttributeError, args[0])
        if name == '__delattr__':
            C.delete(o.f, args[0])
            return None
        if name == '__hash__':
            return Term('hash', (id(o),), int)
        if name == '__repr__' or name == '__str__':
            if issubclass(o.cls, BaseException):
                return py_str(I, o)
            raise Unsupported('default repr')
        if name == '__ne__':
            return znot(eq_cond(I, o, args[0]))
        if name == 'with_traceback':
            return o
        if o.base is not None:
            return builtin_method(I, o.base, name, args, kwargs)
        raise Unsupported('builtin method %s of %s' % (name, o.cls.__name__))
    if isstr(o):
        return str_method(I, o, name, args, kwargs)
    if isbytes(o):
        return bytes_method(I, o, name, args, kwargs)
    if isinstance(o, SList):
        return list_method(I, o, name, args, kwargs)
    if isinstance(o, (SDict, dict)):
        return dict_method(I, o, name, args, kwargs)
    if isinstance(o, SStream):
        return stream_method(I, o, name, args, kwargs)
    if isinstance(o, struct.Struct):
        return struct_method(I, o.format, name, args, kwargs)
    if is_sint(o) or isinstance(o, SEnum):
        return int_method(I, o, name, args, kwargs)
    if isinstance(o, Term):
        return term_method(I, o, name, args, kwargs)
    if isinstance(o, View):
        if name == 'tolist':
            return SList(as_segs(I, o))
        return list_method(I, SList(as_segs(I, o)), name, args, kwargs)
    if isinstance(o, (tuple, list)):
        if name == 'index' or name == 'count':
            for i, x in enumerate(o):
                if name == 'index' and C.branch(eq_cond(I, x, args[0])):
                    return i
            if name == 'index':
                py_raise(ValueError, 'not in list')
        if name == 'copy':
            return SList(as_segs(I, o))
    if isinstance(o, SIter) and name == '__next__':
        return py_next(I, o)
    raise Unsupported('method %s of %r' % (name, type(o)))


def tri(c):
    return c


def str_method(I, s, name, args, kwargs):
    if name == 'format':
        return format_method(I, s, args, kwargs)
    if name == 'format_map':
        return format_method(I, s, [], {k[1]: k[2] for k in args[0].log})
    if name == 'join':
        return str_join(I, s, args[0])
    if name == '__len__':
        return py_len(I, s)
    if name == '__eq__':
        return eq_cond(I, s, args[0])
    if name == '__ne__':
        return znot(eq_cond(I, s, args[0]))
    if name == '__contains__':
        return str_contains(s, args[0])
    if name == '__add__':
        return scat(s, args[0])
    if name == '__hash__':
        return Term('hash', (s,), int)
    nargs = [nativize(a) for a in args]
    if isinstance(s, str) and all(a is not MISSING for a in nargs):
        try:
            return wrap_native(getattr(s, name)(*nargs, **kwargs))
        except Exception as e:
            py_raise(type(e), *e.args)
    if name in ('startswith', 'endswith'):
        pre = args[0]
        if len(args) > 1:
            raise Unsupported('startswith with bounds')
        if isinstance(pre, tuple):
            return zor(*[str_method(I, s, name, [p], {}) for p in pre])
        if isinstance(s, SStr) and isinstance(pre, str):
            if pre == '':
                return True
            r = map_pred(lambda x: getattr(x, name)(pre), s)
            if r is not None:
                return r
            p = s.parts[0 if name == 'startswith' else -1]
            if isinstance(p, str):
                if len(p) >= len(pre):
                    return getattr(p, name)(pre)
                if name == 'startswith' and not pre.startswith(p) or name == 'endswith' and not pre.endswith(p):
                    return False
            if len(pre) == 1:
                ne = nonempty(s)
                if C.branch(ne):
                    return str_eq_cond(str_index(s, 0 if name == 'startswith' else -1), pre)
                return False
        f = z3.Function('str' + name, StrS, StrS, BoolS)
        return f(enc_str(s), enc_str(pre))
    if name in ('upper', 'lower', 'title', 'capitalize', 'strip', 'lstrip', 'rstrip', 'replace', 'swapcase') \
            and all(isinstance(a, (str, int)) for a in args):
        r = map_str(lambda x: getattr(x, name)(*args), s)
        if r is not None:
            return r
        if name == 'replace' and len(args) == 2:
            r = rope_replace(s, args[0], args[1])
            if r is not None:
                return r
        if name in ('lstrip',) and len(args) == 1:
            r = rope_lstrip(s, args[0])
            if r is not None:
                return r
        if name in ('upper', 'lower'):
            out = []
            ok = True
            for p in s.parts:
                if isinstance(p, str):
                    out.append(getattr(p, name)())
                elif isinstance(p, PFmt) and is_sint(p.val) and p.spec[-1] in 'dxX,':
                    sp = p.spec
                    if sp[-1] in 'xX':
                        sp = sp[:-1] + ('X' if name == 'upper' else 'x')
                    out.append(PFmt(sp, p.val))
                elif isinstance(p, PApp) and p.name == 'hex':
                    out.append(PApp('HEX' if name == 'upper' else 'hex', p.args))
                else:
                    ok = False
            if ok:
                return mkstr(out)
        return SStr([PApp('%s%r' % (name, tuple(args)), (s,))])
    if name in ('isdigit', 'isdecimal', 'isnumeric', 'isspace', 'isalpha', 'isalnum', 'isupper', 'islower', 'isascii'):
        r = map_pred(lambda x: getattr(x, name)(), s)
        if r is not None:
            return r
        return z3.Function('str' + name, StrS, BoolS)(enc_str(s))
    if name in ('zfill', 'rjust') and len(s.parts) == 1 and isinstance(s.parts[0], PFmt) and isinstance(args[0], int):
        p = s.parts[0]
        if p.spec in ('d', 'x', 'X') and is_sint(p.val) and nonneg(p.val) and (name == 'zfill' or args[1:] == ['0']):
            return fmt_int(p.val, '0%d%s' % (args[0], p.spec))
    if name == 'encode':
        enc = codec(args[0] if args else kwargs.get('encoding', 'utf-8'))
        if enc == 'utf-16':
            return SBytes([('enc', enc, s)])
        out = []
        for x in s.parts:
            b = strictly_decoded(x, enc)
            out.extend([('lit', x.encode(enc))] if isinstance(x, str) else bytes_segs(b) if b is not None else [('enc', enc, SStr([x]))])
        return mkbytes(out)
    if name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines', 'find', 'index', 'count', 'rfind'):
        if name in ('split', 'splitlines') and all(isinstance(a, (str, int)) for a in args) and not kwargs:
            if name == 'split' and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
                r = rope_split(s, args[0])
                if r is not None:
                    return r
            nm = '%s%r' % (name, tuple(args))
            n = z3.Function('strn!' + nm, StrS, IntS)(enc_str(s))
            k = C.fresh('k')
            if 'split' == name:
                C.assume(n >= 1)
            return SList([('s', n, k, SStr([PApp('%s_at' % nm, (s, k))]))])
        raise Unsupported('str.%s on symbolic text' % name)
    raise Unsupported('str.%s' % name)


def rope_split(s, sep):
    groups = [[]]
    for p in s.parts:
        if isinstance(p, str):
            ps = p.split(sep)
            groups[-1].append(ps[0])
            for q in ps[1:]:
                groups.append([q])
        elif isinstance(p, PFmt) and is_sint(p.val):
            cs = fmt_first_chars(p.spec)
            if cs is None or sep in cs:
                return None
            groups[-1].append(p)
        else:
            return None
    return SList(elems([mkstr(g) for g in groups]))


def map_pred(fn, s):
    if isinstance(s, str):
        return fn(s)
    if len(s.parts) == 1:
        p = s.parts[0]
        if isinstance(p, PSel):
            conds = []
            for k, v in p.table:
                r = map_pred(fn, v)
                if r is None:
                    return None
                conds.append(zand(int_eq(p.key, k), r))
            r = map_pred(fn, p.default)
            if r is None:
                return None
            conds.append(zand(r, *[znot(int_eq(p.key, k)) for k, _ in p.table]))
            return zor(*conds)
        if isinstance(p, PIte):
            a, b = map_pred(fn, p.a), map_pred(fn, p.b)
            if a is None or b is None:
                return None
            return zite(p.c, a, b)
    return None


def rope_lstrip(s, chars):
    """lstrip('0') of a text that starts with a zero-padded positive field"""
    p = s.parts[0]
    if isinstance(p, str):
        q = p.lstrip(chars)
        if q:
            return mkstr((q,) + s.parts[1:])
        return None
    if isinstance(p, PFmt) and chars == '0' and p.spec[0] == '0' and p.spec[-1] == 'd' and is_sint(p.val):
        w = int(p.spec[1:-1])
        if C.proves(z3.And(p.val >= 1, p.val < 10 ** w)):
            return mkstr((PFmt('d', p.val),) + s.parts[1:])
    if isinstance(p, PFmt) and chars == '0' and p.spec == 'd' and C.proves(p.val >= 1):
        return s
    return None


def rope_replace(s, old, new):
    """replace through a rope of literals and padded fields, for the pattern  <lit>0 -> <lit>"""
    if len(old) >= 2 and old[-1] == '0' and new == old[:-1] and not set(old[:-1]) & set('0123456789-'):
        pre = old[:-1]
        out = []
        for i, p in enumerate(s.parts):
            if isinstance(p, str):
                q = p.replace(old, new)
                if p.endswith(pre) and i + 1 < len(s.parts) and not isinstance(s.parts[i + 1], PFmt):
                    return None
                if '0' in pre:
                    return None
                out.append(q)
            elif isinstance(p, PFmt) and is_sint(p.val):
                prev = s.parts[i - 1] if i else ''
                if isinstance(prev, str) and prev.endswith(pre):
                    if p.spec == '02d' and C.proves(z3.And(p.val >= 0, p.val <= 99)):
                        out.append(PFmt('d', p.val))
                        continue
                    if p.spec == 'd' and C.proves(p.val >= 1):
                        out.append(p)
                        continue
                    if p.spec[0] == '0' and p.spec[-1] == 'd' and C.proves(p.val >= 10 ** (int(p.spec[1:-1]) - 1)):
                        out.append(p)
                        continue
                    return None
                if not isinstance(prev, str):
                    pass
                out.append(p)
            elif isinstance(p, PIte) and isinstance(p.a, str) and isinstance(p.b, str):
                if old[0] in p.a + p.b or old[-1] in p.a + p.b:
                    return None
                out.append(p)
            else:
                return None
        return mkstr(out)
    # a needle that cannot occur in digits: replace inside the literals only
    if old and not (set(old) & set('0123456789abcdefABCDEFx-, ')) and len(old) == 1:
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(p.replace(old, new))
            elif isinstance(p, PFmt) and is_sint(p.val):
                out.append(p)
            else:
                r = map_str(lambda x: x.replace(old, new), mkstr([p]))
                out.append(r if r is not None else PApp('replace%r' % ((old, new),), (mkstr([p]),)))
        return mkstr(out)
    return None


_codecs = {}


def codec(name):
    import codecs
    if not isinstance(name, str):
        raise Unsupported('symbolic codec')
    if name not in _codecs:
        try:
            _codecs[name] = codecs.lookup(name).name
        except LookupError:
            py_raise(LookupError, 'unknown encoding: %s' % name)
    return _codecs[name]


def bytes_method(I, b, name, args, kwargs):
    if name == 'decode':
        enc = codec(args[0] if args else kwargs.get('encoding', 'utf-8'))
        err = args[1] if len(args) > 1 else kwargs.get('errors', 'strict')
        return bytes_decode(b, enc, err)
    if isinstance(b, (bytes, bytearray)):
        nargs = [nativize(a) for a in args]
        if name == 'join':
            src = iter_source(I, args[0])
            if isinstance(src, Finite):
                out = []
                for i, x in enumerate(src.items):
                    if i and b:
                        out.extend(bytes_segs(b))
                    out.extend(bytes_segs(x))
                return mkbytes(out)
            if isinstance(src, Symbolic) and not b:
                k = C.fresh('k')
                return rep_bytes(src.n, k, src.get(k))
            raise Unsupported('bytes.join')
        if all(a is not MISSING for a in nargs):
            try:
                return wrap_native(getattr(b, name)(*nargs, **kwargs))
            except Exception as e:
                py_raise(type(e), *e.args)
    if name == 'hex' and not args:
        return SStr([PApp('hex', (b,))])
    if name == 'startswith' and isinstance(args[0], bytes) and len(args) == 1:
        n = blen(b)
        k = len(args[0])
        if C.branch(normb(iv(n) >= k)):
            return bytes_eq_cond(bslice(b, 0, k), args[0])
        return False
    if name == '__len__':
        return blen(b)
    if name in ('rstrip', 'strip', 'lstrip', 'find', 'index', 'split', 'partition', 'replace', 'endswith', 'count', 'rfind'):
        h = BYTES_OPS.get(name)
        if h is not None:
            return h(I, b, args, kwargs)
    raise Unsupported('bytes.%s' % name)


BYTES_OPS = {}


def rep_bytes(n, k, body):
    """concatenation of body(k) for k in [0, n): a contiguous slice when consecutive pieces are adjacent"""
    if isinstance(body, SBytes) and len(body.segs) == 1 and body.segs[0][0] == 'sl':
        _, base, off, ln = body.segs[0]
        if isinstance(ln, int):
            d = sub(subst(off, [(k, add(k, 1))]), off)
            if isinstance(d, int) and d == ln:
                return mkbytes([('sl', base, subst(off, [(k, 0)]), mul(n, ln))])
    w = blen(body)
    if isinstance(w, int):
        return mkbytes([('rep', n, k, body, mul(n, w))])
    from .loops import sums
    g = sums(k, w)
    total = g.app(n)
    if is_sym(total):
        # by induction (the lengths are not negative): the sums up to each piece, and none exceeds the total
        m = C.fresh('m')
        lm = zsub(iv(w), [(k, m)])
        C.add_fact(ForallFact(z3.IntVal(0), iv(n), m, z3.And(iv(g.app(m + 1)) == iv(g.fn(m)) + lm, g.fn(m) >= 0, lm >= 0,
                                                           iv(g.app(m + 1)) <= iv(total))))
    return mkbytes([('rep', n, k, body, total)])


def decoded_seg(s, enc):
    """the text of a segment that is a text by itself, else None"""
    if s[0] == 'enc' and s[1] == enc:
        return s[2]
    if s[0] == 'lit':
        try:
            return s[1].decode(enc)
        except UnicodeDecodeError:
            return None
    if s[0] == 'sl' and enc.startswith('utf-16-') and C.proves(valid_text(enc, s)):
        return SStr([PDec(enc, 'strict', SBytes([s]))])
    return None


def bytes_decode(b, enc, err):
    if isinstance(b, (bytes, bytearray)):
        try:
            return b.decode(enc, err)
        except UnicodeDecodeError as e:
            py_raise(UnicodeDecodeError, *e.args)
    if all(s[0] == 'enc' and s[1] == enc for s in b.segs):
        return scat(*[s[2] for s in b.segs])
    if len(b.segs) > 1 and any(s[0] == 'rep' for s in b.segs):
        segs = [s for s in b.segs if not (s[0] == 'rep' and C.proves(iv(s[4]) == 0))]
        if len(segs) < len(b.segs):
            return bytes_decode(mkbytes(segs), enc, err)
    if len(b.segs) > 1 and any(s[0] == 'enc' and s[1] == enc or s[0] == 'sl' for s in b.segs):
        out = [decoded_seg(s, enc) for s in b.segs]
        if None not in out:
            return scat(*out)
    if enc == 'ascii' and err == 'strict' or enc == 'utf-8' and err == 'strict':
        if len(b.segs) == 1 and b.segs[0][0] == 'sl':
            s = b.segs[0]
            ok = s[1].fn('ascii')(iv(s[2]), iv(s[3]))
            if enc == 'utf-8':
                ok = z3.Function('utf8!%s' % s[1].name, IntS, IntS, BoolS)(iv(s[2]), iv(s[3]))
            if not C.branch(ok):
                py_raise(UnicodeDecodeError, enc, b'', 0, 0, '')
            return SStr([PDec(enc, err, b)])
    if enc in ('utf-16-le', 'utf-16-be', 'utf-16') and err == 'strict':
        if len(b.segs) == 1 and b.segs[0][0] == 'sl':
            s = b.segs[0]
            if not C.branch(valid_text(enc, s)):
                py_raise(UnicodeDecodeError, enc, b'', 0, 0, '')
            return SStr([PDec(enc, err, b)])
    if err in ('replace', 'ignore') or enc == 'latin-1' or enc == 'iso8859-1':
        return SStr([PDec(enc, err, b)])
    raise Unsupported('decode %s/%s of %s' % (enc, err, str([s if s[0] != 'rep' else s[:3] + (bytes_segs(s[3]),) + s[4:] for s in bytes_segs(b)])[:300]))


def list_method(I, v, name, args, kwargs):
    if name == 'append':
        list_append(v, args[0])
        return None
    if name == 'extend':
        v.set_segs(v.segs + as_segs(I, args[0]))
        return None
    if name == 'insert':
        items = list_items(v)
        if items is not None and isinstance(args[0], int):
            items.insert(args[0], args[1])
            v.set_segs(elems(items))
            return None
        if args[0] == 0:
            v.set_segs((('e', args[1], True),) + v.segs)
            return None
    if name == 'pop':
        items = list_items(v)
        if items is not None and (not args or isinstance(args[0], int)):
            try:
                x = items.pop(*args)
            except IndexError:
                py_raise(IndexError, 'pop from empty list')
            v.set_segs(elems(items))
            return x
    if name == 'copy':
        return SList(v.segs, v.pytype)
    if name == 'clear':
        v.set_segs(())
        return None
    if name == 'reverse':
        items = list_items(v)
        if items is not None:
            v.set_segs(elems(items[::-1]))
            return None
    if name == 'index':
        items = list_items(v)
        if items is not None:
            for i, x in enumerate(items):
                if C.branch(eq_cond(I, x, args[0])):
                    return i
            py_raise(ValueError, 'not in list')
    if name == 'add' and v.pytype is set:
        if contains(I, v, args[0]) is not True:
            list_append(v, args[0])
        return None
    if name == '__len__':
        return py_len(I, v)
    if name == '__getitem__':
        return getitem(I, v, args[0])
    if name == '__setitem__':
        return setitem(I, v, args[0], args[1])
    if name == '__iter__':
        return SIter(v)
    if name == '__eq__':
        return eq_cond(I, v, args[0])
    if name == '__contains__':
        return contains(I, v, args[0])
    if name == 'sort':
        n = nativize(v)
        if n is not MISSING and not kwargs:
            v.set_segs(elems(sorted(n)))
            return None
    raise Unsupported('list.%s' % name)


def dict_method(I, d, name, args, kwargs):
    if name == 'get':
        dflt = args[1] if len(args) > 1 else kwargs.get('default')
        key = args[0]
        if isinstance(d, dict) and not is_native(key) and isnum(key) and d and \
                all(isinstance(k, int) for k in d) and all(isinstance(v, str) for v in d.values()) and isstr(dflt):
            return sel(d, num(key), dflt)
        v = dict_find(I, d, key)
        return dflt if v is MISSING else v
    if name == 'items':
        return View('items', (d,))
    if name == 'keys':
        return View('keys', (d,))
    if name == 'values':
        return View('values', (d,))
    if name == 'copy' or name == '__copy__':
        if isinstance(d, dict):
            return SDict([('e', k, v) for k, v in d.items()], type(d))
        return SDict(d.log, d.pytype)
    if name == 'update':
        for a in args:
            dict_update(I, d, a)
        for k, v in kwargs.items():
            dict_set(I, d, k, v)
        return None
    if name == 'pop':
        v = dict_delete(I, d, args[0])
        if v is MISSING:
            if len(args) > 1:
                return args[1]
            py_raise(KeyError, args[0])
        return v
    if name == 'setdefault':
        v = dict_find(I, d, args[0])
        if v is MISSING:
            v = args[1] if len(args) > 1 else None
            dict_set(I, d, args[0], v)
        return v
    if name == '__contains__' or name == 'has_key':
        return dict_has(I, d, args[0])
    if name == '__getitem__':
        return getitem(I, d, args[0])
    if name == '__setitem__':
        return setitem(I, d, args[0], args[1])
    if name == '__delitem__':
        return delitem(I, d, args[0])
    if name == '__len__':
        return py_len(I, d)
    if name == '__eq__':
        return eq_cond(I, d, args[0])
    if name == '__iter__':
        return SIter(View('keys', (d,)))
    if name == 'clear':
        C.write(d.f, 'log', ())
        return None
    if name == 'move_to_end':
        v = dict_delete(I, d, args[0])
        if v is MISSING:
            py_raise(KeyError, args[0])
        if kwargs.get('last', args[1] if len(args) > 1 else True) is not True:
            C.write(d.f, 'log', (('e', args[0], v),) + d.log)
        else:
            dict_set(I, d, args[0], v)
        return None
    raise Unsupported('dict.%s' % name)


def stream_method(I, s, name, args, kwargs):
    data, pos = s.f['data'], s.f['pos']
    n = blen(data)
    if name == 'read' or name == 'read1':
        k = args[0] if args else kwargs.get('size', None)
        k = None if k is None else num(k)
        if k is not None and not isinstance(k, int) and not is_sint(k):
            py_raise(TypeError, 'integer argument expected')
        if isinstance(k, int) and k < 0:
            k = None
        if is_sym(k) and not nonneg(k):
            if C.branch(k < 0):
                k = None
        if k is None:
            if C.branch(normb(iv(pos) <= iv(n))):
                C.write(s.f, 'pos', n)
                return bslice(data, pos, n)
            return b''
        end = add(pos, k)
        if isinstance(k, int) and k == 0:
            return b''
        if C.prefer(normb(iv(end) <= iv(n))):
            C.write(s.f, 'pos', end)
            return bslice(data, pos, end)
        if is_sym(k) and C.branch(normb(k == 0)):
            return b''
        if C.branch(normb(iv(pos) < iv(n))):
            C.write(s.f, 'pos', n)
            return bslice(data, pos, n)
        return b''
    if name == 'seek':
        off = num(args[0])
        wh = args[1] if len(args) > 1 else kwargs.get('whence', 0)
        if wh == 0:
            new = off
        elif wh == 1:
            new = add(pos, off)
        elif wh == 2:
            new = add(n, off)
        else:
            py_raise(ValueError, 'whence')
        if not (isinstance(new, int) and new >= 0):
            if not C.prefer(normb(iv(new) >= 0)):
                if wh == 0:
                    py_raise(ValueError, 'negative seek value')
                new = 0
        C.write(s.f, 'pos', new)
        return new
    if name == 'tell':
        return pos
    if name in ('getvalue', 'getbuffer'):
        return data
    if name == 'write':
        b = args[0]
        if not isbytes(b):
            py_raise(TypeError, 'a bytes-like object is required')
        ln = blen(b)
        end = add(pos, ln)
        if int_eq(pos, n) is True or C.proves(iv(pos) == iv(n)):
            C.write(s.f, 'data', bcat(data, b))
        elif C.proves(iv(end) <= iv(n)):
            C.write(s.f, 'data', bcat(bcat(bslice(data, 0, pos), b), bslice(data, end, n)))
        else:
            raise Unsupported('write past the end')
        C.write(s.f, 'pos', end)
        return ln
    if name in ('close', 'flush'):
        return None
    if name in ('seekable', 'readable'):
        return True
    if name == '__enter__':
        return s
    if name == '__exit__':
        return None
    if name == '__len__':
        return n
    raise Unsupported('stream.%s' % name)


def struct_fields(fmt):
    """[(code, size, offset)], total, byteorder"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = 'little'
    f = fmt
    std = False
    if f and f[0] in '<>=!@':
        if f[0] in '>!':
            order = 'big'
        std = f[0] != '@'
        f = f[1:]
    out = []
    off = 0
    i = 0
    f = f.replace(' ', '')
    while i < len(f):
        j = i
        while f[j].isdigit():
            j += 1
        cnt = int(f[i:j]) if j > i else 1
        c = f[j]
        i = j + 1
        if c == 's':
            out.append((c, cnt, off))
            off += cnt
            continue
        if c == 'x':
            off += cnt
            continue
        size = struct.calcsize(('<' if std else '@') + c)
        if c not in 'bBhHiIlLqQ?':
            raise Unsupported('struct code %s' % c)
        for _ in range(cnt):
            if not std:
                off = (off + size - 1) // size * size
            out.append((c, size, off))
            off += size
    assert off == struct.calcsize(fmt)
    return out, off, order


def struct_method(I, fmt, name, args, kwargs):
    fields, total, order = struct_fields(fmt)
    if name in ('unpack', 'unpack_from', 'iter_unpack'):
        data = args[0]
        if isinstance(data, SStream) or not isbytes(data):
            raise Unsupported('struct.unpack of %r' % type(data))
        n = blen(data)
        start = 0
        if name == 'unpack_from':
            start = num(args[1]) if len(args) > 1 else num(kwargs.get('offset', 0))
            if not C.branch(normb(z3.And(iv(start) >= 0, iv(start) + total <= iv(n)))):
                py_raise(struct.error, 'unpack_from requires a buffer')
        elif name == 'iter_unpack':
            raise Unsupported('iter_unpack')
        else:
            if not C.branch(int_eq(n, total)):
                py_raise(struct.error, 'unpack requires a buffer of %d bytes' % total)
            if not isinstance(n, int):
                # the length is now known to be the structure's size
                data = fix_len(data, total)
        out = []
        for c, size, off in fields:
            part = bslice(data, add(start, off), add(start, off + size))
            if c == 's':
                out.append(part)
            elif c == '?':
                out.append(znot(int_eq(int_from(part, order), 0)))
            else:
                out.append(int_from(part, order, signed=c in 'bhilq'))
        return tuple(out)
    if name == 'pack':
        if len(args) != len(fields):
            py_raise(struct.error, 'pack expected %d items' % len(fields))
        segs = []
        pos = 0
        for (c, size, off), v in zip(fields, args):
            if off > pos:
                segs.append(('lit', b'\0' * (off - pos)))
            pos = off + size
            if c == 's':
                raise Unsupported('struct pack s')
            if not isnum(v):
                py_raise(struct.error, 'required argument is not an integer')
            v = num(v)
            if c == '?':
                raise Unsupported('struct pack ?')
            lo, hi = (-(2 ** (8 * size - 1)), 2 ** (8 * size - 1)) if c in 'bhilq' else (0, 2 ** (8 * size))
            if isinstance(v, int):
                if not lo <= v < hi:
                    py_raise(struct.error, 'argument out of range')
                segs.append(('lit', v.to_bytes(size, order, signed=lo < 0)))
            else:
                if not C.branch(normb(z3.And(v >= lo, v < hi))):
                    py_raise(struct.error, 'argument out of range')
                if lo < 0:
                    v = zite(normb(v < 0), add(v, 2 ** (8 * size)), v)
                segs.append(('int', v, size, order))
        if total > pos:
            segs.append(('lit', b'\0' * (total - pos)))
        return mkbytes(segs)
    if name in ('size',):
        return total
    raise Unsupported('struct.%s' % name)


def fix_len(data, n):
    segs = bytes_segs(data)
    if len(segs) == 1 and segs[0][0] == 'sl':
        return mkbytes([('sl', segs[0][1], segs[0][2], n)])
    return data


def int_method(I, v, name, args, kwargs):
    v = num(v)
    if name == 'to_bytes':
        n = args[0] if args else kwargs.get('length', 1)
        order = args[1] if len(args) > 1 else kwargs.get('byteorder', 'big')
        if kwargs.get('signed'):
            raise Unsupported('signed to_bytes')
        if not C.branch(normb(z3.And(v >= 0, v < 2 ** (8 * n)))):
            py_raise(OverflowError, 'int too big to convert')
        return mkbytes([('int', v, n, order)])
    if name == '__index__' or name == '__int__':
        return v
    if name == '__eq__':
        return eq_cond(I, v, args[0])
    if name == '__hash__':
        return v
    if name == '__and__':
        return int_and(v, num(args[0]))
    if name == 'bit_length':
        raise Unsupported('bit_length')
    raise Unsupported('int.%s' % name)


# ------------------------------------------------------------------------------------------------ attributes of engine values
def sym_attr(I, o, name, default=MISSING):
    if isinstance(o, SEnum):
        if name == 'name' or name == '_name_':
            return SStr([PSel(tuple(sorted((int(m), m.name) for m in o.cls)), o.val, '')])
        if name == 'value' or name == '_value_':
            return o.val
        if hasattr(o.cls, name):
            a = I.class_attr(o.cls, name)
            if isinstance(a, property) and interpretable_module(o.cls.__module__):
                return I.call(a.fget, [o])
            if isinstance(a, types.FunctionType) and interpretable_module(o.cls.__module__):
                return SMethod(a, o)
            return BMethod(name, o)
    if isinstance(o, SStream):
        if name in ('read', 'seek', 'tell', 'getvalue', 'write', 'close', 'getbuffer', 'seekable', 'readable', 'flush', 'read1',
                    '__enter__', '__exit__'):
            return BMethod(name, o)
        if name == 'name' or name == 'mode':
            pass
    if isinstance(o, (SStr,)) and hasattr(str, name):
        return BMethod(name, o)
    if isinstance(o, SBytes) and hasattr(bytes, name):
        return BMethod(name, o)
    if isinstance(o, SList) and hasattr(o.pytype, name):
        return BMethod(name, o)
    if isinstance(o, SDict) and (hasattr(o.pytype, name) or hasattr(dict, name)):
        return BMethod(name, o)
    if isinstance(o, View):
        return BMethod(name, o)
    if is_sint(o) and hasattr(int, name) or is_sbool(o) and hasattr(int, name):
        if name == 'real' or name == 'numerator':
            return o
        return BMethod(name, o)
    if isinstance(o, Term):
        return term_attr(I, o, name, default)
    if isinstance(o, SSlice) and name in ('start', 'stop', 'step'):
        return getattr(o, name)
    if isinstance(o, SRange) and name in ('start', 'stop', 'step'):
        return getattr(o, name)
    if isinstance(o, (SFunc, SMethod)) and name == '__name__':
        return getattr(o, '__name__', '<lambda>')
    if isinstance(o, SMethod) and name == '__self__':
        return o.self_
    if isinstance(o, SSlice) and name == 'indices':
        return BMethod('indices', o)
    if isinstance(o, SIter) and name == '__next__':
        return BMethod('__next__', o)
    if default is not MISSING:
        return default
    if isinstance(o, Havoc):
        raise Unsupported('attribute of a havocked value (%s)' % o.why)
    py_raise(AttributeError, name)


def ip4_text(I, o):
    b = o.args[0]
    out = []
    for i in range(4):
        out += ['.'] if i else []
        out.append(py_str(I, int_from(bslice(b, i, i + 1), 'little')))
    return mkstr(out)


def term_attr(I, o, name, default):
    if o.op == 'dt' and name in ('hour', 'minute', 'second', 'microsecond', 'year', 'month', 'day'):
        return dt_field(o, name)
    if o.op == 'dt' and name in ('strftime', 'replace', 'timestamp', 'date', 'time', '__add__'):
        return BMethod(name, o)
    if o.op == 'ip6' and name == 'exploded':
        b = o.args[0]
        out = []
        for i in range(8):
            out += [':'] if i else []
            out.append(py_format(I, int_from(bslice(b, 2 * i, 2 * i + 2), 'big'), '04x'))
        return mkstr(out)
    if o.op == 'ip4' and name in ('exploded', 'compressed'):
        return ip4_text(I, o)
    if o.op.startswith('ip') and name == 'packed':
        return o.args[0]
    if name == 'name' and o.op == 'opaque':
        pass
    if o.op.startswith('ip'):
        return SStr([PApp('%s.%s' % (o.op, name), o.args)])
    if o.op == 'obj':
        # an opaque object: its attributes are opaque values of the declared kinds
        kind = o.args[1].get(name) if len(o.args) > 1 and isinstance(o.args[1], dict) else None
        raise Unsupported('attribute of opaque object')
    raise Unsupported('attribute %s of %s' % (name, o.op))


def dt_field(o, name):
    us = o.args[0]
    if isinstance(us, int):
        return getattr(datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us), name)
    secs = norm(iv(us) / 1000000)
    if name == 'microsecond':
        return norm(iv(us) % 1000000)
    if name == 'second':
        return norm(iv(secs) % 60)
    if name == 'minute':
        return norm((iv(secs) / 60) % 60)
    if name == 'hour':
        return norm((iv(secs) / 3600) % 24)
    day = norm(iv(secs) / 86400)
    return z3.Function('date!%s' % name, IntS, IntS)(iv(day))


def _date_axiom(app, name):
    f = name.split('!')[1]
    lo, hi = {'year': (1601, 9999), 'month': (1, 12), 'day': (1, 31)}[f]
    return [app >= lo, app <= hi]


C_AX['date'] = _date_axiom
C.app_axioms.update(C_AX)


def fmt_part(spec, v):
    return format(v, spec) if isinstance(v, int) else PFmt(spec, v)


def strftime(o, fmt):
    out = []
    i = 0
    local = len(o.args) > 1
    if local:
        raise Unsupported('strftime of a local time')
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        d = fmt[i + 1]
        i += 2
        if d == 'I':
            h = dt_field(o, 'hour')
            out.append(fmt_part('02d', (h + 11) % 12 + 1 if isinstance(h, int) else norm((h + 11) % 12 + 1)))
        elif d == 'H':
            out.append(fmt_part('02d', dt_field(o, 'hour')))
        elif d == 'M':
            out.append(fmt_part('02d', dt_field(o, 'minute')))
        elif d == 'S':
            out.append(fmt_part('02d', dt_field(o, 'second')))
        elif d == 'f':
            out.append(fmt_part('06d', dt_field(o, 'microsecond')))
        elif d == 'p':
            h = dt_field(o, 'hour')
            out.append(('AM' if h < 12 else 'PM') if isinstance(h, int) else PIte(normb(h < 12), 'AM', 'PM'))
        elif d == 'm':
            out.append(fmt_part('02d', dt_field(o, 'month')))
        elif d == 'd':
            out.append(fmt_part('02d', dt_field(o, 'day')))
        elif d == 'Y':
            out.append(fmt_part('d', dt_field(o, 'year')))
        elif d == '%':
            out.append('%')
        else:
            raise Unsupported('strftime %%%s' % d)
    return mkstr(out)


def term_method(I, o, name, args, kwargs):
    if o.op == 'dt' and name == 'strftime':
        return strftime(o, args[0])
    if o.op == 'dt' and name == 'replace' and set(kwargs) == {'microsecond'} and not args:
        us = o.args[0]
        return Term('dt', (add(norm((iv(us) / 1000000) * 1000000), num(kwargs['microsecond'])),) + o.args[1:], o.pytype)
    raise Unsupported('method %s of %s' % (name, o.op))


# ------------------------------------------------------------------------------------------------ calls of classes and builtins
def py_len(I, v):
    if isinstance(v, SObj):
        m = I.class_attr(v.cls, '__len__')
        if isinstance(m, types.FunctionType):
            return I.call(m, [v])
        if v.base is not None:
            return py_len(I, v.base)
        py_raise(TypeError, 'no len()')
    if isinstance(v, SList):
        return list_len(v)
    if isbytes(v):
        return blen(v)
    if isinstance(v, SDict):
        ents = dict_entries(I, v)
        if ents is not None:
            return len(ents)
        if len(v.log) and v.log[0][0] == 'e':
            # at least one entry: enough for truth tests
            n = C.fresh('dictlen')
            C.assume(n >= 1)
            return n
        if len(v.log) == 1:
            n = z3.Const('dictlen!' + str(hash(skey(v))), IntS)
            C.assume(z3.And(n >= 0, n <= iv(v.log[0][1]), (n == 0) == (iv(v.log[0][1]) == 0)))
            return n
        raise Unsupported('len of a symbolic dict')
    if isinstance(v, SStr):
        n = 0
        for p in v.parts:
            if isinstance(p, str):
                n = add(n, len(p))
            elif isinstance(p, PDec) and p.enc == 'ascii':
                n = add(n, blen(p.data))
            elif isinstance(p, PApp) and p.name in ('hex', 'HEX'):
                n = add(n, mul(2, blen(p.args[0])))
            elif isinstance(p, PFmt) and p.spec in ('02x', '02X') and C.proves(z3.And(iv(p.val) >= 0, iv(p.val) < 256)):
                n = add(n, 2)
            else:
                f = z3.Function('strlen', StrS, IntS)(enc_str(mkstr([p])))
                ne = nonempty(mkstr([p]))
                C.assume(z3.And(f >= 0, zbool(ne) == (f > 0)))
                n = add(n, f)
        return n
    if isinstance(v, View):
        if v.op in ('items', 'keys', 'values'):
            return py_len(I, v.args[0])
        return py_len(I, SList(as_segs(I, v)))
    if isinstance(v, SRange):
        src = iter_source(I, v)
        return len(src.items) if isinstance(src, Finite) else src.n
    if is_sym(v) or isinstance(v, SYMTYPES):
        py_raise(TypeError, 'no len()')
    try:
        return len(v)
    except TypeError as e:
        py_raise(TypeError, str(e))


def isinstance_(I, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for x in ts:
        flat.extend(x if isinstance(x, tuple) else (x,))
    pt = pytype_of(v)
    if pt is None:
        raise Unsupported('isinstance of a value of unknown type')
    if isinstance(v, SDict):
        pt = v.pytype
    try:
        return any(issubclass(pt, x) for x in flat)
    except TypeError:
        raise Unsupported('isinstance')


def construct_obj(I, cls, args, kwargs):
    base = None
    if issubclass(cls, list):
        base = SList()
    elif issubclass(cls, dict):
        base = SDict((), dict)
    elif issubclass(cls, io.BytesIO):
        base = SStream(b'', 0)
    elif cls.__module__ == 'construct.core' and cls.__name__ == 'EnumInteger' and cls.__mro__[1] is int:
        return to_int(I, args, kwargs)      # a number with a class of its own and nothing else
    elif issubclass(cls, (str, bytes, int, float, tuple)):
        raise Unsupported('instance of %s' % cls)
    new = I.class_attr(cls, '__new__')
    if isinstance(new, (types.FunctionType, staticmethod)) and not issubclass(cls, (list, dict)):
        raise Unsupported('__new__')
    o = SObj(cls, base)
    if issubclass(cls, BaseException):
        o.f['args'] = tuple(args)
    init = I.class_attr(cls, '__init__')
    if isinstance(init, types.FunctionType):
        I.call(init, [o] + args, kwargs)
    elif base is not None or issubclass(cls, BaseException):
        builtin_method(I, o, '__init__', args, kwargs)
    elif args or kwargs:
        py_raise(TypeError, '%s() takes no arguments' % cls.__name__)
    return o


def class_call(I, cls, args, kwargs):
    if cls is int:
        return to_int(I, args, kwargs)
    if cls is bool:
        return truth(I, args[0]) if args else False
    if cls is str:
        if len(args) > 1 or 'encoding' in kwargs:
            return bytes_method(I, args[0], 'decode', args[1:], kwargs)
        return py_str(I, args[0]) if args else ''
    if cls is list or cls is tuple or cls is set or cls is frozenset:
        if not args:
            return SList((), cls) if cls is not tuple else ()
        a = args[0]
        if isinstance(a, View) and a.op in ('items', 'keys', 'values') and isinstance(a.args[0], (SDict,)) \
                and dict_entries(I, a.args[0]) is None:
            try:
                r = SList(as_segs(I, a), list)
            except Unsupported:
                return View('list', (a,))
        elif isinstance(a, SObj) or isinstance(iter_source_safe(I, a), SeqProtocol):
            src = iter_source(I, a)
            if isinstance(src, SeqProtocol):
                from . import loops
                return loops.list_of_protocol(I, src)
            r = SList(as_segs(I, a), list)
        else:
            r = SList(as_segs(I, a), list)
        if cls is tuple:
            items = list_items(r)
            if items is None:
                return SList(r.segs, tuple)
            return tuple(items)
        if cls in (set, frozenset):
            return SList(r.segs, cls)
        return r
    if cls is dict or cls is collections.OrderedDict:
        d = SDict((), cls)
        if args:
            dict_update(I, d, args[0])
        for k, v in kwargs.items():
            dict_set(I, d, k, v)
        return d
    if cls is bytes or cls is bytearray:
        if not args and cls is bytearray:
            from .api import ByteArray
            return I.call(ByteArray, [])
        if args and isinstance(args[0], SObj) and args[0].cls.__name__ == 'ByteArray':
            return args[0].f['data']
        if not args:
            return b''
        if isbytes(args[0]):
            return args[0]
        if isnum(args[0]) and is_sint(num(args[0])):
            return binop(I, ast.Mult, b'\0', args[0])
        nv = nativize(args[0])
        if nv is not MISSING:
            try:
                return cls(nv) if cls is bytes else bytes(nv)
            except Exception as e:
                py_raise(type(e), *e.args)
        raise Unsupported('bytes()')
    if cls is range:
        a = [num(x) for x in args]
        if len(a) == 1:
            a = [0, a[0], 1]
        elif len(a) == 2:
            a.append(1)
        return SRange(*a)
    if cls is slice:
        a = list(args)
        if len(a) == 1:
            a = [None, a[0], None]
        while len(a) < 3:
            a.append(None)
        return SSlice(*a)
    if cls is enumerate:
        start = num(args[1]) if len(args) > 1 else num(kwargs.get('start', 0))
        return enum_source(iter_source(I, args[0]), start)
    if cls is zip:
        return zip_source(I, [iter_source(I, a) for a in args])
    if cls is map:
        src = [iter_source(I, a) for a in args[1:]]
        s = src[0] if len(src) == 1 else zip_source(I, src)
        if isinstance(s, Finite):
            return SList(elems([I.call(args[0], [x] if len(src) == 1 else list(x)) for x in s.items]))
        from . import loops
        return loops.map_symbolic(I, args[0], s, len(src) > 1)
    if cls is filter:
        s = iter_source(I, args[1])
        if isinstance(s, Finite):
            out = []
            for x in s.items:
                c = truth(I, I.call(args[0], [x]) if args[0] is not None else x)
                out.append(('e', x, c)) if c is not False else None
            return SList(out)
        raise Unsupported('filter')
    if cls is reversed:
        s = iter_source(I, args[0])
        if isinstance(s, Finite):
            return SList(elems(s.items[::-1]))
        if isinstance(s, Symbolic):
            return SList(as_segs(I, Symbolic(s.n, lambda k: s.get(sub(sub(s.n, 1), k)))))
        raise Unsupported('reversed')
    if cls is super:
        return SSuper(args[0], args[1])
    if cls is type:
        if len(args) == 1:
            return pytype_of(args[0])
        raise Unsupported('type()')
    if cls is object:
        return SObj(object)
    if cls is io.BytesIO:
        d = args[0] if args else kwargs.get('initial_bytes', b'')
        if not isbytes(d):
            py_raise(TypeError, 'a bytes-like object is required')
        return SStream(d, 0)
    if cls is struct.Struct:
        return struct.Struct(args[0])
    if cls is memoryview:
        return args[0]
    if cls is float:
        if is_native(args[0]):
            return float(args[0])
        return Term('float', (args[0],), float)
    if cls is functools.partial:
        return SPartial(args[0], args[1:], kwargs)
    if issubclass(cls, enum.Enum):
        return enum_call(I, cls, args, kwargs)
    if cls is datetime.timedelta:
        return td_call(I, args, kwargs)
    if cls is datetime.datetime:
        if all(is_native(a) for a in args) and not kwargs:
            dt = datetime.datetime(*args)
            us = (dt - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1)
            return Term('dt', (us,), datetime.datetime)
        raise Unsupported('datetime()')
    if cls.__module__ == 'ipaddress':
        if cls.__name__ in ('IPv4Address', 'IPv6Address'):
            a = args[0]
            n = 4 if cls.__name__ == 'IPv4Address' else 16
            if isbytes(a):
                if not C.branch(int_eq(blen(a), n)):
                    raise Unsupported('ip address of the wrong length')
                if isinstance(a, bytes):
                    a = a
                return Term('ip4' if n == 4 else 'ip6', (a,), cls)
            if isinstance(a, str) or isnum(a):
                raise Unsupported('ip address from %r' % (a,))
        raise Unsupported('ipaddress')
    if hasattr(cls, '_fields') and issubclass(cls, tuple):
        return namedtuple_call(I, cls, args, kwargs)
    if interpretable_module(cls.__module__) or (issubclass(cls, BaseException)):
        return construct_obj(I, cls, args, kwargs)
    h = CLASS_MODELS.get(cls)
    if h is not None:
        return h(I, args, kwargs)
    nargs = [nativize(a) for a in args]
    nkw = {k: nativize(v) for k, v in kwargs.items()}
    if all(a is not MISSING for a in nargs) and all(v is not MISSING for v in nkw.values()):
        try:
            return wrap_native(cls(*nargs, **nkw))
        except Exception as e:
            py_raise(type(e), *e.args)
    raise Unsupported('class %s.%s' % (cls.__module__, cls.__name__))


CLASS_MODELS = {}


def iter_source_safe(I, a):
    return None


def namedtuple_call(I, cls, args, kwargs):
    vals = dict(zip(cls._fields, args))
    for k, v in kwargs.items():
        if k not in cls._fields or k in vals:
            py_raise(TypeError, 'bad argument')
        vals[k] = v
    for k, v in getattr(cls, '_field_defaults', {}).items():
        vals.setdefault(k, v)
    if len(vals) != len(cls._fields) or len(args) > len(cls._fields):
        py_raise(TypeError, 'missing argument')
    return tuple.__new__(cls, [vals[f] for f in cls._fields])


def enum_call(I, cls, args, kwargs):
    v = args[0]
    if isinstance(v, SEnum):
        if v.cls is cls:
            return v
        v = v.val
    if is_native(v):
        try:
            return cls(v)
        except (ValueError, KeyError) as e:
            py_raise(type(e), *e.args)
    if is_sbool(v):
        v = num(v)
    if is_sint(v):
        vals = sorted(set(int(m) for m in cls))
        ok = zor(*[int_eq(v, k) for k in vals])
        if C.branch(ok):
            # a single possible value is made concrete
            if len(vals) == 1:
                return cls(vals[0])
            return SEnum(cls, v)
        py_raise(ValueError, 'not a valid %s' % cls.__name__)
    if isinstance(v, Havoc):
        raise Unsupported('enum of havoc')
    py_raise(ValueError, 'not a valid %s' % cls.__name__)


def to_int(I, args, kwargs):
    if not args:
        return 0
    v = args[0]
    base = args[1] if len(args) > 1 else kwargs.get('base', MISSING)
    if isnum(v) and base is MISSING:
        return num(v)
    if isinstance(v, (str, float, bytes)):
        try:
            return int(v) if base is MISSING else int(v, base)
        except (ValueError, OverflowError) as e:
            py_raise(type(e), *e.args)
    if isinstance(v, SStr):
        b = 10 if base is MISSING else base
        if len(v.parts) == 1:
            p = v.parts[0]
            if isinstance(p, PFmt) and is_sint(p.val) and ((p.spec[-1] == 'd' and b == 10) or
                                                           (p.spec[-1] in 'xX' and b == 16)):
                return p.val        # int() inverts the formatting (leading zeros and sign included)
        ok = z3.Function('strint_ok!%d' % b, StrS, BoolS)(enc_str(v))
        if not C.branch(ok):
            py_raise(ValueError, 'invalid literal for int()')
        return z3.Function('strint!%d' % b, StrS, IntS)(enc_str(v))
    if isinstance(v, Term):
        return Term('int', (v,), int)
    if v is None:
        py_raise(TypeError, 'int() argument')
    raise Unsupported('int() of %r' % type(v))


def td_call(I, args, kwargs):
    units = {'days': 86400 * 10 ** 6, 'seconds': 10 ** 6, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60 * 10 ** 6,
             'hours': 3600 * 10 ** 6, 'weeks': 7 * 86400 * 10 ** 6}
    pos = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    vals = dict(zip(pos, args))
    vals.update(kwargs)
    total = 0
    for k, v in vals.items():
        if not isnum(v):
            raise Unsupported('timedelta of a non-integer')
        total = add(total, mul(num(v), units[k]))
    return Term('td', (total,), datetime.timedelta)


def enum_source(src, start):
    if isinstance(src, Finite):
        return Finite([(add(start, i), x) for i, x in enumerate(src.items)])
    if isinstance(src, Symbolic):
        return Symbolic(src.n, lambda k: (add(start, k), src.get(k)))
    if isinstance(src, Chain):
        out = []
        pos = start
        for p in src.parts:
            out.append(enum_source(p, pos))
            pos = add(pos, len(p.items) if isinstance(p, Finite) else p.n)
        return Chain(out)
    raise Unsupported('enumerate')


def zip_source(I, srcs):
    if all(isinstance(s, Finite) for s in srcs):
        return Finite(list(zip(*[s.items for s in srcs])))
    if all(isinstance(s, Symbolic) for s in srcs):
        n = srcs[0].n
        for s in srcs[1:]:
            if not C.proves(iv(n) == iv(s.n)):
                n = zite(normb(iv(n) <= iv(s.n)), n, s.n)
        return Symbolic(n, lambda k: tuple(s.get(k) for s in srcs))
    raise Unsupported('zip')


def py_next(I, it, *default):
    if isinstance(it, SObj):
        m = I.class_attr(it.cls, '__next__')
        return I.call(m, [it])
    if isinstance(it, SIter):
        src = iter_source_peek(I, it)
        if isinstance(src, Finite):
            pos = it.f['pos']
            if pos < len(src.items):
                C.write(it.f, 'pos', pos + 1)
                return src.items[pos]
            if default:
                return default[0]
            py_raise(StopIteration)
        if isinstance(src, Symbolic):
            pos = it.f['pos']
            if C.branch(normb(iv(pos) < iv(src.n))):
                C.write(it.f, 'pos', add(pos, 1))
                return src.get(pos)
            if default:
                return default[0]
            py_raise(StopIteration)
    if isinstance(it, SList):
        # generator expressions are evaluated eagerly; next() takes the first element
        return py_next(I, SIter(it), *default)
    raise Unsupported('next()')


def iter_source_peek(I, it):
    return iter_source(I, it.src)


def builtin_call(I, f, args, kwargs):
    if f is len:
        return py_len(I, args[0])
    if f is isinstance:
        return isinstance_(I, args[0], args[1])
    if f is issubclass:
        return issubclass(args[0], args[1])
    if f is min or f is max:
        xs = args
        if len(args) == 1:
            src = iter_source(I, args[0])
            if not isinstance(src, Finite):
                raise Unsupported('min/max of a symbolic sequence')
            xs = src.items
        if kwargs:
            raise Unsupported('min/max key')
        if all(isnum(x) for x in xs):
            r = num(xs[0])
            for x in xs[1:]:
                y = num(x)
                c = normb(iv(y) < iv(r)) if f is min else normb(iv(y) > iv(r))
                r = zite(c, y, r)
            return r
        raise Unsupported('min/max')
    if f is sum:
        src = iter_source(I, args[0])
        t = args[1] if len(args) > 1 else kwargs.get('start', 0)
        if isinstance(src, Guarded):
            for g, x in src.items:
                t = binop(I, ast.Add, t, zite(g, num(x), 0))
            return t
        if isinstance(src, Finite):
            for x in src.items:
                t = binop(I, ast.Add, t, x)
            return t
        raise Unsupported('sum of a symbolic sequence')
    if f is any or f is all:
        src = iter_source(I, args[0])
        parts = src.parts if isinstance(src, Chain) else [src]
        res = f is all
        for p in parts:
            if isinstance(p, Finite):
                cs = [truth(I, x) for x in p.items]
                c = zor(*cs) if f is any else zand(*cs)
            elif isinstance(p, Guarded):
                cs = [(g, truth(I, x)) for g, x in p.items]
                c = zor(*[zand(g, x) for g, x in cs]) if f is any else zand(*[zor(znot(g), x) for g, x in cs])
            else:
                c = quantified(I, p, f is all)
            res = zor(res, c) if f is any else zand(res, c)
        return res
    if f is abs:
        v = num(args[0])
        return zite(normb(iv(v) >= 0), v, sub(0, v)) if is_sym(v) else abs(v)
    if f is repr:
        return py_repr(I, args[0])
    if f is format:
        return py_format(I, args[0], args[1] if len(args) > 1 else '')
    if f is hash:
        return py_hash(I, args[0])
    if f is getattr:
        if not isinstance(args[1], str):
            raise Unsupported('getattr with a symbolic name')
        if len(args) > 2:
            try:
                return I.getattr(args[0], args[1], args[2])
            except Raised as e:
                if issubclass(e.exc.cls, AttributeError):
                    return args[2]
                raise
        return I.getattr(args[0], args[1])
    if f is setattr:
        return I.setattr(args[0], args[1], args[2])
    if f is hasattr:
        r = object()
        try:
            return I.getattr(args[0], args[1], r) is not r
        except Raised as e:
            if issubclass(e.exc.cls, AttributeError):
                return False
            raise
    if f is iter:
        if len(args) > 1:
            raise Unsupported('iter(callable, sentinel)')
        v = args[0]
        if isinstance(v, SObj) and isinstance(I.class_attr(v.cls, '__iter__'), types.FunctionType):
            return I.call(I.class_attr(v.cls, '__iter__'), [v])
        return SIter(v)
    if f is next:
        return py_next(I, *args)
    if f is callable:
        return isinstance(args[0], (SFunc, SMethod, BMethod, SPartial)) or callable(args[0])
    if f is print:
        return None
    if f is sorted:
        nv = nativize(SList(as_segs(I, args[0])))
        if nv is not MISSING and not [k for k in kwargs if k != 'reverse']:
            return SList(elems(sorted(nv, **kwargs)))
        raise Unsupported('sorted')
    if f is divmod:
        return (binop(I, ast.FloorDiv, args[0], args[1]), binop(I, ast.Mod, args[0], args[1]))
    if f is hex:
        return scat('0x', py_format(I, args[0], 'x')) if not is_native(args[0]) and nonneg(num(args[0])) else (
            hex(args[0]) if is_native(args[0]) else _unsup('hex'))
    if f is chr or f is ord or f is bin or f is oct or f is round or f is pow:
        if all(is_native(a) for a in args):
            try:
                return f(*args)
            except Exception as e:
                py_raise(type(e), *e.args)
        if f is round:
            return Term('round', tuple(args), float)
        raise Unsupported('%s of a symbolic value' % f.__name__)
    if f is struct.unpack:
        return struct_method(I, args[0], 'unpack', args[1:], kwargs)
    if f is struct.unpack_from:
        return struct_method(I, args[0], 'unpack_from', args[1:], kwargs)
    if f is struct.pack:
        return struct_method(I, args[0], 'pack', args[1:], kwargs)
    if f is struct.calcsize:
        return struct.calcsize(args[0])
    if f is binascii.b2a_hex or f is binascii.hexlify:
        if len(args) == 1:
            if isinstance(args[0], bytes):
                return binascii.b2a_hex(args[0])
            return SHexBytes(args[0])
    if f is open:
        raise Unsupported('open()')
    if f is id:
        return id(args[0])
    if f is vars:
        return I.getattr(args[0], '__dict__')
    if f is operator.eq:
        return eq_cond(I, args[0], args[1])
    if f is operator.ne:
        return znot(eq_cond(I, args[0], args[1]))
    if f in OPFUNCS:
        return binop(I, OPFUNCS[f], args[0], args[1])
    if isinstance(f, (operator.itemgetter, operator.attrgetter)):
        raise Unsupported('itemgetter')
    if isinstance(f, types.BuiltinMethodType) or isinstance(f, types.MethodWrapperType) or isinstance(
            f, types.BuiltinFunctionType):
        s = f.__self__
        name = f.__name__
        if s is datetime.datetime or s is datetime.date:
            if name in ('utcfromtimestamp', 'fromtimestamp'):
                v = args[0]
                if isnum(v):
                    if name == 'fromtimestamp' and len(args) == 1 and not kwargs:
                        return Term('dt', (mul(num(v), 10 ** 6), 'local'), datetime.datetime)
                    if name == 'utcfromtimestamp':
                        return Term('dt', (mul(num(v), 10 ** 6),), datetime.datetime)
                raise Unsupported('%s' % name)
        if s is int and name == 'from_bytes':
            order = args[1] if len(args) > 1 else kwargs.get('byteorder', 'big')
            return int_from(args[0], order, kwargs.get('signed', False))
        if isinstance(s, type) and name == 'fromkeys' and issubclass(s, dict):
            d = SDict((), s)
            src = iter_source(I, args[0])
            if not isinstance(src, Finite):
                raise Unsupported('fromkeys')
            for k in src.items:
                dict_set(I, d, k, args[1] if len(args) > 1 else None)
            return d
        if s is str and name == 'maketrans':
            return str.maketrans(*args)
        if s is bytes and name == 'fromhex':
            return bytes.fromhex(args[0])
        if isinstance(s, (str, bytes, bytearray, dict, struct.Struct, tuple, list)):
            if isinstance(s, dict) and name in ('update', 'setdefault', 'pop', '__setitem__', 'clear', 'popitem'):
                raise Unsupported('mutation of a module-level dict')
            if isinstance(s, list) and name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
                raise Unsupported('mutation of a module-level list')
            return builtin_method(I, s, name, args, kwargs)
        if isinstance(s, int) and not isinstance(s, bool) or isinstance(s, bool):
            if all(is_native(a) for a in args):
                return wrap_native(f(*args, **kwargs))
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        # str.join, dict.get, list.append, object.__init__ ... called on the class
        name = f.__name__
        if f.__objclass__ is object and name == '__init__':
            return None
        if f.__objclass__ is object and name == '__setattr__' and isinstance(args[0], SObj):
            C.write(args[0].f, args[1], args[2])
            return None
        return builtin_method(I, args[0], name, args[1:], kwargs)
    if isinstance(f, types.ClassMethodDescriptorType):
        raise Unsupported('class method descriptor')
    h = BUILTIN_MODELS.get(f) if _hashable(f) else None
    if h is not None:
        return h(I, args, kwargs)
    nargs = [nativize(a) for a in args]
    nkw = {k: nativize(v) for k, v in kwargs.items()}
    if all(a is not MISSING for a in nargs) and all(v is not MISSING for v in nkw.values()) and not _mutable_call(f):
        try:
            return wrap_native(f(*nargs, **nkw))
        except Exception as e:
            py_raise(type(e), *e.args)
    raise Unsupported('call of %r' % (f,))


BUILTIN_MODELS = {}
OPFUNCS = {operator.add: ast.Add, operator.sub: ast.Sub, operator.mul: ast.Mult, operator.and_: ast.BitAnd,
           operator.or_: ast.BitOr, operator.xor: ast.BitXor, operator.mod: ast.Mod, operator.floordiv: ast.FloorDiv}


def _unsup(s):
    raise Unsupported(s)


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def _mutable_call(f):
    return False


def SHexBytes(b):
    return SBytes([('enc', 'ascii', SStr([PApp('hex', (b,))]))])


def quantified(I, src, is_all):
    """all(p(k) for k < n): evaluated without forking; the universal form is recorded as a quantified fact when assumed."""
    k = C.fresh('q')
    c = truth(I, src.get(k))
    if isinstance(c, bool):
        if is_all:
            return True if c else normb(iv(src.n) == 0)
        return normb(iv(src.n) > 0) if c else False
    nm = C.fresh('forall' if is_all else 'exists', BoolS)
    QUANT[nm.get_id()] = (nm, src.n, k, c, is_all)
    # decide now, by forking on its truth
    t = C.choose([z3.BoolVal(True), z3.BoolVal(True)]) == 0
    body = c if is_all else z3.Not(c)
    if t == is_all:
        C.add_fact(ForallFact(z3.IntVal(0), iv(src.n), k, body))
        return is_all
    j = C.fresh('w')
    C.add_index(j)
    C.assume(z3.And(j >= 0, j < iv(src.n), z3.Not(zsub(body, [(k, j)]))))
    return not is_all


QUANT = {}


def py_hash(I, v):
    if isinstance(v, SObj):
        m = I.class_attr(v.cls, '__hash__')
        if isinstance(m, types.FunctionType):
            return I.call(m, [v])
        if m is None:
            py_raise(TypeError, 'unhashable type')
    if isinstance(v, (SList, SDict)):
        py_raise(TypeError, 'unhashable type')
    terms = []
    tag = hash_terms(I, v, terms)
    if tag is None:
        return Term('hash', (v,), int)
    return z3.Function('hash!%s' % tag, *([t.sort() for t in terms] + [IntS]))(*terms) if terms else \
        z3.Int('hash!%s' % tag)


def hash_terms(I, v, out):
    """the hash is a function of these terms (equal values have equal terms); the name of the function, or None"""
    if isinstance(v, enum.Enum):
        v = v.value
    if v is None:
        return 'n'
    if isinstance(v, bool) or is_sbool(v):
        out.append(z3.If(v, 1, 0) if is_sym(v) else z3.IntVal(int(v)))
        return 'i'
    if isinstance(v, int) or is_sint(v):
        out.append(iv(v))
        return 'i'
    if isinstance(v, SEnum) and isinstance(v.cls, enum.EnumMeta) and issubclass(v.cls, int):
        out.append(iv(v.val))
        return 'i'
    if isinstance(v, (str, SStr)):
        out.append(enc_str(v))
        return 's'
    if isinstance(v, tuple):
        tags = [hash_terms(I, x, out) for x in v]
        return None if None in tags else 't%s.' % ''.join(tags)
    if isinstance(v, SObj):
        h = py_hash(I, v)
        if is_sint(h):
            out.append(h)
            return 'i'
    return None


def foreign_call(I, f, args, kwargs):
    """A Python function outside the code under test: only on concrete data, or through a model."""
    h = BUILTIN_MODELS.get(f)
    if h is not None:
        return h(I, args, kwargs)
    nargs = [nativize(a) for a in args]
    nkw = {k: nativize(v) for k, v in kwargs.items()}
    if all(a is not MISSING for a in nargs) and all(v is not MISSING for v in nkw.values()):
        try:
            return wrap_native(f(*nargs, **nkw))
        except Exception as e:
            py_raise(type(e), *e.args)
    raise Unsupported('library function %s on symbolic data' % qualname(f))
