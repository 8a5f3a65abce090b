"""Symbolic interpreter for the live Python functions of the code under test (their AST is re-read on every run)."""
import ast
import builtins
import enum
import functools
import inspect
import types

import z3

from .fastz3 import apps_of
from .core import C, D, MISSING, Unsupported, PathEnd, Raised, MergeAbort, NoFork, is_sym, is_sint, is_sbool
from .values import *
from . import values as V

INTERPRETED_MODULES = ('procmon_parser', 'specs', 'dv.api')
MAX_DEPTH = 120


def interpretable_module(name):
    return name is not None and any(name == m or name.startswith(m + '.') for m in INTERPRETED_MODULES)


# ------------------------------------------------------------------------------------------------ locating source
_files = {}
_fn_ast = {}


def file_index(path):
    if path not in _files:
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([node.lineno] + [d.lineno for d in node.decorator_list])
                idx.setdefault(('def', line, node.name), []).append(node)
            elif isinstance(node, ast.Lambda):
                idx.setdefault(('lambda', node.lineno), []).append(node)
        _files[path] = idx
    return _files[path]


def fn_ast(func):
    code = func.__code__
    if code in _fn_ast:
        return _fn_ast[code]
    try:
        idx = file_index(code.co_filename)
    except (OSError, SyntaxError):
        raise Unsupported('no source for %s' % func.__qualname__)
    if code.co_name == '<lambda>':
        cands = idx.get(('lambda', code.co_firstlineno), [])
        if len(cands) > 1:
            good = []
            for n in cands:
                e = ast.Expression(n)
                ast.fix_missing_locations(e)
                c = compile(e, code.co_filename, 'eval')
                for k in c.co_consts:
                    if isinstance(k, types.CodeType) and k.co_name == '<lambda>' and \
                            k.co_consts == code.co_consts and k.co_names == code.co_names and \
                            k.co_varnames == code.co_varnames and \
                            len(k.co_code) == len(code.co_code):
                        good.append(n)
            # identical lambdas on a line are interchangeable
            cands = good[:1] if good else cands
        if len(cands) != 1:
            raise Unsupported('ambiguous lambda at %s:%d' % (code.co_filename, code.co_firstlineno))
        node = cands[0]
    else:
        cands = idx.get(('def', code.co_firstlineno, code.co_name), [])
        if len(cands) != 1:
            raise Unsupported('no source for %s' % func.__qualname__)
        node = cands[0]
    _fn_ast[code] = node
    return node


# ------------------------------------------------------------------------------------------------ callables
class SFunc(object):
    """A function or lambda created by interpreted code."""

    def __init__(self, node, env, interp_globals, defaults, kwdefaults, cls_name, name):
        self.node, self.env, self.globals = node, env, interp_globals
        self.defaults, self.kwdefaults, self.cls_name, self.__name__ = defaults, kwdefaults, cls_name, name


class SMethod(object):
    """A bound method: interpreted function (live or SFunc) or builtin method name on an engine value."""

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class BMethod(object):
    def __init__(self, name, self_):
        self.name, self.self_ = name, self_


class SSuper(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SPartial(object):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class SIter(object):
    """An iterator over a value: f['pos'] and the remaining source."""

    def __init__(self, src):
        self.f = C.newD()
        self.f['pos'] = 0
        self.src = src


class SRange(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class SSlice(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Env(object):
    __slots__ = ('vars', 'parent', 'globals', 'live', 'cls_name', 'func', 'is_comp', 'nonlocals', 'globals_decl',
                 'yields')

    def __init__(self, parent=None, globals_=None, live=None, cls_name=None, func=None, is_comp=False):
        self.vars = C.newD()
        self.vars.owner = self
        self.parent, self.globals, self.live, self.cls_name, self.func = parent, globals_, live, cls_name, func
        self.is_comp = is_comp
        self.nonlocals = set()
        self.globals_decl = set()
        self.yields = None

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if e.live is not None and name in e.live:
                try:
                    return e.live[name].cell_contents
                except ValueError:
                    raise Unsupported('empty closure cell %s' % name)
            if e.parent is None:
                break
            e = e.parent
        g = self.globals
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        py_raise(NameError, "name %r is not defined" % name)

    def store(self, name, val):
        if name in self.globals_decl:
            raise Unsupported('assignment to a global')
        e = self
        if name in self.nonlocals:
            e = self.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported('nonlocal %s' % name)
        C.write(e.vars, name, val)


def py_raise(cls, *args):
    e = SObj(cls)
    e.f['args'] = tuple(args)
    raise Raised(e)


BRK, CONT = ('brk',), ('cont',)

# contracts: live function -> spec function executed in its place (only contracts discharged in this run)
CONTRACTS = {}
# symbolic handlers for particular callables: object -> fn(args, kwargs)
HANDLERS = {}
CALL_LOG = {}        # qualified name -> times interpreted (functions under verification)
DEPTH = [0]


def qualname(f):
    return '%s.%s' % (getattr(f, '__module__', '?'), getattr(f, '__qualname__', getattr(f, '__name__', '?')))


# ------------------------------------------------------------------------------------------------ concreteness
SYMTYPES = (SBytes, SStr, Part, SEnum, Term, SObj, SList, SDict, SStream, View, SFunc, SMethod, BMethod, SIter, SRange,
            SSlice, Havoc, SPartial)


def is_native(v, depth=0):
    """v contains no engine value (so a native call sees ordinary Python data)."""
    if v is None or isinstance(v, (bool, int, str, bytes, float, complex, type)):
        return True
    if is_sym(v) or isinstance(v, SYMTYPES):
        return False
    if isinstance(v, (tuple, list)):
        return depth < 6 and all(is_native(x, depth + 1) for x in v)
    if isinstance(v, slice):
        return all(is_native(x) for x in (v.start, v.stop, v.step))
    return True


def nativize(v):
    """Convert engine containers holding only concrete data to Python containers; MISSING when not possible."""
    if isinstance(v, SList):
        out = []
        for s in v.segs:
            if s[0] != 'e' or s[2] is not True:
                return MISSING
            x = nativize(s[1])
            if x is MISSING:
                return MISSING
            out.append(x)
        return v.pytype(out) if v.pytype in (list, tuple, set, frozenset) else out
    if isinstance(v, SDict):
        out = v.pytype()
        for s in v.log:
            if s[0] != 'e':
                return MISSING
            k, x = nativize(s[1]), nativize(s[2])
            if k is MISSING or x is MISSING:
                return MISSING
            out[k] = x
        return out
    if isinstance(v, SSlice):
        return slice(v.start, v.stop, v.step) if is_native((v.start, v.stop, v.step)) else MISSING
    if isinstance(v, SRange):
        return range(v.start, v.stop, v.step) if is_native((v.start, v.stop, v.step)) else MISSING
    if isinstance(v, tuple):
        xs = [nativize(x) for x in v]
        if any(x is MISSING for x in xs):
            return MISSING
        return tuple(xs) if type(v) is tuple else v
    if is_sym(v) or isinstance(v, SYMTYPES):
        return MISSING
    return v


def wrap_native(v):
    """Bring a native result into the engine (fresh mutable containers become engine containers)."""
    if type(v) is list:
        return SList(elems([wrap_native(x) for x in v]))
    if type(v) is dict or type(v).__name__ == 'OrderedDict':
        return SDict([('e', k, wrap_native(x)) for k, x in v.items()], type(v))
    if type(v) is tuple:
        return tuple(wrap_native(x) for x in v)
    return v


def pytype_of(v):
    if v is None:
        return type(None)
    if is_sbool(v):
        return bool
    if is_sint(v):
        return int
    if isinstance(v, SStr) or isinstance(v, Part):
        return str
    if isinstance(v, SBytes):
        return bytes
    if isinstance(v, SEnum):
        return v.cls
    if isinstance(v, SObj):
        return v.cls
    if isinstance(v, SList):
        return v.pytype
    if isinstance(v, SDict):
        return v.pytype
    if isinstance(v, SStream):
        import io
        return io.BytesIO
    if isinstance(v, Term):
        return v.pytype
    if isinstance(v, View):
        return list
    if isinstance(v, (SFunc,)):
        return types.FunctionType
    if isinstance(v, (SMethod, BMethod)):
        return types.MethodType
    if isinstance(v, SRange):
        return range
    if isinstance(v, SSlice):
        return slice
    if isinstance(v, Havoc):
        raise Unsupported('use of a havocked value (%s)' % v.why)
    return type(v)


# ------------------------------------------------------------------------------------------------ evaluation
class Interp(object):
    def __init__(self):
        self.node_stack = []

    # -- function calls -------------------------------------------------------------------------
    def call(self, f, args=(), kwargs=None):
        from . import models
        kwargs = kwargs or {}
        args = list(args)
        try:
            h = HANDLERS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(args, kwargs)
        if isinstance(f, SMethod):
            return self.call(f.func, [f.self_] + args, kwargs)
        if isinstance(f, SFunc):
            return self.run(f.node, f.env, f.globals, None, f.defaults, f.kwdefaults, f.cls_name, args, kwargs, f)
        if isinstance(f, BMethod):
            return models.builtin_method(self, f.self_, f.name, args, kwargs)
        if isinstance(f, SPartial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + args, kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, types.FunctionType):
            spec = CONTRACTS.get(f)
            if spec is not None:
                return self.call_contract(f, spec, args, kwargs)
            if interpretable_module(f.__module__) or interpretable_module(f.__globals__.get('__name__')):
                return self.call_live(f, args, kwargs)
            return models.foreign_call(self, f, args, kwargs)
        if isinstance(f, type):
            return models.class_call(self, f, args, kwargs)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + args, kw)
        if isinstance(f, SObj):
            m = self.class_attr(f.cls, '__call__')
            if m is not MISSING:
                return self.call(m, [f] + args, kwargs)
            py_raise(TypeError, 'not callable')
        return models.builtin_call(self, f, args, kwargs)

    def call_contract(self, f, spec, args, kwargs):
        try:
            return self.call(spec, args, kwargs)
        except Unspecified:
            raise

    def call_live(self, f, args, kwargs):
        node = fn_ast(f)
        q = qualname(f)
        CALL_LOG[q] = CALL_LOG.get(q, 0) + 1
        live = None
        if f.__closure__:
            live = dict(zip(f.__code__.co_freevars, f.__closure__))
        cls_name = None
        parts = f.__qualname__.split('.')
        if len(parts) >= 2 and parts[-2] != '<locals>':
            cls_name = parts[-2]
        def go():
            return self.run(node, None, f.__globals__, live, f.__defaults__ or (), f.__kwdefaults__ or {}, cls_name,
                            args, kwargs, f)
        if scalar_call(f, node, args, kwargs):
            r = self.summarise(f, go)
            if r is not MISSING:
                return r
        return go()

    def summarise(self, f, go):
        """Run a function of scalars on all its paths and join the results (MISSING when that is not possible)."""
        out = []
        m0 = C.mark()
        born = C.clock

        def on_path(res, fr):
            if res[0] != 'ok' or fr.facts or not scalar(res[1]) or C.written_since(m0, born):
                raise MergeAbort()
            out.append((list(fr.conds), res[1]))
            if len(out) > 1 and not joinable(out[0][1], res[1]):
                raise MergeAbort()
        try:
            C.explore(go, on_path, SUMMARY_PATHS)
            if not out:
                return MISSING
            v = out[-1][1]
            conds = [zand(*c) if c else True for c, _ in out]
            for c, (_, x) in reversed(list(zip(conds[:-1], out[:-1]))):
                v = merge_val(c, x, v) if is_sym(c) else x
        except (MergeAbort, NoFork, Unsupported, Unspecified) as e:
            SUMMARY_BAD[f] = SUMMARY_BAD.get(f, 0) + 1
            return MISSING
        if len(out) > 1 or is_sym(conds[0]):
            whole = zor(*conds)
            if is_sym(whole) and not C.proves(whole):
                if C.merge_depth or C.nofork:
                    return MISSING
                C.assume(whole)
        return v

    def run(self, node, parent, globals_, live, defaults, kwdefaults, cls_name, args, kwargs, func):
        env = Env(parent, globals_, live, cls_name, func)
        self.bind(env, node.args, args, dict(kwargs), defaults, kwdefaults, func)
        DEPTH[0] += 1
        if DEPTH[0] > MAX_DEPTH:
            DEPTH[0] -= 1
            raise Unsupported('recursion depth')
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if is_generator(node):
                env.yields = SList(())
                self.exec_block(node.body, env)
                return env.yields
            r = self.exec_block(node.body, env)
            if r is not None and r[0] == 'ret':
                return r[1]
            return None
        finally:
            DEPTH[0] -= 1

    def bind(self, env, a, args, kwargs, defaults, kwdefaults, func):
        name = getattr(func, '__name__', '?')
        pos = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(pos) and a.vararg is None:
            py_raise(TypeError, '%s() takes %d positional arguments but %d were given' % (name, len(pos), len(args)))
        for n, v in zip(pos, args):
            env.vars[n] = v
        if a.vararg is not None:
            env.vars[a.vararg.arg] = tuple(args[len(pos):])
        for n in list(kwargs):
            if n in pos[len(a.posonlyargs):] or n in [x.arg for x in a.kwonlyargs]:
                if n in env.vars:
                    py_raise(TypeError, '%s() got multiple values for argument %r' % (name, n))
                env.vars[n] = kwargs.pop(n)
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = SDict([('e', k, v) for k, v in kwargs.items()])
        elif kwargs:
            py_raise(TypeError, '%s() got an unexpected keyword argument' % name)
        off = len(pos) - len(defaults)
        for i, n in enumerate(pos):
            if n not in env.vars:
                if i >= off:
                    env.vars[n] = defaults[i - off]
                else:
                    py_raise(TypeError, '%s() missing argument %r' % (name, n))
        for x in a.kwonlyargs:
            if x.arg not in env.vars:
                if x.arg in kwdefaults:
                    env.vars[x.arg] = kwdefaults[x.arg]
                else:
                    py_raise(TypeError, '%s() missing argument %r' % (name, x.arg))

    # -- statements -----------------------------------------------------------------------------
    def exec_block(self, body, env):
        for i, st in enumerate(body):
            if isinstance(st, ast.If) and len(st.body) == 1 and isinstance(st.body[0], ast.Continue) \
                    and not st.orelse and i + 1 < len(body):
                # if c: continue; rest   ==   if not c: rest   (lets independent iterations be merged)
                new = ast.If(ast.copy_location(ast.UnaryOp(ast.Not(), st.test), st.test), list(body[i + 1:]), [])
                ast.copy_location(new, st)
                ast.fix_missing_locations(new)
                key = ('contdesugar', id(st))
                new = _desugar.setdefault(key, (new, st))[0]
                return self.exec(new, env)
            r = self.exec(st, env)
            if r is not None:
                return r
        return None

    def exec(self, st, env):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        return m(st, env)

    def st_Expr(self, st, env):
        self.eval(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Return(self, st, env):
        return ('ret', self.eval(st.value, env) if st.value is not None else None)

    def st_Break(self, st, env):
        return BRK

    def st_Continue(self, st, env):
        return CONT

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def st_AugAssign(self, st, env):
        from . import models
        t = st.target
        if isinstance(t, ast.Name):
            cur = env.lookup(t.id)
            new = models.inplace(self, type(st.op), cur, self.eval(st.value, env))
            if new is not cur or not isinstance(cur, (SObj, SList)):
                env.store(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, self.mangle(t.attr, env))
            self.setattr(o, self.mangle(t.attr, env), models.inplace(self, type(st.op), cur, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval_index(t.slice, env)
            cur = models.getitem(self, o, i)
            models.setitem(self, o, i, models.inplace(self, type(st.op), cur, self.eval(st.value, env)))
        else:
            raise Unsupported('augmented assignment target')

    def st_If(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if not isinstance(c, bool):
            if mergeable(st) and (C.merge_depth or True):
                done = self.try_merge(c, st, env)
                if done:
                    return None
            c = C.branch(c)
        return self.exec_block(st.body if c else st.orelse, env)

    def try_merge(self, c, st, env):
        if not is_bit_cond(c):
            if C.proves(c):
                self.exec_block(st.body, env)
                return True
            if C.proves(znot(c)):
                self.exec_block(st.orelse, env)
                return True
        m = C.mark()
        born = C.clock
        C.merge_depth += 1
        try:
            self.exec_block(st.body, env)
            w1 = {(id(d), k): (d, k, d.get(k, MISSING)) for d, k in C.written_since(m, born)}
            C.undo(m)
            self.exec_block(st.orelse, env)
            w2 = {(id(d), k): (d, k, d.get(k, MISSING)) for d, k in C.written_since(m, born)}
            C.undo(m)
            merged = []
            for key in list(w1) + [k for k in w2 if k not in w1]:
                d, k = (w1.get(key) or w2.get(key))[:2]
                cur = d.get(k, MISSING)
                a = w1[key][2] if key in w1 else cur
                b = w2[key][2] if key in w2 else cur
                if a is MISSING or b is MISSING:
                    raise MergeAbort()
                merged.append((d, k, merge_val(c, a, b)))
        except (MergeAbort, NoFork, Raised, Unsupported):
            C.undo(m)
            return False
        finally:
            C.merge_depth -= 1
        for d, k, v in merged:
            C.write(d, k, v)
        return True

    def st_For(self, st, env):
        from . import models, loops
        it = self.eval(st.iter, env)
        src = models.iter_source(self, it)
        if isinstance(src, models.Finite):
            for x in src.items:
                self.assign(st.target, x, env)
                r = self.exec_block(st.body, env)
                if r is BRK:
                    return None
                if r is not None and r is not CONT:
                    return r
            if st.orelse:
                return self.exec_block(st.orelse, env)
            return None
        return loops.for_loop(self, st, src, env)

    def st_While(self, st, env):
        from . import loops
        # a loop that is decided by concrete data is executed; every other loop goes through the loop rule
        m = C.mark()
        C.nofork += 1
        try:
            for n in range(4000):
                c = self.truth(self.eval(st.test, env)) if not is_const_true(st.test) else True
                if not isinstance(c, bool):
                    c = C.branch(c)
                if not c:
                    return self.exec_block(st.orelse, env) if st.orelse else None
                r = self.exec_block(st.body, env)
                if r is BRK:
                    return None
                if r is not None and r is not CONT:
                    return r
                if n > 40 and is_const_true(st.test):
                    break
        except (NoFork, MergeAbort):
            if C.merge_depth:
                raise
        finally:
            C.nofork -= 1
        C.undo(m)
        return loops.while_loop(self, st, env)

    def st_FunctionDef(self, st, env):
        if st.decorator_list:
            raise Unsupported('decorated local function')
        env.store(st.name, self.make_func(st, env, st.name))

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {x.arg: self.eval(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return SFunc(node, env, env.globals, defaults, kwd, env.cls_name, name)

    def st_Raise(self, st, env):
        if st.exc is None:
            e = env_exc(env)
            if e is None:
                raise Unsupported('bare raise')
            raise Raised(e)
        e = self.eval(st.exc, env)
        if isinstance(e, type):
            e = self.call(e, [])
        if isinstance(e, BaseException):
            o = SObj(type(e))
            o.f['args'] = tuple(e.args)
            e = o
        if not isinstance(e, SObj):
            raise Unsupported('raise of %r' % (e,))
        raise Raised(e)

    def st_Try(self, st, env):
        r = None
        try:
            try:
                r = self.exec_block(st.body, env)
                if r is None and st.orelse:
                    r = self.exec_block(st.orelse, env)
            except Raised as ex:
                e = ex.exc
                for h in st.handlers:
                    if h.type is not None:
                        t = self.eval(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        if not any(issubclass(e.cls, k) for k in ts):
                            continue
                    if h.name:
                        env.store(h.name, e)
                    old = env.vars.get('%exc', MISSING)
                    env.vars['%exc'] = e
                    try:
                        r = self.exec_block(h.body, env)
                    finally:
                        if old is MISSING:
                            env.vars.pop('%exc', None)
                        else:
                            env.vars['%exc'] = old
                    break
                else:
                    raise
        except Raised:
            if st.finalbody:
                r2 = self.exec_block(st.finalbody, env)
                if r2 is not None:
                    return r2
            raise
        if st.finalbody:
            r2 = self.exec_block(st.finalbody, env)
            if r2 is not None:
                return r2
        return r

    def st_With(self, st, env):
        mgrs = []
        for item in st.items:
            m = self.eval(item.context_expr, env)
            if isinstance(m, SStream):
                v = m
            else:
                v = self.call(self.getattr(m, '__enter__'), [])
            mgrs.append(m)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        r = self.exec_block(st.body, env)
        for m in reversed(mgrs):
            if not isinstance(m, SStream):
                self.call(self.getattr(m, '__exit__'), [None, None, None])
        return r

    def st_Assert(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if not C.branch(c):
            py_raise(AssertionError, *([self.eval(st.msg, env)] if st.msg else []))

    def st_Delete(self, st, env):
        from . import models
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                models.delitem(self, self.eval(t.value, env), self.eval_index(t.slice, env))
            elif isinstance(t, ast.Name):
                C.delete(env.vars, t.id)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, SObj) and t.attr in o.f:
                    C.delete(o.f, t.attr)
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del target')

    def st_Global(self, st, env):
        env.globals_decl.update(st.names)

    def st_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def st_Import(self, st, env):
        for a in st.names:
            mod = __import__(a.name)
            env.store(a.asname or a.name.split('.')[0], mod if not a.asname else __import__('importlib').import_module(a.name))

    def st_ImportFrom(self, st, env):
        import importlib
        mod = importlib.import_module(st.module) if not st.level else importlib.import_module(
            '.' * st.level + (st.module or ''), env.globals['__package__'])
        for a in st.names:
            env.store(a.asname or a.name, getattr(mod, a.name))

    # -- assignment -----------------------------------------------------------------------------
    def assign(self, t, v, env):
        from . import models
        if isinstance(t, ast.Name):
            env.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = models.unpack_seq(self, v, t.elts)
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            models.setitem(self, self.eval(t.value, env), self.eval_index(t.slice, env), v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    @staticmethod
    def mangle(attr, env):
        if attr.startswith('__') and not attr.endswith('__') and env.cls_name:
            e = env
            return '_%s%s' % (env.cls_name.lstrip('_'), attr)
        return attr

    # -- attributes -----------------------------------------------------------------------------
    @staticmethod
    def class_attr(cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return MISSING

    def getattr(self, o, name, default=MISSING):
        from . import models
        if isinstance(o, SObj):
            ca = self.class_attr(o.cls, name)
            if isinstance(ca, property):
                return self.call(ca.fget, [o])
            if name in o.f:
                return o.f[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return SDict([('e', k, v) for k, v in o.f.items()])
            if ca is not MISSING:
                if isinstance(ca, types.FunctionType):
                    return SMethod(ca, o)
                if isinstance(ca, staticmethod):
                    return ca.__func__
                if isinstance(ca, classmethod):
                    return SMethod(ca.__func__, o.cls)
                if isinstance(ca, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                    return BMethod(name, o)
                if isinstance(ca, (types.GetSetDescriptorType, types.MemberDescriptorType)):
                    if name == 'args':
                        return o.f.get('args', ())
                    raise Unsupported('attribute %s' % name)
                if isinstance(ca, functools.partialmethod) or hasattr(type(ca), '__get__') and not isinstance(
                        ca, (int, str, tuple, list, dict, type)) and not is_sym(ca):
                    raise Unsupported('descriptor %s' % name)
                return ca
            if o.base is not None and hasattr(pytype_of(o.base), name):
                return BMethod(name, o)
            ga = self.class_attr(o.cls, '__getattr__')
            if ga is not MISSING and isinstance(ga, types.FunctionType):
                if default is not MISSING:
                    try:
                        return self.call(ga, [o, name])
                    except Raised as e:
                        if issubclass(e.exc.cls, AttributeError):
                            return default
                        raise
                return self.call(ga, [o, name])
            if default is not MISSING:
                return default
            py_raise(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.__name__, name))
        if isinstance(o, SSuper):
            mro = list((o.obj.cls if isinstance(o.obj, SObj) else type(o.obj)).__mro__)
            for k in mro[mro.index(o.cls) + 1:]:
                if name in k.__dict__:
                    ca = k.__dict__[name]
                    if isinstance(ca, types.FunctionType):
                        return SMethod(ca, o.obj)
                    if isinstance(ca, property):
                        return self.call(ca.fget, [o.obj])
                    if isinstance(ca, staticmethod):
                        return ca.__func__
                    if isinstance(ca, classmethod):
                        return SMethod(ca.__func__, o.obj)
                    return BMethod('super:' + name, o.obj)
            py_raise(AttributeError, name)
        if is_sym(o) or isinstance(o, SYMTYPES):
            return models.sym_attr(self, o, name, default)
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            try:
                return getattr(o, name)
            except AttributeError:
                if default is not MISSING:
                    return default
                py_raise(AttributeError, "no attribute '%s'" % name)
        # native object: property/method of an interpreted class are interpreted when called
        cls = type(o)
        if interpretable_module(getattr(cls, '__module__', None)) and not isinstance(o, enum.Enum):
            ca = self.class_attr(cls, name)
            if isinstance(ca, property):
                return self.call(ca.fget, [o])
        try:
            return getattr(o, name)
        except AttributeError as e:
            if default is not MISSING:
                return default
            py_raise(AttributeError, str(e))

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            ca = self.class_attr(o.cls, name)
            if isinstance(ca, property):
                if ca.fset is None:
                    py_raise(AttributeError, "can't set attribute")
                self.call(ca.fset, [o, v])
                return
            sa = self.class_attr(o.cls, '__setattr__')
            if isinstance(sa, types.FunctionType):
                self.call(sa, [o, name, v])
                return
            C.write(o.f, name, v)
            return
        raise Unsupported('attribute assignment on %r' % (type(o),))

    # -- expressions ----------------------------------------------------------------------------
    def truth(self, v):
        from . import models
        return models.truth(self, v)

    def eval(self, e, env):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def eval_index(self, e, env):
        return self.eval(e, env)

    def ex_Constant(self, e, env):
        return e.value

    def ex_Name(self, e, env):
        return env.lookup(e.id)

    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), self.mangle(e.attr, env))

    def ex_Subscript(self, e, env):
        from . import models
        return models.getitem(self, self.eval(e.value, env), self.eval_index(e.slice, env))

    def ex_Slice(self, e, env):
        f = lambda x: self.eval(x, env) if x is not None else None
        return SSlice(f(e.lower), f(e.upper), f(e.step))

    def ex_Tuple(self, e, env):
        return tuple(self.eval_elts(e.elts, env))

    def eval_elts(self, elts, env):
        from . import models
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                src = models.iter_source(self, self.eval(x.value, env))
                if not isinstance(src, models.Finite):
                    raise Unsupported('starred symbolic sequence')
                out.extend(src.items)
            else:
                out.append(self.eval(x, env))
        return out

    def ex_List(self, e, env):
        return SList(elems(self.eval_elts(e.elts, env)))

    def ex_Set(self, e, env):
        return SList(elems(self.eval_elts(e.elts, env)), set)

    def ex_Dict(self, e, env):
        from . import models
        d = SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                models.dict_update(self, d, self.eval(v, env))
            else:
                models.setitem(self, d, self.eval(k, env), self.eval(v, env))
        return d

    def ex_JoinedStr(self, e, env):
        return scat(*[self.eval(v, env) for v in e.values])

    def ex_FormattedValue(self, e, env):
        from . import models
        v = self.eval(e.value, env)
        if e.conversion == 114:
            v = models.py_repr(self, v)
        elif e.conversion == 115:
            v = models.py_str(self, v)
        elif e.conversion != -1:
            raise Unsupported('f-string conversion')
        spec = self.eval(e.format_spec, env) if e.format_spec is not None else ''
        if not isinstance(spec, str):
            raise Unsupported('symbolic format spec')
        return models.py_format(self, v, spec)

    def ex_BinOp(self, e, env):
        from . import models
        return models.binop(self, type(e.op), self.eval(e.left, env), self.eval(e.right, env))

    def ex_UnaryOp(self, e, env):
        from . import models
        return models.unop(self, type(e.op), self.eval(e.operand, env))

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        vals = e.values
        v = None
        for i, x in enumerate(vals):
            v = self.eval(x, env)
            if i == len(vals) - 1:
                return v
            c = self.truth(v)
            if not isinstance(c, bool):
                # combine pure boolean conditions instead of forking
                if is_sbool(v) and all(pure_expr(y) for y in vals[i + 1:]):
                    m = C.mark()
                    try:
                        C.merge_depth += 1
                        try:
                            rest = [self.eval(y, env) for y in vals[i + 1:]]
                        finally:
                            C.merge_depth -= 1
                        if all(is_sbool(y) or isinstance(y, bool) for y in rest):
                            return zand(v, *rest) if isand else zor(v, *rest)
                    except (MergeAbort, NoFork, Raised, Unsupported):
                        pass
                    C.undo(m)
                c = C.branch(c)
            if isand and not c:
                return v if not (is_sbool(v)) else False
            if not isand and c:
                return v if not (is_sbool(v)) else True
        return v

    def ex_Compare(self, e, env):
        from . import models
        left = self.eval(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = models.compare(self, type(op), left, right)
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            res = zand(res, c)
            if res is False:
                return False
            left = right
        return res

    def ex_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if not isinstance(c, bool):
            if pure_expr(e.body) and pure_expr(e.orelse) and not C.proves(c) and not C.proves(znot(c)):
                m = C.mark()
                try:
                    C.merge_depth += 1
                    try:
                        a, b = self.eval(e.body, env), self.eval(e.orelse, env)
                    finally:
                        C.merge_depth -= 1
                    return merge_val(c, a, b)
                except (MergeAbort, NoFork, Raised, Unsupported):
                    C.undo(m)
            c = C.branch(c)
        return self.eval(e.body if c else e.orelse, env)

    def ex_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def ex_Call(self, e, env):
        f = self.eval(e.func, env)
        if f is super and not e.args:
            en = env
            while en.is_comp:
                en = en.parent
            cls = en.live['__class__'].cell_contents if en.live and '__class__' in en.live else None
            if cls is None:
                raise Unsupported('super()')
            first = list(en.vars.values())[0]
            return SSuper(cls, first)
        args = self.eval_elts(e.args, env)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, SDict):
                    for s in v.log:
                        if s[0] != 'e' or not isinstance(s[1], str):
                            raise Unsupported('** of a symbolic dict')
                        kwargs[s[1]] = s[2]
                elif isinstance(v, dict):
                    kwargs.update(v)
                else:
                    raise Unsupported('** argument')
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        en = env
        while en.is_comp:
            en = en.parent
        self.assign(e.target, v, en)
        return v

    def ex_Yield(self, e, env):
        en = env
        if en.yields is None:
            raise Unsupported('yield')
        from . import models
        models.list_append(en.yields, self.eval(e.value, env) if e.value is not None else None)
        return None

    # comprehensions
    def comp(self, gens, env, emit):
        """emit(env) is called for every combination; returns an SList of what it returns."""
        from . import models, loops
        cenv = Env(env, env.globals, None, env.cls_name, env.func, True)
        out = SList(())
        return loops.comprehension(self, gens, cenv, emit, out, env)

    def ex_ListComp(self, e, env):
        return self.comp(e.generators, env, lambda en: self.eval(e.elt, en))

    def ex_GeneratorExp(self, e, env):
        return self.comp(e.generators, env, lambda en: self.eval(e.elt, en))

    def ex_SetComp(self, e, env):
        r = self.comp(e.generators, env, lambda en: self.eval(e.elt, en))
        return SList(r.segs, set)

    def ex_DictComp(self, e, env):
        from . import models
        r = self.comp(e.generators, env, lambda en: (self.eval(e.key, en), self.eval(e.value, en)))
        return models.dict_from_pairs(self, r, dict)

    def ex_Starred(self, e, env):
        raise Unsupported('starred expression')


def is_bit_cond(c):
    """a condition over bits of numbers only (rarely decided by the path)"""
    return all(nm.startswith('bit!') or nm[:2] in ('le', 'by', 'be') for _, _, nm in apps_of(c))


SUMMARY_PATHS = 16
SUMMARY_BAD = {}
_branchy = {}


def scalar(v):
    return v is None or isinstance(v, (bool, int, str, SStr, SEnum)) or is_sint(v) or is_sbool(v)


def joinable(a, b):
    for t in ((bool,), (int,), (str, SStr)):
        ok = [isinstance(x, t) and not (t == (int,) and isinstance(x, bool)) or
              (t == (int,) and is_sint(x)) or (t == (bool,) and is_sbool(x)) for x in (a, b)]
        if all(ok):
            return True
    return a is None and b is None


def scalar_call(f, node, args, kwargs):
    if C.optimistic or SUMMARY_BAD.get(f, 0) > 1:
        return False
    b = _branchy.get(f)
    if b is None:
        b = not isinstance(node, ast.Lambda) and not is_generator(node) and any(
            isinstance(x, (ast.If, ast.Try, ast.IfExp)) for x in ast.walk(node))
        _branchy[f] = b
    if not b:
        return False
    vals = list(args) + list(kwargs.values())
    return any(is_sym(x) or isinstance(x, (SStr, SEnum)) for x in vals) and all(
        scalar(x) or isinstance(x, type) or (is_native(x) and isinstance(x, (tuple, list, dict))) for x in vals)


_desugar = {}
_gen_cache = {}


def is_generator(node):
    if id(node) not in _gen_cache:
        found = False
        st = list(ast.iter_child_nodes(node))
        while st:
            x = st.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(x))
        _gen_cache[id(node)] = (found, node)
    return _gen_cache[id(node)][0]


def env_exc(env):
    e = env
    while e is not None:
        if '%exc' in e.vars:
            return e.vars['%exc']
        e = e.parent
    return None


def is_const_true(t):
    return isinstance(t, ast.Constant) and bool(t.value)


_merge_cache = {}


def mergeable(st):
    key = id(st)
    if key in _merge_cache:
        return _merge_cache[key][0]

    def ok(s):
        if isinstance(s, ast.Pass):
            return True
        if isinstance(s, ast.Expr):
            c = s.value
            if isinstance(c, ast.Constant):
                return True
            return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' \
                and isinstance(c.func.value, ast.Name) and len(c.args) == 1 and pure_expr(c.args[0])
        if isinstance(s, ast.AugAssign):
            return isinstance(s.target, ast.Name) and pure_expr(s.value)
        if isinstance(s, ast.Assign):
            return all(isinstance(t, ast.Name) for t in s.targets) and pure_expr(s.value)
        if isinstance(s, ast.If):
            return pure_expr(s.test) and all(ok(x) for x in s.body + s.orelse)
        return False
    r = all(ok(x) for x in st.body + st.orelse)
    _merge_cache[key] = (r, st)
    return r


_pure_cache = {}


def pure_expr(e):
    key = id(e)
    if key in _pure_cache:
        return _pure_cache[key][0]
    r = True
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ('len', 'int', 'str', 'bool', 'min', 'max', 'isinstance', 'format'):
                continue
            if isinstance(f, ast.Attribute) and f.attr in ('format',):
                continue
            r = False
            break
        if isinstance(n, (ast.Yield, ast.NamedExpr, ast.Await, ast.ListComp, ast.GeneratorExp, ast.DictComp,
                          ast.SetComp, ast.Lambda)):
            r = False
            break
    _pure_cache[key] = (r, e)
    return r


def merge_val(c, a, b):
    """The value that is a when c holds and b otherwise; MergeAbort when there is no such symbolic value."""
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if (isinstance(a, bool) or is_sbool(a)) and (isinstance(b, bool) or is_sbool(b)):
        return zite(c, a, b)
    if (type(a) is int or is_sint(a)) and (type(b) is int or is_sint(b)):
        if type(a) is int and type(b) is int and a == b:
            return a
        try:
            x, y = bits_of(a), bits_of(b)
        except Unsupported:
            return zite(c, a, b)
        n = max(len(x), len(y))
        x += [False] * (n - len(x))
        y += [False] * (n - len(y))
        r = [p if (p is q) else zite(c, p, q) for p, q in zip(x, y)]
        return int_from_bits(r)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if definitely_eq(a, b):
            return a
        return site(c, a, b)
    if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
        sa, sb = bytes_segs(a), bytes_segs(b)
        n = min(len(sa), len(sb))
        if len(sa) != len(sb) and skey(mkbytes(sa[:n])) == skey(mkbytes(sb[:n])):
            raise MergeAbort()      # (appended or not)
        if n and sa[n - 1][0] == sb[n - 1][0] == 'sl' and sa[n - 1][1] is sb[n - 1][1] and skey(sa[n - 1][2]) == skey(sb[n - 1][2]) and \
                skey(sa[n - 1][3]) != skey(sb[n - 1][3]):
            raise MergeAbort()
        return bite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:0] == () and b[:0] == ():
        # segment tuples of a list
        if all(isinstance(s, tuple) and s and s[0] in ('e', 's') and len(s) >= 3 for s in a + b) and (a or b):
            n = 0
            while n < len(a) and n < len(b) and a[n] is b[n]:
                n += 1
            out = list(a[:n])
            for part, cc in ((a[n:], c), (b[n:], znot(c))):
                for s in part:
                    if s[0] != 'e':
                        raise MergeAbort()
                    out.append(('e', s[1], zand(cc, s[2])))
            return tuple(out)
    raise MergeAbort()


INTERP = Interp()
from .core import Unspecified  # noqa: E402
