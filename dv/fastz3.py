"""Cheaper access to z3's read-only AST accessors (the Python binding checks an error code after every call)."""
import z3
from z3 import z3core


class _Lib(object):
    def __getattr__(self, n):
        return getattr(z3core, n).__defaults__[0].f


_lib = _Lib()
z3.z3.Z3_DEBUG = False
for _n in ('Z3_get_ast_kind', 'Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_get_sort_kind', 'Z3_get_app_num_args',
           'Z3_get_app_arg', 'Z3_get_app_decl', 'Z3_get_ast_id', 'Z3_is_eq_ast', 'Z3_is_numeral_ast', 'Z3_get_decl_kind',
           'Z3_get_ast_hash', 'Z3_is_app', 'Z3_sort_to_ast', 'Z3_func_decl_to_ast', 'Z3_app_to_ast'):
    if hasattr(z3.z3, _n):
        setattr(z3.z3, _n, getattr(_lib, _n))

_ctx = z3.main_ctx()
_ref = _ctx.ref()
_num, _arg, _decl, _id, _kind, _dkind = (_lib.Z3_get_app_num_args, _lib.Z3_get_app_arg, _lib.Z3_get_app_decl, _lib.Z3_get_ast_id,
                                         _lib.Z3_get_ast_kind, _lib.Z3_get_decl_kind)
APP = z3.Z3_APP_AST
NUM = z3.Z3_NUMERAL_AST
UNINT = z3.Z3_OP_UNINTERPRETED
_decl_pre = {}      # decl id -> registered prefix or None
_apps = {}          # ast id -> (kept ast, tuple of (id, ast) uninterpreted applications inside it)
_keep = []


def _prefix(app):
    d = _decl(_ref, app)
    did = _id(_ref, z3.z3.Z3_func_decl_to_ast(_ref, d))
    r = _decl_pre.get(did)
    if r is None:
        if _dkind(_ref, d) != UNINT:
            r = ''
        else:
            e = z3.z3._to_expr_ref(app, _ctx)
            _keep.append(e.decl())
            nm = e.decl().name()
            r = nm if (e.num_args() or nm.startswith('strlit!')) else ''
        _decl_pre[did] = r
    return r


def apps_of(e):
    """The uninterpreted applications inside a term (each with its declaration's name)."""
    root = e.as_ast()
    hit = _apps.get(_id(_ref, root))
    if hit is not None:
        return hit[1]
    stack = [(root, False)]
    while stack:
        a, done = stack.pop()
        i = _id(_ref, a)
        if i in _apps:
            continue
        if _kind(_ref, a) != APP:
            _apps[i] = (z3.z3._to_expr_ref(a, _ctx) if _kind(_ref, a) == NUM else None, ())
            continue
        n = _num(_ref, a)
        if not done:
            stack.append((a, True))
            for k in range(n):
                c = _arg(_ref, a, k)
                if _id(_ref, c) not in _apps:
                    stack.append((c, False))
            continue
        nm = _prefix(a)
        subs = []
        for k in range(n):
            s = _apps[_id(_ref, _arg(_ref, a, k))][1]
            if s:
                subs.append(s)
        ref = z3.z3._to_expr_ref(a, _ctx)
        if nm:
            subs.append(((i, ref, nm),))
        if len(subs) == 0:
            r = ()
        elif len(subs) == 1:
            r = subs[0]
        else:
            m = {}
            for s in subs:
                for x in s:
                    m[x[0]] = x
            r = tuple(m.values())
        _apps[i] = (ref, r)
    return _apps[_id(_ref, root)][1]
