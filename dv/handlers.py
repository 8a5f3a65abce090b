"""Symbolic counterparts of dv.api, and the contracts of the two text readers (used at call sites once discharged)."""
import z3

from . import api
from .core import C, MISSING, Unsupported, PathEnd, Unspecified, Raised, ForallFact, is_sym, is_sint, iv, IntS, BoolS
from .values import *
from .interp import HANDLERS, CONTRACTS, INTERP, fn_ast, qualname, CALL_LOG
from . import models


def conc(*vs):
    return all(v is None or isinstance(v, (int, bytes, str)) for v in vs)


def need_z(cond):
    """assume a condition of the specification (the path ends when it cannot hold)"""
    if cond is True:
        return
    if cond is False:
        raise Unspecified()
    if C.merge_depth:
        if C.proves(cond):
            return
        from .core import MergeAbort
        raise MergeAbort()
    if not C.feasible(cond):
        raise Unspecified()
    C.assume(cond)


def h_need(args, kw):
    c = INTERP.truth(args[0])
    if isinstance(c, bool):
        if not c:
            raise Unspecified()
        return None
    need_z(c)
    return None


def h_need_distinct(args, kw):
    """the keys have a left inverse: place(key(k)) == k"""
    v = args[0]
    segs = v.segs if isinstance(v, SList) else None
    if segs is None:
        return native(api.need_distinct, args)
    if len(segs) != 1 or segs[0][0] != 's':
        raise Unsupported('distinctness of a composed list')
    _, n, k, item = segs[0]
    place = z3.Function('place!%s' % C.fresh('d').decl().name(), IntS, IntS)
    C.add_fact(ForallFact(iv(0), iv(n), k, place(iv(item)) == k))
    return None


def in_data(data, off, n):
    off, n = models.num(off), models.num(n)
    ln = blen(data)
    need_z(normb(z3.And(iv(off) >= 0, iv(n) >= 0, iv(off) + iv(n) <= iv(ln))))
    return off, n


def h_uint(args, kw):
    data, off, n = args
    if conc(data, off, n):
        return native(api.uint, args)
    off, n = in_data(data, off, n)
    return int_from(bslice(data, off, add(off, n)), 'little')


def native(f, args):
    try:
        return f(*args)
    except api.Open:
        raise Unspecified()


def h_be48(args, kw):
    data, off = args
    if conc(data, off):
        return native(api.be48, args)
    off, n = in_data(data, off, 6)
    return int_from(bslice(data, off, add(off, 6)), 'big')


def h_sub(args, kw):
    data, off, n = args
    if conc(data, off, n):
        return native(api.sub, args)
    off, n = in_data(data, off, n)
    return bslice(data, off, add(off, n))


def one_slice(b):
    if isinstance(b, SBytes) and len(b.segs) == 1 and b.segs[0][0] == 'sl':
        return b.segs[0][1], b.segs[0][2], b.segs[0][3]
    return None


def text_value(data, off, size):
    """decode of the units of data[off:off+size] before the first NUL (bounds already established)"""
    if isinstance(size, int) and size == 0:
        return ''
    piece = bslice(data, off, add(off, size))
    s = one_slice(piece)
    if s is None:
        raise Unsupported('text inside composed bytes')
    base, o, ln = s
    m = base.fn('fnul')(iv(o), iv(ln))
    return SStr([PDec('utf-16-le', 'replace', mkbytes([('sl', base, o, norm(2 * m))]))])


def h_text_z(args, kw):
    data, off, size = args
    if conc(data, off, size):
        return native(api.text_z, args)
    off, size = in_data(data, off, size)
    if is_sym(size) or size % 2:
        need_z(normb(iv(size) % 2 == 0))
    return text_value(data, off, size)


def h_text_rest(args, kw):
    data, off = args
    if conc(data, off):
        return native(api.text_rest, args)
    off = models.num(off)
    n = blen(data)
    need_z(normb(z3.And(iv(off) >= 0, iv(off) <= iv(n))))
    size = sub(n, off)
    need_z(normb(iv(size) % 2 == 0))
    return text_value(data, off, size)


def h_text_ascii(args, kw):
    data, off, n = args
    if conc(data, off, n):
        return native(api.text_ascii, args)
    off, n = in_data(data, off, n)
    piece = bslice(data, off, add(off, n))
    if isinstance(piece, bytes):
        return piece.decode('ascii')
    s = one_slice(piece)
    if s is None:
        raise Unsupported('ascii text inside composed bytes')
    need_z(s[0].fn('ascii')(iv(s[1]), iv(s[2])))
    return SStr([PDec('ascii', 'strict', piece)])


def msz_value(data, off, size):
    if isinstance(size, int) and size == 0:
        return SList(())
    piece = bslice(data, off, add(off, size))
    s = one_slice(piece)
    if s is None:
        raise Unsupported('multi-string inside composed bytes')
    base, o, ln = s
    n = z3.Function('mszlen!%s' % base.name, IntS, IntS, IntS)(iv(o), iv(ln))
    k = C.fresh('k')
    return SList([('s', n, k, SStr([PApp('mszitem!%s' % base.name, (iv(o), iv(ln), k))]))])


def _mszlen_axiom(app, name):
    return [app >= 0, z3.Implies(app.arg(1) >= 0, 2 * app <= app.arg(1) + 2)]


C_AX['mszlen'] = _mszlen_axiom
C.app_axioms['mszlen'] = _mszlen_axiom


def h_multi_sz(args, kw):
    data, off, size = args
    if conc(data, off, size):
        return wrap(native(api.multi_sz, args))
    off, size = in_data(data, off, size)
    if is_sym(size) or size % 2:
        need_z(normb(iv(size) % 2 == 0))
    from . import multi
    if multi.proving:
        multi.current = None
        s = one_slice(bslice(data, off, add(off, size)))
        if s is None:
            raise Unsupported('multi-string inside composed bytes')
        multi.current = multi.Block(*s)
        multi.current.induction()
        return multi.current.value()
    return msz_value(data, off, size)


def wrap(v):
    from .interp import wrap_native
    return wrap_native(v)


def install():
    HANDLERS[api.need] = h_need
    HANDLERS[api.need_distinct] = h_need_distinct
    HANDLERS[api.uint] = h_uint
    HANDLERS[api.be48] = h_be48
    HANDLERS[api.sub] = h_sub
    HANDLERS[api.text_z] = h_text_z
    HANDLERS[api.text_rest] = h_text_rest
    HANDLERS[api.text_ascii] = h_text_ascii
    HANDLERS[api.multi_sz] = h_multi_sz


install()


# ------------------------------------------------------------------------------------------------ contracts of readers
def stream_and_size(args, kwargs, names):
    vals = list(args)
    kw = dict(kwargs)
    io = vals[0] if vals else kw.get(names[0], MISSING)
    size = vals[1] if len(vals) > 1 else kw.get(names[1], -1)
    return io, size


def loops_debug():
    from . import loops
    return loops.DEBUG


def optimist(pre):
    if C.optimistic and C.feasible(pre):
        C.assume(pre)
        return True
    return False


def reader_contract(live, value, at_end=None):
    """requires: the field lies inside the stream and its size is even; ensures: the result is ``value`` of the field and
    the stream is at its end.  (size -1: up to the terminator or the end of the stream; the stream position afterwards is
    not part of the contract.)"""
    names = [a.arg for a in fn_ast(live).args.args] + ['size']

    def handler(args, kwargs):
        io, size = stream_and_size(args, kwargs, names)
        if isinstance(io, SStream) and (models.isnum(size)):
            size = models.num(size)
            data, pos = io.f['data'], io.f['pos']
            n = blen(data)
            if not (isinstance(data, (bytes, bytearray)) and isinstance(pos, int) and isinstance(size, int)):
                if isinstance(size, int) and size == -1:
                    rest = sub(n, pos)
                    pre = z3.And(iv(pos) >= 0, iv(rest) >= 0, iv(rest) % 2 == 0)
                    if C.proves(pre) or optimist(pre):
                        if at_end is not None and C.branch(normb(iv(rest) == 0)):
                            return wrap(list(at_end))
                        v = value(data, pos, rest)
                        C.write(io.f, 'pos', C.fresh('readerpos'))
                        C.assume(z3.And(io.f['pos'] >= iv(pos), io.f['pos'] <= iv(n)))
                        return v
                else:
                    pre = z3.And(iv(pos) >= 0, iv(size) >= 0, iv(pos) + iv(size) <= iv(n), iv(size) % 2 == 0)
                    if C.proves(pre) or optimist(pre):
                        v = value(data, pos, size)
                        C.write(io.f, 'pos', add(pos, size))
                        CALL_LOG['contract:' + qualname(live)] = CALL_LOG.get('contract:' + qualname(live), 0) + 1
                        return v
        if loops_debug():
            print('CONTRACT not applicable', C.optimistic, pos, size, n)
            for f in C.facts:
                print('  F', f.lo, f.hi, f.var, f.simple)
        return INTERP.call_live(live, args, kwargs)
    return handler
