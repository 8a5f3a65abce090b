"""Symbolic values: integers and booleans are z3 terms; bytes and text are ropes; lists and dicts have symbolic segments."""
import codecs

import z3

from .core import (C, D, MISSING, Unsupported, PathEnd, Raised, ForallFact, is_sym, is_sint, is_sbool, zsub, iv, IntS,
                   BoolS, StrS, BytS, ObjS)


# ---------------------------------------------------------------------------------------------- integers
def norm(e):
    """Normal form of an integer term; a Python int when constant."""
    if isinstance(e, int):
        return e
    e = z3.simplify(e, som=True, sort_sums=True)
    if z3.is_int_value(e):
        return e.as_long()
    return e


def normb(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return norm(iv(a) + iv(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return norm(iv(a) - iv(b))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return norm(iv(a) * iv(b))


def zand(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return normb(z3.And(*out)) if len(out) > 1 else out[0]


def zor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return normb(z3.Or(*out)) if len(out) > 1 else out[0]


def znot(x):
    return (not x) if isinstance(x, bool) else normb(z3.Not(x))


def zite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) or isinstance(b, bool) or is_sbool(a) or is_sbool(b):
        return normb(z3.If(c, z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b))
    return norm(z3.If(c, iv(a), iv(b)))


def zbool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# bit-level views of integer terms -----------------------------------------------------------------
_bits = {}      # term id -> (term, [bool per bit], )   value = sum 2^i b_i (non-negative, finite width)


def width_of(t):
    """Known width of an unsigned term, or None."""
    if isinstance(t, int):
        return max(1, t.bit_length()) if t >= 0 else None
    ent = _bits.get(t.get_id())
    if ent is not None:
        return len(ent[1])
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        nm = t.decl().name()
        if nm[:2] in ('le', 'be') and nm[2:3].isdigit():
            return int(nm[2:nm.index('!')]) * 8
        if nm.startswith('byte!'):
            return 8
        if nm.startswith('w') and '!' in nm and nm[1:nm.index('!')].isdigit():
            return int(nm[1:nm.index('!')])     # named inputs: w32!x
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)):
        return (t.arg(1).as_long() - 1).bit_length()
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)):
        w = width_of(t.arg(0))
        if w is not None:
            return max(1, w - (t.arg(1).as_long().bit_length() - 1))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        ws = [width_of(norm(t.arg(1))), width_of(norm(t.arg(2)))]
        if None not in ws:
            return max(ws)
    return None


def bits_of(t):
    """List of booleans (LSB first) for a non-negative term of known width."""
    if isinstance(t, int):
        if t < 0:
            raise Unsupported('bits of a negative constant')
        return [bool(t >> i & 1) for i in range(max(1, t.bit_length()))]
    ent = _bits.get(t.get_id())
    if ent is not None and ent[0].eq(t):
        return list(ent[1])
    w = width_of(t)
    if w is None:
        # try to bound it with the solver
        for cand in (8, 16, 32, 64):
            if C.proves(z3.And(t >= 0, t < 2 ** cand)):
                w = cand
                break
        else:
            raise Unsupported('bit operation on a term of unknown width: %s' % str(t)[:200])
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)):
        d = t.arg(1).as_long()
        if d & (d - 1) == 0:
            k = d.bit_length() - 1
            b = bits_of(norm(t.arg(0)))[k:] or [False]
            return set_bits(t, b)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)):
        d = t.arg(1).as_long()
        if d & (d - 1) == 0 and width_of(norm(t.arg(0))) is not None:
            k = d.bit_length() - 1
            return set_bits(t, bits_of(norm(t.arg(0)))[:k] or [False])
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = bits_of(norm(t.arg(1))), bits_of(norm(t.arg(2)))
        n = max(len(a), len(b))
        a += [False] * (n - len(a))
        b += [False] * (n - len(b))
        return set_bits(t, [zite(t.arg(0), x, y) for x, y in zip(a, b)])
    fs = [z3.Function('bit!%d!%d' % (w, i), IntS, BoolS) for i in range(w)]
    return set_bits(t, [f(t) for f in fs])


def set_bits(t, b):
    b = list(b)
    while len(b) > 1 and b[-1] is False:
        b.pop()
    if is_sym(t):
        _bits[t.get_id()] = (t, b)
    return list(b)


def _bit_axiom(app, name):
    """x == sum 2^i * bit_i(x) for every x some bit of which is used."""
    w = int(name.split('!')[1])
    x = app.arg(0)
    key = ('bits', x.get_id(), w)
    if key in C.decl_axioms and C.decl_axioms[key]:
        return []
    C.decl_axioms[key] = True
    C.on_undo(lambda: C.decl_axioms.pop(key, None))
    fs = [z3.Function('bit!%d!%d' % (w, i), IntS, BoolS) for i in range(w)]
    return [x == z3.Sum([z3.If(fs[i](x), z3.IntVal(2 ** i), z3.IntVal(0)) for i in range(w)])]


C_AX = {'bit': _bit_axiom}


def int_from_bits(b):
    b = list(b)
    if all(isinstance(x, bool) for x in b):
        return sum(2 ** i for i, x in enumerate(b) if x)
    t = z3.Sum([z3.If(zbool(x), z3.IntVal(2 ** i), z3.IntVal(0)) for i, x in enumerate(b) if x is not False])
    t = norm(t)
    if is_sym(t):
        set_bits(t, b)
    return t


def _runs(c):
    runs = []
    i = 0
    while c >> i:
        if c >> i & 1:
            j = i
            while c >> j & 1:
                j += 1
            runs.append((i, j))
            i = j
        else:
            i += 1
    return runs


def int_and(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        x = bits_of(a)
        if b < 0:
            y = [(b >> i) & 1 for i in range(len(x))]
        else:
            y = [(b >> i) & 1 for i in range(len(x))]
        if all(y):
            return a
        r = [p if q else False for p, q in zip(x, y)]
        runs = _runs(sum(2 ** i for i, q in enumerate(y) if q))
        if len(runs) == 1 and (a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            lo, hi = runs[0]
            t = a
            if lo:
                t = t / (2 ** lo)
            if hi < len(x):
                t = t % (2 ** (hi - lo))
            t = norm(t)
            if lo:
                # keep the low-order form cached too
                if is_sym(t):
                    set_bits(t, x[lo:hi])
                t = norm(t * (2 ** lo))
            if is_sym(t):
                set_bits(t, r)
            return t
        return int_from_bits(r)
    x, y = bits_of(a), bits_of(b)
    return int_from_bits([zand(p, q) for p, q in zip(x, y)])


def _binbits(a, b, f):
    x, y = bits_of(a), bits_of(b)
    n = max(len(x), len(y))
    x += [False] * (n - len(x))
    y += [False] * (n - len(y))
    return int_from_bits([f(p, q) for p, q in zip(x, y)])


def int_or(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    return _binbits(a, b, lambda p, q: zor(p, q))


def int_xor(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int) and a < 0 or isinstance(b, int) and b < 0:
        raise Unsupported('xor with a negative constant')
    return _binbits(a, b, lambda p, q: zor(zand(p, znot(q)), zand(znot(p), q)))


def int_shr(a, k):
    if isinstance(a, int) and isinstance(k, int):
        return a >> k
    if not isinstance(k, int):
        raise Unsupported('shift by a symbolic amount')
    if k == 0:
        return a
    w = width_of(a)
    t = norm(a / (2 ** k))
    if w is not None and is_sym(t):
        if a.get_id() in _bits or a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            set_bits(t, bits_of(a)[k:] or [False])
    return t


def int_shl(a, k):
    if isinstance(a, int) and isinstance(k, int):
        return a << k
    if not isinstance(k, int):
        raise Unsupported('shift by a symbolic amount')
    t = norm(a * (2 ** k))
    if is_sym(t) and (a.get_id() in _bits):
        set_bits(t, [False] * k + bits_of(a))
    return t


def int_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        ent = _bits.get(a.get_id())
        if ent is not None and ent[0].eq(a):
            if b < 0 or b >> len(ent[1]):
                return False
            return zand(*[x if (b >> i & 1) else znot(x) for i, x in enumerate(ent[1])])
        return normb(a == b)
    if a.eq(b):
        return True
    ea, eb = _bits.get(a.get_id()), _bits.get(b.get_id())
    if ea is not None and eb is not None and ea[0].eq(a) and eb[0].eq(b):
        x, y = list(ea[1]), list(eb[1])
        n = max(len(x), len(y))
        x += [False] * (n - len(x))
        y += [False] * (n - len(y))
        return zand(*[normb(zbool(p) == zbool(q)) for p, q in zip(x, y)])
    return normb(a == b)


# ---------------------------------------------------------------------------------------------- byte bases
class Base(object):
    """An immutable byte string of symbolic length whose content is an uninterpreted function of the offset."""

    def __init__(self, name, length):
        self.name, self.length = name, length
        self.fns = {}
        BASES[name] = self

    def fn(self, kind):
        if kind not in self.fns:
            if kind in ('fnul',):
                self.fns[kind] = z3.Function('%s!%s' % (kind, self.name), IntS, IntS, IntS)
            elif kind == 'ascii':
                self.fns[kind] = z3.Function('%s!%s' % (kind, self.name), IntS, IntS, BoolS)
            else:
                self.fns[kind] = z3.Function('%s!%s' % (kind, self.name), IntS, IntS)
        return self.fns[kind]


BASES = {}


def _range_axiom(app, name):
    k = name.split('!', 1)[0]
    n = 1 if k == 'byte' else int(k[2:])
    return [z3.And(app >= 0, app < 2 ** (8 * n))]


for _n in (1, 2, 3, 4, 5, 6, 7, 8, 16):
    C_AX['le%d' % _n] = _range_axiom
    C_AX['be%d' % _n] = _range_axiom
C_AX['byte'] = _range_axiom


def expand_apps(apps):
    out = []
    for x, name in apps:
        kind, _, base = name.partition('!')
        if kind[:2] in ('le', 'be') and kind[2:].isdigit() and base in BASES and x.num_args() == 1:
            n = int(kind[2:])
            if n > 1 and n <= 8:
                byte = BASES[base].fn('byte')
                off = x.arg(0)
                ks = range(n) if kind[:2] == 'le' else range(n - 1, -1, -1)
                out.append(x == z3.Sum([256 ** j * byte(off + k) for j, k in enumerate(ks)]))
    return out


C.expand_apps = expand_apps


def _fnul_axiom(app, name):
    base = name.split('!', 1)[1]
    b = BASES[base]
    off, ln = app.arg(0), app.arg(1)
    le2 = b.fn('le2')
    m = C.fresh('m')
    C.add_index(app)
    return [app >= 0, z3.Implies(ln >= 0, 2 * app <= ln),
            z3.Implies(2 * app + 1 < ln, le2(off + 2 * app) == 0),
            ForallFact(z3.IntVal(0), app, m, le2(off + 2 * m) != 0)]


C_AX['fnul'] = _fnul_axiom


def _w_axiom(w):
    def ax(app, name):
        return []
    return ax


# ---------------------------------------------------------------------------------------------- bytes
class SBytes(object):
    """Rope of segments: ('lit', bytes) ('sl', base, off, len) ('int', term, n, order) ('enc', enc, text) ('op', name, args, len)"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        out = []
        for s in segs:
            if s[0] == 'lit':
                if not s[1]:
                    continue
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + s[1])
                    continue
            elif s[0] == 'sl':
                if isinstance(s[3], int) and s[3] == 0:
                    continue
                if out and out[-1][0] == 'sl' and out[-1][1] is s[1]:
                    p = out[-1]
                    d = sub(add(p[2], p[3]), s[2])
                    if isinstance(d, int) and d == 0:
                        out[-1] = ('sl', s[1], p[2], add(p[3], s[3]))
                        continue
            out.append(s)
        self.segs = tuple(out)

    def __repr__(self):
        return 'SBytes%r' % (self.segs,)


def seg_len(s):
    if s[0] == 'lit':
        return len(s[1])
    if s[0] == 'sl':
        return s[3]
    if s[0] == 'int':
        return s[2]
    if s[0] == 'enc':
        return enc_len(s[1], s[2])
    if s[0] == 'op':
        return s[3]
    if s[0] == 'rep':       # ('rep', n, kvar, SBytes template, total length)
        return s[4]
    raise Unsupported('length of %r' % (s[0],))


def bytes_segs(b):
    if isinstance(b, (bytes, bytearray)):
        return (('lit', bytes(b)),) if b else ()
    return b.segs


def blen(b):
    if isinstance(b, (bytes, bytearray)):
        return len(b)
    n = 0
    for s in b.segs:
        n = add(n, seg_len(s))
    return n


def mkbytes(segs):
    b = SBytes(segs)
    if not b.segs:
        return b''
    if all(s[0] == 'lit' for s in b.segs):
        return b''.join(s[1] for s in b.segs)
    return b


def bcat(a, b):
    return mkbytes(bytes_segs(a) + bytes_segs(b))


def bslice(b, lo, hi):
    """b[lo:hi] where 0 <= lo <= hi <= len(b) is known to hold."""
    if isinstance(b, (bytes, bytearray)) and isinstance(lo, int) and isinstance(hi, int):
        return bytes(b[lo:hi])
    segs = bytes_segs(b)
    total = blen(b)
    z = sub(hi, lo)
    if isinstance(z, int) and z == 0:
        return b''
    if isinstance(lo, int) and lo == 0:
        d = sub(total, hi)
        if isinstance(d, int) and d == 0:
            return b
    out = []
    pos = 0
    started = False
    last = len(segs) - 1
    for si, s in enumerate(segs):
        n = seg_len(s)
        end = add(pos, n)
        if not started:
            # does lo fall inside this segment ([pos, end))?
            d, d0 = sub(lo, end), sub(lo, pos)
            if isinstance(d0, int) and d0 == 0:
                inside = True
            elif isinstance(d, int):
                inside = d < 0
            elif si == last:
                inside = True
            else:
                inside = C.branch(iv(lo) < iv(end))
            if not inside:
                pos = end
                continue
            started = True
            a = sub(lo, pos)
        else:
            a = 0
            d0 = sub(hi, pos)
            if isinstance(d0, int) and d0 == 0:
                return mkbytes(out)
        d = sub(hi, end)
        if isinstance(d, int):
            beyond = d >= 0
        elif si == last:
            beyond = False
        else:
            beyond = C.branch(iv(hi) >= iv(end))
            if beyond and (s[0] == 'sl' or s[0] == 'rep' and isinstance(s[3], bytes)) and C.proves(iv(hi) == iv(end)):
                beyond = False  # it ends here: keep the length that was asked for
        e = n if beyond else sub(hi, pos)
        out.extend(seg_slice(s, a, e, n))
        if not beyond:
            return mkbytes(out)
        if isinstance(d, int) and d == 0:
            return mkbytes(out)
        pos = end
    return mkbytes(out)


def guarded_bytes(c, segs):
    """the bytes when c holds, else none"""
    body = mkbytes(segs)
    n = blen(body)
    if c is True:
        return list(segs)
    if c is False or not segs:
        return []
    return [('rep', zite(c, 1, 0), C.fresh('k'), body, zite(c, n, 0))]


def bite(c, a, b):
    """a when c holds, else b"""
    sa, sb = list(bytes_segs(a)), list(bytes_segs(b))

    def match(x, y, front):
        """(the merged segment, the rest of x, the rest of y) or None"""
        if x is y or x[0] == y[0] == 'lit' and x[1] == y[1]:
            return x, [], []
        if x[0] == y[0] == 'int' and x[2:] == y[2:]:
            return ('int', zite(c, x[1], y[1]) if not (type(x[1]) is int and x[1] == y[1]) else x[1]) + x[2:], [], []
        if x[0] == 'int' and y[0] == 'lit' and len(y[1]) >= x[2]:
            n = x[2]
            part, rest = (y[1][:n], y[1][n:]) if front else (y[1][len(y[1]) - n:], y[1][:len(y[1]) - n])
            return ('int', zite(c, x[1], int.from_bytes(part, x[3])), n, x[3]), [], [('lit', rest)] if rest else []
        if x[0] == 'lit' and y[0] == 'int' and len(x[1]) >= y[2]:
            n = y[2]
            part, rest = (x[1][:n], x[1][n:]) if front else (x[1][len(x[1]) - n:], x[1][:len(x[1]) - n])
            return ('int', zite(c, int.from_bytes(part, y[3]), y[1]), n, y[3]), [('lit', rest)] if rest else [], []
        if x[0] == y[0] == 'lit':
            p, q = x[1], y[1]
            n = 0
            while n < min(len(p), len(q)) and (p[n] == q[n] if front else p[-1 - n] == q[-1 - n]):
                n += 1
            if not n:
                return None
            if front:
                return ('lit', p[:n]), [('lit', p[n:])] if p[n:] else [], [('lit', q[n:])] if q[n:] else []
            return ('lit', p[len(p) - n:]), [('lit', p[:len(p) - n])] if p[n:] else [], [('lit', q[:len(q) - n])] if q[n:] else []
        if x[0] == y[0] and x[0] in ('sl', 'op', 'enc', 'rep') and skey(x[1:]) == skey(y[1:]):
            return x, [], []
        return None
    front, back = [], []
    while sa and sb:
        m = match(sa[0], sb[0], True)
        if m is None:
            break
        front.append(m[0])
        sa[:1], sb[:1] = m[1], m[2]
    while sa and sb:
        m = match(sa[-1], sb[-1], False)
        if m is None:
            break
        back.append(m[0])
        sa[-1:], sb[-1:] = m[1], m[2]
    return mkbytes(front + guarded_bytes(c, sa) + guarded_bytes(znot(c), sb) + back[::-1])


def within(x, lo, hi):
    """the number, known to lie in [lo, hi]; one path for each possible value"""
    if isinstance(x, int):
        return x
    from .core import PathEnd
    for v in range(lo, hi):
        if C.branch(normb(iv(x) == v)):
            return v
    C.assume(iv(x) == hi)
    return hi


def guard_of(s):
    """the condition of a guarded piece"""
    n = s[1]
    if is_sym(n) and n.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(n.arg(1)) and z3.is_int_value(n.arg(2)) and \
            n.arg(1).as_long() == 1 and n.arg(2).as_long() == 0:
        return n.arg(0)
    return None


def rep_at(s, x):
    """(m, d): offset x of a run of pieces is offset d of piece m (0 <= d < its length)"""
    w = blen(s[3])
    x = guessed(x)
    if isinstance(w, int):
        if isinstance(x, int):
            return divmod(x, w)
        c = norm(z3.substitute(x, *[(v, z3.IntVal(0)) for v in atoms_of(x)]))
        if isinstance(c, int):
            q, d = divmod(c, w)
            h = sub(x, d)
            m = exact_quotient(h, w)
            if m is not None:
                return m, d
    else:
        if isinstance(x, int):
            return (0, x)
        total = s[4]
        if is_sym(total) and z3.is_app(total) and total.num_args() == 1 and total.decl().name().startswith('rec!'):
            f = total.decl()
            for v in atoms_of(x):
                if z3.is_app(v) and v.num_args() == 1 and v.decl().eq(f):
                    d = sub(x, v)
                    if not any(z3.is_app(y) and y.decl().eq(f) for y in atoms_of(d)):
                        return norm(v.arg(0)), d
    return None


def atoms_of(x):
    """the terms a linear term is made of"""
    if isinstance(x, int):
        return []
    out, st = [], [x]
    while st:
        e = st.pop()
        if z3.is_int_value(e):
            continue
        if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            st.extend(e.children())
        elif not any(e.eq(o) for o in out):
            out.append(e)
    return out


def exact_quotient(x, w):
    """x / w for a linear x whose coefficients w divides, else None"""
    if isinstance(x, int):
        return x // w if x % w == 0 else None
    t = 0
    for e in (x.children() if x.decl().kind() == z3.Z3_OP_ADD else [x]):
        if z3.is_int_value(e):
            c, y = e.as_long(), 1
        elif e.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(e.arg(0)):
            c, y = e.arg(0).as_long(), norm(z3.Product(*e.children()[1:]) if e.num_args() > 2 else e.arg(1))
        else:
            c, y = 1, e
        if c % w:
            return None
        t = add(t, mul(c // w, y))
    return t


def rep_position(s, a):
    """(m, d) as in rep_at; while the shape of a loop is being guessed, suppose that its iteration k starts at piece k"""
    at = rep_at(s, a)
    if at is None and getattr(C, 'trial_ks', None) and C.optimistic and is_sym(a) and (
            isinstance(blen(s[3]), int) or is_sym(s[4]) and s[4].decl().name().startswith('rec!') and s[4].num_args() == 1):
        k = C.trial_ks[-1]
        w = blen(s[3])
        start = mul(k, w) if isinstance(w, int) else s[4].decl()(k)
        for v in atoms_of(a):
            if z3.is_const(v) and v.decl().name().startswith('h!'):
                rest = sub(a, v)
                if v.get_id() in {x.get_id() for x in atoms_of(rest)}:
                    continue
                C.assume(iv(a) == iv(start))
                old = getattr(C, 'guesses', [])
                C.guesses = old + [(v, iv(sub(start, rest)))]
                C.on_undo(lambda: setattr(C, 'guesses', old))
                return rep_at(s, a)
    return at


opaque_cuts = False     # (set for theorems about the number of bytes that are there)


def guessed(x):
    guess = getattr(C, 'guesses', None)
    return norm(zsub(x, guess)) if guess and is_sym(x) else x


def rep_slice(s, a, e):
    g = guard_of(s)
    if g is not None:
        if C.branch(normb(g)):
            return bytes_segs(bslice(subst(s[3], [(s[2], z3.IntVal(0))]), a, e))
        return []
    at = rep_position(s, a)
    if at is None:
        raise Unsupported('offset %s of a run of pieces' % (a,))
    m, d = at
    e, a = guessed(e), guessed(a)
    piece = subst(s[3], [(s[2], iv(m))])
    e2 = add(d, sub(e, a))
    n = blen(piece)
    if C.proves(z3.And(iv(m) >= 0, iv(m) < iv(s[1]), iv(d) >= 0, iv(e2) <= iv(n))):
        return bytes_segs(bslice(piece, d, e2))
    if isinstance(n, int) and type(d) is int and d == 0:
        z = exact_quotient(sub(e, a), n)
        if z is not None and C.proves(z3.And(iv(m) >= 0, iv(z) >= 0, iv(add(m, z)) <= iv(s[1]))):
            return [('rep', z, s[2], subst(s[3], [(s[2], norm(s[2] + iv(m)))]), sub(e, a))]
    if opaque_cuts and type(a) is int and a == 0:
        if isinstance(s[3], SBytes) and len(s[3].segs) == 1 and s[3].segs[0][0] == 'op' and s[4].num_args() == 1 and \
                s[4].decl().name().startswith('rec!'):
            # some of the pieces, and a part of the next
            m, f = C.fresh('whole'), s[4].decl()
            C.assume(z3.And(m >= 0, m < iv(s[1]), f(m) <= iv(e), iv(e) < f(m + 1)))
            C.add_index(m)
            return [('rep', m, s[2], s[3], f(m)), ('op', 'cut', (C.fresh('cut'),), sub(e, f(m)))]
        return [('op', 'cut', (C.fresh('cut'),), e)]
    raise Unsupported('slice [%s:%s] of a run of pieces' % (a, e))


def piece_at(data, pos, kind, after=None):
    """the piece of this kind that begins at the offset of the bytes (or what comes behind a run of them, if that is one of
    ``after``), else None"""
    at = skipped = 0
    segs = list(bytes_segs(data))
    for i, s in enumerate(segs):
        x = sub(pos, at)
        if s[0] == 'op' and s[1] == kind and type(x) is int and x == 0:
            return s
        if after and s[:2] in after and (type(x) is int and x == 0 or C.optimistic and skipped and any(z3.is_const(v) and v.decl().name().startswith('h!') for v in atoms_of(x))):
            return s
        if after and s[0] == 'rep' and C.proves(iv(s[1]) == 0):
            skipped += 1
            continue
        if s[0] == 'rep' and guard_of(s) is None and isinstance(s[3], SBytes) and len(s[3].segs) == 1 and s[3].segs[0][:2] == ('op', kind):
            found = rep_position(s, x)
            if found is not None and C.proves(z3.And(iv(found[1]) == 0, iv(found[0]) >= 0)):
                m = found[0]
                if C.branch(normb(iv(m) < iv(s[1]))) if after else C.proves(iv(m) < iv(s[1])):
                    return subst(s[3], [(s[2], iv(m))]).segs[0]
                if after and i + 1 < len(segs) and segs[i + 1][:2] in after and (
                        C.optimistic or getattr(C, 'trial_ks', ()) or C.prove_goal(iv(m) <= iv(s[1]))[0]):
                    return segs[i + 1]
        at = add(at, seg_len(s))
    return None


def seg_slice(s, a, e, n):
    d0, d1 = a, sub(n, e)
    if isinstance(d0, int) and d0 == 0 and isinstance(d1, int) and d1 == 0:
        return [s]
    if s[0] == 'sl':
        return [('sl', s[1], add(s[2], a), sub(e, a))]
    if s[0] == 'lit' and isinstance(a, int) and isinstance(e, int):
        return [('lit', s[1][a:e])]
    if s[0] == 'lit' and isinstance(n, int) and n <= (80 if opaque_cuts else 8):
        # bounds inside a few known bytes: one case for each
        a, e = within(a, 0, n), within(e, 0, n)
        return [('lit', s[1][a:e])] if e > a else []
    if s[0] == 'int' and opaque_cuts and not (isinstance(a, int) and isinstance(e, int)):
        return [('op', 'cut', (C.fresh('cut'),), sub(e, a))]
    if s[0] == 'rep' and isinstance(s[3], bytes) and len(s[3]) == 1:
        z = sub(e, a)
        return [('lit', s[3] * z)] if isinstance(z, int) else [('rep', z, s[2], s[3], z)]
    if s[0] == 'rep':
        return rep_slice(s, a, e)
    if s[0] == 'int' and isinstance(a, int) and isinstance(e, int):
        lo = a if s[3] == 'little' else s[2] - e
        t = int_and(int_shr(s[1], 8 * lo), 2 ** (8 * (e - a)) - 1) if not isinstance(s[1], int) else \
            (s[1] >> 8 * lo) & (2 ** (8 * (e - a)) - 1)
        if isinstance(t, int):
            return [('lit', t.to_bytes(e - a, s[3]))]
        return [('int', t, e - a, s[3])]
    raise Unsupported('slice [%s:%s] inside a %s segment %s' % (a, e, s[0], s[1:]))


def byte_at(b, i):
    x = bslice(b, i, add(i, 1))
    return int_from(x, 'little')


def int_from(b, order, signed=False):
    n = blen(b)
    if not isinstance(n, int):
        raise Unsupported('integer from bytes of symbolic length')
    if isinstance(b, (bytes, bytearray)):
        return int.from_bytes(b, order, signed=signed)
    parts = []      # (value, nbytes), in memory order
    for s in b.segs:
        k = seg_len(s)
        if s[0] == 'lit':
            v = int.from_bytes(s[1], order)
        elif s[0] == 'sl':
            if k == 1:
                v = s[1].fn('byte')(iv(s[2]))
            else:
                v = s[1].fn(('le%d' if order == 'little' else 'be%d') % k)(iv(s[2]))
        elif s[0] == 'int' and (s[3] == order or s[2] == 1):
            v = s[1]
        else:
            raise Unsupported('integer from a %s segment' % s[0])
        parts.append((v, k))
    if len(parts) == 1:
        t = parts[0][0]
    else:
        t = 0
        sh = 0
        for v, k in (parts if order == 'little' else reversed(parts)):
            t = add(t, mul(v, 2 ** sh))
            sh += 8 * k
    if signed:
        t = zite(normb(iv(t) >= 2 ** (8 * n - 1)), sub(t, 2 ** (8 * n)), t)
    return t


def valid_text(enc, s):
    """the condition that a piece of a byte string is a text in this encoding"""
    return z3.Function('valid%s!%s' % (enc, s[1].name), IntS, IntS, BoolS)(iv(s[2]), iv(s[3]))


def strictly_decoded(p, enc):
    """the bytes that a part of a text was (strictly) decoded from: its encoding"""
    if isinstance(p, PDec) and p.enc == enc and p.err == 'strict' and enc in ('utf-16-le', 'utf-16-be'):
        return p.data
    return None


def enc_len(enc, s):
    if isinstance(s, str):
        return len(s.encode(enc))
    if isinstance(s, SStr) and len(s.parts) > 1 and enc != 'utf-16':
        n = 0
        for p in s.parts:
            n = add(n, enc_len(enc, p if isinstance(p, str) else SStr([p])))
        return n
    f = z3.Function('enclen!%s' % enc, StrS, IntS)
    r = f(enc_str(s))
    if C.frames:
        C._assert(z3.And(r >= 0, (r == 0) == z3.Not(zbool(nonempty(s)))))     # only the empty text takes no room
    return r



def _enclen_axiom(app, name):
    if '16' in name:
        h = z3.Function('enchalf', StrS, IntS)(app.arg(0))
        return [app >= 0, app == 2 * h]
    return [app >= 0]


C_AX['enclen'] = _enclen_axiom


def _strint_axiom(app, name):
    # a text of digits only that int() accepts is a number without a sign
    return [z3.Implies(z3.Function('strisdigit', StrS, BoolS)(app.arg(0)), app >= 0)]


C_AX['strint'] = _strint_axiom


# ---------------------------------------------------------------------------------------------- text
class SStr(object):
    """Rope of parts; a part is a Python str or a P* object."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'SStr(%s)' % ', '.join(map(repr, self.parts))


class Part(object):
    __slots__ = ()


class PFmt(Part):
    __slots__ = ('spec', 'val')

    def __init__(self, spec, val):
        self.spec, self.val = spec, val

    def __repr__(self):
        return 'fmt[%s](%s)' % (self.spec, str(self.val)[:60])


class PDec(Part):
    __slots__ = ('enc', 'err', 'data')

    def __init__(self, enc, err, data):
        self.enc, self.err, self.data = enc, err, data

    def __repr__(self):
        return 'dec[%s](%r)' % (self.enc, self.data)


class PSel(Part):
    """table.get(key, default) for a concrete int -> str table"""
    __slots__ = ('table', 'key', 'default')

    def __init__(self, table, key, default):
        self.table, self.key, self.default = table, key, default

    def __repr__(self):
        return 'sel[%d entries](%s)' % (len(self.table), str(self.key)[:60])


class PIte(Part):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'ite(%s, %r, %r)' % (str(self.c)[:60], self.a, self.b)


class PRep(Part):
    """concatenation over k in [0, n) of body(k)"""
    __slots__ = ('n', 'k', 'body')

    def __init__(self, n, k, body):
        self.n, self.k, self.body = n, k, body

    def __repr__(self):
        return 'rep(%s, %r)' % (self.n, self.body)


class PJoin(Part):
    """sep.join of the items whose guard holds"""
    __slots__ = ('sep', 'items')

    def __init__(self, sep, items):
        self.sep, self.items = sep, tuple(items)

    def __repr__(self):
        return 'join(%r, %d items)' % (self.sep, len(self.items))


class PApp(Part):
    """an uninterpreted pure text operation"""
    __slots__ = ('name', 'args')

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return '%s%r' % (self.name, self.args)


def str_parts(s):
    if isinstance(s, str):
        return (s,) if s else ()
    return s.parts


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            sub_ = p.parts
        else:
            sub_ = (p,)
        for q in sub_:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            elif isinstance(q, PDec) and not isinstance(q.data, SBytes):
                q = q.data.decode(q.enc, q.err)
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
                if not q:
                    continue
            out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def scat(*xs):
    parts = []
    for x in xs:
        parts.extend(str_parts(x))
    return mkstr(parts)


def site(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return SStr([PIte(c, a, b)])


# ---------------------------------------------------------------------------------------------- other values
class SEnum(object):
    """A member of a concrete IntEnum class whose value is symbolic (and known to be a valid member value)."""
    __slots__ = ('cls', 'val')

    def __init__(self, cls, val):
        self.cls, self.val = cls, val

    def __repr__(self):
        return 'SEnum(%s, %s)' % (self.cls.__name__, str(self.val)[:60])


class Term(object):
    """A pure operation on values the verifier does not model (floats, datetime, ipaddress): equal arguments, equal results."""
    __slots__ = ('op', 'args', 'pytype')

    def __init__(self, op, args, pytype=None):
        self.op, self.args, self.pytype = op, tuple(args), pytype

    def __repr__(self):
        return 'Term(%s, %r)' % (self.op, self.args)


class SObj(object):
    """An instance of an interpreted class."""
    __slots__ = ('cls', 'f', 'base')

    def __init__(self, cls, base=None):
        self.cls = cls
        self.f = C.newD()
        self.base = base

    def __repr__(self):
        return 'SObj<%s>' % self.cls.__name__


class SList(object):
    """Segments: ('e', value, guard) or ('s', n, kvar, template); f['segs'] is a tuple, so the cell is undoable."""
    __slots__ = ('f', 'pytype')

    def __init__(self, segs=(), pytype=list):
        self.f = C.newD()
        self.f['segs'] = tuple(segs)
        self.pytype = pytype

    @property
    def segs(self):
        return self.f['segs']

    def set_segs(self, segs):
        out = []
        for s in segs:
            if s[0] == 's' and isinstance(s[1], int) and s[1] == 0:
                continue
            out.append(s)
        C.write(self.f, 'segs', tuple(out))

    def __repr__(self):
        return 'SList%r' % (self.segs,)


def elems(vals):
    return [('e', v, True) for v in vals]


class SDict(object):
    """f['log'] is a tuple of ('e', key, value) assignments or ('s', n, kvar, key, value) symbolic runs of assignments."""
    __slots__ = ('f', 'pytype', 'default')

    def __init__(self, log=(), pytype=dict):
        self.f = C.newD()
        self.f['log'] = tuple(log)
        self.pytype = pytype

    @property
    def log(self):
        return self.f['log']

    def __repr__(self):
        return 'SDict%r' % (self.log,)


class SStream(object):
    """io.BytesIO / a readable binary file over immutable content."""
    __slots__ = ('f',)

    def __init__(self, data, pos=0):
        self.f = C.newD()
        self.f['data'] = data
        self.f['pos'] = pos

    def __repr__(self):
        return 'SStream(%r @ %s)' % (self.f['data'], self.f['pos'])


class View(object):
    """A list-like view with an opaque source: dict.values() of a log, a slice of a symbolic list, ..."""
    __slots__ = ('op', 'args')

    def __init__(self, op, args):
        self.op, self.args = op, tuple(args)


class Havoc(object):
    """Placeholder of a value of unknown kind; using it is unsupported."""
    def __init__(self, why):
        self.why = why


# ---------------------------------------------------------------------------------------------- substitution
def has_var(v, names):
    """does the value mention one of the given z3 constants (set of ids)?"""
    found = [False]

    def zwalk(e, seen):
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in names:
                found[0] = True
                return
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            st.extend(x.children())
    seen = set()
    vseen = set()

    def walk(v):
        if found[0] or v is None or isinstance(v, (int, str, bytes, float)):
            return
        if is_sym(v):
            zwalk(v, seen)
            return
        if id(v) in vseen:
            return
        vseen.add(id(v))
        for ch in children(v):
            walk(ch)
    walk(v)
    return found[0]


def children(v):
    if isinstance(v, SBytes):
        for s in v.segs:
            for x in s[1:]:
                if not isinstance(x, Base):
                    yield x
    elif isinstance(v, SStr):
        for p in v.parts:
            yield p
    elif isinstance(v, PFmt):
        yield v.val
    elif isinstance(v, PDec):
        yield v.data
    elif isinstance(v, PSel):
        yield v.key
        yield v.default
    elif isinstance(v, PIte):
        yield v.c
        yield v.a
        yield v.b
    elif isinstance(v, PRep):
        yield v.n
        yield v.body
    elif isinstance(v, PJoin):
        yield v.sep
        for g, s in v.items:
            yield g
            yield s
    elif isinstance(v, (PApp, Term, View)):
        for a in v.args:
            yield a
    elif isinstance(v, SEnum):
        yield v.val
    elif isinstance(v, SObj):
        for x in v.f.values():
            yield x
        if v.base is not None:
            yield v.base
    elif isinstance(v, SList):
        for s in v.segs:
            for x in s[1:]:
                yield x
    elif isinstance(v, SDict):
        for s in v.log:
            for x in s[1:]:
                yield x
    elif isinstance(v, SStream):
        yield v.f['data']
        yield v.f['pos']
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield x
    elif isinstance(v, dict):
        for k, x in v.items():
            yield k
            yield x


def subst(v, pairs, memo=None):
    """Copy of a value with z3 constants replaced."""
    if memo is None:
        memo = {}
    if v is None or isinstance(v, (int, str, bytes, float)):
        return v
    if is_sym(v):
        r = zsub(v, pairs)
        if is_sint(r):
            n = norm(r)
            ent = _bits.get(v.get_id())
            if ent is not None and ent[0].eq(v) and is_sym(n) and n.get_id() not in _bits:
                set_bits(n, [subst(b, pairs) for b in ent[1]])
            return n
        if is_sbool(r):
            return normb(r)
        return r
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, (SObj, SList, SDict, SStream)):
        if not has_var(v, {a.get_id() for a, _ in pairs}):
            return v

    def go(x):
        return subst(x, pairs, memo)
    if isinstance(v, SBytes):
        r = mkbytes([tuple([s[0]] + [x if isinstance(x, Base) else go(x) for x in s[1:]]) for s in v.segs])
    elif isinstance(v, SStr):
        r = mkstr([go(p) for p in v.parts])
    elif isinstance(v, PFmt):
        r = v.__class__(v.spec, go(v.val))
        if isinstance(r.val, int) and not isinstance(r.val, bool):
            r = format(r.val, r.spec)
    elif isinstance(v, PDec):
        r = PDec(v.enc, v.err, go(v.data))
    elif isinstance(v, PSel):
        r = PSel(v.table, go(v.key), go(v.default))
        if isinstance(r.key, int):
            r = dict(r.table).get(r.key, r.default)
    elif isinstance(v, PIte):
        c = go(v.c)
        r = go(v.a) if c is True else go(v.b) if c is False else PIte(c, go(v.a), go(v.b))
    elif isinstance(v, PRep):
        r = PRep(go(v.n), v.k, go(v.body))
    elif isinstance(v, PJoin):
        r = PJoin(go(v.sep), [(go(g), go(s)) for g, s in v.items])
    elif isinstance(v, PApp):
        r = PApp(v.name, [go(a) for a in v.args])
    elif isinstance(v, Term):
        r = Term(v.op, [go(a) for a in v.args], v.pytype)
    elif isinstance(v, View):
        r = View(v.op, [go(a) for a in v.args])
    elif isinstance(v, SEnum):
        r = SEnum(v.cls, go(v.val))
        if isinstance(r.val, int):
            r = v.cls(r.val)
    elif isinstance(v, SObj):
        r = SObj(v.cls)
        memo[id(v)] = (r, v)
        for k, x in v.f.items():
            r.f[k] = go(x)
        r.base = go(v.base)
        return r
    elif isinstance(v, SList):
        r = SList((), v.pytype)
        r.f['segs'] = tuple((s[0],) + tuple(go(x) for x in s[1:]) for s in v.segs)
    elif isinstance(v, SDict):
        r = SDict((), v.pytype)
        r.f['log'] = tuple((s[0],) + tuple(go(x) for x in s[1:]) for s in v.log)
    elif isinstance(v, SStream):
        r = SStream(go(v.f['data']), go(v.f['pos']))
    elif isinstance(v, tuple) and type(v) is tuple:
        r = tuple(go(x) for x in v)
    elif isinstance(v, tuple):
        r = type(v)(*[go(x) for x in v])
    else:
        r = v
    memo[id(v)] = (r, v)
    return r


# ---------------------------------------------------------------------------------------------- encodings into z3
_lits = {}
_opaque = {}


def _lit_axiom(app, name):
    rank = z3.Function('strrank', StrS, IntS)
    return [rank(app) == int(name.split('!')[1])]


def enc_str(s):
    """A z3 term of sort PyStr for a text value (equal values with equal terms; literals are kept apart)."""
    if isinstance(s, str):
        if s not in _lits:
            c = z3.Const('strlit!%d' % len(_lits), StrS)
            _lits[s] = (c, z3.IntVal(len(_lits)))
        return _lits[s][0]
    ts = [enc_part(p) for p in s.parts]
    t = ts[-1]
    for x in reversed(ts[:-1]):
        t = z3.Function('strcat', StrS, StrS, StrS)(x, t)
    return t


def lit_distinct():
    """Axiom: distinct literals are distinct values (by a ranking function)."""
    rank = z3.Function('strrank', StrS, IntS)
    return [rank(c) == k for c, k in _lits.values()]


def enc_part(p):
    if isinstance(p, str):
        return enc_str(p)
    if isinstance(p, PFmt):
        if is_sym(p.val):
            return z3.Function('strfmt!%s' % p.spec, IntS, StrS)(p.val)
    if isinstance(p, PDec):
        b = p.data
        if isinstance(b, SBytes) and len(b.segs) == 1 and b.segs[0][0] == 'sl':
            _, base, off, ln = b.segs[0]
            return z3.Function('strdec!%s!%s!%s' % (p.enc, p.err, base.name), IntS, IntS, StrS)(iv(off), iv(ln))
    if isinstance(p, PApp) and all(isinstance(a, (SStr, str)) for a in p.args):
        f = z3.Function('strapp!%s' % p.name, *([StrS] * len(p.args) + [StrS]))
        return f(*[enc_str(a) for a in p.args])
    if isinstance(p, PApp) and not p.args:
        return z3.Const('strconst!%s' % p.name, StrS)
    if isinstance(p, PApp) and all(is_sint(a) or type(a) is int for a in p.args):
        f = z3.Function('strapp!%s' % p.name, *([IntS] * len(p.args) + [StrS]))
        return f(*[iv(a) for a in p.args])
    if isinstance(p, PIte):
        return z3.If(p.c, enc_str(p.a), enc_str(p.b))
    if isinstance(p, PSel):
        t = enc_str(p.default)
        for k, v in p.table:
            t = z3.If(zbool(int_eq(p.key, k)), enc_str(v), t)
        return t
    key = skey(p)
    if key not in _opaque:
        _opaque[key] = z3.Const('stropaque!%d' % len(_opaque), StrS)
    return _opaque[key]


def enc_bytes(b):
    if isinstance(b, (bytes, bytearray)):
        return z3.Const('byteslit!%s' % bytes(b).hex(), BytS)
    ts = []
    for s in b.segs:
        if s[0] == 'sl':
            ts.append(z3.Function('bytesl!%s' % s[1].name, IntS, IntS, BytS)(iv(s[2]), iv(s[3])))
        elif s[0] == 'lit':
            ts.append(enc_bytes(s[1]))
        elif s[0] == 'int':
            ts.append(z3.Function('bytesint!%d!%s' % (s[2], s[3]), IntS, BytS)(iv(s[1])))
        elif s[0] == 'enc':
            ts.append(z3.Function('bytesenc!%s' % s[1], StrS, BytS)(enc_str(s[2])))
        else:
            key = skey(s)
            if key not in _opaque:
                _opaque[key] = z3.Const('bytesopaque!%d' % len(_opaque), BytS)
            ts.append(_opaque[key])
    t = ts[-1]
    for x in reversed(ts[:-1]):
        t = z3.Function('bytescat', BytS, BytS, BytS)(x, t)
    return t


def skey(v):
    """A structural key of a value (bound variables are kept by name: used for congruence of identical shapes only)."""
    if is_sym(v):
        return ('z', v.sexpr())
    if v is None or isinstance(v, (int, str, bytes, float, bool)):
        return (type(v).__name__, v)
    if isinstance(v, Base):
        return ('base', v.name)
    if isinstance(v, (SBytes,)):
        return ('SBytes',) + tuple(skey(x) for x in v.segs)
    if isinstance(v, PRep):
        bv = z3.Const('bound!', IntS)
        return ('PRep', skey(v.n), skey(subst(v.body, [(v.k, bv)])))
    if isinstance(v, SList):
        out = []
        for s in v.segs:
            if s[0] == 's':
                bv = z3.Const('bound!', IntS)
                out.append(('s', skey(s[1]), skey(subst(s[3], [(s[2], bv)]))))
            else:
                out.append(('e', skey(s[1]), skey(s[2])))
        return ('SList',) + tuple(out)
    if isinstance(v, (tuple, list)):
        return ('t',) + tuple(skey(x) for x in v)
    if isinstance(v, PSel):
        return ('PSel', v.table, skey(v.key), skey(v.default))
    if isinstance(v, (Part, SStr, SEnum, Term, View)):
        extra = ()
        if isinstance(v, PFmt):
            extra = (v.spec,)
        elif isinstance(v, PDec):
            extra = (v.enc, v.err)
        elif isinstance(v, PApp):
            extra = (v.name,)
        elif isinstance(v, Term):
            extra = (v.op,)
        elif isinstance(v, View):
            extra = (v.op,)
        elif isinstance(v, SEnum):
            extra = (v.cls.__name__,)
        return (type(v).__name__,) + extra + tuple(skey(c) for c in children(v))
    if isinstance(v, (SObj, SDict)):
        return (type(v).__name__,) + tuple(skey(c) for c in children(v))
    return ('obj', id(v))


# ---------------------------------------------------------------------------------------------- equality conditions
DIGITS = set('0123456789')


def fmt_first_chars(spec):
    """Superset of the characters a formatted integer can start with / consist of."""
    t = spec[-1:] if spec else 'd'
    if t in 'dn,' or t.isdigit():
        return set('0123456789-, ')
    if t == 'x':
        return set('0123456789abcdef- ,x')
    if t == 'X':
        return set('0123456789ABCDEF- ,X')
    return None


def definitely_ne(a, b):
    """True only if the two texts can be seen to differ."""
    pa, pb = str_parts(a), str_parts(b)
    for x, y in ((pa, pb), (pb, pa)):
        if not x and any(isinstance(p, str) or isinstance(p, PFmt) for p in y):
            return True
    if not pa or not pb:
        return False
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], str) and isinstance(pb[0], str):
        return pa[0] != pb[0]
    fa, fb = pa[0], pb[0]
    if isinstance(fa, str) and isinstance(fb, str):
        n = min(len(fa), len(fb))
        if fa[:n] != fb[:n]:
            return True
    for x, y, py in ((fa, fb, pb), (fb, fa, pa)):
        if isinstance(x, PFmt) and is_sint(x.val) and isinstance(y, str):
            cs = fmt_first_chars(x.spec)
            if cs is not None and y[0] not in cs:
                return True
            if cs is not None and len(pa) == 1 and len(pb) == 1 and any(ch not in cs for ch in y):
                return True
    la, lb = pa[-1], pb[-1]
    if isinstance(la, str) and isinstance(lb, str):
        n = min(len(la), len(lb))
        if n and la[-n:] != lb[-n:]:
            return True
    return False


def nonempty(s):
    """Exact condition for a text to be non-empty."""
    if isinstance(s, str):
        return bool(s)
    conds = []
    for p in s.parts:
        if isinstance(p, str):
            return True
        if isinstance(p, PFmt):
            if is_sint(p.val):
                return True
            if isinstance(p.val, (int, float)):
                return True
        if isinstance(p, PDec):
            n = blen(p.data)
            conds.append(normb(iv(n) > 0))
        elif isinstance(p, PSel):
            conds.extend(zand(int_eq(p.key, k), nonempty(v)) for k, v in p.table if nonempty(v) is not True)
            full = [int_eq(p.key, k) for k, v in p.table if nonempty(v) is not True]
            e = nonempty(p.default)
            if e is True:
                # everything but the empty entries
                conds.append(znot(zor(*full)) if full else True)
            else:
                conds.append(zor(*[int_eq(p.key, k) for k, v in p.table if nonempty(v) is True]))
                conds.append(zand(e, *[znot(int_eq(p.key, k)) for k, _ in p.table]))
        elif isinstance(p, PIte):
            conds.append(zite(p.c, nonempty(p.a), nonempty(p.b)))
        elif isinstance(p, PJoin):
            its = [(g, t) for g, t in p.items]
            conds.append(zor(*([zand(g, nonempty(t)) for g, t in its] +
                               ([zand(its[i][0], its[j][0]) for i in range(len(its)) for j in range(i)]
                                if p.sep else []))))
        else:
            conds.append(enc_str(SStr([p])) != enc_str(''))
    return zor(*conds)


def str_eq_cond(a, b):
    """A z3 condition for a == b used to decide branches (exact, up to the uninterpreted text operations)."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a is b or definitely_eq(a, b):
        return True
    if definitely_ne(a, b):
        return False
    if isinstance(a, str) and a == '':
        return znot(nonempty(b))
    if isinstance(b, str) and b == '':
        return znot(nonempty(a))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SStr) and len(x.parts) == 1:
            p = x.parts[0]
            if isinstance(p, PIte):
                return zite(p.c, str_eq_cond(p.a, y), str_eq_cond(p.b, y))
            if isinstance(p, PSel):
                if isinstance(y, SStr) and len(y.parts) == 1 and isinstance(y.parts[0], PSel):
                    return sel_eq_cond(p, y.parts[0])
                conds = []
                for k, v in p.table:
                    e = str_eq_cond(v, y)
                    if e is not False:
                        conds.append(zand(int_eq(p.key, k), e))
                e = str_eq_cond(p.default, y)
                if e is not False:
                    conds.append(zand(e, *[znot(int_eq(p.key, k)) for k, _ in p.table]))
                return zor(*conds)
    # strip common literal ends
    pa, pb = list(str_parts(a)), list(str_parts(b))
    if len(pa) > 1 or len(pb) > 1:
        pa, pb = strip_common(pa, pb)
        if not pa and not pb:
            return True
        na, nb = mkstr(pa), mkstr(pb)
        if len(str_parts(na)) + len(str_parts(nb)) < len(str_parts(a)) + len(str_parts(b)):
            return str_eq_cond(na, nb)
        if definitely_ne(na, nb):
            return False
        a, b = na, nb
        # tables in the middle: distribute
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SStr):
                for i, p in enumerate(x.parts):
                    if isinstance(p, PIte):
                        return zite(p.c, str_eq_cond(mkstr(x.parts[:i] + (p.a,) + x.parts[i + 1:]), y),
                                    str_eq_cond(mkstr(x.parts[:i] + (p.b,) + x.parts[i + 1:]), y))
    if isinstance(a, SStr) and isinstance(b, SStr) and len(a.parts) == 1 and len(b.parts) == 1:
        p, q = a.parts[0], b.parts[0]
        if isinstance(p, PFmt) and isinstance(q, PFmt) and p.spec == q.spec and is_sint(p.val) and is_sint(q.val):
            return normb(p.val == q.val)
    return normb(enc_str(a) == enc_str(b))


def sel_eq_cond(p, q):
    tp, tq = dict(p.table), dict(q.table)
    same_key = normb(iv(p.key) == iv(q.key))
    if same_key is True or C.proves(same_key):
        conds = []
        for k in sorted(set(tp) | set(tq)):
            e = str_eq_cond(tp.get(k, p.default), tq.get(k, q.default))
            if e is not True:
                conds.append(zor(znot(int_eq(p.key, k)), e))
        e = str_eq_cond(p.default, q.default)
        if e is not True:
            conds.append(zor(e, *[int_eq(p.key, k) for k in set(tp) | set(tq)]))
        return zand(*conds)
    conds = []
    y = SStr([q])
    for k, v in p.table:
        e = str_eq_cond(v, y)
        if e is not False:
            conds.append(zand(int_eq(p.key, k), e))
    e = str_eq_cond(p.default, y)
    if e is not False:
        conds.append(zand(e, *[znot(int_eq(p.key, k)) for k, _ in p.table]))
    return zor(*conds)


def strip_common(pa, pb):
    pa, pb = list(pa), list(pb)
    for end in (0, -1):
        while pa and pb:
            x, y = pa[end], pb[end]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if end == 0:
                    if x[:n] != y[:n]:
                        return pa, pb
                    x, y = x[n:], y[n:]
                else:
                    if x[-n:] != y[-n:]:
                        return pa, pb
                    x, y = x[:len(x) - n], y[:len(y) - n]
                if x:
                    pa[end] = x
                else:
                    pa.pop(end)
                if y:
                    pb[end] = y
                else:
                    pb.pop(end)
                continue
            if not isinstance(x, str) and not isinstance(y, str) and part_eq_syntactic(x, y):
                pa.pop(end)
                pb.pop(end)
                continue
            break
    return pa, pb


def part_eq_syntactic(x, y):
    if type(x) is not type(y):
        return False
    return skey(x) == skey(y)


def definitely_eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, SStr) and len(a.parts) != len(b.parts):
        return False
    return skey(a) == skey(b)


def bytes_eq_cond(a, b):
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    la, lb = blen(a), blen(b)
    le = int_eq(la, lb)
    if le is False:
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (bytes, bytearray)):
            if len(x) == 0:
                return le
            if le is not True and not C.proves(le):
                # the lengths may differ: decide the length first
                if not C.branch(le):
                    return False
                le = True
            conds = [le]
            pos = 0
            for s in bytes_segs(y):
                n = seg_len(s)
                if not isinstance(n, int):
                    n2 = C_const(n)
                    if n2 is None:
                        if len(x) > 8:
                            raise Unsupported('comparison of bytes of symbolic length with a literal')
                        n2 = within(n, 0, len(x) - pos)     # (the lengths agree)
                    n = n2
                conds.append(int_eq(int_from(mkbytes([force_len(s, n)]), 'little'),
                                    int.from_bytes(x[pos:pos + n], 'little')))
                pos += n
            return zand(*conds)
    sa, sb = bytes_segs(a), bytes_segs(b)
    if len(sa) == len(sb):
        conds = []
        for x, y in zip(sa, sb):
            if x[0] != y[0]:
                break
            if x[0] == 'sl' and x[1] is y[1]:
                d = zand(int_eq(x[2], y[2]), int_eq(x[3], y[3]))
                if d is not True:
                    break
            elif skey(x) != skey(y):
                break
        else:
            return True
    return normb(enc_bytes(a) == enc_bytes(b))


def force_len(s, n):
    if s[0] == 'sl':
        return ('sl', s[1], s[2], n)
    if s[0] == 'rep' and isinstance(s[3], bytes) and len(s[3]) == 1:
        return ('lit', s[3] * n)
    return s


def C_const(t):
    """The only value a term can take on this path, if there is one."""
    if isinstance(t, int):
        return t
    m = C.mark()
    C.solver.push()
    try:
        if C.solver.check() != z3.sat:
            return None
        try:
            v = C.solver.model().eval(t, model_completion=True)
        except z3.Z3Exception:
            return None
        if not z3.is_int_value(v):
            return None
        v = v.as_long()
    finally:
        C.solver.pop()
        C.undo(m)
    return v if C.proves(t == v) else None


def install_axioms():
    C_AX['strlit'] = _lit_axiom
    C.app_axioms.update(C_AX)


install_axioms()
