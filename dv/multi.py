"""The invariant of the loop of read_utf16_multisz: the one loop of the package whose state has no closed form.

The state after k units of a block [o, o + ln) is defined by recursion on k, the way dv.api.multi_sz goes through the block
(units at and behind its end count as NUL):

    ended(0) = False   start(0) = 0      count(0) = 0
    a NUL:     ended(k+1) = True    start(k+1) = k + 1      count(k+1) = count(k) + (0 if ended(k) else 1)
    else:      ended(k+1) = False   start(k+1) = start(k)   count(k+1) = count(k)
    text(count(k)) = the units from start(k) to k, where unit k is a NUL and not ended(k)

The loop under proof must keep, for every variable it carries: a truth value is ended(k) (or its opposite, if it begins as True), bytes are the units from start(k) to k,
a list is text(0), ..., text(count(k) - 1), the position of the stream is behind unit k - 1 (but not behind the end).
"""
import z3

from . import loops
from .core import C, BoolS, IntS, ForallFact, Unsupported, is_sbool, is_sint, iv
from .values import PApp, PDec, SBytes, SList, SStr, add, mkbytes, norm, normb, skey, zbool

proving = False         # is the contract being proved?
current = None          # its block


class Block(object):
    def __init__(self, base, o, ln):
        self.base, self.o, self.ln = base, iv(o), iv(ln)
        f = lambda name, sort: z3.Function('msz%s!%s' % (name, base.name), IntS, IntS, IntS, sort)
        self.start_f, self.count_f, self.ended_f = f('start', IntS), f('count', IntS), f('ended', BoolS)

    def start(self, k):
        return self.start_f(self.o, self.ln, iv(k))

    def count(self, k):
        return self.count_f(self.o, self.ln, iv(k))

    def ended(self, k):
        return self.ended_f(self.o, self.ln, iv(k))

    def nul(self, k):
        from .values import bytes_eq_cond
        return z3.Or(2 * iv(k) >= self.ln, zbool(bytes_eq_cond(self.piece(k, k + 1), b'\0\0')))

    def piece(self, a, b):
        return mkbytes([('sl', self.base, self.o + 2 * iv(a), norm(2 * (iv(b) - iv(a))))])

    def text(self, a, b):
        return SStr([PDec('utf-16-le', 'replace', self.piece(a, b))])

    def segs(self, n):
        kk = C.fresh('k')
        return (('s', n, kk, SStr([PApp('msztext!%s' % self.base.name, (self.o, self.ln, kk))])),)

    def stop(self, k):
        return z3.And(self.nul(k), self.ended(k))

    def first(self):
        return z3.And(z3.Not(self.ended(0)), self.start(0) == 0, self.count(0) == 0)

    def step(self, k):
        k = iv(k)
        return z3.If(self.nul(k), z3.And(self.ended(k + 1), self.start(k + 1) == k + 1,
                                         self.count(k + 1) == self.count(k) + z3.If(self.ended(k), 0, 1)),
                     z3.And(z3.Not(self.ended(k + 1)), self.start(k + 1) == self.start(k), self.count(k + 1) == self.count(k)))

    def lemma(self, k):
        k = iv(k)
        return z3.And(self.start(k) >= 0, self.start(k) <= k, self.count(k) >= 0, self.count(k) <= k,
                      self.ended(k) == z3.And(self.start(k) == k, k > 0), z3.Implies(z3.And(2 * k > self.ln), self.ended(k)))

    def known(self, k):
        """what holds of any k >= 0: the definition of the next state, and the lemma (proved by induction)"""
        return z3.And(self.first(), z3.Implies(iv(k) >= 0, z3.And(self.step(k), self.lemma(k))))

    def induction(self):
        """the lemma follows from the definition"""
        k = C.fresh('k')
        pre = z3.And(self.ln >= 0, self.ln % 2 == 0)
        for what in (z3.And(pre, self.first(), z3.Not(self.lemma(z3.IntVal(0)))),
                     z3.And(pre, k >= 0, self.step(k), self.lemma(k), z3.Not(self.lemma(k + 1)))):
            if C.check(what) != z3.unsat:
                raise Unsupported('the lemma about the units of a block is not inductive')

    def value(self):
        """what dv.api.multi_sz gives: the state where it stops (a second NUL in a row, or the end), and the rest if any"""
        e = C.fresh('e')
        n = self.ln / 2
        C.assume(z3.And(e >= 0, e <= n, z3.Implies(e < n, self.stop(e)), self.known(e)))
        k = C.fresh('k')
        C.add_fact(ForallFact(z3.IntVal(0), e, k, z3.Not(self.stop(k))))
        C.add_index(e)
        segs = self.segs(self.count(e))
        if C.branch(normb(self.start(e) < e)):
            segs += (('e', self.text(self.start(e), e), True),)
        return SList(segs)


class Given(loops.Form):
    """a variable of the loop, as the invariant has it"""

    def __init__(self, block, kind, v0):
        self.block, self.kind, self.v0 = block, kind, v0

    def plain(self, k):
        b = self.block
        if self.kind == 'ended':
            return b.ended(k)
        if self.kind == 'going':
            return z3.Not(b.ended(k))
        if self.kind == 'bytes':
            return b.piece(b.start(k), k)
        if self.kind == 'list':
            return b.segs(b.count(k))
        return norm(b.o + z3.If(2 * iv(k) <= b.ln, 2 * iv(k), b.ln))

    def at(self, k):
        b = self.block
        if isinstance(k, int) and k == 0:
            return self.v0
        if self.kind in ('list', 'pos') and C.branch(normb(2 * iv(k) > b.ln)):
            if self.kind == 'pos':
                return norm(b.o + b.ln)
            # (behind the end: the last text was ended by the end, or there was none to end)
            n = b.ln / 2
            C.assume(b.known(n))
            if not C.proves(iv(k) == n + 1):
                return self.plain(k)
            if C.branch(normb(b.ended(n))):
                return b.segs(b.count(n))
            return b.segs(b.count(n)) + (('e', b.text(b.start(n), n), True),)
        return norm(b.o + 2 * iv(k)) if self.kind == 'pos' else self.plain(k)

    trial = at

    def assumption(self, k):
        return self.block.known(k)

    def kept(self, rule, k, p, post, before):
        """is it the same at k + 1 after the iteration?"""
        b = self.block
        hyps = p.setup + list(p.conds) + [b.known(k), b.known(k + 1)]

        def holds(g):
            return C.prove_goal(g, [k], hyps)[0]

        def same(x, y):
            from .verify import goals
            return all(C.prove_goal(g.goal, [k] + list(g.idx), hyps + list(g.hyps))[0] for g in goals('invariant', x, y))
        if self.kind == 'ended':
            return (is_sbool(post) or isinstance(post, bool)) and holds(zbool(post) == b.ended(k + 1))
        if self.kind == 'going':
            return (is_sbool(post) or isinstance(post, bool)) and holds(zbool(post) != b.ended(k + 1))
        if self.kind == 'pos':
            return holds(iv(post) == self.plain(k + 1))
        if self.kind == 'bytes':
            return isinstance(post, (bytes, SBytes)) and same(post, self.plain(k + 1))
        added = post[len(before):]
        if len(before) > len(post) or any(x is not y and skey(x) != skey(y) for x, y in zip(before, post)):
            return False
        if not added:
            return holds(b.count(k + 1) == b.count(k))
        return len(added) == 1 and added[0][0] == 'e' and holds(z3.And(b.nul(k), z3.Not(b.ended(k)))) and \
            same(added[0][1], b.text(b.start(k), k))


def given(key, d, f, v0, cells):
    """the form of a variable of the loop under proof"""
    b = current
    if b is None:
        return None
    if isinstance(v0, bool) and v0 is False:
        return Given(b, 'ended', v0)
    if isinstance(v0, bool):
        return Given(b, 'going', v0)
    if isinstance(v0, (bytes, SBytes)) and v0 == b'':
        return Given(b, 'bytes', v0)
    if f == 'segs' and v0 == ():
        return Given(b, 'list', v0)
    if f == 'pos' and C.proves(iv(v0) == b.o):
        return Given(b, 'pos', v0)
    return None
