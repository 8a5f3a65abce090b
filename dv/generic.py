"""Theorems about a piece of the code called directly: for all arguments, spec(*args) and impl(*args) agree."""
import itertools
import os
import pickle
import random
import sys
import time

from .core import *
from .values import *
from . import models, handlers, loops, verify, api, interp
from .interp import INTERP as I
from . import session
from .session import native_outcome, native_check, parallel_search


class Generic(object):
    """make(): the symbolic arguments; sample(rng): concrete ones (both sides get their own copy through ``fresh``)."""

    def __init__(self, name, spec, impl, make, sample, expect=True, prepare=None):
        self.name, self.spec, self.impl, self.make, self.sample = name, spec, impl, make, sample
        self.expect = expect


def wrapped(v):
    """lists of symbolic values become lists of the verifier"""
    if isinstance(v, tuple):
        return tuple(wrapped(x) for x in v)
    if isinstance(v, list):
        return SList([('e', wrapped(x), True) for x in v])
    if isinstance(v, dict):
        return type(v)((k, wrapped(x)) for k, x in v.items())
    return v


def prove(pool, theorems, verbose=False):
    pool.where = 'direct'

    def pick():
        C.deadline = pool.deadline
        return theorems[C.choose([True] * len(theorems))] if len(theorems) > 1 else theorems[0]

    def picked(res, fr):
        t = res[1]
        pool.where = t.name
        P = verify.Prover(pool, verbose=verbose)
        args = [wrapped(a) for a in t.make()]
        P.product(t.name, lambda: I.call(t.spec, list(args)), lambda: I.call(t.impl, list(args)))
    C.explore_forked(pick, picked, pool)


def one(t, args):
    s = native_outcome(lambda: t.spec(*args))
    if s[0] in ('open', 'timeout'):
        return 0, None
    d = native_check(s, lambda: t.impl(*args))
    return 1, d


def search(theorems, seconds, seed):
    theorems = [t for t in theorems if t.sample]
    if not theorems:
        return None, 0

    first = [t for t in theorems if any(n.startswith(t.name) for n in session.PREFER)]

    def work(rng):
        t = rng.choice(first if first and rng.random() < 0.6 else theorems)
        args = t.sample(rng)
        c, d = one(t, args)
        if d is None:
            return c, None
        return c, dict(theorem=t.name, arguments=repr(args)[:4000], pickled=pickle.dumps(args).hex(), difference=d)
    return parallel_search(work, seconds, seed)


def replay(theorems, w):
    args = pickle.loads(bytes.fromhex(w['pickled']))
    for t in theorems:
        if t.name == w['theorem']:
            return one(t, args)[1]
    return 'the theorem is gone'


def exhaust(run, t, cases, bound, stands_for):
    """A bounded stand-in: t.spec and t.impl compared on every one of the listed argument tuples."""
    if not run.proving:
        run.replayers.append(([t], replay))
        return
    n, inside, samples = 0, 0, []
    for args in cases:
        n += 1
        c, d = one(t, args)
        inside += c
        if c and n % 97 == 5 and len(samples) < 3:
            samples.append(repr(args)[:600])
        if d is not None:
            run.bounds_failed.append(dict(theorem=t.name, arguments=repr(args)[:4000], pickled=pickle.dumps(args).hex(),
                                          difference=d))
            break
    run.bounded.append(dict(name=t.name, bound=bound, stands_for=stands_for, cases=n, compared=inside, samples=samples))


# ------------------------------------------------------------------------------------------------ makers
def sym_int(name, lo=None, hi=None):
    v = C.fresh(name)
    if lo is not None:
        C.assume(v >= lo)
    if hi is not None:
        C.assume(v < hi)
    return v


def sym_bytes(name='F', lo=0, hi=None):
    n = C.fresh('len')
    C._assert(n >= lo)
    if hi is not None:
        C._assert(n < hi)
    return SBytes([('sl', Base(name, n), 0, n)])


def sym_text(name='text'):
    """an arbitrary text"""
    return SStr([PDec('utf-16-le', 'replace', sym_bytes(name))])


def sym_texts(name='texts'):
    """an arbitrary list of texts"""
    n, k = C.fresh('count'), C.fresh('k')
    C._assert(n >= 0)
    return SList([('s', n, k, SStr([PApp('item!%s!%s' % (name, n), (k,))]))])


def sym_unicode(name='text', ends=True):
    """an arbitrary text that can be written as UTF-16 (all of them: it is given by its encoding); ``ends``: not with a NUL"""
    half = C.fresh('half')
    C._assert(half >= 0)
    seg = ('sl', Base(name, mul(2, half)), 0, mul(2, half))
    C._assert(valid_text('utf-16-le', seg))
    if ends:
        C._assert(z3.Or(half == 0, seg[1].fn('le2')(norm(2 * half - 2)) != 0))
    return SStr([PDec('utf-16-le', 'strict', SBytes([seg]))])


def sym_unicodes(n, k, name='texts', ends=True):
    """text k of n arbitrary ones that can be written as UTF-16: any pieces of any bytes that are encodings of texts"""
    pool, size = sym_bytes(name), None
    base, size = pool.segs[0][1], pool.segs[0][3]
    off, half = z3.Function('off!%s!%s' % (name, n), IntS, IntS), z3.Function('half!%s!%s' % (name, n), IntS, IntS)
    o, h = off(k), half(k)
    seg = ('sl', base, o, mul(2, h))
    ok = z3.And(o >= 0, h >= 0, o + 2 * h <= iv(size), valid_text('utf-16-le', seg))
    if ends:
        ok = z3.And(ok, z3.Or(h == 0, base.fn('le2')(norm(o + 2 * h - 2)) != 0))
    C.add_fact(ForallFact(z3.IntVal(0), iv(n), k, ok))
    return SStr([PDec('utf-16-le', 'strict', SBytes([seg]))])
