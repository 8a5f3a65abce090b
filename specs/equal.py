"""Specification of equality and hashing of the value types."""
from collections import OrderedDict

from procmon_parser import Rule, Column, RuleRelation, RuleAction
from procmon_parser.logs import Event, Module, Process
from dv.api import need

TYPES = {'Module': Module, 'Process': Process, 'Event': Event, 'Rule': Rule}


def make(kind, values):
    return TYPES[kind](**values)


def spec_same(kind, a, b):
    """equal when every attribute is"""
    equal = True
    for k in a:
        if a[k] != b[k]:
            equal = False
    return equal, not equal


def impl_same(kind, a, b):
    x, y = make(kind, a), make(kind, b)
    return x == y, x != y


def spec_hash(kind, a, b):
    for k in a:
        need(a[k] == b[k])
    return True


def impl_hash(kind, a, b):
    return hash(make(kind, a)) == hash(make(kind, b))


def spec_used(kind, a, b):
    return spec_same(kind, a, b) + spec_same(kind, a, b) + (True, False, True)


def impl_used(kind, a, b):
    """comparing, hashing and printing change nothing, and attributes may be assigned any time"""
    x, y = make(kind, a), make(kind, b)
    first = (x == y, x != y)
    hash(x)
    if kind != 'Event':
        str(x)
        repr(x)
    second = (x == y, x != y)
    for k in b:
        setattr(x, k, getattr(y, k))
    return first + second + (x == y, x != y, hash(x) == hash(y))


def spec_other(kind, a, other):
    return False, True, False, True


def impl_other(kind, a, other):
    x = make(kind, a)
    return x == other, x != other, other == x, other != x


def event_of(process, module, values, stack, detail):
    d = dict(values)
    d['process'] = Process(modules=[Module(**module)], **process)
    d['stacktrace'] = stack
    d['details'] = OrderedDict([('Length', detail)])
    return Event(**d)


def spec_events(a, b):
    equal = True
    for x, y in zip(a[:3], b[:3]):
        for k in x:
            if x[k] != y[k]:
                equal = False
    if a[3] != b[3] or a[4] != b[4]:
        equal = False
    return equal, not equal


def impl_events(a, b):
    x, y = event_of(*a), event_of(*b)
    return x == y, x != y


def spec_events_hash(a, b):
    e = spec_events(a, b)
    need(e[0])
    return True


def impl_events_hash(a, b):
    return hash(event_of(*a)) == hash(event_of(*b))
