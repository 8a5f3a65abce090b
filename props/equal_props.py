"""Equality and hashing."""
from dv.generic import Generic, sym_int, sym_text
from procmon_parser import Rule, Column, RuleRelation, RuleAction
from procmon_parser.logs import Event, Module, Process
from specs import equal, tables as T
from props.registry import prop

FIELDS = {
    'Module': dict(base_address='int', size='int', path='text', version='text', company='text', description='text',
                   timestamp='int'),
    'Process': dict(pid='int', parent_pid='int', authentication_id='int', session='int', virtualized='int',
                    is_process_64bit='bool', integrity='text', user='text', process_name='text', image_path='text',
                    command_line='text', company='text', version='text', description='text', start_time='int', end_time='int'),
    'Event': dict(tid='int', event_class='class', operation='text', duration='int', date_filetime='int', result='int',
                  category='text', path='text'),
    'Rule': dict(column='column', relation='relation', value='text', action='action'),
}
ENUM = {'class': [1, 2, 3, 4, 5], 'column': sorted(T.COLUMN), 'relation': sorted(T.RULE_RELATION), 'action': sorted(T.RULE_ACTION)}


def values(kind):
    out = {}
    for k, t in sorted(FIELDS[kind].items()):
        if t == 'int':
            v = sym_int(k, 0, 1 << 64)
        elif t == 'text':
            v = sym_text(k)
        elif t == 'bool':
            v = sym_int(k, 0, 2) == 1
        else:
            v = sym_member(k, ENUM[t])
        out[k] = v
    return out


def oddly(kind, how):
    """values whose numbers are of another type"""
    out = values(kind)
    for k, t in sorted(FIELDS[kind].items()):
        if t == 'int':
            out[k] = {'bool': sym_int(k, 0, 2) == 1, 'none': None, 'float': 1.0}[how]
        elif t == 'bool' and how == 'float':
            out[k] = 1.0
    return out


def sym_member(name, members):
    from dv.core import C
    import z3
    v = sym_int(name)
    C.assume(z3.Or(*[v == m for m in members]))
    return v


def sample(rng, kind, odd=True):
    out = {}
    for k, t in sorted(FIELDS[kind].items()):
        if t == 'int':
            v = rng.choice((0, 1, 2, 2 ** 32, 2 ** 61 - 1, rng.getrandbits(64))) if not odd else rng.choice((0, 1, True, False, 1.0, 0.0, None, 2, 2 ** 32, 2 ** 61 - 1, rng.getrandbits(64)))
        elif t == 'text':
            v = rng.choice(('', 'a', 'A', 'b', ' a', 'a\0', '\ud800'))
        elif t == 'bool':
            v = rng.choice((True, False, 0, 1, 1.0))
        else:
            v = rng.choice(ENUM[t])
        out[k] = v
    return out


def pair(rng, kind, odd=True):
    a = sample(rng, kind, odd)
    b = dict(a)
    for _ in range(rng.choice((0, 0, 1, 1, 1, 2))):
        k = rng.choice(sorted(b))
        b[k] = sample(rng, kind, odd)[k]
    return a, b


OTHERS = [None, 0, '', (), 'Rule', [], {}]


@prop('P31')
def equality(run):
    ths = []
    for kind in ('Module', 'Process', 'Rule'):
        mk = lambda kind=kind: [kind, values(kind), values(kind)]
        sm = lambda rng, kind=kind: (kind,) + pair(rng, kind)
        ths.append(Generic('equality of %s values' % kind, equal.spec_same, equal.impl_same, mk, sm))
        ths.append(Generic('%s values that were used before' % kind, equal.spec_used, equal.impl_used, mk,
                           lambda rng, kind=kind: (kind,) + pair(rng, kind, False)))
        for how in ('bool', 'none', 'float') if kind != 'Rule' else ():
            odd = lambda kind=kind, how=how: [kind, oddly(kind, how), values(kind)]
            ths.append(Generic('equality of %s values with %s attributes' % (kind, how), equal.spec_same, equal.impl_same, odd, sm))
            ths.append(Generic('hash of equal %s values with %s attributes' % (kind, how), equal.spec_hash, equal.impl_hash, odd, sm,
                               expect=how == 'bool'))
        ths.append(Generic('hash of equal %s values' % kind, equal.spec_hash, equal.impl_hash, mk, sm))

    def event():
        return (values('Process'), values('Module'), values('Event'), [sym_int('frame')], sym_int('detail'))

    def some(rng):
        p, m, e = pair(rng, 'Process'), pair(rng, 'Module'), pair(rng, 'Event')
        k = rng.randrange(6)
        one = lambda i, q: q[i] if k != i else q[1]
        a = (p[0], m[0], e[0], [rng.randrange(2)], rng.randrange(2))
        b = [p[1] if k == 0 else p[0], m[1] if k == 1 else m[0], e[1] if k == 2 else e[0], list(a[3]), a[4]]
        if k == 3:
            b[3] = [rng.randrange(2) for _ in range(rng.randrange(3))]
        if k == 4:
            b[4] = rng.randrange(2)
        return a, tuple(b)
    ths.append(Generic('equality of Event values', equal.spec_events, equal.impl_events, lambda: [event(), event()], some))
    ths.append(Generic('hash of equal Event values', equal.spec_events_hash, equal.impl_events_hash, lambda: [event(), event()], some))
    for kind in ('Module', 'Process', 'Event', 'Rule'):
        for other in OTHERS + [Module(), Process(), Event(event_class=1), Rule()]:
            if type(other).__name__ == kind:
                continue
            ths.append(Generic('%s and %s' % (kind, type(other).__name__ + ('' if other else ' (empty)')), equal.spec_other, equal.impl_other,
                               lambda kind=kind, other=other: [kind, values(kind), other],
                               lambda rng, kind=kind, other=other: (kind, sample(rng, kind), other)))
    run.prove(ths)
