"""Filter rules."""
from dv.generic import Generic, sym_bytes, sym_int, sym_text
from specs import rules, tables as T
from props.equal_props import sym_member
from props.registry import prop


def pick(rng, table):
    k = rng.randrange(4)
    if k == 0:
        return rng.choice(sorted(table))
    if k == 1:
        return rng.choice((0, 1, -1, 5, 40000, rng.getrandbits(17), rng.choice(sorted(table)) + 1))
    if rng.random() < 0.15:
        return rng.choice((True, False, 1.0, 2.0, 1.5, 0.25, None, b'IS', (1,), float(rng.choice(sorted(table))), 10 ** 30, -2.5))
    name = rng.choice(sorted(table.values()))
    name = ''.join(rng.choice((ch.upper(), ch.lower())) for ch in name)
    if k == 3:
        name = rng.choice((name + ' ', name[:-1], '', name + 'x', name.replace('_', ' '), name))
    return name


@prop('P36')
def rule(run):
    def sample(rng):
        return (pick(rng, T.COLUMN), pick(rng, T.RULE_RELATION), rng.choice(('', 'a', '64-bit', '5')), pick(rng, T.RULE_ACTION))
    num, txt = lambda n: sym_int(n), lambda n: sym_text(n)
    ths = []
    for kc, c in (('number', num), ('name', txt)):
        for kr, r in (('number', num), ('name', txt)):
            for ka, a in (('number', num), ('name', txt)):
                if [kc, kr, ka].count('name') > 1:
                    continue
                ths.append(Generic('rule from column %s, relation %s, action %s' % (kc, kr, ka), rules.spec_rule, rules.impl_rule,
                                   lambda c=c, r=r, a=a: [c('column'), r('relation'), sym_text('value'), a('action')], sample))
    for v in (None, 5, b'64-bit', ('a', ), 1.5):
        ths.append(Generic('rule with value %r' % (v,), rules.spec_rule, rules.impl_rule,
                           lambda v=v: [sym_int('column'), sym_int('relation'), v, sym_int('action')],
                           lambda rng, v=v: sample(rng)[:2] + (v,) + sample(rng)[3:], expect=False))
    for k, what in enumerate(('column', 'relation', 'action')):
        for v in (None, 0.25, 1.5, 1.0, True, b'IS', (1,), 2.75, [], -0.5):
            def make(k=k, v=v):
                args = [sym_member('column', sorted(T.COLUMN)), sym_member('relation', sorted(T.RULE_RELATION)), sym_text('value'),
                        sym_member('action', sorted(T.RULE_ACTION))]
                args[(0, 1, 3)[k]] = v
                return args
            ths.append(Generic('rule with %s %r' % (what, v), rules.spec_rule, rules.impl_rule, make, sample, expect=False))
    ths.append(Generic('rule from a column name alone', rules.spec_rule, rules.impl_rule,
                       lambda: [sym_text('column'), 0, 'v', 1], lambda rng: sample(rng)))
    ths.append(Generic('rule from enum values, numbers and names', rules.spec_enum, rules.impl_enum,
                       lambda: [sym_member('column', sorted(T.COLUMN)), sym_member('relation', sorted(T.RULE_RELATION)),
                                sym_member('action', sorted(T.RULE_ACTION))],
                       lambda rng: tuple(rng.choice(sorted(t)) for t in (T.COLUMN, T.RULE_RELATION, T.RULE_ACTION))))
    run.prove(ths)
