"""Specification of filter rules: how they are built and the number stored with them."""
from procmon_parser import Rule
from dv.api import need
from specs import tables as T

KINDS = {'column': T.COLUMN, 'relation': T.RULE_RELATION, 'action': T.RULE_ACTION}


def by_name(table, text):
    shouted = text.upper()
    for number, name in table.items():
        if shouted == name:
            return number
    raise Exception()


def number_of(table, v):
    if isinstance(v, str):
        return by_name(table, v)
    if v in table:
        return int(v)
    raise Exception()


def spec_rule(column, relation, value, action):
    c, r, a = number_of(T.COLUMN, column), number_of(T.RULE_RELATION, relation), number_of(T.RULE_ACTION, action)
    if not isinstance(value, str):
        raise TypeError()
    return c, r, value, a, T.COLUMN[c]


def impl_rule(column, relation, value, action):
    r = Rule(column, relation, value, action)
    return int(r.column), int(r.relation), r.value, int(r.action), r.column.name


def spec_enum(column, relation, action):
    return True


def impl_enum(column, relation, action):
    """an enum value, its number and its name give equal rules"""
    from procmon_parser import Column, RuleRelation, RuleAction
    c, r, a = Column(column), RuleRelation(relation), RuleAction(action)
    x = Rule(c, r, 'v', a)
    return x == Rule(column, relation, 'v', action) and x == Rule(c.name, r.name, 'v', a.name) and \
        x == Rule(c.name.lower(), r.name.lower(), 'v', a.name.lower())
