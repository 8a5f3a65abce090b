"""Specification of the configuration format, in a form that is executed symbolically: one record at a time.

spec_* never calls the library; impl_* calls its public functions (and Record, the format of one record).
"""
import struct
from collections import OrderedDict
from io import BytesIO

from construct import Array, Construct, StreamError

from dv.api import need
from specs import tables as T
from specs.config import ARCHITECTURE, KINDS, data_bytes, kind_of, live, plain, rule_bytes, rule_number, terminated


def impl_rule_number(column, text, relation, action):
    """the two numbers behind the text of the only rule of a dumped configuration"""
    from procmon_parser import dumps_configuration
    from procmon_parser.configuration import Column, Rule, RuleAction, RuleRelation
    blob = dumps_configuration({'FilterRules': [Rule(Column(column), RuleRelation(relation), text, RuleAction(action))]})
    return blob[len(blob) - 8:]


def spec_rule_number(column, text, relation, action):
    need(len(text.encode('utf-16-le')) + 100 < 2 ** 32)
    return struct.pack('<II', rule_number(column, text), 0)


# ------------------------------------------------------------------------------------------------ the formats
def inside(format):
    """the format and the formats in it (the cases of a switch included)"""
    seen, todo = [], [format]
    while todo:
        c = todo.pop()
        if isinstance(c, Construct) and not any(c is x for x in seen):
            seen.append(c)
            todo.append(getattr(c, 'subcon', None))
            todo.extend(getattr(c, 'subcons', None) or [])
            todo.extend((getattr(c, 'cases', None) or {}).values())
    return seen


def record_format():
    """the format of one record: the outermost format of the module that has the options in it"""
    from procmon_parser import configuration_format as f
    if hasattr(f, 'Record'):
        return f.Record
    found = {n: inside(c) for n, c in vars(f).items() if isinstance(c, Construct)}
    found = {n: x for n, x in found.items() if any('FilterRules' in (getattr(c, 'cases', None) or ()) for c in x)}
    return getattr(f, max(found, key=lambda n: len(found[n])))


def rule_format():
    """the format of one rule: what the list of rules is a list of"""
    for c in inside(record_format()):
        if 'FilterRules' in (getattr(c, 'cases', None) or ()):
            for x in inside(c.cases['FilterRules']):
                if isinstance(x, Array):
                    return x.subcon
    raise LookupError('no format of a rule')


# ------------------------------------------------------------------------------------------------ one record
def known(name, v):
    """the record fits the 32-bit sizes of the format"""
    if kind_of(name) == 'rules':
        need(len(v) < 2 ** 32)
        for r in v:
            need(len(r[3].encode('utf-16-le')) + 2 < 2 ** 32)
    data = data_of(kind_of(name), v)
    need(len(name.encode('utf-16-le')) + len(data) + 0x20 < 2 ** 32)
    return data


def data_of(kind, v):
    """the data of a record"""
    if kind == 'font':
        face = v[13].encode('utf-16-le')
        need(len(face) <= 64)
        return struct.pack('<IIIII', *v[:5]) + struct.pack('8B', *v[5:13]) + face + b'\0' * (64 - len(face))
    return data_bytes(kind, v)


def record_of(name, v):
    """the bytes of a record: total size, header size, size of header and name, size of the data, name, data"""
    data = known(name, v)
    n = terminated(name)
    return struct.pack('<IIII', 0x10 + len(n) + len(data), 0x10, 0x10 + len(n), len(data)) + n + data


def spec_append(name, v, before):
    return before + record_of(name, v)


def impl_append(name, v, before):
    from procmon_parser import dump_configuration
    s = BytesIO(before)
    s.seek(0, 2)
    dump_configuration({name: live(name, v)}, s)
    out = s.getvalue()
    if s.tell() != len(out):
        return 'the position is not behind the record'
    return out


def spec_append_unknown(name, v, before):
    need(name not in KINDS)
    return spec_append(name, v, before)


# ------------------------------------------------------------------------------------------------ any number of records
class Options(object):
    """a mapping with its entries in an order of their own"""

    def __init__(self, records):
        self.records = records

    def items(self):
        return self.records


def one_record(name, v):
    """the bytes of one record (in the proof: whatever the contract of Record says they are)"""
    return record_of(name, v)


def given(name, v):
    """the value handed to the library"""
    return live(name, v)


def spec_sequence(records, before):
    return before + b''.join([one_record(n, v) for n, v in records])


def impl_sequence(records, before):
    from procmon_parser import dump_configuration
    s = BytesIO(before)
    s.seek(0, 2)
    dump_configuration(Options([(n, given(n, v)) for n, v in records]), s)
    out = s.getvalue()
    if s.tell() != len(out):
        return 'the position is not behind the records'
    return out


def spec_dumped(records):
    return b''.join([one_record(n, v) for n, v in records])


def impl_dumped(records):
    from procmon_parser import dumps_configuration
    return dumps_configuration(Options([(n, given(n, v)) for n, v in records]))


# ------------------------------------------------------------------------------------------------ reading a record
def spec_take(name, v, before, after):
    record = record_of(name, v)
    return name, v, len(before) + len(record)


def impl_take(name, v, before, after):
    s = BytesIO(before + record_of(name, v) + after)
    s.seek(len(before))
    got = record_format().parse_stream(s)
    return got[0], plain(got[0], got[1]), s.tell()


def spec_take_unknown(name, v, before, after):
    need(name not in KINDS)
    return spec_take(name, v, before, after)


# ------------------------------------------------------------------------------------------------ reading the rules
def spec_take_rule(rule, before, after):
    return rule, len(before) + len(rule_bytes(rule))


def impl_take_rule(rule, before, after):
    s = BytesIO(before + rule_bytes(rule) + after)
    s.seek(len(before))
    got = rule_format().parse_stream(s)
    return plain('FilterRules', [got])[0], s.tell()


def made_rule(column, relation, text, action):
    from procmon_parser.configuration import Column, RuleAction, RuleRelation, Rule
    return Rule(Column(column), RuleRelation(relation), text, RuleAction(action))


# ------------------------------------------------------------------------------------------------ reading any number of records
def cut_record(name, v, cut):
    """the first bytes of a record (in the proof: bytes of which the contract of Record says that there are too few)"""
    record = record_of(name, v)
    need(0 <= cut < len(record))
    return record[:cut]


def entries(options):
    """the options in their order (in the proof: the mapping itself)"""
    return list(options.items())


def shown(options):
    """the options with plain values"""
    return [(n, plain(n, v)) for n, v in options.items()]


def spec_loaded(records, name, v, cut):
    return entries(OrderedDict([(n, x) for n, x in records]))


def impl_loaded(records, name, v, cut):
    from procmon_parser import loads_configuration
    return shown(loads_configuration(b''.join([one_record(n, x) for n, x in records]) + cut_record(name, v, cut)))


def impl_read(records, name, v, cut):
    from procmon_parser import load_configuration
    return shown(load_configuration(BytesIO(b''.join([one_record(n, x) for n, x in records]) + cut_record(name, v, cut))))


# ------------------------------------------------------------------------------------------------ damage
def spec_end(before):
    raise StreamError()


def impl_end(before):
    s = BytesIO(before)
    s.seek(0, 2)
    return record_format().parse_stream(s)


def spec_cut(name, v, before, cut):
    cut_record(name, v, cut)
    raise StreamError()


def spec_cut_unknown(name, v, before, cut):
    need(name not in KINDS)
    return spec_cut(name, v, before, cut)


def impl_cut(name, v, before, cut):
    s = BytesIO(before + cut_record(name, v, cut))
    s.seek(len(before))
    return record_format().parse_stream(s)


def spec_cut_rule(rule, before, cut):
    need(0 <= cut < len(rule_bytes(rule)))
    raise StreamError()


def impl_cut_rule(rule, before, cut):
    s = BytesIO(before + rule_bytes(rule)[:cut])
    s.seek(len(before))
    return rule_format().parse_stream(s)


# ------------------------------------------------------------------------------------------------ sizes that contradict each other
def bad_record(sizes, rest):
    """a record whose sizes contradict each other (in the proof: bytes that Record refuses)"""
    total, header, head, data = sizes
    need(header != 16 or total != head + data)
    return struct.pack('<IIII', total, header, head, data) + rest


def spec_contradiction(sizes, rest, before):
    bad_record(sizes, rest)
    return True


def impl_contradiction(sizes, rest, before):
    s = BytesIO(before + bad_record(sizes, rest))
    s.seek(len(before))
    try:
        record_format().parse_stream(s)
    except Exception:
        return True
    return 'something is read'


def refuse(bad):
    """the error that reading the record ends with, unless it is taken for the end of the file"""
    try:
        record_format().parse(bad)
    except StreamError:
        pass


def spec_after_bad(records, sizes, rest):
    refuse(bad_record(sizes, rest))
    return entries(OrderedDict([(n, x) for n, x in records]))


def impl_after_bad(records, sizes, rest):
    from procmon_parser import loads_configuration
    return shown(loads_configuration(b''.join([one_record(n, x) for n, x in records]) + bad_record(sizes, rest)))
