"""Specification of Process Monitor configuration files (PMC).

A configuration is a list of (name, kind, value) in plain Python values:
  'u32' int | 'u16s' [int] | 'columns' [int] | 'text' str | 'cstr' str | 'font' 14-tuple | 'rules' [(column, relation, action, text)]
  | 'bytes' bytes
"""
import io
import struct
from collections import OrderedDict

from dv.api import need
from specs import tables as T

U32 = ('ColumnCount', 'HighlightFG', 'HighlightBG', 'AdvancedMode', 'Autoscroll', 'HistoryDepth', 'Profiling',
       'DestructiveFilter', 'AlwaysOnTop', 'ResolveAddresses')
KINDS = OrderedDict([('Columns', 'u16s'), ('ColumnMap', 'columns'), ('DbgHelpPath', 'text'), ('Logfile', 'text'),
                     ('LogFont', 'font'), ('BoookmarkFont', 'font'), ('SourcePath', 'cstr'), ('SymbolPath', 'cstr'),
                     ('FilterRules', 'rules'), ('HighlightRules', 'rules')] + [(n, 'u32') for n in U32])
FONT = ('height', 'width', 'escapement', 'orientation', 'weight', 'italic', 'underline', 'strikeout', 'char_set',
        'out_precision', 'clip_precision', 'quality', 'pitch_and_family', 'face_name')
ARCHITECTURE = [k for k, v in T.COLUMN.items() if v == 'ARCHITECTURE'][0]


def kind_of(name):
    return KINDS.get(name, 'bytes')


# ------------------------------------------------------------------------------------------------ the documented layout
def terminated(text):
    """a NUL-terminated text; an empty one takes no room at all"""
    return (text + '\0').encode('utf-16-le') if text != '' else b''


def rule_number(column, text):
    if text.isdigit():
        n = -1
        try:
            n = int(text)
        except ValueError:
            n = -1
        if 0 <= n < 2 ** 32:
            return n
    if column == ARCHITECTURE:
        return 32 if '32' in text else 64
    return 0


def rule_bytes(rule):
    column, relation, action, text = rule
    value = terminated(text)
    return struct.pack('<IIBI', column, relation, action, len(value)) + value + struct.pack(
        '<II', rule_number(column, text), 0)


def data_bytes(kind, v):
    if kind == 'u32':
        return struct.pack('<I', v)
    if kind == 'u16s':
        return b''.join([struct.pack('<H', x) for x in v])
    if kind == 'columns':
        return b''.join([struct.pack('<I', x) for x in v])
    if kind == 'text':
        return v.encode('utf-16-le')
    if kind == 'cstr':
        return terminated(v)
    if kind == 'font':
        return struct.pack('<IIIII', *v[:5]) + struct.pack('8B', *v[5:13]) + v[13].encode('utf-16-le').ljust(64, b'\0')
    if kind == 'rules':
        return b'\x01' + struct.pack('<I', len(v)) + b''.join([rule_bytes(r) for r in v])
    return v


def record_bytes(name, v):
    n, d = terminated(name), data_bytes(kind_of(name), v)
    return struct.pack('<IIII', 0x10 + len(n) + len(d), 0x10, 0x10 + len(n), len(d)) + n + d


def representable(name, v):
    k = kind_of(name)
    try:
        record_bytes(name, v)
    except (UnicodeEncodeError, struct.error):
        return False
    if name.endswith('\0') or k in ('text', 'cstr') and v.endswith('\0'):
        return False
    if k == 'font':
        return len(v[13].encode('utf-16-le')) <= 64 and not v[13].endswith('\0')
    if k == 'rules':
        return not [r for r in v if r[3].endswith('\0')]
    return True


# ------------------------------------------------------------------------------------------------ the library
def live(name, v):
    from procmon_parser.configuration import Column, RuleAction, RuleRelation, Rule, Font
    k = kind_of(name)
    if k == 'columns':
        return [Column(x) for x in v]
    if k == 'font':
        return Font(**dict(zip(FONT, v)))
    if k == 'rules':
        return [Rule(Column(c), RuleRelation(r), t, RuleAction(a)) for c, r, a, t in v]
    return v


def plain(name, v):
    from procmon_parser.configuration import Column, RuleAction, RuleRelation, Rule, Font
    k = kind_of(name)
    if k == 'columns' and type(v) is list:
        return [int(x) if isinstance(x, Column) else ('not a Column', x) for x in v]
    if k == 'font' and isinstance(v, Font):
        return tuple([getattr(v, f) for f in FONT])
    if k == 'rules' and type(v) is list:
        return [(int(r.column), int(r.relation), int(r.action), r.value)
                if isinstance(r.column, Column) and isinstance(r.relation, RuleRelation) and isinstance(r.action, RuleAction)
                else ('not a rule', r) for r in v]
    return v


def impl_dump(records):
    import procmon_parser
    given = OrderedDict([(n, live(n, v)) for n, v in records])
    out = procmon_parser.dumps_configuration(given)
    s = io.BytesIO()
    procmon_parser.dump_configuration(given, s)
    if s.getvalue() != out:
        return 'dump_configuration and dumps_configuration differ'
    if [(n, plain(n, v)) for n, v in given.items()] != [(n, v) for n, v in records]:
        return 'dumping changed the configuration'
    return out


def spec_dump(records):
    return b''.join([record_bytes(n, v) for n, v in records])


def impl_load(data):
    import procmon_parser
    got = procmon_parser.loads_configuration(data)
    again = procmon_parser.load_configuration(io.BytesIO(data))
    if [(n, plain(n, v)) for n, v in got.items()] != [(n, plain(n, v)) for n, v in again.items()]:
        return 'load_configuration and loads_configuration differ'
    return [(n, plain(n, v)) for n, v in got.items()]


def impl_trip(records):
    import procmon_parser
    given = OrderedDict([(n, live(n, v)) for n, v in records])
    blob = procmon_parser.dumps_configuration(given)
    got = procmon_parser.loads_configuration(blob)
    if list(got) != list(given):
        return 'other names'
    for n in given:
        if kind_of(n) != 'font' and got[n] != given[n]:
            return 'other value', n, plain(n, got[n])
    if procmon_parser.dumps_configuration(got) != blob:
        return 'dumping what was loaded gives other bytes'
    return [(n, plain(n, v)) for n, v in got.items()]


def spec_trip(records):
    need(all([representable(n, v) for n, v in records]))
    return [(n, v) for n, v in records]


def impl_number(column, text):
    """the number found in the dumped rule"""
    import procmon_parser
    from procmon_parser.configuration import Column, Rule
    blob = procmon_parser.dumps_configuration({'FilterRules': [Rule(Column(column), 0, text, 1)]})
    return struct.unpack('<II', blob[-8:])


def spec_number(column, text):
    return rule_number(column, text), 0


# ------------------------------------------------------------------------------------------------ damage
def spec_cut(records, cut):
    """the records that end before the cut"""
    out, at = [], 0
    for n, v in records:
        at += len(record_bytes(n, v))
        if at > cut:
            break
        out.append((n, v))
    return out


def impl_cut(records, cut):
    return impl_load(spec_dump(records)[:cut])


def spec_broken(records, k, field, value):
    """record k with another value in one of its size fields (so that the three sizes contradict each other)"""
    b = record_bytes(*records[k])
    sizes = list(struct.unpack('<IIII', b[:16]))
    need(sizes[field] != value)
    return True


def impl_broken(records, k, field, value):
    import procmon_parser
    head = spec_dump(records[:k])
    b = bytearray(record_bytes(*records[k]))
    b[4 * field:4 * field + 4] = struct.pack('<I', value)
    try:
        got = impl_load(head + bytes(b) + spec_dump(records[k + 1:]))
    except Exception:
        return True
    # the record seems to reach beyond the end of the file: nothing of it may be delivered
    return got == [(n, v) for n, v in records[:k]] or got


def spec_reject(value):
    raise TypeError()
