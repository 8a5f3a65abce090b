"""Configuration files (PMC)."""
import itertools
import struct

import construct
import z3

from dv.core import C, ForallFact, IntS
from dv.generic import Generic, exhaust, sym_bytes, sym_int, sym_text, sym_unicode, sym_unicodes
from dv.values import SList, SStr, PApp
from specs import config, pmc, tables as T
from props.equal_props import sym_member
from props.registry import prop

def take_construct_in():
    """the construct library is interpreted like the package itself"""
    from dv import interp
    for f in (pmc.record_format, pmc.rule_format):
        interp.HANDLERS[f] = lambda args, kwargs, f=f: f()
    if 'construct' not in interp.INTERPRETED_MODULES:
        interp.INTERPRETED_MODULES += ('construct',)


TEXTS = ['', 'a', 'ab', '64-bit', '32-bit', 'x32y', '0', '7', '007', '4294967295', '4294967296', '99999999999999999999',
         '\u00b2', '\u00b2\u00b3', '\u0663\u0664', '1\u00b2', '12 ', '-5', '+5', '1_0', '0x10', '\u05d0\u05d1', '\U0001f600',
         'a\0b', '\0a', '\u0100', 'A\u0100', '\u2460', '3', '\u0e53', 'C:\\x y', 'Procmon.exe', '.', ',', ' ', '\n', '\ufeff',
         'y' * 31, 'z' * 32, 'q' * 255, 'w' * 256, 'e' * 40000, '9' * 5000, '1' * 10, '3' * 11, '\u0661' * 12, '\uff15']
NUMBERS = [0, 1, 2, 0x10, 0xff, 0x100, 0x7fffffff, 0x80000000, 0xffffffff, 200, 65536]
FONT1 = (11, 12, 13, 14, 400, 1, 2, 3, 4, 5, 6, 7, 8, 'Consolas')
COLUMNS = sorted(T.COLUMN)
RULE = (COLUMNS[3], 6, 1, 'proc')


def values(name):
    k = config.kind_of(name)
    if k == 'u32':
        return NUMBERS
    if k == 'u16s':
        return [[], [0], [1, 2], [65535, 0, 100], list(range(300))]
    if k == 'columns':
        return [[], [COLUMNS[0]], COLUMNS, COLUMNS[::-1], COLUMNS[1:2] * 3]
    if k in ('text', 'cstr'):
        return TEXTS
    if k == 'font':
        big = (0xffffffff, 0, 0x80000000, 1, 0x12345678, 255, 0, 128, 1, 2, 254, 253, 127, 'x' * 31)
        return [FONT1, big, (0,) * 13 + ('',), FONT1[:13] + ('\u05d0' * 32,), FONT1[:13] + ('y' * 32,), FONT1[:13] + ('\U0001f600' * 16,)] + [
            tuple(9 if i == j else 0 for i in range(13)) + ('f',) for j in range(13)]
    if k == 'rules':
        return [[], [RULE], [RULE] * 3, [(COLUMNS[0], 0, 0, ''), RULE, (COLUMNS[-1], 7, 1, '12')],
                [(c, 0, 1, t) for c, t in zip(COLUMNS, TEXTS)]] + [
            [(c, r, a, t) for r in sorted(T.RULE_RELATION) for a in sorted(T.RULE_ACTION)]
            for c in (COLUMNS[0], COLUMNS[5], config.ARCHITECTURE) for t in TEXTS if len(t) < 1000]
    return [b'', b'\0', b'abc', bytes(range(256)), b'\xff' * 1000]


NAMES = list(config.KINDS) + ['Unknown', 'X', '\u05d0\u05d1\u05d2', 'columns', 'Columns ', 'FilterRules2', 'n' * 300]
SMALL = [(n, values(n)[min(1, len(values(n)) - 1)]) for n in NAMES]


def pairs():
    for n in NAMES + ['']:
        for v in values(n):
            yield ([(n, v)],)
    for a, b in itertools.permutations(SMALL, 2):
        yield ([a, b],)
    yield ([],)
    yield (SMALL,)
    yield (SMALL[::-1],)
    for k in range(len(SMALL)):
        yield (SMALL[k:] + SMALL[:k],)


def sample_records(rng):
    names = [rng.choice(NAMES) if rng.random() < 0.9 else 'N%d' % rng.randrange(1000) for _ in range(rng.randrange(5))]
    return [(n, rng.choice(values(n)[:40])) for n in dict.fromkeys(names)]


BOUND = ('every known option and 7 unknown ones with up to 120 values each (numbers at the borders of their fields, texts of 0 to '
         '40000 characters, 0 to 300 list entries, every column, relation and action), every ordered pair of options, all options '
         'together in 28 orders')


def sym_rule(n, k, text):
    fs = []
    for f, members in (('column', T.COLUMN), ('relation', T.RULE_RELATION), ('action', T.RULE_ACTION)):
        f = z3.Function('%s!%s' % (f, n), IntS, IntS)
        C.add_fact(ForallFact(z3.IntVal(0), n, k, z3.Or(*[f(k) == c for c in sorted(members)])))
        fs.append(f(k))
    return tuple(fs + [text])


def sym_value(kind, text=sym_text):
    if kind == 'u32':
        return sym_int('number', 0, 1 << 32)
    if kind in ('u16s', 'columns'):
        n, k = C.fresh('count'), C.fresh('k')
        C.assume(n >= 0)
        f = z3.Function('item!%s' % n, IntS, IntS)
        ok = (lambda x: z3.And(x >= 0, x < 65536)) if kind == 'u16s' else (lambda x: z3.Or(*[x == c for c in COLUMNS]))
        C.add_fact(ForallFact(z3.IntVal(0), n, k, ok(f(k))))
        return SList([('s', n, k, f(k))])
    if kind in ('text', 'cstr'):
        return text('value')
    if kind == 'font':
        return tuple([sym_int(f, 0, 1 << 32) for f in config.FONT[:5]] + [sym_int(f, 0, 256) for f in config.FONT[5:13]] + [
            text('face')])
    if kind == 'rules':
        n, k = C.fresh('count'), C.fresh('k')
        C.assume(n >= 0)
        rule = sym_rule(n, k, sym_unicodes(n, k) if text is sym_unicode else SStr([PApp('text!%s' % n, (k,))]))
        return SList([('s', n, k, rule)])
    return sym_bytes('data')


def appended():
    ths = []
    for name in list(config.KINDS) + [None]:
        def make(name=name):
            return [sym_text('name') if name is None else name, sym_value(config.kind_of(name)), sym_bytes('before')]

        def sample(rng, name=name):
            n = rng.choice(NAMES) if name is None else name
            return n, rng.choice(values(n)[:40]), bytes(rng.randrange(256) for _ in range(rng.randrange(5)))
        ths.append(Generic('layout of the record %s' % (name or 'of an unknown option'), pmc.spec_append_unknown if name is None else
                           pmc.spec_append, pmc.impl_append, make, sample))
    return ths


def sym_one_rule():
    out = [sym_int(f, 0, 1 << 32) for f in ('column', 'relation', 'action')]
    for x, members in zip(out, (T.COLUMN, T.RULE_RELATION, T.RULE_ACTION)):
        C.assume(z3.Or(*[x == c for c in sorted(members)]))
    return tuple(out + [sym_unicode('value')])


def some_rule(rng):
    return rng.choice([v for v in values('FilterRules') if v and config.representable('FilterRules', v)])[0]


def noise(rng):
    return bytes(rng.randrange(256) for _ in range(rng.randrange(5)))


def taken(rules=False):
    ths = []
    for name in list(config.KINDS) + [None]:
        if (config.kind_of(name) == 'rules') is not rules:
            continue

        def make(name=name):
            return [sym_unicode('name') if name is None else name, sym_value(config.kind_of(name), sym_unicode), sym_bytes('before'),
                    sym_bytes('after')]

        def sample(rng, name=name):
            n = rng.choice(NAMES) if name is None else name
            noise = lambda: bytes(rng.randrange(256) for _ in range(rng.randrange(5)))
            return n, rng.choice([v for v in values(n)[:40] if config.representable(n, v)]), noise(), noise()
        ths.append(Generic('reading the record %s' % (name or 'of an unknown option'), pmc.spec_take_unknown if name is None else
                           pmc.spec_take, pmc.impl_take, make, sample))
    if not rules:
        ths.append(Generic('reading a rule', pmc.spec_take_rule, pmc.impl_take_rule, lambda: [sym_one_rule(), sym_bytes('before'), sym_bytes('after')],
                           lambda rng: (some_rule(rng), noise(rng), noise(rng))))
    return ths


def rule_contract():
    """Reading a rule where the bytes of one begin gives that rule and moves behind them.  (The theorem 'reading a rule'.)"""
    from dv.interp import HANDLERS, INTERP, CALL_LOG
    from dv.values import SStream, C_AX, StrS, add, enc_str, iv, mkbytes, piece_at
    from dv.core import Unsupported

    from dv.models import py_raise
    axiom = lambda app, name: [app >= 0]
    C_AX['rulelen'] = axiom
    C.app_axioms['rulelen'] = axiom

    def token(args, kwargs):
        column, relation, action, text = rule = args[0]
        n = z3.Function('rulelen', IntS, IntS, IntS, StrS, IntS)(iv(column), iv(relation), iv(action), enc_str(text))
        return mkbytes([('op', 'rule', rule, n)])

    def parse(args, kwargs):
        s = args[0]
        piece = piece_at(s.f['data'], s.f['pos'], 'rule', [('op', 'cut')]) if isinstance(s, SStream) else None
        if piece is None:
            raise Unsupported('the contract of RuleStruct needs a stream at the start of a rule (%s)' % (s.f['pos'],))
        C.write(s.f, 'pos', add(s.f['pos'], piece[3]))
        CALL_LOG['contract:RuleStruct'] = CALL_LOG.get('contract:RuleStruct', 0) + 1
        if piece[1] == 'cut':
            from construct import StreamError
            py_raise(StreamError, 'stream read less than specified amount')
        column, relation, action, text = piece[2]
        return INTERP.call(pmc.made_rule, [column, relation, text, action], {})
    added = {pmc.rule_format()._parse: parse, config.rule_bytes: token}
    HANDLERS.update(added)
    return lambda: [HANDLERS.pop(x) for x in added]


def record_contract():
    """Building a record appends bytes that depend on its name and value alone to a stream that stands at its end, and
    changes nothing else.  (The theorems 'layout of the record X' prove it, and say which bytes.)"""
    from dv.interp import HANDLERS, INTERP, CALL_LOG
    from dv.values import SStream, C_AX, StrS, add, enc_str, bcat, blen, iv, mkbytes, piece_at
    from dv.core import Unsupported
    from dv.models import py_raise
    axiom = lambda app, name: [app >= 0]
    C_AX['reclen'] = axiom
    C.app_axioms['reclen'] = axiom

    def token(name, v):
        n = enc_str(name)
        return mkbytes([('op', 'record', (name, v), z3.Function('reclen', StrS, IntS, IntS)(n, iv(v)))])

    def build(args, kwargs):
        args = args + [kwargs[a] for a in ('stream', 'context', 'path') if a in kwargs]
        (name, v), s = args[0], args[1]
        if not isinstance(s, SStream) or not C.proves(iv(s.f['pos']) == iv(blen(s.f['data']))):
            raise Unsupported('the contract of Record needs a stream at its end')
        data = bcat(s.f['data'], token(name, v))
        C.write(s.f, 'data', data)
        C.write(s.f, 'pos', blen(data))
        CALL_LOG['contract:Record'] = CALL_LOG.get('contract:Record', 0) + 1
        return args[0]

    def parse(args, kwargs):
        s = args[0]
        if not isinstance(s, SStream):
            raise Unsupported('the contract of Record needs a stream')
        piece = piece_at(s.f['data'], s.f['pos'], 'record', [('op', 'cut'), ('op', 'bad')])
        if piece is None:
            raise Unsupported('the contract of Record needs a stream at the start of a record (%s in %s)' % (s.f['pos'], s.f['data']))
        CALL_LOG['contract:Record'] = CALL_LOG.get('contract:Record', 0) + 1
        if piece[1] in ('cut', 'bad'):
            from construct import StreamError
            C.write(s.f, 'pos', C.fresh('pos'))
            if piece[1] == 'bad':
                refuse([piece[2]], {})
            py_raise(StreamError, 'stream read less than specified amount')
        C.write(s.f, 'pos', add(s.f['pos'], piece[3]))
        return piece[2]

    def cut(args, kwargs):
        n = C.fresh('cut')
        C.assume(n >= 0)
        return mkbytes([('op', 'cut', (n,), n)])

    def bad(args, kwargs):
        # (a theorem speaks of one such record)
        n, error = z3.Int('length of the refused record'), z3.Int('kind of the refusal')
        C.assume(n >= 0)
        return mkbytes([('op', 'bad', (error,), n)])

    def refuse(args, kwargs):
        kind = (args[0].segs[0][2] if not isinstance(args[0], tuple) else args[0])[0]
        if C.branch(kind == 1):
            py_raise(RuntimeError, 'Record size is not valid')
        if C.branch(kind == 2):
            py_raise(construct.ConstError, 'not what is expected')
        if C.branch(kind == 3):
            py_raise(ValueError, 'not a value')
    added = {pmc.bad_record: bad, pmc.refuse: refuse, pmc.record_format()._build: build, pmc.record_format()._parse: parse, pmc.cut_record: cut, pmc.shown: lambda args, kwargs: args[0], pmc.entries: lambda args, kwargs: args[0],
             pmc.one_record: lambda args, kwargs: token(*args), pmc.given: lambda args, kwargs: args[1]}
    HANDLERS.update(added)
    return lambda: [HANDLERS.pop(x) for x in added]


def sym_records():
    """any number of options: texts with (opaque) values"""
    n, k = C.fresh('count'), C.fresh('k')
    C.assume(n >= 0)
    value = z3.Function('value!%s' % n, IntS, IntS)
    return SList([('s', n, k, (SStr([PApp('name!%s' % n, (k,))]), value(k)))])


def sequences():
    def records(rng):
        return [x for x in sample_records(rng) if config.representable(*x)]
    return [Generic('layout of any number of records', pmc.spec_sequence, pmc.impl_sequence, lambda: [sym_records(), sym_bytes('before')],
                    lambda rng: (records(rng), bytes(rng.randrange(256) for _ in range(rng.randrange(5))))),
            Generic('the dumped bytes', pmc.spec_dumped, pmc.impl_dumped, lambda: [sym_records()], lambda rng: (records(rng),))]


def ends():
    return [Generic('no record at the end', pmc.spec_end, pmc.impl_end, lambda: [sym_bytes('before')],
                    lambda rng: (bytes(rng.randrange(256) for _ in range(rng.randrange(5))),), expect=False)]


def cuts_of(rules=False):
    ths = []
    for name in list(config.KINDS) + [None]:
        if (config.kind_of(name) == 'rules') is not rules:
            continue

        def make(name=name):
            return [sym_unicode('name') if name is None else name, sym_value(config.kind_of(name), sym_unicode), sym_bytes('before'),
                    sym_int('cut')]

        def sample(rng, name=name):
            n = rng.choice(NAMES) if name is None else name
            v = rng.choice([v for v in values(n)[:40] if config.representable(n, v)])
            return n, v, bytes(rng.randrange(256) for _ in range(rng.randrange(5))), rng.randrange(len(config.record_bytes(n, v)))
        ths.append(Generic('a cut record %s' % (name or 'of an unknown option'), pmc.spec_cut_unknown if name is None else pmc.spec_cut,
                           pmc.impl_cut, make, sample, expect=False))
    if not rules:
        def cut_sample(rng):
            r = some_rule(rng)
            return r, noise(rng), rng.randrange(len(config.rule_bytes(r)))
        ths.append(Generic('a cut rule', pmc.spec_cut_rule, pmc.impl_cut_rule, lambda: [sym_one_rule(), sym_bytes('before'), sym_int('cut')],
                           cut_sample, expect=False))
    return ths


def data_contract():
    """Reading the value of an option: it fails, or anything comes out and the position may be anywhere."""
    from dv.interp import HANDLERS, CALL_LOG
    from dv.values import SStream
    from dv.core import Unsupported
    from dv.models import py_raise
    from construct import StreamError

    def parse(args, kwargs):
        s = args[0]
        if not isinstance(s, SStream):
            raise Unsupported('the contract of the value needs a stream')
        CALL_LOG['contract:value of an option'] = CALL_LOG.get('contract:value of an option', 0) + 1
        pos = C.fresh('pos')
        C.assume(pos >= 0)
        C.write(s.f, 'pos', pos)
        how = C.fresh('how')
        if C.branch(how == 0):
            py_raise(StreamError, '')
        if C.branch(how == 1):
            py_raise(ValueError, '')
        return C.fresh('value')
    added = []
    st = [pmc.record_format()]
    while st:
        c = st.pop()
        if isinstance(c, construct.Switch):
            added.append(c._parse)
        st.extend(x for x in [getattr(c, 'subcon', None)] + list(getattr(c, 'subcons', None) or []) if isinstance(x, construct.Construct))
    HANDLERS.update({x: parse for x in added})
    return lambda: [HANDLERS.pop(x, None) for x in added]


def some_bad(rng):
    n, v = rng.choice([x for x in sample_records(rng) if config.representable(*x)] or [('Autoscroll', 1)])
    b = config.record_bytes(n, v)
    sizes = list(struct.unpack('<IIII', b[:16]))
    f = rng.randrange(4)
    sizes[f] = rng.choice([x for x in (0, 1, 15, 16, 17, 18, 2 ** 31, 2 ** 32 - 1, sizes[f] + 1, sizes[f] + 2, sizes[f] + 4, sizes[f] - 1,
                                       sizes[f] - 2, sizes[f] - 4) if x != sizes[f] and 0 <= x < 2 ** 32])
    if rng.random() < 0.3:
        g = rng.randrange(4)
        sizes[g] = max(0, min(2 ** 32 - 1, sizes[g] + rng.choice([-2, 2, 4, 16])))
    return tuple(sizes), b[16:] + rng.choice([b'', b'\0' * 40, noise(rng)])


def sym_sizes():
    return tuple(sym_int(x, 0, 1 << 32) for x in ('total', 'header', 'head', 'data'))


def contradictions():
    return [Generic('a record whose sizes contradict each other', pmc.spec_contradiction, pmc.impl_contradiction,
                    lambda: [sym_sizes(), sym_bytes('rest'), sym_bytes('before')], lambda rng: some_bad(rng) + (noise(rng),))]


def refusals():
    return [Generic('records before a refused one', pmc.spec_after_bad, pmc.impl_after_bad,
                    lambda: [sym_records(), sym_sizes(), sym_bytes('rest')],
                    lambda rng: ([x for x in sample_records(rng) if config.representable(*x)],) + some_bad(rng))]


def readings():
    def sample(rng):
        rs = [x for x in sample_records(rng) if config.representable(*x)]
        n, v = rng.choice([x for x in sample_records(rng) if config.representable(*x)] or [('Autoscroll', 1)])
        return rs, n, v, rng.randrange(len(config.record_bytes(n, v)))

    def make():
        return [sym_records(), sym_text('name'), sym_int('value'), sym_int('cut')]
    return [Generic('loading any number of records', pmc.spec_loaded, pmc.impl_loaded, make, sample),
            Generic('reading any number of records', pmc.spec_loaded, pmc.impl_read, make, sample)]


@prop('P33')
def layout(run):
    take_construct_in()
    run.prove(appended(), contract=False)
    remove = record_contract() if run.proving else None
    run.prove(sequences(), contract=False)
    if remove:
        remove()
    t = Generic('layout of a dumped configuration', config.spec_dump, config.impl_dump, None, lambda rng: (sample_records(rng),))
    inside = [c for c in pairs() if all(config.representable(n, v) for n, v in c[0])]
    exhaust(run, t, inside, BOUND, t.name)
    run.search_only([t])


@prop('P32')
def trip(run):
    take_construct_in()
    run.prove(taken() + ends(), contract=False)
    remove = rule_contract() if run.proving else None
    run.prove(taken(rules=True), contract=False)
    if remove:
        remove()
    remove = record_contract() if run.proving else None
    run.prove(readings(), contract=False)
    if remove:
        remove()
    t = Generic('loading what was dumped', config.spec_trip, config.impl_trip, None, lambda rng: (sample_records(rng),))
    exhaust(run, t, pairs(), BOUND, t.name)
    run.search_only([t])


@prop('P35')
def damage(run):
    take_construct_in()
    from dv import values
    values.opaque_cuts = True
    run.prove(cuts_of(), contract=False)
    remove = rule_contract() if run.proving else None
    run.prove(cuts_of(rules=True), contract=False)
    if remove:
        remove()
    remove = record_contract() if run.proving else None
    run.prove(readings() + refusals(), contract=False)
    if remove:
        remove()
    remove = data_contract() if run.proving else None
    run.prove(contradictions(), contract=False)
    if remove:
        remove()
    values.opaque_cuts = False
    blobs = [[a, b, c] for a, b, c in zip(SMALL, SMALL[1:] + SMALL[:1], SMALL[2:] + SMALL[:2])]
    cut = Generic('a configuration that is cut', config.spec_cut, config.impl_cut, None,
                  lambda rng: (lambda r: (r, rng.randrange(len(config.spec_dump(r)) + 1)))(
                      [x for x in sample_records(rng) if config.representable(*x)]))

    def cuts():
        for r in blobs:
            for n in range(len(config.spec_dump(r)) + 1):
                if n < 120 or n % 7 == 0:
                    yield r, n
    exhaust(run, cut, cuts(), '27 configurations of three records, cut after every byte (after each of the first 120 and then every '
            '7th)', cut.name)
    bad = Generic('a record whose sizes contradict each other', config.spec_broken, config.impl_broken, None, None)

    def breaks():
        for r in blobs:
            for k in range(3):
                sizes = struct.unpack('<IIII', config.record_bytes(*r[k])[:16])
                for f in range(4):
                    for v in [0, 1, 2, 15, 16, 17, 18, 0x7fffffff, 0xffffffff] + [sizes[f] + d for d in (-16, -4, -2, -1, 1, 2, 4, 16, 256)]:
                        if 0 <= v < 2 ** 32:
                            yield r, k, f, v
    exhaust(run, bad, breaks(), 'each of the four size fields of each record of 27 configurations of three records set to up to 18 other '
            'values', bad.name)
    run.search_only([cut])


@prop('P34')
def number(run):
    take_construct_in()
    run.prove([Generic('number stored with any rule', pmc.spec_rule_number, pmc.impl_rule_number,
                       lambda: [sym_member('column', COLUMNS), sym_text('text'), sym_member('relation', sorted(T.RULE_RELATION)),
                                sym_member('action', sorted(T.RULE_ACTION))],
                       lambda rng: (rng.choice(COLUMNS), ''.join(rng.choice('0123456789 -\u00b2\u0663ab') for _ in range(rng.randrange(13))),
                                    rng.choice(sorted(T.RULE_RELATION)), rng.choice(sorted(T.RULE_ACTION))))], contract=False)
    t = Generic('number stored with a rule', config.spec_number, config.impl_number, None,
                lambda rng: (rng.choice(COLUMNS), ''.join(rng.choice('0123456789 -\u00b2\u0663ab') for _ in range(rng.randrange(13)))))
    every = [x for x in TEXTS] + [''.join(x) for n in (1, 2, 3) for x in itertools.product('0329\u00b2a\u0663', repeat=n)] + [
        str(10 ** k + d) for k in range(1, 12) for d in (-1, 0, 1)] + [str(2 ** 32 + d) for d in range(-3, 4)]
    cases = [(c, x) for c in COLUMNS[:3] + [config.ARCHITECTURE] for x in every] + [(c, x) for c in COLUMNS for x in TEXTS[:40]]
    exhaust(run, t, cases, 'every column with 40 texts and 4 columns with %d texts (up to 3 characters over 7, numbers around the '
            'powers of ten and 2**32)' % len(every), t.name)
    run.search_only([t])
