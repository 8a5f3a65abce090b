"""Export and dates."""
from dv.generic import Generic, sym_bytes, sym_int, sym_text, sym_texts
from specs import csvs, tables as T
from specs.csvs import EPOCH, LAST
from props.registry import prop

TEXT = ('integrity', 'user', 'process_name', 'image_path', 'command_line', 'company', 'version', 'description')
INT = ('pid', 'parent_pid', 'authentication_id', 'session', 'virtualized')


def process():
    p = {k: sym_text(k) for k in TEXT}
    p.update((k, sym_int(k, 0, 1 << 64)) for k in INT)
    p['is_process_64bit'] = sym_int('bits', 0, 1 << 32)
    return p


def word(rng):
    return rng.choice(('', 'a', 'b_c', '<Unknown>', 'x\r\ny', 'RegOpenKey', '{}', '%s', '0', 'Ā\u20ac', 'a: b, c'))


def number(rng):
    return rng.choice((0, 1, 2, 7, 999, 1000, 10 ** 6, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, rng.getrandbits(32), rng.getrandbits(64)))


def sample_process(rng):
    p = {k: word(rng) for k in TEXT}
    p.update((k, number(rng)) for k in INT)
    p['virtualized'] = rng.choice((0, 1, 2, 3, p['virtualized']))
    p['is_process_64bit'] = rng.randrange(2)
    return p


def moment(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.randrange(EPOCH, LAST)
    if k == 1:
        return rng.choice((EPOCH, EPOCH + 1, LAST - 1, LAST - 10, EPOCH + 10 ** 7 - 1))
    # around noon, midnight, ends of months and years
    d = rng.choice((0, 31, 59, 60, 90, 364, 365, 366, 11016, 18262)) * 86400 * 10 ** 7
    h = rng.choice((0, 1, 3599, 3600, 43199, 43200, 43201, 46800, 86399)) * 10 ** 7
    return EPOCH + d + h + rng.choice((0, 1, 9, 10, 9999999, 123456, 5000000))


def code(rng):
    return rng.choice((0, 0x103, 0xc0000034, rng.choice(sorted(T.RESULT)), rng.getrandbits(32)))


@prop('P28')
def columns(run):
    ths = []
    for c in sorted(csvs.CLASS_NAME):
        ths.append(Generic('columns of a %s event' % csvs.CLASS_NAME[c], csvs.spec_columns, csvs.impl_columns,
                           lambda c=c: [process(), c, sym_text('op'), sym_int('tid', 0, 1 << 32), sym_int('result', 0, 1 << 32),
                                        sym_text('category'), sym_text('path')],
                           lambda rng, c=c: (sample_process(rng), c, word(rng), number(rng), code(rng), word(rng), word(rng))))

    def times(first):
        return [{}, 4, sym_int('date', EPOCH, LAST), sym_int('duration', 0, 1 << 64), sym_int('result', 0, 1 << 32), first]

    def some(rng):
        date = moment(rng)
        first = rng.choice((None, 0, date, EPOCH, max(EPOCH, date - rng.getrandbits(rng.choice((10, 30, 45, 55))))))
        return {}, 4, date, rng.choice((0, 1, number(rng), moment(rng) % 10 ** 12)), code(rng), first
    ths.append(Generic('times', csvs.spec_times, csvs.impl_times, lambda: times(sym_int('first', 0, 1 << 64)), some))
    ths.append(Generic('times without a first event', csvs.spec_times, csvs.impl_times, lambda: times(None), some))
    run.prove(ths)


@prop('P30')
def date(run):
    run.prove([Generic('date', csvs.spec_date, csvs.impl_date, lambda: [sym_int('date', EPOCH, LAST)], lambda rng: (moment(rng),)),
               Generic('no date', csvs.spec_date, csvs.impl_date, lambda: [None], lambda rng: (None,))])


# ------------------------------------------------------------------------------------------------ details
def shape(cls, op, *fields):
    """a theorem about events of a class and operation with the given details: (name, kind) pairs"""
    keys = tuple(f[0] for f in fields)

    def make():
        vals = []
        for name, kind in fields:
            if kind == 'int':
                v = sym_int(name, 0, 1 << 64)
            elif kind == 'sint':
                v = sym_int(name, -(1 << 63), 1 << 63)
            elif kind == 'date':
                v = sym_int(name, EPOCH, LAST)
            elif kind == 'text':
                v = sym_text(name)
            elif kind == 'texts':
                v = sym_texts(name)
            elif kind == 'bytes':
                v = sym_bytes()
            else:
                v = kind[1]
            vals.append(v)
        return [cls, op, keys, vals]

    def sample(rng):
        vals = []
        for name, kind in fields:
            if kind in ('int', 'sint'):
                v = number(rng) - (2 ** 63 if kind == 'sint' else 0)
            elif kind == 'date':
                v = moment(rng)
            elif kind == 'text':
                v = word(rng)
            elif kind == 'texts':
                v = [word(rng) for _ in range(rng.randrange(4))]
            elif kind == 'bytes':
                v = bytes(rng.randrange(256) for _ in range(rng.randrange(5)))
            else:
                v = kind[1]
            vals.append(v)
        return cls, op, keys, vals
    return Generic('%s %s {%s}' % (csvs.CLASS_NAME[cls], op, ', '.join(
        n if isinstance(k, str) else '%s=%s' % (n, k[1]) for n, k in fields)), csvs.spec_detail, csvs.impl_detail, make, sample)


def fixed(v):
    return ('fixed', v)


REGISTRY_NUMBERS = ('Length', 'SubKeys', 'Values', 'Index', 'HandleTags', 'UserFlags', 'Wow64Flags', 'TitleIndex', 'MaxNameLen',
                    'MaxValueNameLen', 'MaxValueDataLen', 'ClassOffset', 'ClassLength', 'MaxClassLen')


def shapes():
    out = [shape(c, 'op') for c in csvs.CLASS_NAME]
    # process events
    out.append(shape(1, 'Load_Image', ('Image Base', 'int'), ('Image Size', 'int')))
    out.append(shape(1, 'Thread_Exit', ('Thread ID', 'int'), ('User Time', 'int'), ('Kernel Time', 'int')))
    out.append(shape(1, 'Process_Start', ('Parent PID', 'int'), ('Command line', 'text'), ('Current directory', 'text'),
                     ('Environment', 'texts')))
    for op in ('Thread_Create', 'Process_Create', 'Process_Exit', 'Process_Defined', 'Process_Statistics', 'System_Statistics'):
        out.append(shape(1, op, ('Thread ID', 'int'), ('Command line', 'text'), ('User Time', 'text'), ('Kernel Time', 'text'),
                         ('Exit Status', 'int')))
    # registry events
    for op in ('RegQueryKey', 'RegSetInfoKey', 'RegQueryValue', 'RegOpenKey', 'RegEnumKey'):
        out.append(shape(2, op, ('Query', fixed('Full')), *[(k, 'int') for k in REGISTRY_NUMBERS] + [
            ('LastWriteTime', 'date'), ('Name', 'text'), ('Desired Access', 'text')]))
        out.append(shape(2, op, ('Query', fixed('Name')), ('Name', 'text'), ('Length', 'int')))
        out.append(shape(2, op, ('Query', 'text'), ('Name', 'text'), ('LastWriteTime', 'date'), ('SubKeys', 'int')))
    for k in REGISTRY_NUMBERS:
        out.append(shape(2, 'RegEnumKey', ('Information', 'text'), (k, 'int')))
    for op in ('RegQueryValue', 'RegEnumValue', 'RegSetValue'):
        for t, kind in (('REG_BINARY', 'bytes'), ('REG_QWORD', 'int'), ('REG_MULTI_SZ', 'texts'), ('REG_SZ', 'text'),
                        ('REG_EXPAND_SZ', 'text'), ('REG_DWORD', 'int'), ('REG_NONE', 'text'), ('REG_DWORD', fixed(''))):
            out.append(shape(2, op, ('Index', 'int'), ('Name', 'text'), ('Type', fixed(t)), ('Length', 'int'), ('Data', kind)))
        for t in ('REG_BINARY', 'REG_QWORD', 'REG_MULTI_SZ', 'REG_SZ'):
            out.append(shape(2, op, ('Type', fixed(t)), ('Length', 'int')))
    # file system events
    for k in ('int', 'sint', fixed('n/a'), 'text'):
        out.append(shape(3, 'CreateFile', ('Desired Access', 'text'), ('AllocationSize', k), ('OpenResult', 'text')))
    out.append(shape(3, 'ReadFile', ('Offset', 'sint'), ('Length', 'int'), ('I/O Flags', 'text'), ('Priority', 'text')))
    out.append(shape(3, 'QueryDirectory', ('Filter', 'text'), ('1', 'text'), ('2', 'text'), ('Offset', 'text')))
    # network events
    out.append(shape(5, 'TCP Send', ('Length', 'int'), ('startime', 'text'), ('endtime', 'text')))
    out.append(shape(4, 'Thread_Profiling', ('Length', 'int'), ('Data', 'text')))
    return out


@prop('P29')
def details(run):
    run.prove(shapes())
