"""Properties of the log reader."""
from dv.gen import Gen
from dv.generic import Generic, sym_bytes, sym_int
from dv.session import Theorem, Var
from specs import reader, tables as T
from props.registry import prop

EV = {1: 'process', 2: 'registry', 3: 'file system', 4: 'profiling', 5: 'network'}


def ev(cls, op, aspects, flags=(True, True), focus=None, name=None, **kw):
    i = Var('i')
    what = {1: T.PROCESS_OPERATION, 2: T.REGISTRY_OPERATION, 3: T.FILE_OPERATION, 4: T.PROFILING_OPERATION,
            5: T.NETWORK_OPERATION}[cls]
    nm = name or '%s event %s' % (EV[cls], what[op] if op is not None else '(any operation)')
    if flags != (True, True):
        nm += ' [stacktrace=%s, details=%s]' % flags
    return Theorem(nm, reader.spec_event, reader.impl_event, (i, cls, op, aspects) + flags, (i, aspects), flags=flags,
                   want=(cls, op), focus=focus, **kw)


# one operation of each event class (network events have many paths: in the thorough tier only)
SAMPLES = [(4, None), (2, 2), (1, 3), (3, 25)]
FILE_OPS = (6, 19, 20, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38)
ALL = ('operation', 'path', 'category', 'details')
NAMED = ('operation', 'path', 'category')
EVERY = [(1, o) for o in sorted(T.PROCESS_OPERATION)] + [(2, o) for o in sorted(T.REGISTRY_OPERATION)] + [
    (3, o) for o in FILE_OPS] + [(4, None), (5, None)]


def others(proved, aspects, flags=(True, True), **kw):
    """the operations that are not in ``proved``, for the search of a failing input only"""
    return [ev(c, o, aspects, flags=flags, search_only=True, **kw) for c, o in EVERY if (c, o) not in proved]


TEXTS = ('integrity', 'user', 'process_name', 'image_path', 'command_line', 'company', 'version', 'description')


@prop('P01')
def header(run):
    run.prove_pml([Theorem('system details', reader.spec_system, reader.impl_system),
                   Theorem('number of events', reader.spec_length, reader.impl_length)])


def broken_header(rng):
    F = bytearray(Gen(rng, rng.choice((32, 64))).log())
    k = rng.randrange(5)
    if k == 0:
        F[rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif k == 1:
        F[rng.choice((4, 5, 6, 7))] ^= 1 << rng.randrange(8)
    elif k == 2:
        at = rng.choice((0x240, 0x248, 0x250, 0x258, 0x260, 0x3a0))
        F[at:at + 8] = bytes(8)
    elif k == 3:
        F[0x398 + rng.randrange(8)] ^= 1 << rng.randrange(8)
    else:
        F = F[:rng.randrange(4)]
    return (bytes(F),)


@prop('P02')
def reject(run):
    run.prove([Generic('opening an unusable file', reader.spec_reject, reader.impl_open,
                       lambda: [sym_bytes()], broken_header, expect=False)])
    run.need_paths('opening an unusable file', 5)


@prop('P03')
def strings(run):
    run.prove_pml([Theorem('texts of processes', reader.spec_processes, reader.impl_processes, (TEXTS,), (TEXTS,)),
                   Theorem('modules', reader.spec_modules, reader.impl_modules)])


@prop('P04')
def processes(run):
    f = reader.PROCESS_FIELDS
    run.prove_pml([Theorem('processes', reader.spec_processes, reader.impl_processes, (f,), (f,)),
                   Theorem('modules', reader.spec_modules, reader.impl_modules)])


@prop('P07')
def common(run):
    a = ('process', 'tid', 'class', 'operation', 'duration', 'date', 'result')
    run.prove_pml([ev(c, o, a) for c, o in SAMPLES] + others(SAMPLES, a))


@prop('P08')
def stack(run):
    a = ('stack',)
    ops = SAMPLES + ([] if run.quick else [(5, None)])
    run.prove_pml([ev(c, o, a) for c, o in ops] + others(ops, a))


@prop('P10')
def order(run):
    """event i is decoded correctly with the stream anywhere, and decoding writes nothing but the stream's position:
    so no history of accesses can change it"""
    i, j = Var('i'), Var('j')
    a = ('process', 'tid', 'class', 'duration', 'date', 'result', 'stack') + ALL
    few = SAMPLES + [(1, 0), (1, 4), (2, 5), (3, 24)]
    ops = few if run.quick else EVERY
    run.prove_pml([ev(c, o, a, frame=True) for c, o in ops] + others(ops, a) + [
        Theorem('an event after another event', reader.spec_event_after, reader.impl_event_after,
                (j, i, None, None, a), (j, i, a), frame=True, search_only=True)])


@prop('P11')
def options(run):
    a = ('stack', 'tid', 'class', 'duration', 'date', 'result') + ALL
    ops = SAMPLES + [(2, 1), (3, 0x17)] + ([] if run.quick else [(5, None)])
    ths = []
    for f in ((False, False), (False, True), (True, False)):
        ths += [ev(c, o, a, flags=f) for c, o in ops] + others(ops, a, flags=f)
    run.prove_pml(ths)


@prop('P12')
def network(run):
    run.prove_pml([ev(5, None, ALL)])


@prop('P13')
def process(run):
    run.prove_pml([ev(1, op, ALL) for op in sorted(T.PROCESS_OPERATION)])


@prop('P14')
def registry_keys(run):
    own = (3, 4, 5, 6, 7, 8)                                # their details belong to P15 and P16
    run.prove_pml([ev(2, op, NAMED if op in own else ALL) for op in T.REGISTRY_OPERATION])


@prop('P15')
def registry_info(run):
    run.prove_pml([ev(2, op, ALL) for op in (3, 7, 8) if op in T.REGISTRY_OPERATION])


@prop('P16')
def registry_values(run):
    run.prove_pml([ev(2, op, ALL) for op in (4, 5, 6) if op in T.REGISTRY_OPERATION])


@prop('P18')
def create_file(run):
    run.prove_pml([ev(3, 20, ALL)])


@prop('P17')
def file_names(run):
    own = (0x13, 0x14, 0x17, 0x18, 0x20, 0x21, 0x22)        # their details belong to P18 to P22
    slow = (0x14, 0x20, 0x21, 0x22) if run.quick else ()
    run.prove_pml([ev(3, op, NAMED if op in own else ALL, search_only=op in slow) for op in sorted(T.FILE_OPERATION)])


@prop('P19')
def read_write(run):
    run.prove_pml([ev(3, op, ALL) for op in (0x17, 0x18)])


@prop('P20')
def control(run):
    run.prove_pml([ev(3, op, ALL) for op in (0x21, 0x22)])


@prop('P22')
def mapping(run):
    run.prove_pml([ev(3, op, ALL) for op in (0x13, 0x1a)])


@prop('P21')
def directory(run):
    run.prove_pml([ev(3, 0x20, ALL)])


@prop('P05')
def resolution(run):
    run.prove_pml([ev(5, None, ('path',))])


@prop('P09')
def extra(run):
    """the operations that use the extra block, wherever it lies"""
    ops = [(2, 5), (2, 0), (2, 3), (3, 23), (3, 24)] + ([] if run.quick else [(2, 1), (2, 6), (2, 7), (3, 20), (3, 32)])
    run.prove_pml([ev(c, o, ALL) for c, o in ops] + others(ops, ALL))
