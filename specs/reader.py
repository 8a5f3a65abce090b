"""What a user of the log reader observes: the specified value of an observation, and the observation itself.

Both sides are plain Python, executed symbolically by the verifier and natively by the replay.
"""
from io import BytesIO

from procmon_parser import PMLError, ProcmonLogsReader, read_all_events_from_pml
from dv.api import need, need_distinct, u32, u64, sub, text_z
from specs import events, pml, tables as T

COMMON = ('tid', 'class', 'operation', 'duration', 'date', 'result')


def module_view(m):
    return (m.base_address, m.size, m.path, m.version, m.company, m.description, m.timestamp)


PROCESS_FIELDS = ('pid', 'parent_pid', 'authentication_id', 'session', 'virtualized', 'is_process_64bit', 'integrity',
                  'user', 'process_name', 'image_path', 'command_line', 'company', 'version', 'description',
                  'start_time', 'end_time')


def process_view(p, fields):
    out = {}
    for f in fields:
        out[f] = getattr(p, f)
    return out


def process_spec(p, fields):
    out = {}
    for f in fields:
        out[f] = p[f]
    return out


# ---------------------------------------------------------------------------------------------------- one event
def decoded(L, i, cls, op, want_stack, want_details):
    E = events.event(L, i, want_stack, want_details)
    if cls is None:
        need(E.event_class in events.CLASSES)
        cls = E.event_class
    need(E.event_class == cls)
    E.event_class = cls
    if op is not None:
        need(E.op == op)
        E.op = op
    events.CLASSES[cls](E)
    return E


def spec_event(L, i, cls, op, aspects, want_stack, want_details):
    E = decoded(L, i, cls, op, want_stack, want_details)
    out = {}
    for a in aspects:
        if a == 'process':
            out[a] = process_spec(L.processes[E.process_index], PROCESS_FIELDS)
        elif a == 'pid':
            out[a] = L.processes[E.process_index]['pid']
        elif a == 'class':
            out[a] = E.event_class
        else:
            out[a] = getattr(E, a)
    return out


def spec_event_after(L, j, i, cls, op, aspects):
    """whatever was read before, event i is what it is"""
    decoded(L, j, None, None, True, True)
    return spec_event(L, i, cls, op, aspects, True, True)


def event_view(e, aspects):
    out = {}
    for a in aspects:
        if a == 'process':
            out[a] = process_view(e.process, PROCESS_FIELDS)
        elif a == 'pid':
            out[a] = e.process.pid
        elif a == 'class':
            out[a] = e.event_class
        elif a == 'date':
            out[a] = e.date_filetime
        elif a == 'stack':
            out[a] = e.stacktrace
        else:
            out[a] = getattr(e, a)
    return out


def impl_event(reader, i, aspects):
    return event_view(reader[i], aspects)


def impl_event_after(reader, j, i, aspects):
    """read event j first; what event i is afterwards"""
    reader[j]
    return event_view(reader[i], aspects)


# ---------------------------------------------------------------------------------------------------- tables
def distinct_processes(L):
    """each process has an index of its own"""
    F, at = L.F, L.processes_at
    n = u32(F, at)
    need_distinct([u32(F, at + u32(F, at + 4 + 4 * n + 4 * i)) for i in range(n)])


def spec_processes(L, fields):
    distinct_processes(L)
    return [process_spec(p, fields) for p in L.processes.values()]


def impl_processes(reader, fields):
    return [process_view(p, fields) for p in reader.processes()]


def spec_modules(L):
    distinct_processes(L)
    return [p['modules'] for p in L.processes.values()]


def impl_modules(reader):
    return [[module_view(m) for m in p.modules] for p in reader.processes()]


WINDOWS = {(6, 0): 'Windows Vista', (6, 1): 'Windows 7', (6, 2): 'Windows 8', (6, 3): 'Windows 8.1', (10, 0): 'Windows 10'}


def spec_length(L):
    return L.number_of_events


def impl_length(reader):
    return len(reader)


def spec_system(L):
    F = L.F
    key = (u32(F, 0x274), u32(F, 0x278))
    need(key in WINDOWS)
    name = WINDOWS[key]
    pack = text_z(F, 0x284, 0x100)
    if pack != '':
        name = name + ', ' + pack
    if L.is_64bit:
        kind = '64-bit'
    else:
        kind = '32-bit'
    return {
        'Computer Name': text_z(F, 0xC, 0x20),
        'Operating System': '{} (build {}.{})'.format(name, u32(F, 0x27C), u32(F, 0x280)),
        'System Root': text_z(F, 0x2C, 0x208),
        'Logical Processors': u32(F, 0x38C),
        'Memory (RAM)': '{} GB'.format((u64(F, 0x390) / (1024.0 ** 3)) // 0.01 / 100),
        'System Type': kind,
    }


def impl_system(reader):
    return reader.system_details()


# ---------------------------------------------------------------------------------------------------- rejection
def spec_reject(F):
    """what opening a file that is no usable log must raise"""
    if len(F) < 4 or sub(F, 0, 4) != b'PML_':
        raise PMLError()
    need(len(F) >= 0x3a8)
    if u32(F, 4) != 9:
        raise NotImplementedError()
    for at in (0x240, 0x248, 0x250, 0x258, 0x260, 0x3a0):
        if u64(F, at) == 0:
            raise PMLError()
    if u64(F, 0x398) != 0x3a8:
        raise PMLError()
    need(False)


def impl_open(F):
    ProcmonLogsReader(BytesIO(F))


# ---------------------------------------------------------------------------------------------------- the sequence
SEEN = ('pid', 'tid', 'class', 'operation', 'duration', 'date', 'result')


def event_ref(L, i):
    """event i of the log (for the verifier: the decoded event at its offset, by the contract of the decoder)"""
    need(0 <= i and i < L.number_of_events)
    return spec_event(L, i, None, None, SEEN, True, True)


def event_seen(e):
    return event_view(e, SEEN)


def spec_at(L, i):
    """the event at any index, counted from the end when it is negative"""
    n = L.number_of_events
    if i < 0:
        i = i + n
    if i < 0 or i >= n:
        raise IndexError()
    return event_ref(L, i)


def impl_at(reader, i):
    return event_seen(reader[i])


def spec_slice(L, a, b, c):
    return [event_ref(L, i) for i in list(range(L.number_of_events))[a:b:c]]


def impl_slice(reader, a, b, c):
    return [event_seen(e) for e in reader[a:b:c]]


def spec_all(L):
    return [event_ref(L, i) for i in range(L.number_of_events)]


def impl_all(reader):
    return [event_seen(e) for e in reader]


def spec_all_and_one(L, j):
    return [(event_ref(L, i), event_ref(L, j)) for i in range(L.number_of_events)]


def impl_all_and_one(reader, j):
    """other accesses in the middle of an iteration"""
    out = []
    for e in reader:
        len(reader)
        out.append((event_seen(e), event_seen(reader[j])))
    return out


def spec_exhausted(L):
    spec_all(L)
    raise StopIteration()


def impl_exhausted(reader):
    for e in reader:
        pass
    next(reader)


def spec_read_all(F, is_64bit):
    L = pml.open_log(F)
    need(L.is_64bit == is_64bit)
    return spec_all(L)


def impl_read_all(F, is_64bit):
    return [event_seen(e) for e in read_all_events_from_pml(BytesIO(F))]
