"""Specification of the PML file: what a well-formed file (a byte string F) means.

Plain Python over F.  ``need(...)`` states a well-formedness condition: where one fails the specification says nothing.
"""
from dv.api import need, u8, u16, u32, u64, s64, sub, text_z


class Log(object):
    """The meaning of a file."""

    def __init__(self, F):
        self.F = F


def is_pml(F):
    need(len(F) >= 0x3a8)
    need(sub(F, 0, 4) == b'PML_')
    need(u32(F, 4) == 9)


def header(F):
    """The fixed part of the file."""
    is_pml(F)
    L = Log(F)
    L.is_64bit = u32(F, 8) != 0
    if L.is_64bit:
        L.psize = 8
    else:
        L.psize = 4
    L.number_of_events = u32(F, 0x234)
    L.events_at = u64(F, 0x240)
    L.offsets_at = u64(F, 0x248)
    L.processes_at = u64(F, 0x250)
    L.strings_at = u64(F, 0x258)
    L.icons_at = u64(F, 0x260)
    L.hosts_at = u64(F, 0x3a0)
    need(u64(F, 0x398) == 0x3a8)
    need(L.events_at != 0)
    need(L.offsets_at != 0)
    need(L.processes_at != 0)
    need(L.strings_at != 0)
    need(L.icons_at != 0)
    need(L.hosts_at != 0)
    return L


def event_offsets(L):
    """One 5-byte entry per event: the file offset of the event and a byte of flags."""
    F, n, at = L.F, L.number_of_events, L.offsets_at
    need(at + 5 * n <= L.processes_at)
    need(at + 5 * n <= len(F))
    return [u32(F, at + 5 * i) for i in range(n)]


def strings(L):
    F, at = L.F, L.strings_at
    n = u32(F, at)
    return [string(F, at + u32(F, at + 4 + 4 * i)) for i in range(n)]


def string(F, at):
    """A sized UTF-16 text."""
    return text_z(F, at + 4, u32(F, at))


def text(L, index):
    need(index < len(L.strings))
    return L.strings[index]


def pvoid(L, F, at):
    if L.is_64bit:
        return u64(F, at)
    return u32(F, at)


def module(L, at):
    F, p = L.F, L.psize
    return (pvoid(L, F, at + p), u32(F, at + 2 * p), text(L, u32(F, at + 2 * p + 4)), text(L, u32(F, at + 2 * p + 8)),
            text(L, u32(F, at + 2 * p + 12)), text(L, u32(F, at + 2 * p + 16)), u32(F, at + 2 * p + 20))


def process(L, at):
    F, p = L.F, L.psize
    n = u32(F, at + 0x60 + p)
    msize = 2 * p + 0x30
    mods = [module(L, at + 0x64 + p + msize * i) for i in range(n)]
    return {
        'pid': u32(F, at + 4), 'parent_pid': u32(F, at + 8), 'authentication_id': u64(F, at + 0x10),
        'session': u32(F, at + 0x18), 'start_time': u64(F, at + 0x20), 'end_time': u64(F, at + 0x28),
        'virtualized': u32(F, at + 0x30), 'is_process_64bit': u32(F, at + 0x34) != 0,
        'integrity': text(L, u32(F, at + 0x38)), 'user': text(L, u32(F, at + 0x3c)),
        'process_name': text(L, u32(F, at + 0x40)), 'image_path': text(L, u32(F, at + 0x44)),
        'command_line': text(L, u32(F, at + 0x48)), 'company': text(L, u32(F, at + 0x4c)),
        'version': text(L, u32(F, at + 0x50)), 'description': text(L, u32(F, at + 0x54)),
        'modules': mods}


def processes(L):
    F, at = L.F, L.processes_at
    n = u32(F, at)
    out = {}
    for i in range(n):
        p = at + u32(F, at + 4 + 4 * n + 4 * i)
        out[u32(F, p)] = process(L, p)
    return out


def hosts_and_ports(L):
    F, p = L.F, L.hosts_at
    hosts = {}
    n = u32(F, p)
    p += 4
    for i in range(n):
        size = u32(F, p + 16)
        hosts[sub(F, p, 16)] = text_z(F, p + 20, size)
        p += 20 + size
    ports = {}
    n = u32(F, p)
    p += 4
    for i in range(n):
        size = u32(F, p + 4)
        ports[(u16(F, p), u16(F, p + 2) != 0)] = text_z(F, p + 8, size)
        p += 8 + size
    return hosts, ports


def open_log(F):
    L = header(F)
    L.offsets = event_offsets(L)
    L.strings = strings(L)
    L.processes = processes(L)
    L.hosts, L.ports = hosts_and_ports(L)
    return L
