"""Specification of one event of a log: what the i-th event of a well-formed file means.

Layouts follow docs/PML Format.md, the Windows structures the format embeds, and the constants in specs/tables.py.
"""
from collections import OrderedDict

from dv.api import need, u8, u16, u32, u64, s64, be48, sub, text_z, text_rest, text_ascii, multi_sz
from specs import tables as T
from specs.pml import pvoid


class Block(object):
    """A structure of ``size`` bytes at offset ``at`` of the file."""

    def __init__(self, F, at, size):
        self.F = F
        self.at = at
        self.size = size


class Ev(object):
    """The meaning of one event."""


def at(B, off, n):
    need(off >= 0 and off + n <= B.size)
    return B.at + off


def g8(B, off):
    return u8(B.F, at(B, off, 1))


def g16(B, off):
    return u16(B.F, at(B, off, 2))


def g32(B, off):
    return u32(B.F, at(B, off, 4))


def g64(B, off):
    return u64(B.F, at(B, off, 8))


def gs64(B, off):
    return s64(B.F, at(B, off, 8))


def gtext(B, off, size):
    """A sized UTF-16 text inside the structure."""
    return text_z(B.F, at(B, off, size), size)


def ginfo(B, off):
    """The 16-bit description of a text: is it ASCII, and its number of characters."""
    v = g16(B, off)
    return v >= 0x8000, v % 0x8000


def gdetail(B, off, info):
    """A described text at ``off``; also the offset behind it."""
    is_ascii, n = info
    if is_ascii:
        return text_ascii(B.F, at(B, off, n), n), off + n
    return gtext(B, off, 2 * n), off + 2 * n


def names(mask, table):
    """The names of a bit mask: each entry of the table whose bits are all still present, in order; its bits are consumed."""
    out = []
    for bits, name in table:
        if mask & bits == bits:
            out.append(name)
            mask = mask & ~bits
    return out


def listed(mask, table):
    return ', '.join(names(mask, table))


def access_text(mask, generic, table):
    """Generic rights are expanded first; a mask without any known right is shown as a number."""
    for i in range(4):
        if mask & (0x80000000 >> i):
            mask = mask | generic[i]
    found = names(mask, table)
    if found:
        return ', '.join(found)
    return 'None 0x{:x}'.format(mask)


def registry_access(mask):
    return access_text(mask, T.REG_GENERIC, T.REG_ACCESS)


def file_access(mask):
    return access_text(mask, T.FILE_GENERIC, T.FILE_ACCESS)


# ---------------------------------------------------------------------------------------------------- common part
def event(L, i, want_stack=True, want_details=True):
    """The common part of event i, with the blocks of its details."""
    need(0 <= i and i < L.number_of_events)
    F, p = L.F, L.offsets[i]
    E = Ev()
    E.L = L
    E.want_details = want_details
    E.process_index = u32(F, p)
    need(E.process_index in L.processes)
    E.tid = u32(F, p + 4)
    E.event_class = u32(F, p + 8)
    E.op = u16(F, p + 0xC)
    E.duration = u64(F, p + 0x14)
    E.date = u64(F, p + 0x1C)
    E.result = u32(F, p + 0x24)
    depth = u16(F, p + 0x28)
    dsize = u32(F, p + 0x2C)
    xoff = u32(F, p + 0x30)
    dat = 0x34 + L.psize * depth
    need(p + dat + dsize <= len(F))
    if want_stack:
        E.stack = [pvoid(L, F, p + 0x34 + L.psize * k) for k in range(depth)]
    else:
        E.stack = []
    E.D = Block(F, p + dat, dsize)
    E.X = None
    if xoff > 0:
        need(xoff >= dat + dsize)
        xsize = u16(F, p + xoff)
        need(p + xoff + 2 + xsize <= len(F))
        E.X = Block(F, p + xoff + 2, xsize)
    E.path = ''
    E.category = ''
    E.details = OrderedDict()
    return E


# ---------------------------------------------------------------------------------------------------- profiling
def profiling_event(E):
    need(E.op in T.PROFILING_OPERATION)
    E.operation = T.PROFILING_OPERATION[E.op]


# ---------------------------------------------------------------------------------------------------- network
def host_name(L, ip, is_ipv4):
    """The cached name of an address; an address without one is shown in numbers."""
    name = L.hosts.get(ip, '')
    if name != '':
        return name
    if is_ipv4:
        return '.'.join([str(u8(ip, k)) for k in range(4)])
    return ':'.join(['{:x}'.format(u8(ip, 2 * k) * 256 + u8(ip, 2 * k + 1)) for k in range(8)])


def port_name(L, port, is_tcp):
    return L.ports.get((port, is_tcp), str(port))


def network_event(E):
    L, D = E.L, E.D
    need(E.op in T.NETWORK_OPERATION)
    flags = g16(D, 0)
    is_tcp = flags & 4 != 0
    if is_tcp:
        E.operation = 'TCP ' + T.NETWORK_OPERATION[E.op]
    else:
        E.operation = 'UDP ' + T.NETWORK_OPERATION[E.op]
    E.details['Length'] = g32(D, 4)
    src = sub(D.F, at(D, 8, 16), 16)
    dst = sub(D.F, at(D, 24, 16), 16)
    E.path = '{}:{} -> {}:{}'.format(
        host_name(L, src, flags & 1 != 0), port_name(L, g16(D, 40), is_tcp),
        host_name(L, dst, flags & 2 != 0), port_name(L, g16(D, 42), is_tcp))
    rest = D.size - 44
    if rest > 0:
        pairs = multi_sz(D.F, at(D, 44, rest), rest)
        for k in range(len(pairs) // 2):
            E.details[pairs[2 * k]] = pairs[2 * k + 1]


# ---------------------------------------------------------------------------------------------------- process
def process_event(E):
    L, D, d = E.L, E.D, E.details
    need(E.op in T.PROCESS_OPERATION)
    name = T.PROCESS_OPERATION[E.op]
    E.operation = name
    if name == 'Process_Defined' or name == 'Process_Create':
        d['PID'] = g32(D, 4)
        off = 0x34 + g8(D, 0x2c) + g8(D, 0x2d)
        E.path, off = gdetail(D, off, ginfo(D, 0x2e))
        d['Command line'], off = gdetail(D, off, ginfo(D, 0x30))
    elif name == 'Process_Exit' or name == 'Process_Statistics':
        d['Exit Status'] = g32(D, 0)
        d['User Time'] = g64(D, 12)
        d['Kernel Time'] = g64(D, 4)
        d['Private Bytes'] = g64(D, 36)
        d['Peak Private Bytes'] = g64(D, 44)
        d['Working Set'] = g64(D, 20)
        d['Peak Working Set'] = g64(D, 28)
    elif name == 'Thread_Create':
        d['Thread ID'] = g32(D, 0)
    elif name == 'Thread_Exit':
        d['Thread ID'] = E.tid
        d['User Time'] = g64(D, 12)
        d['Kernel Time'] = g64(D, 4)
    elif name == 'Load_Image':
        p = L.psize
        d['Image Base'] = pvoid(L, D.F, at(D, 0, p))
        d['Image Size'] = g32(D, p)
        E.path, off = gdetail(D, p + 8, ginfo(D, p + 4))
    elif name == 'Process_Start':
        d['Parent PID'] = g32(D, 0)
        d['Command line'], off = gdetail(D, 12, ginfo(D, 4))
        d['Current directory'], off = gdetail(D, off, ginfo(D, 6))
        n = 2 * g32(D, 8)
        d['Environment'] = multi_sz(D.F, at(D, off, n), n)


# ---------------------------------------------------------------------------------------------------- registry
def registry_type(v):
    if v in T.REG_TYPE:
        return T.REG_TYPE[v]
    return '<Unknown: {}>'.format(v)


def registry_data(B, off, type_name, length):
    """The data of a value (``length`` bytes were meant; fewer may have been captured)."""
    need(off <= B.size)
    left = B.size - off
    if type_name == 'REG_DWORD':
        if left < 4:
            return ''
        return g32(B, off)
    if type_name == 'REG_QWORD':
        if left < 8:
            return ''
        return g64(B, off)
    if type_name == 'REG_SZ' or type_name == 'REG_EXPAND_SZ':
        need(left % 2 == 0)
        return text_z(B.F, B.at + off, left)
    if type_name == 'REG_BINARY':
        return sub(B.F, B.at + off, min(length, left))
    if type_name == 'REG_MULTI_SZ':
        need(length <= left)
        return multi_sz(B.F, B.at + off, length)
    return ''


def registry_event(E):
    D, X, d = E.D, E.X, E.details
    need(E.op in T.REGISTRY_OPERATION)
    name = T.REGISTRY_OPERATION[E.op]
    E.operation = name
    info = ginfo(D, 0)
    if name == 'RegLoadKey' or name == 'RegRenameKey':
        start = 4
    elif name == 'RegOpenKey' or name == 'RegCreateKey':
        start = 8
    elif name == 'RegQueryKey' or name == 'RegQueryValue':
        start = 12
    elif (name == 'RegEnumKey' or name == 'RegEnumValue' or name == 'RegSetInfoKey' or name == 'RegSetValue'):
        start = 16
    else:
        start = 2
    need(start <= D.size)
    E.path, end = gdetail(D, start, info)
    if not E.want_details:
        return
    if name == 'RegLoadKey':
        d['Hive Path'], end = gdetail(D, end, ginfo(D, 2))
    elif name == 'RegRenameKey':
        E.category = 'Write'
        d['New Name'], end = gdetail(D, end, ginfo(D, 2))
    elif name == 'RegOpenKey' or name == 'RegCreateKey':
        registry_open(E, g32(D, 4))
    elif name == 'RegQueryKey':
        registry_key_info(E, g32(D, 4), g32(D, 8), None)
    elif name == 'RegEnumKey':
        registry_key_info(E, g32(D, 4), g32(D, 12), g32(D, 8))
    elif name == 'RegQueryValue':
        registry_value_info(E, g32(D, 4), g32(D, 8), None)
    elif name == 'RegEnumValue':
        registry_value_info(E, g32(D, 4), g32(D, 12), g32(D, 8))
    elif name == 'RegSetInfoKey':
        E.category = 'Write Metadata'
        cls, length = g32(D, 4), g16(D, 12)
        if cls in T.REG_SET_INFO:
            d['KeySetInformationClass'] = T.REG_SET_INFO[cls]
        else:
            d['KeySetInformationClass'] = '<Unknown: {}>'.format(cls)
        d['Length'] = length
        if length > 0:
            if cls == 0:
                d['LastWriteTime'] = g64(D, end)
            elif cls == 1:
                d['Wow64Flags'] = g32(D, end)
            elif cls == 5:
                d['HandleTags'] = g32(D, end)
    elif name == 'RegSetValue':
        E.category = 'Write'
        v, length = g32(D, 4), g32(D, 8)
        d['Type'] = registry_type(v)
        d['Length'] = length
        n = min(length, g32(D, 12))
        if n > 0 and v in T.REG_TYPE:
            d['Data'] = registry_data(D, end, T.REG_TYPE[v], n)
    elif name == 'RegDeleteKey' or name == 'RegDeleteValue':
        E.category = 'Write'
    elif name == 'RegQueryMultipleValueKey':
        E.category = 'Read'
    elif name == 'RegSetKeySecurity':
        E.category = 'Write Metadata'
    elif name == 'RegQueryKeySecurity':
        E.category = 'Read Metadata'


def registry_open(E, access):
    X, d = E.X, E.details
    E.category = 'Read'
    if access == 0:
        return
    d['Desired Access'] = registry_access(access)
    if X is None:
        return
    if d['Desired Access'] == 'Maximum Allowed':
        d['Granted Access'] = registry_access(g32(X, 0))
    disposition = g32(X, 4)
    if disposition in T.REG_DISPOSITION:
        d['Disposition'] = T.REG_DISPOSITION[disposition]
        if disposition == 1:
            E.category = 'Write'


def registry_key_info(E, length, cls, index):
    X, d = E.X, E.details
    E.category = 'Read'
    need(cls in T.REG_KEY_INFO)
    name = T.REG_KEY_INFO[cls]
    if index is None:
        d['Query'] = name
    else:
        d['Index'] = index
    if X is None:
        d['Length'] = length
    elif cls == 0:      # KEY_BASIC_INFORMATION
        d['LastWriteTime'] = g64(X, 0)
        d['TitleIndex'] = g32(X, 8)
        d['Name'] = gtext(X, 16, g32(X, 12))
    elif cls == 1:      # KEY_NODE_INFORMATION
        d['LastWriteTime'] = g64(X, 0)
        d['TitleIndex'] = g32(X, 8)
        d['ClassOffset'] = g32(X, 12)
        d['ClassLength'] = g32(X, 16)
        d['Name'] = gtext(X, 24, g32(X, 20))
    elif cls == 2:      # KEY_FULL_INFORMATION
        d['LastWriteTime'] = g64(X, 0)
        d['TitleIndex'] = g32(X, 8)
        d['ClassOffset'] = g32(X, 12)
        d['ClassLength'] = g32(X, 16)
        d['SubKeys'] = g32(X, 20)
        d['MaxNameLen'] = g32(X, 24)
        d['MaxClassLen'] = g32(X, 28)
        d['Values'] = g32(X, 32)
        d['MaxValueNameLen'] = g32(X, 36)
        d['MaxValueDataLen'] = g32(X, 40)
    elif cls == 3:      # KEY_NAME_INFORMATION
        d['Name'] = gtext(X, 4, g32(X, 0))
    elif cls == 4:      # KEY_CACHED_INFORMATION
        d['LastWriteTime'] = g64(X, 0)
        d['TitleIndex'] = g32(X, 8)
        d['SubKeys'] = g32(X, 12)
        d['MaxNameLen'] = g32(X, 16)
        d['Values'] = g32(X, 20)
        d['MaxValueNameLen'] = g32(X, 24)
        d['MaxValueDataLen'] = g32(X, 28)
    elif cls == 5:      # KEY_FLAGS_INFORMATION
        d['UserFlags'] = g32(X, 0)
    elif cls == 7:      # KEY_HANDLE_TAGS_INFORMATION
        d['HandleTags'] = g32(X, 0)


def registry_value_info(E, length, cls, index):
    X, d = E.X, E.details
    E.category = 'Read'
    need(cls in T.REG_VALUE_INFO)
    if index is not None:
        d['Index'] = index
    if X is None:
        d['Length'] = length
        return
    type_name = registry_type(g32(X, 4))
    if cls == 1:        # KEY_VALUE_FULL_INFORMATION
        d['Name'] = gtext(X, 20, g32(X, 16))
        data, n = g32(X, 8), g32(X, 12)
    elif cls == 2:      # KEY_VALUE_PARTIAL_INFORMATION
        data, n = 12, g32(X, 8)
    else:
        d['Type'] = type_name
        return
    d['Type'] = type_name
    d['Length'] = n
    if n > 0:
        d['Data'] = registry_data(X, data, type_name, n)


# ---------------------------------------------------------------------------------------------------- file system
def file_event(E):
    L, D, d = E.L, E.D, E.details
    need(E.op in T.FILE_OPERATION)
    name = T.FILE_OPERATION[E.op]
    s = g8(D, 0)
    if s != 0 and E.op in T.SUB_OPERATION:
        if s in T.SUB_OPERATION[E.op]:
            name = T.SUB_OPERATION[E.op][s]
        else:
            name = name + ' <Unknown>'
    E.operation = name
    p = 0x18 + 5 * L.psize
    E.path, end = gdetail(D, p + 4, ginfo(D, p))
    if not E.want_details:
        return
    # the parameters of the operation: pointer-sized fields are padded on 64-bit systems
    if L.is_64bit:
        third, fourth, fifth = 0x18, 0x20, 0x20
    else:
        third, fourth, fifth = 0x14, 0x18, 0x18
    if name == 'CreateFile':
        create_file(E, third, end)
    elif name == 'ReadFile' or name == 'WriteFile':
        if name == 'ReadFile':
            E.category = 'Read'
        else:
            E.category = 'Write'
        flags = g32(D, 8)
        length = g32(D, 0x10)
        d['Offset'] = gs64(D, fourth)
        if E.X is not None:
            length = g32(E.X, 0)
        d['Length'] = length
        if flags & 0xe000ff != 0:
            d['I/O Flags'] = listed(flags & 0xe000ff, T.IO_FLAGS)
        priority = (flags >> 17) & 7
        if priority != 0:
            if priority in T.PRIORITY:
                d['Priority'] = T.PRIORITY[priority]
            else:
                d['Priority'] = '0x{:x}'.format(priority)
    elif name == 'FileSystemControl' or name == 'DeviceIoControl':
        control_file(E, name, fourth, end)
    elif name == 'QueryDirectory':
        query_directory(E, fourth, end)
    elif name == 'NotifyChangeDirectory':
        E.category = 'Read Metadata'
        d['Filter'] = listed(g32(D, third), T.NOTIFY)
    elif name == 'QueryIdInformation' or name == 'QueryRemoteProtocolInformation':
        E.category = 'Read Metadata'
    elif name == 'SetDispositionInformationFile':
        if g8(D, end) != 0:
            d['Delete'] = 'True'
            E.category = 'Write'
        else:
            d['Delete'] = 'False'
    elif name == 'CreateFileMapping':
        sync, protection = g32(D, 0x10), g32(D, 0x14)
        if sync in T.SYNC_TYPE:
            d['SyncType'] = T.SYNC_TYPE[sync]
        else:
            d['SyncType'] = 'Unknown: 0x{:x}'.format(sync)
        for bit in (0x2, 0x4, 0x8, 0x10, 0x20, 0x40):
            if protection & bit:
                d['PageProtection'] = T.PAGE_PROTECTION[bit]
                if protection & 0x200:
                    d['PageProtection'] = T.PAGE_PROTECTION[bit] + '|PAGE_NOCACHE'
                break


def sid_text(F, p, n):
    """The usual text of a security identifier of n bytes ('' when it is not one)."""
    need(n >= 1)
    if u8(F, p) != 1:
        return ''
    need(n >= 8)
    count = u8(F, p + 1)
    if n != 8 + 4 * count:
        return ''
    return 'S-1-{}'.format(be48(F, p + 2)) + ''.join(['-{}'.format(u32(F, p + 8 + 4 * k)) for k in range(count)])


def name_or(table, v, otherwise):
    if v in table:
        return table[v]
    return otherwise


def attributes_text(v):
    if v == 0:
        return 'n/a'
    return ''.join(names(v, T.FILE_ATTRIBUTES))


def share_text(v):
    if v == 0:
        return 'None'
    return listed(v, T.SHARE_MODE)


def create_file(E, third, end):
    L, D, X, d = E.L, E.D, E.X, E.details
    d['Desired Access'] = file_access(g32(D, end))
    v = g32(D, third)
    disposition = v >> 24
    flags = third + L.psize
    d['Disposition'] = name_or(T.DISPOSITION, disposition, '<unknown>')
    d['Options'] = listed(v & 0xffffff, T.CREATE_OPTIONS)
    attributes, share = g16(D, flags), g16(D, flags + 2)
    d['Attributes'] = attributes_text(attributes)
    d['ShareMode'] = share_text(share)
    allocation = g32(D, flags + 8 + 2 * L.psize)
    if disposition == 0 or disposition == 2 or disposition == 3 or disposition == 5:
        d['AllocationSize'] = allocation
    else:
        d['AllocationSize'] = 'n/a'
    sid = g8(D, end + 4)
    if sid != 0:
        d['Impersonating'] = sid_text(D.F, at(D, end + 8, sid), sid)
    if X is not None:
        r = g32(X, 0)
        d['OpenResult'] = name_or(T.OPEN_RESULT, r, '<unknown>')
        if r == 0 or r == 2 or r == 3:
            E.category = 'Write'
            return
        if r == 1 or r == 4 or r == 5:
            return
    if disposition != 1 and disposition in T.DISPOSITION:
        E.category = 'Write'


def ioctl_text(v):
    if v in T.IOCTL:
        return T.IOCTL[v]
    return '0x{:x} (Device:0x{:x} Function:{} Method: {})'.format(v, v >> 16, (v >> 2) & 0xfff, v & 3)


CONTROL_CATEGORY = {
    'FSCTL_OFFLOAD_READ': 'Read', 'FSCTL_GET_REPARSE_POINT': 'Read', 'FSCTL_READ_RAW_ENCRYPTED': 'Read',
    'FSCTL_OFFLOAD_WRITE': 'Write', 'FSCTL_MOVE_FILE': 'Write', 'FSCTL_DELETE_REPARSE_POINT': 'Write',
    'FSCTL_WRITE_RAW_ENCRYPTED': 'Write', 'FSCTL_PIPE_TRANSCEIVE': 'Write', 'FSCTL_PIPE_INTERNAL_TRANSCEIVE': 'Write',
    'FSCTL_SET_COMPRESSION': 'Write Metadata', 'FSCTL_WRITE_PROPERTY_DATA': 'Write Metadata',
    'FSCTL_SET_OBJECT_ID': 'Write Metadata', 'FSCTL_DELETE_OBJECT_ID': 'Write Metadata',
    'FSCTL_SET_REPARSE_POINT': 'Write Metadata', 'FSCTL_SET_SPARSE': 'Write Metadata',
    'FSCTL_SET_ENCRYPTION': 'Write Metadata', 'FSCTL_CREATE_USN_JOURNAL': 'Write Metadata',
    'FSCTL_WRITE_USN_CLOSE_RECORD': 'Write Metadata', 'FSCTL_EXTEND_VOLUME': 'Write Metadata',
    'FSCTL_DELETE_USN_JOURNAL': 'Write Metadata',
    'FSCTL_QUERY_RETRIEVAL_POINTERS': 'Read Metadata', 'FSCTL_GET_COMPRESSION': 'Read Metadata',
    'FSCTL_QUERY_FAT_BPB': 'Read Metadata', 'FSCTL_FILESYSTEM_GET_STATISTICS': 'Read Metadata',
    'FSCTL_GET_NTFS_VOLUME_DATA': 'Read Metadata', 'FSCTL_GET_NTFS_FILE_RECORD': 'Read Metadata',
    'FSCTL_GET_VOLUME_BITMAP': 'Read Metadata', 'FSCTL_GET_RETRIEVAL_POINTERS': 'Read Metadata',
    'FSCTL_IS_VOLUME_DIRTY': 'Read Metadata', 'FSCTL_READ_PROPERTY_DATA': 'Read Metadata',
    'FSCTL_FIND_FILES_BY_SID': 'Read Metadata', 'FSCTL_GET_OBJECT_ID': 'Read Metadata',
    'FSCTL_READ_USN_JOURNAL': 'Read Metadata', 'FSCTL_SET_OBJECT_ID_EXTENDED': 'Read Metadata',
    'FSCTL_CREATE_OR_GET_OBJECT_ID': 'Read Metadata', 'FSCTL_READ_FILE_USN_DATA': 'Read Metadata',
    'FSCTL_QUERY_USN_JOURNAL': 'Read Metadata',
}


def control_file(E, name, fourth, end):
    D, d = E.D, E.details
    wlen, rlen, code = g32(D, 0xc), g32(D, 0x10), g32(D, fourth)
    control = ioctl_text(code)
    d['Control'] = control
    if code in T.IOCTL:
        E.category = CONTROL_CATEGORY.get(T.IOCTL[code], '')
    if name == 'FileSystemControl':
        if control == 'FSCTL_PIPE_INTERNAL_WRITE':
            d['Length'] = wlen
        elif control == 'FSCTL_PIPE_INTERNAL_READ':
            d['Length'] = rlen
        elif control == 'FSCTL_OFFLOAD_READ' or control == 'FSCTL_OFFLOAD_WRITE':
            d['Offset'] = gs64(D, end)
            d['Length'] = g64(D, end + 8)
        elif control == 'FSCTL_PIPE_TRANSCEIVE' or control == 'FSCTL_PIPE_INTERNAL_TRANSCEIVE':
            d['WriteLength'] = wlen
            d['ReadLength'] = rlen


# where an entry of a directory listing keeps the size of its name, and the name
LISTING = {
    1: (60, 64),        # FILE_DIRECTORY_INFORMATION
    2: (60, 68),        # FILE_FULL_DIR_INFORMATION
    3: (60, 94),        # FILE_BOTH_DIR_INFORMATION
    12: (8, 12),        # FILE_NAMES_INFORMATION
    37: (60, 104),      # FILE_ID_BOTH_DIR_INFORMATION
    38: (60, 80),       # FILE_ID_FULL_DIR_INFORMATION
}


def query_directory(E, fourth, end):
    D, X, d = E.D, E.X, E.details
    E.category = 'Read Metadata'
    pattern, end = gdetail(D, end + 2, ginfo(D, end))
    if pattern != '':
        need(E.path != '')
        if E.path.endswith('\\'):
            E.path = E.path + pattern
        else:
            E.path = E.path + '\\' + pattern
        d['Filter'] = pattern
    cls = g32(D, fourth)
    need(cls in T.FILE_INFO)
    d['FileInformationClass'] = T.FILE_INFO[cls]
    if X is not None and cls in LISTING:
        # a chain of entries: each begins with the distance to the next one (0, or one that leads out, ends the chain)
        size_at, name_at = LISTING[cls]
        i = 1 if pattern != '' else 0
        p = 0
        step = g32(X, p)
        d[str(i)] = gtext(X, p + name_at, g32(X, p + size_at))
        while g32(X, p) != 0 and p + g32(X, p) <= X.size:
            p += g32(X, p)
            i += 1
            d[str(i)] = gtext(X, p + name_at, g32(X, p + size_at))


CLASSES = {1: process_event, 2: registry_event, 3: file_event, 4: profiling_event, 5: network_event}
