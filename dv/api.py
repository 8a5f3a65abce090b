"""The vocabulary of the specifications.

Every function here has a plain Python definition (used when a specification runs natively, as the replay oracle) and a
symbolic counterpart in dv/handlers.py (used when the specification is executed by the verifier).
"""


class Open(Exception):
    """The precondition of the specification does not hold: the behaviour is left open."""


def need(cond):
    """Precondition / well-formedness condition of the input."""
    if not cond:
        raise Open()


def need_distinct(keys):
    """Precondition: the numbers are pairwise different."""
    need(len(set(keys)) == len(keys))


def uint(data, off, n):
    """The little-endian unsigned integer in data[off:off+n]; the bytes must exist."""
    need(off >= 0 and off + n <= len(data))
    return int.from_bytes(data[off:off + n], 'little')


def u8(data, off):
    return uint(data, off, 1)


def u16(data, off):
    return uint(data, off, 2)


def u32(data, off):
    return uint(data, off, 4)


def u64(data, off):
    return uint(data, off, 8)


def be48(data, off):
    need(off >= 0 and off + 6 <= len(data))
    return int.from_bytes(data[off:off + 6], 'big')


def s64(data, off):
    v = uint(data, off, 8)
    return v - 2 ** 64 if v >= 2 ** 63 else v


def sub(data, off, n):
    """data[off:off+n]; all of it must exist."""
    need(off >= 0 and n >= 0 and off + n <= len(data))
    return data[off:off + n]


def text_z(data, off, size):
    """The UTF-16 text of a field of ``size`` bytes: everything before its first NUL unit, or the whole field."""
    need(off >= 0 and size >= 0 and size % 2 == 0 and off + size <= len(data))
    m = 0
    while 2 * m < size and data[off + 2 * m:off + 2 * m + 2] != b'\0\0':
        m += 1
    return data[off:off + 2 * m].decode('utf-16-le', 'replace')


def text_rest(data, off):
    """The UTF-16 text from ``off`` to its first NUL unit or to the end of the data."""
    need(0 <= off <= len(data) and (len(data) - off) % 2 == 0)
    return text_z(data, off, len(data) - off)


def text_ascii(data, off, n):
    """n ASCII characters."""
    need(off >= 0 and n >= 0 and off + n <= len(data))
    b = data[off:off + n]
    need(all(x < 128 for x in b))
    return b.decode('ascii')


def multi_sz(data, off, size):
    """The texts of a multi-string block (in the verifier: the recursive definition in dv/multi.py, proved to be this one)."""
    return multi_texts(data, off, size)


def multi_texts(data, off, size):
    """The texts of a multi-string block: NUL-terminated texts up to an empty one (or to the end of the block)."""
    need(off >= 0 and size >= 0 and size % 2 == 0 and off + size <= len(data))
    out = []
    cur = b''
    done = False
    for p in range(off, off + size, 2):
        w = data[p:p + 2]
        if w == b'\0\0':
            if done:
                return out
            out.append(cur.decode('utf-16-le', 'replace'))
            cur = b''
            done = True
        else:
            cur += w
            done = False
    if cur:
        out.append(cur.decode('utf-16-le', 'replace'))
    return out


class ByteArray(object):
    """What bytearray() stands for in the verifier: a growing buffer."""

    def __init__(self):
        self.data = b''

    def extend(self, more):
        self.data = self.data + bytes(more)

    def append(self, number):
        self.data = self.data + bytes([number])

    def clear(self):
        self.data = b''

    def decode(self, encoding='utf-8', errors='strict'):
        return self.data.decode(encoding, errors)

    def __iadd__(self, more):
        self.data = self.data + bytes(more)
        return self

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        return self.data[i]

    def __eq__(self, other):
        return self.data == bytes(other)

    def __ne__(self, other):
        return self.data != bytes(other)
