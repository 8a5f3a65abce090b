"""Specification of the text readers (their contracts), and concrete fields for the search."""
from io import BytesIO

from procmon_parser import stream_helper
from dv.api import need, text_z, text_rest, multi_sz, multi_texts


def spec_sized(F, pos, size):
    """the text of the field, and the stream is left at the field's end"""
    return text_z(F, pos, size), pos + size


def impl_sized(F, pos, size):
    s = BytesIO(F)
    s.seek(pos)
    r = stream_helper.read_utf16(s, size)
    return r, s.tell()


def spec_rest(F, pos):
    return text_rest(F, pos), True


def impl_rest(F, pos):
    s = BytesIO(F)
    s.seek(pos)
    r = stream_helper.read_utf16(s)
    return r, pos <= s.tell() <= len(F)


def spec_multi(F, pos, size):
    return multi_sz(F, pos, size), pos + size


def impl_multi(F, pos, size):
    s = BytesIO(F)
    s.seek(pos)
    r = stream_helper.read_utf16_multisz(s, size)
    return r, s.tell()


def spec_multi_rest(F, pos):
    need(len(F) > pos)          # (at the end: the next one)
    return multi_sz(F, pos, len(F) - pos), True


def impl_multi_rest(F, pos):
    s = BytesIO(F)
    s.seek(pos)
    r = stream_helper.read_utf16_multisz(s)
    return r, pos <= s.tell() <= len(F)


def spec_multi_means(F, pos, size):
    return multi_sz(F, pos, size)


def impl_multi_means(F, pos, size):
    return multi_texts(F, pos, size)


def spec_multi_end(F):
    return ['']


def impl_multi_end(F):
    s = BytesIO(F)
    s.seek(len(F))
    return stream_helper.read_utf16_multisz(s)


UNITS = [0, 0, 0x41, 0x62, 0x100, 0x4100, 0xd800, 0xdc00, 0xdbff, 0xfffe, 0xfeff, 0xffff, 0x20, 10]


def sample_text(rng):
    return b''.join(rng.choice(UNITS).to_bytes(2, 'little') for _ in range(rng.randrange(9)))
