"""Specifications of the naming functions: masks, flags, codes, security identifiers."""
from procmon_parser import consts, stream_logs_detail_format as det
from dv.api import need, u8, u32, be48
from specs import tables as T, events


def spec_registry_access(mask):
    return events.registry_access(mask)


def impl_registry_access(mask):
    return consts.get_registry_access_mask_string(mask)


def spec_file_access(mask):
    return events.file_access(mask)


def impl_file_access(mask):
    return consts.get_filesystem_access_mask_string(mask)


def spec_options(mask):
    return events.listed(mask, T.CREATE_OPTIONS)


def impl_options(mask):
    return consts.get_filesysyem_create_options(mask)


def spec_attributes(mask):
    return events.attributes_text(mask)


def impl_attributes(mask):
    return consts.get_filesysyem_create_attributes(mask)


def spec_share(mask):
    return events.share_text(mask)


def impl_share(mask):
    return consts.get_filesysyem_create_share_mode(mask)


def spec_io_flags(mask):
    return events.listed(mask, T.IO_FLAGS)


def impl_io_flags(mask):
    return consts.get_filesysyem_io_flags(mask)


def spec_notify(mask):
    return events.listed(mask, T.NOTIFY)


def impl_notify(mask):
    return consts.get_filesystem_notify_change_flags(mask)


def spec_result(code):
    if code in T.RESULT:
        return T.RESULT[code]
    return '0x{:X}'.format(code)


def impl_result(code):
    return consts.get_error_message(code)


def spec_ioctl(code):
    return events.ioctl_text(code)


def impl_ioctl(code):
    return consts.get_ioctl_name(code)


def spec_sync(v):
    if v in T.SYNC_TYPE:
        return T.SYNC_TYPE[v]
    return 'Unknown: 0x{:x}'.format(v)


def impl_sync(v):
    return consts.get_filesystem_createfilemapping_synctype(v)


def spec_sid(S):
    n = len(S)
    need(n >= 8)
    revision, count = u8(S, 0), u8(S, 1)
    if revision != 1 or n != 8 + 4 * count:
        return ''
    text = 'S-1-{}'.format(be48(S, 2))
    for i in range(count):
        text += '-{}'.format(u32(S, 8 + 4 * i))
    return text


def impl_sid(S):
    return det.get_sid_string(S)
