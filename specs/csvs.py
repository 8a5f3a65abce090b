"""Specification of the compatible CSV export and of an event's date."""
import datetime
from collections import OrderedDict

from procmon_parser import Process
from procmon_parser.logs import Event
from dv.api import need
from specs import tables as T

EPOCH = 116444736000000000      # 1970-01-01 in 100 ns since 1601
LAST = 2650467744000000000      # the first 100 ns that are no date any more (year 10000)
SECOND = 10 ** 7


def moment(ft):
    need(EPOCH <= ft and ft < LAST)
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=(ft - EPOCH) // SECOND)


def clock(ft, fraction):
    d = moment(ft)
    if d.hour < 12:
        half = 'AM'
    else:
        half = 'PM'
    text = '{}:{:02d}:{:02d}'.format((d.hour + 11) % 12 + 1, d.minute, d.second)
    if fraction:
        text += '.{:07d}'.format(ft % SECOND)
    return text + ' ' + half


def day_and_clock(ft):
    d = moment(ft)
    return '{}/{}/{} '.format(d.month, d.day, d.year) + clock(ft, False)


def relative(delta):
    need(delta >= 0)
    s = delta // SECOND
    return '{:02d}:{:02d}:{:02d}.{:07d}'.format(s // 3600, (s // 60) % 60, s % 60, delta % SECOND)


def seconds(v):
    return '{}.{:07d}'.format(v // SECOND, v % SECOND)


CLASS_NAME = {1: 'Process', 2: 'Registry', 3: 'File System', 4: 'Profiling', 5: 'Network'}


def shown_result(result):
    if result in T.RESULT:
        return T.RESULT[result]
    return '0x{:X}'.format(result)


def truth_text(b):
    if b == 0:
        return 'False'
    if b == 1:
        return 'True'
    return 'n/a'


def operation_text(cls, op):
    if '<Unknown>' in op:
        return '<Unknown>'
    if cls == 1:
        return op.replace('_', ' ')
    return op


TIMES = ('Date & Time', 'Time of Day', 'Relative Time', 'Duration', 'Completion Time')


def spec_times(p, cls, date, duration, result, first):
    need(duration >= 0 and result >= 0)
    if first is None or first == 0:
        first = date
    out = {}
    out['Date & Time'] = day_and_clock(date)
    out['Time of Day'] = clock(date, True)
    out['Relative Time'] = relative(date - first)
    # an operation that is still pending has neither
    if shown_result(result) != '':
        out['Duration'] = seconds(duration)
        out['Completion Time'] = clock(date + duration, True)
    else:
        out['Duration'] = ''
        out['Completion Time'] = ''
    return out


def spec_columns(p, cls, op, tid, result, category, path):
    out = {}
    out['Process Name'] = p['process_name']
    out['PID'] = '{}'.format(p['pid'])
    out['Operation'] = operation_text(cls, op)
    out['Result'] = shown_result(result)
    out['Detail'] = ''
    out['Company'] = p['company']
    out['Description'] = p['description']
    out['Command Line'] = p['command_line']
    out['User'] = p['user']
    out['Image Path'] = p['image_path']
    out['Session'] = '{}'.format(p['session'])
    out['Path'] = path
    out['TID'] = '{}'.format(tid)
    out['Version'] = p['version']
    out['Event Class'] = CLASS_NAME[cls]
    out['Authentication ID'] = '{:08x}:{:08x}'.format(p['authentication_id'] // 2 ** 32, p['authentication_id'] % 2 ** 32)
    out['Virtualized'] = truth_text(p['virtualized'])
    out['Integrity'] = p['integrity']
    out['Category'] = category
    out['Parent PID'] = '{}'.format(p['parent_pid'])
    if p['is_process_64bit']:
        out['Architecture'] = '64-bit'
    else:
        out['Architecture'] = '32-bit'
    return out


COLUMNS = ('Process Name', 'PID', 'Operation', 'Result', 'Detail', 'Company', 'Description', 'Command Line', 'User',
           'Image Path', 'Session', 'Path', 'TID', 'Version', 'Event Class', 'Authentication ID', 'Virtualized', 'Integrity',
           'Category', 'Parent PID', 'Architecture')


def impl_times(p, cls, date, duration, result, first):
    e = Event(Process(**p), 0, cls, 'op', duration, date, result, [], '', '', OrderedDict())
    r = e.get_compatible_csv_info(first)
    return {k: r[k] for k in TIMES}


def impl_columns(p, cls, op, tid, result, category, path):
    e = Event(Process(**p), tid, cls, op, 0, EPOCH, result, [], category, path, OrderedDict())
    r = e.get_compatible_csv_info()
    return {k: r[k] for k in COLUMNS}


# ---------------------------------------------------------------------------------------------------- the date
def spec_date(date):
    if date is None:
        return None
    need(EPOCH <= date and date < LAST)
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=(date - EPOCH) // 10)


def impl_date(date):
    return Event(Process(), 0, 4, 'op', 0, date, 0, [], '', '', None).date()


# ---------------------------------------------------------------------------------------------------- the details
DROPPED = ('TitleIndex', 'MaxNameLen', 'MaxValueNameLen', 'MaxValueDataLen', 'ClassOffset', 'ClassLength', 'MaxClassLen')


def registry_detail(op, key, v, type_name, query):
    """how a detail of a registry event is shown (None: not at all)"""
    if key in DROPPED:
        return None
    if key in ('Length', 'SubKeys', 'Values', 'Index'):
        return '{:,}'.format(v)
    if key in ('HandleTags', 'UserFlags', 'Wow64Flags'):
        return '0x{:x}'.format(v)
    if key == 'LastWriteTime':
        if op == 'RegSetInfoKey':
            return day_and_clock(v)
        return None
    if key == 'Name':
        if op == 'RegQueryValue':
            return None
        if op == 'RegQueryKey' and query == 'Name':
            return None
        return v
    if key == 'Data':
        if type_name == 'REG_BINARY':
            return ' '.join(['{:02X}'.format(b) for b in v])
        if type_name == 'REG_QWORD':
            return ''
        if type_name == 'REG_MULTI_SZ':
            return ', '.join(v)
        if isinstance(v, str):
            return '\n;'.join(v.split('\r\n'))
        return '{}'.format(v)
    return '{}'.format(v)


def process_detail(op, key, v):
    if op == 'Load_Image' and key in ('Image Base', 'Image Size'):
        return '0x{:x}'.format(v)
    if op == 'Thread_Exit' and key in ('User Time', 'Kernel Time'):
        return seconds(v)
    if op == 'Process_Start' and key == 'Environment':
        return '\n;\t' + '\n;\t'.join(v)
    return '{}'.format(v)


def file_detail(key, v):
    if key in ('AllocationSize', 'Offset', 'Length') and not isinstance(v, str):
        return '{:,}'.format(v)
    return '{}'.format(v)


def detail_text(cls, op, keys, values):
    type_name, query = '', ''
    for k, v in zip(keys, values):
        if k == 'Type':
            type_name = v
        if k == 'Query':
            query = v
    out = []
    for k, v in zip(keys, values):
        if cls == 2:
            text = registry_detail(op, k, v, type_name, query)
        elif cls == 1:
            text = process_detail(op, k, v)
        elif cls == 3:
            text = file_detail(k, v)
        else:
            text = '{}'.format(v)
        if text is not None:
            out.append('{}: {}'.format(k, text))
    return ', '.join(out)


def spec_detail(cls, op, keys, values):
    t = detail_text(cls, op, keys, values)
    return t, t, list(zip(keys, values))


def impl_detail(cls, op, keys, values):
    e = Event(Process(), 0, cls, op, 0, EPOCH, 0, [], '', '', OrderedDict(zip(keys, values)))
    first = e.get_compatible_csv_info()['Detail']
    again = e.get_compatible_csv_info()['Detail']
    return first, again, list(e.details.items())
