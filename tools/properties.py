"""The listed properties; `python3 tools/mkmanifest.py` writes properties.jsonl and MANIFEST.json from it."""
LOG = 'procmon_parser/stream_logs_format.py'
DET = 'procmon_parser/stream_logs_detail_format.py'
HLP = 'procmon_parser/stream_helper.py'
TYP = 'procmon_parser/logs.py'
CST = 'procmon_parser/consts.py'
API = 'procmon_parser/__init__.py'
CFG = 'procmon_parser/configuration_format.py'
CNS = 'procmon_parser/construct_helper.py'
RUL = 'procmon_parser/configuration.py'

FEW = ('The repository\'s tests compare a couple of recorded logs with Procmon\'s own exports; those logs hold only the '
       'values that happened to be recorded. ')
SMALL = 'The repository\'s tests hold a handful of literal values. '


def P(id, title, statement, text, why, files, mechanism, over=('inputs',)):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=list(files), mechanism=mechanism))


PROPERTIES = [
    P('P01', 'Log header: system details and the number of events',
      'For every well-formed log the length of the reader is the event count stored in the header, and the system details '
      'give the stored computer name, system root, Windows version and build, the whole service pack text, processor '
      'count, memory size (GB, two decimals, rounded down) and word size.',
      'every file with a valid header; every value of every header field, including texts that fill their field',
      FEW + 'No field is ever full, no service pack is ever present.',
      [LOG, TYP, HLP], 'fixed-offset header parsing and the formatting of system details'),
    P('P02', 'Files that are no usable log are rejected when opened',
      'Opening a file without the log signature, or one whose header has a zero table offset, a wrong header size or no '
      'hosts table, raises the library\'s log error; a format version other than 9 raises NotImplementedError. No such '
      'file ever yields a reader.',
      'every byte string that lacks the signature, and every header of full length with a defect named above',
      'No test opens a damaged file.', [LOG], 'signature, version and offset checks of the header'),
    P('P03', 'String table: each index denotes the text stored for it',
      'For every string table, wherever it lies and in whatever order its texts are stored, each text attribute of each '
      'process and module is exactly the stored text that its index designates: the UTF-16 characters before the first '
      'NUL or the end of the stored size.',
      'all string tables: any number of strings, any offsets (shared, overlapping or out of order), any sizes',
      FEW + 'Recorded tables are laid out sequentially by one writer.',
      [LOG, HLP], 'offset array of the string table and the sized UTF-16 reader'),
    P('P04', 'Process table: every process and module attribute',
      'For every process table and both word sizes, the list of processes has one entry per stored process in stored '
      'order, with each attribute (ids, session, times, flags, texts) read from its own field, and each module of a '
      'process with its base, size, texts and timestamp.',
      'all process tables with distinct process indexes: any number of processes and modules, any field values, both '
      'word sizes', FEW + 'Fields that are usually zero or equal are never told apart.',
      [LOG], 'process and module structures with pointer-size-dependent layout'),
    P('P05', 'Addresses and ports of network events resolve through the log\'s own tables',
      'The path of a network event shows, for each end, the host name the log stores for the exact 16-byte address and '
      'the service name it stores for the port and protocol; an address without a (non-empty) name is shown numerically '
      '(IPv4 dotted, IPv6 as eight hexadecimal groups) and a port without one as its number.',
      'all hosts and ports tables (any number, sizes, repeated keys) and all network events',
      FEW + 'Unresolved IPv6 addresses, repeated keys and UDP/TCP collisions do not occur together.',
      [LOG, DET], 'hosts and ports tables, and the formatting fallbacks'),
    P('P06', 'The reader is a faithful sequence: index, length, slice and iteration agree',
      'For every log, iterating yields the event at each index once, in order, and then stops; a slice is the list of the '
      'events at its indexes; an index outside the log raises IndexError, a negative one counts from the end.',
      'all logs, all indexes and slices (any bounds and steps), every point of an iteration',
      SMALL + 'They iterate over recorded logs; slices, negative indexes and exhaustion are hardly touched.',
      [API, TYP, LOG], 'event offset array, indexing and the iterator\'s position', over=('inputs', 'histories')),
    P('P07', 'Common fields of every event',
      'For every event of every class the process is the one its process index designates, and thread id, class, '
      'operation, duration, timestamp and result are the stored values, whatever the size of the stack and of the details.',
      'all events of well-formed logs of both word sizes', FEW, [LOG, TYP], 'fixed part of the event structure'),
    P('P08', 'The stack trace is the stored list of frames',
      'With stack traces enabled, an event\'s stack trace is exactly the stored frame addresses in stored order, as many '
      'as its depth field says, 8 bytes each in 64-bit logs and 4 in 32-bit logs.',
      'all depths and addresses, both word sizes, all event classes', FEW + 'Depths are small and addresses low.',
      [LOG], 'pointer reader selected by word size'),
    P('P09', 'Extra details are found wherever the event says they are',
      'An event that points to an extra-details block at any distance behind its details is decoded with that block\'s '
      'bytes, an event without one as if it had none; bytes between the blocks and around them never influence it.',
      'all placements and sizes of the extra block, present or absent, for every operation that uses one',
      FEW + 'In recorded logs the extra block follows directly.', [LOG, DET],
      'extra details offset relative to the event, size prefix, isolated sub-streams'),
    P('P10', 'Decoding an event does not depend on what was read before',
      'Whatever was accessed before and wherever the file position is, the event at an index is the same; decoding an '
      'event changes nothing but the file position.',
      'all histories of accesses to one reader, all file positions',
      'Tests read events in file order, once.', [LOG, TYP], 'seek before each event, no caches, no shared mutable state',
      over=('histories', 'inputs')),
    P('P11', 'Switching off stack traces or details changes nothing else',
      'Without stack traces every event has an empty stack and otherwise the same content; without details registry and '
      'file events keep process, operation, path and all common fields and only lose details and category.',
      'all events, all four combinations of the two options',
      'The tests use one combination on one log.', [LOG, DET, API], 'option flags inside event decoding',
      over=('inputs', 'configurations')),
    P('P12', 'Network events',
      'Every network event shows protocol and operation, both ends in order with host and port, the length, and the '
      'stored name/value pairs of further details.',
      'all network events (all operations, protocols, address families, ports, detail lists)',
      FEW, [DET, LOG], 'network detail structure'),
    P('P13', 'Process and thread events',
      'Process start, creation, exit, thread and image-load events show exactly the stored ids, times, sizes, command '
      'line, directory, environment and image path, for ASCII and UTF-16 texts and both word sizes.',
      'all operations of the class and all stored values', FEW, [DET], 'per-operation detail structures'),
    P('P14', 'Registry events: path and key operations',
      'Every registry event has the stored path; opening or creating a key shows desired access, granted access when '
      'the maximum was asked for, the disposition, and is a write exactly when a key was created; the other key '
      'operations show their stored parameters and category.',
      'all registry key operations, ASCII and UTF-16 paths, with and without the result block', FEW, [DET, CST],
      'path offset by operation, open/create result block'),
    P('P15', 'Registry key information',
      'Querying, enumerating and setting key information shows each field of the information class that was asked for, '
      'from its own place in the returned structure, or only the length when nothing was returned.',
      'all information classes and structures', FEW + 'Most information classes do not occur.', [DET, CST],
      'information-class structures'),
    P('P16', 'Registry values',
      'Querying, enumerating and setting a value shows name, type, length and the data decoded by type (numbers, texts, '
      'multi-strings, binary), bounded by what was captured.',
      'all value types, lengths and data, for query, enumeration and setting', FEW, [DET, CST],
      'value structures and the decoding by type'),
    P('P17', 'File system events: operation name, path, category',
      'Every file system event is named by operation and sub-operation (unknown sub-operations marked as such), has the '
      'stored path, and the category that belongs to the operation.',
      'all operations and sub-operations, ASCII and UTF-16 paths, both word sizes', FEW, [DET, CST],
      'sub-operation tables and path placement'),
    P('P18', 'CreateFile events',
      'A CreateFile event shows desired access, disposition, options, attributes, share mode, allocation size where it '
      'applies, the impersonated identity if any, and the result of the open; it is a write exactly when the open could '
      'or did create or overwrite.',
      'all parameter words, results, impersonation identifiers, both word sizes', FEW, [DET, CST],
      'parameter block, extra result word, SID'),
    P('P19', 'ReadFile and WriteFile events',
      'Reads and writes show the signed 64-bit offset, the length (the transferred length when known), the I/O flags and '
      'the priority that the event stores, and the right category.',
      'all offsets, lengths, flags and priorities, both word sizes', FEW, [DET, CST], 'I/O parameter block'),
    P('P20', 'Device and file system control events',
      'Control events show the name of the control code, or its device, function and method when it is not known, the '
      'lengths and offsets that belong to the code, and the category of the code.',
      'all 32-bit control codes and parameters', FEW + 'A few control codes occur.', [DET, CST],
      'control code table and category lists'),
    P('P21', 'Directory listings and change notification',
      'A directory query shows the filter appended to the path, the information class, and the names of all entries of '
      'the returned chain, numbered in order, for each of the six entry layouts; a change notification shows its filter.',
      'all chains of entries of any length and all entry layouts', FEW + 'One layout occurs.', [DET, CST],
      'chained entries with class-dependent layout'),
    P('P22', 'File mappings and delete dispositions',
      'Creating a mapping shows the sync type and the page protection; setting the delete disposition shows whether the '
      'file will be deleted and is a write only then.',
      'all sync types, protection masks and disposition bytes', FEW, [DET, CST], 'parameter words and protection bits'),
    P('P23', 'Access masks name exactly the rights they contain',
      'For every 32-bit mask, the text names every known right contained in the mask after expanding generic rights, '
      'combined names first and never repeated in their parts; a mask without known rights is shown as a number.',
      'all 2^32 masks for registry keys and for files', SMALL, [CST], 'greedy matching over ordered right tables'),
    P('P24', 'Flag lists name exactly the set flags',
      'Options, attributes, share modes, I/O flags and change-notification filters list exactly the known flags that are '
      'set, in the fixed order, with the fixed text when none is.',
      'all masks', SMALL, [CST], 'flag tables'),
    P('P25', 'Result codes and control codes have their fixed names',
      'Every 32-bit result code has its documented name or is shown in hexadecimal, and every control code its name or '
      'its decomposition.',
      'all 2^32 codes', SMALL, [CST], 'name tables and fallbacks'),
    P('P26', 'Security identifiers are shown in their standard form',
      'Every well-formed binary security identifier is shown as S-1-authority followed by all its sub-authorities in '
      'order; malformed ones are shown as empty.',
      'all byte strings: any revision, any count, 48-bit authorities', SMALL, [DET], 'SID decoding loop'),
    P('P27', 'UTF-16 text fields and multi-strings',
      'Reading a sized UTF-16 field gives the characters before the first NUL unit (all of them if there is none) and '
      'leaves the reader exactly behind the field, for every content; multi-string blocks give every text up to the '
      'empty one.',
      'all field contents and sizes', 'No test reads a text field directly.', [HLP], 'unit-wise reading loops'),
    P('P28', 'CSV columns for times and durations',
      'The date, time-of-day, relative-time, duration and completion-time columns are the exact decimal rendering of the '
      'event\'s 100-nanosecond timestamps and durations, without rounding or overflow.',
      'all timestamps and durations representable as dates', FEW, [TYP], 'integer arithmetic and formatting'),
    P('P29', 'The CSV detail column renders the details and leaves the event unchanged',
      'Exporting an event renders each detail by the rules of its class and operation, in order, and never changes the '
      'event: exporting again gives the same text.',
      'all events', FEW, [TYP], 'copy of the details, per-class rules', over=('inputs', 'histories')),
    P('P30', 'The date of an event is its timestamp',
      'The date of an event is the UTC date and time of its timestamp with microsecond precision, rounded down, for every '
      'timestamp from 1970 on.',
      'all timestamps whose date is representable', SMALL, [TYP], 'epoch arithmetic'),
    P('P31', 'Equality and hashing of events, processes, modules and rules',
      'Two values of these types are equal exactly when they have the same type and all attributes are equal, inequality '
      'is the negation, equal values have equal hashes and values of other types are never equal.',
      'all attribute values', SMALL, [TYP, RUL], 'eq/ne/hash methods'),
    P('P32', 'Configurations survive a round trip',
      'Loading what was dumped gives the same records in the same order with equal values, for every configuration of '
      'known and unknown options, including rules, fonts, texts, colours and column layouts.',
      'all configurations whose values are representable in their fields', SMALL, [CFG, CNS, RUL],
      'record format declarations'),
    P('P33', 'Dumped configurations have the documented record layout',
      'Each dumped record consists of its total size, the header size, the size of header and name, the size of the '
      'data, the NUL-terminated name and the data, with all sizes exact.',
      'all configurations', SMALL, [CFG, CNS], 'size fields computed after building'),
    P('P34', 'The numeric value stored with a filter rule',
      'A rule whose value is a decimal number fitting 32 bits stores that number next to the text, an architecture rule '
      'with any other value stores 32 or 64, every other rule stores zero, and every text can be dumped.',
      'all rule values and columns', SMALL, [CFG], 'numeric value of a rule'),
    P('P35', 'Damaged configurations are rejected or end cleanly',
      'A configuration cut inside a record loads as the records before it, and a record whose sizes contradict each '
      'other never yields data: loading raises an error or, when the record seems to extend beyond the end of the file, '
      'ends before it.',
      'all cuts and all size fields', SMALL, [CFG, CNS], 'stream end handling and size check'),
    P('P36', 'Rules accept names, numbers and enum values alike',
      'A rule built from names in any letter case, from numbers or from enum values has the same column, relation and '
      'action; unknown names or numbers and non-text values are rejected.',
      'all names, numbers and values', SMALL, [RUL], 'normalisation in the constructor'),
]
