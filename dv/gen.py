"""Random well-formed (and slightly broken) logs, for the search of a failing input and for the concrete cross-check.

Nothing here decides a property: an input counts only when the specification and the code, both run by CPython, disagree
on it.
"""
import struct

from specs import tables as T

B32 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 0x10, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000,
       0xfffffffe, 0xffffffff]
WORDS = ['a', 'Zz', 'C:\\Windows', '\\Device\\x', 'HKLM\\Software', 'long name with spaces', 'x' * 40, 'e.t.c', '0', 'A\\',
         'one\r\ntwo', 'comma, and: colon', '\r', '\n', ';', '%s {}', 'Open']
UWORDS = ['\u05d0\u05d1', '\U0001f600', '\ud800', 'a\udc00b', '\uffff', '\ufeffbom', 'n\u0303', '\u0100', '\u0001']


class Gen(object):
    def __init__(self, rng, bits):
        self.r = rng
        self.bits = bits
        self.psize = 8 if bits == 64 else 4
        self.big = None                 # what is unusually large in this log

    # ------------------------------------------------------------------ numbers and texts
    def u(self, n=32, pool=None):
        r = self.r
        k = r.random()
        if pool and k < 0.75:
            return r.choice(pool) & (2 ** n - 1)
        if k < 0.45:
            return r.choice(B32) & (2 ** n - 1)
        if k < 0.6:
            return (1 << r.randrange(n)) & (2 ** n - 1)
        if k < 0.7:
            return (2 ** n - 1 - r.randrange(4)) & (2 ** n - 1)
        if k < 0.85:
            return r.randrange(256) & (2 ** n - 1)
        return r.getrandbits(n)

    def p(self):
        return self.u(8 * self.psize)

    def pv(self, v):
        return v.to_bytes(self.psize, 'little')

    def text(self, uni=True):
        r = self.r
        k = r.random()
        if self.big == 'text' and r.random() < 0.3:
            n = r.choice([127, 128, 255, 256, 257, 1000, 16384, 20000, 66000])
            return ''.join(r.choice(WORDS) + ' ' for _ in range(n))[:n]
        if k < 0.12:
            return ''
        if uni and k < 0.35:
            return ''.join(r.choice(UWORDS + WORDS) for _ in range(r.randrange(1, 4)))
        if k < 0.8:
            return r.choice(WORDS)
        return ''.join(chr(r.randrange(32, 127)) for _ in range(r.randrange(1, 12)))

    def u16(self, t):
        return t.encode('utf-16-le', 'surrogatepass')

    def wtext(self):
        """bytes of a sized UTF-16 text (perhaps NUL-terminated, perhaps with rubbish behind the NUL)"""
        b = self.u16(self.text())
        k = self.r.random()
        if k < 0.5:
            b += b'\0\0'
        elif k < 0.65:
            b += b'\0\0' + self.u16(self.text())
        return b

    def dtext(self, nonempty=False):
        """(info, bytes) of a described text"""
        while True:
            if self.r.random() < 0.5:
                t = self.text(False)[:0x7fff]
                b = t.encode('ascii')
                info = 0x8000 | len(b)
            else:
                b = self.u16(self.text())
                if self.r.random() < 0.1:
                    b += b'\0\0' + self.u16(self.text())
                b = b[:0xfffe]
                info = len(b) // 2
            if b or not nonempty:
                return info, b

    def msz(self):
        out = b''
        for _ in range(self.r.choice([0, 0, 1, 2, 2, 3, 4, 5] if self.big != 'texts' else [100, 300, 1000, 5000])):
            out += self.u16(self.text()) + b'\0\0'
        if self.r.random() < 0.6:
            out += b'\0\0'
            if self.r.random() < 0.3:
                out += self.u16(self.text()) + b'\0\0'
        elif out and self.r.random() < 0.3:
            out = out[:-2]
        return out

    def junk(self, n):
        return bytes(self.u(8) for _ in range(n)) if n < 500 else self.r.getrandbits(8 * n).to_bytes(n, 'little')

    def cut(self, b):
        """sometimes lose the end of a block"""
        if self.r.random() < 0.06 and b:
            return b[:self.r.randrange(len(b))]
        if self.r.random() < 0.1:
            return b + self.junk(self.r.randrange(8))
        return b

    # ------------------------------------------------------------------ events
    def profiling(self, op):
        return self.junk(self.r.choice([0, 0, 8, 21])), None if self.r.random() < 0.8 else self.junk(4)

    def network(self, op):
        def port():
            return self.r.choice(self.ports)[0] if self.ports and self.r.random() < 0.6 else self.u(16)

        def ip():
            return self.r.choice(self.hosts)[0] if self.hosts and self.r.random() < 0.6 else self.ip()
        d = struct.pack('<HHI', self.u(16) & 0xfff8 | self.r.randrange(8), self.u(16), self.u())
        d += ip() + ip() + struct.pack('<HH', port(), port())
        return d + self.msz(), None if self.r.random() < 0.9 else self.junk(6)

    def ip(self):
        k = self.r.random()
        if k < 0.5:
            return self.junk(4) + b'\0' * 12
        if k < 0.7:
            return b'\0' * 10 + b'\xff\xff' + self.junk(4)
        return bytes(self.r.choice([0, 0, 1, 0x10, 0xab, 255]) for _ in range(16))

    def process(self, op):
        name = T.PROCESS_OPERATION.get(op)
        if name in ('Process_Defined', 'Process_Create'):
            s1, s2 = self.r.choice([0, 12, 28]), self.r.choice([0, 12])
            (i1, p), (i2, c) = self.dtext(), self.dtext()
            d = self.words(11) + bytes([s1, s2]) + struct.pack('<HH', i1, i2) + self.junk(2) + self.junk(s1 + s2) + p + c
        elif name in ('Process_Exit', 'Process_Statistics'):
            d = self.words(13)
        elif name == 'Thread_Create':
            d = self.words(1)
        elif name == 'Thread_Exit':
            d = self.words(5)
        elif name == 'Load_Image':
            i1, p = self.dtext()
            d = self.pv(self.p()) + struct.pack('<IHH', self.u(), i1, self.u(16))
            d = self.pv(self.p()) + struct.pack('<I', self.u())[:4]
            d = self.pv(self.p()) + struct.pack('<I', self.u()) + struct.pack('<H', i1) + self.junk(2) + p
        elif name == 'Process_Start':
            (i1, c), (i2, q) = self.dtext(), self.dtext()
            e = self.msz()
            d = struct.pack('<IHHI', self.u(), i1, i2, len(e) // 2) + c + q + e
        else:
            d = self.junk(self.r.randrange(40))
        return d, None if self.r.random() < 0.9 else self.junk(5)

    def words(self, n, pool=None):
        return b''.join(struct.pack('<I', self.u(32, pool)) for _ in range(n))

    def reg_data(self, typ, sized=True):
        name = T.REG_TYPE.get(typ, '')
        r = self.r
        if name == 'REG_DWORD':
            b = self.words(1)
        elif name == 'REG_QWORD':
            b = self.words(2)
        elif name in ('REG_SZ', 'REG_EXPAND_SZ'):
            b = self.wtext()
        elif name == 'REG_MULTI_SZ':
            b = self.msz()
        else:
            b = self.junk(r.randrange(20))
        if r.random() < 0.2 and name != 'REG_MULTI_SZ':
            b = b[:r.randrange(len(b) + 1)]
        return b

    def registry(self, op):
        r = self.r
        name = T.REGISTRY_OPERATION.get(op)
        i, p = self.dtext()
        x = None
        some = r.random() < 0.7
        if name in ('RegLoadKey', 'RegRenameKey'):
            j, q = self.dtext()
            d = struct.pack('<HH', i, j) + p + q
        elif name in ('RegOpenKey', 'RegCreateKey'):
            access = r.choice([0x02000000, 0, self.mask(T.REG_ACCESS, T.REG_GENERIC)])
            d = struct.pack('<HHI', i, self.u(16), access) + p
            if some:
                x = struct.pack('<II', self.mask(T.REG_ACCESS, T.REG_GENERIC), self.u(32, list(T.REG_DISPOSITION)))
        elif name in ('RegQueryKey', 'RegEnumKey'):
            cls = self.u(32, list(T.REG_KEY_INFO))
            if name == 'RegQueryKey':
                d = struct.pack('<HHII', i, 0, self.u(), cls) + p
            else:
                d = struct.pack('<HHIII', i, 0, self.u(), self.u(), cls) + p
            if some:
                t = self.wtext()
                if cls == 0:
                    x = self.words(3) + struct.pack('<I', len(t)) + t
                elif cls == 1:
                    x = self.words(5) + struct.pack('<I', len(t)) + t
                elif cls == 3:
                    x = struct.pack('<I', len(t)) + t
                else:
                    x = self.words(11)
                x += self.junk(r.choice([0, 2, 8]))
        elif name in ('RegQueryValue', 'RegEnumValue'):
            cls = self.u(32, list(T.REG_VALUE_INFO))
            if name == 'RegQueryValue':
                d = struct.pack('<HHII', i, 0, self.u(), cls) + p
            else:
                d = struct.pack('<HHIII', i, 0, self.u(), self.u(), cls) + p
            if some:
                typ = self.u(32, list(T.REG_TYPE))
                b = self.reg_data(typ)
                n = r.choice([len(b), len(b), len(b), 0, len(b) + 3, 4])
                if cls == 1:
                    t = self.wtext()
                    gap = r.choice([0, 0, 2, 4])
                    x = struct.pack('<IIIII', self.u(), typ, 20 + len(t) + gap, n, len(t)) + t + b'\0' * gap + b
                else:
                    x = struct.pack('<III', self.u(), typ, n) + b
        elif name == 'RegSetInfoKey':
            n = r.choice([0, 4, 8, 1])
            d = struct.pack('<HHIIHH', i, 0, self.u(32, list(T.REG_SET_INFO)), self.u(), n, self.u(16)) + p + self.words(2)
        elif name == 'RegSetValue':
            typ = self.u(32, list(T.REG_TYPE))
            b = self.reg_data(typ)
            n = r.choice([len(b), len(b), len(b) + 5, 0])
            m = r.choice([len(b), len(b), 0, 2])
            d = struct.pack('<HHIIII', i, 0, typ, n, m, 0)[:16] + p + b
        else:
            d = struct.pack('<H', i) + p
        if x is None and r.random() < 0.1:
            x = self.junk(12)
        return d, x

    def mask(self, table, generic=()):
        r = self.r
        k = r.random()
        if k < 0.3:
            return self.u()
        m = 0
        for bits, _ in table:
            if r.random() < 0.25:
                m |= bits
        for g in range(4):
            if r.random() < 0.15:
                m |= 0x80000000 >> g
        if k < 0.5:
            m = r.choice(table)[0]
        if k > 0.9:
            m |= 1 << r.randrange(32)
        return m

    def filesystem(self, op):
        r = self.r
        subs = T.SUB_OPERATION.get(op)
        s = 0
        if subs and r.random() < 0.8:
            s = self.u(8, list(subs) + [0])
        elif r.random() < 0.3:
            s = self.u(8)
        name = T.FILE_OPERATION.get(op)
        if s and subs:
            name = subs.get(s, name)
        if self.focus_name and self.focus_name not in (T.FILE_OPERATION.get(op),) and subs:
            for k, v in subs.items():
                if v == self.focus_name:
                    s, name = k, v
        i, p = self.dtext()
        n = 0x18 + 5 * self.psize
        head = bytearray(self.words(n // 4 + 1)[:n])
        head[0] = s
        third, fourth = (0x18, 0x20) if self.bits == 64 else (0x14, 0x18)

        def put(off, v):
            head[off:off + 4] = struct.pack('<I', v & 0xffffffff)
        rest = b''
        x = None
        some = r.random() < 0.7
        if name == 'CreateFile':
            put(third, self.u(8, list(T.DISPOSITION)) << 24 | self.mask(T.CREATE_OPTIONS) & 0xffffff)
            at = third + self.psize
            put(at, self.mask(T.FILE_ATTRIBUTES) & 0xffff | (self.mask(T.SHARE_MODE) & 0xffff) << 16)
            if r.random() < 0.1:
                put(at, 0)
            if at + 8 + 2 * self.psize + 4 <= n:
                put(at + 8 + 2 * self.psize, self.u())
            if r.random() < 0.4:
                c = r.choice([0, 1, 4, 5, 15])
                sid = bytes([r.choice([1, 1, 1, 1, 2]), c]) + r.choice([b'\0\0\0\0\0\5', self.junk(6)]) + self.words(c)
                if r.random() < 0.15:
                    sid += self.junk(4)
            else:
                sid = b''
            rest = struct.pack('<IB', self.mask(T.FILE_ACCESS, T.FILE_GENERIC), len(sid)) + b'\0' * 3 + sid
            if some:
                x = struct.pack('<I', self.u(32, list(T.OPEN_RESULT)))
        elif name in ('ReadFile', 'WriteFile'):
            put(8, self.u() & ~0xe0000 | r.randrange(8) << 17 | self.mask(T.IO_FLAGS))
            if some:
                x = self.words(1)
        elif name in ('FileSystemControl', 'DeviceIoControl'):
            pool = list(T.IOCTL)
            if r.random() < 0.5:
                from specs.events import CONTROL_CATEGORY
                pool = [k for k, v in T.IOCTL.items() if v in CONTROL_CATEGORY or 'PIPE' in v or 'OFFLOAD' in v]
            put(fourth, self.u(32, pool))
            rest = self.words(4)
            if some and r.random() < 0.3:
                x = self.words(2)
        elif name == 'QueryDirectory':
            cls = self.u(32, [1, 2, 3, 12, 37, 38, 1, 2, 3, 12, 37, 38] + list(T.FILE_INFO))
            put(fourth, cls)
            j, q = self.dtext()
            rest = struct.pack('<H', j) + q
            if some:
                x = self.listing(cls)
        elif name == 'NotifyChangeDirectory':
            put(third, self.mask(T.NOTIFY))
        elif name == 'CreateFileMapping':
            put(0x10, self.u(32, list(T.SYNC_TYPE)))
            put(0x14, r.choice([1 << r.randrange(11), self.u(), 0x200 | 1 << r.randrange(8), 0]))
        else:
            rest = self.junk(r.choice([1, 4, 9]))
        if x is None and r.random() < 0.05:
            x = self.junk(4)
        return bytes(head) + struct.pack('<H', i) + self.junk(2) + p + rest, x

    def listing(self, cls):
        from specs.events import LISTING
        size_at, name_at = LISTING.get(cls, (60, 64))
        out = b''
        n = self.r.choice([1, 1, 2, 3, 12] if self.big != 'texts' else [12, 100, 300])
        for k in range(n):
            t = self.wtext()
            e = bytearray(self.words(name_at // 4 + 2)[:name_at])
            e[size_at:size_at + 4] = struct.pack('<I', len(t))
            e = bytes(e) + t
            e += b'\0' * self.r.choice([0, -len(e) % 8])
            step = len(e) if k < n - 1 or self.r.random() < 0.1 else 0
            out += struct.pack('<I', step) + e[4:]
        return out

    # ------------------------------------------------------------------ the file
    def log(self, want=None, nevents=None, focus_name=None):
        """want: (class, operation) of the events (either may be None)"""
        r = self.r
        self.focus_name = focus_name
        self.big = r.choice(['text', 'texts', 'strings', 'hosts', 'processes', 'modules', 'stack', 'gap']) if r.random() < 0.08 else None
        self.strings = [self.wtext() for _ in range(r.choice([1, 3, 8] if self.big != 'strings' else [257, 300, 1000]))]
        self.hosts = [(self.ip(), self.wtext()) for _ in range(r.choice([0, 1, 3] if self.big != 'hosts' else [20, 257, 300]))]
        if self.hosts and r.random() < 0.3:
            self.hosts.append((self.hosts[0][0], self.wtext()))
        self.ports = [(self.u(16, [80, 443]), r.choice([0, 1, 2, 0xffff]), self.wtext()) for _ in range(r.choice([0, 1, 3] if self.big != 'hosts' else [20, 257, 300]))]
        nproc = r.choice([1, 2, 3] if self.big != 'processes' else [20, 257, 300])
        self.indexes = r.sample(sorted(set([0, 1, 2, 5, 7, 0xffffffff, self.u(), self.u()] + list(range(nproc if nproc > 3 else 0)))), nproc)
        self.events = []
        if nevents is None:
            nevents = r.choice([0, 1, 2, 3, 5]) if want is None else r.choice([1, 1, 2, 3])
        for _ in range(nevents):
            self.events.append(self.event(want))
        return self.assemble()

    def event(self, want=None):
        r = self.r
        cls, op = want or (None, None)
        if cls is None:
            cls = r.randrange(1, 6)
        if op is None:
            tab = {1: T.PROCESS_OPERATION, 2: T.REGISTRY_OPERATION, 3: T.FILE_OPERATION, 4: T.PROFILING_OPERATION,
                   5: T.NETWORK_OPERATION}[cls]
            op = r.choice(list(tab))
        make = {1: self.process, 2: self.registry, 3: self.filesystem, 4: self.profiling, 5: self.network}[cls]
        d, x = make(op)
        d = self.cut(d)
        if x is not None:
            x = self.cut(x)[:0xffff]
        depth = r.choice([0, 0, 1, 3, 10] if self.big != 'stack' else [63, 64, 127, 128, 255, 256, 300, 1000])
        stack = b''.join(self.pv(self.p()) for _ in range(depth))
        gap = r.choice([0, 0, 0, 4, 300] if self.big != 'gap' else [0x7fff, 0x8000, 0xffff, 0x10000, 70000])
        if x is None and self.big == 'gap':
            d += self.junk(gap)
        xoff = 0 if x is None else 0x34 + len(stack) + len(d) + gap
        date = r.choice([116444736000000000 + r.randrange(10 ** 17), 132223104000000000, r.randrange(2 ** 62), 2650467743999999999])
        head = struct.pack('<IIIHHIQQIHHII', r.choice(self.indexes), self.u(), cls, op, self.u(16), self.u(),
                           self.u(64), date, self.u(32, [0, 0x103, 0xc0000034]), depth, self.u(16), len(d), xoff)
        out = head + stack + d
        if x is not None:
            out += self.junk(gap) + struct.pack('<H', len(x)) + x
        return out

    def module(self):
        k = len(self.strings)
        ix = lambda: self.r.randrange(k)
        return (self.pv(self.p()) + self.pv(self.p()) + struct.pack('<IIIIII', self.u(), ix(), ix(), ix(), ix(), self.u())
                + self.junk(0x18))

    def assemble(self):
        r = self.r
        body = bytearray()
        base = 0x3a8

        def here():
            return base + len(body)
        body.extend(self.junk(r.choice([0, 0, 7])))
        events_at = here()
        offs = []
        for e in self.events:
            offs.append(here())
            body.extend(e)
            body.extend(self.junk(r.choice([0, 0, 5])))
        if offs and r.random() < 0.15:
            r.shuffle(offs)
        offsets_at = here()
        for o in offs:
            body.extend(struct.pack('<IB', o, self.u(8)))
        body.extend(self.junk(r.choice([0, 0, 3])))
        strings_first = r.random() < 0.5

        def strings():
            at = here()
            n = len(self.strings)
            pos = 4 + 4 * n
            table, data = b'', b''
            for s in self.strings:
                gap = self.junk(r.choice([0, 0, 2]))
                data += gap
                table += struct.pack('<I', pos + len(data))
                data += struct.pack('<I', len(s)) + s
            body.extend(struct.pack('<I', n) + table + data)
            return at

        def processes():
            at = here()
            n = len(self.indexes)
            recs = []
            k = len(self.strings)
            for ix in self.indexes:
                mods = [self.module() for _ in range(r.choice([0, 0, 1, 2] if self.big != 'modules' else [20, 255, 256, 300]))]
                rec = struct.pack('<IIIIQIIQQII', ix, self.u(), self.u(), self.u(), self.u(64), self.u(), self.u(),
                                  self.u(64), self.u(64), self.u(32, [0, 1]), self.u(32, [0, 1]))
                rec += b''.join(struct.pack('<I', r.randrange(k)) for _ in range(8)) + self.words(2) + self.pv(self.p())
                rec += struct.pack('<I', len(mods)) + b''.join(mods)
                recs.append(rec)
            order = list(range(n))
            if r.random() < 0.5:
                r.shuffle(order)
            pos = {}
            data = b''
            for i in order:
                data += self.junk(r.choice([0, 0, 3]))
                pos[i] = 4 + 8 * n + len(data)
                data += recs[i]
            body.extend(struct.pack('<I', n) + b''.join(struct.pack('<I', x) for x in self.indexes)
                        + b''.join(struct.pack('<I', pos[i]) for i in range(n)) + data)
            return at
        if strings_first:
            s_at, p_at = strings(), processes()
        else:
            p_at, s_at = processes(), strings()
        icons_at = here()
        body.extend(self.junk(4))
        hosts_at = here()
        body.extend(struct.pack('<I', len(self.hosts)))
        for ip, t in self.hosts:
            body.extend(ip + struct.pack('<I', len(t)) + t)
        body.extend(struct.pack('<I', len(self.ports)))
        for port, tcp, t in self.ports:
            body.extend(struct.pack('<HHI', port, tcp, len(t)) + t)
        h = bytearray(self.junk(0x3a8))

        def field(at, size, t):
            b = self.u16(t)[:size]
            k = r.random()
            if k < 0.6:
                b = (b + b'\0' * size)[:size]
            elif k < 0.8:
                b = (b + b'\0\0' + self.junk(size))[:size]
            else:
                b = (b + self.u16('wxyz' * size))[:size]
            h[at:at + size] = b
        h[0:4] = b'PML_'
        h[4:8] = struct.pack('<I', 9)
        h[8:12] = struct.pack('<I', r.choice([1, 1, 1, 2, 0x100, 0xffffffff]) if self.bits == 64 else 0)
        field(0xC, 0x20, self.text())
        field(0x2C, 0x208, self.text())
        h[0x234:0x238] = struct.pack('<I', len(offs))
        h[0x240:0x268] = struct.pack('<QQQQQ', events_at, offsets_at, p_at, s_at, icons_at)
        h[0x274:0x284] = struct.pack('<II', *r.choice([(6, 0), (6, 1), (6, 2), (6, 3), (10, 0), (10, 0), (5, 1)])) + self.words(2)
        field(0x284, 0x100, r.choice(['', '', 'Service Pack 1', 'a service pack with a really long name', self.text()]))
        if r.random() < 0.4:
            h[0x284:0x286] = b'\0\0'
        h[0x38C:0x390] = struct.pack('<I', self.u())
        h[0x390:0x398] = struct.pack('<Q', r.choice([self.u(64), 17179869184, 8589934592 + r.randrange(2 ** 33), 2 ** 40 - 1]))
        h[0x398:0x3a8] = struct.pack('<QQ', 0x3a8, hosts_at)
        return bytes(h) + bytes(body)
