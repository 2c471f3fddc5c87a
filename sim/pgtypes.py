"""
PostgreSQL types for the simulated server: catalog entries, binary and text forms, and the
Python objects the driver documents for them.  Written from the PostgreSQL sources (the
*_send and *_recv functions); shares no code with the driver.

A value is kept in a neutral form ("canonical"): what the server holds.
"""
import re, struct, datetime, decimal, random
from . import pgserver
from .pgserver import SQLError, Plan, I, H, i4, i8, h

EPOCH = datetime.datetime(2000, 1, 1)
UTC = datetime.timezone.utc
D0 = EPOCH.date().toordinal()
INF64, NINF64 = 0x7fffffffffffffff, -0x8000000000000000
INF32, NINF32 = 0x7fffffff, -0x80000000


class Typed:
    """a value put on the wire in the format that was asked for"""
    def __init__(self, t, v):
        self.t = t; self.v = v

    def wire(self, fmt):
        if fmt == 1 and self.t.textonly:
            raise SQLError('42883', 'no binary output function available for type %s' % self.t.name)
        return self.t.send(self.v) if fmt == 1 else self.t.text(self.v)


def bad(t):
    raise SQLError('22P03', 'incorrect binary data format (%s)' % t.name)


def dsec(us):
    return struct.pack('!d', us / 1e6)


def dus(b):
    return round(struct.unpack('!d', b)[0] * 1e6)


class T:
    textlike = textonly = False
    floats = False          # a server built without integer datetimes (before PostgreSQL 10)
    kind = 'b'
    typlen = -1
    nsp = 'pg_catalog'
    relid = 0
    el = None
    base = None

    def __init__(self, name, oid, **kw):
        self.name = name; self.oid = oid
        self.__dict__.update(kw)

    def gen(self, r):
        raise NotImplementedError

    def text(self, v):
        return pgserver.wire(self.out(v))

    def out(self, v):
        return str(v)

    def take(self, fmt, b):
        """a parameter that arrived"""
        if fmt == 0:
            if not self.textlike and not self.textonly:
                raise SQLError('22P02', 'invalid input syntax for type %s' % self.name)
            return pgserver.text(b)
        if self.textonly:
            raise SQLError('42883', 'no binary input function available for type %s' % self.name)
        try:
            return self.recv(b)
        except struct.error:
            bad(self)

    def pyin(self, r, v):
        """-> an object to pass as parameter for v"""
        return self.py(v)

    def stored(self, r, v):
        """-> (object, the value the server holds afterwards)"""
        return self.pyin(r, v), v

    def same(self, x, v):
        """whether the object x the driver made is right for v"""
        w = self.py(v)
        return type(x) is type(w) and x == w

    def reported(self):
        """the type named in a row description: domains are reported as what they are based on"""
        return self.base.reported() if self.base is not None else self


class Num(T):
    def __init__(self, name, oid, fmt, lo, hi):
        super().__init__(name, oid, typlen=struct.calcsize('!' + fmt))
        self.s = struct.Struct('!' + fmt); self.lo = lo; self.hi = hi

    def gen(self, r):
        return r.choice([self.lo, self.hi, 0, 1, self.hi - 1, r.randrange(self.lo, self.hi + 1), r.randrange(0, 300)])

    def send(self, v):
        return self.s.pack(v)

    def recv(self, b):
        return self.s.unpack(b)[0]

    def py(self, v):
        return v


class Float(T):
    def __init__(self, name, oid, fmt):
        super().__init__(name, oid, typlen=struct.calcsize('!' + fmt))
        self.s = struct.Struct('!' + fmt)

    def gen(self, r):
        return self.s.unpack(self.s.pack(r.choice([0.0, -0.0, 1.5, float('inf'), float('-inf'), float('nan'), 1e-30, -123456.789, r.uniform(-1e9, 1e9)])))[0]

    def send(self, v):
        return self.s.pack(v)

    def recv(self, b):
        return self.s.unpack(b)[0]

    def py(self, v):
        return v

    def same(self, x, v):
        return type(x) is float and self.s.pack(x) == self.s.pack(v)


class Bool(T):
    def gen(self, r):
        return r.random() < .5

    def send(self, v):
        return b'\1' if v else b'\0'

    def recv(self, b):
        if len(b) != 1:
            bad(self)
        return b != b'\0'

    def out(self, v):
        return 't' if v else 'f'

    def py(self, v):
        return v


class Bytea(T):
    def gen(self, r):
        return r.choice([b'', b'\0', bytes([r.randrange(256) for _ in range(r.choice([1, 2, 5, 40]))]), b'\\x41', b"'"])

    def send(self, v):
        return v

    recv = send

    def out(self, v):
        return '\\x' + v.hex()

    def py(self, v):
        return v


class Char(Bytea):
    def gen(self, r):
        return bytes([r.choice([1, 65, 120, 233, 255])])

    def recv(self, b):
        if len(b) != 1:
            bad(self)
        return b


TEXTS = ['', 'a', 'NULL', '"', "'", '\\', '{}', '(,)', 'a,b', ' x ', '\u00e9', 'na\u00efve \u00fc', 'x' * 70, '\n\t', '\u00dc' * 3]


class Text(T):
    textlike = True

    def gen(self, r):
        return r.choice(TEXTS + ['t%d' % r.randrange(1000)])

    def send(self, v):
        return pgserver.wire(v)

    def recv(self, b):
        return pgserver.text(b)

    def py(self, v):
        return v


class Enum(Text):
    kind = 'e'
    nsp = 'public'
    typlen = 4

    def gen(self, r):
        return r.choice(self.labels)


class Words(Text):
    """a text-like type with its own values"""
    def gen(self, r):
        return r.choice(self.words)


class TextOnly(Words):
    """the driver has no routine for the binary form and has to ask for text"""
    textonly = True
    textlike = True


class Jsonb(Words):
    textlike = False

    def send(self, v):
        return b'\1' + pgserver.wire(v)

    def recv(self, b):
        if b[:1] != b'\1':
            bad(self)
        return pgserver.text(b[1:])


class Xml(Words):
    textlike = False

    def recv(self, b):
        s = pgserver.text(b)
        if s.startswith('<?xml'):
            s = s[s.index('?>') + 2:].lstrip('\n')
        return s.replace(' />', '/>')

    def py(self, v):
        from xml.etree import ElementTree as E
        try:
            return E.fromstring(v)
        except E.ParseError:
            return tuple(E.fromstring('<x>' + v + '</x>'))

    def pyin(self, r, v):
        return r.choice([v, self.py(v)])

    def same(self, x, v):
        from xml.etree import ElementTree as E

        def flat(y):
            return [E.tostring(z) for z in y] if isinstance(y, tuple) else E.tostring(y)
        w = self.py(v)
        return type(x) is type(w) and flat(x) == flat(w)


class Numeric(T):
    SPECIAL = {0xC000: 'NaN', 0xD000: 'Infinity', 0xF000: '-Infinity'}

    def gen(self, r):
        x = r.random()
        if x < 0.05:
            return r.choice(['NaN', 'NaN', 'Infinity', '-Infinity'])
        if x < 0.3:
            return r.choice(['0', '0.0', '0.00000', '1', '-1', '10000', '9999', '0.0001', '0.00010000', '100000000', '-0.5', '1.50', '99990000.0001', '12345678901234567890.123456789'])
        i = str(r.randrange(10 ** r.choice([1, 3, 4, 5, 8, 9, 30])))
        if r.random() < 0.3:
            i += '0' * r.randrange(1, 10)
        i = i.lstrip('0') or '0'
        f = ''
        if r.random() < 0.6:
            f = '0' * r.choice([0, 0, 1, 3, 4, 5, 9]) + str(r.randrange(10 ** r.choice([1, 3, 4, 5, 12]))) + '0' * r.choice([0, 0, 1, 4])
        s = i + ('.' + f if f else '')
        return '-' + s if r.random() < 0.3 and s.strip('0.') else s

    def send(self, v):
        for k, n in self.SPECIAL.items():
            if n == v:
                return struct.pack('!hhHh', 0, 0, k, 0)
        neg = v.startswith('-')
        i, _, f = v.lstrip('-').partition('.')
        i = i.lstrip('0')
        i = '0' * (-len(i) % 4) + i
        ds = len(f)
        f = f + '0' * (-len(f) % 4)
        d = [int((i + f)[k:k + 4]) for k in range(0, len(i + f), 4)]
        w = len(i) // 4 - 1
        while d and d[0] == 0:
            del d[0]; w -= 1
        while d and d[-1] == 0:
            d.pop()
        if not d:
            w = 0; neg = False
        return struct.pack('!hhHh', len(d), w, 0x4000 if neg else 0, ds) + struct.pack('!%dh' % len(d), *d)

    def recv(self, b):
        n, w, sign, ds = struct.unpack('!HhHH', b[:8])
        if sign in self.SPECIAL:
            return self.SPECIAL[sign]
        if sign not in (0, 0x4000) or ds > 0x3fff or len(b) != 8 + 2 * n:
            bad(self)
        d = struct.unpack('!%dh' % n, b[8:])
        if any(not 0 <= x <= 9999 for x in d):
            bad(self)
        i = ''.join('%04d' % (d[k] if k < n else 0) for k in range(w + 1)) if w >= 0 else ''
        i = i.lstrip('0') or '0'
        f = '0000' * (-1 - w) if w < 0 else ''
        f += ''.join('%04d' % x for x in d[max(0, w + 1):])
        f = f[:ds].ljust(ds, '0')
        s = i + ('.' + f if f else '')
        return '-' + s if sign and s.strip('0.') else s

    def py(self, v):
        return decimal.Decimal(v)

    def stored(self, r, v):
        if 'Inf' in v:
            v = '1'
        x = decimal.Decimal(v)
        if 'N' not in v and r.random() < 0.4:
            with decimal.localcontext() as c:
                c.prec = 200
                x = x.normalize()
            v = format(x, 'f')
            if not v.strip('-0.'):
                v = v.lstrip('-')
        elif '.' not in v and 'N' not in v and r.random() < 0.5:
            return int(v), v
        return x, v

    def same(self, x, v):
        w = self.py(v)
        return type(x) is type(w) and (x.as_tuple() == w.as_tuple() or x.is_nan() and w.is_nan())


class Date(T):
    typlen = 4

    def gen(self, r):
        if r.random() < 0.1:
            return r.choice([INF32, NINF32])
        return r.choice([0, 1, -1, 2 - D0, 3652058 - D0, r.randrange(-700000, 2900000)])

    def send(self, v):
        return i4.pack(v)

    def recv(self, b):
        return i4.unpack(b)[0]

    def py(self, v):
        return datetime.date.max if v == INF32 else datetime.date.min if v == NINF32 else datetime.date.fromordinal(v + D0)

    def pyin(self, r, v):
        if v in (INF32, NINF32) and r.random() < 0.5:
            return 'infinity' if v == INF32 else '-infinity'
        return self.py(v)


class Time(T):
    typlen = 8

    def gen(self, r):
        return r.choice([0, 1, 86399999999, 43200000000, r.randrange(86400000000)])

    def send(self, v):
        return dsec(v) if self.floats else i8.pack(v)

    def recv(self, b):
        v = dus(b) if self.floats else i8.unpack(b)[0]
        if not 0 <= v <= 86400000000:
            raise SQLError('22008', 'time out of range')
        return v

    def py(self, v):
        return (EPOCH + datetime.timedelta(microseconds=v)).time()


class Timetz(T):
    """(microseconds, seconds west of Greenwich)"""
    typlen = 12

    def gen(self, r):
        return (r.choice([0, 86399999999, r.randrange(86400000000)]), r.choice([0, 3600, -3600, -19800, 12600, -43200, 50400, 60 * r.randrange(-900, 900)]))

    def send(self, v):
        return dsec(v[0]) + i4.pack(v[1]) if self.floats else struct.pack('!qi', *v)

    def recv(self, b):
        v = (dus(b[:8]), i4.unpack(b[8:])[0]) if self.floats else struct.unpack('!qi', b)
        if not 0 <= v[0] <= 86400000000 or not -57600 < v[1] < 57600:
            raise SQLError('22008', 'time zone displacement out of range')
        return v

    def py(self, v):
        return (EPOCH + datetime.timedelta(microseconds=v[0])).time().replace(tzinfo=datetime.timezone(datetime.timedelta(seconds=-v[1])))

    def pyin(self, r, v):
        if r.random() < 0.5:
            from postgresql.python.datetime import FixedOffset
            return self.py(v).replace(tzinfo=FixedOffset(-v[1]))
        return self.py(v)

    def same(self, x, v):
        w = self.py(v)
        return type(x) is type(w) and x.replace(tzinfo=None) == w.replace(tzinfo=None) and x.utcoffset() == w.utcoffset()


class Timestamp(T):
    typlen = 8
    tz = False

    def gen(self, r):
        if r.random() < 0.1:
            return r.choice([INF64, NINF64])
        if self.floats:         # where a double still tells microseconds apart
            return r.choice([0, -1, 1, 999999, -86400000001, r.randrange(-2 * 10 ** 15, 2 * 10 ** 15)])
        return r.choice([0, -1, 1, 999999, -86400000001, r.randrange(-63082281000, 252455500000) * 1000000 + r.randrange(1000000)])

    def send(self, v):
        if self.floats:
            return struct.pack('!d', float('inf') if v == INF64 else float('-inf') if v == NINF64 else v / 1e6)
        return i8.pack(v)

    def recv(self, b):
        if self.floats:
            x = struct.unpack('!d', b)[0]
            if x != x:
                raise SQLError('22008', 'timestamp cannot be NaN')
            return INF64 if x == float('inf') else NINF64 if x == float('-inf') else round(x * 1e6)
        return i8.unpack(b)[0]

    def py(self, v):
        if v == INF64:
            return datetime.datetime.max
        if v == NINF64:
            return datetime.datetime.min
        x = EPOCH + datetime.timedelta(microseconds=v)
        return x.replace(tzinfo=UTC) if self.tz else x

    def pyin(self, r, v):
        if v in (INF64, NINF64):
            return r.choice([self.py(v), 'infinity' if v > 0 else '-infinity'])
        x = self.py(v)
        if self.tz and -63000000000 * 1000000 < v < 252000000000 * 1000000:
            return x.astimezone(datetime.timezone(datetime.timedelta(minutes=r.choice([0, 60, -210, 765]))))
        return x

    def same(self, x, v):
        w = self.py(v)
        return type(x) is type(w) and (x.tzinfo is None) == (w.tzinfo is None) and x == w


class Interval(T):
    """(microseconds, days); months have no equivalent"""
    typlen = 16

    def gen(self, r):
        return (r.choice([0, 1, -1, 86399999999, r.randrange(-10 ** 12, 10 ** 12)]), r.choice([0, 1, -1, r.randrange(-10000, 10000)]))

    def send(self, v):
        if self.floats:
            return dsec(v[0]) + struct.pack('!ii', v[1], 0)
        return struct.pack('!qii', v[0], v[1], 0)

    def recv(self, b):
        a, d, m = struct.unpack('!qii', b)
        if self.floats:
            a = dus(b[:8])
        return (a, d) if not m else (a, d, m)

    def py(self, v):
        return datetime.timedelta(days=v[1], microseconds=v[0])

    def stored(self, r, v):
        x = self.py(v)
        return x, (x.seconds * 1000000 + x.microseconds, x.days)


class Bits(T):
    def gen(self, r):
        n = r.choice([1, 1, 3, 7, 8, 9, 16, 17, 40]) if self.name == 'bit' or r.random() < 0.9 else 0
        return ''.join(r.choice('01') for _ in range(n))

    def send(self, v):
        n = len(v)
        p = v + '0' * (-n % 8)
        return i4.pack(n) + bytes(int(p[k:k + 8], 2) for k in range(0, len(p), 8))

    def recv(self, b):
        n = i4.unpack(b[:4])[0]
        if n < 0 or len(b) - 4 != (n + 7) // 8:
            bad(self)
        return ''.join('{:08b}'.format(x) for x in b[4:])[:n]

    def py(self, v):
        from postgresql.types.bitwise import Varbit, Bit
        return Bit(v) if len(v) == 1 else Varbit(v)

    def same(self, x, v):
        w = self.py(v)
        return type(x) is type(w) and str(x) == v and len(x) == len(v) and x == w


class Net(T):
    """(address, prefix length)"""
    def gen(self, r):
        import ipaddress
        six = r.random() < 0.4
        w = 128 if six else 32
        n = r.getrandbits(w)
        bits = w
        if self.name == 'cidr':
            bits = r.choice([w, w - 8, 8, r.randrange(w + 1)])
            n = n >> (w - bits) << (w - bits)
        return str((ipaddress.IPv6Address if six else ipaddress.IPv4Address)(n)), bits

    def send(self, v):
        import ipaddress
        a = ipaddress.ip_address(v[0])
        return bytes([2 if a.version == 4 else 3, v[1], self.name == 'cidr', len(a.packed)]) + a.packed

    def recv(self, b):
        import ipaddress
        if len(b) < 4 or b[0] not in (2, 3) or b[3] != (4 if b[0] == 2 else 16) or len(b) != 4 + b[3] or b[1] > b[3] * 8:
            bad(self)
        a = ipaddress.ip_address(b[4:])
        if self.name == 'cidr' and int(a) & ((1 << (b[3] * 8 - b[1])) - 1):
            bad(self)
        return str(a), b[1]

    def out(self, v):
        return '%s/%d' % v

    def py(self, v):
        import ipaddress
        return ipaddress.ip_network('%s/%d' % v) if self.name == 'cidr' else ipaddress.ip_address(v[0])

    def pyin(self, r, v):
        x = self.py(v)
        return r.choice([x, str(x)])


class Mac(T):
    typlen = 6

    def gen(self, r):
        return ':'.join('%02x' % r.randrange(256) for _ in range(6))

    def send(self, v):
        return bytes.fromhex(v.replace(':', ''))

    def recv(self, b):
        if len(b) != 6:
            bad(self)
        return ':'.join('%02x' % x for x in b)

    def py(self, v):
        return v

    def pyin(self, r, v):
        x = v.replace(':', '')
        return r.choice([v, v.upper(), v.replace(':', '-'), x, x[:6] + ':' + x[6:], x[:6] + '-' + x[6:], '.'.join((x[:4], x[4:8], x[8:]))])


class Geo(T):
    """a flat tuple of numbers"""
    def __init__(self, name, oid, n):
        super().__init__(name, oid, typlen=8 * n)
        self.n = n

    def gen(self, r):
        v = tuple(r.choice([0.0, 1.0, -1.0, 1e10, r.uniform(-100, 100)]) for _ in range(self.n))
        if self.name == 'box':
            v = (max(v[0], v[2]), max(v[1], v[3]), min(v[0], v[2]), min(v[1], v[3]))
        if self.name == 'circle':
            v = (v[0], v[1], abs(v[2]))
        return v

    def send(self, v):
        return struct.pack('!%dd' % self.n, *v)

    def recv(self, b):
        return struct.unpack('!%dd' % self.n, b)

    def shape(self, v):
        return v if self.name == 'point' else ((v[0], v[1]), v[2]) if self.name == 'circle' else ((v[0], v[1]), (v[2], v[3]))

    def py(self, v):
        from postgresql.types import geometry as g
        return getattr(g, self.name.capitalize())(self.shape(v))

    def pyin(self, r, v):
        return r.choice([self.py(v), self.shape(v)])

    def same(self, x, v):
        w = self.py(v)
        return type(x) is type(w) and tuple(x) == self.shape(v) and x == w


class Uuid(T):
    typlen = 16

    def gen(self, r):
        import uuid
        return str(uuid.UUID(int=r.getrandbits(128)))

    def send(self, v):
        return bytes.fromhex(v.replace('-', ''))

    def recv(self, b):
        import uuid
        if len(b) != 16:
            bad(self)
        return str(uuid.UUID(bytes=b))

    def py(self, v):
        import uuid
        return uuid.UUID(v)

    def pyin(self, r, v):
        return r.choice([self.py(v), v])


class Tid(T):
    typlen = 6

    def gen(self, r):
        return (r.choice([0, 5, 0xffffffff]), r.choice([1, 65535]))

    def send(self, v):
        return struct.pack('!IH', *v)

    def recv(self, b):
        return struct.unpack('!IH', b)

    def py(self, v):
        return v


HPAIR = re.compile(r'("(?:[^"\\]|\\.)*")=>(NULL|"(?:[^"\\]|\\.)*")', re.S)
HSTORE = re.compile(r'(%s(, %s)*)?' % (HPAIR.pattern, HPAIR.pattern), re.S)


class Hstore(T):
    """of an extension: the driver has to be told"""
    nsp = 'public'
    known = False
    textlike = True

    def gen(self, r):
        return {k: r.choice([None, '', 'v', '\u00e9', 'x' * 50]) for k in r.sample(['a', 'b', '', 'k\u00fc', '"', 'NULL'], r.randrange(4))}

    def send(self, v):
        out = i4.pack(len(v))
        for k, x in v.items():
            k = pgserver.wire(k)
            out += i4.pack(len(k)) + k
            if x is None:
                out += i4.pack(-1)
            else:
                x = pgserver.wire(x)
                out += i4.pack(len(x)) + x
        return out

    def recv(self, b):
        n = i4.unpack_from(b, 0)[0]
        off = 4
        out = {}
        for _ in range(n):
            k = i4.unpack_from(b, off)[0]; off += 4
            key = pgserver.text(b[off:off + k]); off += k
            k = i4.unpack_from(b, off)[0]; off += 4
            if k < 0:
                out[key] = None
            else:
                out[key] = pgserver.text(b[off:off + k]); off += k
        if off != len(b) or len(out) != n:
            bad(self)
        return out

    def out(self, v):
        q = lambda s: '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')
        return ', '.join('%s=>%s' % (q(k), 'NULL' if x is None else q(x)) for k, x in v.items())

    def take(self, fmt, b):
        if fmt:
            return super().take(fmt, b)
        s = pgserver.text(b)
        if not HSTORE.fullmatch(s):
            raise SQLError('42601', 'syntax error in hstore: %r' % s)
        un = lambda x: re.sub(r'\\(.)', r'\1', x[1:-1], flags=re.S)
        return {un(k): None if v == 'NULL' else un(v) for k, v in HPAIR.findall(s)}

    def py(self, v):
        return dict(v) if self.known else self.out(v)


class Domain(T):
    kind = 'd'
    nsp = 'public'

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(self.base, k)

    def _b(name):
        def f(self, *a):
            return getattr(self.base, name)(*a)
        return f
    for _n in ('gen', 'send', 'recv', 'out', 'text', 'take', 'py', 'pyin', 'stored', 'same'):
        locals()[_n] = _b(_n)
    del _n


class Array(T):
    kind = 'b'

    def gen(self, r):
        """(dimensions, lower bounds, elements)"""
        nd = r.choice([0, 1, 1, 1, 1, 2, 2, 3])
        dims = tuple(r.choice([1, 2, 3, 3, 5]) if nd < 3 else r.choice([1, 2]) for _ in range(nd))
        lbs = tuple(1 if r.random() < 0.85 else r.choice([0, 2, -3]) for _ in range(nd))
        n = 1 if nd else 0
        for d in dims:
            n *= d
        return dims, lbs, [None if r.random() < 0.15 else self.el.gen(r) for _ in range(n)]

    def send(self, v):
        dims, lbs, els = v
        out = i4.pack(len(dims)) + i4.pack(1 if None in els else 0) + I.pack(self.el.oid)
        for d, l in zip(dims, lbs):
            out += i4.pack(d) + i4.pack(l)
        for x in els:
            e = None if x is None else self.el.send(x)
            out += i4.pack(-1) if e is None else i4.pack(len(e)) + e
        return out

    def recv(self, b):
        nd, fl, el = struct.unpack_from('!iiI', b, 0)
        if nd < 0 or nd > 6 or fl not in (0, 1):
            bad(self)
        if el != self.el.oid:
            raise SQLError('42804', 'binary data has array element type %d instead of expected %d' % (el, self.el.oid))
        off = 12
        dims = []; lbs = []
        for _ in range(nd):
            d, l = struct.unpack_from('!ii', b, off); off += 8
            if d < 0:
                bad(self)
            dims.append(d); lbs.append(l)
        n = 1 if nd else 0
        for d in dims:
            n *= d
        if n == 0:
            dims = []; lbs = []
        els = []
        for _ in range(n):
            k = i4.unpack_from(b, off)[0]; off += 4
            if k == -1:
                els.append(None)
            else:
                if k < 0 or off + k > len(b):
                    bad(self)
                els.append(self.el.take(1, b[off:off + k])); off += k
        if off != len(b):
            bad(self)
        return tuple(dims), tuple(lbs), els

    def out(self, v):
        return '{array}'

    def py(self, v):
        raise TypeError

    def stored(self, r, v):
        from postgresql.types import Array as A
        dims, lbs, els = v
        el = [(None, None) if x is None else self.el.stored(r, x) for x in els]
        objs = [x for x, _ in el]
        held = [y for _, y in el]
        plain = all(l == 1 for l in lbs)
        if plain and r.random() < 0.7 or not dims:
            x = objs
            for d in reversed(dims[1:]):
                x = [x[k:k + d] for k in range(0, len(x), d)]
            if r.random() < 0.3:
                x = A(x)
            return x, (dims, lbs, held)
        return A.from_elements(objs, lowerbounds=lbs, upperbounds=tuple(l + d - 1 for l, d in zip(lbs, dims))), (dims, lbs, held)

    def same(self, x, v):
        from postgresql.types import Array as A
        dims, lbs, els = v
        if type(x) is not A:
            return False
        if not dims:
            return list(x.elements()) == [] and tuple(x.dimensions) == ()
        if tuple(x.dimensions) != dims or tuple(x.lowerbounds) != lbs:
            return False
        got = list(x.elements())
        return len(got) == len(els) and all(same(self.el, g, w) for g, w in zip(got, els))


def equal(a, b):
    """of two values the server holds (a NaN is itself)"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack('!d', a) == struct.pack('!d', b)
    return type(a) is type(b) and a == b


def same(t, x, v):
    return x is None if v is None else x is not None and t.same(x, v)


class Composite(T):
    kind = 'c'
    nsp = 'public'

    def gen(self, r):
        return tuple(None if r.random() < 0.2 else t.gen(r) for n, t in self.fields)

    def send(self, v):
        out = i4.pack(len(v))
        for (n, t), x in zip(self.fields, v):
            e = None if x is None else t.send(x)
            out += I.pack(t.oid) + (i4.pack(-1) if e is None else i4.pack(len(e)) + e)
        return out

    def recv(self, b):
        n = i4.unpack_from(b, 0)[0]
        if n != len(self.fields):
            raise SQLError('42804', 'wrong number of columns: %d, expected %d' % (n, len(self.fields)))
        off = 4
        out = []
        for name, t in self.fields:
            o = I.unpack_from(b, off)[0]; off += 4
            if o != t.oid:
                raise SQLError('42804', 'binary data has type %d instead of expected %d in record column' % (o, t.oid))
            k = i4.unpack_from(b, off)[0]; off += 4
            if k == -1:
                out.append(None)
            else:
                if k < 0 or off + k > len(b):
                    bad(self)
                out.append(t.take(1, b[off:off + k])); off += k
        if off != len(b):
            bad(self)
        return tuple(out)

    def out(self, v):
        return '(record)'

    def stored(self, r, v):
        f = [(None, None) if x is None else t.stored(r, x) for (n, t), x in zip(self.fields, v)]
        objs = tuple(x for x, _ in f)
        held = tuple(y for _, y in f)
        if r.random() < 0.3:
            d = {n: x for (n, t), x in zip(self.fields, objs)}
            if r.random() < 0.5:
                d = {n: x for n, x in d.items() if x is not None}
            return d, held
        return objs, held

    def same(self, x, v):
        from postgresql.types import Row
        if type(x) is not Row or len(x) != len(v):
            return False
        if list(x.column_names) != [n for n, t in self.fields]:
            return False
        return all(same(t, g, w) and same(t, x[n], w) for (n, t), g, w in zip(self.fields, tuple(x), v))


class Record(T):
    """an anonymous record; a value carries its types"""
    kind = 'p'

    def gen(self, r):
        n = r.randrange(0, 4)
        ts = [r.choice(self.choices) for _ in range(n)]
        return tuple((t, None if r.random() < 0.2 else t.gen(r)) for t in ts)

    def send(self, v):
        out = i4.pack(len(v))
        for t, x in v:
            e = None if x is None else t.send(x)
            out += I.pack(t.oid) + (i4.pack(-1) if e is None else i4.pack(len(e)) + e)
        return out

    def recv(self, b):
        raise SQLError('0A000', 'input of anonymous composite types is not implemented')

    def out(self, v):
        return '(record)'

    def same(self, x, v):
        return isinstance(x, tuple) and len(x) == len(v) and all(same(t, g, w) for g, (t, w) in zip(x, v))


JSON = ['{}', '{"a": 1}', '[1, null, "\u00e9"]', '"x"', 'null', '1.50', '{"a": {"b": []}}']


def base_types():
    out = [Bool('bool', 16, typlen=1), Bytea('bytea', 17), Char('char', 18, typlen=1), Text('name', 19, typlen=64), Num('int8', 20, 'q', -2**63, 2**63 - 1),
           Num('int2', 21, 'h', -2**15, 2**15 - 1), Num('int4', 23, 'i', -2**31, 2**31 - 1), Text('text', 25), Num('oid', 26, 'I', 0, 2**32 - 1),
           Tid('tid', 27), Num('xid', 28, 'I', 0, 2**32 - 1), Num('cid', 29, 'I', 0, 2**32 - 1), Words('json', 114, words=JSON),
           Xml('xml', 142, words=['<a/>', '<a b="1">t</a>', '<a>\u00e9</a>', '<a>1</a><b/>', '<x><y/></x>']), Geo('point', 600, 2), Geo('lseg', 601, 4),
           Geo('box', 603, 4), Float('float4', 700, 'f'), Float('float8', 701, 'd'), Geo('circle', 718, 3), Mac('macaddr', 829), Net('inet', 869), Net('cidr', 650),
           Text('bpchar', 1042), Text('varchar', 1043), Date('date', 1082), Time('time', 1083), Timestamp('timestamp', 1114), Timestamp('timestamptz', 1184, tz=True),
           Interval('interval', 1186), Timetz('timetz', 1266), Bits('bit', 1560), Bits('varbit', 1562), Numeric('numeric', 1700), Uuid('uuid', 2950),
           Jsonb('jsonb', 3802, words=JSON), TextOnly('int4range', 3904, kind='r', words=['[1,5)', 'empty', '(,)']), TextOnly('money', 790, typlen=8, words=['$12.50', '-$0.01']),
           TextOnly('tsvector', 3614, words=["'a' 'b'", '']), Hstore('hstore', 61000)]
    return {t.name: t for t in out}


ARRAY_OIDS = {'bool': 1000, 'bytea': 1001, 'char': 1002, 'name': 1003, 'int2': 1005, 'int4': 1007, 'text': 1009, 'bpchar': 1014, 'varchar': 1015, 'int8': 1016,
              'float4': 1021, 'float8': 1022, 'oid': 1028, 'timestamp': 1115, 'date': 1182, 'time': 1183, 'timestamptz': 1185, 'interval': 1187,
              'numeric': 1231, 'timetz': 1270, 'bit': 1561, 'varbit': 1563, 'uuid': 2951, 'json': 199, 'jsonb': 3807, 'xml': 143, 'point': 1017, 'box': 1020, 'inet': 1041,
              'cidr': 651, 'macaddr': 1040, 'tid': 1010, 'xid': 1011, 'cid': 1012, 'lseg': 1018, 'circle': 719}
PLAIN = [n for n in ARRAY_OIDS]
NAMES = ['pair', 'Pair x', 'we"ird', 'a.b', 'select', 'sn\u00f6', 't']
ATTRS = ['n', 'N', 'a b', 'we"ird', 'select', '\u00e9', 'x1', 'x2', 'long_attribute_name_with_many_letters', '1']


class Universe:
    """the types of one database"""
    def __init__(self, defs, floats=False):
        self.base = base_types()
        for n in ('time', 'timetz', 'timestamp', 'timestamptz', 'interval'):
            self.base[n].floats = floats
        self.byoid = {t.oid: t for t in self.base.values()}
        self.user = []
        self.arr = {}
        self.lookups = 0
        for n in ARRAY_OIDS:
            self.ref(n + '[]')
        for k, d in enumerate(defs):
            oid = 70001 + k
            nm = '%s%d' % (NAMES[d['name'] % len(NAMES)], k)
            nsp = ['public', 'My Schema', 'pg_temp_3'][d.get('nsp', 0) % 3]
            kind = d['k']
            if kind == 'enum':
                t = Enum(nm, oid, labels=['red', 'gr een', '\u00fcber', 'a"b', ''][:3 + d['name'] % 3])
            elif kind == 'domain':
                t = Domain(nm, oid, base=self.ref(d['of'], k))
            elif kind == 'array':
                t = Array('_' + nm, oid, el=self.ref(d['of'], k))
                if isinstance(t.el.reported(), Array):
                    t.el = self.base['int4']        # nested lists would be ambiguous
            else:
                f = []
                for j, (a, x) in enumerate(d['f']):
                    n = ATTRS[a % len(ATTRS)]
                    f.append((n if n not in dict(f) else n + str(j), self.ref(x, k)))
                t = Composite(nm, oid, fields=f, relid=80001 + k, dropped=d.get('drop'))
            t.nsp = nsp
            self.user.append(t)
            self.byoid[oid] = t
        self.record = Record('record', 2249, choices=[self.base[n] for n in ('int4', 'text', 'numeric', 'bool', 'timestamptz')] + [self.ref('int4[]', 0)] +
                             [t for t in self.user if t.kind != 'r'])
        self.byoid[2249] = self.record

    def ref(self, x, limit=None):
        """a type by name: int4, int4[] or the number of a type of the user"""
        if isinstance(x, int):
            n = len(self.user) if limit is None else min(limit, len(self.user))
            return self.user[x % n] if n else self.base['int4']
        if x == 'record':
            return self.record
        if x.endswith('[]'):
            if x not in self.arr:
                e = self.base[x[:-2]]
                t = self.arr[x] = Array('_' + e.name, ARRAY_OIDS[e.name], el=e)
                self.byoid[t.oid] = t
            return self.arr[x]
        return self.base[x]

    # the catalog
    def plan(self, b, t):
        if t[:7].upper() in ('DECLARE', 'COPY ('):
            return None
        if 'typrelid' in t and 'oid = $1' in t and 'pg_attribute' not in t:
            def lt(be, params):
                self.lookups += 1
                x = self.byoid.get(params[0])
                if x is None:
                    return []
                el = x.el.oid if x.el is not None else {'name': 18, 'point': 701, 'box': 600, 'lseg': 600}.get(x.name, 0)
                ae = el if x.typlen == -1 and el else None
                bin_ = None if ae is None else not self.byoid[ae].textonly
                return [(x.nsp, x.name, x.kind, x.typlen, el, x.relid, ae, bin_, bin_)]
            return Plan('rows', lt, cols=[('namespace', pgserver.NAME), ('typname', pgserver.NAME), ('typtype', pgserver.CHAR), ('typlen', pgserver.INT2),
                                          ('typelem', pgserver.OID), ('typrelid', pgserver.OID), ('ae_typid', pgserver.OID), ('ae_hasbin_input', pgserver.BOOL),
                                          ('ae_hasbin_output', pgserver.BOOL)], oids=[pgserver.OID])
        if 'pg_attribute' in t and 'attrelid = $1' in t:
            def lc(be, params):
                self.lookups += 1
                for x in self.user:
                    if x.relid and x.relid == params[0]:
                        out = [(f.oid, n, f.kind == 'd') for n, f in x.fields]
                        if x.dropped is not None and 'attisdropped' not in t.lower():
                            # the catalog keeps columns that were dropped
                            out.insert(x.dropped % (len(out) + 1), (0, '........pg.dropped.1........', False))
                        return out
                return []
            return Plan('rows', lc, cols=[('atttypid', pgserver.OID), ('attname', pgserver.TEXT), ('is_domain', pgserver.BOOL)], oids=[pgserver.OID])
        if 'basetypid' in t and '$1' in t:
            def lb(be, params):
                self.lookups += 1
                x = self.byoid.get(params[0])
                if x is None:
                    return []
                return [(x.reported().oid if x.kind == 'd' else None,)]
            return Plan('rows', lb, cols=[('basetypid', pgserver.OID)], oids=[pgserver.OID])
        if 'typbasetype' in t and '$1' in t:
            def lo(be, params):
                self.lookups += 1
                x = self.byoid.get(params[0])
                return [] if x is None else [(x.base.oid if x.kind == 'd' else 0,)]
            return Plan('rows', lo, cols=[('typbasetype', pgserver.OID)], oids=[pgserver.OID])
        if 'regtypein' in t:
            def rt(be, params):
                for n in params[0] or []:
                    if n not in self.base:
                        raise SQLError('42704', 'type "%s" does not exist' % n)
                return [(self.base[n].oid,) for n in params[0] or []]
            return Plan('rows', rt, cols=[('typoid', pgserver.OID)], oids=[pgserver.TEXTA])
        return None
