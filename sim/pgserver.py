"""
A simulated PostgreSQL backend: wire protocol 3.0 with a small statement language.

It is a stub of the server, written from the protocol documentation, and shares no code
with the driver.  Deviations from a real server that matter are listed in DESIGN.md.
"""
import struct, re, hashlib, functools
from .core import SEC, MS, Violation

H = struct.Struct('!H'); h = struct.Struct('!h'); I = struct.Struct('!I'); i4 = struct.Struct('!i'); i8 = struct.Struct('!q')

BOOL, BYTEA, INT8, INT2, INT4, TEXT, OID, NAME = 16, 17, 20, 21, 23, 25, 26, 19
TEXTA, INT4A, INT8A = 1009, 1007, 1016
FLOAT8, TSTZ, VOID, UNKNOWN = 701, 1184, 2278, 705
CHAR = 18
COMPOSITE, DOMAIN, ENUM = 90001, 90002, 90003
FIELDS_OF = {COMPOSITE: [('n', INT4), ('t', TEXT)]}
# oid: namespace, name, typtype, typlen, typelem, typrelid
TYPES = {
    BOOL: ('pg_catalog', 'bool', 'b', 1, 0, 0), INT4: ('pg_catalog', 'int4', 'b', 4, 0, 0), INT8: ('pg_catalog', 'int8', 'b', 8, 0, 0),
    INT2: ('pg_catalog', 'int2', 'b', 2, 0, 0), TEXT: ('pg_catalog', 'text', 'b', -1, 0, 0),
    TEXTA: ('pg_catalog', '_text', 'b', -1, TEXT, 0), INT4A: ('pg_catalog', '_int4', 'b', -1, INT4, 0), INT8A: ('pg_catalog', '_int8', 'b', -1, INT8, 0),
    COMPOSITE: ('public', 'Pair x', 'c', -1, 0, 91001), DOMAIN: ('public', 'dom', 'd', 4, 0, 0), ENUM: ('public', 'en', 'e', 4, 0, 0),
}
ELEM = {TEXTA: TEXT, INT4A: INT4, INT8A: INT8, 1005: INT2}


class SQLError(Exception):
    def __init__(self, code, msg, severity='ERROR', **fields):
        super().__init__(code, msg)
        self.code = code; self.msg = msg; self.severity = severity; self.fields = fields


class ProtocolError(Exception):
    """the client sent something a server would reject as a protocol violation"""


def msg(t, body=b''):
    return t + I.pack(len(body) + 4) + body


# the encoding of the session that is running: its client_encoding
CODEC = ['utf-8']
CODECS = {'utf8': ('UTF8', 'utf-8'), 'unicode': ('UTF8', 'utf-8'), 'latin1': ('LATIN1', 'latin-1'), 'iso88591': ('LATIN1', 'latin-1'),
          'latin9': ('LATIN9', 'iso8859-15'), 'iso885915': ('LATIN9', 'iso8859-15'), 'win1251': ('WIN1251', 'cp1251'), 'eucjp': ('EUC_JP', 'euc_jp'),
          'koi8r': ('KOI8R', 'koi8-r')}


def codec_of(name):
    return CODECS.get(re.sub('[^a-z0-9]', '', name.lower()))


def wire(s):
    try:
        return s.encode(CODEC[0])
    except UnicodeEncodeError:
        raise SQLError('22P05', 'character has no equivalent in encoding "%s"' % CODEC[0])


def text(b):
    try:
        return b.decode(CODEC[0])
    except UnicodeDecodeError:
        raise SQLError('22021', 'invalid byte sequence for encoding "%s"' % CODEC[0])


def cstr(s):
    return (s if isinstance(s, bytes) else s.encode(CODEC[0], 'replace')) + b'\0'


def coded(f):
    """for the methods in which a session sends or reads text"""
    @functools.wraps(f)
    def g(self, *a, **kw):
        old = CODEC[0]
        CODEC[0] = self.codec
        try:
            return f(self, *a, **kw)
        finally:
            CODEC[0] = old
    return g


def errbody(sev, code, text, fields=None):
    b = b'S' + cstr(sev) + b'V' + cstr(sev) + b'C' + cstr(code) + b'M' + cstr(text)
    for k, v in sorted((fields or {}).items()):
        b += k.encode() + cstr(v)
    return b + b'\0'


# ---------------------------------------------------------------- values
def enc(oid, v, fmt):
    """a value in the given wire format"""
    if v is None:
        return None
    if isinstance(v, Raw):
        return bytes(v)
    if hasattr(v, 'wire'):      # pgtypes.Typed
        return v.wire(fmt)
    if oid == DOMAIN:
        return enc(INT4, v, fmt)
    if fmt == 0:
        if oid in ELEM:
            return wire(arr_text(v))
        if oid in FIELDS_OF:
            return ('(%s)' % ','.join('' if x is None else '"%s"' % str(x).replace('\\', '\\\\').replace('"', '""') for x in v)).encode(CODEC[0])
        if oid == BOOL:
            return b't' if v else b'f'
        if oid == BYTEA:
            return b'\\x' + bytes(v).hex().encode()
        if isinstance(v, bytes):
            return v
        return wire(str(v))
    if oid == BOOL:
        return b'\x01' if v else b'\0'
    if oid in FIELDS_OF:
        out = i4.pack(len(v))
        for (n, o), x in zip(FIELDS_OF[oid], v):
            e = enc(o, x, 1)
            out += I.pack(o) + (i4.pack(-1) if e is None else i4.pack(len(e)) + e)
        return out
    if oid == INT2:
        return h.pack(v)
    if oid == INT4:
        return i4.pack(v)
    if oid == OID:
        return I.pack(v)
    if oid == INT8:
        return i8.pack(v)
    if oid == FLOAT8:
        return struct.pack('!d', v)
    if oid == BYTEA:
        return bytes(v)
    if oid == VOID:
        return b''
    if oid in ELEM:
        el = ELEM[oid]
        if not v:
            return struct.pack('!iiI', 0, 0, el)
        out = b''
        nulls = 0
        for x in v:
            if x is None:
                nulls = 1
                out += i4.pack(-1)
            else:
                e = enc(el, x, 1)
                out += i4.pack(len(e)) + e
        return struct.pack('!iiIii', 1, nulls, el, len(v), 1) + out
    return v if isinstance(v, bytes) else wire(str(v))


def arr_text(v):
    return '{' + ','.join('NULL' if x is None else (arr_text(x) if isinstance(x, list) else '"%s"' % str(x).replace('\\', '\\\\').replace('"', '\\"')) for x in v) + '}'


class Raw(bytes):
    """bytes put on the wire as they are, whatever the type"""


def dec(oid, b, fmt):
    if b is None:
        return None
    if fmt == 0:
        s = text(b)
        if oid in (INT4, INT8, INT2, OID):
            try:
                return int(s)
            except ValueError:
                raise SQLError('22P02', 'invalid input syntax for type integer: "%s"' % s)
        if oid == BOOL:
            return s in ('t', 'true', 'on', '1')
        if oid == BYTEA:
            return bytes.fromhex(s[2:]) if s.startswith('\\x') else b
        if oid == FLOAT8:
            return float(s)
        if oid in ELEM:
            raise SQLError('0A000', 'text arrays not simulated')
        return s
    try:
        if oid == INT4:
            return i4.unpack(b)[0]
        if oid == INT8:
            return i8.unpack(b)[0]
        if oid == INT2:
            return h.unpack(b)[0]
        if oid == OID:
            return I.unpack(b)[0]
        if oid == FLOAT8:
            return struct.unpack('!d', b)[0]
        if oid == BOOL:
            return b != b'\0'
    except struct.error:
        raise SQLError('22P03', 'incorrect binary data format in bind parameter')
    if oid == BYTEA:
        return b
    if oid in ELEM:
        ndim, fl, el = struct.unpack_from('!iiI', b, 0)
        off = 12
        dims = []
        for _ in range(ndim):
            d, lb = struct.unpack_from('!ii', b, off)
            dims.append(d); off += 8
        n = 1 if ndim else 0
        for d in dims:
            n *= d
        flat = []
        for _ in range(n):
            ln = i4.unpack_from(b, off)[0]; off += 4
            if ln < 0:
                flat.append(None)
            else:
                flat.append(dec(el, b[off:off + ln], 1)); off += ln
        if off != len(b):
            raise SQLError('22P03', 'improper binary format in array')
        for d in reversed(dims[1:]):
            flat = [flat[k:k + d] for k in range(0, len(flat), d)]
        return flat
    return text(b)


# ---------------------------------------------------------------- generated results
_FILL = 'abcdefghijklmnopqrstuvwxyz0123456789-_.,;\n\t"\'\\ \u00e9\u4e2d'


def genrow(tag, j, ncols):
    """row j of result `tag`: a deterministic mixture of sizes and NULLs"""
    r = (tag * 2654435761 + j * 40503 + 12345) & 0xFFFFFFFF
    r ^= r >> 13
    if ncols > 4 or ncols == 0:
        return _shaped(r, tag, j, ncols)
    row = [j]
    if ncols > 1:
        k = r % 11
        n = (0, 1, 3, 8, 17, 40, 5, 2, 90, 12, 30)[k]
        if tag % 7 == 3 and j % 50 == 7:
            n = 9000                 # larger than one read
        elif tag % 13 == 6 and j == 2:
            n = 65400 + r % 300      # the message is about as long as 16 bits can say, or longer
        s = '%d:%d:' % (tag, j)
        o = r % len(_FILL)
        f = _FILL[o:] + _FILL[:o]
        row.append(s + (f * (n // len(f) + 1))[:n])
    if ncols > 2:
        row.append(None if r % 5 == 0 else bytes([(r >> 8) & 255]) * (r % 7))
    if ncols > 3:
        row.append(None if r % 3 == 0 else (r % 2 == 0))
    return tuple(row)


def _shaped(r, tag, j, shape):
    if shape == 0:
        return ()
    if shape == 5:
        return (None if r % 4 == 0 else j - 3,)
    if shape == 6:
        return (None if r % 4 == 0 else '' if r % 4 == 1 else 'n%d:%d' % (tag, j),)
    if shape == 7:
        return (None if r % 3 == 0 else bytes([r & 255, 0, 10]) * (r % 4), j)
    if shape == 9:
        c = None if r % 5 == 0 else (None if r % 7 == 0 else j, None if r % 4 == 0 else 'p%d"(,' % j)
        return (j, c, None if r % 3 == 0 else j + 7, ('red', 'gr een', None)[r % 3])
    if shape == 10:
        return tuple([None if (c * 7 + r) % 13 == 0 else j * 1000 + c for c in range(300)])
    row = []
    for c, (nm, oid) in enumerate(GENSHAPES[8]):
        q = (r >> c) ^ (r * (c + 3) >> 7)
        if q % 4 == 0:
            v = None
        elif oid == INT8:
            v = j * 4294967311 - q
        elif oid == FLOAT8:
            v = (q % 1000) / 8.0 - 60
        elif oid == BOOL:
            v = q % 2 == 0
        elif oid == BYTEA:
            v = bytes([q & 255]) * (q % 20)
        else:
            v = '%d.%d.%d' % (tag, j, c)
        row.append(v)
    return tuple(row)


GENCOLS = [('i', INT4), ('v', TEXT), ('b', BYTEA), ('f', BOOL)]
GENSHAPES = {0: [], 5: [('x', INT4)], 6: [('t', TEXT)], 7: [('b', BYTEA), ('i', INT4)],
             8: [('c%d' % k, o) for k, o in enumerate([INT8, TEXT, FLOAT8, BOOL, BYTEA, TEXT, INT8, BOOL, FLOAT8, TEXT, BYTEA, INT8, TEXT])],
             9: [('i', INT4), ('pair', COMPOSITE), ('d', DOMAIN), ('e', ENUM)],
             10: [('w%d' % k, INT4) for k in range(300)]}


def gencols(shape):
    return GENCOLS[:shape] if 0 < shape < 5 else GENSHAPES[shape]


def copyline(row):
    """COPY text format"""
    out = []
    for v in row:
        if v is None:
            out.append('\\N')
        elif isinstance(v, bool):
            out.append('t' if v else 'f')
        elif isinstance(v, bytes):
            out.append('\\\\x' + v.hex())
        else:
            out.append(str(v).replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n').replace('\r', '\\r'))
    return wire('\t'.join(out) + '\n')


def uncopy(line):
    out = []
    for f in text(line).split('\t'):
        if f == '\\N':
            out.append(None)
        else:
            out.append(re.sub(r'\\(.)', lambda m: {'t': '\t', 'n': '\n', 'r': '\r'}.get(m.group(1), m.group(1)), f))
    return out


# ---------------------------------------------------------------- database
class Die(Exception):
    """raised by an injected event: the session dies here"""
    def __init__(self, how, code='57P01', text='terminating connection due to administrator command'):
        super().__init__(how)
        self.how = how; self.code = code; self.text = text


class Database:
    """state shared by the sessions of one server; survives sessions"""
    def __init__(self, sim, opts=None):
        self.sim = sim
        opts = opts or {}
        self.opts = opts
        self.tables = {'kv': {}, 'kv2': {}, 'lines': {}, 'lines2': {}, 'lines3': {}}
        self.pk = {'kv', 'kv2'}
        self.rowid = 0
        self.backends = {}
        self.next_pid = opts.get('pid0', 1000)
        self.locks = {}            # key -> {'holders': {backend: {'x': n, 's': n}}, 'queue': [(backend, mode)]}
        self.listeners = {}        # channel -> [backend, ...] in listen order
        self.commits = 0
        self.commit_log = []       # (pid, [ops])
        self.defaults = {
            'server_version': opts.get('version', '16.3'), 'server_encoding': 'UTF8', 'client_encoding': 'UTF8',
            'DateStyle': 'ISO, MDY', 'TimeZone': 'UTC', 'integer_datetimes': 'on',
            'standard_conforming_strings': 'on', 'is_superuser': 'on', 'session_authorization': 'sim',
            'application_name': '', 'IntervalStyle': 'postgres', 'search_path': '"$user", public',
            'client_min_messages': 'notice', 'work_mem': '4MB', 'statement_timeout': '0', 'extra_float_digits': '1',
            'default_transaction_isolation': 'read committed', 'lock_timeout': '0',
        }
        self.defaults.update(opts.get('defaults', ()))
        self.reported = {'server_version', 'server_encoding', 'client_encoding', 'DateStyle', 'TimeZone',
                         'integer_datetimes', 'standard_conforming_strings', 'is_superuser',
                         'session_authorization', 'application_name', 'IntervalStyle'}
        self.readonly = {'server_version', 'server_encoding', 'integer_datetimes', 'is_superuser'}
        self.cancels = []          # cancel requests received (pid, key, matched)
        self.startups = []
        self.history = []          # executed statements, in order: (pid, text)

    def wake(self):
        for b in list(self.backends.values()):
            b.poke()

    # advisory locks
    def lock_conflicts(self, key, mode, b):
        e = self.locks.get(key)
        if not e:
            return []
        out = []
        for o, m in e['holders'].items():
            if o is b:
                continue
            if mode == 'x' or m.get('x'):
                out.append(o)
        return out

    def lock_try(self, key, mode, b):
        if self.lock_conflicts(key, mode, b):
            return False
        e = self.locks.setdefault(key, {'holders': {}, 'queue': []})
        m = e['holders'].setdefault(b, {})
        m[mode] = m.get(mode, 0) + 1
        return True

    def lock_release(self, key, mode, b):
        e = self.locks.get(key)
        if not e or b not in e['holders'] or not e['holders'][b].get(mode):
            return False
        m = e['holders'][b]
        m[mode] -= 1
        if not m[mode]:
            del m[mode]
        if not m:
            del e['holders'][b]
        if not e['holders'] and not e['queue']:
            del self.locks[key]
        return True

    def held(self, b):
        """{key: {mode: count}} of a backend"""
        return {k: dict(e['holders'][b]) for k, e in self.locks.items() if b in e['holders']}


PG16ORDER = ['integer_datetimes', 'TimeZone', 'IntervalStyle', 'is_superuser', 'application_name', 'DateStyle',
             'standard_conforming_strings', 'session_authorization', 'client_encoding', 'server_version', 'server_encoding']


class Wait:
    """yielded by executing statements that must wait"""
    def __init__(self, cond, what):
        self.cond = cond; self.what = what


class Stmt:
    def __init__(self, name, sql, oids):
        self.name = name; self.sql = sql; self.oids = oids
        self.plan = None


class Portal:
    def __init__(self, name, plan, rows, fmts, cols):
        self.name = name; self.plan = plan; self.gen = rows; self.fmts = fmts; self.cols = cols
        self.started = False; self.done = False; self.count = 0
        self.cursor = None


class SQLCursor:
    """a scrollable cursor: position 0 is before the first row"""
    def __init__(self, name, cols, rows, hold):
        self.name = name; self.cols = cols; self.rows = rows; self.hold = hold; self.pos = 0
        self.created_in = None

    def fetch(self, direction, n):
        """n None = ALL; returns the rows passed"""
        N = len(self.rows)
        out = []
        if n is not None and n < 0:
            n = -n
            direction = 'BACKWARD' if direction == 'FORWARD' else 'FORWARD'
        if n == 0:
            return [self.rows[self.pos - 1]] if 1 <= self.pos <= N else []
        while n is None or len(out) < n:
            if direction == 'FORWARD':
                if self.pos > N:
                    break
                self.pos += 1
                if self.pos > N:
                    break
            else:
                if self.pos <= 0:
                    break
                self.pos -= 1
                if self.pos <= 0:
                    break
            out.append(self.rows[self.pos - 1])
        return out

    def absolute(self, n):
        N = len(self.rows)
        if n < 0:
            n = N + 1 + n
            if n < 0:
                n = 0
        self.pos = min(n, N + 1)
        return [self.rows[self.pos - 1]] if 1 <= self.pos <= N else []


class Tx:
    """an open transaction: an operation log over the committed tables"""
    def __init__(self, db, implicit):
        self.db = db; self.implicit = implicit
        self.log = []
        self.saves = []          # (name, log length, gucs copy, cursor names, notifies, portals)
        self.ended = None        # 'commit' | 'rollback'
        self.undone = 0          # savepoints rolled back to
        self.views = {}
        self.listen = []
        self.notifies = []
        self.guc_undo = None
        self.readonly = False
        self.isolation = None

    def view(self, t):
        v = self.views.get(t)
        if v is None:
            v = dict(self.db.tables[t])
            for op in self.log:
                if op[1] == t:
                    self._apply(v, op)
            self.views[t] = v
        return v

    @staticmethod
    def _apply(v, op):
        if op[0] == 'set':
            v[op[2]] = op[3]
        elif op[0] == 'del':
            v.pop(op[2], None)

    def do(self, op):
        if self.readonly:
            raise SQLError('25006', 'cannot write in a read-only transaction')
        self.view(op[1])
        self.log.append(op)
        self._apply(self.views[op[1]], op)

    def truncate(self, n):
        if len(self.log) != n:
            del self.log[n:]
            self.views = {}


class Plan:
    """a recognised statement"""
    __slots__ = ('kind', 'cols', 'fn', 'tag', 'oids', 'sql', 'arg', 'rows_stmt', 'raw')

    def __init__(self, kind, fn, cols=None, tag='SELECT', oids=(), arg=None):
        self.kind = kind; self.fn = fn; self.cols = cols; self.tag = tag; self.oids = list(oids); self.arg = arg
        self.raw = False        # its parameters are taken as they are: (format, bytes)


class Backend:
    """one session"""
    def __init__(self, conn, db, opts=None):
        self.conn = conn; self.db = db; self.sim = conn.sim
        self.opts = dict(db.opts); self.opts.update(opts or {})
        self.buf = bytearray()
        self.closed = False
        self.pid = db.next_pid; db.next_pid += 1
        self.key = (self.pid * 7919 + 17) & 0x7FFFFFFF
        if 'key' in self.opts:
            self.key = (self.key * 2654435761 + self.opts['key']) & 0xFFFFFFFF
        self.gucs = {}
        self.session_defaults = {}
        self.stmts = {}
        self.portals = {}
        self.cursors = {}
        self.cur_portal = None
        self.tx = None
        self.failed = False
        self.skip = False
        self.cancel = False
        self.waiting = None
        self.listening = []
        self.pending_notifies = []
        self.outbuf = bytearray()
        self.nout = 0              # messages written since session start (after ReadyForQuery #1)
        self.nin = 0               # messages read since then
        self.ready = False
        self.terminated = False    # client said Terminate
        self.in_copy = False
        self.codec = 'utf-8'
        self.bytes_in = 0
        self.bytes_out = 0
        self.idle = False
        self.messages = []         # (type, body) received, when opts['record']
        self.record = self.opts.get('record', False)
        self.inject = {}           # output message index -> [callable]
        self.undo = False
        self.err_at = {}           # input message index -> (code, text, severity)
        self.note_marks = []       # byte offset at which each notification sent is complete
        self.sent_async = []       # ('notice', text) / ('status', k, v) / ('notify', chan, payload, pid) written to the wire
        self.notice_serial = 0
        self.ssl_answered = False
        self.saw_clear = []        # what arrived before encryption
        self.errors_sent = []
        self.errors_fields = []
        self.sync_count = 0
        self.tls_ok = self.opts.get('tls', False)
        self.co = self.main()
        self.want = next(self.co)

    # ------------------------------------------------ plumbing
    def feed(self, data):
        if self.closed:
            return
        self.bytes_in += len(data)
        self.buf += data
        self.poke()

    @coded
    def poke(self):
        """resume if what we wait for is there"""
        if self.closed or getattr(self, 'running', False):
            return
        self.running = True
        try:
            while not self.closed:
                w = self.want
                if isinstance(w, Wait):
                    if not (w.cond() or self.cancel):
                        return
                elif len(self.buf) < w:
                    return
                self.want = self.co.send(None)
        except StopIteration:
            self._exit()
        except Die as d:
            self.kill(d.how, d.code, d.text)
        finally:
            self.running = False
            self.flush()

    def read(self, n):
        while len(self.buf) < n:
            yield n
        d = bytes(self.buf[:n])
        del self.buf[:n]
        return d

    def out(self, t, body=b''):
        if self.ready and self.inject:
            for f in self.inject.pop(self.nout, ()):
                f(self)
        self.nout += 1
        self.outbuf += t
        self.outbuf += I.pack(len(body) + 4)
        self.outbuf += body

    def raw(self, t, body=b''):
        """a message that does not count (injected)"""
        self.outbuf += msg(t, body)
        if t == b'A':
            self.note_marks.append(self.conn.s2c_sent + len(self.outbuf))

    def flush(self):
        if self.outbuf and not self.closed:
            d = bytes(self.outbuf)
            self.bytes_out += len(d)
            self.outbuf = bytearray()
            mut = self.opts.get('mutate')
            if mut is not None:
                d = mut(self, d)
            self.conn.server_write(d)

    @property
    def xtx(self):
        """the explicit transaction, if any"""
        t = self.tx
        return t if t is not None and not t.implicit else None

    def disconnected(self):
        """the transport is gone"""
        if not self.closed:
            self.sim.log('srv', self.pid, 'sees disconnect')
            self._cleanup()

    def _exit(self):
        self.flush()
        c = self.conn
        self._cleanup()
        c.server_close()

    def _cleanup(self):
        if self.closed:
            return
        self.closed = True
        if self.tx is not None:
            self.rollback_tx()
        for key in list(self.db.locks):
            e = self.db.locks[key]
            e['queue'] = [q for q in e['queue'] if q[0] is not self]
            e['holders'].pop(self, None)
            if not e['holders'] and not e['queue']:
                del self.db.locks[key]
        for ch in list(self.db.listeners):
            if self in self.db.listeners[ch]:
                self.db.listeners[ch].remove(self)
        self.db.backends.pop(self.pid, None)
        self.sim.log('srv', self.pid, 'exit')
        try:
            self.co.close()
        except ValueError:
            pass              # closing from within; poke() stops
        self.db.wake()

    @coded
    def kill(self, how='fatal', code='57P01', text='terminating connection due to administrator command'):
        """terminate this session from outside"""
        if self.closed:
            return
        self.sim.count('srv_kill_' + how)
        if how == 'fatal':
            self.outbuf += msg(b'E', errbody('FATAL', code, text))
        self.flush()
        c = self.conn
        self._cleanup()
        c.server_close('eof' if how != 'reset' else 'reset')

    def tls_started(self):
        self.tls = True

    # ------------------------------------------------ session
    def main(self):
        o = self.opts
        if o.get('greet_delay'):
            t0 = self.sim.now + o['greet_delay']
            self.sim.after(o['greet_delay'], self.poke)
        while True:
            hdr = yield from self.read(8)
            ln, code = struct.unpack('!II', hdr)
            if code == 80877103:
                if ln != 8:
                    self.sim.violate('malformed-request', 'SSL request length %d' % ln)
                    return
                self.db.startups.append(('sslrequest', self.conn.cid, self.conn.addr))
                ans = o.get('ssl', 'N')
                self.sim.count('ssl_answer_%s' % ans)
                if ans == 'S':
                    self.outbuf += b'S'
                    self.conn.tls_outcome = o.get('tls_outcome', 'ok')
                    self.flush()
                    if self.conn.tls_outcome == 'eof':
                        return
                    # the handshake happens outside the byte stream
                    continue
                elif ans == 'N':
                    self.outbuf += b'N'
                    self.flush()
                    continue
                elif ans == 'E':
                    self.outbuf += msg(b'E', errbody('FATAL', '0A000', 'unsupported frontend protocol'))
                    return
                elif ans == 'junk':
                    self.outbuf += b'H'
                    self.flush()
                    continue
                elif ans == 'eof':
                    return
                elif ans == 'reset':
                    c = self.conn
                    self._cleanup()
                    c.server_close('reset')
                    return
                elif ans == 'hang':
                    yield Wait(lambda: False, 'never')
                raise AssertionError(ans)
            if code == 80877102:
                if ln != 16:
                    self.sim.violate('malformed-request', 'cancel request length %d' % ln)
                    return
                pk = yield from self.read(8)
                pid, key = struct.unpack('!II', pk)
                b = self.db.backends.get(pid)
                ok = b is not None and b.key == key
                self.db.cancels.append((pid, key, ok, self.conn.cid))
                self.sim.count('cancel_requests')
                self.sim.log('srv cancel request', pid, ok)
                if ok:
                    b.request_cancel()
                return
            break
        if code != 196608:
            self.sim.violate('malformed-request', 'startup code %d length %d' % (code, ln))
            return
        body = yield from self.read(ln - 8)
        parts = body.split(b'\0')
        params = {}
        if not body.endswith(b'\0') or (len(parts) < 2):
            self.sim.violate('malformed-request', 'startup packet %r' % body)
            return
        # key\0value\0 ... \0
        kv = parts[:-2]
        if len(kv) % 2:
            self.sim.violate('malformed-request', 'startup packet %r' % body)
            return
        for k in range(0, len(kv), 2):
            params[kv[k].decode()] = kv[k + 1].decode('utf-8')
        self.params = params
        tls = self.conn.tls
        self.db.startups.append(('startup', self.conn.cid, self.conn.addr, tls, dict(params)))
        self.sim.log('srv startup', self.pid, 'tls' if tls else 'clear', sorted(params.items()))
        rej = o.get('reject')
        if callable(rej):
            delay = o.get('slow_start', 0)
            if callable(delay):
                delay = delay(self)
            if delay:
                # accepts, and answers late
                self.sim.count('srv_slow_start')
                end = self.sim.now + delay
                self.sim.after(delay, self.poke)
                yield Wait(lambda: self.sim.now >= end, 'start-up')
            rej = rej(self)
        if rej is None and tls and o.get('reject_tls'):
            rej = o['reject_tls']
        if rej is None and not tls and o.get('reject_clear'):
            rej = o['reject_clear']
        if rej:
            self.sim.count('srv_reject')
            if rej == 'eof':
                return
            self.outbuf += msg(b'E', errbody('FATAL', rej, 'connection rejected'))
            return
        auth = o.get('auth', 'trust')
        pw = o.get('password', 'secret')
        user = params.get('user', '')
        if auth in ('hang',):
            yield Wait(lambda: False, 'never')
        if auth == 'unsupported':
            self.outbuf += msg(b'R', I.pack(o.get('authcode', 10)) + b'SCRAM-SHA-256\0\0')
            self.flush()
            yield from self.read(1)
            return
        if auth in ('clear', 'md5', 'crypt'):
            if auth == 'clear':
                self.out(b'R', I.pack(3))
                expect = pw.encode()
            elif auth == 'crypt':
                import crypt as _c  # not used by default
                raise AssertionError
            else:
                salt = I.pack((self.pid * 2654435761) & 0xFFFFFFFF)
                self.out(b'R', I.pack(5) + salt)
                inner = hashlib.md5(pw.encode() + user.encode()).hexdigest()
                expect = b'md5' + hashlib.md5(inner.encode() + salt).hexdigest().encode()
            self.flush()
            t = yield from self.read(1)
            if t != b'p':
                self.sim.violate('malformed-request', 'expected a password message, got %r' % t)
                return
            n = I.unpack((yield from self.read(4)))[0]
            d = yield from self.read(n - 4)
            self.db.startups.append(('password', self.conn.cid, self.conn.addr, tls))
            if d[-1:] != b'\0':
                self.sim.violate('malformed-request', 'password message %r' % d)
                return
            if d[:-1] != expect:
                self.sim.count('auth_failed')
                self.outbuf += msg(b'E', errbody('FATAL', '28P01', 'password authentication failed for user "%s"' % user))
                return
        if o.get('neg_notice'):
            self.out(b'N', errbody('WARNING', '01000', 'early warning'))
        self.out(b'R', I.pack(0))
        if o.get('post_auth_error'):
            self.outbuf += msg(b'E', errbody('FATAL', o['post_auth_error'], 'rejected after authentication'))
            return
        self.db.backends[self.pid] = self
        for k, v in params.items():
            if k in ('user', 'database', 'options'):
                continue
            kk = self.gucname(k)
            if kk is not None and kk not in self.db.readonly:
                try:
                    self.gucs[kk] = self.canon(kk, v)
                except SQLError as e:
                    self.errors_sent.append((e.code, e.msg, 'FATAL'))
                    self.errors_fields.append({})
                    self.outbuf += msg(b'E', errbody('FATAL', e.code, e.msg))
                    return
        self.gucs['session_authorization'] = user
        self.recode()
        self.session_defaults = dict(self.gucs)
        # the order in which PostgreSQL 16 reports them, or another
        rep = sorted(self.db.reported, key=lambda k: PG16ORDER.index(k) if k in PG16ORDER else -1)
        rot = o.get('report_from', 0) % len(rep)
        rep = rep[rot:] + rep[:rot]
        self.told = {}
        for k in rep:
            self.told[k] = self.guc(k)
            self.out(b'S', cstr(k) + cstr(self.guc(k)))
        self.out(b'K', struct.pack('!II', self.pid, self.key))
        self.out(b'Z', b'I')
        self.ready = True
        self.nout = 0
        self.flush()
        hook = self.opts.get('on_ready')
        if hook is not None:
            hook(self)
        self.db.wake()
        yield from self.loop()

    def loop(self):
        while True:
            self.idle = True
            if self.pending_notifies and self.tx is None:
                self.send_notifies()
                self.flush()
            while len(self.buf) < 5:
                yield 5
                if self.pending_notifies and self.tx is None and len(self.buf) < 5:
                    self.send_notifies()
                    self.flush()
            t = bytes(self.buf[:1])
            n = I.unpack_from(self.buf, 1)[0]
            if n < 4 or t not in b'QPBDECHSXFdcfp':
                self.sim.violate('malformed-request', 'message type %r length %d' % (t, n))
                return
            while len(self.buf) < n + 1:
                yield n + 1
            self.idle = False
            body = bytes(self.buf[5:n + 1])
            del self.buf[:n + 1]
            self.sim.steps += 1
            if self.record:
                self.messages.append((t, body))
            idx = self.nin
            self.nin += 1
            if t == b'X':
                if body:
                    self.sim.violate('malformed-request', 'Terminate with a body')
                self.terminated = True
                self.sim.log('srv', self.pid, 'terminate')
                return
            if self.cancel and t not in b'S' and not self.skip:
                # a cancel that arrived while idle is forgotten when the next command starts
                self.cancel = False
            self.cur_portal = None
            # undoing a transaction is what a server does not fail at
            self.undo = t == b'Q' and body[:8].upper().startswith((b'ABORT', b'ROLLBACK'))
            try:
                try:
                    ef = self.err_at.pop(idx, None)
                    if ef is not None and not (self.skip or self.undo and len(ef) < 3 or t in b'SHXdcfC'):
                        self.sim.count('srv_error_at_' + t.decode())
                        raise SQLError(ef[0], ef[1], ef[2] if len(ef) > 2 else 'ERROR')
                    elif ef is not None:
                        # the message is not one that can fail: hit the next
                        self.err_at.setdefault(idx + 1, ef)
                    if t in b'dcf':
                        # copy data outside COPY: ignored by a server
                        self.sim.count('stray_copy_data')
                        continue
                    if t == b'p':
                        if self.opts.get('mutate'):     # it may have been asked for
                            raise SQLError('08P01', 'invalid frontend message type 112', 'FATAL')
                        raise ProtocolError('password message outside authentication')
                    if self.skip and t not in b'S':
                        continue
                    yield from getattr(self, 'on_' + t.decode())(body)
                except (IndexError, struct.error, UnicodeDecodeError, ValueError) as e:
                    raise ProtocolError('%s: %r in message %r %r' % (type(e).__name__, e, t, body[:80]))
            except SQLError as e:
                self.error(e)
                if e.severity != 'ERROR':
                    return
                if t in (b'Q', b'S'):
                    self.end_implicit()
                    yield from self.ready_for_query()
                else:
                    self.skip = True
                    self.flush()
            except ProtocolError as e:
                self.sim.violate('malformed-request', str(e))
                self.outbuf += msg(b'E', errbody('FATAL', '08P01', 'invalid message: ' + str(e)[:100]))
                return
            if len(self.outbuf) > 65536:
                self.flush()

    def error(self, e):
        self.sim.log('srv', self.pid, 'error', e.code, e.severity)
        self.sim.mark('E' + e.code)
        if not e.fields and len(e.msg) % 2:
            # nothing a client could not read that has not been told of a new encoding yet
            # (nor of the one that comes back with the rollback that follows)
            now = self.guc('client_encoding')
            told = getattr(self, 'told', {}).get('client_encoding') == now
            if self.tx is not None and self.tx.guc_undo is not None:
                told = told and self.tx.guc_undo.get('client_encoding', self.db.defaults.get('client_encoding')) == now
            e.fields = {'D': 'detail of ' + e.msg, 'H': 'h\u00efnt' if told else 'hint', 'W': 'line 1\nline 2'}
        self.errors_sent.append((e.code, e.msg.encode(self.codec, 'replace').decode(self.codec), e.severity))
        self.errors_fields.append({k: v.encode(self.codec, 'replace').decode(self.codec) for k, v in e.fields.items()})
        self.out(b'E', errbody(e.severity, e.code, e.msg, e.fields))
        if self.tx is not None:
            if self.tx.implicit:
                self.rollback_tx()
            else:
                self.failed = True
                self.drop_tx_cursors()
        self.portals.clear() if self.tx is None else None

    def ready_for_query(self):
        if self.pending_notifies and self.tx is None:
            self.send_notifies()
        st = b'I' if self.tx is None else (b'E' if self.failed else b'T')
        if self.opts.get('late_report'):
            for k in sorted(self.db.reported):
                if self.told[k] != self.guc(k):
                    self.report(k, self.guc(k))
        self.out(b'Z', st)
        self.sync_count += 1
        self.flush()
        return
        yield

    @coded
    def send_notifies(self):
        for pid, ch, pl in self.pending_notifies:
            self.sent_async.append(('notify', ch, pl, pid))
            self.raw(b'A', I.pack(pid) + cstr(ch) + cstr(pl))
        self.pending_notifies = []

    def notify_arrived(self):
        if self.idle and self.tx is None and len(self.buf) < 5 and self.ready and not isinstance(self.want, Wait):
            self.send_notifies()
            self.flush()

    @coded
    def notice(self, text, code='00000', sev='NOTICE', **f):
        self.sent_async.append(('notice', sev, code, text, tuple(sorted(f.items()))))
        self.raw(b'N', errbody(sev, code, text, f))

    def param_status(self, k, v):
        if self.opts.get('late_report') and self.ready:
            return          # reported before the next ReadyForQuery (PostgreSQL 14 and later)
        self.report(k, v)

    @coded
    def report(self, k, v):
        self.told[k] = v
        self.sent_async.append(('status', k, v))
        self.raw(b'S', cstr(k) + cstr(v))

    def request_cancel(self):
        self.cancel = True
        self.poke()

    # ------------------------------------------------ GUCs
    def gucname(self, k):
        for n in self.db.defaults:
            if n.lower() == k.lower():
                return n
        return None

    def guc(self, k):
        if k in self.gucs:
            return self.gucs[k]
        return self.db.defaults[k]

    def set_guc(self, k, v, local=False):
        n = self.gucname(k)
        if n is None:
            raise SQLError('42704', 'unrecognized configuration parameter "%s"' % k)
        if n in self.db.readonly:
            raise SQLError('55P02', 'parameter "%s" cannot be changed' % n)
        if v is None:
            v = self.session_defaults.get(n, self.db.defaults[n])
        v = self.canon(n, v)
        old = self.guc(n)
        if self.tx is not None and self.tx.guc_undo is None:
            self.tx.guc_undo = dict(self.gucs)
        self.gucs[n] = v
        if n == 'client_encoding':
            self.recode()
        if n in self.db.reported and v != old:
            self.param_status(n, v)
        return v

    def recode(self):
        self.codec = codec_of(self.guc('client_encoding'))[1]
        if getattr(self, 'running', False):
            CODEC[0] = self.codec

    def canon(self, n, v):
        if n == 'application_name':
            return ''.join(c if ' ' <= c <= '~' else ''.join('\\x%02x' % x for x in c.encode('utf-8')) for c in v)
        if n == 'client_encoding':
            c = codec_of(v)
            if c is None:
                raise SQLError('22023', 'invalid value for parameter "client_encoding": "%s"' % v)
            return c[0]
        if n == 'client_min_messages':
            if v.lower() not in ('debug5', 'debug4', 'debug3', 'debug2', 'debug1', 'debug', 'log', 'notice', 'warning', 'error', 'info'):
                raise SQLError('22023', 'invalid value for parameter "client_min_messages": "%s"' % v)
            return v.lower()
        if n == 'work_mem':
            m = re.match(r'^\s*(\d+)\s*(kB|MB|GB)?\s*$', v)
            if not m:
                raise SQLError('22023', 'invalid value for parameter "work_mem": "%s"' % v)
            kb = int(m.group(1)) * {'kB': 1, 'MB': 1024, 'GB': 1048576, None: 1}[m.group(2)]
            if kb % 1048576 == 0 and kb:
                return '%dGB' % (kb // 1048576)
            if kb % 1024 == 0 and kb:
                return '%dMB' % (kb // 1024)
            return '%dkB' % kb
        if n == 'standard_conforming_strings':
            if v.lower() not in ('on', 'off', 'true', 'false', 'yes', 'no', '1', '0'):
                raise SQLError('22023', 'parameter "%s" requires a Boolean value' % n)
            return 'on' if v.lower() in ('on', 'true', 'yes', '1') else 'off'
        if n == 'extra_float_digits':
            if not re.match(r'^-?\d+$', v):
                raise SQLError('22023', 'invalid value for parameter "%s": "%s"' % (n, v))
            return str(int(v))
        if n in ('statement_timeout', 'lock_timeout'):
            m = re.match(r'^\s*(\d+)\s*(ms|s|min)?\s*$', v)
            if not m:
                raise SQLError('22023', 'invalid value for parameter "%s": "%s"' % (n, v))
            ms = int(m.group(1)) * {'ms': 1, 's': 1000, 'min': 60000, None: 1}[m.group(2)]
            for u, f in (('min', 60000), ('s', 1000), ('ms', 1)):
                if ms and ms % f == 0:
                    return '%d%s' % (ms // f, u)
            return '0'
        return v

    def setting(self, n):
        """as pg_settings.setting shows it: a number of base units"""
        v = self.guc(n)
        m = re.match(r'^(\d+)(kB|MB|GB|ms|s|min)$', v)
        if n in ('work_mem', 'statement_timeout', 'lock_timeout') and m:
            return str(int(m.group(1)) * {'kB': 1, 'MB': 1024, 'GB': 1048576, 'ms': 1, 's': 1000, 'min': 60000}[m.group(2)])
        return v

    def restore_gucs(self, saved):
        old = {k: self.guc(k) for k in self.db.defaults}
        self.gucs = saved
        self.recode()
        for k in sorted(self.db.reported):
            if self.guc(k) != old[k]:
                self.param_status(k, self.guc(k))

    # ------------------------------------------------ transactions
    def need_tx(self):
        if self.tx is None:
            self.tx = Tx(self.db, True)
            self.failed = False
        return self.tx

    def commit_tx(self):
        tx = self.tx
        for n in sorted(self.cursors):
            c = self.cursors[n]
            if c.hold and c.created_in is tx:
                # a holdable cursor is materialised when its transaction commits
                try:
                    c.rows._to(None)
                except SQLError:
                    self.rollback_tx()
                    raise
        self.tx = None
        tx.ended = 'commit'
        self.failed = False
        for op in tx.log:
            Tx._apply(self.db.tables[op[1]], op)
        if tx.log:
            self.db.commits += 1
            self.db.commit_log.append((self.pid, list(tx.log)))
        for kind, ch in tx.listen:
            L = self.db.listeners.setdefault(ch, [])
            if kind == 'listen':
                if self not in L:
                    L.append(self)
            elif self in L:
                L.remove(self)
        for n in list(self.cursors):
            c = self.cursors[n]
            if not c.hold:
                del self.cursors[n]
            else:
                c.created_in = None
        self.portals.clear()
        self.sim.log('srv', self.pid, 'commit', len(tx.log))
        seen = set()
        for ch, pl in tx.notifies:
            if (ch, pl) in seen:
                continue
            seen.add((ch, pl))
            self.db_notify(self.pid, ch, pl)

    def db_notify(self, pid, ch, pl):
        for b in list(self.db.listeners.get(ch, ())):
            b.pending_notifies.append((pid, ch, pl))
            if b is not self:
                self.sim.after(0, b.notify_arrived)

    def rollback_tx(self):
        tx = self.tx
        self.tx = None
        tx.ended = 'rollback'
        self.failed = False
        self.portals.clear()
        for n in list(self.cursors):
            c = self.cursors[n]
            if c.created_in is not None or not c.hold:
                del self.cursors[n]
        if tx.guc_undo is not None and not self.closed:
            self.restore_gucs(tx.guc_undo)
        elif tx.guc_undo is not None:
            self.gucs = tx.guc_undo
        self.sim.log('srv', self.pid, 'rollback', len(tx.log))

    def drop_tx_cursors(self):
        # portals made in the failed (sub)transaction are gone, and the one that was running;
        # those from outside it stay but cannot be used until it is rolled back
        keep = self.tx.saves[-1][5] if self.tx.saves else []
        self.keep_portals([p for p in keep if p is not self.cur_portal])

    def keep_portals(self, keep):
        for n in list(self.portals):
            p = self.portals[n]
            if not any(p is k for k in keep):
                del self.portals[n]

    def end_implicit(self):
        if self.tx is not None and self.tx.implicit:
            self.commit_tx()

    # ------------------------------------------------ simple query
    def on_Q(self, body):
        if body[-1:] != b'\0' or b'\0' in body[:-1]:
            raise ProtocolError('bad query string %r' % body[:80])
        sql = text(body[:-1])
        self.portals.pop('', None)
        self.stmts.pop('', None)
        stmts = split_sql(sql)
        self.sim.mark('Q%d' % len(stmts))
        if not stmts:
            self.out(b'I')
        for s in stmts:
            plan = self.plan(s)
            if plan.oids:
                raise SQLError('42P02', 'there is no parameter $1')
            self.check_failed(plan)
            if plan.kind not in ('tx',):
                self.need_tx()
            self.db.history.append((self.pid, s))
            yield from self.run_simple(plan, s)
        self.end_implicit()
        yield from self.ready_for_query()

    def run_simple(self, plan, s):
        if plan.kind == 'tx':
            tag = plan.fn(self, ())
            self.out(b'C', cstr(tag))
        elif plan.kind == 'rows':
            cols = plan.cols
            self.out(b'T', self.rowdesc(cols, [0] * len(cols)))
            n = 0
            for r in plan.fn(self, ()):
                if isinstance(r, Wait):
                    yield from self.wait(r)
                    continue
                self.out(b'D', self.datarow(cols, r, [0] * len(cols)))
                n += 1
            self.out(b'C', cstr(self.tag(plan, n)))
        elif plan.kind == 'cmd':
            g = plan.fn(self, ())
            tag = yield from self.run_cmd(g)
            self.out(b'C', cstr(tag))
        elif plan.kind == 'copyout':
            yield from self.copy_out(plan, ())
        elif plan.kind == 'copyin':
            yield from self.copy_in(plan, ())
        else:
            raise AssertionError(plan.kind)

    def run_cmd(self, g):
        """a command generator: yields Waits, returns its tag"""
        if isinstance(g, str):
            return g
        try:
            while True:
                w = next(g)
                yield from self.wait(w)
        except StopIteration as e:
            return e.value

    def wait(self, w):
        self.flush()
        self.waiting = w.what
        while not w.cond():
            if self.cancel:
                break
            yield w
        self.waiting = None
        if self.cancel and not w.cond():
            self.cancel = False
            self.sim.count('query_cancelled')
            raise SQLError('57014', 'canceling statement due to user request')

    def check_failed(self, plan):
        if self.failed and not (plan.kind == 'tx' and plan.arg in ('commit', 'rollback', 'rollback_to')):
            raise SQLError('25P02', 'current transaction is aborted, commands ignored until end of transaction block')

    # ------------------------------------------------ extended query
    def on_P(self, body):
        a = body.index(b'\0'); b = body.index(b'\0', a + 1)
        name = body[:a].decode(); sql = text(body[a + 1:b])
        n = H.unpack_from(body, b + 1)[0]
        oids = [I.unpack_from(body, b + 3 + 4 * k)[0] for k in range(n)]
        if len(body) != b + 3 + 4 * n:
            raise ProtocolError('Parse message length')
        if name and name in self.stmts:
            raise SQLError('42P05', 'prepared statement "%s" already exists' % name)
        parts = split_sql(sql)
        if len(parts) > 1:
            raise SQLError('42601', 'cannot insert multiple commands into a prepared statement')
        st = Stmt(name, sql, oids)
        if parts:
            st.plan = self.plan(parts[0])
            self.check_failed(st.plan)
            if st.plan.kind != 'tx':
                self.need_tx()
        if name == '':
            self.stmts.pop('', None)
        self.stmts[name] = st
        self.sim.mark('P')
        self.out(b'1')
        return
        yield

    def on_B(self, body):
        a = body.index(b'\0'); b = body.index(b'\0', a + 1)
        pname = body[:a].decode(); sname = body[a + 1:b].decode()
        off = b + 1
        nf = H.unpack_from(body, off)[0]; off += 2
        fm = [H.unpack_from(body, off + 2 * k)[0] for k in range(nf)]; off += 2 * nf
        npar = H.unpack_from(body, off)[0]; off += 2
        vals = []
        for k in range(npar):
            ln = i4.unpack_from(body, off)[0]; off += 4
            if ln < 0:
                vals.append(None)
            else:
                if off + ln > len(body):
                    raise ProtocolError('Bind parameter length')
                vals.append(body[off:off + ln]); off += ln
        nr = H.unpack_from(body, off)[0]; off += 2
        rf = [H.unpack_from(body, off + 2 * k)[0] for k in range(nr)]; off += 2 * nr
        if off != len(body):
            raise ProtocolError('Bind message length')
        st = self.stmts.get(sname)
        if st is None:
            raise SQLError('26000', 'prepared statement "%s" does not exist' % sname)
        if pname and (pname in self.portals or pname in self.cursors):
            raise SQLError('42P03', 'cursor "%s" already exists' % pname)
        plan = st.plan
        oids = plan.oids if plan else []
        if npar != len(oids):
            raise SQLError('08P01', 'bind message supplies %d parameters, but prepared statement "%s" requires %d' % (npar, sname, len(oids)))
        if nf == 0:
            fm = [0] * npar
        elif nf == 1:
            fm = fm * npar
        elif nf != npar:
            raise SQLError('08P01', 'bind message has %d parameter formats but %d parameters' % (nf, npar))
        if plan is not None:
            self.check_failed(plan)
            if plan.kind != 'tx':
                self.need_tx()
        if plan is not None and plan.raw:
            params = tuple(zip(fm, vals))
        else:
            params = tuple(dec(oid, v, f) for oid, v, f in zip(oids, vals, fm))
        cols = plan.cols if plan else None
        if plan is not None and plan.kind == 'cursorfetch':
            cols = plan.fn(self, 'cols')
        if cols:
            if nr == 0:
                rf = [0] * len(cols)
            elif nr == 1:
                rf = rf * len(cols)
            elif nr != len(cols):
                raise SQLError('08P01', 'bind message has %d result formats but query has %d columns' % (nr, len(cols)))
        p = Portal(pname, plan, None, rf, cols)
        p.params = params
        p.sql = st.sql
        if pname == '':
            self.portals.pop('', None)
        self.portals[pname] = p
        self.sim.mark('B')
        self.out(b'2')
        return
        yield

    def on_D(self, body):
        kind = body[:1]
        if body[-1:] != b'\0' or kind not in b'SP' or not kind:
            raise ProtocolError('Describe message')
        name = body[1:-1].decode()
        if kind == b'S':
            st = self.stmts.get(name)
            if st is None:
                raise SQLError('26000', 'prepared statement "%s" does not exist' % name)
            oids = st.plan.oids if st.plan else []
            self.out(b't', H.pack(len(oids)) + b''.join(I.pack(o) for o in oids))
            cols = st.plan.cols if st.plan else None
            if st.plan is not None and st.plan.kind == 'cursorfetch':
                cols = st.plan.fn(self, 'cols')
            if cols:
                self.out(b'T', self.rowdesc(cols, [0] * len(cols)))
            else:
                self.out(b'n')
        else:
            if name in self.cursors:
                c = self.cursors[name]
                self.out(b'T', self.rowdesc(c.cols, [0] * len(c.cols)))
            else:
                p = self.portals.get(name)
                if p is None:
                    raise SQLError('34000', 'portal "%s" does not exist' % name)
                if p.cols:
                    self.out(b'T', self.rowdesc(p.cols, p.fmts))
                else:
                    self.out(b'n')
        self.sim.mark('D')
        return
        yield

    def on_E(self, body):
        a = body.index(b'\0')
        name = body[:a].decode()
        if len(body) != a + 5:
            raise ProtocolError('Execute message length')
        limit = I.unpack_from(body, a + 1)[0]
        if limit >= 0x80000000:
            limit = 0        # negative: a server treats it as no limit
        p = self.portals.get(name)
        if p is None:
            raise SQLError('34000', 'portal "%s" does not exist' % name)
        plan = p.plan
        self.sim.mark('X')
        if plan is None:
            self.out(b'I')
            return
        if p.started and p.plan.kind not in ('rows', 'cursorfetch'):
            raise SQLError('55000', 'portal "%s" cannot be run' % name)
        self.check_failed(plan)
        self.cur_portal = p
        if not p.started:
            self.db.history.append((self.pid, norm(p.sql)))
        if plan.kind == 'tx':
            tag = plan.fn(self, p.params)
            self.out(b'C', cstr(tag))
            return
        self.need_tx()
        if plan.kind == 'cmd':
            p.started = True
            tag = yield from self.run_cmd(plan.fn(self, p.params))
            self.out(b'C', cstr(tag))
        elif plan.kind == 'copyout':
            p.started = True
            yield from self.copy_out(plan, p.params)
        elif plan.kind == 'copyin':
            p.started = True
            yield from self.copy_in(plan, p.params)
        else:
            if not p.started:
                p.started = True
                p.gen = iter(plan.fn(self, p.params))
                p.ahead = []
            n = 0
            sent = 0
            while True:
                if limit and n >= limit:
                    # a server does not look ahead
                    self.out(b's')
                    return
                if p.done:
                    break
                try:
                    r = next(p.gen)
                except StopIteration:
                    p.done = True
                    break
                if isinstance(r, Wait):
                    yield from self.wait(r)
                    continue
                self.out(b'D', self.datarow(p.cols, r, p.fmts))
                n += 1
                if len(self.outbuf) > 32768:
                    self.flush()
                    if self.cancel:
                        self.cancel = False
                        self.sim.count('query_cancelled')
                        raise SQLError('57014', 'canceling statement due to user request')
            self.out(b'C', cstr(self.tag(plan, n)))

    def on_C(self, body):
        kind = body[:1]
        if body[-1:] != b'\0' or kind not in b'SP' or not kind:
            raise ProtocolError('Close message')
        name = body[1:-1].decode()
        if name and (name in self.stmts if kind == b'S' else name in self.portals or name in self.cursors):
            self.sim.count('srv_close')
        if kind == b'S':
            self.stmts.pop(name, None)
        else:
            self.portals.pop(name, None)
            self.cursors.pop(name, None)
        self.sim.mark('C')
        self.out(b'3')
        return
        yield

    def on_H(self, body):
        if body:
            raise ProtocolError('Flush with a body')
        self.flush()
        return
        yield

    def on_S(self, body):
        if body:
            raise ProtocolError('Sync with a body')
        self.skip = False
        self.end_implicit()
        yield from self.ready_for_query()

    def on_F(self, body):
        raise SQLError('0A000', 'function calls are not simulated')
        yield

    # ------------------------------------------------ rows and COPY
    def rowdesc(self, cols, fmts):
        b = H.pack(len(cols))
        for (n, oid), f in zip(cols, fmts):
            b += cstr(n) + I.pack(0) + H.pack(0) + I.pack(oid) + h.pack(-1) + i4.pack(-1) + H.pack(f)
        return b

    def datarow(self, cols, row, fmts):
        out = [H.pack(len(row))]
        for (n, oid), v, f in zip(cols, row, fmts):
            e = enc(oid, v, f)
            if e is None:
                out.append(b'\xff\xff\xff\xff')
            else:
                out.append(I.pack(len(e)))
                out.append(e)
        return b''.join(out)

    def tag(self, plan, n):
        t = plan.tag
        if t == 'INSERT':
            return 'INSERT 0 %d' % n
        return '%s %d' % (t, n)

    def copy_out(self, plan, params):
        g = plan.fn(self, params)
        binary = bool(plan.arg and plan.arg.get('binary'))
        self.out(b'H', struct.pack('!BH', 1 if binary else 0, 2) + H.pack(1 if binary else 0) * 2)
        n = 0
        for line in g:
            if isinstance(line, Wait):
                yield from self.wait(line)
                continue
            self.out(b'd', line)
            n += 1
            if len(self.outbuf) > 32768:
                self.flush()
                yield from self.pause()
        self.out(b'c')
        self.out(b'C', cstr('COPY %d' % (n if not binary else n - 1)))

    def pause(self):
        if self.cancel:
            self.cancel = False
            self.sim.count('query_cancelled')
            raise SQLError('57014', 'canceling statement due to user request')
        return
        yield

    def copy_in(self, plan, params):
        sink = plan.fn(self, params)
        if self.tx is not None and self.tx.readonly:
            raise SQLError('25006', 'cannot execute COPY FROM in a read-only transaction')
        self.in_copy = True
        self.out(b'G', struct.pack('!BH', 0, 2) + H.pack(0) * 2)
        self.flush()
        try:
            se = self.opts.get('copy_start_error')
            if se is not None:
                se[0] -= 1
                if se[0] == -1:
                    # a statement trigger, or a relation that cannot be copied to: before anything is read
                    self.sim.count('srv_error_at_copy_start')
                    raise SQLError(se[1], 'failure at the start of COPY')
            lag = self.opts.get('copy_lag')
            if lag:
                end = self.sim.now + lag
                self.sim.after(lag, self.poke)
                yield from self.wait(Wait(lambda: self.sim.now >= end, 'copy'))
            yield from self.pause()
            while True:
                t = yield from self.read(1)
                n = I.unpack((yield from self.read(4)))[0]
                body = yield from self.read(n - 4)
                self.sim.steps += 1
                idx = self.nin
                self.nin += 1
                if self.record:
                    self.messages.append((t, body))
                ef = self.err_at.pop(idx, None)
                if ef is not None and t in b'HS':
                    # ignored while copying: nothing can fail there
                    self.err_at[idx + 1] = ef
                elif ef is not None:
                    self.sim.count('srv_error_in_copy')
                    raise SQLError(ef[0], ef[1], ef[2] if len(ef) > 2 else 'ERROR')
                if t == b'd':
                    sink.data(body)
                    # interrupts are held while a message is read
                    yield from self.pause()
                elif t == b'c':
                    cnt = sink.done()
                    break
                elif t == b'f':
                    if body[-1:] != b'\0':
                        raise ProtocolError('CopyFail body')
                    raise SQLError('57014', 'COPY from stdin failed: ' + body[:-1].decode('utf-8', 'replace'))
                elif t in b'HS':
                    pass
                elif t == b'X':
                    self.terminated = True
                    raise SQLError('08P01', 'unexpected EOF on client connection with an open transaction', 'FATAL')
                else:
                    raise SQLError('08P01', 'unexpected message type 0x%02X during COPY from stdin' % t[0], 'FATAL')
        finally:
            self.in_copy = False
        self.out(b'C', cstr('COPY %d' % cnt))

    # ------------------------------------------------ statements
    def plan(self, s):
        from . import simsql
        return simsql.plan(self, s)


def norm(sql):
    sql = re.sub(r'--[^\n]*', ' ', sql)
    return re.sub(r'\s+', ' ', sql).strip()


def split_sql(sql):
    """split at top-level semicolons, drop empty statements and comments"""
    out = []
    cur = []
    k = 0
    n = len(sql)
    while k < n:
        c = sql[k]
        if c == '-' and sql[k:k + 2] == '--':
            e = sql.find('\n', k)
            k = n if e < 0 else e
            continue
        if c in '\'"':
            e = k + 1
            while True:
                j = sql.find(c, e)
                if j < 0:
                    raise SQLError('42601', 'unterminated quoted string')
                if sql[j:j + 2] == c + c:
                    e = j + 2
                    continue
                break
            cur.append(sql[k:j + 1])
            k = j + 1
            continue
        if c == ';':
            s = ''.join(cur).strip()
            if s:
                out.append(s)
            cur = []
            k += 1
            continue
        cur.append(c)
        k += 1
    s = ''.join(cur).strip()
    if s:
        out.append(s)
    return out
