"""C19: malformed server data is a reported fatal error."""
import struct, itertools
from sim.core import *
from sim import client, wl, pgserver, engine
from sim.work import rowsql, parms

PROP = 'C19'
RULE = ('one evaluation = one seeded session in which one to three corruptions are applied to the byte stream the server sends (bits, bytes, lengths, type bytes, '
        'field values, truncated, extended, dropped, duplicated, swapped or inserted messages, at any message from the handshake on), with the server closing the '
        'connection a minute later; distinct non-trivial = distinct sequences of operations, messages and reads among runs in which a corrupted message was delivered')
RUNS = {'quick': 60000, 'thorough': 800000}
REAL = ['postgresql.protocol.* (C and Python message buffer, tuple parser)', 'postgresql.driver.pq3', 'postgresql.types.io']
STUB = ['server (simulated backend) with a corrupted output', 'socket, clock (simulated)']
ASSUMPTIONS = ['a server that stops in the middle of a message closes the connection eventually',
               'a corruption that yields another legal reply (another value, another count) cannot be told from that reply']
PROBES = ['corrupted', 'start', 'ok_after', 'fatal', 'other_error', 'timeout_close', 'malformed']
VARIANTS = ('c', 'py')
H = struct.Struct('!H'); I = struct.Struct('!I')

KINDS = ['flip', 'flip', 'byte', 'type', 'type', 'len', 'len', 'cutbody', 'cutbody', 'extend', 'int', 'int', 'int', 'drop', 'dup', 'swap', 'ins', 'ins', 'insraw',
         'del', 'nul', 'utf', 'att', 'att']
LENS = [0, 1, 2, 3, 4, 5, -1, -4, 1, 4, 100, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffb, 0x10000]
VALS = [0, 1, 2, 3, 5, 0x7f, 0xff, 0x7fff, 0x8000, 0xffff, 0xfffe, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x01000000]
INS = [b'A', b'N', b'S', b'E', b'R', b'K', b'D', b'd', b'c', b'G', b'H', b'W', b'T', b't', b'1', b'2', b'3', b'n', b's', b'I', b'V', b'v', b'\0', b'\x7f', b'\x80', b'\xff', b'x']


def mutation(rng, span):
    k = rng.choice(KINDS)
    return {'m': rng.randrange(span), 'kind': k, 'a': rng.randrange(1 << 16), 'b': rng.randrange(256), 'c': rng.randrange(len(VALS)),
            'n': rng.choice([1, 1, 2, 3, 4, 5, 9]), 'x': bytes(rng.choice([0, 0, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 4, 5, 9]))).hex()}


def gen(rng, tier):
    g = wl.Gen(rng, 3, big=0.1)
    ops = []
    for _ in range(rng.randrange(2, 9)):
        x = rng.random()
        if x < 0.45:
            op = g.q()
            op['how'] = rng.choice(['call', 'rows', 'iter', 'chunks', 'column', 'first', 'query', 'declare'])
            if op['how'] == 'query':
                op.pop('st', None)
            ops.append(op)
        elif x < 0.6:
            ops.append(g.copyout())
        elif x < 0.68:
            ops.append(g.put())
        elif x < 0.74:
            ops.append({'op': 'copyin', 'n': rng.choice([0, 1, 5, 40])})
        elif x < 0.79:
            ops.append({'op': 'load', 'n': rng.choice([1, 3, 20])})
        elif x < 0.92:
            ops.append({'op': rng.choice(['say', 'raise', 'ex', 'set', 'get', 'listen', 'notify', 'tx', 'gc', 'user', 'proc', 'reset'])})
        else:
            ops.append({'op': rng.choice(['tx', 'gc', 'get', 'ex'])})
    start = rng.random() < 0.2
    muts = [mutation(rng, 24 if start else rng.choice([8, 30, 90])) for _ in range(rng.choices([1, 2, 3], [6, 1, 1])[0])]
    cfg = {'start': start, 'chunk': rng.choice([1, 3, 16]), 'auth': rng.choice(['trust', 'md5'])}
    return {'ops': ops, 'policy': wl.policy(rng), 'faults': muts, 'cfg': cfg}


def frames(d):
    """whole messages at the front of d, the rest"""
    out = []; p = 0
    while len(d) - p >= 5:
        n = I.unpack_from(d, p + 1)[0] + 1
        if n < 5 or len(d) - p < n:
            break
        out.append(d[p:p + n]); p += n
    return out, d[p:]


def corrupt(m, f, nxt):
    """-> the bytes that replace message m"""
    k = f['kind']; a = f['a']; b = f['b']; x = bytes.fromhex(f['x'])
    body = m[5:]

    def mk(t, body):
        return t + I.pack(len(body) + 4) + body
    if k == 'flip':
        j = a % (len(m) * 8)
        return m[:j // 8] + bytes([m[j // 8] ^ (1 << j % 8)]) + m[j // 8 + 1:]
    if k == 'byte':
        j = a % len(m)
        return m[:j] + bytes([b]) + m[j + 1:]
    if k == 'type':
        return (bytes([b]) if a % 2 else INS[b % len(INS)]) + m[1:]
    if k == 'len':
        n = len(m) - 1
        v = LENS[b % len(LENS)]
        v = n + (-1, 1, -4, 4, 3, 5, 100)[a % 7] if a % 3 == 0 else v
        return m[:1] + I.pack(v & 0xffffffff) + body
    if k == 'cutbody':
        return mk(m[:1], body[:a % (len(body) + 1)])
    if k == 'extend':
        return mk(m[:1], body + (x or b'\0'))
    if k == 'int':
        if len(body) < 2:
            return mk(m[:1], x)
        w = 2 if a % 2 or len(body) < 4 else 4
        j = (a // 2) % min(len(body) - w + 1, 40 if a % 5 else 7)
        v = VALS[f['c']]
        return m[:5] + body[:j] + (v & (0xffff if w == 2 else 0xffffffff)).to_bytes(w, 'big') + body[j + w:]
    if k == 'drop':
        return b''
    if k == 'dup':
        return m + m
    if k == 'swap':
        return None
    if k == 'ins':
        return mk(INS[b % len(INS)], x) + m
    if k == 'insraw':
        j = a % (len(m) + 1)
        return m[:j] + (x or b'\0') + m[j:]
    if k == 'del':
        j = a % len(m)
        return m[:j] + m[j + f['n']:]
    if k == 'nul':
        j = m.find(b'\0', 5)
        return mk(m[:1], body[:j - 5] + body[j - 4:]) if j >= 5 else mk(m[:1], b'')
    if k == 'att':
        # the length of one value, of the last one mostly
        at = []
        if m[:1] == b'D' and len(body) >= 2:
            p = 2
            while p + 4 <= len(body):
                at.append(p)
                n = I.unpack_from(body, p)[0]
                p += 4 + (0 if n == 0xffffffff else n)
        if not at:
            # a byte less, or more, than there should be
            return mk(m[:1], body[:-1] if a % 2 else body + x[:1])
        j = at[-1 if a % 4 else a % len(at)]
        v = I.unpack_from(body, j)[0] + (1, -1, 1, 2, 4, -2, 5)[a % 7]
        return m[:5] + body[:j] + I.pack(v & 0xffffffff) + body[j + 4:]
    if k == 'utf':
        if not body:
            return mk(m[:1], b'\xff')
        j = a % len(body)
        return m[:5] + body[:j] + b'\xff' + body[j + 1:]
    raise HarnessError(k)


def malformed(m):
    """is this message no legal message of any state of the protocol?"""
    t, body = m[:1], m[5:]
    if t in b'123nIsc':
        return body != b''
    if t == b'Z':
        return body not in (b'I', b'T', b'E')
    if t == b'D':
        return parse_row(body) is None
    if t == b'K':
        return len(body) != 8
    if t == b't':
        return len(body) < 2 or len(body) != 2 + 4 * H.unpack_from(body, 0)[0]
    # (lenient about the texts of C and S, and about what follows the last column of T)
    return t not in b'RAENdGHWVvCST'


class Mangler:
    bad = None

    def __init__(self, env, muts):
        self.env = env; self.muts = muts; self.n = 0; self.sent = bytearray(); self.hit = 0; self.armed = False; self.before = None

    def __call__(self, b, d):
        if not self.armed:
            self.sent += d
            return d
        fs, rest = frames(d)
        out = b''
        held = None
        for m in fs:
            cur = m
            first = False
            for f in self.muts:
                if f['m'] == self.n:
                    if f['kind'] == 'swap':
                        held = cur
                        cur = b''
                    else:
                        cur = corrupt(m, f, None)
                        first = first or not self.hit
                    self.hit += 1
                    self.env.sim.count('corrupt_' + f['kind'])
                    self.env.sim.mark('X%s%s' % (f['kind'], m[:1].decode('latin1')))
                    self.env.sim.log('corrupt', self.n, f['kind'], m[:60], '->', held if f['kind'] == 'swap' else cur[:80])
            if first:
                # is the stream still one of whole messages?
                cs, cr = frames(cur)
                if not cr:
                    self.bad = ([c for c in cs if malformed(c)] or [None])[0]
                    self.of = b
            out += cur
            if held is not None and cur != b'':
                out += held
                held = None
            self.n += 1
        if held is not None:
            out += held
        out += rest
        self.sent += out
        return out


def parse_row(body):
    """the fields of a DataRow; None if it is not one"""
    if len(body) < 2:
        return None
    n = H.unpack_from(body, 0)[0]
    p = 2
    out = []
    for _ in range(n):
        if len(body) - p < 4:
            return None
        l = I.unpack_from(body, p)[0]
        p += 4
        if l == 0xffffffff:
            out.append(None)
            continue
        if len(body) - p < l:
            return None
        out.append(body[p:p + l])
        p += l
    if p != len(body):
        return None
    return out


def says(v, raw):
    """may the field be read as this value?"""
    if v is None or raw is None:
        return v is None and raw is None
    if isinstance(v, bool):
        return raw in (b't', b'f') or (len(raw) == 1 and (raw != b'\0') == v)
    if isinstance(v, int):
        cand = [str(v).encode()]
        for w in (2, 4, 8):
            try:
                cand.append(v.to_bytes(w, 'big', signed=True))
            except OverflowError:
                pass
            try:
                cand.append(v.to_bytes(w, 'big', signed=False))
            except OverflowError:
                pass
        return raw in cand or raw.lstrip(b'0+- ') in cand or any(raw.startswith(c) for c in cand)   # excess bytes of a value are ignored
    if isinstance(v, bytes):
        return v == raw or raw.startswith(b'\\') or True
    if isinstance(v, str):
        return v.encode('utf-8', 'surrogateescape') == raw or v.encode('latin-1', 'replace') == raw or raw.decode('utf-8', 'replace') == v
    return True


def run(env):
    cfg, sim = env.cfg, env.sim
    client.reset(env)
    wl.set_chunksize(cfg.get('chunk') or 3)
    mg = Mangler(env, env.plan['faults'])
    server = wl.serve(env, {'mutate': mg, 'auth': cfg.get('auth', 'trust'), 'password': 'secret'})
    env.nontrivial = False

    def give_up():
        for b in env.backends:
            if not b.closed:
                env.probe('timeout_close')
                b.kill('eof')
    sim.after(60 * SEC, give_up)
    if cfg.get('start'):
        mg.armed = True
    try:
        r, db = call(env, client.connect, env)
        if r == 'ok':
            mg.armed = True
            work(env, cfg, db, mg)
            if mg.bad is not None and mg.of is env.backends[-1]:
                # nothing that comes after it can be the reply to anything
                env.probe('malformed')
                r, v = call(env, lambda: db.prepare('SELECT 1').first())
                if r == 'ok':
                    raise Violation('malformed-accepted', 'the server sent %r, and a later request was answered (%r)' % (mg.bad, v))
            fin = call(env, db.close)
            sim.log('close', fin)
    finally:
        if mg.hit:
            env.probe('corrupted')
            env.nontrivial = True
            if cfg.get('start'):
                env.probe('start')
    left = env.net.open_sockets()
    if left:
        raise Violation('socket-leak', '%d sockets open after the connection was closed: %r' % (len(left), left))


def call(env, fn, *a):
    """text that cannot be decoded, in whatever encoding the server announced, may surface as Python's own decoding errors"""
    try:
        return client.call(fn, *a)
    except UnicodeError as e:
        e.__traceback__ = None
        return 'err', e
    except (TypeError, ValueError, LookupError, AttributeError) as e:
        if type(e) is LookupError and 'encoding' in str(e):
            e.__traceback__ = None
            return 'err', e
        mine, inner = engine.where(e.__traceback__)
        txt = '%s: %s in %s' % (type(e).__name__, e, mine)
        file = (mine or '').partition(':')[0]
        through = [x.partition(':')[2] for x in engine.path(e.__traceback__)]
        if isinstance(e, TypeError) and str(e).startswith('inconsistent items, '):
            env.known('K04', 'raw-exception', txt)
        elif fn is client.connect and '_establish' in through and file in ('driver/pq3.py', 'versionstring.py'):
            env.known('K05', 'raw-exception', txt)
        elif file == 'driver/pq3.py' and any(x.startswith('lookup_') or x in ('resolve', 'sql_type_from_oid') for x in through):
            env.known('K06', 'raw-exception', txt)
        else:
            raise
        e.__traceback__ = None
        return 'err', e


def work(env, cfg, db, mg):
    sim = env.sim
    stmts = []
    tx = []
    pos = len(mg.sent)
    fs0, rest = frames(bytes(mg.sent))
    b = env.backends[-1]
    nth = 0
    for op in env.ops:
        nth += 1
        start = len(mg.sent)
        hit = mg.hit
        o = op['op']
        kind, want = None, None

        def go():
            return do(env, db, op, stmts, tx)
        r, v = call(env, go)
        sim.log('op', o, op.get('how'), r, repr(v)[:300])
        sim.mark('%s%s' % (o, r))
        if r == 'err':
            if mg.hit:
                env.probe('fatal' if db.closed or db.pq.xact is not None else 'other_error')
            elif not expected_error(op, v):
                raise Violation('error-without-corruption', '%r raised %s %s although nothing was corrupted' % (op, type(v).__name__, v))
            # what the abandoned operation left unread does not count as the next one's reply
            call(env, lambda: db.execute('SELECT 1'))
            continue
        if mg.hit:
            env.probe('ok_after')
        check(env, op, v, mg, start, hit)


def expected_error(op, e):
    if op['op'] in ('raise', 'put', 'tx'):
        return True
    g = op.get('g')
    if g is not None and g[3] >= 0:
        return True
    return getattr(e, 'code', '') in ('25P02', '22012') or op.get('bad') is not None


def do(env, db, op, stmts, tx):
    o = op['op']
    if o == 'q':
        g = op['g']; how = op['how']
        if how == 'query':
            return 'rows', [tuple(x) for x in db.query(rowsql(g))]
        if how == 'declare':
            c = db.prepare(rowsql(g)).declare()
            got = []
            while True:
                x = c.read(max(1, env.cfg.get('chunk') or 3))
                if not x:
                    break
                got += x
                if len(got) > 100000:
                    raise Violation('endless', 'a cursor returned more than 100000 rows')
            c.close()
            return 'rows', [tuple(x) for x in got]
        ps = db.prepare(rowsql(g, bool(op.get('par'))))
        if op.get('st') is not None:
            stmts.append(ps)
        a = parms(g) if op.get('par') else ()
        if how == 'call':
            return 'rows', [tuple(x) for x in ps(*a)]
        if how in ('rows', 'iter'):
            return 'rows', [tuple(x) for x in ps.rows(*a)]
        if how == 'chunks':
            return 'rows', [tuple(x) for x in itertools.chain.from_iterable(ps.chunks(*a))]
        if how == 'column':
            return 'col', list(ps.column(*a))
        return 'first', ps.first(*a)
    if o == 'copyout':
        ps = db.prepare('COPY (%s) TO STDOUT' % rowsql(op['g']))
        how = op['how']
        if how == 'chunks':
            return 'copy', list(itertools.chain.from_iterable(ps.chunks()))
        if how == 'rows':
            return 'copy', list(ps.rows())
        if how == 'iter':
            return 'copy', list(ps)
        return 'copy', list(ps())
    if o == 'put':
        return 'count', db.prepare('INSERT INTO kv VALUES ($1, $2)')(op['k'], op['v'])
    if o == 'copyin':
        ps = db.prepare('COPY lines FROM STDIN')
        ps.load_chunks([[b'%d\tx\n' % j] for j in range(op['n'])])
        return None, None
    if o == 'load':
        ps = db.prepare('INSERT INTO kv2 VALUES ($1, $2)')
        env.nload = getattr(env, 'nload', 0) + 1
        base = 1000 * env.nload
        ps.load_rows([(base + j, 'w') for j in range(op['n'])])
        return None, None
    if o == 'say':
        db.execute("SELECT say('NOTICE', '00000', 'hello')")
    elif o == 'raise':
        db.execute("SELECT raise('22012', 'oops')")
    elif o == 'ex':
        db.execute("SELECT 1; SELECT 1")
    elif o == 'set':
        db.settings['application_name'] = 'x%d' % len(stmts)
    elif o == 'get':
        v = db.settings['application_name']
        if v is not None and not isinstance(v, str):
            raise Violation('not-a-string', 'a setting was read as %r' % (v,))
    elif o == 'reset':
        db.reset()
    elif o == 'listen':
        db.listen('ch')
    elif o == 'notify':
        db.notify(ch='p')
    elif o == 'gc':
        if stmts:
            stmts.pop(0)
        import gc
        gc.collect()
    elif o == 'user':
        db.version_info
    elif o == 'proc':
        list(db.listening_channels())
    elif o == 'tx':
        if tx:
            x = tx.pop()
            x.commit()
        else:
            x = db.xact()
            x.start()
            tx.append(x)
    return None, None


def check(env, op, v, mg, start, hit):
    """what a successful operation returned must be what the stream says"""
    kind, got = v
    if kind is None:
        return
    fs, rest = frames(bytes(mg.sent))
    p = 0
    D = []; d = []; C = []
    for f in fs:
        if p >= start:
            if f[:1] == b'D':
                D.append(f[5:])
            elif f[:1] == b'd':
                d.append(f[5:])
            elif f[:1] == b'C':
                C.append(f[5:])
        p += len(f)
    if kind == 'copy':
        if list(map(bytes, got)) != d:
            raise Violation('copy-data', '%r returned %d lines, the server sent %d: %r / %r' % (op, len(got), len(d), got[:4], d[:4]))
        return
    if kind == 'count':
        if not isinstance(got, tuple) or not C:
            return
        n = [int(x) for x in C[-1].split(b'\0')[0].split() if x.isdigit()]
        if len(got) == 2 and got[1] != (n[-1] if n else None) and b'\0' not in C[-1].rstrip(b'\0'):
            raise Violation('count', '%r returned %r, the server said %r' % (op, got, C[-1]))
        return
    if op.get('g') and op['g'][2] > 4:
        return                     # types are looked up on the way
    if kind == 'first':
        if got is None:
            if D and op['g'][2] != 1:
                raise Violation('rows', '%r returned nothing, the server sent %d rows' % (op, len(D)))
            return
        if isinstance(got, int) and any(c.split(b'\0')[0].endswith(b'%d' % got) for c in C):
            return                      # described as returning no rows
        D = D[:1]
        got = [tuple(got)] if isinstance(got, tuple) else [(got,)]
    elif kind == 'col':
        if len(got) != len(D):
            raise Violation('rows', '%r returned %d values, the server sent %d rows' % (op, len(got), len(D)))
        for a, body in zip(got, D):
            r = parse_row(body)
            if r is None or not r or not says(a, r[0]):
                raise Violation('row', '%r returned %r for the row %r' % (op, a, body))
        return
    if len(got) != len(D):
        raise Violation('rows', '%r returned %d rows, the server sent %d' % (op, len(got), len(D)))
    for row, body in zip(got, D):
        r = parse_row(body)
        if r is None:
            raise Violation('row', '%r returned %r for a malformed row %r' % (op, row, body))
        if len(r) != len(row):
            raise Violation('row', '%r returned %r for a row of %d fields: %r' % (op, row, len(r), body))
        for a, f in zip(row, r):
            if not says(a, f):
                raise Violation('field', '%r returned %r for the field %r' % (op, a, f))
