"""Building blocks shared by the property modules: server set-up and workload generators."""
from .core import *
from . import client, pgserver, work
from .work import G, Session

CHUNKSIZES = (1, 2, 3, 5, 8, 16)


def serve(env, opts=None, addr=None, per_conn=None):
    """a database listening at addr; env.backends collects its sessions in order of arrival"""
    db = pgserver.Database(env.sim, opts)
    if not hasattr(env, 'backends'):
        env.backends = []

    def accept(conn):
        o = per_conn(conn) if per_conn is not None else None
        b = pgserver.Backend(conn, db, o)
        env.backends.append(b)
        return b
    env.net.listen(addr or client.ADDR, accept)
    return db


def set_chunksize(n):
    """the number of rows a stream asks for at a time (driver attribute; default restored with None)"""
    pq3 = client.pq3
    cls = getattr(pq3, 'MultiXactStream', None)
    if cls is None or not hasattr(cls, 'chunksize'):
        return
    if not hasattr(pq3, '_verif_chunksize'):
        pq3._verif_chunksize = cls.chunksize
    cls.chunksize = pq3._verif_chunksize if n is None else n


def begin(env, opts=None, reuse=500, **kw):
    """server, connection, session"""
    client.reset(env, reuse)
    set_chunksize(env.cfg.get('chunk'))
    server = serve(env, opts)
    db = client.connect(env, **kw)
    b = env.backends[-1]
    return server, db, b


def session(env, opts=None, reuse=500, lossy=False, cls=Session, **kw):
    server, db, b = begin(env, opts, reuse, **kw)
    return cls(env, db, b, lossy=lossy)


def calm(env):
    """connect without network trouble: returns a function that turns the trouble on"""
    pol = env.net.policy
    from .net import Policy
    env.net.policy = Policy()

    def on():
        env.net.policy = pol
    return on


# ---------------------------------------------------------------- policies
def policy(rng, seg=None, again=None, partial=None, delay=None):
    p = {}
    s = seg if seg is not None else rng.choice(['whole', 'mixed', 'mixed', 'tiny'])
    if s != 'whole':
        p['seg'] = s
    d = delay if delay is not None else rng.choice([0, 0, 200, 5000])
    if d:
        p['delay'] = d
    a = again if again is not None else rng.choice([0, 0, 0, 50, 300])
    if a:
        p['again'] = a
    q = partial if partial is not None else rng.choice([0, 0, 100, 500])
    if q:
        p['partial'] = q
    return p


# ---------------------------------------------------------------- operations
class Gen:
    """random operations; tags are unique per generator"""
    def __init__(self, rng, chunk=3, big=0.05):
        self.rng = rng; self.tag = rng.randrange(50); self.chunk = chunk; self.key = 100; self.big = big
        self.slots = 4
        self.ctag = 0

    def size(self):
        r = self.rng
        c = self.chunk or 4096
        x = r.random()
        if x < 0.12:
            return 0
        if x < 0.25:
            return 1
        if x < 0.7:
            return max(0, min(60, r.randrange(1, 4) * min(c, 16) + r.choice([-1, 0, 0, 1])))
        if x < 1 - self.big:
            return r.randrange(0, 25)
        return r.randrange(30, 160)

    def g(self, err=0.12, notice=0.1, n=None):
        r = self.rng
        self.tag += 1
        n = self.size() if n is None else n
        g = G(n, self.tag, r.choice([1, 2, 2, 3, 4]) if r.random() > 0.01 else 10)
        if n and r.random() < err:
            g[3] = r.choice([0, n - 1, r.randrange(n)])
        if n and r.random() < notice:
            g[4] = r.choice([1, 2, 3, n])
        return g

    def q(self, err=0.12, notice=0.1):
        r = self.rng
        op = self.q_(err, notice)
        if r.random() < 0.06:
            op['g'][2] = 9           # columns whose types have to be looked up
        return op

    def q_(self, err, notice):
        r = self.rng
        op = {'op': 'q', 'how': r.choice(['query', 'call', 'rows', 'iter', 'chunks', 'column', 'first']), 'g': self.g(err, notice)}
        if r.random() < 0.4:
            op['par'] = 1
        if r.random() < 0.5 and op['how'] != 'query':
            op['st'] = r.randrange(3)
        return op

    def open(self, err=0.12, notice=0.1, hows=('rows', 'rows', 'chunks', 'chunks', 'column', 'declare', 'copy', 'copychunks', 'sid', 'sidchunks', 'sidcol')):
        r = self.rng
        how = r.choice(hows)
        op = {'op': 'open', 's': r.randrange(self.slots), 'how': how, 'g': self.g(err, notice)}
        if how not in ('copy', 'copychunks', 'sid', 'sidchunks', 'sidcol') and r.random() < 0.35:
            op['par'] = 1
        if how in ('rows', 'chunks', 'column') and r.random() < 0.4:
            op['st'] = r.randrange(3)
        return op

    def stream(self):
        r = self.rng
        x = r.random()
        s = r.randrange(self.slots)
        if x < 0.62:
            return {'op': 'step', 's': s, 'k': r.choice([1, 1, 2, 3, 5, 9])}
        if x < 0.80:
            return {'op': 'drain', 's': s}
        if x < 0.92:
            return {'op': 'drop', 's': s}
        return {'op': 'close', 's': s}

    def put(self, dup=0.1):
        r = self.rng
        if r.random() < dup and self.key > 100:
            k = r.randrange(100, self.key)
        else:
            k = self.key
            self.key += 1
        return {'op': 'put', 'how': r.choice(['call', 'first', 'query']), 'k': k, 'v': 'v%d' % r.randrange(1000)}

    def copyin(self, bad=0.1, src=0.1):
        r = self.rng
        self.ctag += 1
        n = r.choice([0, 1, 3, 7, 20, 45])
        op = {'op': 'copyin', 'n': n, 'tag': 1000 + self.ctag, 'cs': r.choice([1, 3, 7, 50]), 'how': r.choice(['chunks', 'chunks', 'rows'])}
        if n and r.random() < bad:
            op['bad'] = r.randrange(n)
        if r.random() < src:
            op['src'] = r.randrange(n + 1) if op['how'] == 'rows' else r.randrange(n // op['cs'] + 1)
        return op

    def copyout(self, err=0.1, notice=0.1):
        return {'op': 'copyout', 'how': self.rng.choice(['call', 'rows', 'chunks', 'iter']), 'g': self.g(err, notice)}

    def load(self, bad=0.1, dup=0.1, src=0.1):
        r = self.rng
        n = r.choice([0, 1, 2, 5, 12, 30])
        op = {'op': 'load', 'n': n, 'base': self.key, 'cs': r.choice([1, 2, 5, 256]), 'how': r.choice(['rows', 'chunks'])}
        self.key += n + 1
        if n:
            x = r.random()
            if x < bad:
                op['bad'] = r.randrange(n)
            elif x < bad + dup and n > 1:
                op['dup'] = r.randrange(1, n)
            elif x < bad + dup + src:
                op['src'] = r.randrange(n + 1)
        return op

    def tx(self):
        return {'op': 'tx', 'how': self.rng.choice(['begin', 'begin', 'commit', 'rollback'])}

    def gc(self):
        return {'op': 'gc'}

    def raise_(self):
        r = self.rng
        return {'op': 'raise', 'how': r.choice(['query', 'ex', 'first', 'rows', 'syntax']),
                'code': r.choice(['22012', '42P01', '23505', '40001', '57014', 'P0001', 'XX000', '99999']), 'text': 't%d' % r.randrange(1000)}

    def say(self):
        r = self.rng
        return {'op': 'say', 'code': r.choice(['00000', '01000', '42622']), 'text': r.choice(['m', 'same', 't%d' % r.randrange(9)]),
                'sev': r.choice(['NOTICE', 'WARNING', 'INFO', 'LOG', 'DEBUG'])}

    def mixed(self, weights):
        """one op, weights: {name: weight}"""
        names = list(weights)
        n = self.rng.choices(names, [weights[k] for k in names])[0]
        f = getattr(self, n, None) or getattr(self, n + '_')
        return f()


def cut(s, f):
    """break the session's connection at a byte offset counted from now"""
    c = s.b.conn
    if f['dir'] == 's2c':
        c.cut_s2c = {'at': c.s2c_sent + f['at'], 'how': f['how']}
    else:
        c.cut_c2s = {'at': c.c2s_sent + f['at'], 'how': f['how']}


# ---------------------------------------------------------------- asynchronous messages
FIELDS = {'D': 'detail', 'H': 'hint', 'W': 'context', 'P': 'position', 'p': 'internal_position', 'q': 'internal_query',
          'F': 'file', 'L': 'line', 'R': 'function'}
WARN = [('NOTICE', '00000'), ('NOTICE', '42P07'), ('WARNING', '01000'), ('WARNING', '01004'), ('WARNING', '0100C'), ('WARNING', '99999'),
        ('INFO', '00000'), ('LOG', '00000'), ('DEBUG', '00000')]
PARAMS = [('application_name', ['a', 'b', 'c', '']), ('TimeZone', ['UTC', 'Europe/Paris']), ('IntervalStyle', ['postgres', 'iso_8601']),
          ('is_superuser', ['on', 'off'])]


def asyncs(rng, span, most=6, kinds=('notice', 'notice', 'status', 'notify')):
    """messages the server sends by itself before the k-th following reply message"""
    out = []
    for _ in range(rng.randrange(1, most + 1)):
        k = rng.randrange(span)
        kind = rng.choice(kinds)
        if kind == 'notice':
            sev, code = rng.choice(WARN)
            f = {c: rng.choice(['x', '12', 'a longer text with \u00e9 in it', '']) for c in sorted(FIELDS) if rng.random() < 0.3}
            m = ['notice', rng.choice(['same', 'text %d' % rng.randrange(100), '']), code, sev, f]
        elif kind == 'status':
            name, vals = rng.choice(PARAMS)
            m = ['status', name, rng.choice(vals)]
        else:
            m = ['notify', rng.choice(['ch', 'other']), rng.choice(['', 'p', 'payload %d' % rng.randrange(50)]), rng.choice([77, 78])]
        out.append([k, m])
        while rng.random() < 0.25:
            out.append([k, m])           # equal messages next to each other
    return out


def send_async(b, m):
    if m[0] == 'notice':
        b.notice(m[1], m[2], m[3], **m[4])
    elif m[0] == 'status':
        b.gucs[m[1]] = m[2]
        b.report(m[1], m[2])
    else:
        notify(b, m)


@pgserver.coded
def notify(b, m):
    b.sent_async.append(('notify', m[1], m[2], m[3]))
    b.raw(b'A', pgserver.I.pack(m[3]) + pgserver.cstr(m[1]) + pgserver.cstr(m[2]))


def inject(b, items):
    for k, m in items:
        b.inject.setdefault(b.nout + k, []).append(lambda be, m=m: send_async(be, m))


def check_messages(sent, got):
    """what reached a message hook against the notices the server sent"""
    for k in range(max(len(sent), len(got))):
        if k >= len(got):
            raise Violation('message-lost', 'notice %d of %d %r never reached the message hook' % (k, len(sent), sent[k]))
        if k >= len(sent):
            raise Violation('message-twice', 'the message hook was called %d times for %d notices; extra %r' % (len(got), len(sent), (got[k].code, got[k].message)))
        _, sev, code, text, f = sent[k]
        m = got[k]
        if (m.code, m.message) != (code, text):
            raise Violation('wrong-message', 'message %d is %r instead of %r' % (k, (m.code, m.message), (code, text)))
        want = {FIELDS[c]: v for c, v in f if c in FIELDS}
        want['severity'] = sev
        have = {c: v for c, v in m.details.items()}
        if have != want:
            raise Violation('wrong-message-fields', 'message %d (%s): %r instead of %r' % (k, text, have, want))
        if m.source != 'SERVER':
            raise Violation('wrong-message-source', 'message %d comes from %r' % (k, m.source))
