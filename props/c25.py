"""C25: values of every type survive the trip, whatever the connection has to look up for them."""
import random
from sim.core import *
from sim import client, wl, pgserver, pgtypes
from sim.pgserver import SQLError, Plan
from sim.pgtypes import Universe, Typed, same

PROP = 'C25'
RULE = ('one evaluation = one seeded session over a database with its own types (enums, domains, arrays and composites of each other and of the '
        'built-in types), reading columns and sending parameters of random types and values by every interface, so that the driver looks types up '
        'at the first use, in the middle of results and between rows, with errors injected at any of those exchanges, transactions, changes of '
        'client_encoding and lost connections; distinct non-trivial = distinct sequences of operations, replies and reads among runs in which '
        'the driver looked at least one type up')
RUNS = {'quick': 12000, 'thorough': 200000}
REAL = ['postgresql.driver.pq3 (TypeIO, Output, PreparedStatement)', 'postgresql.types.* and types.io.*', 'postgresql.protocol.* (C and Python process_tuple, buffer)',
        'postgresql.lib']
STUB = ['server (simulated backend; the catalog, the binary and the text forms of types written from the PostgreSQL sources)', 'socket, clock (simulated)']
ASSUMPTIONS = ['types are not altered after their first use', 'inet values are host addresses (the driver drops the netmask)',
               'intervals without months, times before 24:00, zones of whole minutes, dates and timestamps within the range of datetime',
               'the largest and smallest date and datetime of Python stand for infinity and -infinity', 'infinite numerics are not sent (refused by documented design)',
               'hstore occurs inside other types only when identified before those are used',
               'types for which the driver has no routines (ranges, money, tsvector) occur as columns and parameters only (documented limitation)']
PROBES = ['nested', 'domain', 'anonymous', 'midstream', 'lookup_error', 'retried', 'param', 'load', 'in_tx', 'encoding', 'hstore', 'cut', 'special', 'meta', 'multidim', 'declare']
VARIANTS = ('c', 'py')
SIMPLE = ['int4', 'text', 'bool', 'int8', 'numeric', 'timestamptz', 'date', 'bytea', 'float8', 'uuid']
HOWS = ['call', 'first', 'rows', 'chunks', 'column', 'iter', 'declare', 'query']


def gen(rng, tier):
    base = list(pgtypes.base_types())
    nestable = [n for n in base if n not in ('int4range', 'money', 'tsvector', 'hstore')]
    arr = [n + '[]' for n in pgtypes.PLAIN]
    hs = rng.random() < 0.1

    def ref(k, inner=True):
        x = rng.random()
        if k and x < (0.3 if inner else 0.55):
            return rng.randrange(k)
        if x < 0.65:
            return rng.choice(SIMPLE)
        if x < 0.8:
            return rng.choice(arr)
        if hs and x < 0.84:
            return 'hstore'
        if not inner and x < 0.9:
            return 'record'
        return rng.choice(nestable if inner else base)
    types = []
    for k in range(rng.randrange(0, 7)):
        d = {'name': rng.randrange(60), 'nsp': rng.choice([0, 0, 0, 1, 2])}
        d['k'] = rng.choice(['enum', 'domain', 'array', 'array', 'comp', 'comp', 'comp'])
        if d['k'] == 'domain':
            d['of'] = ref(k)
        elif d['k'] == 'array':
            if not k:
                d['k'] = 'enum'
            else:
                d['of'] = rng.randrange(k)
        if d['k'] == 'comp':
            d['f'] = [[rng.randrange(10), ref(k)] for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
            if rng.random() < 0.15:
                d['drop'] = rng.randrange(4)
        types.append(d)
    n = len(types)

    def cols():
        return [ref(n, False) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    ops = []
    for _ in range(rng.randrange(3, 16)):
        x = rng.random()
        if x < 0.3:
            ops.append({'op': 'q', 'c': cols(), 'n': rng.choice([0, 1, 1, 2, 3, 9, 20]), 'seed': rng.randrange(10 ** 6), 'how': rng.choice(HOWS)})
        elif x < 0.55:
            ops.append({'op': 'echo', 'c': [c if c != 'record' else 'int4' for c in cols()], 'seed': rng.randrange(10 ** 6), 'n': rng.choice([1, 1, 2, 5]), 'how': rng.choice(['call', 'first', 'rows', 'load_rows', 'load_chunks', 'chunks', 'declare'])})
        elif x < 0.65:
            ops.append({'op': 'open', 's': rng.randrange(3), 'c': cols(), 'n': rng.choice([1, 3, 9, 20]), 'seed': rng.randrange(10 ** 6), 'how': rng.choice(['rows', 'chunks', 'column', 'declare'])})
        elif x < 0.78:
            ops.append({'op': rng.choice(['step', 'step', 'step', 'drain', 'drop']), 's': rng.randrange(3)})
        elif x < 0.84:
            ops.append({'op': 'again', 'k': rng.randrange(6)})
        elif x < 0.9:
            ops.append({'op': rng.choice(['begin', 'begin', 'commit', 'rollback'])})
        elif x < 0.93:
            ops.append({'op': 'enc', 'to': rng.choice(['latin1', 'utf8', 'latin1'])})
        elif x < 0.95:
            ops.append({'op': 'hst'})
        else:
            ops.append({'op': 'q', 'c': ['record'], 'n': rng.choice([2, 5, 12]), 'seed': rng.randrange(10 ** 6), 'how': rng.choice(HOWS)})
        if rng.random() < 0.12 and ops[-1]['op'] in ('q', 'echo', 'open', 'step', 'drain', 'again'):
            ops[-1]['err'] = [rng.randrange(0, 14), rng.choice(['57014', '53200', '42501', 'XX000'])]
    cfg = {'types': types, 'chunk': rng.choice(wl.CHUNKSIZES)}
    if hs:
        cfg['hstore'] = 1
    if rng.random() < 0.15:
        cfg['version'] = rng.choice(['8.3.23', '8.3.23', '8.4.22', '9.0.1', '18beta1', '13.4 (Debian 13.4-1)'])
        if cfg['version'] < '9.1' and not cfg['version'].startswith('1') and rng.random() < 0.5:
            cfg['floats'] = 1
    if rng.random() < 0.1:
        cfg['cut'] = {'dir': rng.choice(['s2c', 's2c', 'c2s']), 'at': rng.choice([rng.randrange(0, 1500), rng.randrange(0, 8000)]), 'how': rng.choice(['eof', 'reset', 'reset_drop'])}
    if rng.random() < 0.3:
        cfg['async'] = wl.asyncs(rng, rng.choice([20, 100]), 8, kinds=('notice', 'status'))
    return {'ops': ops, 'policy': wl.policy(rng), 'cfg': cfg}


class Stream:
    def __init__(self, it, how, ts, want):
        self.it = it; self.how = how; self.ts = ts; self.want = want; self.pos = 0; self.in_tx = False


class Lost(Exception):
    pass


class S:
    def __init__(self, env):
        self.env = env
        self.uni = Universe(env.cfg.get('types') or [], bool(env.cfg.get('floats')))
        self.q = {}             # number -> (types, rows)
        self.qn = 0
        self.taken = []
        self.server, self.db, self.b = wl.begin(env, {'plan': self.plan, 'version': env.cfg.get('version') or '16.3',
                                                   'defaults': {'integer_datetimes': 'off' if env.cfg.get('floats') else 'on'}})
        self.slots = {}
        self.tx = None
        self.kept = []          # operations that can be done again
        self.closed_ok = False
        self.stmts = {}
        self.claimed = set()

    # ------------------------------------------------------------ the server's side
    def plan(self, b, t):
        if t.startswith('SELECT tv'):
            k = int(t[9:].split('(')[1].split(')')[0])
            ts, rows = self.q[k]

            def go(be, params):
                for r in rows:
                    yield tuple(None if v is None else Typed(x.reported(), v) for x, v in zip(ts, r))
            return Plan('rows', go, cols=self.cols(ts))
        if t.startswith('SELECT echo'):
            k = int(t[11:].split('(')[1].split(')')[0])
            ts, rows = self.q[k]

            def echo(be, params):
                vals = []
                for x, (fmt, d) in zip(ts, params):
                    if d is None:
                        vals.append(None)
                        continue
                    vals.append(x.take(fmt, d))
                self.taken.append(tuple(vals))
                yield tuple(None if v is None else Typed(x.reported(), v) for x, v in zip(ts, vals))
            p = Plan('rows', echo, cols=self.cols(ts), oids=[x.oid for x in ts])
            p.raw = True
            return p
        return self.uni.plan(b, t)

    def cols(self, ts):
        return [('c%d' % k, x.reported().oid) for k, x in enumerate(ts)]

    # ------------------------------------------------------------ rules
    def fail(self, kind, *detail):
        raise Violation(kind, ' '.join(str(d) for d in detail))

    def lost(self):
        c = self.b.conn
        return c.lost or c.srv_closed or self.b.closed

    def do(self, what, fn, again=False):
        """-> (True, value), or (False, error) when the server reported one"""
        c0 = self.uni.lookups
        st, val = client.call(fn)
        self.looked = self.uni.lookups - c0
        if self.looked:
            self.env.nontrivial = True
        if st == 'ok':
            return True, val
        if self.lost():
            if not isinstance(val, client.pgexc.Exception):
                self.fail('wrong-error', '%s: %r' % (what, val))
            raise Lost
        # a type that could not be looked up in the middle of a value is the cause of the error reported
        while val.__cause__ is not None:
            val = val.__cause__
        for k, (c, m, sv) in enumerate(self.b.errors_sent):
            if (again or k not in self.claimed) and c == getattr(val, 'code', None) and m == val.message:
                self.claimed.add(k)
                self.last_err = val
                break
        else:
            self.fail('refused', '%s: %r; errors the server sent: %r' % (what, val, self.b.errors_sent))
        if self.looked:
            self.env.probe('lookup_error')
        return False, val

    def rowcheck(self, what, ts, got, want):
        if not isinstance(got, tuple) or len(got) != len(want):
            self.fail('wrong-row', '%s: %r instead of %r' % (what, got, want))
        for k, (t, x, v) in enumerate(zip(ts, got, want)):
            r = t.reported()
            if not same(r, x, v):
                self.fail('wrong-value', '%s: column %d of type %s: %r instead of %r' % (what, k, t.name, x, v))

    def meta(self, st, ts, params=None):
        """what the statement says about its columns and parameters"""
        self.env.probe('meta')
        want = [t.reported() for t in ts]
        ok, v = self.do('metadata', lambda: (st.pg_column_types, st.sql_column_types, st.column_types, st.column_names, st.pg_parameter_types, st.sql_parameter_types, st.parameter_types))
        if not ok:
            return False
        pg, sql, py, names, ppg, psql, ppy = v
        if list(pg) != [t.oid for t in want]:
            self.fail('wrong-metadata', 'pg_column_types %r instead of %r' % (pg, [t.oid for t in want]))
        if list(names) != ['c%d' % k for k in range(len(ts))]:
            self.fail('wrong-metadata', 'column_names %r' % (names,))
        self.sqlnames('sql_column_types', sql, want)
        self.pynames('column_types', py, want)
        pt = list(params or ())
        if list(ppg) != [t.oid for t in pt]:
            self.fail('wrong-metadata', 'pg_parameter_types %r instead of %r' % (ppg, [t.oid for t in pt]))
        self.sqlnames('sql_parameter_types', psql, pt)
        self.pynames('parameter_types', ppy, [t.reported() for t in pt])
        return True

    def sqlnames(self, what, got, ts):
        got = list(got)
        if len(got) != len(ts):
            self.fail('wrong-metadata', '%s %r' % (what, got))
        qi = lambda s: '"%s"' % s.replace('"', '""')
        for g, t in zip(got, ts):
            if t.oid >= 70000 and g != qi(t.nsp) + '.' + qi(t.name):
                self.fail('wrong-metadata', '%s: %r for type %r of schema %r' % (what, g, t.name, t.nsp))
            if not g and not (t.name == 'hstore' and t.known):      # identified without having been looked up
                self.fail('wrong-metadata', '%s: %r for type %s' % (what, g, t.name))

    def pynames(self, what, got, ts):
        got = list(got)
        if len(got) != len(ts) or not all(isinstance(g, type) or callable(g) for g in got):
            self.fail('wrong-metadata', '%s: %r' % (what, got))

    # ------------------------------------------------------------ operations
    def rows_of(self, op):
        ts = [self.uni.ref(c) for c in op['c']]
        r = random.Random(op['seed'])
        rows = [tuple(None if r.random() < 0.12 else t.gen(r) for t in ts) for _ in range(max(0, op['n']))]
        for t, col in zip(ts, zip(*rows) if rows else [()] * len(ts)):
            u = t.reported()
            if any(isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], list) and len(v[0]) > 1 for v in col):
                self.env.probe('multidim')
            if any(v in ('NaN', 'Infinity', '-Infinity', pgtypes.INF64, pgtypes.NINF64, pgtypes.INF32, pgtypes.NINF32) for v in col):
                self.env.probe('special')
            if t is not u:
                self.env.probe('domain')
            if isinstance(u, pgtypes.Record):
                self.env.probe('anonymous')
            if isinstance(u, (pgtypes.Composite, pgtypes.Array)) and t.oid >= 70000:
                self.env.probe('nested')
        return ts, rows

    def register(self, ts, rows):
        self.qn += 1
        self.q[self.qn] = (ts, rows)
        return self.qn

    def read(self, sql, how, ts, rows, st=None):
        """run it by one interface -> rows"""
        db = self.db
        got = []

        def go():
            del got[:]
            s = db.prepare(sql) if st is None else st
            if how == 'call':
                got.extend(s())
            elif how == 'query':
                got.extend(db.query(sql))
            elif how == 'rows':
                got.extend(s.rows())
            elif how == 'iter':
                got.extend(iter(s))
            elif how == 'chunks':
                for c in s.chunks():
                    got.extend(c)
            elif how == 'first':
                x = s.first()
                return ('first', x, s)
            elif how == 'column':
                return ('column', list(s.column()), s)
            elif how == 'declare':
                self.env.probe('declare')
                c = s.declare()
                while True:
                    x = c.read(7)
                    if not x:
                        break
                    got.extend(x)
                c.close()
            return ('rows', got, s)
        ok, v = self.do('%s by %s' % (sql, how), go)
        if not ok:
            return False
        kind, x, s = v
        what = '%s by %s' % (sql, how)
        if kind == 'first':
            if not rows:
                if x is not None:
                    self.fail('wrong-row', '%s: %r from no rows' % (what, x))
            elif len(ts) == 1:
                if not same(ts[0].reported(), x, rows[0][0]):
                    self.fail('wrong-value', '%s: type %s: %r instead of %r' % (what, ts[0].name, x, rows[0][0]))
            else:
                self.rowcheck(what, ts, x, rows[0])
        elif kind == 'column':
            if len(x) != len(rows):
                self.fail('wrong-rows', '%s: %d rows instead of %d' % (what, len(x), len(rows)))
            for a, w in zip(x, rows):
                if not same(ts[0].reported(), a, w[0]):
                    self.fail('wrong-value', '%s: type %s: %r instead of %r' % (what, ts[0].name, a, w[0]))
        else:
            if len(x) != len(rows):
                self.fail('wrong-rows', '%s: %d rows instead of %d' % (what, len(x), len(rows)))
            for a, w in zip(x, rows):
                self.rowcheck(what, ts, a, w)
        if st is None:
            self.last = s
        return True

    def op_q(self, op):
        key = op.get('key')
        if key is None:
            ts, rows = self.rows_of(op)
            key = op['key'] = self.register(ts, rows)
        ts, rows = self.q[key]
        sql = 'SELECT tv(%d)' % key
        n = self.uni.lookups
        ok = self.read(sql, op['how'], ts, rows)
        if ok and op['seed'] % 3 == 0:
            return self.meta(self.last, ts)
        return ok

    def op_echo(self, op):
        key = op.get('key')
        if key is None:
            ts, rows = self.rows_of(op)
            r = random.Random(op['seed'] + 1)
            objs = []; held = []
            for row in rows:
                a = [(None, None) if v is None else t.stored(r, v) for t, v in zip(ts, row)]
                objs.append([x for x, _ in a]); held.append(tuple(y for _, y in a))
            key = op['key'] = self.register(ts, held)
            self.params = getattr(self, 'params', {})
            self.params[key] = objs
        ts, held = self.q[key]
        objs = self.params[key]
        if not held:
            return True
        self.env.probe('param')
        sql = 'SELECT echo(%d)' % key
        how = op['how']
        del self.taken[:]
        db = self.db
        load = how in ('load_rows', 'load_chunks')
        got = []

        def go():
            del got[:]
            s = db.prepare(sql)
            if load:
                self.env.probe('load')
                if how == 'load_rows':
                    s.load_rows(objs)
                else:
                    s.load_chunks([objs[:2], objs[2:]])
                return s
            for o in objs:
                if how == 'call':
                    got.extend(s(*o))
                elif how == 'first':
                    got.append(s.first(*o))
                elif how == 'rows':
                    got.extend(s.rows(*o))
                elif how == 'chunks':
                    for c in s.chunks(*o):
                        got.extend(c)
                else:
                    c = s.declare(*o)
                    got.extend(c.read())
                    c.close()
            return s
        ok, s = self.do('%s by %s with %r' % (sql, how, objs), go)
        if not ok:
            return False
        if not pgtypes.equal(self.taken, list(held)):
            for a, w, o in zip(self.taken, held, objs):
                for t, x, y, z in zip(ts, a, w, o):
                    if not pgtypes.equal(x, y):
                        self.fail('wrong-parameter', '%s by %s: %r as %s became %r on the server instead of %r' % (sql, how, z, t.name, x, y))
            self.fail('wrong-parameter', '%s by %s: %d executions instead of %d' % (sql, how, len(self.taken), len(held)))
        if not load:
            if len(got) != len(held):
                self.fail('wrong-rows', '%s by %s: %d rows instead of %d' % (sql, how, len(got), len(held)))
            for x, w in zip(got, held):
                if how == 'first' and len(ts) == 1:
                    if not same(ts[0].reported(), x, w[0]):
                        self.fail('wrong-value', '%s: type %s: %r instead of %r' % (sql, ts[0].name, x, w[0]))
                else:
                    self.rowcheck(sql, ts, x, w)
        if op['seed'] % 3 == 0:
            return self.meta(s, ts, ts)
        return True

    def op_open(self, op):
        self.slots.pop(op['s'], None)
        key = op.get('key')
        if key is None:
            ts, rows = self.rows_of(op)
            key = op['key'] = self.register(ts, rows)
        ts, rows = self.q[key]
        sql = 'SELECT tv(%d)' % key
        how = op['how']

        def go():
            s = self.db.prepare(sql)
            return s.declare() if how == 'declare' else getattr(s, how)()
        ok, it = self.do('%s: %s' % (sql, how), go)
        if not ok:
            return False
        x = self.slots[op['s']] = Stream(it, how, ts, rows)
        x.in_tx = self.tx is not None
        return True

    def take(self, x, n=None):
        def go():
            if x.how == 'declare':
                return x.it.read(3 if n is None else n)
            if x.how == 'chunks':
                return next(x.it, [])
            out = []
            for _ in range(3 if n is None else n):
                try:
                    out.append(next(x.it))
                except StopIteration:
                    break
            return out
        return self.do('reading on by %s' % x.how, go, again=True)      # a result that failed stays failed

    def op_step(self, op):
        x = self.slots.get(op['s'])
        if x is None:
            return True
        if x.pos:
            n = self.uni.lookups
        ok, got = self.take(x)
        if not ok:
            self.slots.pop(op['s'], None)
            return False
        if x.pos and self.looked:
            self.env.probe('midstream')
        want = x.want[x.pos:x.pos + len(got)]
        if not got and x.pos < len(x.want):
            self.fail('wrong-rows', 'reading on by %s ended after %d of %d rows' % (x.how, x.pos, len(x.want)))
        if len(want) < len(got):
            self.fail('wrong-rows', 'reading on by %s: more than %d rows' % (x.how, len(x.want)))
        x.pos += len(got)
        for a, w in zip(got, want):
            if x.how == 'column':
                if not same(x.ts[0].reported(), a, w[0]):
                    self.fail('wrong-value', 'reading on by column: type %s: %r instead of %r' % (x.ts[0].name, a, w[0]))
            else:
                self.rowcheck('reading on by %s' % x.how, x.ts, a, w)
        if not got:
            self.slots.pop(op['s'], None)
        return True

    def op_drain(self, op):
        while op['s'] in self.slots:
            if not self.op_step(op):
                return False
        return True

    def op_drop(self, op):
        self.slots.pop(op['s'], None)
        return True

    def op_again(self, op):
        if not self.kept:
            return True
        o = self.kept[op['k'] % len(self.kept)]
        return getattr(self, 'op_' + o['op'])(o)

    def end_tx(self):
        self.tx = None
        for k in [k for k, x in self.slots.items() if x.in_tx]:
            del self.slots[k]

    def op_begin(self, op):
        if self.tx is not None:
            return True
        t = self.db.xact()
        ok, v = self.do('begin', t.start)
        if ok:
            self.env.probe('in_tx')
            self.tx = t
        return ok

    def op_commit(self, op):
        if self.tx is None:
            return True
        ok, v = self.do('commit', self.tx.commit)
        self.end_tx()
        return ok

    def op_rollback(self, op):
        if self.tx is None:
            return True
        ok, v = self.do('rollback', self.tx.rollback)
        self.end_tx()
        return ok

    def op_enc(self, op):
        if self.tx is not None:
            return True
        self.slots.clear()
        self.env.probe('encoding')
        ok, v = self.do('client_encoding', lambda: self.db.settings.update({'client_encoding': op['to']}))
        return ok

    def op_hst(self, op):
        h = self.uni.base['hstore']
        if h.known:
            return True
        self.slots.clear()
        ok, v = self.do('identify', lambda: self.db.typio.identify(contrib_hstore='hstore'))
        if ok:
            self.env.probe('hstore')
            h.known = True
            self.kept = []      # their parameters were text
        return ok

    # ------------------------------------------------------------
    def go(self):
        cfg = self.env.cfg
        try:
            self.go2()
        except Lost:
            self.env.probe('cut')

    def go2(self):
        cfg = self.env.cfg
        b = self.b
        if cfg.get('hstore'):
            self.insist(self.op_hst, {'op': 'hst'})
        if cfg.get('async'):
            wl.inject(b, cfg['async'])
        if cfg.get('cut'):
            d = cfg['cut']
            wl.cut(self, d)
        for op in self.env.ops:
            op = dict(op)
            f = getattr(self, 'op_' + op['op'])
            if op.get('err'):
                k, code = op['err']
                b.err_at[b.nin + k] = (code, 'injected')
            ok = f(op)
            b.err_at.clear()
            if not ok:
                self.note(op['op'], 'error')
                if self.tx is not None:
                    self.op_rollback(op)
                if op['op'] in ('q', 'echo', 'open', 'again'):
                    # nothing half-learned
                    self.env.probe('retried')
                    self.insist(f, op)
            if op['op'] in ('q', 'echo'):
                self.kept.append(op)
        if self.tx is not None:
            self.op_rollback({})
        for k in list(self.slots):
            self.op_drain({'s': k})
        for op in self.kept[-4:]:
            self.insist(getattr(self, 'op_' + op['op']), op)

    def insist(self, f, op):
        """errors that are still on their way may come first"""
        n = len(self.b.errors_sent)
        for _ in range(4):
            if f(op):
                return
            if len(self.b.errors_sent) > n:
                self.fail('stuck', '%r failed with no error in its way: %s %r' % (op, self.last_err.code, str(self.last_err.message)))
        self.fail('stuck', '%r failed again and again' % (op,))

    def note(self, *a):
        self.env.sim.log('op', *a)


def run(env):
    env.nontrivial = False
    S(env).go()
