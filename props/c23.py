"""C23: DB-API connections and cursors keep transaction and fetch semantics."""
import gc
from sim.core import *
from sim import client, wl, pgserver
from sim.work import Session, AppError, SourceError, genall, names, G

PROP = 'C23'
RULE = ('one evaluation = one seeded program of execute, executemany, fetch*, iteration, commit, rollback, autocommit, with-block and close calls on 1-3 '
        'cursors of a DB-API connection, with failing statements, commits the server refuses, failing parameter sources and the connection cut at any '
        'byte; distinct non-trivial = distinct sequences of operations and replies among runs that changed data')
RUNS = {'quick': 24000, 'thorough': 300000}
REAL = ['postgresql.driver.dbapi20', 'postgresql.driver.pq3', 'postgresql.protocol.*', 'postgresql.string (query conversion)']
STUB = ['server (simulated backend with an operation-log transaction model)', 'socket, clock (simulated)']
ASSUMPTIONS = ['transactions are not controlled by SQL text; rows are fetched after an execute() that returns rows',
               'commit() of a transaction in which a statement failed may report nothing (the statement did); it commits nothing',
               'switching autocommit on rolls back what was not committed', 'the START TRANSACTION that follows a commit or rollback itself does not fail',
               'rows fetched before a commit or rollback may be followed by an error afterwards, as their server-side cursor is gone',
               'executemany in autocommit mode is not atomic: a failing one leaves the sets sent before the failing batch']
PROBES = ['commit', 'rollback', 'commit_error', 'failed_commit', 'auto_on', 'auto_off', 'closed_pending', 'cut', 'with', 'foreign_error', 'source_error',
          'fetch_after_end', 'mixed_fetch', 'two_results', 'nextset', 'callproc', 'drained']

TYPES = {23: int, 20: int, 21: int, 25: str, 17: bytes}
STYLES = ['fmt', 'py', 'lit', 'fmtq', 'pyq', 'pydup']


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES + (None,))
    g = wl.Gen(rng, chunk)
    ops = []
    key = 100
    wts = {'put': 10, 'upd': 2, 'del': 2, 'many': 3, 'look': 3, 'sel': 6, 'fetch': 12, 'commit': 5, 'rollback': 4, 'auto': 2, 'raise': 1.5, 'closecur': 0.6, 'plain': 0.6, 'call': 0.8, 'gc': 0.5, 'next': 0.4, 'odd': 0.6}
    ns = list(wts)
    used = []
    for _ in range(rng.randrange(3, 26)):
        x = rng.choices(ns, [wts[k] for k in ns])[0]
        c = rng.choice([0, 0, 1, 2])
        st = rng.choice(STYLES)
        if x == 'put':
            if used and rng.random() < 0.12:
                k = rng.choice(used)
            else:
                k = key; key += 1; used.append(k)
            ops.append({'op': 'put', 'c': c, 'k': k, 'v': rng.choice(['v%d' % rng.randrange(99), '%', '100%%', "it's %s", '\u00e9']), 'st': st})
        elif x == 'upd':
            ops.append({'op': 'upd', 'c': c, 'k': rng.choice(used) if used else 1, 'v': 'u%d' % rng.randrange(99), 'st': st})
        elif x == 'del':
            ops.append({'op': 'del', 'c': c, 'k': rng.choice(used) if used else 1, 'st': st})
        elif x == 'many':
            n = rng.choice([0, 1, 2, 5, 12, 300])
            o = {'op': 'many', 'c': c, 'n': n, 'k': key, 'st': rng.choice(['fmt', 'py'])}
            key += n + 1
            y = rng.random()
            if n and y < 0.12:
                o['bad'] = rng.randrange(n)
            elif n > 1 and y < 0.24:
                o['dup'] = rng.randrange(1, n)
            elif y < 0.36:
                o['src'] = rng.randrange(n + 1)
            used.append(key - n - 1) if n else None
            ops.append(o)
        elif x == 'look':
            ops.append({'op': 'look', 'c': c})
        elif x == 'sel':
            ops.append({'op': 'sel', 'c': c, 'g': g.g(err=0.1), 'st': st})
            if rng.random() < 0.7:
                ops.append(fetch(rng, c))
        elif x == 'fetch':
            ops.append(fetch(rng, c))
        elif x == 'plain':
            ops.append({'op': 'plain', 'c': c, 'v': 'a%d' % rng.randrange(9)})
        elif x == 'call':
            ops.append({'op': 'call', 'c': c, 'n': rng.choice([0, 1, 2, 5, 40, 600])})
            if rng.random() < 0.8:
                ops.append(fetch(rng, c))
        elif x == 'auto':
            ops.append({'op': 'auto', 'on': rng.randrange(2)})
        elif x == 'raise':
            ops.append({'op': 'raise', 'c': c, 'code': rng.choice(['22012', '23505', '42P01', '57014'])})
        elif x == 'odd':
            ops.append({'op': 'odd', 'c': c, 'how': rng.choice(['connect', 'closedcur', 'params', 'nextset', 'sizes', 'badnext'])})
        else:
            ops.append({'op': x, 'c': c})
    cfg = {'chunk': chunk, 'end': rng.choice(['close', 'close', 'with', 'withraise', 'drop'])}
    if rng.random() < 0.3:
        cfg['commit_error'] = [rng.randrange(3), rng.choice(['23503', '40001', '53100', '23505'])]
    if rng.random() < 0.2:
        cfg['cut'] = {'dir': rng.choice(['s2c', 'c2s']), 'at': rng.randrange(0, 4000), 'how': rng.choice(['eof', 'reset', 'epipe'])}
        cfg['after'] = rng.choice(['commit', 'rollback', 'auto', 'execute', 'fetch', 'close'])
    if rng.random() < 0.5:
        cfg['withat'] = rng.randrange(len(ops))
    return {'ops': ops, 'policy': wl.policy(rng, again=0), 'cfg': cfg}


def fetch(rng, c):
    return {'op': 'fetch', 'c': c, 'how': rng.choice(['one', 'one', 'drain', 'many', 'many', 'all', 'iter', 'next', 'arraysize']), 'n': rng.choice([1, 1, 2, 3, 5, 9, 40])}


class Result:
    def __init__(self, want, err, g):
        self.want = want; self.err = err; self.g = g
        self.pos = 0
        self.over = None      # why it can no longer be judged in full


class Cur:
    def __init__(self, cur):
        self.cur = cur
        self.stack = []       # results, latest first; None = unknown
        self.kinds = set()


FAILED = 'failed'
UNKNOWN = 'unknown'


class Model:
    def __init__(self, env, s, db, m):
        self.env = env; self.s = s; self.db = db; self.m = m
        self.auto = False
        self.done = {}             # what is committed
        self.view = {}             # what the open transaction sees; FAILED
        self.curs = {}
        self.stop = False

    def fail(self, kind, *d):
        raise Violation(kind, ' '.join(str(x) for x in d))

    def cursor(self, k):
        c = self.curs.get(k)
        if c is None:
            c = self.curs[k] = Cur(self.db.cursor())
        return c

    # -- truth
    def committed(self):
        return dict((k, r[1]) for k, r in self.s.server.tables['kv'].items())

    def inside(self):
        t = self.s.b.xtx
        return None if t is None else dict((k, r[1]) for k, r in t.view('kv').items())

    def verify(self, what, maybe=()):
        """the committed data are those of the model (or, after a loss, one of `maybe`)"""
        got = self.committed()
        if got == self.done:
            return
        for m in maybe:
            if got == m:
                self.done = dict(m)
                return
        kind = 'committed-without-commit'
        if any(k not in got for k in self.done):
            kind = 'committed-work-lost'
        self.fail(kind, 'after %s the database has %.300r instead of %.300r%s' % (what, got, self.done, ' (autocommit)' if self.auto else ''))

    def lost(self):
        return self.s.lost()

    def wrote(self, view):
        if self.auto:
            self.done = view
        else:
            self.view = view

    def now(self):
        return self.done if self.auto else self.view

    def op(self, what, fn, client_err=()):
        s = self.s
        st, val = client.call(fn)
        if st == 'err' and not isinstance(val, self.m.Error):
            self.fail('wrong-error-class', '%s raised %r' % (what, val))
        s.after(what, st, val, client_err=client_err)
        return st, val

    def errored(self, what, maybe=()):
        """after an operation that raised"""
        s = self.s
        if self.lost():
            self.env.probe('cut')
            self.settle(what, maybe)
            self.stop = True
            return
        if not self.auto and self.view is not FAILED and s.b.failed:
            self.view = FAILED

    def settle(self, what, maybe=()):
        """the connection broke: let the server process what it got"""
        self.env.sim.block(lambda: False, 30 * SEC, 'settle')
        self.verify(what + ' (connection lost)', maybe)
        self.lostat = what

    # -- operations
    def sql(self, st, text, **p):
        """the statement in a parameter style"""
        ks = [k for k in p]
        if st.endswith('q'):
            # a comment that looks like quotes and parameters in front of every parameter
            for k in ks:
                text = text.replace('%%(%s)s' % k, "/* 'it''s %%%%s %%%%(nix)s' \"%%%%\" */ %%(%s)s" % k)
            st = st[:-1]
        if st == 'pydup':
            # equal values are one parameter
            names = {}
            for k in ks:
                names.setdefault((type(p[k]), p[k]), k)
            return text % {k: '%%(%s)s' % names[(type(p[k]), p[k])] for k in ks}, {v: x[1] for x, v in names.items()}
        if st == 'py':
            return text % {k: '%%(%s)s' % k for k in ks}, dict(p)
        if st == 'fmt':
            order = []

            class D(dict):
                def __getitem__(self, k):
                    order.append(p[k]); return '%s'
            t = text % D()
            return t, tuple(order)
        return text % {k: (str(v) if isinstance(v, int) else "'" + v.replace("'", "''") + "'") for k, v in p.items()}, ()

    def write(self, o, text, effect, count, **p):
        c = self.cursor(o['c'])
        sql, args = self.sql(o['st'], text, **p)
        what = '%s %s' % (o['op'], {k: v for k, v in o.items() if k != 'op'})
        before = self.now()
        after = None
        n = None
        if before is not FAILED:
            after = dict(before)
            n = effect(after)
        st, val = self.op(what, lambda: c.cur.execute(sql, args))
        if st == 'ok':
            if before is FAILED:
                self.fail('success-in-failed-transaction', what)
            if n is None:
                self.fail('success-of-impossible-statement', what)
            if c.cur.rowcount != n:
                self.fail('wrong-rowcount', '%s: rowcount is %r instead of %r' % (what, c.cur.rowcount, n))
            if c.cur.description is not None:
                self.fail('wrong-description', '%s: description is %r' % (what, c.cur.description))
            if c.stack:
                del c.stack[0]
            self.wrote(after)
            self.verify(what)
            self.peek(what)
        else:
            self.errored(what, [after] if after is not None and self.auto else [])
            if not self.stop:
                self.verify(what)

    def peek(self, what):
        """what the server holds of the open transaction"""
        if not self.auto and self.view is not FAILED:
            v = self.inside()
            if v is None:
                self.fail('no-transaction', 'after %s the server is in no transaction, although autocommit is off' % what)
            if v != self.view:
                self.fail('wrong-transaction-contents', 'after %s the transaction holds %.300r instead of %.300r' % (what, v, self.view))

    def op_put(self, o):
        def eff(v):
            if o['k'] in v:
                return None
            v[o['k']] = o['v']
            return 1
        self.write(o, 'INSERT INTO kv VALUES (%(k)s, %(v)s)', eff, 1, k=o['k'], v=o['v'])

    def op_upd(self, o):
        def eff(v):
            if o['k'] in v:
                v[o['k']] = o['v']
                return 1
            return 0
        self.write(o, 'UPDATE kv SET v = %(v)s WHERE k = %(k)s', eff, 1, k=o['k'], v=o['v'])

    def op_del(self, o):
        self.write(o, 'DELETE FROM kv WHERE k = %(k)s', lambda v: 1 if v.pop(o['k'], None) is not None else 0, 1, k=o['k'])

    def op_many(self, o):
        c = self.cursor(o['c'])
        n = o['n']; bad = o.get('bad', -1); dup = o.get('dup', -1); src = o.get('src', -1)
        if n == 0:
            bad = dup = -1
        boom = SourceError('many %d' % o['k'])
        rows = [(o['k'] + (0 if j == dup else j), 'm%d' % j) for j in range(n)]

        def source():
            for j in range(n):
                if j == src:
                    raise boom
                r = rows[j] if j != bad else ('no number', 'm')
                yield {'k': r[0], 'v': r[1]} if o['st'] == 'py' else r
            if src >= n:
                raise boom
        sql, _ = self.sql(o['st'], 'INSERT INTO kv VALUES (%(k)s, %(v)s)', k=0, v='')
        what = 'executemany %s' % {k: v for k, v in o.items() if k != 'op'}

        def go():
            try:
                c.cur.executemany(sql, source())
            except SourceError as e:
                return e
        before = self.now()
        st, val = client.call(go)
        s = self.s
        if val is boom:
            self.env.probe('source_error')
            s.sync_after_source(what)
            ok = False
        else:
            if st == 'err' and val.code == '--PIO':
                if bad < 0:
                    self.fail('unexplained-error', '%s: %r' % (what, val))
                s.sync_after_source(what)
            ok = s.after(what, st, val, client_err=('--PIO',) if bad >= 0 else ())
        if self.lost() and not ok:
            pre = []
            if self.auto:
                pre = self.prefixes(before, rows)
            self.errored(what, pre)
            return
        if ok:
            if before is FAILED and n:
                self.fail('success-in-failed-transaction', what)
            if src >= 0 or bad >= 0 or dup >= 0:
                self.fail('failure-became-success', what)
            if before is not FAILED:
                v = dict(before)
                for k, x in rows:
                    if k in v:
                        self.fail('success-of-impossible-statement', what)
                    v[k] = x
                self.wrote(v)
        else:
            if before is not FAILED:
                if s.b.failed:
                    if not self.auto:
                        self.view = FAILED
                else:
                    # some of the sets may have been executed
                    v = self.committed() if self.auto else self.inside()
                    if v not in self.prefixes(before, rows):
                        self.fail('wrong-partial-load', '%s left %.300r' % (what, v))
                    self.wrote(v)
        self.verify(what)
        self.peek(what)

    def prefixes(self, before, rows):
        out = [dict(before)]
        v = dict(before)
        for k, x in rows:
            if k in v:
                break
            v[k] = x
            out.append(dict(v))
        return out

    def op_look(self, o):
        c = self.cursor(o['c'])
        what = 'select the table'
        st, val = self.op(what, lambda: c.cur.execute('SELECT k, v FROM kv ORDER BY k'))
        if st == 'ok':
            c.stack.insert(0, Result([], False, None))
            c.stack[0].over = 'read'
            st, val = self.op(what, c.cur.fetchall)
        if st == 'err':
            return self.errored(what)
        now = self.now()
        if now is FAILED:
            self.fail('success-in-failed-transaction', what)
        got = dict(val)
        if got != now or len(val) != len(got):
            self.fail('wrong-view', 'the session sees %.300r instead of %.300r' % (got, now))
        c.stack[0].over = None

    def op_sel(self, o):
        c = self.cursor(o['c']); g = o['g']
        sql, args = self.sql(o['st'], 'SELECT * FROM gen(%%(n)s, %%(tag)s, %d, %%(e)s, %%(no)s)' % g[2], n=g[0], tag=g[1], e=g[3], no=g[4])
        what = 'select %s' % g
        st, val = self.op(what, lambda: c.cur.execute(sql, args))
        if st == 'err':
            return self.errored(what)
        if self.now() is FAILED:
            self.fail('success-in-failed-transaction', what)
        if c.cur.rowcount != -1:
            self.fail('wrong-rowcount', '%s: %r' % (what, c.cur.rowcount))
        d = c.cur.description
        cols = pgserver.gencols(g[2])
        if not d or [x[0] for x in d] != [x[0] for x in cols]:
            self.fail('wrong-description', '%s: %r instead of columns %r' % (what, d, cols))
        for x, y in zip(d, cols):
            if len(x) != 7 or (y[1] in TYPES and x[1] is not TYPES[y[1]]):
                self.fail('wrong-description', '%s: %r for %r' % (what, x, y))
        if c.stack:
            self.env.probe('two_results')
        c.stack.insert(0, Result(genall(g), 0 <= g[3] < g[0], g))
        c.kinds = set()

    def op_fetch(self, o):
        if o['c'] not in self.curs:
            return
        c = self.curs[o['c']]
        if not c.stack:
            if c.cur is None:
                return
            st, val = client.call(c.cur.fetchone)
            if st == 'ok':
                self.fail('fetch-without-result', 'fetchone returned %r' % (val,))
            return
        r = c.stack[0]
        how = o['how']; n = o['n'] or 1
        rest = r.want[r.pos:]
        what = 'fetch %s %s of %s at %d' % (how, n if how in ('many', 'iter', 'arraysize') else '', r.g, r.pos)
        c.kinds.add(how)
        if len(c.kinds) > 1:
            self.env.probe('mixed_fetch')
        end = False
        got = []

        def go():
            nonlocal end
            cur = c.cur
            if how == 'one':
                x = cur.fetchone()
                if x is None:
                    end = True
                else:
                    got.append(x)
            elif how == 'many':
                got.extend(cur.fetchmany(n))
                end = len(got) < n
            elif how == 'arraysize':
                cur.arraysize = n
                got.extend(cur.fetchmany())
                end = len(got) < n
                if len(got) > n:
                    self.fail('wrong-row-count', '%s returned %d rows' % (what, len(got)))
            elif how == 'drain':
                while True:
                    x = cur.fetchone()
                    if x is None:
                        break
                    got.append(x)
                    if len(got) > len(rest):
                        break
                end = True
            elif how == 'all':
                got.extend(cur.fetchall())
                end = True
            elif how == 'next':
                try:
                    got.append(next(cur))
                except StopIteration:
                    end = True
            else:
                k = n
                if iter(cur) is not cur:
                    self.fail('not-an-iterator', what)
                for x in cur:
                    got.append(x)
                    k -= 1
                    if not k:
                        break
                else:
                    end = True
        st, val = client.call(go)
        # what was delivered is right in any case
        m = len(got)
        for a, b in zip(got, rest):
            if tuple(a) != b:
                self.fail('wrong-row', '%s: %.200r instead of %.200r' % (what, a, b))
        if m > len(rest):
            self.fail('wrong-row-count', '%s: row %.200r after the end' % (what, got[len(rest)]))
        if how in ('many', 'arraysize') and m > n:
            self.fail('wrong-row-count', '%s: %d rows' % (what, m))
        r.pos += m
        if st == 'err':
            s = self.s
            k = None
            if not self.lost():
                k = s.claim(val)
                if k is None and not s.own_error(None, val) and r.over is None:
                    self.fail('unexplained-error', '%s raised %s %r which the server never sent' % (what, val.code, val.message))
                if k is not None and r.err is False:
                    self.env.probe('foreign_error')
                if k is not None or s.own_error(None, val):
                    r.over = 'error'
            else:
                s.after(what, st, val)
                r.over = 'lost'
            self.errored(what)
            return
        if end and r.over is None:
            if r.pos != len(r.want) or r.err:
                self.fail('short-result', '%s: the result ended after %d of %d rows%s' % (what, r.pos, len(r.want), ' and an error' if r.err else ''))
            if how == 'drain':
                self.env.probe('drained')
            if m == 0:
                self.env.probe('fetch_after_end')
        if not self.lost():
            self.s.sync_check(what)

    def ended(self):
        for c in self.curs.values():
            for r in c.stack:
                if r.over is None:
                    r.over = 'transaction ended'

    def op_commit(self, o=None, fn=None, what='commit'):
        before = self.view
        st, val = self.op(what, fn or self.db.commit, client_err=('--000',) if self.auto else ())
        if self.auto:
            if st == 'ok':
                self.fail('success-in-autocommit', '%s in autocommit mode did not raise' % what)
            if not self.lost():
                if not isinstance(val, self.m.Error):
                    self.fail('wrong-error-class', repr(val))
            self.errored(what)
            return
        if st == 'ok':
            self.env.probe('commit')
            if before is FAILED:
                self.env.probe('failed_commit')
                self.view = dict(self.done)
            else:
                self.done = dict(before)
            self.ended()
            self.verify(what)
            self.peek(what)
            return
        if self.lost():
            return self.errored(what, [before] if before is not FAILED else [])
        self.ended()
        self.verify(what)
        if self.s.b.failed:
            self.view = FAILED
            return
        self.env.probe('commit_error')
        v = self.inside()
        if v is None:
            self.fail('no-transaction', 'after the commit that raised %s the server is in no transaction although autocommit is off: what follows is committed at once' % val.code)
        if v != self.done and v != before:
            self.fail('wrong-transaction-contents', '%s: %.300r' % (what, v))
        self.view = v

    def op_rollback(self, o=None):
        what = 'rollback'
        st, val = self.op(what, self.db.rollback, client_err=('--000',) if self.auto else ())
        if self.auto:
            if st == 'ok':
                self.fail('success-in-autocommit', '%s in autocommit mode did not raise' % what)
            self.errored(what)
            return
        if st == 'ok':
            self.env.probe('rollback')
            self.view = dict(self.done)
            self.ended()
            self.verify(what)
            self.peek(what)
            return
        self.errored(what)
        if self.stop:
            return
        self.verify(what)
        if not self.s.b.failed:
            self.fail('rollback-failed', 'rollback raised %r' % (val,))

    def op_auto(self, o):
        on = bool(o['on'])
        what = 'autocommit = %r' % on
        was = self.auto

        def go():
            self.db.autocommit = on
        st, val = self.op(what, go)
        if st == 'err':
            self.errored(what)
            if self.stop:
                return
            self.verify(what)
            if bool(self.db.autocommit) != was:
                self.fail('wrong-autocommit', '%s raised but reads %r' % (what, self.db.autocommit))
            return
        if bool(self.db.autocommit) != on:
            self.fail('wrong-autocommit', '%s reads %r' % (what, self.db.autocommit))
        if on != was:
            self.env.probe('auto_on' if on else 'auto_off')
            self.auto = on
            self.view = dict(self.done)
            if on:
                self.ended()
        self.verify(what)
        self.peek(what)

    def op_raise(self, o):
        c = self.cursor(o['c'])
        what = 'failing statement'
        st, val = self.op(what, lambda: c.cur.execute("SELECT raise('%s', 'asked')" % o['code']))
        if st == 'ok':
            c.stack.insert(0, Result([], True, None))
            c.stack[0].over = 'read'
            st, val = self.op(what, c.cur.fetchall)
        if st == 'ok':
            self.fail('error-became-result', repr(val))
        self.errored(what)
        if not self.stop:
            self.verify(what)

    def op_closecur(self, o):
        c = self.curs.pop(o['c'], None)
        if c is None:
            return
        st, val = client.call(c.cur.close)
        if st == 'err':
            self.fail('cursor-close-raised', repr(val))
        self.closedcur(c.cur)

    def closedcur(self, cur):
        for name, f in (('execute', lambda: cur.execute('SELECT 1')), ('fetchone', cur.fetchone), ('fetchmany', cur.fetchmany), ('fetchall', cur.fetchall),
                        ('next', lambda: next(cur)), ('executemany', lambda: cur.executemany('INSERT INTO kv VALUES (%s, %s)', [])), ('close', cur.close),
                        ('setinputsizes', lambda: cur.setinputsizes(())), ('callproc', lambda: cur.callproc('f', ()))):
            out = self.s.b.conn.c2s_sent
            try:
                f()
            except self.m.Error:
                pass
            except Exception as e:
                self.fail('wrong-error-class', '%s on a closed cursor raised %r' % (name, e))
            else:
                self.fail('success-on-closed-cursor', name)
            if self.s.b.conn.c2s_sent != out:
                self.fail('closed-cursor-talks', name)

    def op_gc(self, o):
        gc.collect()

    def op_next(self, o):
        c = self.curs.get(o['c'])
        if c is None or not c.stack:
            return
        st, val = client.call(c.cur.nextset)
        if st != 'ok' or (not val if len(c.stack) > 1 else val is not None):
            self.fail('nextset', 'with %d results: %r' % (len(c.stack), val))
        if len(c.stack) > 1:
            self.env.probe('nextset')
        del c.stack[0]
        c.kinds = set()

    def op_plain(self, o):
        """a statement that neither returns nor counts rows"""
        c = self.cursor(o['c'])
        what = 'SET by cursor %d' % o['c']
        st, val = self.op(what, lambda: c.cur.execute("SET application_name TO '%s'" % o['v']))
        if st == 'err':
            return self.errored(what)
        if self.now() is FAILED:
            self.fail('success-in-failed-transaction', what)
        if c.cur.rowcount != -1 or c.cur.description is not None:
            self.fail('wrong-rowcount', '%s: rowcount %r, description %r' % (what, c.cur.rowcount, c.cur.description))
        if c.stack:
            del c.stack[0]

    def op_call(self, o):
        c = self.cursor(o['c'])
        what = 'callproc series(%d)' % o['n']
        st, val = self.op(what, lambda: c.cur.callproc('series', (o['n'],)))
        if st == 'err':
            return self.errored(what)
        if self.now() is FAILED:
            self.fail('success-in-failed-transaction', what)
        if list(val) != [o['n']]:
            self.fail('wrong-row', '%s returned %r instead of its arguments' % (what, val))
        self.env.probe('callproc')
        c.stack.insert(0, Result([(k,) for k in range(1, o['n'] + 1)], False, o['n']))
        c.kinds = set()

    def op_odd(self, o):
        how = o['how']
        if how == 'connect':
            what = 'connect() on the open connection'
            st, val = self.op(what, self.db.connect)
            if st == 'err':
                return self.errored(what)
        elif how == 'params':
            c = self.cursor(o['c'])
            try:
                c.cur.execute('INSERT INTO kv VALUES (%s, %s)', (1,))
            except TypeError:
                pass
            except self.m.Error as e:
                self.fail('wrong-error-class', repr(e))
            else:
                self.fail('success-of-impossible-statement', 'one parameter for two')

    # --
    def run(self, ops):
        for k, o in enumerate(ops):
            f = getattr(self, 'op_' + o['op'])
            self.env.sim.mark('<' + o['op'] + str(o.get('how', '')) + '>')
            f(o)
            if self.stop:
                return k + 1
        return len(ops)


DRV = []


def driver():
    if not DRV:
        from postgresql.driver import dbapi20

        class SimDB(dbapi20.Connection):
            _serial = 0

            def __hash__(self):
                return self._serial
        DRV.append(client.pq3.Driver(connection=SimDB))
        DRV.append(dbapi20)
    return DRV


def connect(env):
    drv, m = driver()
    ctor = drv.fit(host=client.ADDR[0], port=client.ADDR[1], user='sim', password='secret', database='simdb', sslmode='disable')
    db = client.connection(env, ctor)
    db.connect()
    return db, m


def finish(env, M, how):
    """leave the connection"""
    s, db = M.s, M.db
    m = M.m
    dead = M.lost()
    what = 'leaving (%s)' % how
    if not M.auto and M.view is not FAILED and M.view != M.done:
        env.probe('closed_pending')
    try:
        if how == 'with':
            db.__exit__(None, None, None)
        elif how == 'withraise':
            db.__exit__(AppError, AppError('x'), None)
        else:
            db.close()
    except m.Error as e:
        if not (M.lost() or not s.dead and s.claim(e) is not None):
            M.fail('close-raised', '%s: %s %r' % (what, e.code, e.message))
        if dead:
            M.fail('close-raised', '%s on a lost connection: %s %r' % (what, e.code, e.message))
    if env.net.open_sockets():
        M.fail('socket-leak', '%s left the socket open' % what)
    if not db.closed:
        M.fail('not-closed', what)
    s.was_closed = s.dead = True
    env.sim.block(lambda: False, 30 * SEC, 'settle')
    M.verify(what)
    # everything raises the DB-API's error class from now on
    def auto(v):
        db.autocommit = v
    cur = [c.cur for c in M.curs.values()][:1]
    calls = [('close', db.close), ('commit', db.commit), ('rollback', db.rollback), ('cursor().execute', lambda: db.cursor().execute('SELECT 1'))]
    if cur:
        calls += [('execute', lambda: cur[0].execute('INSERT INTO kv VALUES (1, 2)')), ('executemany', lambda: cur[0].executemany('INSERT INTO kv VALUES (%s, %s)', [(1, 'x')]))]
    for name, f in calls:
        try:
            f()
        except m.Error:
            pass
        except Exception as e:
            M.fail('wrong-error-class', '%s on the closed connection raised %r' % (name, e))
        else:
            M.fail('success-on-closed-connection', name)
        if env.net.open_sockets():
            M.fail('closed-reopened', name)
    for c in M.curs.values():
        for r in c.stack:
            r.over = 'closed'
        if c.stack:
            r = c.stack[0]
            rest = r.want[r.pos:]
            try:
                got = c.cur.fetchall()
            except m.Error:
                continue
            if [tuple(x) for x in got] != rest[:len(got)]:
                M.fail('wrong-row', 'fetchall after close: %.200r instead of %.200r' % (got, rest))


def run(env):
    cfg = env.cfg
    opts = {}
    if cfg.get('commit_error'):
        opts['commit_error'] = list(cfg['commit_error'])
    client.reset(env)
    wl.set_chunksize(cfg.get('chunk'))
    server = wl.serve(env, opts)
    on = wl.calm(env)
    db, m = connect(env)
    on()
    b = env.backends[-1]
    s = Session(env, db, b, lossy=True)
    M = Model(env, s, db, m)
    M.peek('connect')
    if cfg.get('cut'):
        wl.cut(s, cfg['cut'])
    if cfg['end'].startswith('with'):
        # the block may be entered at any point of the program
        k = min(cfg.get('withat', 0), len(env.ops))
        env.probe('with')
        M.run(env.ops[:k])
        if not M.stop:
            st, val = client.call(db.__enter__)
            if st == 'err':
                s.after('entering the connection', st, val)
                M.errored('entering the connection')
            else:
                if val is not db:
                    M.fail('wrong-context', 'with con as x: x is not con')
                M.peek('entering the connection')
                M.run(env.ops[k:])
    else:
        M.run(env.ops)
    env.nontrivial = bool(server.commit_log) or M.stop or s.nerr > 0
    if M.stop and cfg.get('after'):
        after_loss(env, M, cfg['after'])
    if cfg['end'] == 'drop' and not M.lost():
        # abandoned: whatever was not committed is undone by the server
        M.curs.clear()
        b.kill('eof')
        env.sim.block(lambda: False, 30 * SEC, 'settle')
        M.verify('abandoning the connection')
        return
    finish(env, M, cfg['end'])


def after_loss(env, M, how):
    """the program goes on although the connection is gone"""
    db, m = M.db, M.m

    def auto():
        db.autocommit = not db.autocommit
    f = {'commit': db.commit, 'rollback': db.rollback, 'auto': auto, 'execute': lambda: db.cursor().execute('SELECT 1'), 'fetch': None, 'close': None}[how]
    if f is None:
        return
    if not db.closed:
        return
    try:
        f()
    except m.Error:
        pass
    except Exception as e:
        M.fail('wrong-error-class', '%s on the lost connection raised %r' % (how, e))
    else:
        M.fail('success-on-lost-connection', how)
