"""C08: a scrollable cursor behaves like a cursor over a fixed list."""
import gc
from sim.core import *
from sim import client, wl, work
from sim.work import Session, rowsql, parms, genall

PROP = 'C08'
RULE = ('one evaluation = one seeded session moving and reading up to four cursors (declared by the driver, or by the application and attached by name) in both '
        'directions, with other statements, transactions, reclaimed objects, asynchronous messages and server errors in between; distinct non-trivial = distinct '
        'sequences of operations, replies and reads among runs in which a cursor was moved or read at least three times')
RUNS = {'quick': 16000, 'thorough': 400000}
REAL = ['postgresql.driver.pq3 (cursors, statements, transactions, type I/O)', 'postgresql.protocol.*', 'postgresql.types.Row']
STUB = ['server (simulated backend with scrollable cursors)', 'socket, clock (simulated)']
ASSUMPTIONS = ['read() is given a count that is not negative', 'an offset from the end, or an absolute one of a backward cursor, is not negative',
               'one thread uses a connection at a time']
PROBES = ['read', 'read_back', 'read_all', 'next', 'seek_abs', 'seek_rel', 'seek_end', 'seek_fwd', 'seek_back', 'seek_all', 'reversed', 'attached', 'in_tx', 'clone',
          'closed_use', 'error', 'async', 'undecodable', 'two_cursors', 'before_first', 'past_end', 'vanished']
VARIANTS = ('c', 'py')

WH = {'A': ['ABSOLUTE', 0, 'absolute'], 'R': ['RELATIVE', 1, 'relative'], 'E': ['FROM_END', 2, 'from_end'],
      'F': ['FORWARD', 3, 'Forward'], 'B': ['BACKWARD', 4, 'backward']}


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES)
    g = wl.Gen(rng, chunk)
    ops = []
    for _ in range(rng.randrange(4, 45 if tier == 'quick' else 90)):
        x = rng.random()
        k = rng.randrange(4) if rng.random() < 0.4 else rng.randrange(2)
        if x < 0.14:
            op = {'op': 'cur', 'k': k, 'g': g.g(err=0.05, notice=0.04)}
            if rng.random() < 0.04:
                op['g'][2] = 9
            if op['g'][0] and rng.random() < 0.1:
                op['g'][5] = rng.randrange(op['g'][0])
            how = rng.choice(['declare', 'declare', 'declare', 'query', 'sql', 'sqltx'])
            op['how'] = how
            if how[:3] != 'sql' and rng.random() < 0.35:
                op['par'] = 1
            if how == 'sqltx':
                op['hold'] = rng.random() < 0.5
            ops.append(op)
        elif x < 0.46:
            q = rng.choice([None, 0, 1, 1, 2, 3, 5, 8, 13, 40, 400])
            d = rng.choice([None, None, None, True, False, 'FORWARD', 'BACKWARD', 'forward', 'backward'])
            ops.append({'op': 'read', 'k': k, 'q': q, 'd': d})
        elif x < 0.54:
            ops.append({'op': 'next', 'k': k, 'n': rng.choice([1, 1, 2, 4, 9])})
        elif x < 0.76:
            w = rng.choice('AARREEFB')
            n = rng.choice([0, 1, 2, 3, 5, 9, 17, 60]) if rng.random() < 0.9 else rng.randrange(200)
            if w in 'RFB' and rng.random() < 0.4 or w == 'A' and rng.random() < 0.08:
                n = -n
            op = {'op': 'seek', 'k': k, 'n': n, 'w': w, 's': rng.randrange(3)}
            if rng.random() < 0.1:
                op['n'] = 'ALL'
                op['w'] = rng.choice(['F', 'B', '', ''])
            ops.append(op)
        elif x < 0.83:
            ops.append({'op': 'dir', 'k': k, 'd': rng.choice([True, False, 'FORWARD', 'BACKWARD', 'backward'])})
        elif x < 0.86:
            ops.append({'op': rng.choice(['clonec', 'closec', 'dropc', 'meta']), 'k': k, 'to': rng.randrange(4)})
        else:
            ops.append(g.mixed({'q': 3, 'put': 2, 'tx': 4, 'gc': 2, 'raise': 1, 'say': 1, 'copyout': 1, 'open': 2, 'stream': 3, 'copyin': 1}))
    cfg = {'chunk': chunk, 'gc': rng.choice([0, 0, 50, 300])}
    if rng.random() < 0.35:
        cfg['async'] = wl.asyncs(rng, rng.choice([20, 100, 300]), 12, kinds=('notice', 'notice', 'status', 'notify'))
    faults = []
    if rng.random() < 0.25:
        for _ in range(rng.randrange(1, 3)):
            faults.append({'kind': 'server_error', 'at': rng.randrange(200), 'code': rng.choice(['57014', '53200', 'XX000'])})
    return {'ops': ops, 'faults': faults, 'policy': wl.policy(rng), 'cfg': cfg}


class Cur:
    def __init__(self, obj, cid, g, par):
        self.obj = obj; self.cid = cid; self.g = g; self.par = par
        self.rows = genall(g)
        self.pos = 0
        self.fwd = True
        self.closed = False
        self.tx = None
        self.undone = 0
        self.hold = True
        self.own = False         # declared by the application
        self.cc = None           # the server's cursor


class S(Session):
    def setup(self):
        self.cur = {}
        self.nsql = 0
        self.moves = 0

    # ------------------------------------------------------------ model
    def step(self, c, fwd, n):
        """move over n rows (None: all); returns those passed"""
        N = len(c.rows)
        out = []
        while n is None or len(out) < n:
            if fwd:
                if c.pos <= N:
                    c.pos += 1
                if c.pos > N:
                    break
            else:
                if c.pos > 0:
                    c.pos -= 1
                if c.pos == 0:
                    break
            out.append(c.rows[c.pos - 1])
        return out

    def may_be_gone(self, c):
        t = c.tx
        if c.closed:
            return True
        if t is None:
            return False
        if t.ended == 'rollback' or t.undone != c.undone:
            return True
        return t.ended == 'commit' and not c.hold

    def there(self, c):
        """is it still on the server; anything it lost without a reason is a violation"""
        x = self.b.cursors.get(c.cid)
        if x is None or (c.cc is not None and x is not c.cc):
            if not self.may_be_gone(c):
                self.fail('cursor-vanished', 'the cursor %s is gone from the server' % c.cid)
            return None
        return x

    def audit(self, what):
        """every cursor is where it should be"""
        if self.busy() or self.db.closed:
            return
        for k in sorted(self.cur):
            c = self.cur[k]
            x = self.there(c)
            if x is not None and x.pos != c.pos:
                self.fail('cursor-moved', 'after %s cursor %d (%s, %d rows) is at %d instead of %d' % (what, k, c.cid, len(c.rows), x.pos, c.pos))

    def settle(self, c):
        """after a failed operation: wherever the server left it"""
        x = self.there(c)
        if x is not None:
            c.pos = x.pos

    def failed_op(self, c, what, st, val, client_err=()):
        """True if the operation went through"""
        ok = self.after(what, st, val, client_err)
        if not ok:
            self.env.probe('error')
            if self.there(c) is None and val.code == '34000':
                self.env.probe('vanished')
                if c.closed:
                    self.env.probe('closed_use')
            self.settle(c)
        elif self.there(c) is None and not c.closed:
            self.fail('read-of-vanished-cursor', what)
        return ok

    # ------------------------------------------------------------ operations
    def op_cur(self, op):
        g = op['g']; how = op['how']; par = bool(op.get('par')); a = parms(g) if par else ()
        self.cur.pop(op['k'], None)
        name = None
        if how[:3] == 'sql':
            self.nsql += 1
            name = ['c%d', 'a "b" %d', 'C d%d'][self.nsql % 3] % self.nsql
            hold = op.get('hold', True)
            if not hold and self.b.xtx is None:
                hold = True
            sql = 'DECLARE "%s" SCROLL CURSOR %sFOR %s' % (name.replace('"', '""'), 'WITH HOLD ' if hold else '', rowsql(g))
            st, val = client.call(self.db.execute, sql)
            if not self.after('declare %s' % name, st, val):
                self.note('cur', how, g, 'err', val.code)
                return

        def go():
            if name is not None:
                return self.db.cursor_from_id(name)
            if how == 'query':
                return self.db.query.declare(rowsql(g, par), *a)
            return self.db.prepare(rowsql(g, par)).declare(*a)
        st, val = client.call(go)
        self.note('cur', how, g, st if st == 'ok' else val.code)
        if not self.after('cur/%s/%s' % (how, g), st, val):
            self.env.probe('error')
            return
        c = Cur(val, val.cursor_id, g, par)
        if name is not None:
            self.env.probe('attached')
            c.hold = hold; c.own = True
            if c.cid != name:
                self.fail('wrong-id', '%r instead of %r' % (c.cid, name))
        self.enter(op['k'], c)
        self.op_meta(op)

    def enter(self, k, c):
        if self.b.xtx is not None:
            c.tx = self.b.xtx
            c.undone = c.tx.undone
            self.env.probe('in_tx')
        x = self.b.cursors.get(c.cid)
        if x is None:
            self.fail('no-such-cursor', 'the server has no cursor %s' % c.cid)
        for o in self.cur.values():
            if o.cid == c.cid and not o.closed and self.there(o) is not None:
                self.fail('identifier-reused', 'a new cursor has the identifier %s of another' % c.cid)
        c.cc = x
        self.cur[k] = c
        if len([1 for o in self.cur.values() if not o.closed]) > 1:
            self.env.probe('two_cursors')

    def op_meta(self, op):
        c = self.cur.get(op['k'])
        if c is None or c.closed:
            return
        st, val = client.call(lambda: (c.obj.column_names, c.obj.sql_column_types, c.obj.pg_column_types, c.obj.direction))
        if st != 'ok':
            if self.after('column names', st, val):
                pass
            return
        if list(val[0]) != work.names(c.g[2]):
            self.fail('wrong-columns', 'cursor %s: %r instead of %r' % (c.g, val[0], work.names(c.g[2])))
        if len(val[1]) != len(val[0]) or len(val[2]) != len(val[0]):
            self.fail('wrong-columns', 'cursor %s: types %r %r' % (c.g, val[1], val[2]))
        if val[3] is not c.fwd:
            self.fail('wrong-direction', '%r' % (val[3],))

    def op_read(self, op):
        c = self.cur.get(op['k'])
        if c is None:
            return
        q = op['q']; d = op['d']
        rel = True if d is None else d in (True, 'FORWARD', 'forward')
        fwd = rel == c.fwd
        what = 'read(%r, %r) at %d of %s, direction %s' % (q, d, c.pos, c.g, c.fwd)
        st, val = client.call(lambda: c.obj.read(q, d) if d is not None else (c.obj.read(q) if q is not None else c.obj.read()))
        self.note('read', op['k'], q, d, st if st == 'ok' else val.code)
        if q == 0:
            if st != 'ok' or val != []:
                self.fail('wrong-rows', '%s: %r' % (what, val))
            return
        self.finish_read(c, what, fwd, q, st, val)
        self.env.probe('read' if fwd else 'read_back')
        if q is None:
            self.env.probe('read_all')

    def finish_read(self, c, what, fwd, q, st, val):
        pos0 = c.pos
        bad = c.g[5]
        if st == 'err' and val.code == '--CIO' and bad >= 0:
            # the rows were passed all the same
            got = self.step(c, fwd, q)
            if c.rows[bad:bad + 1] and c.rows[bad] not in got:
                self.fail('unexplained-error', '%s: %s' % (what, val.message))
            self.after(what, st, val, client_err=('--CIO',))
            self.env.probe('undecodable')
            self.moves += 1
            return
        if not self.failed_op(c, what, st, val):
            return
        want = self.step(c, fwd, q)
        self.moves += 1
        if 0 <= bad < len(c.rows) and c.rows[bad] in want:
            self.fail('bad-value-became-result', '%s returned %r' % (what, val))
        x = self.there(c)
        if 0 <= c.g[3] < c.g[0]:
            if len(val) > len(want) or c.pos > len(c.rows):
                self.fail('error-became-result', '%s returned %d rows' % (what, len(val)))
        self.same_rows(what, val, want, work.names(c.g[2]))
        if c.pos == 0:
            self.env.probe('before_first')
        if c.pos > len(c.rows):
            self.env.probe('past_end')

    def op_next(self, op):
        c = self.cur.get(op['k'])
        if c is None:
            return
        for _ in range(op['n']):
            what = 'next() at %d of %s, direction %s' % (c.pos, c.g, c.fwd)

            def go():
                try:
                    return [next(c.obj)]
                except StopIteration:
                    return []
            st, val = client.call(go)
            self.note('next', op['k'], st if st == 'ok' else val.code)
            self.finish_read(c, what, c.fwd, 1, st, val)
            self.env.probe('next')
            if st == 'err' or self.dead:
                return

    def op_seek(self, op):
        c = self.cur.get(op['k'])
        if c is None:
            return
        n = op['n']; w = op['w']
        if not c.fwd and w == 'A' and n < 0:
            n = -n
        what = 'seek(%r, %r) at %d of %s, direction %s' % (n, w, c.pos, c.g, c.fwd)
        st, val = client.call(lambda: c.obj.seek(n, WH[w][op['s']]) if w and (w != 'A' or op['s']) else c.obj.seek(n))
        self.note('seek', op['k'], n, w, st if st == 'ok' else val.code)
        if not self.failed_op(c, what, st, val):
            return
        self.moves += 1
        if n == 'ALL':
            w2 = w or 'F'
            fwd = (w2 == 'F') == c.fwd
            got = self.step(c, fwd, None)
            self.env.probe('seek_all')
            if val != len(got):
                self.fail('wrong-seek-count', '%s returned %r instead of %d' % (what, val, len(got)))
            return
        N = len(c.rows)
        self.env.probe({'A': 'seek_abs', 'R': 'seek_rel', 'E': 'seek_end', 'F': 'seek_fwd', 'B': 'seek_back'}[w])
        if w in 'RFB':
            fwd = c.fwd == (w != 'B')
            k = n
            if k < 0:
                k = -k
                fwd = not fwd
            if k == 0:
                return
            p0 = c.pos
            got = self.step(c, fwd, k)
            # a relative move reports whether it ended on a row
            if w in 'FB' and val != len(got):
                self.fail('wrong-seek-count', '%s returned %r instead of %d' % (what, val, len(got)))
            return
        if (w == 'A') == c.fwd:
            c.pos = min(n, N + 1) if n >= 0 else max(0, N + 1 + n)
        else:
            c.pos = max(0, N + 1 - n)

    def op_dir(self, op):
        c = self.cur.get(op['k'])
        if c is None:
            return
        c.obj.direction = op['d']
        c.fwd = op['d'] in (True, 'FORWARD')
        if not c.fwd:
            self.env.probe('reversed')
        self.note('dir', op['k'], op['d'])

    def op_clonec(self, op):
        c = self.cur.get(op['k'])
        if c is None or c.own:
            return
        st, val = client.call(c.obj.clone)
        self.note('clone', st if st == 'ok' else val.code)
        if not self.after('clone', st, val):
            return
        self.env.probe('clone')
        if op['to'] == op['k']:
            self.cur.pop(op['k'])
        x = Cur(val, val.cursor_id, c.g, c.par)
        self.enter(op['to'], x)

    def op_closec(self, op):
        c = self.cur.get(op['k'])
        if c is None:
            return
        st, val = client.call(c.obj.close)
        if st != 'ok':
            self.fail('close-raised', val)
        c.closed = True
        self.note('close', op['k'])

    def op_dropc(self, op):
        self.cur.pop(op['k'], None)
        self.note('drop', op['k'])


def run(env):
    cfg = env.cfg
    server, db, b = wl.begin(env)
    s = S(env, db, b)
    s.setup()
    env.sim.gc_permille = cfg.get('gc', 0)
    env.nontrivial = False
    if cfg.get('async'):
        env.probe('async')
        wl.inject(b, cfg['async'])
    for f in env.plan["faults"]:
        b.err_at[b.nin + f['at']] = (f['code'], 'injected %d' % f['at'])
    for op in env.ops:
        s.do(op)
        s.audit(op['op'])
    env.nontrivial = s.moves >= 3
    s.finish()
    s.audit('the end')
    db.close()
