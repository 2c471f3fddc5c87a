"""C12: every notification is delivered once and in order."""
from sim.core import *
from sim import client, wl, pgserver, work
from sim.work import Session, G

PROP = 'C12'
RULE = ('one evaluation = one seeded history of notifications sent to up to four listening connections while the application iterates a notification manager '
        '(or iternotifies) with no, zero or positive timeouts, queries the connections, adds, removes, closes and loses them; distinct non-trivial = distinct '
        'sequences of operations, replies, reads and events among runs in which at least two notifications were reported')
RUNS = {'quick': 28000, 'thorough': 400000}
REAL = ['postgresql.notifyman', 'postgresql.driver.pq3 (listen, notify, iternotifies, asynchronous messages)', 'postgresql.protocol.*']
STUB = ['server (simulated backends with LISTEN/NOTIFY)', 'socket, select, clock (simulated)']
ASSUMPTIONS = ['one thread uses the manager and its connections', 'the loop is only abandoned at an idle event or at its end',
               'a connection whose next send is refused by the operating system may have received notifications nobody can read any more']
PROBES = ['event', 'idle', 'stop', 'block_none', 'zero', 'iternotifies', 'several', 'same', 'during_query', 'lost_conn', 'closed_conn', 'lost_with_pending',
          'removed', 'added', 'own', 'in_tx', 'timeout_changed', 'stream']
VARIANTS = ('c', 'py')
MAX_STEPS = 60000

CHANNELS = ('ch', 'other')
TIMES = (0.1, 0.5, 2, 3.5)


def gen(rng, tier):
    ncon = rng.choice([1, 1, 2, 2, 3, 4])
    single = ncon == 1 and rng.random() < 0.5
    g = wl.Gen(rng, 3)
    tmo = rng.choice([None, 0, 0, 0.5, 0.5, 2, 0.1, 7])
    ops = []
    for _ in range(rng.randrange(6, 40 if tier == 'quick' else 80)):
        x = rng.random()
        c = rng.randrange(ncon)
        if x < 0.34:
            ops.append({'op': 'pull', 'n': rng.choice([1, 1, 2, 4])})
        elif x < 0.50:
            ops.append({'op': 'send', 'c': [rng.randrange(ncon) for _ in range(rng.choice([1, 1, 2, 4]))],
                        'ch': rng.choice(CHANNELS), 'p': rng.choice(['', 'p', 'same', 'same', 'pay %d' % rng.randrange(99), "it's \u00e9"]),
                        'in': rng.choice([0, 0, 1, 1000, 90000, 450000, 1900000, 12000000])})
        elif x < 0.55:
            # a train of notifications, spaced evenly
            ops.append({'op': 'train', 'c': c, 'n': rng.randrange(2, 9), 'every': rng.choice([1000, 40000, 300000, 450000, 900000, 1700000])})
        elif x < 0.62:
            ops.append({'op': 'note', 'from': rng.choice([-1, c]), 'a': rng.choice([['ch'], ['ch', 'ch'], ['other', 'ch'], [['ch', 'x']], [['ch', "o'q\\"], 'other'], ['noone']]),
                        'k': rng.choice([{}, {}, {'ch': 'kw'}, {'other': "k'w"}]), 'tx': rng.random() < 0.2})
        elif x < 0.72:
            ops.append({'op': 'query', 'c': c, 'what': rng.choice(['sel', 'rows', 'bad', 'slow', 'execute']), 'with': rng.choice([0, 0, 1, 2, 3]), 'at': rng.randrange(8)})
        elif x < 0.76:
            ops.append({'op': 'stream', 'c': c, 'k': rng.choice([0, 1, 5])})
        elif x < 0.80:
            ops.append({'op': 'tx', 'c': c})
        elif x < 0.85:
            ops.append({'op': 'sleep', 's': rng.choice([0.01, 0.3, 1, 2.5, 11])})
        elif x < 0.89:
            ops.append({'op': 'timeout', 't': rng.choice([None, 0, 0.1, 0.5, 2, 7])})
        elif x < 0.93 and not single:
            ops.append({'op': rng.choice(['remove', 'add', 'add']), 'c': c})
        elif x < 0.945:
            ops.append({'op': 'newnm'})
        elif x < 0.965:
            ops.append({'op': 'close', 'c': c, 'with': rng.randrange(3)})
        elif x < 0.99:
            ops.append({'op': 'lose', 'c': c, 'how': rng.choice(['eof', 'eof', 'fatal', 'fatal', 'reset', 'cut']), 'with': rng.randrange(4), 'in': rng.choice([0, 0, 1000, 700000]),
                        'at': rng.choice([0, 3, 9, 14, 20, 30])})
    cfg = {'n': ncon, 'single': single, 't': tmo}
    if rng.random() < 0.3:
        cfg['async'] = wl.asyncs(rng, 60, 8, kinds=('notice', 'status'))
    return {'ops': ops, 'policy': wl.policy(rng), 'cfg': cfg}


class Con:
    def __init__(self, db, b, k):
        self.db = db; self.b = b; self.k = k
        self.got = []
        self.lost = False        # a fault was planned for it
        self.closed = False      # by the application
        self.it = None
        self.xact = None
        self.must = 0

    def sent(self):
        return [m[1:4] for m in self.b.sent_async if m[0] == 'notify']

    def arrived(self):
        """how many of them are complete in this process (in its socket buffer or beyond)"""
        if self.closed:
            return self.must         # what the driver had read for sure
        d = self.b.conn.s2c_delivered
        return len([1 for m in self.b.note_marks if m <= d])

    def waiting(self):
        return max(0, self.arrived() - len(self.got))

    def pending(self):
        return len(self.sent()) - len(self.got)

    def gone(self):
        return self.closed or self.db.closed or self.b.closed or self.b.conn.srv_closed or self.b.conn.lost


class S:
    def __init__(self, env, cons, db0, server):
        self.env = env; self.sim = env.sim; self.cons = cons; self.db0 = db0; self.server = server
        self.events = 0; self.last_none = None; self.first = None
        self.timeout = env.cfg['t']
        self.since = None        # when the current interval started
        self.wait = None         # when it began to wait in it at the latest
        self.loose = False       # the timeout was changed meanwhile
        self.mint = self.timeout
        self.queue = []          # iternotifies: what belongs to the event being delivered
        self.inloop = False
        self.fresh = True
        self.guard = None
        self.round = {}
        self.ended = False       # iternotifies is a generator: it ends once
        self.nm = None
        self.make()

    def fail(self, kind, *d):
        raise Violation(kind, ' '.join(str(x) for x in d))

    def make(self):
        from postgresql.notifyman import NotificationManager
        self.since = self.wait = None
        self.loose = False
        self.mint = self.timeout
        self.ended = False
        if self.env.cfg['single']:
            self.env.probe('iternotifies')
            self.nm = self.cons[0].db.iternotifies(self.timeout) if self.timeout is not None else self.cons[0].db.iternotifies()
            self.watched = {self.cons[0]}
        else:
            self.watched = {c for c in (self.watched if self.nm is not None else self.cons) if not c.gone()}
            self.nm = NotificationManager(*[c.db for c in sorted(self.watched, key=lambda c: c.k)], timeout=self.timeout)

    def con(self, db):
        for c in self.cons:
            if c.db is db:
                return c
        self.fail('unknown-connection', repr(db))

    def check(self, c, n):
        want = c.sent()
        k = len(c.got)
        if k >= len(want):
            self.fail('notification-invented', 'connection %d: %r was never sent, or has been reported already' % (c.k, n))
        if tuple(n) != tuple(want[k]):
            kind = 'notification-lost' if tuple(n) in [tuple(w) for w in want[k:]] else 'wrong-notification'
            self.fail(kind, 'connection %d: notification %d reported is %r, the server sent %r' % (c.k, k, tuple(n), tuple(want[k])))
        if len(n) != 3:
            self.fail('wrong-notification', repr(n))
        c.got.append(tuple(n))
        self.events += 1

    def op_pull(self, op):
        for _ in range(op['n']):
            if not self.pull():
                break

    def pull(self, final=False):
        if self.ended:
            return False
        live = [c for c in self.watched if not c.gone()]
        t0 = self.sim.now
        if self.timeout is None and live:
            # without a timeout it may wait for ever, as it should: let something happen in the end
            self.guard = object()
            self.sim.after(100 * SEC, lambda g=self.guard: self.rescue(g))
        if not self.inloop:
            # in the middle of something: a poll leaves it alone, that will collect them
            self.round = {c: 0 if c.it is not None and self.timeout == 0 else c.arrived() for c in self.cons}
        self.inloop = True
        if self.since is None:
            self.since = t0
        wait0 = {c: c.arrived() for c in self.watched}
        avail0 = sum(c.waiting() for c in self.cons)
        if self.wait is None and not avail0 and not any(c.closed and c.pending() for c in self.cons):
            self.wait = t0
        held = {c: (wait0[c], len(c.got)) for c in self.watched}
        fly0 = sum(c.pending() for c in self.watched)
        later0 = len(self.sim.q)
        sick = [c for c in self.watched if c.gone() or c.it is not None or c.b.failed]
        overdue = self.timeout and t0 >= self.since + self.timeout * SEC
        pend0 = {c: c.pending() for c in self.watched}
        sel0 = self.sim.stats.get('select', 0)
        try:
            x = next(self.nm)
            end = False
        except StopIteration:
            x = None
            end = True
        self.guard = None
        now = self.sim.now
        took = (now - t0) / SEC
        what = 'next() with timeout %r after %.6f s' % (self.timeout, took)
        if end:
            self.env.probe('stop')
            self.sim.mark('0')
            self.sim.log('op', 'stop')
            self.inloop = False
            self.wait = None
            if self.env.cfg['single']:
                self.ended = True
            if self.timeout != 0:
                if [c for c in self.watched if not c.gone()]:
                    self.fail('ended-early', '%s: the iteration ended with good connections left' % what)
            else:
                self.env.probe('zero')
            for c in self.watched:
                if c.it is not None and self.timeout == 0:
                    continue        # in the middle of something: that will collect them
                if min(self.round[c], c.arrived()) > len(c.got) and not c.b.conn.send_failed:
                    self.fail('notification-left', '%s: the iteration ended, %d notifications that had arrived on connection %d before are not reported' % (
                        what, self.round[c] - len(c.got), c.k))
            self.drop_gone()
            return False
        if x is None:
            self.env.probe('idle')
            self.sim.mark('i')
            self.sim.log('op', 'idle')
            if not self.timeout:
                self.fail('idle-without-timeout', what)
            for c in self.watched:
                if wait0[c] > len(c.got) and not c.b.conn.send_failed:
                    self.fail('idle-before-event', '%s: an idle event, while %d notifications of connection %d were waiting' % (what, wait0[c] - len(c.got), c.k))
            if now - self.since < self.mint * SEC * 0.99 - 2:
                self.fail('idle-too-early', '%s: %.6f s after the last one began' % (what, (now - self.since) / SEC))
            slack = 2 + sum(0.2 for c in self.watched)
            if took > self.timeout * 1.05 + slack:
                self.fail('idle-too-late', what)
            if self.wait is not None and not self.loose:
                due = max(self.wait + self.timeout * SEC, t0)
                if now > due + (self.timeout * 0.05 + slack) * SEC:
                    self.fail('idle-too-late', '%s: %.6f s after it was due' % (what, (now - due) / SEC))
            self.since = self.wait = None
            self.loose = False
            self.mint = self.timeout
            self.inloop = False
            self.drop_gone()
            return True
        self.env.probe('event')
        self.sim.mark('e')
        if self.env.cfg['single']:
            c = self.cons[0]
            self.sim.log('op', 'event', c.k, x)
            before = c.pending() 
            self.check(c, x)
            batch = 1
        else:
            if type(x) is not tuple or len(x) != 2:
                self.fail('wrong-event', repr(x))
            c = self.con(x[0])
            if not x[1]:
                self.fail('empty-event', 'connection %d' % c.k)
            self.sim.log('op', 'event', c.k, len(x[1]))
            for n in x[1]:
                self.check(c, n)
        if len(self.cons) > 1:
            self.env.probe('several')
        if avail0 == 0 and overdue and not fly0 and not sick and not later0:
            self.fail('idle-starved', what)
        if self.timeout is None and took:
            self.env.probe('block_none')
        if took > 2 and any(w > g and not c.b.conn.send_failed for c, (w, g) in held.items()):
            self.fail('late-event', '%s although it was available' % what)
        return True

    def rescue(self, g):
        if g is not self.guard:
            return
        self.sim.after(100 * SEC, lambda: self.rescue(g))
        live = [c for c in sorted(self.watched, key=lambda c: c.k) if not c.gone()]
        for c in live:
            n = len(c.b.note_marks)
            self.deliver(c, 'ch', 'rescue')
            if len(c.b.note_marks) > n:
                return
        for c in live:
            c.lost = True
            c.b.kill('fatal')

    def drop_gone(self):
        """what the manager must have noticed by now"""
        if self.env.cfg['single']:
            return
        for c in sorted(self.watched, key=lambda c: c.k):
            inn = c.db in self.nm.connections
            ing = c.db in self.nm.garbage
            if c.db.closed and not c.closed:
                if inn and not ing:
                    continue            # noticed at the next look
            if ing and not c.gone():
                self.fail('good-connection-set-aside', 'connection %d' % c.k)
            if ing and inn:
                self.fail('both', 'connection %d is in both sets' % c.k)
            if not ing and not inn:
                self.fail('connection-dropped', 'connection %d is in neither set' % c.k)

    # ---- the world
    def deliver(self, c, ch, p, pid=77):
        b = c.b
        if b.closed or b.conn.srv_closed or not b.ready:
            return
        b.pending_notifies.append((pid, ch, p))
        b.notify_arrived()

    def op_send(self, op):
        ch, p = op['ch'], op['p']
        if len(op['c']) > 1:
            self.env.probe('same')
        for k in op['c']:
            c = self.cons[k]
            if op['in']:
                self.sim.after(op['in'], lambda c=c: self.deliver(c, ch, p))
            else:
                self.deliver(c, ch, p)

    def op_train(self, op):
        c = self.cons[op['c']]
        for j in range(op['n']):
            self.sim.after(op['every'] * j, lambda j=j: self.deliver(c, 'ch', 'train %d' % (j // 2)))

    def op_note(self, op):
        """through the driver"""
        c = None if op['from'] < 0 else self.cons[op['from']]
        db = self.db0 if c is None else c.db
        if c is not None and (c.gone() or c.b.failed):
            return
        args = [tuple(a) if isinstance(a, list) else a for a in op['a']]
        want = [(a, '') if isinstance(a, str) else a for a in args] + list(op['k'].items())
        uniq = []
        for w in want:
            if w not in uniq:
                uniq.append(w)
        pid = db.backend_id
        others = [x for x in self.cons if not x.gone()]
        n0 = {x.k: len(x.sent()) + len(x.b.pending_notifies) for x in others}

        def go():
            if op['tx'] and (c is None or c.xact is None):
                with db.xact():
                    db.notify(*args, **op['k'])
            else:
                db.notify(*args, **op['k'])
        st, val = client.call(go)
        if st == 'err':
            if c is None or not c.gone():
                self.fail('unexplained-error', 'notify: %s %s' % (val.code, val.message))
            return
        if c is not None:
            self.env.probe('own')
            if c.xact is not None:
                return
        exp = [(ch, p, pid) for ch, p in uniq if ch in CHANNELS]
        for x in others:
            if x.gone():
                continue
            new = (x.sent() + [(ch, p, q) for q, ch, p in x.b.pending_notifies])[n0[x.k]:]
            mine = [tuple(n) for n in new if n[2] == pid]
            if mine != exp:
                self.fail('notify-sent-otherwise', 'notify(%r, %r) sent %r' % (args, op['k'], mine))

    def op_query(self, op):
        c = self.cons[op['c']]
        if c.gone():
            return
        b = c.b
        for j in range(op['with']):
            # in the middle of the reply
            b.inject.setdefault(b.nout + op['at'], []).append(lambda be: wl.send_async(be, ['notify', 'ch', 'mid', 78]))
        if op['with']:
            self.env.probe('during_query')

        def go():
            w = op['what']
            if w == 'sel':
                return c.db.query('SELECT 1')
            if w == 'rows':
                return c.db.query(work.rowsql(G(5, 3)))
            if w == 'bad':
                return c.db.query("SELECT raise('22012', 'x')")
            if w == 'slow':
                return c.db.query('SELECT pg_sleep(1.5)')
            return c.db.execute('')
        st, val = client.call(go)
        if st == 'err' and not c.gone() and val.code not in ('22012', '25P02'):
            self.fail('unexplained-error', val.code, val.message)
        b.inject.clear()
        self.sim.log('op', 'query', st)

    def op_stream(self, op):
        c = self.cons[op['c']]
        if c.gone() or c.b.failed:
            return
        self.env.probe('stream')

        def go():
            if op['k'] == 0 or c.it is None:
                c.it = iter(c.db.prepare('COPY (%s) TO STDOUT' % work.rowsql(G(40, 3))).rows())
            for _ in range(op['k']):
                if next(c.it, None) is None:
                    c.it = None
                    break
        st, val = client.call(go)
        if st == 'err':
            c.it = None
            if not c.gone() and val.code != '25P02':
                self.fail('unexplained-error', val.code, val.message)

    def op_tx(self, op):
        """begin or end a transaction block: a server holds notifications back while one is open"""
        c = self.cons[op['c']]
        if c.gone():
            return
        st, val = client.call(c.db.execute, 'BEGIN' if c.xact is None else 'COMMIT')
        if st == 'ok':
            c.xact = None if c.xact else True
            self.env.probe('in_tx')
        elif not c.gone():
            self.fail('unexplained-error', val.code, val.message)

    def op_sleep(self, op):
        self.sim.sleep_us(int(op['s'] * SEC))

    def op_timeout(self, op):
        if self.env.cfg['single']:
            return
        self.nm.settimeout(op['t'])
        self.round = dict.fromkeys(self.cons, 0)     # a poll begins with the next round
        if self.nm.gettimeout() != op['t']:
            self.fail('wrong-timeout', self.nm.gettimeout())
        self.timeout = op['t']
        self.loose = True
        self.mint = min(self.mint or self.timeout or 0, self.timeout or 0)
        self.env.probe('timeout_changed')

    def op_remove(self, op):
        c = self.cons[op['c']]
        self.nm.connections.discard(c.db)
        self.nm.garbage.discard(c.db)
        self.watched.discard(c)
        self.env.probe('removed')

    def op_add(self, op):
        c = self.cons[op['c']]
        if c.gone():
            return
        self.nm.connections.add(c.db)
        if c not in self.watched:
            self.round[c] = 0
        self.watched.add(c)
        self.env.probe('added')

    def op_newnm(self, op):
        if self.inloop or self.env.cfg['single'] and self.cons[0].gone():
            return
        self.make()

    def op_close(self, op):
        c = self.cons[op['c']]
        if c.gone():
            return
        for j in range(op['with']):
            self.deliver(c, 'ch', 'before close %d' % j)
        must = c.arrived()
        if op['with'] and client.call(c.db.execute, '')[0] == 'ok':
            c.must = must
        st, val = client.call(c.db.close)
        if st == 'err':
            self.fail('close-raised', val)
        c.closed = True
        # what the application never let the driver read is gone with the socket
        self.env.probe('closed_conn')

    def op_lose(self, op):
        c = self.cons[op['c']]
        if c.gone() or c.lost:
            return
        c.lost = True
        self.env.probe('lost_conn')

        def go():
            b = c.b
            if b.closed or b.conn.srv_closed:
                return
            if op['how'] == 'cut':
                b.conn.cut_s2c = {'at': b.conn.s2c_sent + op['at'], 'how': 'eof'}
            for j in range(op['with']):
                self.deliver(c, 'ch', 'before the end %d' % j)
                self.env.probe('lost_with_pending')
            if op['how'] == 'cut':
                return
            b.kill(op['how'])
        if op['in']:
            self.sim.after(op['in'], go)
        else:
            go()


def run(env):
    cfg = env.cfg
    client.reset(env)
    wl.set_chunksize(2)
    server = wl.serve(env)
    on = wl.calm(env)
    db0 = client.connect(env)
    cons = []
    for k in range(cfg['n']):
        db = client.connect(env)
        b = env.backends[-1]
        db.listen(*CHANNELS)
        cons.append(Con(db, b, k))
    on()
    if cfg.get('async'):
        wl.inject(cons[0].b, cfg['async'])
    s = S(env, cons, db0, server)
    env.nontrivial = False
    for op in env.ops:
        env.sim.mark('<' + op['op'] + '>')
        env.sim.log('op', op['op'])
        getattr(s, 'op_' + op['op'])(op)
    # everything that was sent is reported in the end
    for c in cons:
        if c.xact is not None and not c.gone():
            client.call(c.db.execute, 'ROLLBACK')
            c.xact = None
    for c in cons:
        if c.it is not None:
            c.it = None
            client.call(c.db.execute, '')
    env.sim.drain()
    if not cfg['single']:
        s.op_timeout({'t': 0})
        for c in cons:
            if c not in s.watched:
                s.op_add({'c': c.k})
        for r in range(3):
            while s.pull(True):
                pass
            env.sim.drain()
    else:
        n = 0
        while not s.ended and n < 400:
            n += 1
            if s.timeout is None and not cons[0].pending():
                break
            if not s.pull(True) and s.timeout == 0:
                break
            if s.timeout and not cons[0].pending() and not cons[0].gone():
                break
        if s.timeout == 0 and not cons[0].gone():
            s.make()
            while s.pull(True):
                pass
    for c in cons:
        if c.b.conn.send_failed or c not in s.watched or s.ended and not cfg['single'] or s.ended and s.timeout == 0:
            continue
        if c.gone():
            if len(c.got) < c.arrived():
                s.fail('notification-lost', 'connection %d was lost; %d of the %d notifications that had arrived are reported' % (c.k, len(c.got), c.arrived()))
            if not cfg['single'] and (c.db in s.nm.connections or c.db not in s.nm.garbage):
                s.fail('failed-connection-kept', 'connection %d' % c.k)
        elif len(c.got) != len(c.sent()):
            s.fail('notification-lost', 'connection %d: %d of %d notifications are reported' % (c.k, len(c.got), len(c.sent())))
    env.nontrivial = s.events >= 2
    for c in cons:
        if not c.gone() and not c.lost:
            st, val = client.call(c.db.query.first, 'SELECT 1')
            if st == 'err' or val != 1:
                s.fail('connection-unusable', c.k, val)
