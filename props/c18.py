"""C18: interrupting a query cancels that session only."""
from sim.core import *
from sim import client, wl, pgserver, work
from sim.work import Session

PROP = 'C18'
RULE = ('one evaluation = one seeded run of two to four sessions (on one server, or on two servers that gave out the same process ids and keys) with '
        'concurrent interrupts of one of them, before, during and after its queries, the cancel connections meeting refusals, hangs, descriptor '
        'exhaustion and resets at any byte, or signal handlers raising inside the driver\'s socket calls; distinct non-trivial = distinct sequences of '
        'operations, task switches, replies and reads among runs in which a cancel request reached a busy session, a cancel connection failed, or a signal struck')
RUNS = {'quick': 12000, 'thorough': 250000}
REAL = ['postgresql.driver.pq3 (Connection.interrupt, statements, streams)', 'postgresql.protocol.* (C and Python buffer)', 'postgresql.python.socket']
STUB = ['servers (simulated backends)', 'socket, clock, thread scheduling (simulated)']
ASSUMPTIONS = ['one thread uses a connection at a time, except for interrupt()',
               'a stream whose step was abandoned by an exception from a signal handler is not resumed']
PROBES = ['cancelled', 'too_late', 'in_block', 'connect_failed', 'cut', 'emfile', 'timeout', 'two_servers', 'other_waiting', 'signal', 'signal_in_tx', 'inline', 'concurrent']
VARIANTS = ('c', 'py')
KEYS = (None, 0, 1, 0x7fffffff, 0x80000000, 0xffffffff)


class Stop(KeyboardInterrupt):
    """what the application's signal handler raises"""


def sleepop(rng):
    return {'op': 'sleep', 'ms': rng.choice([1, 20, 200, 3000, 60000]), 'how': rng.choice(['query', 'stmt', 'ex'])}


def others(rng, g):
    ops = []
    for _ in range(rng.randrange(1, 9)):
        ops.append(g.mixed({'q': 4, 'open': 3, 'stream': 5}) if rng.random() < 0.75 else {'op': 'sleep', 'ms': rng.choice([1, 20, 200]), 'how': 'query'})
    return ops


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES)
    mode = rng.choices(['tasks', 'signal'], [3, 2])[0]
    g = wl.Gen(rng, chunk)
    ops = []
    w = {'q': 4, 'open': 3, 'stream': 6, 'put': 3, 'copyin': 2, 'copyout': 2, 'tx': 1, 'raise': 0.5, 'gc': 0.5, 'load': 1}
    if mode == 'signal':
        w = {'q': 4, 'open': 4, 'stream': 6, 'put': 3, 'copyout': 2, 'tx': 1.5, 'gc': 0.5}
    n = rng.randrange(2, 12)
    while len(ops) < n:
        x = rng.random()
        if x < 0.3:
            ops.append(sleepop(rng))
        elif x < 0.42 and mode == 'tasks':
            body = [sleepop(rng) if rng.random() < 0.5 else g.mixed({'q': 2, 'put': 4, 'copyin': 1, 'stream': 1}) for _ in range(rng.randrange(1, 4))]
            ops.append({'op': 'block', 'end': rng.choice(['ok', 'ok', 'raise', 'propagate']), 'body': body})
        elif x < 0.55:
            ops.append({'op': 'int', 'timeout': rng.choice([None, 1, 5])})
        else:
            ops.append(g.mixed(w))
    cfg = {'chunk': chunk, 'mode': mode, 'two': rng.random() < 0.35, 'key': rng.choice(KEYS), 'fails': [], 'cuts': []}
    if rng.random() < 0.25:
        cfg['copy_lag'] = rng.choice([100, 3000, 60000])
    if rng.random() < 0.3:
        cfg['pid0'] = rng.choice([1, 4194303, 2**31 - 200])
    cfg['others'] = [others(rng, wl.Gen(rng, chunk)) for _ in range(rng.choice([0, 1, 1, 2]))]
    cfg['ints'] = []
    if mode == 'tasks':
        for _ in range(rng.choice([1, 1, 2, 3])):
            cfg['ints'].append([[rng.choice([0, 100, 1000, 5000, 30000, 300000, rng.randrange(0, 4000000)]), rng.choice([None, None, 1, 5]), rng.random() < 0.5] for _ in range(rng.randrange(1, 6))])
    else:
        cfg['sig'] = {}
        for k in range(len(ops)):
            if ops[k]['op'] not in ('int', 'gc') and rng.random() < 0.4:
                # microseconds, or 'n': at the n-th socket call from now
                cfg['sig'][str(k)] = [rng.choice([0, 1, 300, 2000, 10000, rng.randrange(0, 30000)]), rng.random() < 0.5]
    if rng.random() < 0.5:
        for _ in range(rng.randrange(1, 5)):
            cfg['fails'].append(rng.choice(['ok', 'slow', 'refused', 'unreach', 'etimedout', 'hang']))
    if rng.random() < 0.25:
        cfg['emfile'] = rng.sample(range(8), rng.randrange(1, 3))
    if rng.random() < 0.35:
        cfg['cuts'] = [rng.choice([-1, 0, 3, 4, 8, 15, rng.randrange(16)]) for _ in range(rng.randrange(1, 5))]
        cfg['cuthow'] = rng.choice(['reset', 'epipe'])
    return {'ops': ops, 'policy': wl.policy(rng, delay=rng.choice([0, 200, 5000, 40000])), 'cfg': cfg}


class S(Session):
    def op_sleep(self, op):
        sql = 'SELECT pg_sleep(%d)' % op['ms']
        t0 = self.sim.now
        n0 = len(self.b.errors_sent)

        def go():
            if op['how'] == 'query':
                return self.db.query.first(sql)
            if op['how'] == 'stmt':
                return self.db.prepare(sql).first()
            return self.db.execute(sql)
        st, val = client.call(go)
        if self.after(sql, st, val):
            if self.sim.now - t0 < op['ms'] * 1000:
                self.fail('early-result', '%s returned after %d us' % (sql, self.sim.now - t0))
        self.note('sleep', op['ms'], st if st == 'ok' else val.code)

    def op_int(self, op):
        self.world.interrupt(op.get('timeout'))


class World:
    def __init__(self, env):
        self.env = env
        self.sim = env.sim; self.net = env.net
        self.victim = None
        self.active = 0
        self.good = 0
        self.others = []         # the sockets of the sessions
        self.mine = {}           # task -> socket of its interrupt

    def connected(self, addr, sock):
        self.mine[self.sim.current] = sock

    def fail(self, kind, detail):
        raise Violation(kind, detail)

    def stray(self):
        return [s for s in self.net.open_sockets() if s not in self.others]

    def interrupt(self, timeout):
        env, sim = self.env, self.sim
        who = sim.current
        t0 = sim.now
        em = self.net.emfile_hit
        self.mine[who] = None
        self.active += 1
        if self.active > 1:
            env.probe('concurrent')
        sim.mark('<int>')
        sim.log('interrupt', timeout)
        e = None
        try:
            self.victim.db.interrupt(timeout=timeout)
        except OSError as x:
            e = x
        except Exception as x:
            if not client.pgerror(x):
                raise
            e = x
        self.active -= 1
        sock = self.mine.get(who)
        if len(self.stray()) > self.active:
            self.fail('socket-leak', 'the socket used for the interrupt is still open (%s)' % (e or 'it succeeded',))
        took = sim.now - t0
        if sock is not None and sock.outcome in ('hang', 'slow') and timeout is not None and took > timeout * SEC + 2 * SEC and not sim.multi:
            self.fail('timeout-ignored', 'interrupt(timeout=%r) took %d us' % (timeout, took))
        if sock is None and e is None:
            self.fail('no-cancel-request', 'interrupt() returned without having contacted the server')
        if e is None:
            if sock.outcome not in ('ok', 'slow'):
                self.fail('failure-hidden', 'interrupt() returned although its connection failed (%s)' % sock.outcome)
            if sock.conn.lost:
                self.fail('failure-hidden', 'interrupt() returned although its connection broke')
            self.good += 1
        else:
            env.nontrivial = True
            if sock is None:
                if self.net.emfile_hit == em:
                    self.fail('unexpected-error', 'interrupt() raised %r without a fault' % (e,))
                env.probe('emfile')
            elif sock.outcome not in ('ok', 'slow'):
                env.probe('timeout' if sock.outcome == 'hang' else 'connect_failed')
            elif sock.conn is not None and sock.conn.lost:
                env.probe('cut')
            elif not (isinstance(e, OSError) and self.net.policy.again and e.errno in self.net.policy.errnos):
                self.fail('unexpected-error', 'interrupt() raised %r without a fault' % (e,))
        e = None


def run(env):
    cfg, sim, net = env.cfg, env.sim, env.net
    client.reset(env, 300)
    wl.set_chunksize(cfg.get('chunk'))
    calm = wl.calm(env)
    w = World(env)
    opts = {}
    if cfg.get('key') is not None:
        opts['key'] = cfg['key']
    if cfg.get('copy_lag'):
        opts['copy_lag'] = cfg['copy_lag']
    if cfg.get('pid0'):
        opts['pid0'] = cfg['pid0']
    st = {'sessions': True, 'n': 0}

    def accept(conn):
        if st['sessions']:
            return None
        k = st['n']
        st['n'] += 1
        cuts = cfg['cuts']
        if k < len(cuts) and cuts[k] >= 0:
            conn.cut_c2s = {'at': cuts[k], 'how': cfg['cuthow']}
        return None
    A1, A2 = client.ADDR, ('10.0.0.2', 5432)
    servers = [wl.serve(env, opts, A1, per_conn=accept)]
    sessions = []

    def session(db, b, name):
        s = S(env, db, b)
        s.world = w
        s.name = name
        w.others.append(b.conn.sock)
        sessions.append(s)
        return s
    if cfg['two']:
        # the other server: the first candidate refuses the victim, then comes up
        env.probe('two_servers')
        servers.append(wl.serve(env, opts, A2, per_conn=accept))
        net.names['db'] = [A1[0], A2[0]]
        net.connect_plan[A1] = ['refused']
        db = client.connect(env, host='db')
        victim = session(db, env.backends[-1], 'A')
        if env.backends[-1].db is not servers[1]:
            raise HarnessError('victim on the wrong server')
    else:
        db = client.connect(env)
        victim = session(db, env.backends[-1], 'A')
    w.victim = victim
    for k in range(len(cfg['others'])):
        db = client.connect(env)
        session(db, env.backends[-1], 'BCD'[k])
    st['sessions'] = False
    net.on_connect = w.connected
    for a in (A1, A2):
        net.connect_plan[a] = list(cfg['fails'])
    if cfg.get('emfile'):
        net.emfile = {net.nsock + k for k in cfg['emfile']}
    calm()
    env.nontrivial = False
    fns = []
    if cfg['mode'] == 'tasks':
        def main():
            victim.run(env.ops)
            victim.over = True
        victim.over = False
        fns.append(('A', main))
        for k, l in enumerate(cfg['ints']):
            def interrupter(l=l):
                for us, timeout, aim in l:
                    if aim:
                        sim.block(lambda: victim.b.waiting is not None or victim.over, 10 * SEC, 'aim')
                    sim.block(lambda: False, us, 'pause')
                    if victim.b.waiting or victim.db.state == 'busy':
                        env.nontrivial = True
                    if victim.b.waiting and victim.b.xtx is not None:
                        env.probe('in_block')
                    if victim.b.waiting and any(x.b.waiting for x in sessions[1:]):
                        env.probe('other_waiting')
                    w.interrupt(timeout)
            fns.append(('I%d' % k, interrupter))
    else:
        fns.append(('A', lambda: signalled(env, w, victim)))
    for s, ops in zip(sessions[1:], cfg['others']):
        fns.append((s.name, lambda s=s, ops=ops: s.run(ops)))
    if any(o['op'] == 'int' for o in env.ops):
        env.probe('inline')
    tasks = sim.run_tasks(fns)
    for t in tasks:
        if t.exc is not None and not isinstance(t.exc, SimAbort):
            raise t.exc
    if sim.aborted is not None:
        raise sim.aborted
    if w.stray():
        raise Violation('socket-leak', '%d sockets besides those of the sessions' % len(w.stray()))
    # all requests have arrived
    sim.block(lambda: False, 10 * SEC, 'settle')
    got = [c for d in servers for c in d.cancels]
    own = victim.b.db.cancels
    for d in servers:
        for pid, key, ok, cid in d.cancels:
            if d is not victim.b.db:
                raise Violation('wrong-server', 'a cancel request for session %d went to another server' % victim.b.pid)
            if (pid, key) != (victim.b.pid, victim.b.key) or not ok:
                raise Violation('wrong-session', 'cancel request for pid %d key %d instead of %d %d' % (pid, key, victim.b.pid, victim.b.key))
    if len(got) != w.good:
        raise Violation('cancel-lost', '%d cancel requests arrived, %d interrupts succeeded' % (len(got), w.good))
    for s in sessions:
        cancelled = [x for x in s.b.errors_sent if x[0] == '57014' and 'user request' in x[1]]
        if cancelled:
            if s is not victim:
                raise Violation('other-session-cancelled', s.name)
            env.probe('cancelled')
            env.nontrivial = True
    if w.good and victim.b.sim.stats.get('query_cancelled', 0) < w.good:
        env.probe('too_late')
    # every session is usable
    net.policy = type(net.policy)()
    for s in sessions:
        s.finish()
        if s.db.closed:
            raise Violation('closed', 'session %s is closed' % s.name)
        s.db.close()
    if net.open_sockets():
        raise Violation('socket-leak', 'after closing every session')


def signalled(env, w, s):
    """a signal handler raises inside the socket calls of some operations"""
    sim, cfg = env.sim, env.cfg
    for k, op in enumerate(env.ops):
        sig = cfg['sig'].get(str(k))
        c = s.b.conn
        if sig is None:
            s.do(op)
            continue
        e = Stop('signal')

        live = [c]

        def strike(live=live, e=e):
            for c in live:
                c.signal = e
        if sig[0] == 0:
            c.signal = e
        else:
            sim.after(sig[0], strike)
        hit = False
        intx = s.b.xtx is not None
        try:
            s.do(op)
        except Stop as x:
            hit = True
            x.__traceback__ = None
        # a signal that comes later does not strike (the handler was removed)
        c.signal = None
        del live[:]
        if not hit:
            continue
        env.nontrivial = True
        env.probe('signal_in_tx' if intx else 'signal')
        if op['op'] in ('step', 'drain', 'close', 'open'):
            s.slots.pop(op['s'], None)
        if sig[1]:
            w.interrupt(5)
        resync(s, op)


def resync(s, op):
    """the next operation may report what became of the abandoned one; the one after that is clean"""
    what = 'the operation after one abandoned by a signal (%s)' % op['op']
    st, val = client.call(lambda: s.db.query.first('SELECT 1'))
    if s.db.closed:
        s.fail('closed', '%s: the connection is closed: %r' % (what, val))
    if st == 'err':
        sent = [(x[0], x[1]) for x in s.b.errors_sent]
        if (val.code, val.message) not in sent:
            s.fail('unexplained-error', '%s raised %s %r, which the server never sent' % (what, val.code, val.message))
    elif val != 1:
        s.fail('wrong-row', '%s: SELECT 1 returned %r' % (what, val))
    s.sync_after_source(what)
    if s.b.failed:
        st, val = client.call(s.db.execute, 'ROLLBACK')
        if st == 'err':
            s.fail('unusable', '%s: ROLLBACK raised %s %r' % (what, val.code, val.message))
    for _ in range(2):
        st, val = client.call(lambda: s.db.query.first('SELECT 1'))
        if st == 'err':
            if s.claim(val) is not None and val.code == '57014':
                continue        # a cancel request that was still on its way
            s.fail('unusable', '%s: SELECT 1 raised %s %r' % (what, val.code, val.message))
        if val != 1:
            s.fail('wrong-row', '%s: SELECT 1 returned %r' % (what, val))
    s.sync_check(what)


def simplify(plan):
    import copy
    c = plan['cfg']
    for k in ('fails', 'cuts', 'others', 'ints'):
        for j in range(len(c.get(k, ()))):
            p = copy.deepcopy(plan); del p['cfg'][k][j]
            yield p
    for k, j in [(k, j) for k, l in enumerate(c.get('ints', ())) for j in range(len(l))]:
        p = copy.deepcopy(plan); del p['cfg']['ints'][k][j]
        yield p
    for j, l in enumerate(c.get('others', ())):
        for i in range(len(l)):
            p = copy.deepcopy(plan); del p['cfg']['others'][j][i]
            yield p
    for k in ('emfile', 'key', 'pid0', 'copy_lag'):
        if c.get(k):
            p = copy.deepcopy(plan); p['cfg'].pop(k)
            yield p
    for k in list(c.get('sig', {})):
        p = copy.deepcopy(plan); del p['cfg']['sig'][k]
        yield p
