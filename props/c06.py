"""C06: transaction blocks commit exactly what ran and roll back on failure."""
from sim.core import *
from sim import client, wl
from sim.work import Session

PROP = 'C06'
RULE = ('one evaluation = one seeded program of nested transaction blocks with writes, reads, streams, server errors (in statements, at '
        'COMMIT, RELEASE and START) and application exceptions, optionally with the connection cut; distinct non-trivial = distinct '
        'sequences of operations and replies among runs in which at least one block ended by an error or contained a write')
RUNS = {'quick': 40000, 'thorough': 500000}
REAL = ['postgresql.driver.pq3 (Transaction, Connection, Statement)', 'postgresql.protocol.*', 'postgresql.python.socket']
STUB = ['server (simulated backend with an operation-log transaction model)', 'socket, clock (simulated)']
ASSUMPTIONS = ['only subclasses of Exception leave a block; blocks are properly nested']
PROBES = ['commit_error', 'release_error', 'nested', 'app_error', 'cut', 'committed', 'rolled_back', 'x_start', 'x_commit', 'x_rollback', 'x_again', 'x_refused']


def body(g, rng, depth):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        x = rng.random()
        if x < 0.25 and depth < 4:
            out.append(block(g, rng, depth + 1))
        elif x < 0.30:
            out.append(g.raise_())
        else:
            out.append(g.mixed({'put': 10, 'q': 3, 'copyin': 2, 'load': 1, 'open': 2, 'stream': 3, 'copyout': 1, 'say': 1}))
    return out


def block(g, rng, depth):
    b = {'op': 'block', 'end': rng.choice(['ok', 'ok', 'ok', 'propagate', 'propagate', 'raise']), 'body': body(g, rng, depth)}
    if rng.random() < 0.15:
        if rng.random() < 0.5:
            b['isolation'] = rng.choice(['SERIALIZABLE', 'REPEATABLE READ'])
            if rng.random() < 0.4:
                b['mode'] = rng.choice(['READ ONLY', 'READ WRITE'])
        else:
            b['mode'] = 'READ ONLY' if rng.random() < 0.5 else 'READ WRITE'
    return b


def objects(g, rng):
    """explicit use of transaction objects, in any order"""
    ops = []
    n = 0
    for _ in range(rng.randrange(4, 22)):
        x = rng.random()
        if n == 0 or x < 0.22:
            ops.append({'op': 'xnew'})
            if rng.random() < 0.2:
                ops[-1]['isolation'] = rng.choice(['SERIALIZABLE', 'read committed', 'REPEATABLE READ'])
            if rng.random() < 0.2:
                ops[-1]['mode'] = rng.choice(['READ ONLY', 'read write'])
            if rng.random() < 0.8:
                ops.append({'op': 'xcall', 'i': n, 'm': 'start'})
            n += 1
        elif x < 0.6:
            # the youngest more often than others
            i = n - 1 - min(n - 1, int(rng.expovariate(0.9)))
            m = rng.choice(['start', 'commit', 'commit', 'rollback', 'rollback', 'begin', 'abort', 'with'])
            for _ in range(rng.choice([1, 1, 1, 2])):
                ops.append({'op': 'xcall', 'i': i, 'm': m})
        elif x < 0.64:
            ops.append({'op': 'xraw', 'sql': rng.choice(['COMMIT', 'ROLLBACK', 'BEGIN', 'reset'])})
        elif x < 0.70:
            ops.append(g.raise_())
        elif x < 0.74:
            ops.append(block(g, rng, 3))
        else:
            ops.append(g.mixed({'put': 10, 'q': 2, 'copyin': 2, 'open': 2, 'stream': 2}))
    return ops


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES)
    g = wl.Gen(rng, chunk)
    ops = []
    if rng.random() < 0.3:
        ops = objects(g, rng)
    for _ in range(0 if ops else rng.randrange(1, 5)):
        ops.append(block(g, rng, 0))
        if rng.random() < 0.4:
            ops.append(g.mixed({'put': 2, 'q': 1, 'raise': 1}))
    cfg = {'chunk': chunk}
    if rng.random() < 0.3:
        cfg['commit_error'] = [rng.randrange(3), rng.choice(['23503', '40001', '53100', '57014', 'P0001'])]
    if rng.random() < 0.2:
        cfg['release_error'] = [rng.randrange(3), rng.choice(['40001', '53100', 'XX000'])]
    if rng.random() < 0.3:
        cfg['err_at'] = [[rng.randrange(0, 60), rng.choice(['40001', '53200', '57014'])]]
    if rng.random() < 0.15:
        cfg['cut'] = {'dir': rng.choice(['s2c', 'c2s']), 'at': rng.randrange(0, 3000), 'how': rng.choice(['eof', 'reset', 'epipe'])}
    return {'ops': ops, 'policy': wl.policy(rng, again=rng.choice([0, 0, 0, 40])), 'cfg': cfg}


class Objects(Session):
    """a session that also uses transaction objects"""
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.xs = []
        self.ms = []
        self.seen = set()

    def op_xnew(self, op):
        kw = {k: op[k] for k in ('isolation', 'mode') if op.get(k)}
        self.xs.append(self.db.xact(**kw))
        self.ms.append({'st': 'new', 'kind': None, 'kw': kw})
        if self.lost():
            return
        self.sync_check('xact()')

    def op_xraw(self, op):
        sql = op['sql']
        was = self.b.xtx
        st, val = client.call(self.db.reset) if sql == 'reset' else client.call(self.db.execute, sql)
        if self.after(sql, st, val) and not self.lost():
            if sql == 'reset' and self.b.tx is not None:
                self.fail('transaction-left-open', 'after reset()')

    def op_xcall(self, op):
        if not self.xs:
            return
        i = op['i'] % len(self.xs)
        x, m, name = self.xs[i], self.ms[i], op['m']
        if name == 'with':
            return self.x_with(i, x, m)
        self.x_do(i, m, name, getattr(x, name))

    def x_with(self, i, x, m):
        def go():
            with x:
                m['in'] = True
        m['in'] = False
        pre = self.pre(m)
        st, val = client.call(go)
        if m['in'] and pre[0] == 'new':
            # as if it had been started by itself
            m['st'] = 'open'
            m['kind'] = None
        what = 'with transaction %d (%s)' % (i, pre[0])
        left = [x[0] for k, x in enumerate(self.b.errors_sent) if k not in self.claimed_set]
        if st == 'err' and not (self.lossy and self.lost()) and (val.code == '25P02' or val.code in left):
            # the exit raises one of them: for what was swallowed, or what failed last
            self.sync_after_source(what)
            self.sync_check(what)
            ok = False
        else:
            ok = self.after(what, st, val, client_err=('--OPE',))
        if self.lossy and self.lost() or self.dead:
            return
        self.sim.count('x_with')
        if pre[0] in ('committed', 'aborted'):
            if ok or val.code != '--OPE':
                self.fail('restarted', what)
            return
        if m['in']:
            m['st'] = 'committed' if ok else 'over'
            if ok and pre[1] is not None and m['kind'] == 'block' and pre[1].ended is None:
                self.fail('transaction-left-open', what)

    def pre(self, m):
        t = self.b.xtx
        return m['st'], t, len(t.saves) if t is not None else 0, self.snapshot(), self.b.failed, self.busy()

    def x_do(self, i, m, name, f):
        env, b = self.env, self.b
        name = {'begin': 'start', 'abort': 'rollback'}.get(name, name)
        pre = state, tx, nsave, before, failed, busy = self.pre(m)
        nin = b.nin
        what = '%s() of transaction %d (%s, %s)' % (name, i, state, m['kind'])
        st, val = client.call(f)
        if st == 'ok' and state in ('over', {'start': 'open', 'commit': 'committed', 'rollback': 'aborted'}[name]) and (self.dead or self.lossy and self.lost()):
            return
        if state == 'over':
            self.after(what, st, val, client_err=('--OPE',))
            return
        ok = self.after(what, st, val, client_err=('--OPE',))
        if self.lossy and self.lost() or self.dead:
            m['st'] = 'over'
            return
        env.probe('x_' + name)
        refused = st == 'err' and val.code == '--OPE'
        quiet = {'start': 'open', 'commit': 'committed', 'rollback': 'aborted'}[name]
        illegal = {'start': ('committed', 'aborted'), 'commit': ('new', 'aborted'), 'rollback': ('new', 'committed')}[name]
        if state == quiet:
            if not ok:
                self.fail('not-idempotent', '%s raised %s' % (what, val.code))
            if b.nin != nin:
                self.fail('not-idempotent', '%s sent something' % what)
            env.probe('x_again')
            return
        if state in illegal:
            if not refused:
                self.fail('not-refused', '%s gave %r' % (what, val))
            if b.nin != nin:
                self.fail('not-refused', '%s sent something' % what)
            env.probe('x_refused')
            return
        if name == 'start':
            intx = tx is not None
            if refused:
                if not (intx and m['kw']):
                    self.fail('refused', '%s: %s' % (what, val.message))
                if b.nin != nin:
                    self.fail('not-refused', '%s sent something' % what)
                return
            if not ok:
                if (b.xtx is not None) != intx or b.xtx is not None and len(b.xtx.saves) != nsave:
                    self.fail('transaction-left-open', '%s raised %s' % (what, val.code))
                return
            m['st'] = 'open'
            if not intx:
                if b.xtx is None:
                    self.fail('no-transaction', what)
                m['kind'] = 'block'
                m['tx'] = b.xtx
                self.check_modes(what, m['kw'])
            else:
                if m['kw']:
                    self.fail('not-refused', '%s inside a transaction block, although it was configured' % what)
                if b.xtx is not tx or len(tx.saves) != nsave + 1:
                    self.fail('no-savepoint', what)
                m['kind'] = 'savepoint'
                m['tx'] = tx
                m['save'] = tx.saves[-1]
                m['before'] = self.snapshot()
            return
        if refused:
            self.fail('refused', '%s: %s' % (what, val.message))
        live = tx is not None and m.get('tx') is tx
        if m['kind'] == 'block':
            if not ok:
                if not busy and name == 'commit' and live and b.xtx is not None and not b.failed and not failed:
                    self.fail('transaction-left-open', '%s raised %s' % (what, val.code))
                return
            m['st'] = 'committed' if name == 'commit' else 'aborted'
            if b.xtx is not None:
                self.fail('transaction-left-open', what)
            if not live:
                return
            self.sim.count('x_block_' + name)
            if name == 'rollback':
                if tx.ended != 'rollback':
                    self.fail('not-rolled-back', what)
            elif not failed and not busy:
                if tx.ended != 'commit' or self.snapshot() != before:
                    self.fail('commit-not-done', what)
            elif tx.ended == 'commit' and failed:
                raise HarnessError('a failed transaction was committed')
        elif m['kind'] == 'savepoint':
            mine = live and any(s is m['save'] for s in tx.saves) or b.xtx is not None and any(s is m['save'] for s in b.xtx.saves)
            if not ok:
                return
            m['st'] = 'committed' if name == 'commit' else 'aborted'
            if mine or b.xtx is not tx:
                self.fail('savepoint-left', '%s: the savepoint is still there' % what)
            if not live or m.get('gone') or id(m['save']) not in self.seen:
                self.fail('wrong-savepoint', '%s although its savepoint was gone before' % what)
            self.sim.count('x_savepoint_' + name)
            if name == 'rollback':
                if self.snapshot() != m['before'] or b.failed:
                    self.fail('not-rolled-back', '%s: %s' % (what, 'the transaction is still failed' if b.failed else 'the effects are not those before it'))
            elif not busy and self.snapshot() != before:
                self.fail('wrong-effects', '%s changed something' % what)

    def do(self, op):
        # the savepoints there are before the operation
        t = self.b.xtx
        self.seen = {id(s) for s in t.saves} if t is not None else set()
        return super().do(op)


def run(env):
    cfg = env.cfg
    o = {}
    for k in ('commit_error', 'release_error'):
        if cfg.get(k):
            o[k] = list(cfg[k])
    s = wl.session(env, o, lossy=bool(cfg.get('cut')), cls=Objects)
    for k, code in cfg.get('err_at', ()):
        s.b.err_at[s.b.nin + k] = (code, 'injected at %d' % k)
    if cfg.get('cut'):
        wl.cut(s, cfg['cut'])
    s.run(env.ops)
    st = env.sim.stats
    for n in ('commit', 'release'):
        if st.get('srv_error_at_' + n):
            env.probe(n + '_error')
    if s.server.commit_log:
        env.probe('committed')
    if s.lost():
        env.probe('cut')
    for t in s.transcript:
        if t[0] == 'block end':
            env.probe({'boom': 'app_error', 'err': 'rolled_back'}.get(t[1], 'left'))
        if t[0] == 'block':
            env.probe('nested')
    s.finish()
    env.nontrivial = bool(s.server.commit_log) or s.nerr > 0
