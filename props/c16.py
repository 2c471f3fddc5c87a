"""C16: discarded statements and cursors are closed, live ones never are."""
import gc, weakref
from sim.core import *
from sim import client, wl, pgserver, work
from sim.work import Session, rowsql, parms, G, genall

PROP = 'C16'
RULE = ('one evaluation = one seeded session creating, using, cloning, closing and dropping statements, cursors and streams (some of them only reachable '
        'through reference cycles) in any order, with the collector run at seeded instants inside socket calls and object identifiers reused at once, '
        'asynchronous messages and server errors in between; distinct non-trivial = distinct sequences of operations, replies and reads among runs in '
        'which the driver closed at least one object on the server')
RUNS = {'quick': 18000, 'thorough': 300000}
REAL = ['postgresql.driver.pq3 (statements, cursors, streams, generated identifiers)', 'postgresql.protocol.* (garbage handling)', 'CPython reference counting and collector']
STUB = ['server (simulated backend)', 'socket, clock (simulated)', 'id() (a stand-in that reuses numbers as CPython may, under the seed)']
ASSUMPTIONS = ['one thread uses a connection at a time', 'a statement with an identifier chosen by the application is closed by the application',
               'the server does not fail at closing a statement or portal']
PROBES = ['auto_closed', 'closed', 'cycle', 'gc_inside', 'reused_id', 'clone', 'own_id', 'held', 'in_tx', 'error', 'async', 'use_after_others']
VARIANTS = ('c', 'py')


IDS = ('a', 'b', 'quoted "x"', 'c d')


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES)
    g = wl.Gen(rng, chunk)
    ops = []
    for _ in range(rng.randrange(5, 40)):
        x = rng.random()
        k = rng.randrange(6)
        if x < 0.2:
            op = {'op': 'prep', 'k': k, 'g': g.g(err=0.08, notice=0.05)}
            if rng.random() < 0.3:
                op['par'] = 1
            if rng.random() < 0.12:
                op['id'] = rng.choice(IDS)
            ops.append(op)
        elif x < 0.4:
            ops.append({'op': 'use', 'k': k, 'how': rng.choice(['call', 'rows', 'chunks', 'first', 'column', 'declare', 'cols'])})
        elif x < 0.48:
            ops.append({'op': 'start', 'k': k, 's': rng.randrange(4), 'how': rng.choice(['rows', 'chunks', 'column', 'declare'])})
        elif x < 0.56:
            ops.append({'op': rng.choice(['discard', 'discard', 'cycle', 'closest']), 'k': k})
        elif x < 0.6:
            ops.append({'op': 'clone', 'k': k, 'to': rng.randrange(6)})
        elif x < 0.66:
            ops.append(g.open(hows=('rows', 'chunks', 'column', 'declare', 'copy', 'copychunks')))
        elif x < 0.76:
            ops.append(g.stream())
        elif x < 0.79:
            ops.append({'op': 'cyclestream', 's': rng.randrange(4)})
        elif x < 0.85:
            ops.append({'op': 'audit'})
        elif x < 0.88:
            ops.append({'op': 'badprep', 'text': 't%d' % rng.randrange(9), 'keep': rng.random() < 0.5})
        else:
            ops.append(g.mixed({'q': 3, 'put': 2, 'tx': 3, 'gc': 2, 'raise': 2, 'say': 1, 'copyout': 1}))
    cfg = {'chunk': chunk, 'gc': rng.choice([0, 20, 100, 400]), 'reuse': rng.choice([0, 500, 1000])}
    if rng.random() < 0.4:
        cfg['async'] = wl.asyncs(rng, rng.choice([20, 100, 300]), 12, kinds=('notice', 'notice', 'status'))
    return {'ops': ops, 'policy': wl.policy(rng), 'cfg': cfg}


class St:
    """a prepared statement the application holds"""
    def __init__(self, obj, op, sid, sql):
        self.obj = obj; self.op = op; self.sid = sid; self.sql = sql
        self.closed = False
        self.own = bool(op.get('id'))


class S(Session):
    def setup(self):
        self.held = {}          # slot -> St
        self.refs = []          # (weak reference, identifier) of every generated-id statement the workload made
        self.cyc = []
        self.owned = {}         # identifiers chosen by the application -> St

    def track(self, obj):
        self.refs.append((weakref.ref(obj), obj.statement_id))

    def stmt(self, op):
        s, a = super().stmt(op)
        if not any(r() is s for r, _ in self.refs):
            self.track(s)
        return s, a

    def op_prep(self, op):
        g = op['g']; par = bool(op.get('par'))
        sql = rowsql(g, par)
        own = op.get('id')
        self.held.pop(op['k'], None)
        if own and own in self.owned:
            # replaced by the application
            old = self.owned.pop(own)
            old.closed = True
            for k in [k for k, h in self.held.items() if h is old]:
                del self.held[k]

        def go():
            if own:
                return self.db.prepare(sql, statement_id=own)
            return self.db.prepare(sql)
        st, val = client.call(go)
        if not self.after('prepare', st, val):
            self.note('prep', val.code)
            return
        x = St(val, op, val.statement_id, sql)
        if own:
            self.env.probe('own_id')
            self.owned[own] = x
            if val.statement_id != own:
                self.fail('wrong-id', '%r instead of %r' % (val.statement_id, own))
        else:
            for h in self.held.values():
                if h.sid == x.sid and not h.closed:
                    self.fail('identifier-reused', 'a new statement got the identifier %s of a live one' % x.sid)
            self.track(val)
        self.held[op['k']] = x
        self.live_check('prepare')
        self.note('prep', op['k'])

    def op_clone(self, op):
        h = self.held.get(op['k'])
        if h is None or h.closed:
            return
        st, val = client.call(h.obj.clone)
        self.note('clone', st)
        if not self.after('clone', st, val):
            return
        self.env.probe('clone')
        x = St(val, {k: v for k, v in h.op.items() if k != 'id'}, val.statement_id, h.sql)
        self.track(val)
        if x.sid == h.sid:
            self.fail('identifier-reused', 'a clone has the identifier of the original')
        self.held[op['to']] = x
        self.live_check('clone')

    def op_use(self, op):
        h = self.held.get(op['k'])
        if h is None or h.closed:
            return
        g = h.op['g']; a = parms(g) if h.op.get('par') else ()
        how = op['how']
        s = h.obj
        what = 'use/%s/%s' % (how, g)
        want = genall(g)
        errs = 0 <= g[3] < g[0]

        def go():
            if how == 'call':
                return s(*a)
            if how == 'rows':
                return list(s.rows(*a))
            if how == 'chunks':
                return [r for c in s.chunks(*a) for r in c]
            if how == 'first':
                return [s.first(*a)]
            if how == 'column':
                return list(s.column(*a))
            if how == 'declare':
                return s.declare(*a).read()
            return s.column_names
        st, val = client.call(go)
        self.note('use', how, st if st == 'ok' else val.code)
        if not self.after(what, st, val):
            return
        self.env.probe('use_after_others')
        one = len(work.names(g[2])) == 1
        if how == 'cols':
            if list(val) != work.names(g[2]):
                self.fail('wrong-columns', '%s: %r' % (what, val))
            return
        if errs:
            self.fail('error-became-result', what)
        if how == 'first':
            w = (want[0] if want else None)
            got = val[0]
            if (tuple(got) if got is not None and not one else got) != (w[0] if one and w is not None else w):
                self.fail('wrong-row', '%s: %r instead of %r' % (what, got, w))
        elif how == 'column':
            if val != [r[0] for r in want]:
                self.fail('wrong-row', '%s: %s' % (what, self.diff(val, [r[0] for r in want])))
        else:
            self.same_rows(what, val, want)

    def op_start(self, op):
        """a stream or cursor of a held statement"""
        h = self.held.get(op['k'])
        if h is None or h.closed:
            return
        if op['s'] in self.slots:
            self.op_drop({'s': op['s']})
        g = h.op['g']; a = parms(g) if h.op.get('par') else ()
        how = op['how']; s = h.obj
        st, val = client.call(lambda: s.declare(*a) if how == 'declare' else iter(getattr(s, how)(*a)))
        self.note('start', how, g, st if st == 'ok' else val.code)
        if not self.after('start/%s/%s' % (how, g), st, val):
            return
        want = genall(g)
        if how == 'column':
            want = [r[0] for r in want]
        x = work.Stream('chunk' if how == 'chunks' else ('cursor' if how == 'declare' else 'row'), val, want, 0 <= g[3] < g[0], how, g)
        x.in_tx = self.b.tx is not None and not self.b.tx.implicit
        x.tx = self.b.tx if x.in_tx else None
        self.slots[op['s']] = x

    def op_discard(self, op):
        self.held.pop(op['k'], None)
        self.note('discard')

    def op_cycle(self, op):
        h = self.held.pop(op['k'], None)
        if h is not None:
            self.env.probe('cycle')
            l = [h]
            l.append(l)
        self.note('cycle')

    def op_cyclestream(self, op):
        s = self.slots.pop(op['s'], None)
        if s is not None:
            l = [s]
            l.append(l)
            self.env.probe('cycle')
        self.note('cyclestream')

    def op_closest(self, op):
        h = self.held.get(op['k'])
        if h is None or h.closed:
            return
        st, val = client.call(h.obj.close)
        if st != 'ok':
            self.fail('close-raised', val)
        h.closed = True
        if h.own:
            self.owned.pop(h.sid, None)
        self.env.probe('closed')
        if h.obj.closed is not True:
            self.fail('not-closed', 'statement.closed is %r after close()' % (h.obj.closed,))
        self.note('closest')

    def op_badprep(self, op):
        st, val = client.call(self.db.prepare, 'SELEC ' + op['text'])
        if self.after('bad prepare', st, val):
            self.fail('error-became-result', 'a statement that cannot be parsed was prepared')
        self.env.probe('error')
        if op['keep'] and val.code == '42601':
            self.cyc.append(val)       # the exception keeps the failed statement alive
        self.note('badprep')

    # ---- the server's side
    def live_check(self, what):
        """what the application holds exists on the server"""
        if self.busy():
            return
        for k, h in sorted(self.held.items()):
            if h.closed:
                continue
            st = self.b.stmts.get(h.sid)
            if st is None:
                self.fail('live-statement-closed', 'after %s the statement %s in use by the application is gone from the server' % (what, h.sid))
            if st.sql != h.sql:
                self.fail('live-statement-replaced', 'after %s the statement %s is %r instead of %r' % (what, h.sid, st.sql, h.sql))

    def op_audit(self, op):
        """everything discarded is gone after two more operations"""
        if self.b.failed:
            return
        for k in range(3):
            # the connection keeps the object used last until it is used again
            st, val = client.call(self.db.execute, '')
            if not self.after('audit', st, val) and self.b.failed:
                return
            if k == 0:
                self.last_err = None
                for m in client.MESSAGES:
                    m.creator = None         # a message keeps the object it belongs to
                gc.collect()
        self.live_check('audit')
        livegen = {sid for r, sid in self.refs if r() is not None}
        self.refs = [(r, sid) for r, sid in self.refs if r() is not None]
        own = {h.sid for h in self.held.values() if not h.closed} | set(self.owned)
        pend = {h.sid for h in self.held.values() if h.closed and not h.own}
        for name, st in sorted(self.b.stmts.items()):
            if not name or not st.sql.startswith(('SELECT * FROM gen(', 'COPY (SELECT * FROM gen(')):
                continue
            if name in pend and name not in own:
                self.fail('closed-statement-left', '%s was closed by the application and is still on the server' % name)
            if name not in livegen and name not in IDS:
                if st.sql.startswith('COPY') and any(s.how in ('copy', 'copychunks') for s in self.slots.values()):
                    continue
                self.fail('statement-left', '%s %r is unreachable and still on the server' % (name, st.sql))
        names = {n for n in list(self.b.portals) + list(self.b.cursors) if n}
        held = [s for s in self.slots.values() if not s.done and s.how not in ('copy', 'copychunks', 'sid')]
        if held:
            self.env.probe('held')
        if len(names) > len(held):
            self.fail('cursor-left', 'the server has the portals %r, the application holds %d open results' % (sorted(names), len(held)))
        self.note('audit', len(names))


def run(env):
    cfg = env.cfg
    server, db, b = wl.begin(env, None, cfg.get('reuse', 500))
    s = S(env, db, b)
    s.setup()
    env.sim.gc_permille = cfg.get('gc', 0)
    env.nontrivial = False
    n0 = len(client.MESSAGES); a0 = len(b.sent_async)
    if cfg.get('async'):
        env.probe('async')
        wl.inject(b, cfg['async'])
    gone0 = env.sim.stats.get('srv_close', 0)
    for op in env.ops:
        if b.xtx is not None:
            env.probe('in_tx')
        s.do(op)
        s.live_check(op['op'])
    if b.failed:
        s.after('rollback', *client.call(db.execute, 'ROLLBACK'))
    s.op_audit({})
    if env.sim.stats.get('gc_at_io'):
        env.probe('gc_inside')
    if env.sim.stats.get('id_reused'):
        env.probe('reused_id')
    # drop everything: nothing of it stays
    s.held.clear(); s.slots.clear(); s.stmts.clear(); s.cyc.clear()
    s.op_audit({})
    if env.sim.stats.get('srv_close', 0) > gone0:
        env.probe('auto_closed')
        env.nontrivial = True
    sent = [m for m in b.sent_async[a0:] if m[0] == 'notice']
    wl.check_messages(sent, client.MESSAGES[n0:])
    s.finish()
    db.close()
