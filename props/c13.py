"""C13: advisory lock objects exclude, nest and release like RLocks."""
from sim.core import *
from sim import client, wl, work

PROP = 'C13'
RULE = ('one evaluation = one seeded schedule of 2-4 clients that acquire, try, nest and release advisory lock objects on shared identifiers, in and out of '
        'transactions, while statements fail, acquisitions are cancelled or deadlock, and connections are closed or lost; distinct '
        'non-trivial = distinct sequences of operations, outcomes and waits among runs in which two clients wanted the same identifier')
RUNS = {'quick': 9000, 'thorough': 300000}
REAL = ['postgresql.alock', 'postgresql.lib (advisory lock statements)', 'postgresql.driver.pq3', 'postgresql.protocol.*']
STUB = ['server (simulated backends; session-level advisory locks, deadlock detection, cancellation)', 'socket, clock, thread scheduling (simulated)']
ASSUMPTIONS = ['a connection is used by one thread', 'a lock object is used with the connection it was made for',
               'a client whose connection was lost and who has not noticed yet is not protected any more']
PROBES = ['acquired', 'nested', 'tried', 'refused', 'partial', 'waited', 'deadlock', 'cancelled', 'in_tx', 'failed_tx', 'closed', 'lost', 'with',
          'share', 'two_objects', 'duplicates', 'rollback', 'left_over', 'released_unheld']
VARIANTS = ('c', 'py')
MAX_STEPS = 200000

IDS = [0, 1, 7, -5, (0, 1), (7, -3), (0, 0), 1 << 40, -(1 << 62), (2147483647, -2147483648)]


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    ids = rng.sample(IDS, rng.choice([1, 2, 2, 3, 4]))
    objs = []
    for c in range(n):
        objs.append([])
        for _ in range(rng.choice([1, 2, 3])):
            k = [rng.choice(ids) for _ in range(rng.choice([1, 1, 2, 3]))] if rng.random() < 0.25 else rng.sample(ids, rng.randrange(1, len(ids) + 1))
            objs[-1].append([rng.choice('xxs'), [list(i) if isinstance(i, tuple) else i for i in k]])
    tasks = []
    for c in range(n):
        l = []
        for _ in range(rng.randrange(4, 26 if tier == 'quick' else 60)):
            x = rng.random()
            o = rng.randrange(len(objs[c]))
            if x < 0.25:
                l.append({'op': 'acquire', 'o': o})
            elif x < 0.40:
                l.append({'op': 'try', 'o': o})
            elif x < 0.68:
                l.append({'op': 'release', 'o': o})
            elif x < 0.76:
                l.append({'op': 'with', 'o': o, 'ms': rng.choice([0, 1, 50, 3000]), 'raise': rng.random() < 0.3, 'inner': rng.choice([None, None, 'acquire', 'try'])})
            elif x < 0.86:
                l.append({'op': 'sleep', 'ms': rng.choice([0, 1, 20, 400, 2500])})
            elif x < 0.92:
                l.append({'op': 'tx', 'end': rng.choice(['commit', 'rollback'])})
            elif x < 0.95:
                l.append({'op': 'bad'})
            elif x < 0.97:
                l.append({'op': 'query'})
            elif x < 0.985:
                l.append({'op': 'close'})
            else:
                l.append({'op': 'lose', 'how': rng.choice(['eof', 'reset', 'fatal'])})
        tasks.append(l)
    cfg = {'objs': objs, 'cancel': []}
    if rng.random() < 0.35:
        for _ in range(rng.randrange(1, 6)):
            cfg['cancel'].append([rng.randrange(n), rng.choice([100, 10000, 700000, 3000000]), rng.random() < 0.8])
    return {'ops': [], 'tasks': tasks, 'policy': wl.policy(rng), 'cfg': dict(cfg, tasks=tasks)}


def simplify(plan):
    import copy
    t = plan['cfg']['tasks']
    for i in range(len(t)):
        n = len(t[i])
        size = n
        while size:
            for a in range(0, n, size):
                p = copy.deepcopy(plan)
                del p['cfg']['tasks'][i][a:a + size]
                if p['cfg']['tasks'][i] != t[i]:
                    yield p
            size //= 2
    for j in range(len(plan['cfg']['cancel'])):
        p = copy.deepcopy(plan)
        del p['cfg']['cancel'][j]
        yield p


def keyof(i):
    return ('i4', i[0], i[1]) if isinstance(i, (tuple, list)) else ('i8', i)


class AppError(Exception):
    pass


class NotEntered(Exception):
    pass


class Obj:
    def __init__(self, cl, mode, ids):
        from postgresql import alock
        self.cl = cl; self.mode = mode
        self.ids = [tuple(i) if isinstance(i, list) else i for i in ids]
        self.keys = [keyof(i) for i in self.ids]
        self.count = 0
        self.lock = (alock.ExclusiveLock if mode == 'x' else alock.ShareLock)(cl.db, *self.ids)


class Cl:
    def __init__(self, w, k, db, b):
        self.w = w; self.k = k; self.db = db; self.b = b; self.env = w.env; self.sim = w.sim
        self.objs = [Obj(self, m, i) for m, i in w.cfg['objs'][k]]
        self.lost = False
        self.closed = False
        self.tx = False
        self.over = False
        self.cancelled = 0

    def fail(self, kind, *d):
        raise Violation(kind, 'client %d: ' % self.k + ' '.join(str(x) for x in d))

    def gone(self):
        return self.b.closed or self.b.conn.srv_closed

    def want(self):
        """what the objects of this connection stand for"""
        out = {}
        for o in self.objs:
            if o.count:
                for k in o.keys:
                    m = out.setdefault(k, {})
                    m[o.mode] = m.get(o.mode, 0) + 1
        return out

    def check(self, what):
        if not self.gone() and not self.closed:
            have = self.w.server.held(self.b)
            want = self.want()
            if have != want:
                self.fail('locks-disagree', '%s: the objects stand for %r, the server holds %r' % (what, want, have))
        for o in self.objs:
            want = o.count > 0 and not self.db.closed
            got = o.lock.locked()
            if got is not want:
                self.fail('wrong-state', '%s: locked() says %r of an object acquired %d times on a connection that is %s' % (
                    what, got, o.count, 'closed' if self.db.closed else 'open'))
            if o.lock.state != ('locked' if want else 'unlocked'):
                self.fail('wrong-state', '%s: state is %r' % (what, o.lock.state))

    def explain(self, what, e):
        """an error of a statement: None if there is no reason for it"""
        if self.gone() or self.closed:
            return 'gone'
        code = getattr(e, 'code', None)
        if code == '25P02' and self.b.failed:
            return 'failed'
        if code in ('40P01', '57014') and self.sent(code):
            return code
        self.fail('unexplained-error', '%s raised %r %s' % (what, code, e))

    def sent(self, code):
        return any(x[0] == code for x in self.b.errors_sent[self.mark:])

    def take(self, o, blocking, enter=None):
        """acquire() or the entry of a with block"""
        what = '%s of %s %r' % ('acquire' if blocking else 'try', o.mode, o.ids)
        if o.mode == 's':
            self.env.probe('share')
        self.mark = len(self.b.errors_sent)
        before = {k: dict(v) for k, v in self.w.server.held(self.b).items()}
        self.w.wanted.setdefault(self.k, set()).update(o.keys)
        nested = o.count > 0
        f0 = len(self.w.refusals)
        st, val = client.call(o.lock.acquire, *(() if blocking else (False,))) if enter is None else client.call(o.lock.__enter__)
        if enter is not None and st == 'ok':
            enter(val)
            val = True
        self.sim.mark('%s%d%s%d' % ('A' if blocking else 'T', self.k, st, val is True))
        self.sim.log('op', self.k, what, st, val if st == 'ok' else getattr(val, 'code', None))
        if st == 'err':
            if nested and not self.gone():
                self.fail('nested-acquire-raised', what, val)
            why = self.explain(what, val)
            if why == '40P01':
                self.env.probe('deadlock')
            if why == '57014':
                self.env.probe('cancelled')
            if why == 'failed':
                self.env.probe('failed_tx')
            if why != 'gone':
                self.leftovers(o, before, what, blocking)
            return False
        if val is not True and val is not False:
            self.fail('wrong-result', '%s gave %r' % (what, val))
        if self.gone() and not val:
            return False
        if val:
            o.count += 1
            if nested:
                self.env.probe('nested')
            self.env.probe('acquired' if blocking else 'tried')
            if len(set(o.keys)) != len(o.keys):
                self.env.probe('duplicates')
            if sum(1 for x in self.objs if x.count) > 1:
                self.env.probe('two_objects')
            if not self.gone():
                for k in o.keys:
                    for c in self.w.holders(k, self):
                        if not c.gone() and ('x' in c.want().get(k, {}) or o.mode == 'x'):
                            self.fail('not-exclusive', '%s succeeded while client %d holds it' % (what, c.k))
        else:
            self.env.probe('refused')
            if blocking:
                self.fail('blocking-refused', what)
            if nested:
                self.fail('nested-refused', what)
            mine = [x for x in self.w.refusals[f0:] if x[0] is self.b]
            if not mine and not self.gone():
                self.fail('refused-untruthfully', '%s was refused although nobody was in the way' % what)
            if mine and len(o.keys) > len(mine):
                self.env.probe('partial')
        self.check(what)
        return val

    def leftovers(self, o, before, what, blocking):
        """after an acquisition that raised"""
        have = self.w.server.held(self.b)
        if have == before:
            return
        # all that is left are the first of its identifiers, once each
        for n in range(1, len(o.keys) + 1):
            exp = {k: dict(v) for k, v in before.items()}
            for k in o.keys[:n]:
                exp.setdefault(k, {})
                exp[k][o.mode] = exp[k].get(o.mode, 0) + 1
            if exp == have:
                break
        else:
            self.fail('locks-disagree', '%s raised: the server holds %r, it held %r before' % (what, have, before))
        if not blocking:
            self.fail('locks-left', '%s raised and leaves %d of its locks held' % (what, n))
        self.env.known('K02', 'locks-left', '%s raised and leaves %d of its locks held' % (what, n))
        self.env.probe('left_over')
        # what an application would have to do
        if self.b.failed:
            self.end_tx('ROLLBACK')
        for k in o.keys[:n]:
            f = 'pg_advisory_unlock' + ('_shared' if o.mode == 's' else '')
            st, val = client.call(self.db.query.first, 'SELECT %s(%s)' % (f, ', '.join(str(x) for x in k[1:])))
            if st == 'err' and not self.gone():
                # interrupted in turn
                if val.code == '57014':
                    st, val = client.call(self.db.query.first, 'SELECT %s(%s)' % (f, ', '.join(str(x) for x in k[1:])))
        self.sim.log('op', self.k, 'unlocked by hand')

    def run(self, ops):
        self.mark = 0
        for op in ops:
            if self.closed and op['op'] != 'release':
                continue
            getattr(self, 'op_' + op['op'])(op)
            if self.sim.aborted is not None:
                return
            self.check(op['op'])
        self.end_of_task()

    def end_of_task(self):
        if not self.closed and not self.gone():
            if self.b.failed or self.tx:
                self.end_tx('ROLLBACK')
            for o in self.objs:
                while o.count and not self.gone():
                    self.op_release({'o': self.objs.index(o)})
        self.over = True

    def op_acquire(self, op):
        self.take(self.objs[op['o']], True)

    def op_try(self, op):
        self.take(self.objs[op['o']], False)

    def op_release(self, op, leave=None):
        o = self.objs[op['o']]
        what = 'release of %s %r' % (o.mode, o.ids)
        self.mark = len(self.b.errors_sent)
        n = o.count
        known = self.db.closed
        if n == 1:
            # from here on nobody may rely on it
            o.count = 0
        try:
            st, val = client.call(o.lock.release) if leave is None else client.call(o.lock.__exit__, *leave)
        except RuntimeError as e:
            st, val = 'unheld', e.with_traceback(None)
        o.count = n
        self.sim.mark('R%d%s' % (self.k, st))
        self.sim.log('op', self.k, what, st)
        if st == 'unheld' or n == 0:
            self.env.probe('released_unheld')
            if st != 'unheld' or n:
                self.fail('released-unheld', '%s, acquired %d times, gave %s %r' % (what, n, st, val))
            return
        if st == 'err' and known:
            # there is nothing left to release
            self.fail('closed-release-raised', what, val)
        if st == 'err':
            if n > 1 and not self.gone():
                self.fail('inner-release-raised', what, val)
            if self.explain(what, val) == 'failed':
                self.env.probe('failed_tx')
            return
        o.count = n - 1

    def op_with(self, op):
        o = self.objs[op['o']]
        other = (op['o'] + 1) % len(self.objs)
        self.env.probe('with')
        body = AppError('body')
        state = []

        def go():
            with self.Entering(self, o) as l:
                if l is not o.lock:
                    self.fail('wrong-result', 'the with block binds %r' % (l,))
                state.append('in')
                if op['ms'] and not self.gone():
                    self.mark = len(self.b.errors_sent)
                    st, val = client.call(self.db.query, 'SELECT pg_sleep(%d)' % op['ms'])
                    if st == 'err':
                        self.explain('sleep', val)
                if op['inner'] and not self.gone():
                    if self.take(self.objs[other], op['inner'] == 'acquire'):
                        self.op_release({'o': other})
                if op['raise']:
                    raise body
        try:
            go()
        except NotEntered:
            pass
        except AppError as e:
            if e is not body:
                raise

    class Entering:
        """with o.lock, watched"""
        def __init__(self, cl, o):
            self.cl = cl; self.o = o

        def __enter__(self):
            r = []
            self.cl.take(self.o, True, enter=r.append)
            if not r:
                raise NotEntered()
            return r[0]

        def __exit__(self, typ, val, tb):
            self.cl.op_release({'o': self.cl.objs.index(self.o)}, leave=(typ, val, tb))

    def op_sleep(self, op):
        if op['ms'] % 2 or self.gone():
            self.sim.block(lambda: False, op['ms'] * 1000, 'sleep')
            return
        self.mark = len(self.b.errors_sent)
        st, val = client.call(self.db.query, 'SELECT pg_sleep(%d)' % op['ms'])
        if st == 'err':
            self.explain('sleep', val)

    def end_tx(self, how):
        self.mark = len(self.b.errors_sent)
        for _ in range(3):
            st, val = client.call(self.db.execute, how)
            if st == 'ok' or self.gone():
                break
            self.explain(how, val)
        self.tx = False

    def op_tx(self, op):
        if self.gone():
            return
        if self.tx or self.b.failed:
            if self.want() and op['end'] == 'rollback':
                self.env.probe('rollback')
            self.end_tx(op['end'].upper())
        else:
            self.mark = len(self.b.errors_sent)
            st, val = client.call(self.db.execute, 'BEGIN')
            if st == 'err':
                self.explain('begin', val)
            else:
                self.tx = True
                self.env.probe('in_tx')

    def op_bad(self, op):
        client.call(self.db.query, "SELECT raise('22012', 'x')")

    def op_query(self, op):
        self.mark = len(self.b.errors_sent)
        st, val = client.call(self.db.query.first, 'SELECT 1')
        if st == 'err':
            self.explain('query', val)
        elif val != 1:
            self.fail('wrong-result', val)

    def op_close(self, op):
        self.env.probe('closed')
        st, val = client.call(self.db.close)
        if st == 'err':
            self.fail('close-raised', val)
        self.closed = True
        self.tx = False
        self.check('close')

    def op_lose(self, op):
        if not self.gone():
            self.env.probe('lost')
            self.b.kill(op['how'])


class W:
    def __init__(self, env, server):
        self.env = env; self.sim = env.sim; self.cfg = env.cfg; self.server = server
        self.wanted = {}
        self.refusals = []
        self.clients = []
        real = server.lock_try

        def lock_try(key, mode, b):
            ok = real(key, mode, b)
            if not ok:
                self.refusals.append((b, key))
            return ok
        server.lock_try = lock_try

    def holders(self, key, but):
        return [c for c in self.clients if c is not but and not c.closed and key in c.want()]


def run(env):
    cfg, sim = env.cfg, env.sim
    client.reset(env)
    server = wl.serve(env)
    on = wl.calm(env)
    w = W(env, server)
    for k in range(len(cfg['objs'])):
        db = client.connect(env)
        w.clients.append(Cl(w, k, db, env.backends[-1]))
    on()
    env.nontrivial = False
    fns = [('C%d' % c.k, lambda c=c: c.run(cfg['tasks'][c.k])) for c in w.clients]
    if cfg['cancel']:
        def canceller():
            for k, us, aim in cfg['cancel']:
                c = w.clients[k]
                if aim:
                    sim.block(lambda: c.b.waiting == 'advisory lock' or c.over, 10 * SEC, 'aim')
                sim.block(lambda: False, us, 'pause')
                if not c.closed and not c.db.closed and c.b.waiting == 'advisory lock':
                    c.b.request_cancel()
                    c.b.poke()
        fns.append(('X', canceller))
    tasks = sim.run_tasks(fns)
    for t in tasks:
        if t.exc is not None and not isinstance(t.exc, SimAbort):
            raise t.exc
    if sim.aborted is not None:
        raise sim.aborted
    if sim.stats.get('lock_waits'):
        env.probe('waited')
    seen = set()
    for k, s in w.wanted.items():
        if seen & s:
            env.nontrivial = True
        seen |= s
    sim.drain()
    left = {c.k: server.held(c.b) for c in w.clients if server.held(c.b)}
    if left:
        raise Violation('locks-disagree', 'everything was released, the server still holds %r' % left)
