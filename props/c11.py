"""C11: the copy manager delivers exactly the producer's bytes to every receiver, or nothing."""
import errno
from collections import Counter
from sim.core import *
from sim import client, wl, work, simsql, pgserver
from sim.work import G

PROP = 'C11'
RULE = ('one evaluation = one seeded series of copies from a statement, an iterator or nothing to up to three statements, callables and null receivers '
        '(run, loop and transfer; buffers from 1 byte up, text and binary, open streams and transactions on the same connections) with errors of the '
        'server on either side, exceptions of the application, of sources and of callables, abandoned loops, interrupted or timed out socket calls '
        'that are reconciled or not, and lost connections; distinct non-trivial = distinct sequences of operations, replies, reads and sends among '
        'runs in which rows were transferred')
RUNS = {'quick': 14000, 'thorough': 200000}
REAL = ['postgresql.copyman', 'postgresql.driver.pq3', 'postgresql.protocol.* (C and Python buffer)']
STUB = ['server (simulated backends with COPY)', 'socket, select, clock (simulated)']
ASSUMPTIONS = ['a receiver that faulted and was not reconciled before the next cycle has left the operation: its connection can only be closed',
               'the connections are used by nothing else during a copy', 'exceptions of the application are subclasses of Exception',
               'if a connection is lost after the whole COPY was sent to it the rows may be stored although the copy failed']
PROBES = ['copied', 'big', 'binary', 'iter', 'null', 'call', 'several', 'raise', 'break', 'source_error', 'receiver_error', 'start_error', 'lost', 'reconciled',
          'dropped', 'unhandled', 'producer_fault', 'tx', 'stream', 'empty', 'transfer', 'async', 'call_raised', 'iter_raised', 'kv']
VARIANTS = ('c', 'py')
TABLES = ('lines', 'lines2', 'lines3')


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES + (None,))
    ops = []
    tag = rng.randrange(200)
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        tag += 1
        x = rng.random()
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 40]) if x < 0.9 else rng.choice([60, 120, 300])
        g = G(n, tag, rng.choice([0, 1, 2, 2, 2, 3, 4]))
        if n and rng.random() < 0.12:
            g[3] = rng.randrange(n)
        if n and rng.random() < 0.1:
            g[4] = rng.choice([1, 3, n])
        x = rng.random()
        if x < 0.62:
            src = {'k': 'stmt', 'g': g, 'buf': rng.choice([1, 2, 3, 4, 5, 6, 7, 16, 64, 100, 512, None])}
            if n >= 60 and src['buf'] is not None and src['buf'] < 50:
                src['buf'] = 77
            if tag % 13 == 6 and src['buf'] is not None and src['buf'] < 500:
                src['buf'] = 4000        # a row as long as 64 kB is read in some number of steps only
            if rng.random() < 0.15:
                src['bin'] = 1
        elif x < 0.69:
            src = {'k': 'kv', 'buf': rng.choice([1, 3, 8, 100, None])}
        elif x < 0.97:
            g[3] = -1
            src = {'k': 'iter', 'g': g, 'cs': [rng.choice([0, 1, 1, 2, 3, 5, 10, 50]) for _ in range(rng.randrange(1, 5))]}
            y = rng.random()
            if y < 0.1:
                src['raise'] = rng.randrange(0, 8)
            elif y < 0.2 and n:
                src['bad'] = rng.randrange(n)
            if rng.random() < 0.15:
                src['void'] = [rng.randrange(n + 1) for _ in range(rng.randrange(1, 4))]
        else:
            src = {'k': 'null'}
        dst = []
        for k in range(rng.choice([1, 1, 1, 2, 2, 3])):
            x = rng.random()
            if x < 0.75:
                dst.append({'k': 'stmt'})
            elif x < 0.92 and not src.get('bin'):
                dst.append({'k': 'call'})
                if rng.random() < 0.15:
                    dst[-1]['raise'] = rng.randrange(0, 6)
                    if rng.random() < 0.6:
                        dst[-1]['rec'] = rng.randrange(1, 3)
            else:
                dst.append({'k': 'null'})
        op = {'op': 'copy', 'src': src, 'dst': dst, 'mode': rng.choice(['run', 'loop', 'loop', 'loop', 'transfer'])}
        if op['mode'] == 'loop':
            x = rng.random()
            if x < 0.12:
                op['act'] = ['raise', rng.choice([0, 1, 2, 3, 5, 10, 30])]
            elif x < 0.24:
                op['act'] = ['break', rng.choice([0, 1, 2, 3, 5, 10, 30])]
            if rng.random() < 0.3:
                op['faults'] = [[rng.randrange(len(dst)), rng.randrange(0, 25), rng.choice(['timeout', 'eintr', 'eagain']), rng.choice(['rec', 'rec', 'rec', 'drop', 'raise'])]
                                for _ in range(rng.randrange(1, 4))]
            if rng.random() < 0.2 and src['k'] in ('stmt', 'kv'):
                op['pfaults'] = [[rng.randrange(0, 25), rng.choice(['eintr', 'eagain'])] for _ in range(rng.randrange(1, 3))]
        x = rng.random()
        if x < 0.12:
            op['derr'] = [rng.randrange(len(dst)), rng.randrange(0, 14), rng.choice(['53100', '53200', '40001'])]
        elif x < 0.17:
            op['start'] = [rng.randrange(len(dst)), rng.choice(['42809', 'P0001'])]
        elif x < 0.24:
            op['cut'] = [rng.choice([-1] + list(range(len(dst)))), {'dir': rng.choice(['s2c', 'c2s']), 'at': rng.choice([rng.randrange(0, 60), rng.randrange(0, 900)]),
                                                                  'how': rng.choice(['eof', 'reset', 'epipe'])}]
        elif x < 0.28:
            op['kill'] = [rng.choice([-1] + list(range(len(dst)))), rng.choice([0, 100, 2000, 20000]), rng.choice(['eof', 'reset', 'fatal'])]
        if rng.random() < 0.2:
            op['tx'] = 1
        if rng.random() < 0.15:
            op['stream'] = [rng.choice([-1] + list(range(len(dst)))), rng.randrange(1, 30), rng.randrange(0, 10)]
        if rng.random() < 0.25:
            op['async'] = [rng.choice([-1, -1] + list(range(len(dst)))), wl.asyncs(rng, rng.choice([8, 30]), 4, kinds=('notice', 'notice', 'status', 'notify'))]
        ops.append(op)
    pol = wl.policy(rng, again=0)
    return {'ops': ops, 'policy': pol, 'cfg': {'chunk': chunk}}


def simplify(plan):
    import copy
    for i, op in enumerate(plan['ops']):
        for k in ('act', 'faults', 'pfaults', 'derr', 'start', 'cut', 'kill', 'tx', 'stream', 'async'):
            if k in op:
                p = copy.deepcopy(plan)
                del p['ops'][i][k]
                yield p
        for k in ('bin', 'raise', 'bad'):
            if k in op['src']:
                p = copy.deepcopy(plan)
                del p['ops'][i]['src'][k]
                yield p
        if 'g' in op['src'] and op['src']['g'][0] > 1:
            for n in (1, op['src']['g'][0] // 2, op['src']['g'][0] - 1):
                p = copy.deepcopy(plan)
                p['ops'][i]['src']['g'][0] = n
                yield p
        if len(op['dst']) > 1:
            p = copy.deepcopy(plan)
            p['ops'][i]['dst'].pop()
            if not any(x in op for x in ('faults', 'derr', 'start', 'cut', 'kill', 'stream', 'async')):
                yield p


class AppError(Exception):
    pass


ERR = {'timeout': lambda: TimeoutError('timed out'), 'eintr': lambda: InterruptedError(errno.EINTR, 'Interrupted system call'),
       'eagain': lambda: BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')}


class Con:
    def __init__(self, w, k):
        self.w = w; self.k = k
        self.stmts = {}
        self.db = client.connect(w.env)
        self.b = w.env.backends[-1]
        self.told = True
        self.stream = None

    def gone(self):
        return self.db.closed or self.b.closed or self.b.conn.srv_closed or self.b.conn.lost

    def prepare(self, sql):
        st = self.stmts.get(sql)
        if st is None:
            st = self.stmts[sql] = self.db.prepare(sql)
        return st

    def __str__(self):
        return 'source' if self.k < 0 else 'receiver %d' % self.k


class W:
    def __init__(self, env, server):
        self.env = env; self.sim = env.sim; self.server = server
        self.cons = {}
        self.serial = 0
        self.nmsg = 0
        self.sent = Counter()
        self.notes = {}
        self.exact = True
        self.rows = 0
        from postgresql import copyman
        self.cm = copyman
        w = self

        class Receiver(copyman.StatementReceiver):
            def __hash__(self):
                return self.__dict__.setdefault('_serial', w.count())

        class Call(copyman.CallReceiver):
            def __hash__(self):
                return self.__dict__.setdefault('_serial', w.count())

        class Null(copyman.NullReceiver):
            def __hash__(self):
                return self.__dict__.setdefault('_serial', w.count())
        self.Receiver = Receiver; self.Call = Call; self.Null = Null

    def count(self):
        self.serial += 1
        return self.serial

    def fail(self, kind, *d):
        raise Violation(kind, ' '.join(str(x) for x in d))

    def con(self, k):
        c = self.cons.get(k)
        if c is None or c.gone():
            pol = wl.calm(self.env)
            c = self.cons[k] = Con(self, k)
            self.notes[c] = []
            st, val = client.call(c.db.listen, 'ch')
            pol()
        return c

    def stored(self, k):
        return [r[1] for r in sorted(self.server.tables[TABLES[k]].values(), key=lambda r: r[0])]

    def op_copy(self, op):
        env, cm = self.env, self.cm
        src, dst = op['src'], op['dst']
        sc = self.con(-1) if src['k'] in ('stmt', 'kv') else None
        dc = [self.con(k) if d['k'] == 'stmt' else None for k, d in enumerate(dst)]
        cons = [c for c in [sc] + dc if c is not None]
        find = lambda k: sc if k < 0 else dc[k] if k < len(dc) else None
        before = [self.stored(k) for k in range(3)]
        errs0 = {c: len(c.b.errors_sent) for c in cons}
        exact = self.exact
        # ---- the source
        binary = bool(src.get('bin'))
        g = src.get('g')
        end = None
        if src['k'] == 'stmt':
            sql = 'COPY (%s) TO STDOUT%s' % (work.rowsql(g), ' WITH BINARY' if binary else '')
            if binary:
                env.probe('binary')
                class B:
                    pass
                sub = simsql.plan(sc.b, work.rowsql(g[:3] + [-1, 0, -1]))
                want = list(simsql.copy_gen(sc.b, sub, True))
                if g[3] >= 0:
                    want = want[:g[3]]
            else:
                want = work.genlines(g)
            end = '22012' if 0 <= g[3] < g[0] else None
        elif src['k'] == 'kv':
            env.probe('kv')
            sql = 'COPY kv TO STDOUT'
            want = [pgserver.copyline(r) for r in sorted(self.server.tables['kv'].values(), key=lambda r: r[0])]
        elif src['k'] == 'iter':
            env.probe('iter')
            want = work.genlines(g)
            if src.get('bad', -1) >= 0 and src['bad'] < len(want):
                want[src['bad']] = b'!bad ' + want[src['bad']]
            for i in src.get('void', ()):
                want.insert(min(i, len(want)), b'')
            chunks = []
            k = 0
            i = 0
            while k < len(want) or i < len(src['cs']):
                n = src['cs'][i % len(src['cs'])]
                if i > len(src['cs']) * 2 + len(want):
                    n = len(want)
                chunks.append(want[k:k + n])
                k += n
                i += 1
            boom = AppError('iterator')

            def produce():
                for i, c in enumerate(chunks):
                    if src.get('raise', -1) == i:
                        self.env.probe('iter_raised')
                        raised.append(boom)
                        raise boom
                    yield c
        else:
            env.probe('null')
            want = []
        raised = []
        again = []      # of these, the ones the application repairs
        what_to_do = {}
        if len(want) > 50:
            env.probe('big')
        if not want:
            env.probe('empty')
        # ---- receivers
        got = {}
        if len(dst) > 1:
            env.probe('several')
        try_prepare = []
        for c, d, k in zip(dc, dst, range(3)):
            if d['k'] == 'stmt':
                st, val = client.call(c.prepare, 'COPY %s FROM STDIN%s' % (TABLES[k], ' WITH BINARY' if binary else ''))
                try_prepare.append(st)
        if sc is not None:
            st, val = client.call(sc.prepare, sql)
            try_prepare.append(st)
        if 'err' in try_prepare:
            self.fail('prepare-raised', val)
        # something else going on with the connection
        if op.get('stream'):
            c = find(op['stream'][0])
            if c is not None:
                env.probe('stream')
                sg = G(op['stream'][1], 777, 2)
                it = iter(c.db.prepare(work.rowsql(sg)).rows())
                pos = []
                for _ in range(op['stream'][2]):
                    x = next(it, None)
                    if x is None:
                        break
                    pos.append(tuple(x))
                c.stream = (it, pos, work.genall(sg))
        if op.get('async'):
            c = find(op['async'][0])
            if c is not None:
                env.probe('async')
                wl.inject(c.b, op['async'][1])
        xacts = []
        if op.get('tx'):
            env.probe('tx')
            for c in dc:
                if c is not None:
                    x = c.db.xact()
                    x.start()
                    xacts.append((c, x))
        if op.get('start'):
            c = find(op['start'][0])
            if c is not None:
                env.probe('start_error')
                c.b.opts = dict(c.b.opts, copy_start_error=[0, op['start'][1]])
        if op.get('derr'):
            c = find(op['derr'][0])
            if c is not None and c.stream is None:
                c.b.err_at[c.b.nin + op['derr'][1]] = (op['derr'][2], 'injected')
        if op.get('cut'):
            c = find(op['cut'][0])
            if c is not None:
                f = op['cut'][1]
                x = c.b.conn
                if f['dir'] == 's2c':
                    x.cut_s2c = {'at': x.s2c_sent + f['at'], 'how': f['how']}
                else:
                    x.cut_c2s = {'at': x.c2s_sent + f['at'], 'how': f['how']}
        if op.get('kill'):
            c = find(op['kill'][0])
            if c is not None:
                self.sim.after(op['kill'][1], lambda c=c: None if c.gone() else c.b.kill(op['kill'][2]))
        kw = {} if src.get('buf') is None else {'buffer_size': max(1, src['buf'])}
        recs = []
        for k, d in enumerate(dst):
            if d['k'] == 'stmt':
                recs.append(self.Receiver(dc[k].prepare('COPY %s FROM STDIN%s' % (TABLES[k], ' WITH BINARY' if binary else ''))))
            elif d['k'] == 'call':
                env.probe('call')
                got[k] = []

                def call(lines, k=k, d=d):
                    i = calls[k] = calls.get(k, -1) + 1
                    if 'raise' in d and d['raise'] <= i < d['raise'] + d.get('rec', 1):
                        env.probe('call_raised')
                        e = AppError('callable')
                        raised.append(e)
                        if op['mode'] == 'loop' and 'rec' in d:
                            what_to_do[e] = 'rec'
                            again.append(e)
                        raise e
                    got[k].extend(bytes(x) for x in lines)
                calls = {}
                recs.append(self.Call(call))
            else:
                recs.append(self.Null())
        if src['k'] in ('stmt', 'kv'):
            prod = cm.StatementProducer(sc.prepare(sql), **kw)
        elif src['k'] == 'iter':
            prod = cm.IteratorProducer(produce())
        else:
            prod = cm.NullProducer()
        # ---- socket calls that fail without anything being lost
        arm = {'on': False}
        plans = {}
        for j, n, kind, do in op.get('faults', ()):
            c = find(j)
            if c is not None:
                plans.setdefault((c, 'send'), {})[n] = (kind, do)
        for n, kind in op.get('pfaults', ()):
            plans.setdefault((sc, 'recv'), {})[n] = (kind, 'rec')
        for (c, dirn), p in plans.items():
            seen = [0]

            def hook(what, c=c, dirn=dirn, p=p, seen=seen):
                if what != dirn or not arm['on']:
                    return
                i = seen[0]
                seen[0] += 1
                if i in p:
                    kind, do = p[i]
                    e = ERR[kind]()
                    what_to_do[e] = do
                    self.sim.count('io_%s_%s' % (dirn, kind))
                    self.sim.log('io fault', str(c), dirn, kind)
                    self.sim.mark('F')
                    raise e
            c.b.conn.on_io = hook
        # ---- go
        state = {'exhausted': False, 'app': None, 'broke': False, 'dropped': set(), 'faulted': set(), 'unhandled': False, 'stats': [0, 0]}
        mgr = None
        totals = None
        exc = None
        boom = AppError('application')

        def loop():
            cyc = 0
            act = op.get('act')
            with mgr as m:
                if m is not mgr:
                    self.fail('wrong-result', 'the with block binds %r' % (m,))
                while True:
                    if act and cyc == act[1]:
                        env.probe(act[0])
                        if act[0] == 'raise':
                            state['app'] = boom
                            raise boom
                        state['broke'] = True
                        break
                    cyc += 1
                    arm['on'] = True
                    try:
                        nm, nb = next(mgr)
                        if nm < 0 or nb < 0:
                            self.fail('wrong-progress', nm, nb)
                        state['stats'][0] += nm
                        state['stats'][1] += nb
                    except StopIteration:
                        state['exhausted'] = bool(mgr.receivers)
                        break
                    except cm.ReceiverFault as f:
                        arm['on'] = False
                        if f.manager is not mgr:
                            self.fail('wrong-fault', 'manager')
                        for r, e in f.faults.items():
                            if r not in recs:
                                self.fail('wrong-fault', repr(r))
                            if r in mgr.receivers:
                                self.fail('wrong-fault', 'a faulted receiver is still among the receivers')
                        left = [r for r in recs if r in f.faults]
                        while left:
                            r = left.pop(0)
                            state['rest'] = {recs.index(x) for x in left}
                            self.handle(mgr, r, recs.index(r), f.faults[r], what_to_do, dc, state, arm)
                    except cm.ProducerFault as f:
                        if f.__context__ in what_to_do:
                            env.probe('producer_fault')
                            continue
                        state['unhandled'] = True
                        raise
                    finally:
                        arm['on'] = False
        self.sim.mark('|')
        try:
            if op['mode'] == 'transfer' and src['k'] in ('stmt', 'kv') and src.get('buf') is None:
                env.probe('transfer')
                one = [r for r in recs if r.protocol == cm.PROTOCOL_PQv3]
                totals = cm.transfer(sc.prepare(sql), *[dc[recs.index(r)].prepare('COPY %s FROM STDIN%s' % (TABLES[recs.index(r)], ' WITH BINARY' if binary else ''))
                                                        if len(recs) == 1 and r in one else r for r in recs])
                state['exhausted'] = True
            else:
                mgr = cm.CopyManager(prod, *recs)
                if op['mode'] == 'loop':
                    loop()
                else:
                    mgr.run()
                    state['exhausted'] = True
                totals = (prod.total_messages, prod.total_bytes)
        except cm.CopyFail as e:
            exc = e
        except (client.pgexc.Error, OSError) as e:
            # starting the producer is not covered by the manager
            if mgr is not None and mgr.transformer is not None and not (sc is not None and sc.gone()):
                self.fail('raw-error', 'the copy raised %r' % (e,))
            exc = e
        finally:
            for c in cons:
                c.b.conn.on_io = None
                c.b.err_at.clear()
        if self.sim.aborted is not None:
            raise self.sim.aborted
        self.sim.log('op', 'copy', 'ok' if exc is None else type(exc).__name__, totals)
        self.sim.mark('K' if exc is None else 'X')
        uncommitted = set()
        for c, x in xacts:
            if c.gone() or dc.index(c) in state['dropped'] | state['faulted']:
                uncommitted.add(c)
                continue
            st, val = client.call(x.rollback if exc is not None else x.commit)
            if st == 'err':
                uncommitted.add(c)
            if st == 'err' and not c.gone():
                self.fail('connection-unusable', '%s: ending the transaction after the copy raised %r %s' % (c, val.code, val))
        # ---- judge
        reasons = []
        sent = {c: c.b.errors_sent[errs0[c]:] for c in cons}
        if state['app'] is not None:
            reasons.append('application')
        if state['broke']:
            reasons.append('break')
        if state['unhandled']:
            env.probe('unhandled')
            reasons.append('fault')
        if [e for e in raised if e not in again]:
            reasons.append('raised')
        for c in cons:
            if c.gone():
                env.probe('lost')
                reasons.append('lost %s' % c)
            if sent[c]:
                env.probe('source_error' if c is sc else 'receiver_error')
                reasons.append('error %s %s' % (c, sent[c]))
        if len(state['dropped']) == len(recs):
            reasons.append('nobody left')
        what = 'copy of %d rows from %s to %s' % (len(want), src['k'], [d['k'] for d in dst])
        if exc is not None and not reasons:
            self.fail('copy-failed', '%s: %s %s %r %r for no reason' % (what, type(exc).__name__, exc, getattr(exc, 'receiver_faults', None), getattr(exc, 'producer_fault', None)))
        size = sum(len(x) for x in want) + (5 * len(want) if src['k'] in ('stmt', 'kv') else 0)
        if exc is None:
            if state['broke']:
                self.fail('silent-failure', '%s: the loop was left before its end, and no exception' % what)
            if end and any(x[0] == end for x in sent.get(sc, ())) or state['app'] is not None or src.get('raise') is not None and [e for e in raised if e.args == ('iterator',)]:
                self.fail('silent-failure', '%s succeeded although %s' % (what, reasons))
            if totals != (len(want), size):
                self.fail('wrong-totals', '%s: %r instead of %r' % (what, totals, (len(want), size)))
            env.probe('copied')
            self.rows += len(want)
        for k, d in enumerate(dst):
            new = self.stored(k)[len(before[k]):]
            full = [b''.join(want)] if binary else [x[:-1] for x in want if x]
            if d['k'] == 'stmt':
                if exc is None and k not in state['dropped']:
                    if new != full and not (new == [] and dc[k] in uncommitted):
                        self.fail('wrong-rows', '%s succeeded: receiver %d stored %d rows, %s' % (what, k, len(new), self.diff(new, full)))
                    if op['mode'] != 'transfer':
                        cnt = recs[k].count()
                        if cnt != (1 if binary else len(full)) or recs[k].command() != 'COPY':
                            self.fail('wrong-result', '%s: count() of receiver %d gives %r, command() %r' % (what, k, cnt, recs[k].command()))
                elif new == [] or full == []:
                    pass
                elif new == full and state['exhausted'] is not False and k not in state['dropped']:
                    pass
                elif new == full and op['mode'] != 'loop' and not end and not [e for e in raised if e.args == ('iterator',)] and not (sc and sc.gone()):
                    pass
                else:
                    self.fail('partial-load', '%s ended by %r (%s): receiver %d stores %d of %d rows' % (what, exc, reasons, k, len(new), len(full)))
            elif new:
                self.fail('wrong-rows', 'rows in a table that is not involved')
            if d['k'] == 'call':
                if exc is None and k not in state['dropped'] and got[k] != want:
                    self.fail('wrong-rows', '%s succeeded: callable %d was given %d rows, %s' % (what, k, len(got[k]), self.diff(got[k], want)))
                if got[k] != want[:len(got[k])]:
                    self.fail('wrong-rows', '%s: callable %d was given %s' % (what, k, self.diff(got[k], want[:len(got[k])])))
        if isinstance(exc, cm.CopyFail):
            self.attributes(exc, recs, dc, sent, what, mgr, sc)
        # ---- the connections afterwards
        for c in cons:
            k = c.k
            c.b.err_at.clear()
            if c.gone() or k in state['dropped'] | state['faulted']:
                self.exact = False
                if not c.gone():
                    env.known('K03', 'receiver-stuck', 'after a %s, %s, which faulted and was not reconciled, is left in its COPY' % (what, c))
                c.db.pq.socket.close()
                c.b.kill('eof')
                continue
            c.b.conn.cut_s2c = c.b.conn.cut_c2s = None
            self.probe(c, what)
        self.sim.drain()
        for k, d in enumerate(dst):
            if d['k'] == 'stmt' and k in state['dropped']:
                if self.stored(k)[len(before[k]):] and want:
                    self.fail('partial-load', '%s: receiver %d was dropped, and rows appeared' % (what, k))

    def handle(self, mgr, r, k, e, what_to_do, dc, state, arm):
        env = self.env
        do = what_to_do.get(e)
        while do == 'rec':
            arm['on'] = True
            try:
                mgr.reconcile(r)
                env.probe('reconciled')
                if r not in mgr.receivers:
                    self.fail('not-reconciled', 'receiver %d' % k)
                return
            except (OSError, AppError) as e2:
                do = what_to_do.get(e2)
                if do is None:
                    break
            finally:
                arm['on'] = False
        if do == 'drop' or do is None and dc[k] is not None and dc[k].gone():
            env.probe('dropped')
            state['dropped'].add(k)
            return
        state['unhandled'] = True
        state['faulted'] |= {k} | state['rest']
        raise e

    def diff(self, a, b):
        for i in range(max(len(a), len(b))):
            x = a[i] if i < len(a) else None
            y = b[i] if i < len(b) else None
            if x != y:
                return 'row %d is %r instead of %r' % (i, x, y)
        return 'the same'

    def attributes(self, exc, recs, dc, sent, what, mgr, sc):
        if mgr is not None and exc.manager is not mgr:
            self.fail('wrong-fail', '%s: manager' % what)
        for r, e in exc.receiver_faults.items():
            if r not in recs:
                if mgr is None:
                    continue
                self.fail('wrong-fail', '%s: receiver_faults names %r' % (what, r))
            c = dc[recs.index(r)]
            if c is not None and not c.gone() and client.pgerror(e):
                if e.code not in [x[0] for x in sent[c]]:
                    self.fail('wrong-fail', '%s: %s failed with %r, the server sent %r' % (what, c, e.code, sent[c]))
        e = exc.producer_fault
        if e is not None and sc is not None and not sc.gone() and client.pgerror(e) and e.code not in [x[0] for x in sent[sc]]:
            self.fail('wrong-fail', '%s: producer_fault %r, the server sent %r' % (what, e.code, sent[sc]))

    def probe(self, c, what):
        if c.b.in_copy:
            self.fail('copy-left-open', '%s: %s is still in its COPY' % (what, c))
        st, val = client.call(c.db.query.first, 'SELECT 1')
        if st == 'err' or val != 1:
            if not c.gone():
                self.fail('connection-unusable', 'after a %s, %s gives %r %s' % (what, c, getattr(val, 'code', None), val))
            return
        if c.stream is not None:
            it, pos, all_ = c.stream
            c.stream = None
            st, val = client.call(lambda: [tuple(x) for x in it])
            if st == 'err' and not c.gone():
                self.fail('stream-broken', 'the result that was open on the %s gives %r' % (c, val))
            if st == 'ok' and pos + val != [tuple(r) for r in all_]:
                self.fail('stream-broken', 'the result that was open on the %s: %s' % (c, self.diff(pos + val, all_)))
        g = G(9, 555, 3)
        st, val = client.call(c.db.query, work.rowsql(g))
        if st == 'err':
            if not c.gone():
                self.fail('connection-unusable', 'after a %s, %s gives %r %s' % (what, c, val.code, val))
        elif [tuple(r) for r in val] != [tuple(r) for r in work.genall(g)]:
            self.fail('connection-unusable', 'after a %s, %s returns other rows' % (what, c))
        if c.b.xtx is not None:
            self.fail('transaction-left', 'after a %s, %s is in a transaction' % (what, c))
        sent = [m[1:4] for m in c.b.sent_async if m[0] == 'notify']
        n = self.notes[c]
        for x in c.db.iternotifies(0):
            n.append(tuple(x))
        if n != sent and not c.gone():
            self.fail('notifications', '%s received %r, the server sent %r' % (c, n, sent))


def run(env):
    client.reset(env)
    wl.set_chunksize(env.cfg.get('chunk') or None)
    server = wl.serve(env)
    w = W(env, server)
    for k in range(5):
        server.tables['kv'][k] = (k, 'v' * (k * 7 % 11) + str(k))
    n0 = len(client.MESSAGES)
    for op in env.ops:
        w.op_copy(op)
    env.nontrivial = w.rows > 0
    if w.exact:
        sent = Counter((x[2], x[3]) for b in env.backends for x in b.sent_async if x[0] == 'notice')
        got = Counter((m.code, m.message) for m in client.MESSAGES[n0:] if m.source == 'SERVER')
        if sent != got:
            raise Violation('messages', 'lost %r, too many %r' % (sent - got, got - sent))
