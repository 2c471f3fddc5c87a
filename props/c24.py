"""C24: closing always ends the session and frees the socket."""
import gc
from sim.core import *
from sim import client, wl, pgserver
from sim.work import SourceError, AppError, copy_lines, genall

PROP = 'C24'
RULE = ('one evaluation = one seeded session brought into some state (idle, open transaction, open streams, unfinished COPY or row load, pending error, '
        'garbage, lost connection, failed connect) and closed there, explicitly or by leaving a with block, optionally with the connection cut at a byte '
        'around the close; distinct non-trivial = distinct sequences of operations, replies and reads among runs whose close had something to finish')
RUNS = {'quick': 36000, 'thorough': 300000}
REAL = ['postgresql.driver.pq3', 'postgresql.protocol.* (C and Python buffer)', 'postgresql.python.socket']
STUB = ['server (simulated backend)', 'socket, select, clock (simulated)']
ASSUMPTIONS = ['a BaseException leaving the with block of a connection does not close it (documented by the code; not an error of the block)']
PROBES = ['in_tx', 'failed_tx', 'busy', 'in_copy_in', 'in_load', 'in_block', 'broken_before', 'cut_during', 'pending_error', 'garbage', 'connect_failed', 'never', 'context']


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES + (None,))
    g = wl.Gen(rng, chunk)
    cfg = {'chunk': chunk, 'how': rng.choices(['plain', 'with', 'withraise', 'block', 'copyin', 'load', 'refused', 'rejected', 'never', 'thread'],
                                              [10, 4, 3, 4, 4, 3, 1, 1, 1, 0])[0]}
    ops = []
    w = {'q': 2, 'put': 3, 'copyin': 1, 'copyout': 1, 'load': 1, 'open': 5, 'stream': 4, 'raise': 1, 'gc': 1, 'tx': 2, 'say': 1}
    for _ in range(rng.randrange(0, 8)):
        ops.append(g.mixed(w))
    if rng.random() < 0.3:
        ops.append(g.tx())
        ops.append(g.put())
    if rng.random() < 0.4:
        ops.append(g.open())
    if rng.random() < 0.2:
        ops.append(g.raise_())
    cfg['n'] = rng.choice([1, 4, 20])
    cfg['at'] = rng.randrange(0, 5)
    cfg['inner'] = rng.random() < 0.5      # the closing source raises afterwards
    x = rng.random()
    if x < 0.45:
        d = rng.choice(['s2c', 'c2s'])
        cfg['cut'] = {'dir': d, 'at': rng.choice([0, 1, 2, 3, 4, 5, 6, 10, rng.randrange(0, 40), rng.randrange(0, 400)]),
                      'how': rng.choice(['eof', 'reset', 'reset_drop', 'epipe'] if d == 's2c' else ['reset', 'epipe'])}
    elif x < 0.55:
        cfg['kill'] = [rng.randrange(0, 8000), rng.choice(['eof', 'reset', 'fatal'])]
    elif x < 0.65:
        cfg['before'] = rng.choice(['eof', 'reset', 'fatal'])     # the server is gone when close is called
    cfg['post'] = rng.sample(range(len(POST)), 4)
    return {'ops': ops, 'policy': wl.policy(rng, again=rng.choice([0, 0, 100, 400])), 'cfg': cfg}


from props.c04 import POST


def closing(env, s, closer):
    """close; then everything that must hold"""
    db, b, cfg = s.db, s.b, env.cfg
    c = b.conn
    t = b.tx
    if b.xtx is not None:
        env.probe('failed_tx' if b.failed else 'in_tx')
    if db.state == 'busy':
        env.probe('busy')
    if [1 for i in range(len(b.errors_sent)) if i not in s.claimed_set]:
        env.probe('pending_error')
    env.nontrivial = b.xtx is not None or db.state == 'busy' or bool(cfg.get('cut') or cfg.get('kill') or cfg.get('before'))
    if cfg.get('before'):
        env.probe('broken_before')
        b.kill(cfg['before'])
    if cfg.get('cut'):
        wl.cut(s, cfg['cut'])
    if cfg.get('kill'):
        env.sim.after(cfg['kill'][0], lambda: b.kill(cfg['kill'][1]))
    s.commits0 = len(s.server.commit_log)
    s.open_tx = t if (t is not None and not t.implicit) else None
    closer()
    closed(env, s)


def closed(env, s, again=True):
    db, b, cfg = s.db, s.b, env.cfg
    c = b.conn
    s.was_closed = s.dead = True
    sent = c.c2s_sent
    if env.net.open_sockets():
        s.fail('socket-leak', 'the socket is still open after close()')
    if not c.cli_closed:
        s.fail('socket-leak', 'the connection is still open after close()')
    if not db.closed or db.state != 'closed':
        s.fail('not-closed', 'after close() closed=%r state=%r' % (db.closed, db.state))
    if again:
        st, val = client.call(db.close)
        if st != 'ok':
            s.fail('close-again', 'closing again raised %r' % (val,))
        ops = [POST[k] for k in cfg.get('post', ()) if k < len(POST)]
        for name, f in ops:
            st, val = client.call(f, db)
            if st == 'ok':
                s.fail('success-on-closed-connection', '%s after close() returned %.100r' % (name, val))
            if not db.closed or db.state != 'closed':
                s.fail('closed-reopened', 'after %s the closed connection is in state %r, closed=%r' % (name, db.state, db.closed))
        for slot in sorted(s.slots):
            s.op_drain({'s': slot})
        if c.c2s_sent != sent or len(env.net.conns) != 1:
            s.fail('sent-after-close', '%d bytes sent after close()' % (c.c2s_sent - sent))


def settled(env, s):
    """when every byte has arrived at the server"""
    b, cfg = s.b, env.cfg
    env.sim.block(lambda: False, 10 * SEC, 'settle')
    if not b.closed:
        s.fail('session-left', 'the server still has the session')
    cut = b.conn.lost or (cfg.get('kill') and not b.terminated) or cfg.get('before')
    if b.conn.lost or (cfg.get('kill') and not b.terminated):
        env.probe('cut_during')
    if not cut:
        if not b.terminated:
            s.fail('no-goodbye', 'the live server was not told Terminate')
        if b.buf:
            s.fail('goodbye-twice', '%d bytes after Terminate: %r' % (len(b.buf), bytes(b.buf[:20])))
    if s.open_tx is not None:
        log = s.server.commit_log
        if len(log) > s.commits0:
            s.fail('committed-by-close', 'the open transaction was committed by close: %r' % (log[s.commits0:],))


def run(env):
    cfg = env.cfg
    how = cfg['how']
    sim = env.sim
    if how in ('refused', 'rejected', 'never'):
        return unconnected(env, how)
    s = wl.session(env, lossy=True)
    db, b = s.db, s.b
    env.nontrivial = False
    if how in ('plain', 'with', 'withraise'):
        if how == 'plain':
            s.run(env.ops)
            if any(o['op'] in ('drop', 'gc') for o in env.ops):
                env.probe('garbage')
            closing(env, s, db.close)
        else:
            env.probe('context')
            boom = AppError('leaving')

            def closer():
                pass
            cm = db.__enter__()
            if cm is not db:
                s.fail('wrong-context', 'with db as x: x is %r' % (cm,))
            s.run(env.ops)

            def closer():
                if how == 'with':
                    r = db.__exit__(None, None, None)
                else:
                    r = db.__exit__(AppError, boom, None)
                if r:
                    s.fail('exception-swallowed', 'leaving the context of the connection returned %r' % (r,))
            closing(env, s, closer)
    elif how == 'block':
        env.probe('in_block')
        s.run(env.ops)
        if b.failed:
            return closing(env, s, db.close)
        s.open_tx = None
        st = {}

        def go():
            with db.xact():
                st['in'] = 1
                s.op_put({'k': 90001, 'v': 'in the block'})
                closing(env, s, db.close)
                st['closed'] = 1
        rst, val = client.call(go)
        if 'closed' not in st:
            # the connection was lost or the block could not be entered
            if rst != 'err' and not s.lost():
                s.fail('not-closed', 'unexpected end of the block')
            s.commits0 = len(s.server.commit_log); s.open_tx = None
            db.close()
            closed(env, s)
        elif rst == 'ok':
            s.fail('success-on-closed-connection', 'the block whose connection was closed inside ended without an error')
        if env.net.open_sockets():
            s.fail('socket-leak', 'the socket is open after leaving the block')
    elif how == 'copyin':
        s.run(env.ops)
        if b.failed:
            closing(env, s, db.close)
        else:
            source(env, s, True)
    elif how == 'load':
        s.run(env.ops)
        if b.failed:
            closing(env, s, db.close)
        else:
            source(env, s, False)
    settled(env, s)
    s.slots.clear(); s.stmts.clear()
    gc.collect()
    if env.net.open_sockets():
        s.fail('socket-leak', 'after reclaiming everything')


def source(env, s, copy):
    """the source of a load closes the connection in the middle"""
    cfg, db, b = env.cfg, s.db, s.b
    n = cfg['n']
    lines = copy_lines(n, 77)
    boom = SourceError('closed')
    s.open_tx = None
    s.commits0 = len(s.server.commit_log)
    before = set(s.server.tables['lines'])
    st = {}

    def src():
        for j in range(n + 1):
            if j == min(cfg['at'], n):
                env.probe('in_copy_in' if copy else 'in_load')
                closing(env, s, db.close)
                st['closed'] = 1
                if cfg['inner']:
                    raise boom
            if j < n:
                yield lines[j] if copy else (90100 + j, 'v')

    def go():
        p = db.prepare('COPY lines FROM STDIN' if copy else 'INSERT INTO kv VALUES ($1, $2)')
        try:
            p.load_rows(src(), chunksize=2)
        except SourceError as e:
            return e
    rst, val = client.call(go)
    if 'closed' not in st:
        # lost before the source got there
        if rst == 'ok':
            s.fail('success-on-dead-connection', 'the load returned %r' % (val,))
        db.close()
        closed(env, s)
    elif rst == 'ok' and val is not boom:
        s.fail('success-on-closed-connection', 'the load whose source closed the connection returned %r' % (val,))
    closed(env, s)
    env.sim.block(lambda: False, 10 * SEC, 'settle')
    if copy:
        new = [k for k in s.server.tables['lines'] if k not in before]
        if new:
            s.fail('committed-by-close', '%d lines of the unfinished COPY are stored' % len(new))


def unconnected(env, how):
    env.probe('never' if how == 'never' else 'connect_failed')
    env.nontrivial = how == 'rejected'
    client.reset(env)
    if how == 'refused':
        env.net.connect_plan[client.ADDR] = ['refused']
    wl.serve(env, {'reject': '53300'} if how == 'rejected' else {})
    db = client.connection(env)
    if how != 'never':
        st, val = client.call(db.connect)
        if st == 'ok':
            raise Violation('connected', 'connect succeeded')
    for _ in range(2):
        if how == 'with':
            break
        st, val = client.call(db.close)
        if st != 'ok':
            raise Violation('close-raised', 'close of a connection that was never established: %r' % (val,))
    if env.net.open_sockets():
        raise Violation('socket-leak', 'socket open after a failed connect and close')
    if not db.closed:
        raise Violation('not-closed', 'closed is %r' % (db.closed,))
    if how == 'never':
        db.connect()
        if db.closed or db.query.first('SELECT 1') != 1:
            raise Violation('not-open', 'closing an unopened connection made it unusable')
        db.close()
        if env.net.open_sockets():
            raise Violation('socket-leak', 'after close')
