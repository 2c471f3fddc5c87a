"""C04: a lost connection is always reported, never passed off as success."""
import gc
from sim.core import *
from sim import client, wl

PROP = 'C04'
RULE = ('one evaluation = one seeded session whose connection is broken (EOF, reset, failed send at a byte offset of either direction; a FATAL '
        'error or abrupt death of the server process at a protocol step or instant), followed by one operation of every kind on the dead connection; '
        'distinct non-trivial = distinct sequences of operations, replies and reads among runs in which the break was hit')
RUNS = {'quick': 40000, 'thorough': 300000}
REAL = ['postgresql.driver.pq3', 'postgresql.protocol.* (C and Python buffer)', 'postgresql.python.socket']
STUB = ['server (simulated backend)', 'socket, select, clock (simulated)']
ASSUMPTIONS = ['a stream may still yield rows it received before the connection broke']
PROBES = ['broken', 'mid_stream', 'fatal', 'in_tx']


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES + (None,))
    g = wl.Gen(rng, chunk)
    ops = []
    tx = rng.random() < 0.5
    w = {'q': 5, 'put': 4, 'copyin': 3, 'copyout': 2, 'load': 3, 'open': 4, 'stream': 6, 'raise': 1, 'say': 1, 'gc': 1}
    if tx:
        w['tx'] = 3
    for _ in range(rng.randrange(2, 14)):
        ops.append(g.mixed(w))
    if rng.random() < 0.2:
        from props import c06
        ops.insert(rng.randrange(len(ops) + 1), c06.block(g, rng, 1))
    x = rng.random()
    cfg = {'chunk': chunk}
    if x < 0.4:
        cfg['cut'] = {'dir': 's2c', 'at': rng.choice([rng.randrange(0, 60), rng.randrange(0, 600), rng.randrange(0, 6000)]),
                      'how': rng.choice(['eof', 'reset', 'reset_drop', 'epipe'])}
    elif x < 0.65:
        cfg['cut'] = {'dir': 'c2s', 'at': rng.choice([rng.randrange(0, 60), rng.randrange(0, 600), rng.randrange(0, 6000)]),
                      'how': rng.choice(['eof', 'reset', 'epipe'])}
    elif x < 0.85:
        cfg['fatal'] = [rng.choice([rng.randrange(0, 10), rng.randrange(0, 60)]), rng.choice(['57P01', '57P02', '53300', 'XX000']),
                        rng.choice(['FATAL', 'FATAL', 'PANIC'])]
    else:
        cfg['kill'] = [rng.randrange(0, 40000), rng.choice(['eof', 'reset'])]
    if rng.random() < 0.5:
        cfg['gc'] = 1
    cfg['post'] = rng.sample(range(len(POST)), 5)
    return {'ops': ops, 'policy': wl.policy(rng, again=rng.choice([0, 0, 0, 60])), 'cfg': cfg}


def _block(db):
    with db.xact():
        pass


def _listen(db):
    db.listen('c')


def _setting(db):
    db.settings['search_path'] = 'x'


POST = [
    ('query', lambda db: db.query('SELECT 1')),
    ('first', lambda db: db.query.first('SELECT 1')),
    ('prepare', lambda db: db.prepare('SELECT 1')),
    ('execute', lambda db: db.execute('SELECT 1')),
    ('xact', _block),
    ('rows', lambda db: list(db.query.rows('SELECT * FROM gen(3, 1, 1, -1, 0, -1)'))),
    ('declare', lambda db: db.query.declare('SELECT * FROM gen(3, 1, 1, -1, 0, -1)').read(1)),
    ('load', lambda db: db.query.load_rows('INSERT INTO kv VALUES ($1, $2)', [(1, 'x')])),
    ('copy', lambda db: db.query.load_rows('COPY lines FROM STDIN', [b'x\n'])),
    ('listen', _listen),
    ('setting', _setting),
    ('reset', lambda db: db.reset()),
    ('connect', lambda db: db.connect()),
    ('cursor', lambda db: db.cursor_from_id('c1').read(1)),
    ('statement', lambda db: db.statement_from_id('s1')()),
]


def post(env, s, old):
    """every operation on a connection known to be lost fails with the package's errors"""
    db = s.db
    ops = [POST[k] for k in env.cfg['post'] if k < len(POST)]
    if old is not None:
        ops.append(('old statement', lambda db: old()))
        ops.append(('old statement rows', lambda db: list(old.rows())))
    for name, f in ops:
        st, val = client.call(f, db)
        if st == 'ok':
            s.fail('success-on-dead-connection', '%s on the lost connection returned %.100r' % (name, val))
        if not db.closed or db.state != 'closed':
            s.fail('closed-reopened', 'after %s the lost connection is in state %r, closed=%r' % (name, db.state, db.closed))


def run(env):
    cfg = env.cfg
    s = wl.session(env, lossy=True)
    b, sim = s.b, env.sim
    old = s.db.prepare('SELECT * FROM gen(2, 7, 1, -1, 0, -1)')
    if cfg.get('cut'):
        wl.cut(s, cfg['cut'])
    if cfg.get('fatal'):
        k, code, sev = cfg['fatal']
        b.err_at[b.nin + k] = (code, 'fatal at %d' % k, sev)
    if cfg.get('kill'):
        sim.after(cfg['kill'][0], lambda: b.kill(cfg['kill'][1]))
    s.run(env.ops)
    # force the break to be noticed
    n = 0
    while not s.db.closed and s.lost():
        s.op_q({'how': 'call', 'g': [1, 1, 1, -1, 0, -1]})
        n += 1
        if n > 3:
            s.fail('loss-not-noticed', '%d operations succeeded on a connection that is gone' % n)
    if s.db.closed:
        if not s.lost():
            s.fail('closed-while-alive', 'the connection says it is closed but nothing broke it')
        env.probe('broken')
        if cfg.get('fatal') and not cfg.get('cut'):
            env.probe('fatal')
        for t in reversed(s.transcript):
            if t[0] == 'tx':
                if 'START' in t[1]:
                    env.probe('in_tx')
                break
        for slot in sorted(s.slots):
            if s.slots[slot].pos and not s.slots[slot].done:
                env.probe('mid_stream')
            s.op_drain({'s': slot})
        post(env, s, old)
        env.nontrivial = True
    else:
        s.finish()
    if cfg.get('gc'):
        s.slots.clear(); s.stmts.clear(); old = None
        gc.collect()
    s.db.close()
    s.db.close()
    if env.net.open_sockets():
        s.fail('socket-leak', 'the socket of the lost connection is still open after close()')
    st, val = client.call(s.db.execute, 'SELECT 1')
    if st == 'ok':
        s.fail('success-on-dead-connection', 'execute after close')
