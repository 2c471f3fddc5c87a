"""C10: COPY TO STDOUT yields every line once, in order."""
from sim.core import *
from sim import client, wl

PROP = 'C10'
RULE = ('one evaluation = one seeded session reading COPY ... TO STDOUT results (complete or step by step, up to four open) among other '
        'operations and asynchronous messages, with server errors in the middle and lost connections; distinct non-trivial = distinct '
        'sequences of operations, replies and reads among runs that read at least one line in more than one step or met a failure')
RUNS = {'quick': 26000, 'thorough': 250000}
REAL = ['postgresql.driver.pq3 (SingleXactCopy, FetchAll)', 'postgresql.protocol.* (C and Python buffer, put_copydata)']
STUB = ['server (simulated backend)', 'socket, select, clock (simulated)']
ASSUMPTIONS = ['one thread uses a connection at a time']
PROBES = ['stepwise', 'interrupted', 'async_inside', 'mid_error', 'cut', 'large', 'in_tx']
VARIANTS = ('c', 'py')


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES)
    g = wl.Gen(rng, chunk, big=0.15)
    ops = []
    for _ in range(rng.randrange(3, 20)):
        x = rng.random()
        if x < 0.25:
            ops.append(g.copyout(err=0.15, notice=0.15))
        elif x < 0.45:
            ops.append(g.open(err=0.12, notice=0.15, hows=('copy', 'copychunks', 'copy', 'copychunks', 'rows')))
        elif x < 0.8:
            ops.append(g.stream())
        else:
            ops.append(g.mixed({'q': 3, 'put': 2, 'say': 1, 'gc': 1, 'tx': 2, 'copyin': 1, 'raise': 1}))
    cfg = {'chunk': chunk}
    if rng.random() < 0.5:
        cfg['async'] = wl.asyncs(rng, rng.choice([10, 60, 200]), 8)
    if rng.random() < 0.3:
        cfg['cut'] = {'dir': rng.choice(['s2c', 's2c', 'c2s']), 'at': rng.choice([rng.randrange(0, 800), rng.randrange(0, 6000)]),
                      'how': rng.choice(['eof', 'reset', 'reset_drop'])}
    elif rng.random() < 0.2:
        cfg['fatal'] = [rng.randrange(0, 40), '57P01', 'FATAL']
    return {'ops': ops, 'policy': wl.policy(rng), 'cfg': cfg}


def run(env):
    cfg = env.cfg
    s = wl.session(env, lossy=bool(cfg.get('cut') or cfg.get('fatal')))
    a0 = len(s.b.sent_async)
    n0 = len(client.MESSAGES)
    if cfg.get('async'):
        wl.inject(s.b, cfg['async'])
    if cfg.get('cut'):
        wl.cut(s, cfg['cut'])
    if cfg.get('fatal'):
        k, code, sev = cfg['fatal']
        s.b.err_at[s.b.nin + k] = (code, 'injected', sev)
    env.nontrivial = False
    for op in env.ops:
        if s.dead:
            break
        n = len(s.b.sent_async)
        half = [x for x in s.slots.values() if 'copy' in x.how and 0 < x.pos < len(x.want)]
        if half and op['op'] not in ('step', 'drain', 'drop'):
            env.probe('interrupted')
            env.nontrivial = True
        s.do(op)
        if 'copy' in op.get('how', '') or op['op'] == 'copyout':
            if len(s.b.sent_async) > n:
                env.probe('async_inside')
            g = op['g']
            if 0 < g[3] < g[0]:
                env.probe('mid_error')
                env.nontrivial = True
            if g[0] > 60:
                env.probe('large')
            if s.b.xtx is not None:
                env.probe('in_tx')
        if half and op['op'] == 'step':
            env.probe('stepwise')
            env.nontrivial = True
    if s.dead or (s.lossy and s.lost()):
        env.probe('cut')
        return
    s.finish()
    if not s.dead and not s.db.closed and not (s.lossy and s.lost()):
        client.call(lambda: s.db.query.first('SELECT 1'))
        if not (s.lossy and s.lost()):
            wl.check_messages([x for x in s.b.sent_async[a0:] if x[0] == 'notice'], [m for m in client.MESSAGES[n0:] if m.source == 'SERVER'])
    s.db.close()
