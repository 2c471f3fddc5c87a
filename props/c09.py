"""C09: COPY FROM STDIN loads everything or nothing."""
from sim.core import *
from sim import client, wl

PROP = 'C09'
RULE = ('one evaluation = one seeded session of COPY FROM STDIN loads (line counts, sizes and chunkings; sources that raise or use the connection; '
        'lines the server rejects; errors at seeded messages of the COPY or at its commit; lost connections) among other operations and open '
        'streams; distinct non-trivial = distinct sequences of operations, replies and reads among runs with at least one load')
RUNS = {'quick': 28000, 'thorough': 200000}
REAL = ['postgresql.driver.pq3 (Statement.load_chunks/load_rows)', 'postgresql.protocol.* (C and Python buffer)']
STUB = ['server (simulated backend with COPY sink and transactions)', 'socket, select, clock (simulated)']
ASSUMPTIONS = ['if the connection is lost after the whole COPY was sent, the lines may be stored although the call raised (all of them)',
               'sources raise subclasses of Exception']
PROBES = ['loaded', 'rejected', 'source', 'inner', 'error', 'cut', 'in_tx', 'large', 'empty', 'start']


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES + (None,))
    g = wl.Gen(rng, chunk)
    w = {'copyin': 10, 'q': 2, 'put': 1, 'copyout': 1, 'open': 2, 'stream': 3, 'gc': 1}
    if rng.random() < 0.5:
        w['tx'] = 2
    ops = []
    for _ in range(rng.randrange(2, 10)):
        ops.append(g.mixed(w))
        if ops[-1]['op'] == 'copyin':
            o = ops[-1]
            if rng.random() < 0.05:
                o['n'] = rng.choice([200, 400])
                o['cs'] = rng.choice([7, 64, 256])
            if rng.random() < 0.08 and o['how'] == 'chunks' and 'bad' not in o and 'src' not in o:
                o['inner'] = rng.randrange(0, o['n'] // o['cs'] + 2)
    cfg = {'chunk': chunk}
    x = rng.random()
    if x < 0.3:
        cfg['err_at'] = [[rng.randrange(0, rng.choice([12, 60, 150])), rng.choice(['53100', '53200', '57014', '40001'])]]
    elif x < 0.4:
        cfg['commit_error'] = [rng.randrange(3), rng.choice(['23503', '40001', '53100'])]
    elif x < 0.5:
        cfg['start_error'] = [rng.randrange(3), rng.choice(['42809', 'P0001', '25006'])]
    elif x < 0.7:
        cfg['cut'] = {'dir': rng.choice(['s2c', 'c2s', 'c2s']), 'at': rng.choice([rng.randrange(0, 500), rng.randrange(0, 4000)]),
                      'how': rng.choice(['eof', 'reset', 'epipe'])}
    return {'ops': ops, 'policy': wl.policy(rng), 'cfg': cfg}


def run(env):
    cfg = env.cfg
    o = {}
    if cfg.get('commit_error'):
        o['commit_error'] = list(cfg['commit_error'])
    if cfg.get('start_error'):
        o['copy_start_error'] = list(cfg['start_error'])
    s = wl.session(env, o, lossy=bool(cfg.get('cut')))
    for k, code in cfg.get('err_at', ()):
        s.b.err_at[s.b.nin + k] = (code, 'injected at %d' % k)
    if cfg.get('cut'):
        wl.cut(s, cfg['cut'])
    env.nontrivial = False
    for op in env.ops:
        if s.dead:
            break
        if op['op'] == 'copyin':
            env.nontrivial = True
            for k, p in (('bad', 'rejected'), ('src', 'source'), ('inner', 'inner')):
                if op.get(k, -1) >= 0:
                    env.probe(p)
            if op['n'] > 100:
                env.probe('large')
            if op['n'] == 0:
                env.probe('empty')
            if s.b.xtx is not None:
                env.probe('in_tx')
        s.do(op)
        if op['op'] == 'copyin' and s.server.tables['lines']:
            env.probe('loaded')
    if s.dead:
        env.probe('cut')
    if env.sim.stats.get('srv_error_in_copy'):
        env.probe('error')
    if env.sim.stats.get('srv_error_at_copy_start'):
        env.probe('start')
    s.finish()
    s.db.close()
