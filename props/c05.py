"""C05: a server error leaves the connection synchronised."""
from sim.core import *
from sim import client, wl
from props import c06

PROP = 'C05'
RULE = ('one evaluation = one seeded session with server errors raised in statements, in the middle of results, at COMMIT and at seeded '
        'protocol steps (simple query, Parse, Bind, Describe, Execute, Sync, COPY data) of requests that may have been sent ahead; distinct '
        'non-trivial = distinct sequences of operations, replies and reads among runs in which the server sent at least one error')
RUNS = {'quick': 26000, 'thorough': 250000}
REAL = ['postgresql.driver.pq3', 'postgresql.protocol.* (C and Python buffer)', 'postgresql.types.io']
STUB = ['server (simulated backend)', 'socket, select, clock (simulated)']
ASSUMPTIONS = ['the error of a request that was sent ahead is raised by the operation that has to read its reply; the stream it belongs to may raise it again',
               'when a row or line source raises, its exception is what the load raises']
PROBES = ['error', 'two_errors', 'sent_ahead', 'in_tx', 'Q', 'P', 'B', 'D', 'E', 'copy']


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES + (None,))
    g = wl.Gen(rng, chunk)
    w = {'q': 5, 'put': 3, 'copyin': 3, 'copyout': 2, 'load': 3, 'open': 4, 'stream': 6, 'raise': 3, 'say': 1, 'gc': 1}
    if rng.random() < 0.6:
        w['tx'] = 2
    ops = [g.mixed(w) for _ in range(rng.randrange(2, 16))]
    if rng.random() < 0.2:
        ops.insert(rng.randrange(len(ops) + 1), c06.block(g, rng, 1))
    cfg = {'chunk': chunk}
    n = rng.choice([0, 1, 1, 2, 3])
    if n:
        cfg['err_at'] = sorted([rng.randrange(0, rng.choice([12, 60])), rng.choice(['40001', '53200', '57014', '22P02', '0A000', 'XX001'])] for _ in range(n))
    if rng.random() < 0.15:
        cfg['commit_error'] = [rng.randrange(3), rng.choice(['23503', '40001', '53100'])]
    return {'ops': ops, 'policy': wl.policy(rng), 'cfg': cfg}


def run(env):
    cfg = env.cfg
    o = {}
    if cfg.get('commit_error'):
        o['commit_error'] = list(cfg['commit_error'])
    s = wl.session(env, o)
    for k, code in cfg.get('err_at', ()):
        s.b.err_at[s.b.nin + k] = (code, 'injected at %d' % k)
    for op in env.ops:
        s.do(op)
        if s.busy():
            env.probe('sent_ahead')
    s.finish()
    n = len(s.b.errors_sent)
    if n:
        env.probe('error')
    if n > 1:
        env.probe('two_errors')
    for k in 'QPBDE':
        if env.sim.stats.get('srv_error_at_' + k):
            env.probe(k)
    if env.sim.stats.get('srv_error_in_copy'):
        env.probe('copy')
    if any(t[0] == 'tx' for t in s.transcript):
        env.probe('in_tx')
    s.db.close()
    env.nontrivial = n > 0
