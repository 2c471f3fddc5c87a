"""C02: each operation receives its own results under any interleaving."""
from sim.core import *
from sim import client, wl
from sim.work import Session

PROP = 'C02'
RULE = ('one evaluation = one seeded session interleaving up to four open results with other operations; distinct non-trivial = '
        'distinct sequences of operations and server replies among runs in which an operation ran while a request of another was pending or a stream was half read')
RUNS = {'quick': 12000, 'thorough': 250000}
REAL = ['postgresql.driver.pq3', 'postgresql.protocol.*', 'postgresql.python.socket', 'postgresql.types.io']
STUB = ['server (simulated backend)', 'socket, select, clock (simulated)', 'id() as seen by the driver (reuse is a seeded choice)']
ASSUMPTIONS = ['one thread uses a connection at a time']
PROBES = ['interleaved', 'stream_error', 'foreign_error', 'in_tx', 'id_reuse']

W = {'open': 8, 'stream': 14, 'q': 4, 'put': 2, 'copyin': 1, 'copyout': 1, 'load': 1, 'raise': 1, 'tx': 2, 'gc': 1, 'say': 1}


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES + (2, 3, None))
    g = wl.Gen(rng, chunk)
    ops = [g.mixed({'open': 3, 'q': 1, 'tx': 1})]
    w = dict(W)
    if rng.random() < 0.3:
        w['tx'] = 0
    for _ in range(rng.randrange(6, 40)):
        ops.append(g.mixed(w))
    return {'ops': ops, 'policy': wl.policy(rng, again=rng.choice([0, 0, 0, 40])),
            'cfg': {'chunk': chunk, 'reuse': rng.choice([0, 500, 950]), 'gc': rng.choice([0, 0, 20])}}


def run(env):
    s = wl.session(env, reuse=env.cfg['reuse'])
    env.sim.gc_permille = env.cfg['gc']
    inter = 0
    for op in env.ops:
        if op['op'] not in ('step', 'drain', 'drop', 'gc') and s.slots and any(0 < x.pos < len(x.want) for x in s.slots.values()):
            inter += 1
        s.do(op)
    if any(x.failed for x in s.slots.values()):
        env.probe('stream_error')
    if s.b.tx is not None:
        env.probe('in_tx')
    if env.sim.stats.get('id_reused'):
        env.probe('id_reuse')
    s.finish()
    env.nontrivial = inter > 0
    if inter:
        env.probe('interleaved')
