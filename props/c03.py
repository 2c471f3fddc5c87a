"""C03: transient socket errors are invisible to the application."""
from sim.core import *
from sim import client, wl, net as netmod
from sim.work import Session
from props import c01

PROP = 'C03'
RULE = ('one evaluation = one seeded session executed twice, without trouble and with EAGAIN/EWOULDBLOCK/EINTR/ETIMEDOUT raised by seeded sends and '
        'receives (including the SSL negotiation, start-up, COPY and streams) on top of splits and short writes; distinct non-trivial = '
        'distinct sequences of operations, replies, reads and retries among runs in which at least one such error was raised')
RUNS = {'quick': 10000, 'thorough': 80000}
REAL = c01.REAL
STUB = c01.STUB + ['TLS (simulated handshake that passes bytes through)']
ASSUMPTIONS = ['the error is transient: the same call eventually succeeds']
PROBES = ['retry', 'retry_send', 'retry_recv', 'burst', 'ssl', 'copy', 'stream']


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES + (None,))
    g = wl.Gen(rng, chunk)
    ops = []
    if rng.random() < 0.25:
        ops.append({'op': 'tx', 'how': 'begin'})
    for _ in range(rng.randrange(1, 10)):
        ops.append(g.mixed({'q': 6, 'put': 2, 'copyin': 3, 'copyout': 3, 'load': 2, 'raise': 1, 'say': 1}))
        if rng.random() < 0.3:
            o = g.open(err=0, hows=('rows', 'chunks', 'column', 'declare', 'copy'))
            o['s'] = 0
            ops += [o, {'op': 'step', 's': 0, 'k': rng.randrange(1, 6)}]
            if rng.random() < 0.5:
                ops.append(g.mixed({'put': 1, 'q': 2}))
            ops.append({'op': 'drain', 's': 0})
    if rng.random() < 0.2:
        ops.append({'op': 'tx', 'how': rng.choice(['commit', 'rollback'])})
    pol = {'again': rng.choice([20, 80, 300, 700, 930])}
    seg = rng.choice(['whole', 'whole', 'mixed', 'tiny'] if pol['again'] < 500 else ['whole', 'whole', 'mixed'])
    if seg != 'whole':
        pol['seg'] = seg
    if rng.random() < 0.5:
        pol['partial'] = rng.choice([100, 500])
    if rng.random() < 0.4:
        pol['delay'] = rng.choice([200, 5000])
    if rng.random() < 0.4:
        pol['errnos'] = [rng.choice(list(netmod.RETRY))]
    cfg = {'chunk': chunk}
    x = rng.random()
    if x < 0.35:
        cfg['ssl'] = rng.choice([['require', True], ['prefer', True], ['prefer', False], ['allow', True]])
    return {'ops': ops, 'policy': pol, 'cfg': cfg}


def run(env):
    kw = {}
    o = {}
    if env.cfg.get('ssl'):
        env.probe('ssl')
        kw['sslmode'] = env.cfg['ssl'][0]
        o['ssl'] = 'S' if env.cfg['ssl'][1] else 'N'
    c01.compare(env, o, **kw)
    st = env.sim.stats
    n = 0
    for k, v in list(st.items()):
        if k.startswith('retry_'):
            n += v
            env.probe('retry_' + k.split('_')[1])
    if n:
        env.probe('retry')
    if n > 50:
        env.probe('burst')
    for op in env.ops:
        if op['op'] in ('copyin', 'copyout'):
            env.probe('copy')
        if op['op'] == 'open':
            env.probe('stream')
    env.nontrivial = n > 0
