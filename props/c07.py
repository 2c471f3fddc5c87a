"""C07: row streams deliver every row once, in order, at any size."""
from sim.core import *
from sim import client, wl

PROP = 'C07'
RULE = ('one evaluation = one seeded session reading results of seeded sizes (around multiples of the request size), shapes (1 to 13 columns, '
        'NULLs, undecodable values) by every access method, with pauses, other statements, transaction control and server errors in between; '
        'distinct non-trivial = distinct sequences of operations, replies and reads among runs that read at least one result larger than one request or failing')
RUNS = {'quick': 12000, 'thorough': 250000}
REAL = ['postgresql.driver.pq3 (statements, streams, cursors, Row)', 'postgresql.protocol.*', 'port.optimized and pure-Python process_chunk']
STUB = ['server (simulated backend producing generated results)', 'socket, select, clock (simulated)']
ASSUMPTIONS = ['one thread uses a connection at a time']
PROBES = ['empty', 'multiple', 'null_first', 'undecodable', 'mid_error', 'in_tx', 'paused', 'default_chunk', 'column', 'huge']
VARIANTS = ('c', 'py')
HOWS = ('query', 'call', 'rows', 'iter', 'chunks', 'column', 'first', 'declare', '.first', '.rows', '.chunks', '.column', '.declare')


def shape(rng):
    return rng.choice([1, 2, 3, 4, 5, 5, 6, 6, 7, 8, 9])


def size(rng, chunk):
    c = chunk or 4096
    if chunk is None:
        return rng.choice([0, 1, 3, 40, 4095, 4096, 4097, 8192]) if rng.random() < 0.15 else rng.randrange(0, 60)
    x = rng.random()
    if x < 0.6:
        return max(0, rng.randrange(0, 7) * c + rng.choice([-1, 0, 0, 1]))
    if x < 0.9:
        return rng.randrange(0, 3 * c + 3)
    return rng.randrange(0, 250)


def huge(rng):
    """a result of more rows than 16 bits count"""
    g = wl.Gen(rng, None)
    n = rng.choice([65534, 65535, 65536, 65537, 70000])
    r = g.g(err=0, notice=0, n=n)
    r[2] = 1
    ops = []
    if rng.random() < 0.4:
        ops.append(g.mixed({'tx': 1}))
    if rng.random() < 0.75:
        op = {'op': 'q', 'how': rng.choice([x for x in HOWS if 'declare' not in x]), 'g': r}
        if rng.random() < 0.4:
            op['par'] = 1
        ops.append(op)
    else:
        op = g.open(hows=('rows', 'chunks', 'column', 'sidchunks'))
        op['g'] = r
        ops.append(op)
    ops.append(g.q())
    return {'ops': ops, 'policy': {'seg': rng.choice(['whole', 'mixed'])}, 'cfg': {'chunk': None, 'gc': 0}}


def gen(rng, tier):
    if rng.random() < 0.006:
        return huge(rng)
    chunk = rng.choice(wl.CHUNKSIZES + (None,))
    g = wl.Gen(rng, chunk)
    ops = []

    def result():
        r = g.g(err=0.1, notice=0.08, n=size(rng, chunk))
        r[2] = shape(rng)
        if r[0] and r[3] < 0 and r[2] != 7 and rng.random() < 0.07:
            r[5] = rng.choice([0, r[0] - 1, rng.randrange(r[0])])
        return r
    for _ in range(rng.randrange(4, 26)):
        x = rng.random()
        if x < 0.33:
            op = {'op': 'q', 'how': rng.choice(HOWS), 'g': result()}
            if rng.random() < 0.4:
                op['par'] = 1
            if rng.random() < 0.5:
                op['st'] = rng.randrange(3)
            ops.append(op)
        elif x < 0.52:
            op = g.open(hows=('rows', 'rows', 'chunks', 'chunks', 'column', 'declare', 'sid', 'sidchunks', 'sidcol'))
            op['g'] = result()
            if op['how'] in ('rows', 'chunks', 'column') and rng.random() < 0.4:
                op['par'] = 1
            ops.append(op)
        elif x < 0.82:
            ops.append(g.stream())
        elif x < 0.88:
            ops.append({'op': 'wait', 'us': rng.choice([1, 1000, 10**7])})
        else:
            ops.append(g.mixed({'tx': 3, 'put': 3, 'gc': 1, 'say': 1, 'raise': 1}))
    return {'ops': ops, 'policy': wl.policy(rng), 'cfg': {'chunk': chunk, 'gc': rng.choice([0, 0, 20])}}


def run(env):
    s = wl.session(env, reuse=500)
    env.sim.gc_permille = env.cfg.get('gc', 0)
    env.nontrivial = False
    c = env.cfg.get('chunk') or 4096
    for op in env.ops:
        g = op.get('g')
        if g is not None:
            if g[0] > c or 0 <= g[3] < g[0]:
                env.nontrivial = True
            if g[0] == 0:
                env.probe('empty')
            if g[0] and g[0] % c == 0 and op['op'] == 'open':
                env.probe('multiple')
            if g[2] in (5, 6):
                env.probe('null_first')
            if 0 <= g[5] < g[0]:
                env.probe('undecodable')
            if 0 < g[3] < g[0]:
                env.probe('mid_error')
            if s.b.xtx is not None:
                env.probe('in_tx')
            if env.cfg.get('chunk') is None and g[0] > 4000:
                env.probe('default_chunk')
            if g[0] > 65535:
                env.probe('huge')
            if 'column' in op['how']:
                env.probe('column')
        if op['op'] == 'wait' and any(0 < x.pos < len(x.want) for x in s.slots.values()):
            env.probe('paused')
        s.do(op)
    s.finish()
    s.db.close()
