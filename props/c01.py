"""C01: results do not depend on how the network splits or joins bytes."""
from sim.core import *
from sim import client, wl, net as netmod
from sim.work import Session

PROP = 'C01'
RULE = ('one evaluation = one seeded session executed twice, over a network that keeps messages whole and over one that splits, '
        'coalesces, delays and truncates; distinct non-trivial = distinct sequences of operations, server replies and read sizes '
        'among runs in which at least one read, write or delivery was split')
RUNS = {'quick': 5000, 'thorough': 60000}
REAL = ['postgresql.protocol.* (buffer, client3, xact3, element3, pbuffer, C optimized.c)', 'postgresql.driver.pq3', 'postgresql.python.socket', 'postgresql.types.io']
STUB = ['server (simulated backend)', 'socket, select, getaddrinfo, clock (simulated)']
ASSUMPTIONS = ['requests are generated by the client one at a time; an erroring result is consumed before the next operation']
PROBES = ['split', 'bigmsg', 'error']


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES + (None,))
    g = wl.Gen(rng, chunk)
    ops = []
    for _ in range(rng.randrange(2, 12)):
        ops.append(g.mixed({'q': 6, 'put': 2, 'copyin': 2, 'copyout': 2, 'load': 1, 'raise': 1, 'say': 1, 'ses': 0} if 0 else
                           {'q': 6, 'put': 2, 'copyin': 2, 'copyout': 2, 'load': 1, 'raise': 1, 'say': 1}))
        if rng.random() < 0.25:
            o = g.open(err=0, hows=('rows', 'chunks', 'column', 'declare', 'copy'))
            o['s'] = 0
            ops += [o, {'op': 'step', 's': 0, 'k': rng.randrange(1, 6)}]
            if rng.random() < 0.5:
                ops.append(g.mixed({'put': 1, 'q': 2}))
            ops.append({'op': 'drain', 's': 0})
    return {'ops': ops, 'policy': wl.policy(rng, seg=rng.choice(['mixed', 'mixed', 'tiny'])), 'cfg': {'chunk': chunk}}


def once(env, policy, opts=None, **kw):
    env.net.policy = policy
    env.net.listeners.clear()
    env.backends = []
    s = wl.session(env, dict(opts or {}, record=True), reuse=0, **kw)
    env.sim.epoch = 1700000000
    s.run(env.ops)
    s.finish()
    s.db.close()
    env.sim.drain()
    return s, client.MESSAGES[:]


def compare(env, opts=None, **kw):
    pol = env.net.policy
    a, ma = once(env, netmod.Policy(), opts, **kw)
    wa = bytes(a.b.conn.wire)
    b, mb = once(env, pol, opts, **kw)
    wb = bytes(b.b.conn.wire)
    if a.transcript != b.transcript:
        for x, y in zip(a.transcript, b.transcript):
            if x != y:
                raise Violation('results-differ', '%r without trouble, %r with it' % (x, y))
        raise Violation('results-differ', 'different number of results')
    if wa != wb:
        k = next((i for i, (x, y) in enumerate(zip(wa, wb)) if x != y), min(len(wa), len(wb)))
        raise Violation('requests-differ', 'the request bytes differ from offset %d: %r and %r' % (k, wa[k:k + 40], wb[k:k + 40]))
    fa = [(m.code, m.message, sorted(m.details.items())) for m in ma]
    fb = [(m.code, m.message, sorted(m.details.items())) for m in mb]
    if fa != fb:
        raise Violation('messages-differ', '%r and %r' % (fa[:5], fb[:5]))
    return a, b


def run(env):
    a, b = compare(env)
    st = env.sim.stats
    if st.get('split_recv') or st.get('partial_send') or st.get('split_s2c'):
        env.probe('split')
        env.nontrivial = True
    if a.nerr:
        env.probe('error')
    if b.b.conn.s2c_sent > 16384:
        env.probe('bigmsg')
