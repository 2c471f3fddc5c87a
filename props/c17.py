"""C17: asynchronous messages reach their handlers once and disturb nothing."""
import gc
from sim.core import *
from sim import client, wl

PROP = 'C17'
RULE = ('one evaluation = one seeded session of mixed operations during which the server sends notices, warnings, parameter changes and '
        'notifications before seeded reply messages (equal ones next to each other, in every kind of reply), with handlers that raise at seeded '
        'calls; distinct non-trivial = distinct sequences of operations, replies and reads among runs in which at least one such message was sent')
RUNS = {'quick': 22000, 'thorough': 250000}
REAL = ['postgresql.driver.pq3 (message and settings hooks)', 'postgresql.protocol.* (C and Python buffer)', 'postgresql.message', 'postgresql.sys']
STUB = ['server (simulated backend with injected asynchronous messages)', 'socket, select, clock (simulated)']
ASSUMPTIONS = ['handlers raise subclasses of Exception', 'when a settings subscriber raises, the subscribers after it are not called for that change']
PROBES = ['notice', 'status', 'notify', 'handler_raised', 'subscriber_raised', 'connection_hook', 'in_copy', 'in_stream', 'unsubscribed']
VARIANTS = ('c', 'py')


class Boom(Exception):
    pass


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES + (None,))
    g = wl.Gen(rng, chunk)
    w = {'q': 5, 'open': 4, 'stream': 8, 'put': 2, 'copyin': 2, 'copyout': 3, 'load': 2, 'raise': 1, 'tx': 2, 'gc': 1, 'say': 3}
    ops = [g.mixed(w) for _ in range(rng.randrange(3, 18))]
    if rng.random() < 0.5:
        for _ in range(rng.randrange(1, 4)):
            name, vals = rng.choice(wl.PARAMS[:3])
            ops.insert(rng.randrange(len(ops) + 1), {'op': 'set', 'k': name, 'v': rng.choice(vals)})
    cfg = {'chunk': chunk, 'async': wl.asyncs(rng, rng.choice([10, 40, 150]), 8), 'hook': rng.choice(['sys', 'sys', 'db', 'db_pass'])}
    if rng.random() < 0.35:
        cfg['raise'] = sorted({rng.randrange(8) for _ in range(rng.randrange(1, 4))})
    if rng.random() < 0.5:
        cfg['subs'] = [[rng.choice(['application_name', 'TimeZone', None]), rng.choice(['', '', '', 'raise', 'once'])] for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.5:
        cfg['gc'] = rng.choice([0, 20])
    return {'ops': ops, 'policy': wl.policy(rng), 'cfg': cfg}


def run(env):
    cfg = env.cfg
    s = wl.session(env)
    db = s.db
    env.sim.gc_permille = cfg.get('gc', 0)
    got = []
    calls = []
    bad = set(cfg.get('raise', ()))

    def hook(m, *a, **k):
        if m.source == 'SERVER':
            got.append(m)
            if len(got) - 1 in bad:
                env.probe('handler_raised')
                raise Boom('handler')
    own = []

    def dbhook(m):
        if cfg['hook'] == 'db':
            hook(m)
            return True
        own.append(m)
    if cfg['hook'] != 'sys':
        db.msghook = dbhook
        env.probe('connection_hook')
    sysgot = client.MESSAGES
    n0 = len(sysgot)
    old = client.pgsys.msghook
    if cfg['hook'] != 'db':
        client.pgsys.msghook = hook
    subs = []
    for k, (key, how) in enumerate(cfg.get('subs', ())):
        rec = {'key': key, 'how': how, 'calls': []}

        def cb(conn, name, val, rec=rec):
            if conn is not db:
                raise Violation('wrong-subscriber-call', 'called with %r' % (conn,))
            rec['calls'].append((name, val))
            if rec['how'] == 'once':
                env.probe('unsubscribed')
                db.settings.unsubscribe(rec['key'], rec['cb'])
            if rec['how'] == 'raise':
                env.probe('subscriber_raised')
                raise Boom('subscriber')
        rec['cb'] = cb
        db.settings.subscribe(key, cb)
        subs.append(rec)
    b = s.b
    a0 = len(b.sent_async)
    wl.inject(b, cfg['async'])
    unsure = set()
    try:
        for op in env.ops:
            n = len(b.sent_async)
            s.do(op)
            if op['op'] == 'set':
                # a change while the setting is being assigned: either value may be seen last
                unsure.update(x[1] for x in b.sent_async[n:] if x[0] == 'status')
            if len(b.sent_async) > n:
                if op['op'] in ('copyin', 'copyout') or 'copy' in op.get('how', ''):
                    env.probe('in_copy')
                if op['op'] in ('step', 'drain'):
                    env.probe('in_stream')
        s.finish()
        # everything sent so far has been read now
        st, val = client.call(lambda: db.query.first('SELECT 1'))
        sent = b.sent_async[a0:]
        env.nontrivial = bool(sent)
        for x in sent:
            env.probe(x[0])
        nots = [x for x in sent if x[0] == 'notice']
        wl.check_messages(nots, got)
        if cfg['hook'] == 'db_pass':
            wl.check_messages(nots, [m for m in own if m.source == 'SERVER'])
        sts = [x for x in sent if x[0] == 'status']
        last = {}
        for _, k, v in sts:
            last[k] = v
        for k, v in last.items():
            st, val = client.call(lambda: db.settings[k])
            if st == 'ok' and val != v and k not in unsure:
                raise Violation('stale-setting', 'the server reported %s = %r but the settings say %r' % (k, v, val))
        check_subs(subs, sts)
        s.db.close()
    finally:
        client.pgsys.msghook = old


def check_subs(subs, sts):
    """which subscriber is called for which change: those of the setting in order of subscription, then those of every setting"""
    live = list(subs)
    want = {id(r): [] for r in subs}
    for _, k, v in sts:
        for r in [r for r in live if r['key'] == k] + [r for r in live if r['key'] is None]:
            want[id(r)].append((k, v))
            if r['how'] == 'once':
                live.remove(r)
            if r['how'] == 'raise':
                break
    for n, r in enumerate(subs):
        if r['calls'] != want[id(r)]:
            raise Violation('wrong-subscriber-calls', 'subscriber %d of %r was called with %r instead of %r' % (n, r['key'], r['calls'], want[id(r)]))
