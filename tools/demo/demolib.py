"""
Runs a scenario against the package in the current directory (/repo), with the socket,
select and time functions replaced by a small deterministic network and a stand-in
PostgreSQL server (the files in sim/ beside this one).  No real socket is opened.
"""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from sim import core, net as netmod
netmod.install()
sys.path.insert(0, os.getcwd())


class NoExt:
    def find_spec(self, name, path=None, target=None):
        if name == 'postgresql.port.optimized':
            raise ImportError('disabled', name=name)


def pure():
    """use the pure-Python buffer instead of the C module (call before the first run)"""
    sys.meta_path.insert(0, NoExt())


class Env:
    pass


def run(fn, policy=None, opts=None, choice=0, connect=True, **kw):
    """one scenario: fn(env, server, db, backend)"""
    import postgresql
    assert os.path.realpath(postgresql.__file__).startswith(os.path.realpath(os.getcwd()) + os.sep)
    from sim import client, pgserver
    if client.pq3 is None:
        client.prepare()
    sim = core.Sim(core.Choices(choice), max_steps=2000000)
    env = Env()
    env.sim = sim; env.net = netmod.Net(sim, {}); env.cfg = {}; env.backends = []
    netmod.set_net(env.net)
    server = pgserver.Database(sim, opts)

    def accept(conn):
        b = pgserver.Backend(conn, server, None)
        env.backends.append(b)
        return b
    env.net.listen(client.ADDR, accept)
    client.reset(env, 0)
    env.client = client
    env.pgserver = pgserver
    try:
        db = b = None
        if connect:
            db = client.connect(env, **kw)
            b = env.backends[-1]
        env.net.policy = netmod.Policy(policy)
        r = fn(env, server, db, b)
        if sim.violations:
            raise AssertionError(sim.violations[0])
        return r
    finally:
        netmod.set_net(None)


def cut(b, direction, at, how='reset'):
    """break the connection at a byte offset counted from now"""
    c = b.conn
    if direction == 's2c':
        c.cut_s2c = {'at': c.s2c_sent + at, 'how': how}
    else:
        c.cut_c2s = {'at': c.c2s_sent + at, 'how': how}


def main(*scenarios):
    """exit 0 if every scenario runs without an exception"""
    for f in scenarios:
        try:
            f()
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            traceback.print_exc()
            print('FAILED: %s' % f.__name__)
            sys.stdout.flush()
            os._exit(1)
    print('ok')
    sys.stdout.flush()
    os._exit(0)
