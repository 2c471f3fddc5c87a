"""Client-side plumbing: how a run gets connections from the real driver."""
import sys, weakref, gc, itertools
from .core import *
from . import net as netmod

pq3 = None; pgexc = None; pgsys = None
ADDR = ('10.0.0.1', 5432)


class IdPool:
    """
    A stand-in for id(): deterministic numbers, and (as in CPython) the number of a dead
    object may be handed out again at once.
    """
    def __init__(self):
        self.reset(None)

    def reset(self, sim, reuse=500):
        self.sim = sim; self.reuse = reuse
        self.live = {}; self.free = []; self.n = 0

    def __call__(self, o):
        k = id(o)
        e = self.live.get(k)
        if e is not None and e[0]() is o:
            return e[1]
        if self.sim is None:
            return k
        if self.free and self.sim.ch.chance(self.reuse):
            v = self.free.pop()
            self.sim.count('id_reused')
        else:
            self.n += 1
            v = 0x1000 + 16 * self.n
        live = self.live; free = self.free

        def gone(r, k=k, v=v):
            if live.get(k, (None, None))[0] is r:
                del live[k]
            free.append(v)
        self.live[k] = (weakref.ref(o, gone), v)
        return v


IDS = IdPool()
MESSAGES = []           # what reached postgresql.sys.msghook
HOOK_ERRORS = []        # what reached sys.excepthook


def prepare():
    """once per process, after the package is importable"""
    global pq3, pgexc, pgsys, SimConnection, DRIVER
    import postgresql.driver.pq3 as _pq3
    import postgresql.exceptions as _e
    import postgresql.sys as _s
    pq3 = _pq3; pgexc = _e; pgsys = _s
    pq3.id = IDS

    class SimConnection(pq3.Connection):
        """only gives connections a hash that does not depend on their address"""
        _serial = 0

        def __hash__(self):
            return self._serial

    DRIVER = pq3.Driver(connection=SimConnection)
    _s.msghook = lambda m, *a, **k: MESSAGES.append(m)
    sys.excepthook = lambda t, v, tb: HOOK_ERRORS.append(v)
    import warnings
    warnings.simplefilter('ignore')


def reset(env, reuse=500):
    """start of a run"""
    env.serial = 0
    IDS.reset(env.sim, reuse)
    del MESSAGES[:]
    del HOOK_ERRORS[:]


def connector(env, host=None, port=None, user='sim', password='secret', database='simdb', **kw):
    """a connector for a literal address (default: the one server)"""
    kw.setdefault('sslmode', 'disable')
    c = DRIVER.fit(host=host or ADDR[0], port=port or ADDR[1], user=user, password=password, database=database, **kw)
    return c


def connection(env, ctor=None, **kw):
    ctor = ctor or connector(env, **kw)
    db = ctor()
    env.serial += 1
    db._serial = env.serial
    return db


def connect(env, **kw):
    db = connection(env, **kw)
    db.connect()
    return db


def pgerror(e):
    return isinstance(e, (pgexc.Error,))


def call(fn, *a, **k):
    """
    run a driver call: ('ok', value) or ('err', exception) for the package's own errors;
    anything else propagates and is judged by the engine
    """
    try:
        return 'ok', fn(*a, **k)
    except Exception as e:
        if pgerror(e):
            e.__traceback__ = None
            return 'err', e
        raise
