"""C21: cluster control reports the true state of the server process."""
import errno, os, io
from sim.core import *
from sim import client, wl, osworld, pgserver
from sim.osworld import World, Proc

PROP = 'C21'
RULE = ('one evaluation = one seeded program of cluster operations (init, start, waits, stop, shutdown, kill, reload, restart, drop, connect, with-blocks, '
        'state) on one data directory, by one or several Cluster objects and other programs, against a simulated server process whose every step (pid file, '
        'listening, ready, crash, shutdown, exit) happens at seeded times between the calls the library makes; distinct non-trivial = distinct sequences of '
        'system calls, process events and outcomes among runs in which a server process existed')
RUNS = {'quick': 60000, 'thorough': 1000000}
VARIANTS = ('c',)
MAX_STEPS = 600000
REAL = ['postgresql.cluster.Cluster', 'postgresql.configfile', 'postgresql.driver.pq3 connecting to the server (readiness check)']
STUB = ['process table, signals and subprocess.Popen (simulated)', 'the server and initdb programs (simulated life cycle after the PostgreSQL sources)',
        'file system, clock, sockets (simulated)']
ASSUMPTIONS = ['the content of the pid file appears in one step (it may be empty before)',
               'a pid file that names a running process is taken for that of a running server (as pg_ctl does)',
               'a pid file naming a process that may not be signalled raises PermissionError',
               'once its pid file is gone a server of another program counts as stopped',
               'the server answers the readiness check or refuses the connection; the operating system calls do not block']
PROBES = ['started', 'startup_error', 'timeout', 'notready', 'stopped', 'stop_timeout', 'killed', 'stale', 'reused', 'dropped', 'init_ok', 'init_failed',
          'init_timeout', 'attached', 'restarted', 'connected', 'emptypid', 'spawn_fault', 'open_fault', 'notrunning', 'squat', 'init_interrupted']

DIR = osworld.ROOT + '/pg'
PIDFILE = DIR + '/postmaster.pid'
ME = 1000
SIGS = {'stop': 15, 'shutdown': 2, 'kill': 9, 'reload': 1}


def life(rng):
    ms = lambda *a: rng.choice(a + (rng.randrange(0, 900),))
    l = {'lock': ms(0, 1, 20), 'gap': ms(0, 0, 1, 60), 'listen': ms(0, 1, 10), 'ready': ms(0, 1, 100, 400), 'exit': ms(0, 0, 1, 80)}
    l['term'] = rng.choice([0, 1, 60, 300, 700, -1])
    l['int'] = rng.choice([0, 1, 60, 300, -1])
    if rng.random() < 0.05:
        l['mute'] = rng.choice([100, 900, 5000, 30000])
    if rng.random() < 0.25:
        l['crash'] = [rng.choice(['spawn', 'empty', 'pid', 'listen', 'ready']), rng.choice([1, 1, -11, -9]), rng.randrange(0, 500), rng.randrange(2)]
    return l


def gen(rng, tier):
    cfg = {'life': [life(rng) for _ in range(rng.randrange(1, 4))], 'reuse': rng.choice([0, 0, 500, 1000]), 'reuse_uid': rng.choice([ME, ME, 0]),
           'stall': rng.choice([0, 50, 200, 500]), 'addr': rng.choice(['localhost', "*", '127.0.0.1', '10.9.9.9,localhost', None, '10.9.9.9', '10.9.9.9,10.8.8.8', '::1', '10.9.9.9,::1']), 'port': rng.choice([5432, 6543, None])}
    ops = []

    def t():
        return {'timeout': rng.choice([0, 100, 500, 1000, 2000]), 'delay': rng.choice([10, 50, 50, 200])}
    x = rng.random()
    if x < 0.25:
        ops.append({'op': 'pidfile', 'what': rng.choice(['dead', 'dead', 'foreign', 'foreign', 'root', 'empty', 'junk', 'negative', 'zero'])})
    elif x < 0.45:
        ops.append({'op': 'ext_start'})
    for _ in range(rng.randrange(1, 9)):
        o = {'op': rng.choice(['start', 'start', 'start', 'wait_started', 'wait_started', 'wait_started', 'stop', 'stop', 'shutdown', 'kill', 'reload', 'wait_stopped',
                               'wait_stopped', 'wait_stopped', 'restart', 'running', 'running', 'state', 'fresh', 'sleep', 'connect', 'with', 'drop', 'init', 'ext_start',
                               'ext_kill', 'ext_stop', 'ready', 'ready', 'str', 'pid', 'connect', 'squat'])}
        k = o['op']
        if k in ('wait_started', 'wait_stopped', 'restart'):
            o.update(t())
        if k == 'start' and rng.random() < 0.3:
            o['settings'] = rng.choice([{'port': '6543'}, {'a': 'b c', 'shared_buffers': '1MB'}])
        if k == 'start' and rng.random() < 0.2:
            o['log'] = 1
        if k == 'squat':
            o.update(how=rng.choice(['28000', '28000', '57P03', 'accept']), ms=rng.choice([300, 3000, 20000]))
        if k == 'sleep':
            o['ms'] = rng.choice([1, 50, 300, 1500])
        if k == 'init':
            o.update(password=rng.choice([None, 'secret', 'p\u00e4ss', 'snow\u2603']), rc=rng.choice([0, 0, 1, -9]), ms=rng.choice([0, 30, 2500, 9000]), deaf=rng.randrange(2), timeout=rng.choice([None, 1000]),
                     encoding=rng.choice([None, 'utf-8', 'latin1', 'UTF8', 'LATIN1']), err=rng.choice(['', 'failed', '\udce9']), user=rng.choice([None, 'test']))
            if rng.random() < 0.15:
                o['kbd'] = rng.choice([1, 20, 800, 2000])
        if k in ('start', 'restart', 'with', 'init', 'wait_started', 'wait_stopped', 'running', 'stop') and rng.random() < 0.08:
            o['fault'] = rng.choice([['spawn', rng.choice(['EAGAIN', 'ENOENT', 'ENOMEM']), 0], ['open', rng.choice(['EMFILE', 'ENFILE', 'EACCES']), rng.randrange(0, 5)],
                                     ['write', 'ENOSPC', rng.randrange(0, 2)]])
        ops.append(o)
        if k == 'start' and rng.random() < 0.6:
            ops.append(dict({'op': 'wait_started'}, **t()))
        if k in ('stop', 'shutdown', 'kill') and rng.random() < 0.6:
            ops.append(dict({'op': 'wait_stopped'}, **t()))
    return {'ops': ops, 'faults': [], 'policy': {} if rng.random() < 0.5 else wl.policy(rng), 'cfg': cfg}


def simplify(plan):
    import copy
    for i, l in enumerate(plan['cfg']['life']):
        if 'mute' in l:
            p = copy.deepcopy(plan); del p['cfg']['life'][i]['mute']
            yield p
        if 'crash' in l:
            p = copy.deepcopy(plan); del p['cfg']['life'][i]['crash']
            yield p
        for k in ('lock', 'gap', 'listen', 'ready', 'exit', 'term', 'int'):
            if l[k]:
                p = copy.deepcopy(plan); p['cfg']['life'][i][k] = 0
                yield p
    for i, o in enumerate(plan['ops']):
        if 'fault' in o:
            p = copy.deepcopy(plan); del p['ops'][i]['fault']
            yield p


class Server(Proc):
    """a postgres server process"""
    run = None
    stage = 'spawn'
    ready = False
    listening = False
    haspid = False
    stopping = None

    def begin(self, life):
        self.life = life
        self.at('spawn')
        self.later(life['lock'], self.lock)

    def later(self, ms, fn):
        def go():
            if self.alive:
                fn()
        self.w.sim.after(ms * MS + self.w.sim.ch.below(MS), go)

    def at(self, stage):
        self.stage = stage
        self.w.sim.log('proc', self.pid, stage)
        self.w.sim.mark(stage)
        c = self.life.get('crash')
        if c and c[0] == stage:
            def die():
                if c[3] and self.haspid:
                    self.unlink()
                self.exit(c[1])
            self.later(c[2], die)
        self.w.changed()

    def lock(self):
        r = self.run
        n = r.pidnode()
        if n is None and not r.havedir():
            return self.exit(1)
        if n is not None:
            p = r.filepid()
            try:
                v = int(bytes(n.data).split(b'\n')[0])
            except ValueError:
                return self.exit(1)          # "lock file is empty" and "bogus data in lock file"
            o = self.w.procs.get(abs(v)) if v else None
            if v == 0 or (o is not None and o.uid == ME and o.pid != self.pid):
                return self.exit(1)
        if n is not None:
            self.w.drop(PIDFILE)
        self.node = self.w.put(PIDFILE, b'')
        self.haspid = True
        self.at('empty')
        self.later(self.life['gap'], self.writepid)

    def writepid(self):
        self.node.data[:] = b'%d\n%s\n1700000000\n5432\n' % (self.pid, DIR.encode())
        self.at('pid')
        self.later(self.life['listen'], self.listen)

    def listen(self):
        if self.stopping is not None:
            return
        r = self.run
        if any(a in r.squats for a in r.addrs()):
            self.unlink()
            return self.exit(1)             # "could not create any TCP/IP sockets"
        self.listening = True
        self.addr = []
        for a in r.addrs():
            if a not in r.env.net.listeners:
                wl.serve(r.env, {'reject': self.admit, 'slow_start': lambda b: (MS * self.life['mute'] if self.life.get('mute') else 0)}, a)
                self.addr.append(a)
        self.at('listen')
        self.later(self.life['ready'], self.get_ready)

    def get_ready(self):
        if self.stopping is None:
            self.ready = True
            self.at('ready')

    def admit(self, b):
        if not self.ready:
            return '57P03'
        if b.params.get('user') == 'test':
            return None
        return '28000'

    def deliver(self, sig):
        if sig == 9:
            self.run.env.probe('killed')
            return self.exit(-9)
        if sig in (15, 2):
            d = self.life['term' if sig == 15 else 'int']
            if d < 0 or not self.haspid:
                if not self.haspid:
                    return self.exit(-sig)        # no handler yet
                return
            if self.stopping is None or sig < self.stopping:
                self.stopping = sig
                self.ready = False
                self.later(d, self.unlisten)
        self.w.changed()

    def unlisten(self):
        self.close()
        self.unlink()
        self.at('unlinked')
        self.later(self.life['exit'], lambda: self.exit(0))

    def unlink(self):
        if self.haspid:
            self.haspid = False
            if self.run.pidnode() is self.node:
                self.w.drop(PIDFILE)
            self.w.changed()

    def close(self):
        if self.listening:
            self.listening = self.ready = False
            for a in self.addr:
                self.run.env.net.listeners.pop(a, None)
            self.w.changed()

    def on_exit(self):
        if not self.listening:
            return
        self.close()
        for b in getattr(self.run.env, 'backends', ()):
            if not b.conn.lost:
                b.conn.server_close('reset')


class InitDB(Proc):
    out = b''
    errout = b''
    deaf = False

    def deliver(self, sig):
        if sig == 9 or not self.deaf:
            self.exit(-sig)


class Run:
    def __init__(self, env):
        from postgresql import cluster, exceptions
        self.env = env; self.sim = env.sim; self.mod = cluster; self.exc = exceptions
        self.cfg = dict(env.cfg)
        w = self.w = World(env.sim)
        w.exec = self.exec
        w.on_free = self.freed
        w.on_change = self.note
        w.onstep = self.onstep
        env.net.names['localhost'] = ['127.0.0.1']
        for a in ('127.0.0.1', '::1', '10.9.9.9', '10.8.8.8'):
            env.net.names[a] = [a]
        env.backends = []
        self.nlife = 0
        self.states = []
        self.stall = 0
        self.fault = None
        self.fired = None
        self.spawned = []
        self.squats = {}
        self.outside()
        self.cl = None
        self.fresh()

    def outside(self):
        w, c = self.w, self.cfg
        w.mkdirs(DIR + '/base/1')
        w.mkdirs(osworld.ROOT + '/space/PG_16')
        w.mkdirs(osworld.ROOT + '/wal')
        w.put(osworld.ROOT + '/wal/000001', b'x')
        w.put(osworld.ROOT + '/space/PG_16/1', b'x')
        w.put(DIR + '/base/1/112', b'data')
        w.put_link(DIR + '/pg_wal', osworld.ROOT + '/wal')
        w.mkdirs(DIR + '/pg_tblspc')
        w.put_link(DIR + '/pg_tblspc/16400', '../../space')
        conf = '# config\n'
        if c['addr'] is not None:
            conf += "listen_addresses = '%s'\n" % c['addr']
        else:
            conf += "#listen_addresses = 'localhost'\n"
        conf += ('port = %d\n' % c['port']) if c['port'] else '#port = 5432\n'
        w.put(DIR + '/postgresql.conf', conf.encode())

    def addrs(self):
        p = self.cfg['port'] or 5432
        a = self.cfg['addr']
        if a in ('10.9.9.9', '10.9.9.9,10.8.8.8', '::1', '10.9.9.9,::1'):
            return [(x, p) for x in a.split(',')]
        return [('127.0.0.1', p)]

    def fail(self, kind, *d):
        raise Violation(kind, ' '.join(str(x) for x in d))

    # ------------------------------------------------------------ the truth
    def havedir(self):
        return self.w.ls(DIR) is not None

    def pidnode(self):
        try:
            return self.w.walk(PIDFILE)[2]
        except OSError:
            return None

    def filepid(self):
        n = self.pidnode()
        if n is None:
            return None
        try:
            v = int(bytes(n.data).split(b'\n')[0])
        except ValueError:
            return None
        return v if v > 0 else None

    def servers(self):
        return [p for p in self.w.procs.values() if isinstance(p, Server) and p.alive]

    def note(self):
        s = {'t': self.sim.now, 'file': self.filepid(), 'exists': frozenset(self.w.procs), 'alive': frozenset(p.pid for p in self.w.procs.values() if p.alive),
             'noperm': frozenset(p.pid for p in self.w.procs.values() if p.uid != ME), 'ready': any(p.ready for p in self.servers()),
             'servers': frozenset(p.pid for p in self.servers()), 'squat': bool(self.squats)}
        self.states.append(s)

    def since(self, mark):
        return self.states[mark:]

    def mark(self):
        self.note()
        return len(self.states) - 1

    # ------------------------------------------------------------ hooks
    def onstep(self, op, path):
        ch = self.sim.ch
        if self.sim.q and ch.chance(self.cfg['stall']):
            # something happens just between two calls
            d = max(0, self.sim.q[0][0] - self.sim.now)
            self.stall += d
            self.sim.count('stall')
            self.sim.mark('~')
            self.sim.sleep_us(d)
        else:
            d = ch.below(50)
            self.stall += d
            self.sim.sleep_us(d)
        f = self.fault
        if f is not None and (op == f[0]) and (op != 'open' or str(path) == PIDFILE):
            if f[2] == 0:
                self.fault = None
                self.fired = f
                self.sim.count('fs_err')
                self.env.probe('spawn_fault' if op == 'spawn' else 'open_fault')
                raise osworld.err(getattr(errno, f[1]), str(path))
            f[2] -= 1

    def freed(self, pid):
        if self.sim.ch.chance(self.cfg['reuse']):
            def take():
                if pid not in self.w.procs:
                    p = Proc(self.w, pid, 'stranger', uid=self.cfg['reuse_uid'])
                    self.w.procs[pid] = p
                    self.env.probe('reused')
                    self.sim.count('pid_reused')
                    self.note()
            self.sim.after(self.sim.ch.below(3) * MS, take)

    def exec(self, argv, kw):
        if argv[0] == '/opt/pg/initdb':
            p = self.w.newproc(InitDB, 'initdb', child=True)
            self.initdb(p, argv)
            return p
        if argv[0] != '/opt/pg/postgres' or argv[1:3] != ['-D', DIR]:
            self.fail('wrong-command', argv)
        self.argv = argv
        return self.server(child=True)

    def server(self, child):
        p = self.w.newproc(Server, 'postgres', child=child)
        p.run = self
        L = self.cfg['life']
        l = L[self.nlife % len(L)]
        self.nlife += 1
        self.spawned.append(p)
        p.begin(l)
        return p

    def fresh(self):
        class Inst:
            initdb = '/opt/pg/initdb'
            pg_ctl = '/opt/pg/pg_ctl'
            postmaster = None
            postgres = '/opt/pg/postgres'
            version_info = (16, 3, 0, 'final', 0)
            version = '16.3'

            def __repr__(self):
                return '<installation>'
        self.cl = self.mod.Cluster(Inst(), DIR)
        self.cl.driver = client.DRIVER
        self.d = None               # the server process this object started last

    # ------------------------------------------------------------ calling the library
    def call(self, fn):
        """('ok', value) | ('err', exception of the package) | ('os', OSError explained by a fault or by permissions)"""
        self.stall = 0
        m = self.mark()
        n = len(self.w.signals)
        ns = len(self.spawned)
        t0 = self.sim.now
        self.w.armed = True
        try:
            try:
                r = ('ok', fn())
            except self.exc.Error as e:
                e.__traceback__ = None
                e.__context__ = None
                r = ('err', e)
            except OSError as e:
                perm = isinstance(e, PermissionError) and any(s['file'] in z['noperm'] for s in self.since(m) for z in self.since(m))
                if self.fired is None and not perm:
                    raise
                r = ('os', e)
        finally:
            self.w.armed = False
        self.m = m
        self.took = self.sim.now - t0
        self.note()
        if len(self.spawned) > ns:
            self.d = self.spawned[-1]
        # whom the signals went to
        for t, pid, sig, p in self.w.signals[n:]:
            if not sig:
                if pid <= 0:
                    self.fail('signal-group', 'kill(%d, 0)' % pid)
                continue
            if pid <= 0:
                self.fail('signal-group', 'signal %d was sent to %d' % (sig, pid))
            if p is None or isinstance(p, (Server, InitDB)):
                continue
            if not any(s['file'] == pid for s in self.since(m)):
                self.fail('stranger-signalled', 'signal %d was sent to process %d, which is not the server and is not named in the pid file' % (sig, pid))
            if self.d is not None and self.d.alive and all(self.d.pid in s['alive'] for s in self.since(m)) and len(self.spawned) == ns:
                self.fail('stranger-signalled', 'signal %d was sent to process %d although the server that was started is process %d' % (sig, pid, self.d.pid))
        return r

    def up(self, s, s2=None):
        """in state s (then s2), could a look say that the server runs?"""
        if self.d is not None and self.d.pid in s['alive'] and self.d.pid in s['servers']:
            return True
        return s['file'] is not None and s['file'] in (s2 or s)['exists']

    def could_run(self):
        S = self.since(self.m)
        return any(self.up(a, b) for i, a in enumerate(S) for b in S[i:])

    def could_stop(self):
        S = self.since(self.m)
        d = self.d
        for i, a in enumerate(S):
            if d is not None and d.pid in a['servers']:
                continue
            for b in S[i:]:
                if a['file'] is None or a['file'] not in b['exists']:
                    return True
        return False

    def readiness(self):
        return [s['ready'] for s in self.since(self.m)]

    def seemed_ready(self):
        """a server that ran, with somebody answering at its address"""
        return any(self.readiness()) or (any(s['squat'] for s in self.since(self.m)) and self.could_run())

    def desc(self):
        return '; '.join('%.6f file %s alive %s servers %s%s' % (s['t'] / SEC, s['file'], sorted(s['alive']), sorted(s['servers']), ' ready' if s['ready'] else '')
                         for s in self.since(self.m)[-12:])

    def limit(self, what, timeout, delay, times=1):
        """an operation that gives up does it in about the time allowed"""
        ping = 1 * SEC          # what the simulated network may add to one look
        if self.took > times * (timeout * MS + delay * MS + ping) + self.stall:
            # servers that accept the connection of the readiness check and answer it late
            if self.took < times * (timeout * MS + delay * MS + 2 * ping + 2 * MS * max([p.life.get('mute', 0) for p in self.spawned] + [0])) + self.stall:
                return self.env.known('K07', 'late', what)
            self.fail('late', '%s with a timeout of %d ms took %.3f s' % (what, timeout, self.took / SEC))

    def cluster_error(self, what, e, *ok):
        if not isinstance(e, (self.mod.ClusterError,) + ok):
            self.fail('wrong-error', '%s raised %s %s' % (what, type(e).__name__, e))

    # ------------------------------------------------------------ operations
    def op_start(self, o):
        ns = len(self.spawned)
        kw = {}
        if o.get('settings'):
            kw['settings'] = dict(o['settings'])
        lf = None
        if o.get('log'):
            lf = open(osworld.ROOT + '/tmp/log', 'wb')
            kw['logfile'] = lf
        st, v = self.call(lambda: self.cl.start(**kw))
        if lf:
            lf.close()
        new = len(self.spawned) - ns
        if st == 'os':
            if new:
                self.fail('failure-after-start', 'start() raised %r but a server was started' % v)
            return
        if st == 'err':
            self.fail('wrong-error', 'start() raised %r' % v)
        if new > 1:
            self.fail('wrong-start', 'start() started %d servers' % new)
        before = self.since(self.m)
        if new:
            self.env.probe('started')
            if o.get('settings'):
                for k, val in o['settings'].items():
                    if '--%s=%s' % (k, val) not in self.argv:
                        self.fail('wrong-command', 'setting %s is not in %r' % (k, self.argv))
            # was it really not running?
            save, self.d = self.d, self.prev
            ok = self.could_stop()
            self.d = save
            if not ok:
                self.fail('second-server', 'start() started a server although one was running: ' + self.desc())
        elif not self.could_run():
            self.fail('not-started', 'start() returned without starting a server although none was running: ' + self.desc())

    def op_wait_started(self, o):
        st, v = self.call(lambda: self.cl.wait_until_started(timeout=o['timeout'] / 1000, delay=max(1, o['delay']) / 1000))
        self.started('wait_until_started()', st, v, o)

    def started(self, what, st, v, o, times=1):
        R = self.readiness()
        if st == 'ok':
            if not self.seemed_ready():
                self.fail('false-success', what + ' returned although the server was never ready: ' + self.desc())
            self.env.probe('ready')
            return
        if st == 'os':
            return
        self.limit(what, o['timeout'], o['delay'], times)
        E = self.mod
        if isinstance(v, E.ClusterStartupError):
            self.env.probe('startup_error')
            if self.d is None or all(self.d.pid in s['servers'] for s in self.since(self.m)):
                self.fail('false-error', '%s raised %s although the server has not exited: %s' % (what, v, self.desc()))
        elif isinstance(v, E.ClusterNotRunningError):
            self.env.probe('notrunning')
            if not self.could_stop():
                self.fail('false-error', '%s raised %s although the server is running: %s' % (what, type(v).__name__, self.desc()))
        elif isinstance(v, (E.ClusterTimeoutError, self.exc.ServerNotReadyError)):
            self.env.probe('notready' if isinstance(v, self.exc.ServerNotReadyError) else 'timeout')
            if times == 1 and self.took < o['timeout'] * MS:
                self.fail('early-timeout', '%s gave up after %.3f s of %.3f' % (what, self.took / SEC, o['timeout'] / 1000))
            if all(R) and self.reachable():
                self.fail('false-error', '%s raised %s although the server was ready all the time' % (what, type(v).__name__))
        else:
            self.fail('wrong-error', '%s raised %s: %s' % (what, type(v).__name__, v))

    def reachable(self):
        # what listens at the configured address is the server all the time
        return not self.env.plan['policy'].get('cut')

    def op_stop(self, o):
        self.sig(o['op'])

    op_shutdown = op_kill = op_reload = op_stop

    def sig(self, name):
        want = SIGS[name]
        n = len(self.w.signals)
        st, v = self.call(getattr(self.cl, name))
        if st == 'os':
            return
        if st == 'err':
            self.fail('wrong-error', '%s() raised %r' % (name, v))
        got = [(pid, sig) for t, pid, sig, p in self.w.signals[n:] if sig]
        if any(sig != want for pid, sig in got) or len(got) > 1:
            self.fail('wrong-signal', '%s() sent %r' % (name, got))
        S = self.since(self.m)
        # a server known to this object that runs throughout gets the signal
        d = self.d
        if d is not None and (name in ('stop', 'shutdown', 'kill') or d.pid in S[-1]['alive']) and all(d.pid in s['servers'] for s in S[:1]):
            target = d.pid
            if [target] != [pid for pid, sig in got]:
                # it may have exited before
                if all(target in s['servers'] for s in S):
                    self.fail('signal-missing', '%s() sent %r, the server is process %d: %s' % (name, got, target, self.desc()))
        elif d is None or d.pid not in S[0]['alive']:
            files = {s['file'] for s in S}
            if len(files) == 1 and None not in files:
                target = files.pop()
                if all(target in s['servers'] for s in S) and [pid for pid, sig in got] != [target]:
                    self.fail('signal-missing', '%s() sent %r, the server is process %d: %s' % (name, got, target, self.desc()))
                if all(target in s['alive'] and target in s['noperm'] for s in S):
                    self.fail('failure-became-success', '%s() returned although process %d is of another user: %s' % (name, target, self.desc()))

    def op_wait_stopped(self, o):
        st, v = self.call(lambda: self.cl.wait_until_stopped(timeout=o['timeout'] / 1000, delay=max(1, o['delay']) / 1000))
        self.stopped('wait_until_stopped()', st, v, o)

    def stopped(self, what, st, v, o):
        if st == 'ok':
            self.env.probe('stopped')
            if not self.could_stop():
                self.fail('false-success', '%s returned although the server is running: %s' % (what, self.desc()))
            return
        if st == 'os':
            return
        self.limit(what, o['timeout'], o['delay'])
        if not isinstance(v, self.mod.ClusterTimeoutError):
            self.fail('wrong-error', '%s raised %s: %s' % (what, type(v).__name__, v))
        self.env.probe('stop_timeout')
        if self.took < o['timeout'] * MS:
            self.fail('early-timeout', '%s gave up after %.3f s of %.3f' % (what, self.took / SEC, o['timeout'] / 1000))
        if not self.could_run():
            self.fail('false-error', '%s timed out although no server is running: %s' % (what, self.desc()))

    def op_restart(self, o):
        ns = len(self.spawned)
        st, v = self.call(lambda: self.cl.restart(timeout=o['timeout'] / 1000))
        o = dict(o, delay=50)
        if st == 'ok':
            if not self.seemed_ready():
                self.fail('false-success', 'restart() returned although the server was never ready: ' + self.desc())
            if len(self.spawned) == ns:
                # somebody else's server came up in between: then nothing was started
                if not self.could_stop():
                    self.fail('false-success', 'restart() returned although the same server is running: ' + self.desc())
            self.env.probe('restarted')
        elif st == 'err':
            self.limit('restart()', o['timeout'], o['delay'], 2)
            self.cluster_error('restart()', v, self.exc.ServerNotReadyError)

    def op_running(self, o):
        st, v = self.call(self.cl.running)
        if st == 'ok':
            self.judge_running('running()', v)
        elif st == 'err':
            self.fail('wrong-error', 'running() raised %r' % v)

    def judge_running(self, what, v):
        if v is True:
            if not self.could_run():
                self.fail('false-state', what + ' is true although no server is running: ' + self.desc())
        elif v is False:
            if not self.could_stop():
                self.fail('false-state', what + ' is false although the server is running: ' + self.desc())
        else:
            self.fail('false-state', '%s is %r' % (what, v))

    def op_state(self, o):
        st, v = self.call(lambda: self.cl.state)
        if st == 'ok':
            if v == 'running':
                self.judge_running('state', True)
            else:
                self.judge_running('state', False)
                if v != ('stopped' if self.havedir() else 'void'):
                    self.fail('false-state', 'state is %r' % v)

    def op_ready(self, o):
        st, v = self.call(self.cl.ready_for_connections)
        if st != 'ok':
            return
        R = self.readiness()
        if v is True:
            if not self.seemed_ready():
                self.fail('false-state', 'ready_for_connections() is true: ' + self.desc())
        elif v is False:
            if not self.could_stop():
                self.fail('false-state', 'ready_for_connections() is false: ' + self.desc())
        elif all(R) and self.reachable():
            self.fail('false-state', 'ready_for_connections() is %r although the server is ready' % (v,))

    def op_str(self, o):
        st, v = self.call(lambda: self.mod.ClusterError('x', creator=self.cl))
        st, v = self.call(lambda: str(v))
        if st == 'ok':
            S = self.since(self.m)
            pids = {s['file'] for s in S} | {self.d.pid if self.d else None}
            import re
            for x in re.findall(r'^\s*pid: (.*)$', v, re.M):
                if x not in {str(p) for p in pids}:
                    self.fail('false-state', 'the description says pid: %s (%s)' % (x, self.desc()))

    def op_pid(self, o):
        st, v = self.call(lambda: self.cl.pid)
        if st != 'ok':
            return
        S = self.since(self.m)
        if v is None:
            if not self.could_stop() and not (self.d and self.d.alive is False):
                self.fail('false-state', 'pid is None: ' + self.desc())
        elif not any(v == s['file'] or (self.d and v == self.d.pid and v in s['servers']) for s in S):
            self.fail('false-state', 'pid is %r: %s' % (v, self.desc()))

    def op_fresh(self, o):
        self.env.probe('attached')
        self.fresh()

    def op_sleep(self, o):
        self.sim.sleep_us(o['ms'] * MS)

    def op_connect(self, o):
        st, v = self.call(lambda: self.cl.connect(user='test', database='template1'))
        if st == 'ok':
            self.env.probe('connected')
            if not self.seemed_ready():
                self.fail('false-success', 'connect() returned although the server was never ready: ' + self.desc())
            client.call(v.close)
        elif st == 'err':
            if isinstance(v, self.mod.ClusterNotRunningError):
                if not self.could_stop():
                    self.fail('false-error', 'connect() raised ClusterNotRunningError: ' + self.desc())
            elif not self.could_run():
                self.fail('wrong-error', 'connect() raised %s although the cluster was not running' % type(v).__name__)
            elif all(self.readiness()) and self.calm():
                self.fail('false-error', 'connect() raised %s although the server is ready' % type(v).__name__)

    def calm(self):
        return True

    def op_with(self, o):
        def go():
            with self.cl as c:
                entered.append(self.mark())
        entered = []
        m0 = self.mark()
        st, v = self.call(go)
        if st == 'ok':
            if not self.seemed_ready():
                self.fail('false-success', 'the with block was entered although the server was never ready: ' + self.desc())
            self.m = entered[0]
            if not self.could_stop():
                self.fail('false-success', 'the with block was left although the server is running: ' + self.desc())
        elif st == 'err':
            self.limit('with cluster', 10000, 50, 2)
            self.cluster_error('with cluster', v, self.exc.ServerNotReadyError)
            if isinstance(v, self.mod.ClusterNotRunningError) and not entered and all(s['file'] is None for s in self.since(m0)):
                self.fail('not-started', 'with cluster raised %s, and nothing was started: %s' % (v, self.desc()))

    def op_drop(self, o):
        if not self.havedir():
            return
        # other programs do not start a server in a directory being removed
        if any(p is not self.d and p.alive for p in self.servers()) and not all(p.stage in ('ready', 'listen', 'pid') for p in self.servers()):
            return
        if any(p is not self.d and p.alive and (p.stopping is not None or not p.haspid or p.life.get('crash')) for p in self.servers()):
            return
        st, v = self.call(self.cl.drop)
        if st != 'ok':
            if st == 'err':
                self.fail('wrong-error', 'drop() raised %r' % v)
            return
        self.env.probe('dropped')
        if self.havedir():
            self.fail('not-dropped', 'the directory is still there')
        if any(p is self.d or p.haspid for p in self.servers()):
            self.fail('server-left', 'drop() removed the directory of a running server: ' + self.desc())
        for p in ('/wal/000001', '/space/PG_16/1'):
            if self.w.peek(osworld.ROOT + p) != b'x':
                self.fail('outside-removed', p)

    def initdb(self, p, argv):
        o = self.iop
        p.pw = None
        for a in argv:
            if a.startswith('--pwfile='):
                p.pw = a[9:]
        p.argv = argv

        def look():
            if p.pw is not None:
                n = self.w.walk(p.pw)[2] if p.pw.startswith(osworld.ROOT) else None
                if n is None:
                    self.sim.violate('no-password-file', p.pw)
                else:
                    p.seen = bytes(n.data)
                    if n.mode & 0o077:
                        self.sim.violate('password-exposed', 'mode %o' % n.mode)
                self.pwfiles.append(p.pw)
        look()

        def end():
            if p.alive:
                p.out = b'out'
                p.errout = o['err'].encode('utf-8', 'surrogateescape')
                if o['rc'] == 0:
                    self.outside()
                p.exit(o['rc'])
        self.sim.after(o['ms'] * MS, end)
        p.deaf = o.get('deaf')
        self.idb = p

    def op_init(self, o):
        if self.servers():
            return
        kw = {}
        if o['encoding']:
            kw['encoding'] = o['encoding']
        if o['user']:
            kw['user'] = o['user']
        if o['timeout'] is not None:
            kw['timeout'] = o['timeout'] / 1000
        self.iop = o
        self.idb = None
        self.pwfiles = []
        before = set(self.w.ls(osworld.ROOT + '/tmp'))
        pw = o['password']
        try:
            enc = pw.encode(o['encoding'] or 'utf-8') if pw is not None else None
        except UnicodeEncodeError:
            enc = 'unencodable'
        if o.get('kbd') is not None:
            def hit():
                if self.idb is not None and self.idb.alive:
                    self.w.interrupt = True
                    self.w.changed()
            self.sim.after(max(1, o['kbd']) * MS, hit)
        try:
            st, v = self.call(lambda: self.cl.init(password=pw, **kw))
        except UnicodeEncodeError:
            if enc != 'unencodable':
                raise
            st, v = 'unenc', None
        except KeyboardInterrupt:
            self.env.probe('init_interrupted')
            self.note()
            st, v = 'kbd', None
        finally:
            self.w.interrupt = False
        left = set(self.w.ls(osworld.ROOT + '/tmp')) - before
        if left:
            self.fail('password-left', 'init() left %s' % sorted(left))
        p = self.idb
        if p is not None and pw is not None:
            if p.pw is None or p.seen.rstrip(b'\n') != enc:
                self.fail('wrong-password', 'the password file held %r' % (getattr(p, 'seen', None),))
        if p is not None and pw is None and p.pw is not None:
            self.fail('wrong-password', 'there was a password file')
        if p is not None and o['user'] and '-U' not in p.argv:
            self.fail('wrong-command', p.argv)
        if st == 'ok':
            self.env.probe('init_ok')
            if p is None or p.rc != 0:
                self.fail('false-success', 'init() returned although initdb ended with %s' % (p and p.rc))
            if o['timeout'] is not None and self.took > o['timeout'] * MS + self.stall + SEC:
                self.fail('late', 'init() took %.3f s' % (self.took / SEC))
        elif st == 'err':
            if p is None or p.rc == 0:
                self.fail('false-error', 'init() raised %r' % v)
            if not isinstance(v, self.mod.InitDBError):
                self.fail('wrong-error', 'init() raised %s' % type(v).__name__)
            self.env.probe('init_timeout' if p.rc == -9 and p.got else 'init_failed')
            if o['timeout'] is not None and self.took > o['timeout'] * MS + self.stall + SEC:
                self.fail('late', 'init() took %.3f s' % (self.took / SEC))
        if p is not None and p.alive:
            self.fail('initdb-left', 'init() left initdb running')

    # -- the rest of the world
    def op_squat(self, o):
        """another program answers at the address for a while"""
        a = self.addrs()[0]
        if a in self.env.net.listeners:
            return
        wl.serve(self.env, {'reject': lambda b: None if o['how'] == 'accept' else o['how']}, a)
        self.squats[a] = 1
        self.env.probe('squat')
        self.note()

        def away():
            if self.squats.pop(a, None):
                self.env.net.listeners.pop(a, None)
                self.note()
        self.away = away
        self.sim.after(max(1, o['ms']) * MS, away)

    def op_ext_start(self, o):
        if self.havedir() and not self.gone:
            self.server(child=False)

    def op_ext_kill(self, o):
        for p in self.servers():
            p.deliver(9)

    def op_ext_stop(self, o):
        for p in self.servers():
            p.deliver(2)

    def op_pidfile(self, o):
        k = o['what']
        if k in ('dead', 'foreign', 'root'):
            self.w.pidn += 1
            pid = self.w.pidn
            if k != 'dead':
                self.w.procs[pid] = Proc(self.w, pid, 'stranger', uid=ME if k == 'foreign' else 0)
            data = b'%d\n%s\n' % (pid, DIR.encode())
            self.env.probe('stale')
        elif k == 'negative':
            self.w.pidn += 1
            self.w.procs[self.w.pidn] = Proc(self.w, self.w.pidn, 'stranger', uid=ME)
            data = b'-%d\n' % self.w.pidn
        else:
            data = {'empty': b'', 'junk': b'junk\n', 'zero': b'0\n'}[k]
            self.env.probe('emptypid')
        self.w.put(PIDFILE, data)
        self.note()

    def final(self):
        """once everything is quiet again a healthy server can be run"""
        if self.gone:
            return
        self.env.sim.drain()
        for p in list(self.w.procs.values()):
            if isinstance(p, Server):
                if p.alive:
                    p.deliver(9)
            else:
                p.exit(0)
        for p in list(self.w.procs.values()):
            if not p.alive:
                p.gone()
        self.cfg['reuse'] = 0
        if self.squats:
            self.away()
        self.env.sim.drain()
        for p in list(self.w.procs.values()):
            if p.name == 'stranger':
                p.exit(0)
        if self.pidnode() is not None and self.filepid() is None:
            self.w.drop(PIDFILE)          # the server refuses to start over it
        self.cfg['life'] = [{'lock': 10, 'gap': 1, 'listen': 10, 'ready': 60, 'exit': 10, 'term': 60, 'int': 10}]
        self.env.net.policy.__init__({})
        self.prev = self.d
        self.op_start({})
        self.op_wait_started({'timeout': 3000, 'delay': 50})
        if not self.servers() or not self.servers()[0].ready:
            self.fail('not-recovered', 'a healthy server could not be started: ' + self.desc())
        self.sig('stop')
        self.op_wait_stopped({'timeout': 3000, 'delay': 50})
        if self.servers():
            self.fail('not-recovered', 'a healthy server could not be stopped: ' + self.desc())

    def run(self):
        self.gone = False
        for o in self.env.ops:
            self.gone = not self.havedir()
            if self.gone and o['op'] not in ('init', 'state', 'running'):
                continue
            self.sim.mark('<' + o['op'] + '>')
            self.fault = list(o['fault']) if o.get('fault') else None
            self.fired = None
            self.prev = self.d
            getattr(self, 'op_' + o['op'])(o)
            self.fault = self.fired = None
            if self.w.fds:
                self.fail('descriptor-leak', [e[3] for e in self.w.fds.values()])
            if self.env.net.open_sockets():
                import gc
                gc.collect()
                if self.env.net.open_sockets():
                    self.fail('socket-leak', 'after ' + o['op'])
        self.gone = not self.havedir()
        self.final()


def run(env):
    client.reset(env)
    osworld.set_world(None)
    r = Run(env)
    osworld.set_world(r.w)
    try:
        r.run()
    finally:
        osworld.set_world(None)
    env.nontrivial = bool(r.spawned) or any(o['op'] == 'init' for o in env.ops)


def cleanup(env):
    osworld.set_world(None)
