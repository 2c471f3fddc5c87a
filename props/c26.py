"""C26: the temporary cluster is private to its process and leaves nothing behind."""
import builtins, errno, importlib, os, re
from sim.core import *
from sim import client, wl, osworld, pgserver
from sim.osworld import World, Proc
from sim.pgserver import Plan, SQLError, Die

PROP = 'C26'
RULE = ('one evaluation = one seeded program of pg_tmp blocks (nested, decorated, by two Temporal objects, left normally, with an exception or an interrupt, in the '
        'process and in forked children, with further connections, explicit destroy(), kills of the process) against simulated pg_config, initdb and server '
        'programs, ended by the exit handlers of the process; distinct non-trivial = distinct sequences of system calls, process events, statements and outcomes '
        'among runs that entered a block')
RUNS = {'quick': 12000, 'thorough': 300000}
VARIANTS = ('c',)
MAX_STEPS = 600000
REAL = ['postgresql.temporal', 'postgresql.installation', 'postgresql.cluster.Cluster', 'postgresql.configfile', 'postgresql.python.socket.find_available_port',
        'postgresql.open, the driver and its cancel requests']
STUB = ['process table, signals, fork (a change of the process number), atexit (a list run at the simulated exit) and subprocess.Popen (simulated)',
        'the pg_config, initdb and postgres programs (simulated life cycle, after the PostgreSQL sources)', 'file system, clock, sockets (simulated)']
ASSUMPTIONS = ['operating system calls made by the exit handlers succeed; the server processes die of SIGKILL',
               'a process killed by SIGKILL may leave its cluster; a later process of the same number removes it when it makes its own',
               'after an interrupt (KeyboardInterrupt, SystemExit) the connections and the schema of the block may remain until the exit',
               'nobody but the process starts a server in the directory']
PROBES = ['entered', 'nested', 'new', 'boom', 'interrupted', 'child', 'child_init', 'refused', 'retried', 'destroyed', 'killed_process', 'stale', 'slow_stop',
          'stuck_server', 'open_at_exit', 'pgtest', 'preset', 'decorated', 'second', 'kbd_init', 'fs_fault', 'dropfail', 'frozen']

ROOT = osworld.ROOT
HOME = ROOT + '/home'
BIN = ROOT + '/opt/pg bin'
KEYS = ('db', 'prepare', 'xact', 'sqlexec', 'do', 'settings', 'proc', 'connector', 'new')
PRESET = ('db', 'new', 'do', 'settings', 'prepare', 'newdb')
RUN = None
MISSING = object()


class Boom(Exception):
    pass


# ------------------------------------------------------------ the program
def gen(rng, tier):
    ops = []
    budget = [rng.randrange(2, 14)]

    def block(depth):
        o = {'op': 'block', 'how': rng.choice(['with', 'with', 'with', 'deco', 'two']), 'end': rng.choice(['ok', 'ok', 'ok', 'boom', 'boom', 'pgerr', 'kbd', 'exit'])}
        o['ops'] = body(depth + 1)
        if o['end'] in ('kbd', 'exit') and rng.random() < 0.5:
            o['freeze'] = 1
            if rng.random() < 0.6:
                o['ops'].append({'op': 'stream', 'a': 0})
        return o

    def body(depth):
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            k = rng.choice(['use', 'use', 'use', 'new', 'new', 'clone', 'tx', 'close', 'sleep', 'stream', 'setb'] + (['block'] * 3 if depth < 3 else []) + (['child'] if depth < 2 else []))
            if k == 'block':
                out.append(block(depth))
            elif k == 'child':
                out.append({'op': 'child', 'ops': [block(depth)] if rng.random() < 0.6 else []})
            else:
                out.append({'op': k, 'a': rng.randrange(100)})
        return out
    for _ in range(rng.randrange(1, 5)):
        x = rng.random()
        if x < 0.72:
            ops.append(block(0))
        elif x < 0.8:
            ops.append({'op': 'child', 'ops': [block(0)] if rng.random() < 0.7 else []})
        elif x < 0.88:
            ops.append({'op': 'destroy'})
        elif x < 0.94:
            ops.append({'op': 'die', 'same': rng.randrange(2), 'part': rng.randrange(2)})
        else:
            ops.append({'op': 'sleep', 'a': rng.randrange(100)})
    cfg = {'life': [life(rng) for _ in range(2)], 'version': rng.choice(['16.3', '16.3', '16.3', '9.6.24', '9.3.2', '9.1.24', '9.0.1', '8.4.22', '10.1', '17beta1', '14.2 (Debian 14.2-1)'])}
    if rng.random() < 0.12:
        cfg['pgtest'] = 1
    elif rng.random() < 0.4:
        cfg['bystander'] = 1
    if rng.random() < 0.4:
        cfg['preset'] = sorted(set(rng.choice(PRESET) for _ in range(rng.randrange(1, 4))))
    if rng.random() < 0.1:
        cfg['pgconfig'] = rng.choice(['old', 'slow', 'hang', 'hang1', 'fail', 'gone'])
    cfg['deaf'] = rng.randrange(2)
    cfg['stall'] = rng.choice([0, 0, 100, 400])
    f = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            on = rng.choice(['create_schema', 'create_schema', 'drop_schema', 'drop_schema', 'create_db', 'terminate', 'search_path', 'connect', 'connect', 'initdb', 'spawn',
                             'fs', 'fs', 'bind', 'squat', 'sock', 'sock', 'kbd', 'kbd', 'crash'])
            d = {'on': on, 'n': rng.choice([0, 0, 0, 1, 1, 2, 3, 5])}
            if on in ('create_schema', 'drop_schema', 'create_db', 'terminate', 'search_path'):
                d['do'] = rng.choice(['err', 'err', 'err', 'cut', 'cut_after', 'crash'] + (['kbd'] if on in ('create_schema', 'create_db', 'search_path') else []))
                d['code'] = rng.choice(['53100', '42501', '57014', 'XX000'])
            elif on == 'connect':
                d['code'] = rng.choice(['53300', '57P03', 'eof'])
            elif on == 'initdb':
                d['n'] = rng.choice([0, 0, 1])
                d['rc'] = rng.choice([1, -9, -11])
                d['partial'] = rng.randrange(3)
            elif on == 'spawn':
                d['n'] = rng.randrange(4)
                d['errno'] = rng.choice(['EAGAIN', 'ENOMEM', 'ENOENT'])
            elif on == 'fs':
                d['n'] = rng.choice([rng.randrange(12), rng.randrange(60)])
                d['errno'] = rng.choice(['ENOSPC', 'EACCES', 'EIO', 'EMFILE'])
            elif on == 'sock':
                d['n'] = rng.randrange(24)
            elif on == 'kbd':
                d['n'] = rng.choice([rng.randrange(20), rng.randrange(200)])
            elif on == 'crash':
                d['n'] = rng.choice([rng.randrange(300), rng.randrange(5000), rng.randrange(40000)])
            f.append(d)
    cfg['f'] = f
    return {'ops': ops, 'faults': [], 'policy': wl.policy(rng) if rng.random() < 0.3 else {}, 'cfg': cfg}


def life(rng):
    l = {'lock': rng.choice([0, 10]), 'listen': rng.choice([0, 20]), 'ready': rng.choice([0, 60, 60, 400]), 'exit': rng.choice([0, 0, 1, 50]),
         'term': rng.choice([0, 1, 60, 300]), 'int': rng.choice([0, 1, 60])}
    x = rng.random()
    if x < 0.06:
        l['ready'] = rng.choice([9000, 12000, 60000])
    elif x < 0.12:
        l['term'] = rng.choice([-1, 4900, 5200, 30000])
    elif x < 0.16:
        l['term'] = -1
        l['int'] = rng.choice([-1, 9900, 30000])
    elif x < 0.2:
        l['crash'] = rng.choice(['lock', 'listen', 'ready'])
    return l


def simplify(plan):
    import copy
    for i in range(len(plan['cfg']['f'])):
        p = copy.deepcopy(plan); del p['cfg']['f'][i]
        yield p
    for k in ('preset', 'pgconfig', 'pgtest', 'bystander'):
        if k in plan['cfg']:
            p = copy.deepcopy(plan); del p['cfg'][k]
            yield p
    calm = {'lock': 0, 'listen': 0, 'ready': 60, 'exit': 0, 'term': 0, 'int': 0}
    if any(l != calm for l in plan['cfg']['life']):
        p = copy.deepcopy(plan); p['cfg']['life'] = [calm]
        yield p
    if plan['cfg']['version'] != '16.3':
        p = copy.deepcopy(plan); p['cfg']['version'] = '16.3'
        yield p

    def inner(ops, path=()):
        for i, o in enumerate(ops):
            if 'ops' in o:
                yield path + (i,)
                yield from inner(o['ops'], path + (i,))
    for path in list(inner(plan['ops'])):
        def at(p):
            o = p['ops'][path[0]]
            for i in path[1:]:
                o = o['ops'][i]
            return o
        for k in range(len(at(plan)['ops'])):
            p = copy.deepcopy(plan); del at(p)['ops'][k]
            yield p
        if at(plan).get('end', 'ok') != 'ok':
            p = copy.deepcopy(plan); at(p)['end'] = 'ok'
            yield p
        if at(plan).get('how', 'with') != 'with':
            p = copy.deepcopy(plan); at(p)['how'] = 'with'
            yield p


# ------------------------------------------------------------ the programs of the installation
class PG(Proc):
    """a postgres server process"""
    haspid = listening = ready = False
    stopping = None
    stage = 'spawn'
    socks = ()

    def begin(self, run, path, life):
        self.run = run; self.dir = path; self.life = life
        self.db = None
        self.later(life['lock'], self.lock)

    def later(self, ms, fn):
        def go():
            if self.alive:
                fn()
        self.w.sim.after(ms * MS + self.w.sim.ch.below(MS), go)

    def at(self, stage):
        self.stage = stage
        self.w.sim.log('proc', self.pid, stage)
        self.w.sim.mark(stage)
        if self.life.get('crash') == stage:
            self.run.excuse('startup')
            self.later(5, lambda: self.exit(1))

    def conf(self):
        d = self.w.peek(self.dir + '/postgresql.conf')
        return {m.group(1).lower(): m.group(2) for m in re.finditer(r"(?m)^\s*(\w+)\s*=?\s*'?([^'#\n]*)'?", (d or b'').decode())}

    def lock(self):
        if self.w.ls(self.dir) is None:
            return self.exit(1)
        n = self.w.peek(self.dir + '/postmaster.pid')
        if n is not None:
            o = self.w.procs.get(int(n.split(b'\n')[0] or b'0'))
            if o is not None and o is not self and o.alive:
                return self.exit(1)
        self.w.put(self.dir + '/postmaster.pid', b'%d\n%s\n' % (self.pid, self.dir.encode()))
        self.haspid = True
        self.at('lock')
        self.later(self.life['listen'], self.listen)

    def listen(self):
        if self.stopping:
            return
        c = self.conf()
        old = self.run.vi < (9, 3)
        if ('unix_socket_directories' in c) if old else ('unix_socket_directory' in c):
            self.w.sim.log('proc', self.pid, 'unrecognized configuration parameter')
            return self.exit(1)
        if c.get('listen_addresses', 'localhost') not in ('localhost', '*', '127.0.0.1'):
            return self.exit(1)
        a = ('127.0.0.1', int(c.get('port', 5432)))
        if a in self.run.env.net.listeners:
            self.unlink()
            return self.exit(1)
        self.addr = a
        self.listening = True
        self.db = wl.serve(self.run.env, self.run.options(self), a)
        self.db.server = self
        self.db.schemas = {'public': None}
        self.db.databases = {'template0', 'template1', 'postgres'}
        wake = self.db.wake

        def awake():
            wake()
            self.idle()
        self.db.wake = awake
        self.socks = []
        d = c.get('unix_socket_directory' if old else 'unix_socket_directories') or ROOT + '/tmp'
        for x in d.split(','):
            x = os.path.join(self.dir, x.strip().strip('"'))
            if x.startswith(ROOT + '/') and self.w.ls(x) is not None:
                for e in ('', '.lock'):
                    self.socks.append('%s/.s.PGSQL.%d%s' % (x, a[1], e))
                    self.w.put(self.socks[-1], b'')
        self.at('listen')
        self.later(self.life['ready'], self.get_ready)

    def get_ready(self):
        if not self.stopping:
            self.ready = True
            self.at('ready')

    def deliver(self, sig):
        if sig == 9:
            return self.exit(-9)
        if sig in (15, 2):
            if not self.haspid:
                return self.exit(-sig)
            if self.life['term' if sig == 15 else 'int'] < 0:
                self.run.env.probe('stuck_server')
                return
            if self.stopping is None or sig < self.stopping:
                self.stopping = sig
                self.ready = False
                if sig == 2 and self.db is not None:
                    for b in list(self.db.backends.values()):
                        b.kill('fatal')
                self.idle()

    def idle(self):
        """a server that is to stop does so when the last session has ended"""
        if self.stopping and self.alive and (self.db is None or not self.db.backends) and self.stage != 'stopping':
            self.at('stopping')
            self.later(self.life['term' if self.stopping == 15 else 'int'], self.unlisten)
        elif self.stopping == 15 and self.alive:
            self.run.env.probe('slow_stop')

    def unlisten(self):
        self.close()
        self.unlink()
        self.later(self.life['exit'], lambda: self.exit(0))

    def unlink(self):
        if self.haspid:
            self.haspid = False
            for f in self.socks:
                try:
                    self.w.drop(f)
                except (OSError, KeyError):
                    pass
            try:
                self.w.drop(self.dir + '/postmaster.pid')
            except OSError:
                pass

    def close(self):
        if self.listening:
            self.listening = self.ready = False
            self.run.env.net.listeners.pop(self.addr, None)

    def on_exit(self):
        self.close()
        if self.db is not None:
            for b in list(self.run.env.backends):
                if b.db is self.db and not b.closed:
                    b.kill('reset')


class Tool(Proc):
    """initdb, pg_config"""
    out = b''
    errout = b''
    deaf = False

    def deliver(self, sig):
        if sig == 9 or not self.deaf:
            self.exit(-sig)


class Run:
    def __init__(self, env):
        self.env = env; self.sim = env.sim; self.cfg = env.cfg
        self.pid = 7001; self.nextpid = 7002
        self.exits = []              # exit handlers: (pid, fn, args, kw)
        self.first = None            # the first violation
        self.excuses = []            # faults that happened
        self.seen = {}
        self.faults = [dict(f) for f in self.cfg['f']]
        self.ours = {}               # data directory -> pid of the process that made it
        self.foreign = []            # servers of processes that are gone
        self.leftover = set()        # schemas that may remain
        self.stack = []
        self.entering = None
        self.nlife = 0
        self.kept = []
        self.turned = False
        self.blocks = 0
        self.reborn = False
        self.external = self.bystander = None
        self.saved = dict(builtins.__dict__)
        self.environ = {k: os.environ.get(k) for k in ('HOME', 'PGTEST', 'PGINSTALLATION', 'PGHOST', 'PGPORT', 'PGUSER', 'PGDATABASE')}
        for k in self.environ:
            os.environ.pop(k, None)
        os.environ['HOME'] = HOME
        os.environ['PGINSTALLATION'] = BIN + '/pg_config'
        v = self.cfg['version'].split()[0].replace('beta', '.').split('.')
        self.vi = tuple(int(x) for x in v[:2])
        w = self.w = World(env.sim)
        w.exec = self.exec
        w.onstep = self.onstep
        w.armed = True
        w.mkdirs(HOME + '/work')
        w.put(HOME + '/work/keep', b'x')
        w.mkdirs(ROOT + '/tmp')
        for n in ('pg_config', 'initdb', 'pg_ctl', 'postgres'):
            w.put(BIN + '/' + n, b'#!', 0o755)
        env.net.names['localhost'] = ['127.0.0.1']
        env.net.names['127.0.0.1'] = ['127.0.0.1']
        env.net.on_bind = self.bind
        env.net.emfile = {f['n'] for f in self.faults if f['on'] == 'sock'}
        env.net.on_emfile = lambda s: self.excuse('sock')
        env.backends = []
        if self.cfg.get('pgtest'):
            self.external = self.elsewhere('/work/db', 6543)
            os.environ['PGTEST'] = 'pq://test@127.0.0.1:6543/test'
            env.probe('pgtest')
        elif self.cfg.get('bystander'):
            self.bystander = self.elsewhere('/work/main', 5432)
        for k in self.cfg.get('preset', ()):
            builtins.__dict__[k] = 'preset ' + k
            env.probe('preset')
        self.load()
        self.base = set(self.paths(self.w.root))
        self.abandoned = set()       # directories of killed processes
        for f in self.faults:
            if f['on'] == 'crash':
                self.sim.after(f['n'] * MS, self.crash)

    def elsewhere(self, d, port):
        """a server somebody else runs"""
        p = self.w.newproc(PG, 'postgres')
        self.w.put(HOME + d + '/postgresql.conf', b'port = %d\n' % port)
        p.begin(self, HOME + d, {'lock': 0, 'listen': 0, 'ready': 0, 'exit': 0, 'term': 0, 'int': 0})
        self.sim.drain()
        p.db.databases.add('test')
        p.db.schemas['sandbox9999_1'] = None
        return p

    def load(self):
        import postgresql.temporal as t
        self.mod = importlib.reload(t)
        self.tmp = self.mod.pg_tmp
        self.tmp2 = None

    def restore(self):
        for k, v in self.environ.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        for k in list(builtins.__dict__):
            if k not in self.saved:
                del builtins.__dict__[k]
        builtins.__dict__.update(self.saved)

    def fail(self, kind, *d):
        v = Violation(kind, ' '.join(str(x) for x in d))
        if self.first is None:
            self.first = v
        raise v

    def excuse(self, what):
        self.sim.log('fault', what)
        self.sim.count('fault_' + what)
        self.sim.mark('!' + what)
        self.excuses.append(what)

    # ------------------------------------------------------------ faults
    def due(self, on):
        """the fault that hits this occurrence of `on`, if any"""
        n = self.seen.get(on, 0)
        self.seen[on] = n + 1
        for f in self.faults:
            if f['on'] == on and f['n'] == n:
                self.excuse(on + '_' + str(f.get('do', '')))
                return f
        return None

    def crash(self):
        L = [p for p in self.servers() if p is not self.external and p is not self.bystander and p not in self.foreign and p.ready]
        if L:
            self.excuse('server crash')
            L[0].exit(-9)

    def onstep(self, op, path):
        ch = self.sim.ch
        if self.sim.q and ch.chance(self.cfg['stall']):
            self.sim.count('stall')
            self.sim.sleep_us(max(0, self.sim.q[0][0] - self.sim.now))
        else:
            self.sim.sleep_us(ch.below(50))
        if self.entering is not None and self.entering['init']:
            if not self.excuses[self.entering['ne']:] and op in ('open', 'write', 'close', 'fsync', 'rename', 'unlink', 'mkdir', 'scandir', 'rmdir'):
                f = self.due('fs')
                if f is not None:
                    self.env.probe('fs_fault')
                    raise osworld.err(getattr(errno, f['errno']), str(path))
            if not self.excuses[self.entering['ne']:] and self.due('kbd') is not None:
                self.env.probe('kbd_init')
                self.entering['kbd'] = True
                raise KeyboardInterrupt()

    def bind(self, sock, addr):
        f = self.due('bind')
        if f is not None:
            raise osworld.err(errno.EADDRINUSE)
        if addr[1]:
            return addr
        while True:
            a = (addr[0], 40000 + self.sim.ch.below(2000))
            if ('127.0.0.1', a[1]) not in self.env.net.listeners:
                break
        if self.due('squat') is not None:
            wl.serve(self.env, {'reject': '28000'}, ('127.0.0.1', a[1]))
        return a

    # ------------------------------------------------------------ programs
    def exec(self, argv, kw):
        f = self.due('spawn')
        if f is not None:
            raise osworld.err(getattr(errno, f['errno']), argv[0])
        name = os.path.basename(argv[0])
        if os.path.dirname(argv[0]) != BIN:
            self.fail('wrong-command', argv)
        if name == 'pg_config':
            p = self.w.newproc(Tool, name, child=True)
            self.pg_config(p, argv[1:])
        elif name == 'initdb':
            p = self.w.newproc(Tool, name, child=True)
            self.initdb(p, argv[1:])
        elif name == 'postgres':
            if argv[1] != '-D':
                self.fail('wrong-command', argv)
            if self.ours.get(argv[2]) != self.pid:
                self.fail('wrong-command', 'a server was started in', argv[2])
            p = self.w.newproc(PG, name, child=True)
            L = self.cfg['life']
            p.begin(self, argv[2], L[self.nlife % len(L)])
            if L[self.nlife % len(L)]['ready'] > 8000:
                self.excuse('slow')
            self.nlife += 1
        else:
            self.fail('wrong-command', argv)
        return p

    def pg_config(self, p, args):
        k = self.cfg.get('pgconfig')
        d = {'bindir': BIN, 'libdir': ROOT + '/lib', 'configure': "'--with-openssl' '--prefix=/opt'"}
        version = 'PostgreSQL ' + self.cfg['version']
        rc = 0
        n = self.seen['pg_config'] = self.seen.get('pg_config', 0) + 1
        if k == 'gone':
            self.excuse('pg_config')
            p.exit(127)
            p.gone()
            raise osworld.err(errno.ENOENT, BIN + '/pg_config')
        if k == 'fail' or k == 'hang' or (k == 'hang1' and n == 1):
            self.excuse('pg_config')
        if k == 'fail':
            rc = 1
        elif not args:
            if k == 'old':
                rc = 1
            p.out = ('\n'.join('%s = %s' % (x.upper(), y) for x, y in d.items()) + '\nVERSION = %s\n' % version).encode()
        elif args == ['--help']:
            p.out = b'pg_config provides information\n\nOptions:\n  --bindir   show it\n  --libdir  show\n  --configure  show\n  --version   show\n\n  --help    show\n'
        elif args == ['--version']:
            p.out = version.encode() + b'\n'
        else:
            p.out = '\n'.join(d[a[2:]] for a in args).encode() + b'\n'
        if k == 'hang' or (k == 'hang1' and n == 1):
            return
        self.sim.after((3000 if k == 'slow' else 1) * MS, lambda: p.exit(rc))

    def initdb(self, p, args):
        path = args[args.index('-D') + 1]
        if not path.startswith(HOME + '/') or path.startswith(HOME + '/work'):
            self.fail('wrong-command', 'initdb in', path)
        if '-U' not in args:
            self.fail('wrong-command', 'initdb without -U', args)
        p.user = args[args.index('-U') + 1]
        if self.w.ls(path):
            self.sim.log('proc', p.pid, 'directory exists but is not empty')
            p.errout = b'initdb: error: directory exists but is not empty'
            self.sim.after(MS, lambda: p.exit(1))
            return
        self.ours[path] = self.pid
        p.deaf = self.cfg.get('deaf', 0)
        f = self.due('initdb')
        part = f['partial'] if f is not None else 3

        def make():
            if not p.alive:
                return
            if part:
                self.w.mkdirs(path)
            if part > 1:
                self.w.mkdirs(path + '/base/1')
                self.w.put(path + '/PG_VERSION', b'16\n')
            if part > 2:
                self.w.put(path + '/base/1/112', b'data')
                self.w.mkdirs(path + '/pg_wal')
                self.w.put(path + '/pg_wal/0001', b'x')
                self.w.put(path + '/postgresql.conf', b"# config\n#listen_addresses = 'localhost'\n#port = 5432\nmax_connections = 100\n")
        self.sim.after(20 * MS, make)
        self.sim.after(50 * MS, lambda: p.exit(f['rc'] if f is not None else 0))

    def options(self, server):
        return {'version': self.cfg['version'], 'reject': lambda b: self.admit(server, b), 'plan': lambda b, t: self.plan(server, b, t), 'pid0': 20000 + 1000 * server.pid}

    def admit(self, server, b):
        if not server.ready:
            return '57P03'
        if b.params.get('user') != 'test':
            return '28000'
        f = self.due('connect')
        if f is not None:
            return f['code']
        if b.params.get('database', 'test') not in server.db.databases:
            return '3D000'
        return None

    def plan(self, server, b, t):
        u = ' '.join(t.split())
        db = server.db

        def cmd(on, fn, tag, before=None):
            def go(be, params):
                f = self.due(on)
                do = f['do'] if f is not None else None
                if do == 'err':
                    raise SQLError(f['code'], 'fault')
                if do == 'kbd':
                    be.conn.signal = KeyboardInterrupt
                    if self.entering is not None:
                        self.entering['kbd'] = True
                if do == 'cut':
                    raise Die('reset')
                if do == 'crash':
                    self.sim.after(0, lambda: server.exit(-9))
                    raise Die('reset')
                r = fn(be, params)
                if do == 'cut_after':
                    raise Die('reset')
                return r
            return go
        m = re.match(r'(?i)create schema (\S+?);?$', u)
        if m:
            def cs(be, params):
                if m.group(1) in db.schemas:
                    raise SQLError('42P06', 'schema "%s" already exists' % m.group(1))
                db.schemas[m.group(1)] = be
                return 'CREATE SCHEMA'
            return Plan('cmd', cmd('create_schema', cs, 'CREATE SCHEMA'))
        m = re.match(r'(?i)drop schema (if exists )?(\S+) cascade;?$', u)
        if m:
            def ds(be, params):
                if m.group(2) not in db.schemas:
                    if m.group(1):
                        return 'DROP SCHEMA'
                    raise SQLError('3F000', 'schema "%s" does not exist' % m.group(2))
                self.sim.log('schema dropped', m.group(2))
                del db.schemas[m.group(2)]
                return 'DROP SCHEMA'
            return Plan('cmd', cmd('drop_schema', ds, 'DROP SCHEMA'))
        m = re.match(r'(?i)create database (\S+?);?$', u)
        if m:
            def cd(be, params):
                if m.group(1) in db.databases:
                    raise SQLError('42P04', 'database exists')
                db.databases.add(m.group(1))
                return 'CREATE DATABASE'
            return Plan('cmd', cmd('create_db', cd, 'CREATE DATABASE'))
        if 'pg_terminate_backend' in u:
            if self.ours.get(server.dir) is None:
                self.sim.violate('foreign-terminated', 'the sessions of a server of somebody else were terminated')
            old = self.vi < (9, 2)
            if ('procpid' in u) != old:
                raise SQLError('42703', 'column "%s" does not exist' % ('pid' if old else 'procpid'))

            def tb(be, params):
                out = []
                for o in list(db.backends.values()):
                    if o is not be:
                        out.append((o.pid, True))
                        o.kill('fatal')
                return out
            return Plan('rows', cmd('terminate', tb, 'SELECT'), cols=[('pid', pgserver.INT4), ('pg_terminate_backend', pgserver.BOOL)])
        if 'set_config' in u and self.entering is not None and self.due('search_path'):
            f = [f for f in self.faults if f['on'] == 'search_path'][0]

            def no(be, params):
                if f['do'] == 'err':
                    raise SQLError(f['code'], 'fault')
                if f['do'] == 'kbd':
                    be.conn.signal = KeyboardInterrupt
                    self.entering['kbd'] = True
                    raise SQLError('57014', 'interrupted')
                raise Die('reset')
            return Plan('rows', no, cols=[('set_config', pgserver.TEXT)], oids=[pgserver.TEXTA] if 'generate_series' in u else [pgserver.TEXT, pgserver.TEXT])
        if u.upper().startswith('DO '):
            return Plan('cmd', lambda be, params: 'DO')
        return None

    # ------------------------------------------------------------ the truth
    def servers(self):
        return [p for p in self.w.procs.values() if isinstance(p, PG) and p.alive]

    def server(self):
        """the server of this process"""
        if self.external is not None:
            return self.external
        for p in self.servers():
            if self.ours.get(p.dir) == self.owner() and p.ready:
                return p
        return None

    def owner(self):
        return self.pid if self.pid in self.ours.values() else self.parent if hasattr(self, 'parent') else self.pid

    def schemas(self):
        return {p.pid: set(p.db.schemas) for p in self.servers() if p.db is not None}

    def tree(self):
        return self.w.ls(HOME)

    def guard(self, before):
        """nothing of other processes is touched"""
        for p in self.foreign:
            if p.dir in self.ours:
                continue
            if not p.alive:
                self.fail('foreign-stopped', 'the server of another process was stopped')
        if self.external is not None and not self.external.alive and not any('crash' in x for x in self.excuses):
            self.fail('foreign-stopped', 'the server named by PGTEST was stopped')
        if self.bystander is not None and not self.bystander.alive:
            self.fail('foreign-stopped', 'a server of somebody else was stopped')
        if self.w.peek(HOME + '/work/keep') != b'x':
            self.fail('foreign-removed', 'a file of somebody else is gone')

    def names(self):
        return dict(builtins.__dict__)

    def same_names(self, before, what):
        now = self.names()
        for k in sorted(set(now) | set(before)):
            if now.get(k, MISSING) is not before.get(k, MISSING):
                if self.stack and k in KEYS and before.get(k) == 'mine' and now.get(k) is self.stack[-1]['offered'][k]:
                    continue        # what the surrounding block offers, again
                self.fail('builtins', '%s: builtins.%s is %s and was %s' % (what, k, now.get(k, '(missing)'), before.get(k, '(missing)')))

    def backend_of(self, c):
        for b in self.env.backends:
            if b.ready and b.pid == c.backend_id and b.db is not None and not b.closed:
                return b
        return None

    # ------------------------------------------------------------ blocks
    def op_block(self, o):
        tmp = self.tmp
        if o['how'] == 'two':
            if self.tmp2 is None:
                self.tmp2 = self.mod.Temporal()
            tmp = self.tmp2
            self.env.probe('second')
        names = self.names()
        ne = len(self.excuses)
        schemas = self.schemas()
        live = {id(b) for b in self.env.backends if not b.closed}
        left = set(self.leftover)
        rec = {'db': None, 'conns': [], 'own': [], 'body': False, 'out': None, 'init': True, 'kbd': False, 'sb': None, 'ne': ne}
        outer = self.entering
        self.entering = rec
        depth = len(self.stack)

        def body():
            self.entering = None
            rec['body'] = True
            self.stack.append(rec)
            self.entered(rec, names, schemas, ne)
            self.body(o['ops'])
            self.stack.pop()
            rec['ne'] = len(self.excuses)
            rec['t'] = self.sim.now
            end = o['end']
            if end in ('kbd', 'exit') and o.get('freeze') and rec.get('b') is not None:
                # nothing more is heard of its sessions
                self.env.probe('frozen')
                for b in rec['be'].values():
                    b.feed = lambda data: None
            if end == 'boom':
                rec['out'] = Boom('out')
            elif end == 'pgerr':
                rec['out'] = client.pgexc.Error('out')
            elif end == 'kbd':
                rec['out'] = KeyboardInterrupt('out')
            elif end == 'exit':
                rec['out'] = SystemExit('out')
            else:
                return 'value'
            raise rec['out']
        got = None; value = None
        try:
            if o['how'] == 'deco':
                self.env.probe('decorated')

                def f(a, b=None):
                    if (a, b) != (1, 2):
                        self.fail('arguments', a, b)
                    return body()
                g = tmp(f)
                if g.__name__ != 'f':
                    self.fail('decorator', 'the name is', g.__name__)
                value = g(1, b=2)
            else:
                with tmp as x:
                    value = body()
        except Violation:
            raise
        except HarnessAbort:
            raise
        except BaseException as e:
            got = e
            e.__traceback__ = None
            e.__context__ = None
        finally:
            self.entering = outer
        if self.first is not None:
            raise self.first
        if self.sim.aborted is not None:
            raise self.sim.aborted
        what = 'with %s' % o['how']
        faults = self.excuses[ne:]
        if not rec['body']:
            # the block was not entered
            if got is None:
                self.fail('not-entered', 'no error and no block')
            self.same_names(names, 'after a refused block')
            self.env.probe('refused')
            self.turned = True
            if rec['kbd']:
                if not isinstance(got, (KeyboardInterrupt, client.pgexc.Error)):
                    self.fail('wrong-error', 'interrupted, raised %s: %s' % (type(got).__name__, got))
            else:
                if not faults and not self.explained():
                    self.fail('refused', '%s: %s %s' % (what, type(got).__name__, got))
                if not isinstance(got, (client.pgexc.Error, OSError)) and 'pg_config' not in faults:
                    self.fail('wrong-error', 'raised %s: %s' % (type(got).__name__, got))
            self.mask(got, faults, ne)
            self.quiet()
            if not rec['kbd']:
                self.no_more(live, rec, 'after a refused block')
            for p, s in self.schemas().items():
                new = s - schemas.get(p, set()) - {'public', 'sandbox9999_1'}
                if new and self.lost_answer(faults) and not rec['kbd']:
                    self.leftover |= new
                elif new and rec['kbd']:
                    self.leftover |= new
                elif new:
                    self.fail('schema-left', 'a refused block left %s' % sorted(new))
            self.kept_schemas(schemas, 'a refused block')
            if self.server() is None or self.external is not None:
                pass
            return
        self.entering = None
        self.same_names(names, 'after a block')
        # what it raised
        late = self.excuses[rec.get('ne', 0):]
        out = rec['out']
        if rec['server'] is not None and not any(p.pid == rec['server'] and p.ready for p in self.servers()):
            late = late + ['server crash']
        if got is not out and not (late and isinstance(got, (client.pgexc.Error, OSError))):
            self.fail('wrong-outcome', 'the block ended with %r, the with statement with %s: %s' % (out, type(got).__name__, got))
        if got is None and value != 'value':
            self.fail('wrong-outcome', 'the decorated function returned', value)
        if isinstance(out, Boom):
            self.env.probe('boom')
        interrupted = out is not None and not isinstance(out, Exception)
        if interrupted:
            self.env.probe('interrupted')
            if self.sim.now - rec['t'] > SEC:
                self.fail('late', 'an interrupted block took %.3f s to end' % ((self.sim.now - rec['t']) / SEC))
        self.quiet()
        if interrupted:
            self.kept += rec['conns']
            self.leftover.add((rec['server'], rec['sb']))
            for p, s in self.schemas().items():
                self.leftover |= s - schemas.get(p, set())
            self.kept_schemas(schemas, 'an interrupted block')
            return
        for c in rec['conns']:
            if not c.closed:
                self.fail('connection-left', 'a connection of the block is open after it')
            b = rec['be'].get(id(c))
            if b is not None and not b.closed:
                self.fail('session-left', 'a session of the block is open after it')
        self.kept_schemas(schemas, 'a block')
        for p, s in self.schemas().items():
            new = s - schemas.get(p, set()) - self.leftover - {'public', 'sandbox9999_1'}
            if new:
                if late and ('drop_schema' in ' '.join(late) or 'sock' in late or 'connect_' in late or 'server crash' in late):
                    self.env.probe('dropfail')
                    self.leftover |= new
                else:
                    self.fail('schema-left', 'a block left %s' % sorted(new))

    def lost_answer(self, faults):
        return any(x.startswith(('create_schema_cut', 'create_schema_crash', 'drop_schema', 'sock', 'connect', 'search_path', 'server')) for x in faults)

    def kept_schemas(self, before, what):
        now = self.schemas()
        for p, s in before.items():
            if p in now and not s <= now[p]:
                self.fail('schema-dropped', '%s dropped %s, which it did not create' % (what, sorted(s - now[p])))

    def explained(self):
        """a block may be refused although nothing happened since its beginning"""
        L = self.cfg['life']
        return any(l['ready'] > 8000 or l.get('crash') for l in L) or 'server crash' in self.excuses or any('crash' in x for x in self.excuses) \
            or 'pg_config' in self.excuses or (self.external is not None and self.reborn)

    def mask(self, got, faults, ne):
        """the error raised is the one that occurred"""
        if len(faults) == 1 and faults[0] in ('create_schema_err', 'create_db_err'):
            code = [f['code'] for f in self.faults if f['on'] + '_' + str(f.get('do', '')) == faults[0]]
            if getattr(got, 'code', None) not in code:
                self.fail('masked', 'the server said %s, raised was %s %s' % (code, type(got).__name__, got))

    def no_more(self, live, rec, what):
        for b in self.env.backends:
            if b.ready and not b.closed and id(b) not in live:
                if b.db.server.alive:
                    self.fail('session-left', what)

    def quiet(self):
        """let what is in flight arrive"""
        self.sim.drain(self.sim.now + 200 * MS)

    def entered(self, rec, names, schemas, ne):
        self.env.probe('entered')
        if self.turned:
            self.env.probe('retried')
        self.blocks += 1
        if len(self.stack) > 1:
            self.env.probe('nested')
        now = builtins.__dict__
        for k in KEYS:
            if k not in now or now[k] is names.get(k, MISSING):
                self.fail('builtins', '%s was not set for the block' % k)
        for k in sorted(set(now) | set(names)):
            if k not in KEYS and now.get(k, MISSING) is not names.get(k, MISSING):
                self.fail('builtins', '%s was changed for the block' % k)
        rec['offered'] = {k: now[k] for k in KEYS}
        db = rec['db'] = now['db']
        rec['conns'].append(db)
        rec['be'] = {}
        b = self.backend_of(db)
        if b is None or db.closed:
            if self.excuses[ne:]:
                rec['server'] = rec['sb'] = None
                rec['ne'] = ne
                return
            self.fail('not-connected', 'the connection of the block is not open')
        rec['be'][id(db)] = b
        rec['server'] = b.db.server.pid
        rec['b'] = b
        if self.external is None and self.ours.get(b.db.server.dir) not in (self.pid, getattr(self, 'parent', self.pid)):
            self.fail('wrong-server', 'the block uses the cluster of another process')
        if self.external is not None and b.db.server is not self.external:
            self.fail('wrong-server', 'PGTEST was not used')
        if b.db.server is self.bystander:
            self.fail('wrong-server', 'the block uses the server of somebody else')
        if self.external is not None and len([p for p in self.w.procs.values() if isinstance(p, PG)]) > 1 + len(self.foreign):
            self.fail('wrong-server', 'a cluster was made although PGTEST is set')
        if b.params.get('database', 'test') != 'test':
            self.fail('wrong-server', 'the database is', b.params.get('database'))
        new = set(b.db.schemas) - schemas.get(b.db.server.pid, set()) - {'public', 'sandbox9999_1'}
        if len(new) != 1:
            self.fail('sandbox', 'the schemas made for the block are', sorted(new))
        rec['sb'] = new.pop()
        self.path(rec, b, 'db')

    def path(self, rec, b, what):
        p = [x.strip(' "') for x in b.guc('search_path').split(',')]
        if p[0] != rec['sb'] or p[1:] != ['$user', 'public']:
            self.fail('sandbox', 'search_path of %s is %s in the block of %s' % (what, p, rec['sb']))

    # ------------------------------------------------------------ inside
    def body(self, ops):
        for o in ops:
            self.sim.mark('<' + o['op'] + '>')
            getattr(self, 'op_' + o['op'])(o)
            self.guard(None)

    def lib(self, rec, fn):
        """('ok', v) | ('err', e); an error needs a reason"""
        ne = len(self.excuses)
        try:
            st, v = client.call(fn)
        except OSError as e:
            st, v = 'err', e
        if st == 'err':
            b = rec.get('b')
            if not self.excuses and not rec.get('closed') and (b is None or not b.closed):
                self.fail('false-error', '%s %s in a block' % (type(v).__name__, v))
        return st, v

    def top(self):
        return self.stack[-1]

    def op_use(self, o):
        """everything offered to the block works on its connection"""
        rec = self.top()
        b = rec.get('b')
        if b is None or rec.get('closed') or any(builtins.__dict__.get(k) is not rec['offered'][k] for k in KEYS):
            return
        n = len(b.db.history)
        k = o['a'] % 6
        if k == 0:
            st, v = self.lib(rec, lambda: prepare('SELECT 1').first())
            if st == 'ok' and v != 1:
                self.fail('wrong-value', v)
        elif k == 1:
            self.lib(rec, lambda: sqlexec('SELECT 1'))
        elif k == 2:
            st, v = self.lib(rec, lambda: settings['search_path'])
            if st == 'ok' and not v.replace('"', '').startswith(rec['sb']):
                self.fail('sandbox', 'search_path is', v)
            return
        elif k == 3:
            def go():
                with xact():
                    if b.xtx is None and not b.closed:
                        self.fail('wrong-connection', 'xact() did not begin a transaction of the connection of the block')
                    db.execute('SELECT 1')
            self.lib(rec, go)
        elif k == 4:
            self.lib(rec, lambda: do('plpgsql', 'begin end'))
        else:
            if connector is not db.connector:
                self.fail('wrong-connection', 'connector')
            return
        if st_of(b) and len(b.db.history) == n and not self.excuses:
            self.fail('wrong-connection', 'the statement did not reach the connection of the block')

    def op_new(self, o):
        rec = self.top()
        if rec.get('b') is None or builtins.__dict__.get('db') is not rec['db'] or builtins.__dict__['new'] is not rec['offered']['new']:
            return
        before = {id(b) for b in self.env.backends if b.ready}
        st, v = self.lib(rec, lambda: new())
        self.env.probe('new')
        if st == 'ok':
            rec['conns'].append(v)
            b = self.backend_of(v)
            if b is None:
                if not self.excuses:
                    self.fail('not-connected', 'new() returned a connection that is not open')
                return
            if id(b) in before:
                self.fail('wrong-connection', 'new() returned an old connection')
            rec['be'][id(v)] = b
            if b.db.server.pid != rec['server']:
                self.fail('wrong-server', 'new() connected to another server')
            self.path(rec, b, 'new()')

    def op_clone(self, o):
        """a connection the program makes by itself and keeps"""
        rec = self.top()
        if rec.get('b') is None or rec.get('closed'):
            return
        st, v = self.lib(rec, lambda: rec['db'].clone())
        if st == 'ok':
            self.kept.append(v)
            self.env.probe('open_at_exit')
            if o['a'] % 2:
                self.lib(rec, lambda: v.execute('BEGIN'))

    def op_tx(self, o):
        rec = self.top()
        if rec.get('b') is None or rec.get('closed'):
            return
        self.lib(rec, lambda: rec['db'].xact().start())

    def op_stream(self, o):
        """rows are left unread"""
        rec = self.top()
        if rec.get('b') is None or rec.get('closed') or rec.get('it'):
            return

        def go():
            it = rec['db'].prepare('SELECT series(200)').rows()
            next(it)
            rec['it'] = it
        self.lib(rec, go)

    def op_close(self, o):
        rec = self.top()
        if rec.get('b') is None:
            return
        c = rec['conns'][o['a'] % len(rec['conns'])]
        if c is rec['db']:
            rec['closed'] = True
        self.lib(rec, c.close)

    def op_setb(self, o):
        """the program assigns a builtin itself: that lasts until the end of the block"""
        builtins.__dict__[KEYS[o['a'] % len(KEYS)]] = 'mine'

    def op_sleep(self, o):
        self.sim.sleep_us(o['a'] * 20 * MS)

    # ------------------------------------------------------------ processes
    def op_child(self, o):
        """a forked process: it has copies of everything and runs its exit handlers at its end"""
        if hasattr(self, 'parent'):
            return
        self.env.probe('child')
        before = [(p.pid, p.dir) for p in self.servers()]
        tree = self.tree()
        n = len(self.exits)
        self.parent = self.pid
        self.pid = self.nextpid
        self.nextpid += 1
        ne = len(self.excuses)
        me = self.pid
        try:
            self.body(o['ops'])
            self.run_exits('the exit of a forked process')
            if me in self.ours.values():
                self.env.probe('child_init')
            self.gone(me, 'a forked process')
        finally:
            del self.exits[n:]
            self.pid = self.parent
            del self.parent
        if 'server crash' in self.excuses[ne:] or any('crash' in x for x in self.excuses[ne:]):
            return
        for pid, d in before:
            p = self.w.procs.get(pid)
            if p is None or not p.alive or p.stopping:
                if not any(l.get('crash') for l in self.cfg['life']):
                    self.fail('stopped-by-child', 'the exit of a forked process stopped the server of its parent')
            if not self.w.ls(d):
                self.fail('removed-by-child', 'the exit of a forked process removed the cluster of its parent')
        if tree is not None and not set(tree) <= set(self.tree()):
            self.fail('removed-by-child', sorted(set(tree) - set(self.tree())))

    def run_exits(self, what):
        t = self.sim.now
        for pid, fn, a, k in reversed(list(self.exits)):
            try:
                fn(*a, **k)
            except (Violation, HarnessAbort):
                raise
            except Exception as e:
                e.__traceback__ = None
                if self.first is None and self.sim.aborted is None:
                    self.fail('exit-error', '%s: %s %s' % (what, type(e).__name__, e))
        if self.first is not None:
            raise self.first
        return self.sim.now - t

    def gone(self, pid, what):
        """nothing of this process is left"""
        for d, owner in sorted(self.ours.items()):
            if owner != pid:
                continue
            for p in self.servers():
                if p.dir == d:
                    self.fail('server-left', '%s left a server running' % what)
            if self.w.ls(d) is not None:
                self.fail('directory-left', '%s left %s' % (what, d))
            del self.ours[d]
        for p in self.w.procs.values():
            if isinstance(p, Tool) and p.alive:
                if p.name == 'initdb' or 'kbd_' not in self.excuses:
                    self.fail('process-left', '%s left %s' % (what, p))

    def paths(self, d, pre=''):
        for n, x in sorted(d.entries.items()):
            yield pre + '/' + n
            if x.kind == 'dir':
                yield from self.paths(x, pre + '/' + n)

    def files(self, what):
        """no file of a process of this program, outside of a cluster somebody still has"""
        others = tuple(d + '/' for d in list(self.ours) + sorted(self.abandoned))
        socks = {f for p in self.foreign for f in p.socks}
        new = [p for p in self.paths(self.w.root) if p not in self.base and not (p + '/').startswith(others) and p not in socks]
        if new:
            self.fail('file-left', '%s left %s' % (what, new[:4]))

    def op_destroy(self, o):
        if self.stack:
            return
        st = 'ok'
        for t in (self.tmp, self.tmp2):
            if t is None:
                continue
            try:
                t.destroy()
            except (Violation, HarnessAbort):
                raise
            except Exception as e:
                e.__traceback__ = None
                self.fail('exit-error', 'destroy(): %s %s' % (type(e).__name__, e))
        self.env.probe('destroyed')
        self.gone(self.pid, 'destroy()')
        self.files('destroy()')

    def op_die(self, o):
        """SIGKILL: no handler runs; then another process, perhaps of the same number"""
        if self.stack or hasattr(self, 'parent'):
            return
        self.env.probe('killed_process')
        for s in self.env.net.open_sockets():
            s.close()
        self.kept = []
        self.exits = []
        for p in self.w.procs.values():
            p.child = False
        self.foreign = [p for p in self.servers() if p is not self.external and p is not self.bystander]
        for p in list(self.w.procs.values()):
            if not p.alive:
                p.gone()
            elif isinstance(p, Tool):
                p.exit(-9)
        if o.get('part'):
            # it died earlier, while initdb was at work, say
            for p in self.foreign:
                p.exit(-9)
            self.foreign = []
            for d in self.ours:
                if self.w.ls(d) is not None:
                    self.w.walk(d)[2].entries.pop('postgresql.conf', None)
                if self.w.ls(d) is None:
                    self.w.mkdirs(d + '/base')
                    self.w.put(d + '/PG_VERSION', b'16\n')
                self.w.put(d + '/base/112', b'x')
        self.abandoned |= set(self.ours)
        self.ours = {}
        self.load()
        if o['same']:
            self.env.probe('stale')
            self.reborn = True         # schemas of the other may be in the way
            # its number and its path are those of the dead process
            self.foreign = []
        else:
            self.pid = self.nextpid
            self.nextpid += 1
        self.quiet()

    def run(self):
        names = self.names()
        for o in self.env.ops:
            self.sim.mark('<' + o['op'] + '>')
            getattr(self, 'op_' + o['op'])(o)
            self.guard(None)
        # the process ends
        healthy = not any(l['term'] < 0 or l['term'] > 1000 or l['exit'] > 1000 for l in self.cfg['life']) and not [e for e in self.excuses if e.startswith(('terminate', 'connect', 'sock'))]
        n = len([e for e in self.excuses])
        took = self.run_exits('the exit')
        if healthy and took > 4 * SEC and len(self.excuses) == n and not any(l['ready'] > 4000 for l in self.cfg['life']):
            self.fail('late', 'the exit took %.3f s' % (took / SEC))
        self.quiet()
        self.gone(self.pid, 'the process')
        self.files('the process')
        self.guard(None)
        self.same_names(names, 'at the end')
        if self.w.fds:
            self.fail('descriptor-leak', [e[3] for e in self.w.fds.values()])


def st_of(b):
    return not b.closed


# ------------------------------------------------------------ what the process asks the system
def setup(variant):
    import atexit
    pid = os.getpid
    reg, unreg = atexit.register, atexit.unregister
    os.getpid = lambda: RUN.pid if RUN is not None else pid()

    def register(fn, *a, **k):
        if RUN is None or getattr(fn, '__module__', None) in ('weakref', 'logging'):
            return reg(fn, *a, **k)
        RUN.exits.append((RUN.pid, fn, a, k))
        return fn

    def unregister(fn):
        if RUN is not None:
            RUN.exits[:] = [e for e in RUN.exits if e[1] != fn]
        return unreg(fn)
    atexit.register, atexit.unregister = register, unregister
    import postgresql.driver
    postgresql.driver.default = client.DRIVER
    import postgresql.cluster, postgresql.temporal


def run(env):
    global RUN
    client.reset(env)
    osworld.set_world(None)
    r = Run.__new__(Run)
    RUN = r
    try:
        r.pid = 7001
        r.exits = []
        import postgresql.temporal
        r.__init__(env)
        osworld.set_world(r.w)
        r.run()
    finally:
        RUN = None
        osworld.set_world(None)
        if hasattr(r, 'environ'):
            r.restore()
        r.kept = []
    env.nontrivial = r.blocks > 0


def cleanup(env):
    global RUN
    RUN = None
    osworld.set_world(None)
