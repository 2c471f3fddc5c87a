"""C22: a configuration file update is all or nothing."""
import errno, re, sys, io
from sim.core import *
from sim import client, osworld
from sim.osworld import SimCrash, World

PROP = 'C22'
RULE = ('one evaluation = one seeded configuration file and program of updates, deletions, temporary settings, reads and pg_dotconf commands on a simulated '
        'file system, with an error, short write, full disk, process crash or power loss at one file-system call; distinct non-trivial = distinct sequences '
        'of calls and faults among runs that changed the file or were hit by a fault')
RUNS = {'quick': 80000, 'thorough': 1200000}
VARIANTS = ('c',)
REAL = ['postgresql.configfile (parser, alter_config, ConfigFile)', 'postgresql.bin.pg_dotconf', 'Python file objects (buffering, encoding)']
STUB = ['kernel file system (simulated inodes, page cache, fsync, rename and directory durability)']
ASSUMPTIONS = ['lines that set a value without an equality sign and names with a dot are outside of the parser\'s syntax: they are only preserved',
               'values hold no newline and no backslash', 'newlines are \\n', 'one program updates the file at a time',
               'a directory that allows no new files leaves only writing in place: not combined with another fault',
               'a rename is atomic; directory changes become durable in order']
PROBES = ['err', 'short', 'full', 'torn', 'crash', 'crash_after', 'power', 'old_kept', 'new_kept', 'with', 'del', 'dotconf', 'symlink', 'empty', 'raised',
          'unencodable', 'read_fault']

KEYS = ['port', 'listen_addresses', 'max_connections', 'shared_buffers', 'search_path', 'log_line_prefix', 'hba_file', 'ssl', 'a', 'work_mem']
VALS = ['5432', 'localhost', "it's", 'a b', '', '#x', 'k=v', '%t [%p] ', '\u00e9t\u00e9', '*', 'on', '100', "''", "'", '"$user", public', '128MB']
CODES = ['ENOSPC', 'EIO', 'EDQUOT', 'EMFILE', 'EACCES', 'EINTR', 'EFBIG']


def conf(rng):
    """lines: [kind, text-or-(key, value, form)]"""
    out = []
    for _ in range(rng.choice([0, 1, 2, 4, 8, 20, 60])):
        x = rng.random()
        if x < 0.02:
            out.append(['text', rng.choice(["zz = 5 apples", "zz='a b'  pears # x", 'ZZ = 7 = 8'])])
        elif x < 0.5:
            k = rng.choice(KEYS)
            out.append(['off' if rng.random() < 0.35 else 'set', k, rng.choice(VALS), rng.randrange(6), rng.choice(['', '', '', '\t# comment', ' # it\'s = so', '#x'])])
        else:
            out.append(['text', rng.choice(['', '', '# prose', '# This is a good = test', "include 'more.conf'", 'timezone UTC', '#' + '-' * rng.choice([1, 70, 300]),
                                            'a.b = 3', '# - Settings -', '   ', '\t', '#', '#\u00e9'])])
    return out


def render(line):
    if line[0] == 'text':
        return line[1]
    _, k, v, form, tail = line
    q = "'" + v.replace("'", "''") + "'"
    bare = re.match(r'^[\w.*]+$', v, re.A) is not None
    if form == 0:
        s = '%s = %s' % (k, q)
    elif form == 1:
        s = '%s=%s' % (k, v if bare else q)
    elif form == 2:
        s = '  %s = %s' % (k, v if bare else q)
    elif form == 3:
        s = '%s =  %s' % (k.upper(), q)
    elif form == 4:
        s = '%s = %s ' % (k.capitalize(), v if bare else q)
    else:
        s = '%s\t=\t%s' % (k, q)
    if line[0] == 'off':
        s = ('#', '# ', ' #')[form % 3] + s
    return s + tail


def keyvals(rng, none=0.2):
    out = {}
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
        k = rng.choice(KEYS + ['zz'])
        if k.lower() in {x.lower() for x in out}:
            continue
        if rng.random() < 0.1:
            k = k.upper()       # names are case-insensitive
        out[k] = None if rng.random() < none else rng.choice(VALS)
    return out


def gen(rng, tier):
    ops = []
    for _ in range(rng.randrange(1, 6)):
        x = rng.random()
        if x < 0.5:
            o = {'op': 'update', 'kv': keyvals(rng)}
            if rng.random() < 0.05:
                o['kv'][rng.choice(KEYS)] = 'bad \udc80'
        elif x < 0.6:
            o = {'op': 'set', 'k': rng.choice(KEYS), 'v': rng.choice(VALS)}
        elif x < 0.7:
            o = {'op': 'del', 'k': rng.choice(KEYS)}
        elif x < 0.8:
            o = {'op': 'with', 'kv': keyvals(rng, 0.1), 'boom': rng.randrange(2), 'body': [{'op': 'update', 'kv': keyvals(rng)}] if rng.random() < 0.4 else []}
            if rng.random() < 0.3:
                o['body'].append({'op': 'with', 'kv': keyvals(rng, 0.1), 'boom': 0, 'body': []})
        elif x < 0.9:
            o = {'op': 'dotconf', 'kv': keyvals(rng)}
            if rng.random() < 0.4:
                o['file'] = {k: v for k, v in keyvals(rng, 0).items()}
        else:
            o = {'op': 'read'}
        ops.append(o)
    cfg = {'lines': conf(rng), 'nl': int(rng.random() < 0.75), 'link': int(rng.random() < 0.2), 'mode': rng.choice([0o600, 0o640, 0o644]), 'uid': rng.choice([0, 26])}
    faults = []
    if rng.random() < 0.75:
        k = rng.choice(['err', 'err', 'short', 'full', 'torn', 'crash', 'crash', 'crash_after'])
        f = {'at': rng.randrange(0, 24), 'kind': k, 'op': rng.randrange(len(ops))}
        if k == 'err':
            f['errno'] = rng.choice(CODES)
        if k in ('short', 'torn', 'full'):
            f['n'] = rng.choice([0, 1, rng.randrange(1, 60), rng.randrange(1, 3000)])
        if k in ('torn', 'crash', 'crash_after'):
            f['power'] = rng.randrange(2)
        faults.append(f)
        if f.get('errno') == 'EACCES':
            for o in ops:           # the file is written in place
                for d in [o] + o.get('body', []):
                    for k, v in d.get('kv', {}).items():
                        if v and '\udc80' in v:
                            d['kv'][k] = 'x'
    return {'ops': ops, 'faults': faults, 'policy': {}, 'cfg': cfg}


def simplify(plan):
    import copy
    L = plan['cfg']['lines']
    for size in (16, 4, 1):
        for i in range(0, len(L), size):
            p = copy.deepcopy(plan); del p['cfg']['lines'][i:i + size]
            yield p
    for i, o in enumerate(plan['ops']):
        for k in list(o.get('kv', ())):
            if len(o['kv']) > 1:
                p = copy.deepcopy(plan); del p['ops'][i]['kv'][k]
                yield p


# ------------------------------------------------------------ an independent reading of the file
P_SET = re.compile(r"^\s*([A-Za-z_][A-Za-z0-9_]*)\s*=\s*('(?:[^']|'')*'|[^\s#']*)\s*(#.*)?$")
P_OFF = re.compile(r"^\s*#[\s#]*([A-Za-z_][A-Za-z0-9_]*)\s*=")


# a line of the setting zz with something behind the value
P_JUNK = re.compile(r"^\s*(zz)\s*=\s*('(?:[^']|'')*'|[^\s#']*)\s+[^\s#]", re.I)


def key_of(l):
    """the setting a line is about, and whether it is in force"""
    m = P_SET.match(l) or P_JUNK.match(l)
    if m:
        return m.group(1).lower(), True, m.group(2)
    m = P_OFF.match(l)
    if m:
        return m.group(1).lower(), False, None
    return None, False, None


def split(text):
    ls = text.split('\n')
    if ls and ls[-1] == '':
        ls.pop()
    return ls


def effective(text):
    d = {}
    for l in split(text):
        k, on, v = key_of(l)
        if on:
            d[k] = v[1:-1].replace("''", "'") if v[:1] == "'" else v
    return d


def other_lines(text, keys):
    return [l for l in split(text) if key_of(l)[0] not in keys]


PATH = osworld.ROOT + '/data/postgresql.conf'
REALPATH = osworld.ROOT + '/etc/main.conf'


class Boom(Exception):
    pass


class Run:
    def __init__(self, env):
        from postgresql import configfile
        self.env = env
        self.w = World(env.sim)
        cfg = env.cfg
        text = '\n'.join(render(l) for l in cfg['lines']) + ('\n' if cfg['nl'] and cfg['lines'] else '')
        self.real = PATH
        self.w.mkdirs(osworld.ROOT + '/data')
        if cfg['link']:
            env.probe('symlink')
            self.real = REALPATH
            self.w.put_link(PATH, '../etc/main.conf')
        if not text:
            env.probe('empty')
        self.w.put(self.real, text.encode(), cfg['mode'] or 0o600, cfg['uid'], cfg['uid'])
        self.configfile = configfile
        self.cf = configfile.ConfigFile(PATH)
        self.cur = text             # what the file must hold
        self.next = None            # what it may hold instead while an operation runs
        self.eff = effective(text)
        self.crash = False
        self.changed = False

    def fail(self, kind, *d):
        raise Violation(kind, ' '.join(str(x) for x in d))

    def text(self):
        d = self.w.peek(self.real)
        if d is None:
            self.fail('file-gone', 'the configuration file no longer exists')
        try:
            return d.decode()
        except UnicodeDecodeError as e:
            self.fail('torn-file', 'undecodable: %s' % e)

    def judge(self, what, kv, new, old=None):
        """is `new` the old text with exactly kv changed?  returns a complaint or None"""
        old = self.cur if old is None else old
        kv = {k.lower(): v for k, v in kv.items()}
        want = effective(old)
        for k, v in kv.items():
            if v is None:
                want.pop(k, None)
            else:
                want[k] = v
        got = effective(new)
        if got != want:
            ks = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
            return 'wrong-settings', '%s: %r' % (what, {k: (got.get(k), 'instead of', want.get(k)) for k in ks})
        for k in kv:
            # what was commented out stays as it is, but for the line that is put in force
            a, b = ([l for l in split(t) if key_of(l)[:2] == (k, False)] for t in (old, new))
            for l in b:
                if l in a:
                    a.remove(l)
            if len(a) > (kv[k] is not None):
                return 'other-line-changed', '%s: the comments %r are gone' % (what, a)
            if kv[k] is not None and [l for l in split(new) if not P_SET.match(l) and P_JUNK.match(l) and l not in split(old) and key_of(l)[0] == k]:
                return 'bad-line', '%s left something behind the value of %s' % (what, k)
        a, b = other_lines(old, kv), other_lines(new, kv)
        if a != b:
            for i in range(max(len(a), len(b))):
                if a[i:i + 1] != b[i:i + 1]:
                    return 'other-line-changed', '%s: line %d of the others is %r instead of %r' % (what, i, b[i:i + 1], a[i:i + 1])
        return None

    def meta(self, what):
        try:
            n = self.w.need(self.real)
        except OSError:
            self.fail('file-gone', what)
        c = self.env.cfg
        if (n.mode, n.uid, n.gid) != (c['mode'] or 0o600, c['uid'], c['uid']):
            self.fail('wrong-owner', '%s: mode, owner and group of the file are %r' % (what, (oct(n.mode), n.uid, n.gid)))
        if c['link'] and self.w.walk(PATH, follow=False)[2].kind != 'link':
            self.fail('link-replaced', what)

    def settle(self, what, kv):
        """after an operation that failed or died: previous or new content"""
        t = self.text()
        if t == self.cur:
            self.env.probe('old_kept')
            return
        bad = self.judge(what, kv, t)
        if bad:
            self.fail('neither-old-nor-new', '%s left %r (%d of %d bytes): %s' % (what, t[-80:], len(t), len(self.cur), bad[1]))
        self.env.probe('new_kept')
        self.meta(what)
        self.cur = t
        self.eff = effective(t)

    def change(self, what, fn, kv):
        """run one update"""
        self.w.sync()               # some time passes between two operations
        files = self.files()
        try:
            fn()
        except SimCrash:
            self.die(what, kv)
        except (OSError, UnicodeError) as e:
            unenc = any(v is not None and '\udc80' in v for v in kv.values())
            if not self.w.fired and not unenc:
                self.fail('unexplained-error', '%s raised %r' % (what, e))
            self.env.probe('unencodable' if unenc else 'raised')
            self.settle(what + ' raised %s' % type(e).__name__, kv)
            if 'unlink' not in [x[1] for x in self.w.fired]:
                self.left(what, files)
            return False
        else:
            t = self.text()
            bad = self.judge(what, kv, t)
            if bad:
                if self.w.fired:
                    self.fail('failure-became-success', '%s returned although %s; %s' % (what, self.w.fired[-1], bad))
                self.fail(*bad)
            self.changed = self.changed or t != self.cur
            self.cur = t
            self.eff = effective(t)
            self.meta(what)
            self.left(what, files)
            return True

    def files(self):
        return {d: sorted(self.w.walk(osworld.ROOT + d)[2].entries) for d in ('/data',) + (('/etc',) if self.env.cfg['link'] else ())}

    def left(self, what, files):
        if self.files() != files:
            self.fail('file-left-behind', '%s: %r instead of %r' % (what, self.files(), files))

    def die(self, what, kv):
        f = self.w.fired[-1][0]
        if f.get('power'):
            self.env.probe('power')
            self.w.power()
        self.w.restart()
        self.settle('%s, %s at %s,' % (what, 'power loss' if f.get('power') else 'crash', self.w.fired[-1][1]), kv)
        self.crash = True
        raise SimCrash()

    # -- operations
    def op_update(self, o):
        if not o['kv']:
            return
        self.change('update %r' % o['kv'], lambda: self.cf.update(dict(o['kv'])), o['kv'])

    def op_set(self, o):
        def go():
            self.cf[o['k']] = o['v']
        self.change('[%r] = %r' % (o['k'], o['v']), go, {o['k']: o['v']})

    def op_del(self, o):
        def go():
            del self.cf[o['k']]
        self.env.probe('del')
        try:
            self.change('del [%r]' % o['k'], go, {o['k']: None})
        except KeyError:
            if o['k'] in self.eff:
                self.fail('unexplained-error', 'del raised KeyError for %r' % o['k'])
            self.settle('del raised KeyError', {})

    def op_with(self, o):
        self.env.probe('with')
        kv = o['kv']
        if not kv:
            return
        cf = self.cf
        old = {k: self.eff.get(k.lower()) for k in kv}
        what = 'with cf(%r)' % kv
        ctx = []

        def enter():
            c = cf(**kv)
            c.__enter__()
            ctx.append(c)
        if not self.change('entering ' + what, enter, kv):
            return
        for b in o['body']:
            self.do(b)

        def leave():
            e = Boom('x')
            if o['boom']:
                if ctx[0].__exit__(Boom, e, None):
                    self.fail('exception-swallowed', what)
            else:
                ctx[0].__exit__(None, None, None)
        self.change('leaving ' + what, leave, old)

    def op_dotconf(self, o):
        from postgresql.bin import pg_dotconf
        self.env.probe('dotconf')
        kv = {k: v for k, v in o['kv'].items() if v is None or '\udc80' not in v}
        args = ['pg_dotconf']
        all_ = {}
        if o.get('file'):
            p = osworld.ROOT + '/tmp/extra.conf'
            self.w.put(p, ''.join('%s = \'%s\'\n#%s = 7\n' % (k, v.replace("'", "''"), k) for k, v in o['file'].items()).encode())
            args += ['-f', p]
            all_.update(o['file'])
        args.append(PATH)
        for k, v in kv.items():
            args.append(k if v is None else '%s=%s' % (k, v))
        all_.update(kv)
        if not all_:
            return

        def go():
            so, se = sys.stdout, sys.stderr
            sys.stdout = sys.stderr = io.StringIO()
            try:
                r = pg_dotconf.command(args)
            finally:
                sys.stdout, sys.stderr = so, se
            if r:
                self.fail('unexplained-error', 'pg_dotconf returned %r' % (r,))
        self.change('pg_dotconf %r' % args[1:], go, all_)

    def op_read(self, o):
        cf = self.cf
        want = {k: v for k, v in self.exact().items()}

        def go():
            got = {k: v for k, v in cf.items()}
            if got != want:
                self.fail('wrong-read', 'items() is %r instead of %r' % (got, want))
            if sorted(cf.keys()) != sorted(want) or sorted(cf.values()) != sorted(want.values()) or len(cf) != len(want) or sorted(cf) != sorted(want):
                self.fail('wrong-read', 'keys, values, len or iteration')
            for k in KEYS[:4]:
                if cf.get(k, 7) != want.get(k, 7):
                    self.fail('wrong-read', 'get(%r) is %r instead of %r' % (k, cf.get(k), want.get(k)))
                try:
                    v = cf[k]
                except KeyError:
                    v = 7
                if v != want.get(k, 7):
                    self.fail('wrong-read', '[%r] is %r' % (k, v))
            g = cf.getset(KEYS[:4])
            if g != {k: self.eff.get(k) for k in KEYS[:4]}:
                self.fail('wrong-read', 'getset is %r' % (g,))
        self.env.probe('read_fault') if self.w.faults else None
        self.change('reading', go, {})

    def exact(self):
        """names as they are written"""
        d = {}
        for l in split(self.cur):
            m = P_SET.match(l) or P_JUNK.match(l)
            if m:
                v = m.group(2)
                d[m.group(1)] = v[1:-1].replace("''", "'") if v[:1] == "'" else v
        return d

    def do(self, o):
        getattr(self, 'op_' + o['op'])(o)


def run(env):
    osworld.set_world(None)
    r = Run(env)
    w = r.w
    osworld.set_world(w)
    env.nontrivial = False
    f = env.plan['faults'][0] if env.plan['faults'] else None
    try:
        for i, o in enumerate(env.ops):
            env.sim.mark('<' + o['op'] + '>')
            w.armed = True
            if f is not None and f.get('op') == i:
                g = dict(f); g['at'] = w.n + f['at']
                if 'errno' in g:
                    g['errno'] = getattr(errno, g['errno'])
                w.faults = [g]
            try:
                r.do(o)
            except SimCrash:
                if not r.crash:
                    raise HarnessError('stray crash')
                r.crash = False
            w.faults = []
            if f is not None and w.fired:
                env.probe(f['kind'])
        w.armed = False
        # and it goes on working
        w.faults = []; w.fired = []
        before = dict(r.eff)
        r.change('a last update', lambda: r.configfile.ConfigFile(PATH).update({'port': '1234', 'fsync': 'off'}), {'port': '1234', 'fsync': 'off'})
        env.nontrivial = r.changed or bool(w.fired)
        if w.fds:
            r.fail('descriptor-leak', '%d descriptors are still open: %r' % (len(w.fds), [e[3] for e in w.fds.values()]))
    finally:
        osworld.set_world(None)


def cleanup(env):
    osworld.set_world(None)
