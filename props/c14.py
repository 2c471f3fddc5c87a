"""C14: settings read through the driver agree with the server."""
from sim.core import *
from sim import client, wl
from sim.work import AppError

PROP = 'C14'
RULE = ('one evaluation = one seeded session of reads, assignments, updates, deletions, settings context managers (nested, failing, raising) and '
        'search_path manipulation mixed with SET/RESET statements, transaction blocks, savepoints, server-side changes and server errors, both with '
        'immediate and with late reports of changed parameters; after every step what the driver says is compared with the simulated server; '
        'distinct non-trivial = distinct sequences of operations, replies and reads among runs that changed a setting')
RUNS = {'quick': 26000, 'thorough': 400000}
REAL = ['postgresql.driver.pq3 (Settings, SettingsCM, Transaction)', 'postgresql.lib (libsys.sql)', 'postgresql.protocol.* (C and Python buffer)']
STUB = ['server (simulated backend with its own table of settings, undone by rollbacks)', 'socket, select, clock (simulated)']
ASSUMPTIONS = ['settings are named as the server spells them', 'when the server changes a setting by itself while it is being assigned, either value may be read afterwards',
               'when a subscriber raises, the subscribers after it are not called for that change']
PROBES = ['text', 'text_encoding', 'connected_with', 'sub_twice', 'unsub', 'sub_raised', 'assigned', 'read_reported', 'read_unreported', 'outside', 'rolled_back', 'cm', 'cm_nested', 'cm_raised', 'cm_enter_failed', 'server_change', 'invalid',
          'server_error', 'path', 'subscriber', 'late_report', 'deleted']
VARIANTS = ('c', 'py')

REPORTED = ('application_name', 'TimeZone', 'IntervalStyle', 'DateStyle', 'standard_conforming_strings', 'client_encoding')
UNREPORTED = ('work_mem', 'statement_timeout', 'search_path', 'client_min_messages')
VALUES = {
    'application_name': ['a', 'b', 'app x', ''], 'TimeZone': ['UTC', 'Europe/Paris', 'Asia/Tokyo'], 'IntervalStyle': ['postgres', 'iso_8601'],
    'DateStyle': ['ISO, MDY', 'ISO, DMY'], 'standard_conforming_strings': ['on', 'off', 'true'],
    'client_encoding': ['UTF8', 'LATIN1', 'LATIN9', 'KOI8R', 'WIN1251', 'EUC_JP', 'latin1', 'utf-8'],
    'work_mem': ['4MB', '1024', '64MB', '1GB', '100kB', '4096'], 'statement_timeout': ['0', '1000', '60000', '250', '5s'],
    'search_path': ['"$user", public', 'public', '"a b","c"', 'x'], 'client_min_messages': ['notice', 'WARNING', 'error'],
}
SAMPLE = {'UTF8': '\u2603 \u0436\u00e9', 'LATIN1': '\u00e9\u00fc', 'LATIN9': '\u20ac\u00e9', 'KOI8R': '\u0436\u0411', 'WIN1251': '\u0436\u0411', 'EUC_JP': '\u65e5\u672c'}
INVALID = {'client_encoding': 'EBCDIC', 'work_mem': 'lots', 'statement_timeout': 'x', 'client_min_messages': 'loud', 'standard_conforming_strings': 'maybe'}
PATHS = [['public'], ['a', 'b'], ['we ird', 'p"q'], ['$user', 'public'], ['A.B', 'c']]


def key(rng):
    return rng.choice(REPORTED) if rng.random() < 0.45 else rng.choice(UNREPORTED)


def kv(rng, n, bad=0.08):
    out = {}
    for _ in range(n):
        k = key(rng)
        out[k] = INVALID[k] if k in INVALID and rng.random() < bad else rng.choice(VALUES[k])
    return out


def gen_ops(rng, n, depth):
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.20:
            k = key(rng)
            out.append({'op': 'set', 'k': k, 'v': INVALID[k] if k in INVALID and rng.random() < 0.08 else rng.choice(VALUES[k])})
        elif x < 0.36:
            out.append({'op': 'read', 'how': rng.choice(['item', 'item', 'get', 'in']), 'k': key(rng)})
        elif x < 0.42:
            out.append({'op': 'mread', 'how': rng.choice(['getset', 'getset', 'items', 'keys', 'values', 'len', 'iter']), 'ks': [key(rng) for _ in range(rng.randrange(0, 4))]})
        elif x < 0.50:
            out.append({'op': 'update', 'd': kv(rng, rng.randrange(0, 4)), 'seq': rng.random() < 0.5})
        elif x < 0.54:
            out.append({'op': 'del', 'k': key(rng)})
        elif x < 0.66:
            k = key(rng)
            out.append({'op': 'behind', 'how': rng.choice(['SET', 'SET', 'RESET', 'RESET ALL', 'set_config', 'reset()']), 'k': k, 'v': rng.choice(VALUES[k])})
        elif x < 0.72:
            out.append({'op': 'tx', 'how': rng.choice(['begin', 'commit', 'rollback', 'save', 'back'])})
        elif x < 0.77 and depth > 0:
            out.append({'op': 'block', 'ops': gen_ops(rng, rng.randrange(1, 4), depth - 1), 'end': rng.choice(['ok', 'raise', 'raise', 'error'])})
        elif x < 0.88 and depth > 0:
            out.append({'op': 'cm', 'd': kv(rng, rng.randrange(0, 4), 0.04), 'ops': gen_ops(rng, rng.randrange(0, 5), depth - 1), 'end': rng.choice(['ok', 'ok', 'raise', 'base', 'error'])})
        elif x < 0.93:
            out.append({'op': 'path', 'how': rng.choice(['get', 'get', 'set', 'set', 'del']), 'v': rng.choice(PATHS)})
        elif x < 0.945:
            out.append({'op': 'text', 'how': rng.choice(['param', 'kept', 'say', 'raise', 'notify', 'execute', 'rows'])})
        elif x < 0.955:
            out.append({'op': 'sub', 'k': rng.choice(['TimeZone', 'TimeZone', 'application_name', 'client_encoding', None]), 'w': rng.randrange(3), 'off': rng.random() < 0.4})
        elif x < 0.97:
            out.append({'op': 'unknown', 'how': rng.choice(['item', 'get', 'set', 'getset', 'update', 'cm', 'del'])})
        else:
            out.append({'op': 'again', 'v': rng.choice(['a', 'b'])})
    return out


def gen(rng, tier):
    ops = gen_ops(rng, rng.randrange(3, 14), 3)
    cfg = {'late': rng.random() < 0.5, 'subs': rng.random() < 0.5}
    if rng.random() < 0.12:
        # text, in changing encodings
        new = []
        for op in ops:
            if rng.random() < 0.5:
                new.append({'op': rng.choice(['set', 'behind']), 'how': 'SET', 'k': 'client_encoding', 'v': rng.choice(VALUES['client_encoding'])})
            new.append({'op': 'text', 'how': rng.choice(['param', 'kept', 'say', 'raise', 'notify', 'execute', 'rows'])})
            new.append(op)
        ops = new
    if rng.random() < 0.1:
        # subscribers coming and going
        cfg['subs'] = True
        ks = rng.sample(['TimeZone', 'application_name', None], rng.choice([1, 1, 2]))
        for _ in range(rng.randrange(2, 9)):
            k = rng.choice(ks)
            ops.insert(rng.randrange(0, len(ops) + 1), {'op': 'sub', 'k': k, 'w': rng.randrange(3), 'off': rng.random() < 0.35})
            k = k or 'TimeZone'
            if rng.random() < 0.6:
                ops.insert(rng.randrange(0, len(ops) + 1), {'op': 'set', 'k': k, 'v': rng.choice(VALUES[k])})
    if rng.random() < 0.2:
        cfg['conn'] = kv(rng, rng.randrange(1, 4), 0)
        if rng.random() < 0.3:
            cfg['conn']['search_path'] = rng.choice(PATHS + [None])
    if rng.random() < 0.1:
        cfg['scs'] = 'off'
    if cfg['subs'] and rng.random() < 0.2:
        cfg['boom'] = rng.choice(['TimeZone', 'application_name'])
    if rng.random() < 0.35:
        ks = rng.sample(['application_name', 'TimeZone'], rng.choice([1, 2]))
        cfg['server'] = [[rng.randrange(0, 150), k, rng.choice(VALUES[k])] for k in ks for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.25:
        cfg['errs'] = [[rng.randrange(0, 60), rng.choice(['57014', '53200'])] for _ in range(rng.randrange(1, 3))]
    return {'ops': ops, 'policy': wl.policy(rng), 'cfg': cfg}


class Base(BaseException):
    pass


class Check:
    def __init__(self, env, s):
        self.env = env; self.s = s; self.db = s.db; self.b = s.b; self.st = s.db.settings
        # values the server had since the last assignment through the interface
        self.hist = {k: [self.forms(k)] for k in REPORTED + UNREPORTED}
        self.servers = {x[1] for x in env.cfg.get('server', ())}
        self.unsure = set()
        self.kept = None
        self.sent_in = set()    # encodings in force while the notifications not pulled yet arrived
        self.subs = []
        self.log = []
        self.fns = [lambda conn, k, v, w=w: self.log.append((w, conn, k, v)) for w in range(3)]

    def forms(self, k):
        return (self.b.guc(k), self.b.setting(k))

    def track(self, assigned=()):
        """after an operation: remember what the server has now"""
        for k in self.hist:
            f = self.forms(k)
            if k in assigned:
                self.hist[k] = [f]
            elif self.hist[k][-1] != f:
                self.hist[k].append(f)
                self.env.probe('outside')

    def agree(self, what, k, val, cached=True):
        """what the interface says about k against the server"""
        f = self.forms(k)
        if k in REPORTED:
            self.env.probe('read_reported')
            if val == f[0] or val in self.before[k]:
                return
            if cached and k in self.unsure:
                return
            raise Violation('setting-disagrees', '%s says %s = %r, the server has %r' % (what, k, val, f[0]))
        self.env.probe('read_unreported')
        if val in f:
            return
        if cached and any(val in x for x in self.hist[k]):
            self.env.known('K01', 'setting-disagrees', '%s says %s = %r, the server has %r; it was changed by a statement or a rollback since' % (what, k, val, f[0]))
            return
        raise Violation('setting-disagrees', '%s says %s = %r, the server has %r' % (what, k, val, f[0]))

    def call(self, what, f, client_err=()):
        """run an operation: 'ok', value or 'err', error (accounted for)"""
        s = self.s
        self.before = {k: {self.forms(k)[0]} for k in self.hist}
        n0 = len(self.b.sent_async)
        st, val = client.call(f)
        for x in self.b.sent_async[n0:]:
            if x[0] == 'status' and x[1] in self.before:
                self.before[x[1]].add(x[2])     # what it was at some moment of this operation
        if not s.after(what, st, val, client_err):
            return 'err', val
        return st, val

    def run(self, ops):
        for op in ops:
            self.env.sim.mark('<' + op['op'] + op.get('how', '') + '>')
            getattr(self, 'op_' + op['op'])(op)

    # -------------------------------------------------------- operations
    def op_set(self, op):
        k, v = op['k'], op['v']
        what = 'settings[%r] = %r' % (k, v)
        old = self.b.guc(k)
        n0 = len(self.b.sent_async)
        st, val = self.call(what, lambda: self.st.__setitem__(k, v))
        if self.env.cfg.get('server') and any(x[0] == 'status' and x[1] == k for x in self.b.sent_async[n0:]):
            self.unsure.add(k)
            if st == 'ok':
                self.track([k])
            return
        if st == 'ok':
            self.inforce(what, k, v)
            self.track([k])
        else:
            self.refused(what, {k: v}, {k: old})
            self.track()

    def inforce(self, what, k, v):
        self.env.probe('assigned')
        self.env.nontrivial = True
        self.unsure.discard(k)
        if k in INVALID and v == INVALID[k]:
            raise Violation('invalid-accepted', what)
        want = self.b.canon(k, v)
        if self.b.guc(k) != want:
            raise Violation('not-in-force', '%s returned and the server has %r' % (what, self.b.guc(k)))

    def refused(self, what, d, old):
        """after a failed assignment the server has what it had"""
        bad = [k for k, v in d.items() if k in INVALID and v == INVALID[k]]
        if bad:
            self.env.probe('invalid')
        for k in d:
            if self.b.guc(k) != old[k] and not self.b.failed and k not in self.servers:
                raise Violation('refused-but-set', '%s raised and %s is %r' % (what, k, self.b.guc(k)))

    def op_again(self, op):
        """the same value again, changed behind the interface in between"""
        k = 'work_mem'
        for v in ('8MB', None, '8MB'):
            if v is None:
                self.op_behind({'how': 'SET', 'k': k, 'v': '1MB'})
            else:
                self.op_set({'k': k, 'v': v})

    def op_update(self, op):
        d = op['d']
        what = 'settings.update(%r)' % (d,)
        old = {k: self.b.guc(k) for k in d}
        n0 = len(self.b.sent_async)
        st, val = self.call(what, lambda: self.st.update(list(d.items()) if op.get('seq') else d))
        if self.env.cfg.get('server'):
            mine = [k for k in d if any(x[0] == 'status' and x[1] == k for x in self.b.sent_async[n0:])]
            self.unsure.update(mine)
        else:
            mine = []
        if st == 'ok':
            for k, v in d.items():
                if k not in mine:
                    self.inforce(what, k, v)
            self.track(list(d))
        else:
            if not mine:
                self.refused(what, d, old)
            self.track()

    def op_read(self, op):
        k = op['k']; how = op['how']
        what = '%s of %s' % (how, k)
        f = {'item': lambda: self.st[k], 'get': lambda: self.st.get(k), 'in': lambda: k in self.st}[how]
        st, val = self.call(what, f)
        if st == 'ok':
            if how == 'in':
                if val is not True:
                    raise Violation('setting-disagrees', '%r in settings is %r' % (k, val))
            else:
                self.agree(what, k, val)
        self.track()

    def op_mread(self, op):
        how = op['how']; st_ = self.st
        what = 'settings.' + how
        names = sorted(self.b.db.defaults)
        n0 = len(self.b.sent_async)
        f = {'getset': lambda: st_.getset(list(op['ks'])), 'items': lambda: list(st_.items()), 'keys': lambda: list(st_.keys()), 'iter': lambda: list(st_),
             'values': lambda: list(st_.values()), 'len': lambda: len(st_)}[how]
        st, val = self.call(what, f)
        if st != 'ok':
            self.track()
            return
        if how == 'getset':
            if set(val) != set(op['ks']):
                raise Violation('setting-disagrees', 'getset(%r) gives %r' % (op['ks'], dict(val)))
            for k in sorted(val):
                self.agree(what, k, val[k])
        elif any(x[0] == 'status' for x in self.b.sent_async[n0:]):
            pass                # changed by the server meanwhile
        elif how == 'items':
            if sorted(tuple(x) for x in val) != [(n, self.b.setting(n)) for n in names]:
                raise Violation('setting-disagrees', 'items() gives %r' % (val,))
        elif how in ('keys', 'iter'):
            if sorted(val) != names:
                raise Violation('setting-disagrees', 'keys() gives %r' % (val,))
        elif how == 'values':
            if sorted(val) != sorted(self.b.setting(n) for n in names):
                raise Violation('setting-disagrees', 'values() gives %r' % (val,))
        elif val != len(names):
            raise Violation('setting-disagrees', 'len() gives %r' % (val,))
        self.track()

    def op_del(self, op):
        k = op['k']
        what = 'del settings[%r]' % k
        st, val = self.call(what, lambda: self.st.__delitem__(k))
        if st == 'ok':
            self.env.probe('deleted')
            want = self.b.session_defaults.get(k, self.b.db.defaults[k])
            if self.b.guc(k) != want and not self.env.cfg.get('server'):
                raise Violation('not-in-force', '%s returned and the server has %r instead of %r' % (what, self.b.guc(k), want))
            self.track([k])
        else:
            self.track()

    def op_behind(self, op):
        how = op['how']; k = op['k']; v = op['v']; db = self.db
        if how == 'SET':
            f = lambda: db.execute("SET %s = '%s'" % (k, v))
        elif how == 'RESET':
            f = lambda: db.execute('RESET ' + k)
        elif how == 'RESET ALL':
            f = lambda: db.execute('RESET ALL')
        elif how == 'reset()':
            f = db.reset
            self.s.xacts[:] = []
        else:
            f = lambda: db.query.first('SELECT pg_catalog.set_config($1, $2, false)', k, v)
        st, val = self.call('%s %s' % (how, k), f)
        if how == 'reset()' and st == 'ok' and not self.env.cfg.get('server'):
            for k in self.hist:
                want = self.b.session_defaults.get(k, self.b.db.defaults[k])
                if self.b.guc(k) != want:
                    raise Violation('not-in-force', 'reset() returned and %s is %r instead of %r' % (k, self.b.guc(k), want))
            if self.b.tx is not None:
                raise Violation('transaction-left-open', 'after reset()')
        self.track()

    def op_text(self, op):
        """text arrives as it is, in whatever encoding is in force"""
        how = op['how']; db = self.db; b = self.b
        t = SAMPLE[b.guc('client_encoding')]
        what = 'text %r by %s in %s' % (t, how, b.guc('client_encoding'))
        n0 = len(client.MESSAGES); h0 = len(b.db.history)
        if how == 'kept':
            if self.kept is None:
                st, val = self.call('prepare', lambda: db.prepare('SELECT $1'))
                self.kept = val if st == 'ok' else None
            if self.kept is None:
                return
        if how == 'notify':
            self.call('listen', lambda: db.listen('ch'))
            self.sent_in.add(b.guc('client_encoding'))
        f = {'param': lambda: db.query.first('SELECT $1', t), 'kept': lambda: self.kept.first(t), 'rows': lambda: [tuple(r) for r in db.prepare('SELECT $1').rows(t)],
             'say': lambda: db.query.first("SELECT say('01000', '%s', 'WARNING')" % t), 'execute': lambda: db.execute("SELECT raise('P0002', '%s')" % t),
             'raise': lambda: db.query("SELECT raise('P0001', '%s')" % t), 'notify': lambda: db.notify(ch=t)}[how]
        st, val = self.call(what, f)
        self.track()
        if how == 'notify':
            self.sent_in.add(b.guc('client_encoding'))
        self.env.probe('text')
        if b.guc('client_encoding') != 'UTF8':
            self.env.probe('text_encoding')
        if st == 'err':
            return
        if how in ('param', 'kept', 'rows'):
            if val != (t if how != 'rows' else [(t,)]):
                raise Violation('wrong-text', '%s: %r' % (what, val))
        elif how == 'say':
            got = [m.message for m in client.MESSAGES[n0:]]
            if t not in got and b.guc('client_min_messages') != 'error':
                raise Violation('wrong-text', '%s: %r' % (what, got))
        elif how == 'notify' and b.tx is None and b in b.db.listeners.get('ch', ()):
            if len(self.sent_in) > 1:
                def pull():
                    try:
                        return list(db.iternotifies(0))
                    except UnicodeDecodeError as e:
                        return [('undecodable', str(e), 0)]
                st, val = client.call(pull)
                if st == 'ok' and ('ch', t, db.backend_id) not in [tuple(x) for x in val]:
                    return self.env.known('K08', 'wrong-text', 'notifications received in %s: %r' % (sorted(self.sent_in), val))
            else:
                st, val = self.call('iternotifies', lambda: list(db.iternotifies(0)))
            if st == 'ok':
                self.sent_in = set()
                if ('ch', t, db.backend_id) not in [tuple(x) for x in val]:
                    raise Violation('wrong-text', '%s: %r' % (what, val))

    def op_sub(self, op):
        st = self.db.settings
        if not self.env.cfg.get('subs'):
            return
        self.calls()
        k, w = op['k'], op['w']
        f = self.fns[w]
        if op['off']:
            st.unsubscribe(k, f)
            if (k, w) in self.subs:
                self.subs.remove((k, w))
            self.env.probe('unsub')
        else:
            st.subscribe(k, f)
            if (k, w) not in self.subs:
                self.subs.append((k, w))
            else:
                self.env.probe('sub_twice')

    def calls(self):
        """every report calls its subscribers once each: those of the setting, then those of all"""
        sent = [x for x in self.b.sent_async[self.nsent:] if x[0] == 'status']
        self.nsent = len(self.b.sent_async)
        boom = self.env.cfg.get('boom')
        want = []
        for x in sent:
            for w in [w for k, w in self.subs if k == x[1]] + [w for k, w in self.subs if k is None]:
                if w == 'boom':
                    if x[1] == boom:
                        self.env.probe('sub_raised')
                        break
                    continue
                want.append((w, x[1], x[2]))
        got = [(w, k, v) for w, conn, k, v in self.log]
        if got != want:
            raise Violation('wrong-subscriber-calls', 'the subscribers %r were called with %r instead of %r' % (self.subs, got, want))
        if [1 for x in self.log if x[1] is not self.db]:
            raise Violation('wrong-subscriber-calls', 'called for another connection')
        del self.log[:]

    def op_tx(self, op):
        sql = {'begin': 'BEGIN', 'commit': 'COMMIT', 'rollback': 'ROLLBACK', 'save': 'SAVEPOINT s1', 'back': 'ROLLBACK TO SAVEPOINT s1'}[op['how']]
        if getattr(self, 'inblock', 0):
            return
        if op['how'] == 'begin' and self.b.xtx is not None or op['how'] != 'begin' and self.b.xtx is None:
            return
        h = {k: self.forms(k) for k in self.hist}
        self.call(sql, lambda: self.db.execute(sql))
        if any(self.forms(k) != h[k] for k in h):
            self.env.probe('rolled_back')
        self.track()

    def op_block(self, op):
        boom = AppError('block')
        self.inblock = getattr(self, 'inblock', 0) + 1

        def go():
            try:
                with self.db.xact():
                    self.run(op['ops'])
                    if op['end'] == 'raise':
                        raise boom
                    if op['end'] == 'error':
                        self.db.execute('SELECT 1/0 AS x FROM nothing_there')
            except AppError as e:
                if e is not boom:
                    raise
        try:
            st, val = client.call(go)
            self.absorb('block', st, val, ('25P02', '--OPE'))
        finally:
            self.inblock -= 1
        self.track()

    def absorb(self, what, st, val, own=()):
        """the end of a block: its exception may hide those that came before (C06 judges which)"""
        left = [self.b.errors_sent[i][0] for i in range(len(self.b.errors_sent)) if i not in self.s.claimed_set]
        if st == 'err' and val.code not in left and val.code not in own:
            raise Violation('unexplained-error', '%s raised %s %s' % (what, val.code, val.message))
        self.s.claimed_set.update(range(len(self.b.errors_sent)))
        self.s.sync_check(what)

    def op_cm(self, op):
        d = op['d']; s = self.s; b = self.b
        what = 'with settings(%r)' % (d,)
        boom = AppError('cm') if op['end'] == 'raise' else Base('cm')
        old = {k: b.guc(k) for k in d}
        st = {}
        self.env.probe('cm')
        self.depth = getattr(self, 'depth', 0) + 1
        if self.depth > 1:
            self.env.probe('cm_nested')
        server = bool(self.env.cfg.get('server'))

        def go():
            try:
                with self.st(**d):
                    st['in'] = True
                    if not server:
                        for k, v in d.items():
                            self.inforce(what, k, v)
                    else:
                        self.unsure.update(d)
                    self.track(list(d))
                    self.run(op['ops'])
                    st['failed'] = b.failed
                    st['dead'] = self.s.dead
                    st['n'] = len(b.errors_sent)
                    if op['end'] in ('raise', 'base'):
                        raise boom
                    if op['end'] == 'error':
                        st['n'] += 1
                        self.db.execute('SELECT nothing_there')
            except (AppError, Base) as e:
                if e is not boom:
                    raise
                self.env.probe('cm_raised')
                return boom
        n0 = len(b.errors_sent)
        try:
            r, val = client.call(go)
        finally:
            self.depth -= 1
        self.absorb(what, r, val)
        if server:
            self.unsure.update(k for k in d if k in REPORTED)
        if not st.get('in'):
            if r != 'err':
                raise Violation('cm-not-entered', what)
            self.env.probe('cm_enter_failed')
            self.refused(what, d, old)
            self.track()
            return
        if r == 'ok' and val is not boom and op['end'] in ('raise', 'base'):
            raise Violation('exception-swallowed', what)
        exit_err = b.errors_sent[st.get('n', 0):]
        if not b.failed and not exit_err and not st.get('failed') and 'n' in st:
            for k in d:
                if b.guc(k) != old[k] and not (server and k in REPORTED):
                    raise Violation('not-restored', '%s has ended (%s) and %s is %r instead of %r' % (what, op['end'], k, b.guc(k), old[k]))
            self.track(list(d))
        else:
            self.track()

    def op_path(self, op):
        how = op['how']; st_ = self.st
        self.env.probe('path')
        k = 'search_path'
        if how == 'get':
            st, val = self.call('settings.path', lambda: st_.path)
            if st == 'ok':
                from postgresql.string import split_ident
                want = [split_ident(f) for f in dict.fromkeys(x[0] for x in self.hist[k])]
                if val != split_ident(self.b.guc(k)):
                    if val in want:
                        self.env.known('K01', 'setting-disagrees', 'settings.path is %r, the server has %r' % (val, self.b.guc(k)))
                    else:
                        raise Violation('setting-disagrees', 'settings.path is %r, the server has %r' % (val, self.b.guc(k)))
            self.track()
        elif how == 'set':
            def f():
                st_.path = op['v']
            st, val = self.call('settings.path = %r' % (op['v'],), f)
            if st == 'ok':
                want = ','.join('"%s"' % x.replace('"', '""') for x in op['v'])
                have = self.b.guc(k)
                if have.replace('", "', '","') != want:
                    raise Violation('not-in-force', 'settings.path = %r returned and the server has %r' % (op['v'], have))
                self.track([k])
            else:
                self.track()
        else:
            def f():
                del st_.path
            st, val = self.call('del settings.path', f)
            if st == 'ok':
                want = self.b.session_defaults.get(k, self.b.db.defaults[k])
                if self.b.guc(k) != want:
                    raise Violation('not-in-force', 'del settings.path returned and the server has %r' % (self.b.guc(k),))
                self.track([k])
            else:
                self.track()

    def op_unknown(self, op):
        how = op['how']; st_ = self.st
        k = 'no_such_setting'
        exp = KeyError

        def cm():
            with st_(no_such_setting='1', work_mem='7MB'):
                return 'entered'
        f = {'item': lambda: st_[k], 'get': lambda: st_.get(k, 'alt'), 'set': lambda: st_.__setitem__(k, 'x'), 'getset': lambda: st_.getset(['work_mem', k]),
             'update': lambda: st_.update({k: 'x', 'work_mem': '9MB'}), 'cm': cm, 'del': lambda: st_.__delitem__(k)}[how]
        old = self.b.guc('work_mem')
        try:
            st, val = self.call('unknown ' + how, f)
        except KeyError as e:
            e.__traceback__ = None
            st, val = 'key', None
            self.s.sync_check('unknown ' + how)
        if st == 'ok' and not (how == 'get' and val == 'alt'):
            raise Violation('unknown-setting', '%s of an unknown setting gives %r' % (how, val))
        if st == 'key' and how not in ('item', 'getset', 'cm'):
            raise Violation('raw-exception', 'KeyError from %s' % how)
        if self.b.guc('work_mem') != old and not self.b.failed:
            raise Violation('refused-but-set', 'unknown %s changed work_mem' % how)
        self.track()


def run(env):
    cfg = env.cfg
    o = {'late_report': bool(cfg.get('late'))}
    if cfg.get('scs'):
        o['defaults'] = {'standard_conforming_strings': cfg['scs']}
    kw = {}
    if cfg.get('conn'):
        env.probe('connected_with')
        kw['settings'] = dict(cfg['conn'])
    s = wl.session(env, o, **kw)
    b = s.b
    for k, v in cfg.get('conn', {}).items():
        if v is None:
            v = b.db.defaults[k]
        elif k == 'search_path' and not isinstance(v, str):
            v = ','.join('"%s"' % x.replace('"', '""') for x in v)
        elif k == 'standard_conforming_strings':
            continue
        if b.guc(k) != b.canon(k, v):
            raise Violation('not-in-force', 'connected with %s = %r and the server has %r' % (k, v, b.guc(k)))
    if b.guc('standard_conforming_strings') != 'on':
        raise Violation('not-in-force', 'connected, and standard_conforming_strings is off')
    if b.params.get('user') != 'sim' or b.params.get('database') != 'simdb':
        raise Violation('not-in-force', 'connected as %r' % (b.params,))
    env.nontrivial = False
    if cfg.get('late'):
        env.probe('late_report')
    c = Check(env, s)
    c.nsent = len(b.sent_async)
    if cfg.get('subs'):
        env.probe('subscriber')
        s.db.settings.subscribe('TimeZone', c.fns[0])
        s.db.settings.subscribe(None, c.fns[1])
        c.subs = [('TimeZone', 0), (None, 1)]
        if cfg.get('boom'):
            def boom(conn, k, v):
                if k == cfg['boom']:
                    raise AppError('subscriber')
            s.db.settings.subscribe(None, boom)
            c.subs.append((None, 'boom'))
    for at, k, v in cfg.get('server', ()):
        env.probe('server_change')
        wl.inject(b, [[at, ['status', k, v]]])
    for at, code in cfg.get('errs', ()):
        b.err_at[b.nin + at] = (code, 'injected')
        env.probe('server_error')
    c.run(env.ops)
    # everything sent has been read when an operation has ended
    st, val = c.call('final', lambda: s.db.query.first('SELECT 1'))
    if cfg.get('subs'):
        c.calls()
    for k in REPORTED:
        st, val = c.call('final read', lambda: s.db.settings[k])
        if st == 'ok':
            c.agree('final read', k, val)
    s.db.close()
