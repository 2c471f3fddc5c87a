"""C15: connecting honours sslmode, fails over and leaks nothing."""
import gc
from sim.core import *
from sim import client, wl, pgserver

PROP = 'C15'
RULE = ('one evaluation = one seeded connect() (then a second one) against 1-4 candidate addresses whose servers refuse, hang, reset, reject, answer the '
        'SSL request in any way, fail the TLS handshake, ask for any kind of authentication or break at a byte offset, for one sslmode; distinct '
        'non-trivial = distinct sequences of attempts, messages and reads among runs with more than one attempt or a failed one')
RUNS = {'quick': 70000, 'thorough': 400000}
REAL = ['postgresql.driver.pq3 (connectors, Connection._establish)', 'postgresql.protocol.client3/xact3 Negotiation', 'postgresql.python.socket']
STUB = ['servers (simulated backends)', 'socket, getaddrinfo, clock (simulated)', 'TLS (a stand-in that only tracks what is encrypted)']
ASSUMPTIONS = ['after an attempt that could not even reach the address, the other attempt on that address may be skipped',
               'once a server has accepted the session there is no failover: an error while the driver initialises the connection is raised as it is',
               'connect_timeout covers reaching the address; a server that accepts the connection and never answers is not bounded by it']
PROBES = ['connected', 'failed', 'failover', 'second_attempt', 'tls', 'clear_after_N', 'timeout', 'init_failed', 'no_address', 'again', 'emfile', 'left_ok', 'left_app', 'left_query', 'left_stream', 'left_tx', 'left_slow', 'left_prepare']

MODES = ['disable', 'allow', 'prefer', 'require']
VERSIONS = {'16.3': (16, 3), '9.4.1': (9, 4), '17beta1': (17, 0), '18devel': (18, 0), '10.23': (10, 23), '16.15 (Ubuntu 16.15-0ubuntu0.24.04.1)': (16, 15),
            '14.2 (Debian 14.2-1.pgdg110+1)': (14, 2), '13rc1': (13, 0)}
OUT = ['refused', 'hang', 'slow', 'unreach', 'etimedout']


def server(rng):
    o = {}
    o['ssl'] = rng.choices(['N', 'S', 'E', 'junk', 'eof', 'reset'], [4, 7, 1, 1, 1, 1])[0]
    if o['ssl'] == 'S' and rng.random() < 0.3:
        o['tls_outcome'] = rng.choice(['fail', 'eof', 'reset'])
    x = rng.random()
    if x < 0.15:
        o['reject_tls'] = rng.choice(['28000', 'eof', '53300'])
    elif x < 0.3:
        o['reject_clear'] = rng.choice(['28000', 'eof', '53300'])
    elif x < 0.45:
        o['reject'] = rng.choice(['28000', 'eof', '53300', '57P03', '3D000'])
    elif x < 0.5:
        o['post_auth_error'] = '53300'
    o['auth'] = rng.choices(['trust', 'clear', 'md5', 'unsupported'], [5, 3, 3, 1])[0]
    if o['auth'] == 'unsupported':
        o['authcode'] = rng.choice([2, 6, 7, 9, 10, 99])
    if rng.random() < 0.15:
        o['password'] = 'another'
    if rng.random() < 0.2:
        o['neg_notice'] = True
    return o


def gen(rng, tier):
    n = rng.choices([1, 2, 3, 4], [4, 4, 2, 1])[0]
    kind = rng.choices(['host', 'ip4', 'ip6', 'unix'], [8, 2, 1, 1])[0]
    if kind != 'host':
        n = 1
    cfg = {'mode': rng.choice(MODES), 'kind': kind, 'timeout': rng.choice([None, 1, 5]), 'servers': [server(rng) for _ in range(n)], 'plan': [], 'cuts': []}
    if rng.random() < 0.5:
        cfg['servers'][rng.randrange(n)] = {'ssl': rng.choice('SN'), 'auth': rng.choice(['trust', 'clear', 'md5'])}
    for k in range(n):
        cfg['plan'].append([rng.choice(OUT) if rng.random() < 0.25 else 'ok' for _ in range(2)])
    if rng.random() < 0.35:
        for _ in range(rng.randrange(1, 3)):
            d = rng.choice(['s2c', 'c2s'])
            cfg['cuts'].append({'conn': rng.randrange(0, 4), 'dir': d, 'at': rng.choice([0, 1, 2, 8, 9, rng.randrange(0, 70), rng.randrange(0, 700)]),
                                'how': rng.choice(['eof', 'reset', 'reset_drop', 'epipe'] if d == 's2c' else ['reset', 'epipe'])})
    if rng.random() < 0.1:
        cfg['init_err'] = rng.randrange(0, 4)
    if kind == 'host':
        x = rng.random()
        if x < 0.04:
            cfg['noname'] = 1
        elif x < 0.2:
            cfg['ipv'] = rng.choice([4, 6])
        cfg['v6'] = rng.randrange(0, 1 << n)
    if rng.random() < 0.06:
        cfg['emfile'] = rng.randrange(0, 4)
    cfg['settings'] = {k: v for k, v in [('application_name', 'b\u00e4r'), ('search_path', 'public'), ('DateStyle', 'ISO')] if rng.random() < 0.3}
    cfg['database'] = rng.choice([None, 'simdb', 'd\u00e9pot'])
    cfg['user'] = rng.choice(['sim', 'sim', 'j\u00fcrgen'])
    cfg['version'] = rng.choice(list(VERSIONS))
    cfg['report_from'] = rng.choice([0, 0, rng.randrange(11)])
    if rng.random() < 0.3:
        cfg['leave'] = rng.choice(['ok', 'app', 'query', 'stream', 'tx', 'prepare', 'slow'])
    return {'ops': [], 'policy': wl.policy(rng), 'faults': [dict(f) for f in cfg['cuts']], 'cfg': cfg}


def simplify(plan):
    import copy
    c = plan['cfg']
    for k in ('settings',):
        if c.get(k):
            p = copy.deepcopy(plan); p['cfg'][k] = {}
            yield p
    for k in ('init_err', 'emfile', 'ipv', 'leave'):
        if k in c:
            p = copy.deepcopy(plan); del p['cfg'][k]
            yield p
    if plan['faults']:
        for j in range(len(plan['faults'])):
            p = copy.deepcopy(plan); del p['faults'][j]
            yield p
    for i in range(len(c['servers'])):
        if c['plan'][i] != ['ok', 'ok']:
            p = copy.deepcopy(plan); p['cfg']['plan'][i] = ['ok', 'ok']
            yield p
        for k in list(c['servers'][i]):
            if k not in ('ssl', 'auth'):
                p = copy.deepcopy(plan); del p['cfg']['servers'][i][k]
                yield p
        if len(c['servers']) > 1:
            p = copy.deepcopy(plan); del p['cfg']['servers'][i]; del p['cfg']['plan'][i]
            yield p


def fail(kind, *d):
    raise Violation(kind, ' '.join(str(x) for x in d))


class Attempt:
    def __init__(self, addr, sock, out):
        self.addr = addr; self.sock = sock; self.out = out


def run(env):
    cfg, sim, net = env.cfg, env.sim, env.net
    client.reset(env)
    wl.set_chunksize(256)
    mode = cfg['mode']
    n = len(cfg['servers'])
    if cfg['kind'] == 'host':
        ips = ['fd00::%d' % (k + 1) if cfg.get('v6', 0) >> k & 1 else '10.0.1.%d' % (k + 1) for k in range(n)]
        if not cfg.get('noname'):
            net.names['db.example'] = ips
        conf = {k: v for k, v in zip(ips, range(n))}
        used = [ip for ip in ips if not cfg.get('ipv') or (':' in ip) == (cfg['ipv'] == 6)]
        if cfg.get('noname'):
            used = []
        addrs = [(ip, 5432) for ip in ips]
        kw = {'host': 'db.example', 'port': 5432}
        if cfg.get('ipv'):
            kw['ipv'] = cfg['ipv']
        order = [(ip, 5432) for ip in used]
    elif cfg['kind'] == 'unix':
        addrs = order = ['/run/x/.s.PGSQL.5432']
        kw = {'unix': addrs[0]}
    else:
        ip = '10.0.0.1' if cfg['kind'] == 'ip4' else 'fd00::1'
        addrs = order = [(ip, 5432)]
        kw = {'host': ip, 'port': 5432}
    attempts = []

    def on_connect(addr, sock):
        attempts.append(Attempt(addr, sock, None))
    real_plan = {}
    for k, a in enumerate(addrs):
        opts = dict(cfg['servers'][k])
        opts['on_ready'] = on_ready
        opts['report_from'] = cfg['report_from']
        opts['version'] = cfg['version']
        wl.serve(env, opts, a)
        net.connect_plan[a] = list(cfg['plan'][k])
        real_plan[a] = list(cfg['plan'][k])
    net.on_connect = on_connect
    net.on_emfile = lambda sock: attempts.append(Attempt(None, sock, None))
    # a tuple of 2 is what the driver passes for IPv6 too
    params = dict(user=cfg['user'], password='secret', database=cfg['database'], sslmode=mode, connect_timeout=cfg['timeout'], settings=dict(cfg['settings']))
    ctor = client.DRIVER.fit(**dict(params, **kw))
    db = client.connection(env, ctor)
    if cfg.get('emfile') is not None:
        net.emfile = {cfg['emfile']}
    if cfg.get('init_err') is not None:
        env.init_err = cfg['init_err']
    ok = attempt(env, db, attempts, order, real_plan, mode)
    if not ok:
        # the attributes of a connection that was not made
        if not db.closed:
            fail('not-closed', 'closed is %r after a failed connect' % (db.closed,))
        # and again on the same object: an error of the package, or a working connection
        env.probe('again')
        n0 = len(attempts)
        st, val = client.call(db.connect)
        if st == 'ok':
            st, val = client.call(db.query.first, 'SELECT 1')
            if (st != 'ok' or val != 1) and not net.conns[-1].lost:
                fail('not-usable', 'after the second connect()')
        elif net.open_sockets():
            fail('socket-leak', 'after the second failed connect()')
        if mode in ('require', 'disable'):
            judge_clear(env, mode)
    if ok and cfg.get('leave'):
        leave(env, db, cfg['leave'])
    st, val = client.call(db.close)
    if st != 'ok':
        fail('close-raised', val)
    if net.open_sockets():
        fail('socket-leak', 'after close()')
    env.nontrivial = len(attempts) > 1 or not ok


class AppError(Exception):
    pass


def leave(env, db, how):
    """a block of the connection is left, in whatever way: the connection is closed"""
    b = env.backends[-1]
    err = AppError('leaving')
    keep = []
    entered = []

    def block():
        with db:
            entered.append(1)
            if how == 'query':
                db.execute('SELECT syntax error')
            elif how == 'stream':
                r = db.prepare('SELECT * FROM gen(700, 1, 1, -1, 0, -1)').rows()
                keep.append(r)
                for _ in range(300):
                    next(r)
            elif how == 'slow':
                # connect_timeout is for connecting
                t0 = env.sim.now
                db.execute('SELECT pg_sleep(%d)' % (1000 * (env.cfg['timeout'] or 0) + 2500))
                if env.sim.now - t0 < 1000000 * (env.cfg['timeout'] or 0):
                    raise HarnessError('pg_sleep')
            elif how == 'tx':
                db.xact().start()
                db.query.first('SELECT 1')
            elif how == 'prepare':
                keep.append(db.prepare('SELECT 1'))
            if how != 'ok':
                raise err
    try:
        st, val = client.call(block)
    except AppError as e:
        if e is not err:
            raise
        st, val = 'app', e
    want = {'ok': 'ok', 'query': 'err'}.get(how, 'app')
    lost = b.conn.lost
    if st != want and not lost:
        fail('wrong-outcome', 'a block left by %s ended with %s %s' % (how, st, val))
    if not entered:
        return      # the connection had been lost before
    if not db.closed:
        fail('not-closed', 'closed is %r after the block was left by %s' % (db.closed, how))
    if env.net.open_sockets():
        fail('socket-leak', 'after the block was left by %s' % how)
    if not lost and not b.terminated:
        env.sim.block(lambda: b.terminated or b.conn.lost, 1000000)
        if not b.terminated and not b.conn.lost:
            fail('not-closed', 'the server was not told of the end of the session after the block was left by %s' % how)
    env.probe('left_' + how)


def on_ready(b):
    b.ready_out = b.bytes_out
    b.ready_in = b.bytes_in


def judge_clear(env, mode):
    for e in env.backends:
        for s in e.db.startups:
            if mode == 'require' and s[0] in ('startup', 'password') and not s[3]:
                fail('clear-text', '%s was sent unencrypted with sslmode=require' % s[0])
            if mode == 'disable' and s[0] == 'sslrequest':
                fail('ssl-requested', 'with sslmode=disable')
    for c in env.net.conns:
        # what went over the wire in clear: with require only the 8 bytes of the request
        clear = c.wire if not c.tls else c.wire[:8]
        if mode == 'require' and bytes(clear[:8]) != b'\x00\x00\x00\x08\x04\xd2\x16\x2f'[:len(clear)]:
            fail('clear-text', 'sslmode=require sent %r in clear' % bytes(clear[:40]))
        if mode == 'require' and len(clear) > 8:
            fail('clear-text', 'sslmode=require sent %r in clear' % bytes(clear[8:60]))


def attempt(env, db, attempts, order, real_plan, mode):
    cfg, sim, net = env.cfg, env.sim, env.net
    t0 = sim.now
    orig = net.listeners
    if getattr(env, 'init_err', None) is not None:
        def hook(b):
            on_ready(b)
            b.err_at[b.nin + env.init_err] = ('57014', 'initialisation fails')
        for l in net.listeners:
            pass
        for k, a in enumerate(list(net.listeners)):
            opts = dict(cfg['servers'][k]); opts['on_ready'] = hook; opts['report_from'] = cfg['report_from']; opts['version'] = cfg['version']
            dbx = pgserver.Database(sim, opts)

            def accept(conn, dbx=dbx):
                b = pgserver.Backend(conn, dbx, None)
                env.backends.append(b)
                return b
            net.listeners[a] = accept
    st, val = client.call(db.connect)
    took = sim.now - t0
    by = {}
    for b in env.backends:
        by[b.conn.cid] = b
    # ---- which attempts were made
    seq = [(a.addr, a.sock) for a in attempts]
    limit = cfg['timeout']
    pos = 0
    connected = None
    initfail = False
    maybe_more = False
    group_desc = []
    skip_next = False
    slow_us = 0
    for addr in order:
        kinds = {'disable': [None], 'require': [True], 'prefer': [False, None], 'allow': [None, True]}[mode]
        first_reached = None
        first_n = False
        done = False
        for ki, kind in enumerate(kinds):
            if connected is not None or initfail:
                break
            if pos < len(seq) and seq[pos][0] is None and not (ki == 1 and (first_reached is False or first_n)):
                # no socket could be had for this attempt
                env.probe('emfile')
                pos += 1
                first_reached = False
                continue
            have = pos < len(seq) and seq[pos][0] == addr
            if not have:
                if ki == 1 and (first_reached is False or first_n):
                    continue
                fail('attempt-missing', 'sslmode %s: address %s was not tried %s; attempts %s, result %s' % (
                    mode, addr, {None: 'without encryption', True: 'with encryption', False: 'with encryption'}[kind], [x[0] for x in seq], st))
            sock = seq[pos][1]
            pos += 1
            if ki == 1:
                env.probe('second_attempt')
            out = real_plan[addr].pop(0) if real_plan[addr] else 'ok'
            if out in ('refused', 'unreach', 'etimedout', 'hang'):
                if out == 'hang':
                    env.probe('timeout')
                first_reached = False
                group_desc.append((addr, 'x', None))
                continue
            if out == 'slow':
                pass
            first_reached = True
            c = sock.conn
            b = by[c.cid]
            w = bytes(c.wire)
            asked = w[:8] == b'\x00\x00\x00\x08\x04\xd2\x16\x2f'
            broken = c.lost
            if len(w) >= 8 and asked != (kind is not None):
                fail('wrong-attempt', 'sslmode %s, attempt %d on %s %s' % (mode, ki, addr, 'requested encryption' if asked else 'did not request encryption'))
            if kind is not None and not c.tls and len(w) > 8:
                # went on in clear after the answer
                if kind is True:
                    fail('clear-text', 'an attempt that must be encrypted sent %r in clear' % w[8:50])
                if b.opts.get('ssl') != 'N':
                    fail('clear-text', 'went on in clear although the server answered %r' % b.opts.get('ssl'))
                env.probe('clear_after_N')
            if kind is None and c.tls:
                fail('wrong-attempt', 'encrypted although not requested')
            good = expect(b.opts, kind)
            if kind is False and b.opts.get('ssl') == 'N' and (not broken):
                first_n = True
            if kind is False and b.opts.get('ssl') == 'N' and broken and c.s2c_delivered >= 1:
                first_n = True       # may have seen it
            ready = getattr(b, 'ready_out', None)
            if broken:
                f = c.cut_s2c if c.cut_s2c is not None and c.s2c_sent >= c.cut_s2c['at'] else c.cut_c2s
                if ready is None:
                    good = False
                elif f is c.cut_s2c:
                    if c.s2c_sent < ready:
                        good = False
                    elif f['how'] == 'reset_drop':
                        good = 'maybe'
                    else:
                        good = 'init' if good else False
                else:
                    good = 'init' if good else False
            elif ready is not None and getattr(env, 'init_err', None) is not None and good:
                good = 'init'
            if good == 'maybe':
                # the driver may or may not have seen the end of the negotiation
                if pos < len(seq) or (st == 'err' and val.code == '08001'):
                    good = False
                else:
                    good = 'init'
            group_desc.append((addr, good, b))
            if good == 'init':
                initfail = True
            elif good:
                connected = (c, b)
    if pos != len(seq):
        fail('attempt-not-permitted', 'sslmode %s: %d attempts more than permitted: %s' % (mode, len(seq) - pos, [x[0] for x in seq[pos:]]))
    judge_clear(env, mode)
    # ---- the result
    if initfail:
        env.probe('init_failed')
        # the initialisation may have got through before the break
        if st == 'ok':
            if net.open_sockets() and len(net.open_sockets()) != 1:
                fail('socket-leak', '%d sockets open' % len(net.open_sockets()))
            return True
        if net.open_sockets():
            fail('socket-leak', 'the connection could not be initialised and %d sockets are open' % len(net.open_sockets()))
        return False
    if connected is not None:
        if st == 'err':
            fail('connect-failed', 'sslmode %s: attempt on %s could succeed, but connect() raised %s %s' % (mode, connected[0].addr, val.code, val.message))
        c, b = connected
        env.probe('connected')
        if len(seq) > 1:
            env.probe('failover')
        if c.tls:
            env.probe('tls')
        if db.security != ('ssl' if c.tls else None):
            fail('wrong-security', 'security is %r, the session is %s' % (db.security, 'encrypted' if c.tls else 'in clear'))
        if [s for s in net.open_sockets() if s is not c.sock]:
            fail('socket-leak', 'sockets of failed attempts are still open')
        if db.version_info[:2] != VERSIONS[cfg['version']]:
            fail('wrong-version', '%r of %r' % (db.version_info, cfg['version']))
        if db.closed or db.state != 'idle':
            fail('not-open', 'closed=%r state=%r' % (db.closed, db.state))
        want = {'user': cfg['user'], 'client_min_messages': 'WARNING'}
        if cfg['database'] is not None:
            want['database'] = cfg['database']
        want.update(cfg['settings'])
        if b.params != want:
            fail('wrong-startup', '%r instead of %r' % (b.params, want))
        st, val = client.call(lambda: db.query.first('SELECT 1'))
        if (st != 'ok' or val != 1) and not c.lost:
            fail('not-usable', val)
        if db.backend_id != b.pid:
            fail('wrong-backend', db.backend_id)
        return True
    env.probe('failed' if order else 'no_address')
    if st == 'ok':
        fail('connected', 'no attempt could succeed, but connect() returned; attempts %s' % [x[:2] for x in group_desc])
    if not isinstance(val, client.pgexc.ClientCannotConnectError):
        fail('wrong-error', '%s %s %s' % (type(val).__name__, val.code, val.message))
    if net.open_sockets():
        fail('socket-leak', '%d sockets open after connect() failed' % len(net.open_sockets()))
    text = str(val)
    last = 0
    for addr, good, b in group_desc:
        a = addr if isinstance(addr, str) else addr[0]
        k = text.find(a, last)
        if k < 0:
            fail('attempt-not-listed', 'the failed attempt on %s is not listed in\n%s' % (addr, text))
        last = k + 1
    if limit is not None:
        hangs = sum(1 for a in attempts)
        if took > (limit * len(seq) + 20) * SEC + net.policy.delay * 400 * (len(seq) + 1):
            fail('too-late', '%d attempts with a timeout of %ss took %.1fs' % (len(seq), limit, took / SEC))
    return False


def expect(o, kind):
    """would an undisturbed attempt succeed?"""
    tls = False
    if kind is not None:
        a = o.get('ssl', 'N')
        if a == 'S':
            if o.get('tls_outcome', 'ok') != 'ok':
                return False
            tls = True
        elif a == 'N':
            if kind is True:
                return False
        else:
            return False
    if o.get('reject') or (tls and o.get('reject_tls')) or (not tls and o.get('reject_clear')):
        return False
    if o.get('auth') == 'unsupported':
        return False
    if o.get('auth') in ('clear', 'md5') and o.get('password', 'secret') != 'secret':
        return False
    if o.get('post_auth_error'):
        return False
    return True
