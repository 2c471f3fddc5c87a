"""C20: bulk row loading applies every row or reports the failure."""
from sim.core import *
from sim import client, wl
from sim.work import SourceError

PROP = 'C20'
RULE = ('one evaluation = one seeded session of parameterised bulk loads (rows and chunks; inserts and updates; rows that cannot be packed, rows '
        'the server rejects, sources that raise or use the connection, server errors at seeded messages, lost connections) among other '
        'operations; distinct non-trivial = distinct sequences of operations, replies and reads among runs with at least one load of more than one chunk or with a failure')
RUNS = {'quick': 24000, 'thorough': 250000}
REAL = ['postgresql.driver.pq3 (Statement.load_rows/load_chunks)', 'postgresql.protocol.*', 'port.optimized and pure-Python process_tuple']
STUB = ['server (simulated backend with operation-log transactions)', 'socket, select, clock (simulated)']
ASSUMPTIONS = ['a chunk is applied or rejected as a whole (one implicit transaction); when the connection is lost the last chunk sent may or may not be applied',
               'when the source or packing fails its exception is the one raised, whatever the server said about the chunk before']
PROBES = ['multi', 'both', 'unpackable', 'rejected', 'source', 'source_base', 'inner', 'inner_reported', 'error', 'cut', 'in_tx', 'update', 'misfit']
VARIANTS = ('c', 'py')


class SourceExit(BaseException):
    pass


def genload(rng, g):
    n = rng.choice([0, 1, 2, 5, 12, 30, 70])
    kind = rng.choice(['kv', 'kv', 'lines', 'update'])
    op = {'op': 'bulk', 'n': n, 'base': g.key, 'cs': rng.choice([1, 2, 5, 16, 256]), 'how': rng.choice(['rows', 'chunks', '.rows', '.chunks']), 'kind': kind,
          'keep': rng.random() < 0.4}
    g.key += n + 1
    x = rng.random()
    if n:
        if x < 0.12:
            op['bad'] = rng.randrange(n)
        elif x < 0.18:
            op['misfit'] = rng.randrange(n)
        elif x < 0.32 and kind == 'kv' and n > 1:
            op['dup'] = rng.randrange(1, n)
            if rng.random() < 0.5:
                # something fails on the client as well, about a chunk later
                op[rng.choice(['src', 'src', 'bad', 'misfit'])] = min(n, op['dup'] + rng.randrange(0, 2 * min(op['cs'], n) + 1))
                if rng.random() < 0.3:
                    op['base_exc'] = 1
        elif x < 0.48:
            op['src'] = rng.randrange(n + 1)
            if rng.random() < 0.3:
                op['base_exc'] = 1
        if rng.random() < 0.15:
            op['inner'] = rng.randrange(n + 1)
        if rng.random() < 0.1 and op['cs'] > 1:
            op['ragged'] = rng.randrange(1000)
    return op


def gen(rng, tier):
    chunk = rng.choice(wl.CHUNKSIZES)
    g = wl.Gen(rng, chunk)
    w = {'q': 2, 'put': 1, 'copyin': 1, 'open': 2, 'stream': 3, 'gc': 1, 'raise': 1}
    if rng.random() < 0.4:
        w['tx'] = 2
    ops = []
    for _ in range(rng.randrange(2, 10)):
        ops.append(genload(rng, g) if rng.random() < 0.5 else g.mixed(w))
    cfg = {'chunk': chunk}
    x = rng.random()
    if x < 0.3:
        cfg['err_at'] = [[rng.randrange(0, rng.choice([12, 60, 200])), rng.choice(['53100', '53200', '57014', '40001'])]]
    elif x < 0.4:
        cfg['commit_error'] = [rng.randrange(4), rng.choice(['23503', '40001', '53100'])]
    elif x < 0.6:
        cfg['cut'] = {'dir': rng.choice(['s2c', 'c2s', 'c2s']), 'at': rng.choice([rng.randrange(0, 700), rng.randrange(0, 5000)]),
                      'how': rng.choice(['eof', 'reset', 'epipe'])}
    return {'ops': ops, 'policy': wl.policy(rng), 'cfg': cfg}


def chunks_of(op):
    n = op['n']; cs = op['cs']
    out = []
    a = 0
    r = op.get('ragged')
    while a < n:
        k = cs
        if r is not None and op['how'].endswith('chunks'):
            r = (r * 1103515245 + 12345) & 0x7fffffff
            k = r % cs                     # also empty chunks
            if r % 7 == 0:
                k = cs
        out.append(list(range(a, min(n, a + k))))
        a += k
        if len(out) > 400:
            out.append(list(range(a, n)))
            break
    return out


def bulk(env, s, op):
    n = op['n']; base = op['base']; kind = op['kind']; how = op['how']
    bad = op.get('bad', -1); dup = op.get('dup', -1); src = op.get('src', -1); inner = op.get('inner', -1); misfit = op.get('misfit', -1)
    boom = (SourceExit if op.get('base_exc') else SourceError)('rows %d' % base)
    table = 'lines2' if kind == 'lines' else 'kv'
    tagv = 'b%d:' % base
    keys = [base if j == dup else base + j for j in range(n)]
    said = []
    if kind == 'update':
        # updates of one row: the order is visible in its final value
        if s.has('kv', base, 'start') is False:
            before = len(s.view('kv'))
            s.do({'op': 'put', 'k': base, 'v': 'start', 'how': 'call'})
            if not s.has('kv', base, 'start'):
                return
    sql = {'kv': 'INSERT INTO kv VALUES ($1, $2)', 'lines': 'INSERT INTO lines2 VALUES ($1)',
           'update': 'UPDATE kv SET v = $1 WHERE k = $2'}[kind]

    def row(j):
        v = tagv + str(j)
        if j == misfit:
            return (v, 1, 2, 3)
        if kind == 'kv':
            return ('not a number' if j == bad else keys[j], v)
        if kind == 'lines':
            return (Unpackable() if j == bad else v,)
        return (v, 'not a number' if j == bad else base)

    def ask():
        said.append(client.call(lambda: s.db.query.first('SELECT 1')))
        if said[-1][0] == 'err':
            s.claim(said[-1][1])

    def rows():
        for j in range(n):
            if j == src:
                raise boom
            if j == inner:
                ask()
            yield row(j)
        if src >= n:
            raise boom
        if inner >= n:
            ask()

    plan = chunks_of(op) if how.endswith('chunks') else [list(range(a, min(n, a + op['cs']))) for a in range(0, n, op['cs'])]

    def chunks():
        for c in plan:
            if src in c:
                raise boom
            if inner in c:
                ask()
            yield [row(j) for j in c]
        if src >= n:
            raise boom
        if inner >= n:
            ask()
    what = 'bulk %s' % {k: v for k, v in op.items() if k != 'op'}
    intx = s.b.xtx is not None
    failed0 = s.b.failed
    raised = None
    injected0 = env.sim.stats.get('srv_injected_error', 0)
    seen0 = done_rows(s, kind, table, tagv, base)
    if seen0:
        raise HarnessError('rows of the load are there before it')
    base_row = s.server.rowid

    def go():
        q = s.db.query
        if how == '.rows':
            return q.load_rows(sql, rows(), op['cs'])
        if how == '.chunks':
            return q.load_chunks(sql, chunks())
        key = (sql, 'bulk')
        st = s.stmts.get(key)
        if st is None or not op.get('keep'):
            st = s.db.prepare(sql)
            s.stmts[key] = st
        if how == 'rows':
            return st.load_rows(rows(), chunksize=op['cs'])
        return st.load_chunks(chunks())
    nsent = len(s.b.errors_sent)
    unc = [k for k in range(nsent) if k not in s.claimed_set]
    try:
        st, val = client.call(go)
    except (SourceError, SourceExit) as e:
        if e is not boom or src < 0:
            raise HarnessError('source error')
        e.__traceback__ = None
        st, val = 'source', e
    except Exception as e:
        if misfit < 0:
            raise
        e.__traceback__ = None
        st, val = 'misfit', e
    for q in said:
        if q[0] == 'err' and not (s.lossy and s.lost()):
            env.probe('inner_reported')
    if st == 'ok':
        if not s.after(what, 'ok', None):
            raise HarnessError('after')
        if src >= 0:
            s.fail('source-error-swallowed', what)
        if bad >= 0 or misfit >= 0:
            s.fail('unpackable-row-swallowed', what)
        if dup >= 0:
            s.fail('error-swallowed', what)
    elif st == 'err':
        if val.code == '--PIO':
            if bad < 0 and misfit < 0:
                s.fail('unexplained-error', '%s raised %s' % (what, val.message))
            s.sync_after_source(what)
            s.after(what, st, val, client_err=('--PIO',))
        elif said:
            # the source itself may have read the error of a chunk
            if not (s.lossy and s.lost()) and s.claim(val) is None and not s.own_error(None, val):
                s.fail('unexplained-error', '%s raised %s %r' % (what, val.code, val.message))
            if s.lossy and s.lost():
                s.check_dead(what, val)
        else:
            s.after(what, st, val)
    else:
        s.sync_after_source(what)
        if s.lossy and s.lost() and s.db.closed:
            s.dead = True
    if said:
        s.sync_after_source(what)
    s.note('bulk', {k: v for k, v in op.items()}, st if st != 'err' else val.code)
    failed1 = s.b.failed
    if not s.dead and not s.db.closed:
        s.probe_alive(what)
    # effects
    if s.dead or s.db.closed or (s.lossy and s.lost()):
        got = [x for x in committed_rows(s, kind, table, tagv, base)]
        if intx and got:
            s.fail('uncommitted-load-visible', what)
        check_prefix(s, what, kind, got, plan, keys, intx=False, full=st == 'ok' and not intx)
        return
    if intx:
        if s.b.failed or s.b.xtx is None:
            if committed_rows(s, kind, table, tagv, base):
                s.fail('uncommitted-load-visible', what)
            if st == 'ok' and failed1 and not failed0 and not said:
                s.fail('failed-transaction-after-success', what)
            return
    got = done_rows(s, kind, table, tagv, base)
    check_prefix(s, what, kind, got, plan, keys, intx, full=st == 'ok')
    if st != 'ok' and not intx and not said and (st != 'err' or val.code in ('23505', '--PIO')):
        clean = not env.cfg.get('err_at') and not env.cfg.get('commit_error') and not s.lossy
        stop = min([x for x in (bad, dup, src, misfit) if x >= 0] or [-1])
        want = 0
        for c in plan:
            if stop in c:
                break
            if stop >= n and c is plan[-1] and how.endswith('rows') and len(c) < op['cs']:
                break           # the chunk was never completed
            want += len(c)
        if clean and len(got) != want and kind != 'update':
            s.fail('wrong-prefix', '%s: %d rows have taken effect instead of the %d before the failing chunk' % (what, len(got), want))


def done_rows(s, kind, table, tagv, base):
    if kind == 'update':
        v = [r[1] for r in s.view('kv') if r[0] == base]
        return [] if not v or not v[0].startswith(tagv) else [int(v[0][len(tagv):])]
    return [int(r[1][len(tagv):]) for r in order(s.view(table), kind) if r[1].startswith(tagv)]


def committed_rows(s, kind, table, tagv, base):
    rows = s.server.tables[table].values()
    if kind == 'update':
        v = [r[1] for r in rows if r[0] == base]
        return [] if not v or not v[0].startswith(tagv) else [int(v[0][len(tagv):])]
    return [int(r[1][len(tagv):]) for r in order(rows, kind) if r[1].startswith(tagv)]


def order(rows, kind):
    return sorted(rows, key=lambda r: r[0]) if kind == 'lines' else [r for r in rows]


def check_prefix(s, what, kind, got, plan, keys, intx, full):
    n = sum(len(c) for c in plan)
    ends = [0]
    for c in plan:
        ends.append(ends[-1] + len(c))
    if kind == 'update':
        if full and n and got != [n - 1]:
            s.fail('wrong-final-value', '%s: the last update in effect is %r instead of %d' % (what, got, n - 1))
        if got and got[0] + 1 not in ends:
            s.fail('partial-chunk', '%s: the last update in effect is %r, which is not the end of a chunk' % (what, got))
        return
    if kind == 'kv':
        got = sorted(got)
    if got != list(range(len(got))):
        s.fail('wrong-rows', '%s: rows %r have taken effect' % (what, got[:40]))
    if full and len(got) != n:
        s.fail('rows-missing', '%s returned and %d of %d rows have taken effect' % (what, len(got), n))
    if len(got) not in ends:
        s.fail('partial-chunk', '%s: %d rows have taken effect; chunks end at %r' % (what, len(got), ends))


class Unpackable:
    def __str__(self):
        raise ValueError('cannot be packed')
    __repr__ = lambda self: 'Unpackable()'


def run(env):
    cfg = env.cfg
    o = {}
    if cfg.get('commit_error'):
        o['commit_error'] = list(cfg['commit_error'])
    s = wl.session(env, o, lossy=bool(cfg.get('cut')))
    for k, code in cfg.get('err_at', ()):
        s.b.err_at[s.b.nin + k] = (code, 'injected at %d' % k)
    if cfg.get('cut'):
        wl.cut(s, cfg['cut'])
    env.nontrivial = False
    for op in env.ops:
        if s.dead:
            break
        if op['op'] != 'bulk':
            s.do(op)
            continue
        for k, p in (('bad', 'unpackable'), ('dup', 'rejected'), ('src', 'source'), ('base_exc', 'source_base'), ('inner', 'inner'), ('misfit', 'misfit')):
            if op.get(k, -1) >= 0:
                env.probe(p)
                env.nontrivial = True
        if op.get('dup', -1) >= 0 and max(op.get(k, -1) for k in ('src', 'bad', 'misfit')) >= 0:
            env.probe('both')
        if op['n'] > op['cs']:
            env.probe('multi')
            env.nontrivial = True
        if op['kind'] == 'update':
            env.probe('update')
        if s.b.xtx is not None:
            env.probe('in_tx')
        env.sim.mark('<bulk>')
        e0 = len(s.b.errors_sent)
        bulk(env, s, op)
        if len(s.b.errors_sent) > e0:
            env.probe('error')
    if s.dead:
        env.probe('cut')
        return
    s.finish()
    s.db.close()
