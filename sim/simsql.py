"""The statements the simulated backend understands."""
import re
from . import pgserver
from .pgserver import *
from .pgserver import Raw, Wait, Plan, Tx, SQLCursor, SQLError

WS = re.compile(r'\s+')


def R(p):
    return re.compile('^' + p.replace(' ?', r'\s*').replace(' ', r'\s+') + '$', re.I | re.S)


def ident(tok):
    tok = tok.strip()
    if tok.startswith('"'):
        return tok[1:-1].replace('""', '"')
    return tok.lower()


ID = r'("(?:[^"]|"")*"|[A-Za-z_][A-Za-z0-9_$]*)'


def args_of(s):
    """split an argument list of ints, 'strings' and $n[::type]"""
    out = []
    for m in re.finditer(r"\s*(?:\$(\d+)(?:::(\w+))?|(-?\d+)|'((?:[^']|'')*)')\s*(?:,|$)", s):
        if m.group(1):
            out.append(('p', int(m.group(1)) - 1, m.group(2)))
        elif m.group(3) is not None:
            out.append(('c', int(m.group(3))))
        else:
            out.append(('c', m.group(4).replace("''", "'")))
    return out


def bindargs(args, params):
    return [params[a[1]] if a[0] == 'p' else a[1] for a in args]


TYPES = {'int4': INT4, 'int': INT4, 'int8': INT8, 'text': TEXT, 'bytea': BYTEA, 'bool': BOOL}


def oids_of(args, default):
    n = max([a[1] + 1 for a in args if a[0] == 'p'] or [0])
    out = [TEXT] * n
    for k, a in enumerate(args):
        if a[0] == 'p':
            out[a[1]] = TYPES[a[2].lower()] if a[2] else default[min(k, len(default) - 1)]
    return out


# ------------------------------------------------------------------ test workload statements
P_GEN = R(r'SELECT (?:\*|[a-z, ]+) FROM gen\((.*)\)')
P_INS = R(r'INSERT INTO (kv2?|lines[23]?) VALUES ?\((.*)\)')
P_UPD = R(r'UPDATE (kv2?) SET v = (.*?) WHERE k = (.*)')
P_DEL = R(r'DELETE FROM (kv2?|lines[23]?)(?: WHERE k = (.*))?')
P_SELALL = R(r'SELECT k, v FROM (kv2?|lines[23]?) ORDER BY k')
P_SELV = R(r'SELECT v FROM (kv2?) WHERE k = (.*)')
P_CNT = R(r'SELECT count\(\*\) FROM (kv2?|lines[23]?)')
P_COPYIN = R(r'COPY (kv2?|lines[23]?) FROM STDIN(?: (?:WITH )?(BINARY))?')
P_COPYOUT = R(r'COPY (kv2?|lines[23]?) TO STDOUT')
P_COPYGEN = R(r'COPY \((SELECT .*)\) TO STDOUT(?: (?:WITH )?(BINARY))?')
P_DECLARE = R(r'DECLARE ' + ID + r'((?: (?:INSENSITIVE|SCROLL|BINARY|NO))*) CURSOR( WITH HOLD| WITHOUT HOLD)? FOR (.*)')
P_FETCH = R(r'(FETCH|MOVE) ?(.*?) ?(?:IN|FROM) ' + ID)
P_CLOSE = R(r'CLOSE ' + ID)
P_BEGIN = R(r'(?:BEGIN|START TRANSACTION)(?: .*)?')
P_MODES = R(r'(?:BEGIN(?: WORK| TRANSACTION)?|START TRANSACTION)(?: ISOLATION LEVEL (SERIALIZABLE|REPEATABLE READ|READ COMMITTED|READ UNCOMMITTED))?,?(?: (READ ONLY|READ WRITE))?')
P_COMMIT = R(r'(?:COMMIT|END)(?: (?:WORK|TRANSACTION))?')
P_ROLLBACK = R(r'(?:ROLLBACK|ABORT)(?: (?:WORK|TRANSACTION))?')
P_SAVE = R(r'SAVEPOINT ' + ID)
P_ROLLTO = R(r'ROLLBACK TO(?: SAVEPOINT)? ' + ID)
P_RELEASE = R(r'RELEASE(?: SAVEPOINT)? ' + ID)
P_SERIES = R(r'SELECT series\((.*)\)')
COMMENT = re.compile(r'/\*.*?\*/', re.S)
P_SLEEP = R(r'SELECT pg_sleep\((.*)\)')
P_RAISE = R(r"SELECT raise\((.*)\)")
P_SAY = R(r"SELECT say\((.*)\)")
P_SET = R(r'SET ' + ID + r'(?: TO | ?= ?)(.*)')
P_SHOW = R(r'SHOW ' + ID)
P_RESET = R(r'RESET (ALL|' + ID + ')')
P_LISTEN = R(r'(LISTEN|UNLISTEN) (\*|' + ID + ')')
P_NOTIFY = R(r'NOTIFY ' + ID + r"(?: ?, ?'((?:[^']|'')*)')?")
P_ONE = R(r'SELECT 1')
P_PARM = R(r"SELECT (\$.*)")
P_DEALLOC = R(r'DEALLOCATE ' + ID)
P_LOCKS = R(r'SELECT (?:pg_catalog\.)?(pg_(?:try_)?advisory_(?:un)?lock(?:_shared)?)\((.*)\)')


def plan(b, s):
    t = s.strip()
    f = b.db.opts.get('plan')
    if f is not None:
        p = f(b, t)
        if p is not None:
            return p
    if '/*' in t:
        t = COMMENT.sub(' ', t).strip()
    m = P_GEN.match(t)
    if m:
        return plan_gen(m.group(1))
    m = P_INS.match(t)
    if m:
        table = m.group(1).lower()
        a = args_of(m.group(2))
        isline = table.startswith('lines')

        def ins(be, params):
            vals = bindargs(a, params)
            insert(be, table, vals)
            return 'INSERT 0 1'
        return Plan('cmd', ins, oids=oids_of(a, [TEXT] if isline else [INT4, TEXT]))
    m = P_UPD.match(t)
    if m:
        table = m.group(1).lower()
        a = args_of(m.group(2)) + args_of(m.group(3))

        def upd(be, params):
            v, k = bindargs(a, params)
            tx = be.need_tx()
            if k in tx.view(table):
                tx.do(('set', table, k, (k, v)))
                return 'UPDATE 1'
            return 'UPDATE 0'
        return Plan('cmd', upd, oids=oids_of(a, [TEXT, INT4]))
    m = P_DEL.match(t)
    if m:
        table = m.group(1).lower()
        a = args_of(m.group(2)) if m.group(2) else None

        def dele(be, params):
            tx = be.need_tx()
            if a is None:
                ks = list(tx.view(table))
            else:
                ks = [k for k in bindargs(a, params) if k in tx.view(table)]
            for k in ks:
                tx.do(('del', table, k))
            return 'DELETE %d' % len(ks)
        return Plan('cmd', dele, oids=oids_of(a or [], [INT4]))
    m = P_SELALL.match(t)
    if m:
        table = m.group(1).lower()
        k = INT4
        return Plan('rows', lambda be, params: sorted(be.need_tx().view(table).values(), key=lambda r: r[0]), cols=[('k', k), ('v', TEXT)])
    m = P_SELV.match(t)
    if m:
        table = m.group(1).lower()
        a = args_of(m.group(2))

        def selv(be, params):
            k, = bindargs(a, params)
            r = be.need_tx().view(table).get(k)
            return [(r[1],)] if r is not None else []
        return Plan('rows', selv, cols=[('v', TEXT)], oids=oids_of(a, [INT4]))
    m = P_CNT.match(t)
    if m:
        table = m.group(1).lower()
        return Plan('rows', lambda be, params: [(len(be.need_tx().view(table)),)], cols=[('count', INT8)])
    m = P_COPYIN.match(t)
    if m:
        table = m.group(1).lower()
        return Plan('copyin', lambda be, params: Sink(be, table, bool(m.group(2))))
    m = P_COPYOUT.match(t)
    if m:
        table = m.group(1).lower()
        return Plan('copyout', lambda be, params: [copyline(r) for r in sorted(be.need_tx().view(table).values(), key=lambda r: r[0])])
    m = P_COPYGEN.match(t)
    if m:
        sub = plan(b, m.group(1))
        binary = bool(m.group(2))
        return Plan('copyout', lambda be, params: copy_gen(be, sub, binary), arg={'binary': binary}, oids=sub.oids)
    m = P_DECLARE.match(t)
    if m:
        name = ident(m.group(1))
        hold = bool(m.group(3)) and 'WITH HOLD' in WS.sub(' ', m.group(3)).upper()
        sub = plan(b, m.group(4))
        if sub.kind not in ('rows',):
            raise SQLError('42601', 'syntax error in DECLARE')

        def declare(be, params):
            if be.tx is None or (be.tx.implicit and not hold):
                raise SQLError('25P01', 'DECLARE CURSOR can only be used in transaction blocks')
            if name in be.cursors or (name in be.portals and name):
                raise SQLError('42P03', 'cursor "%s" already exists' % name)
            rows = []
            g = sub.fn(be, params)
            # the result of an INSENSITIVE cursor is fixed now; errors while producing a
            # row are raised when that row is fetched
            c = SQLCursor(name, sub.cols, LazyRows(iter(g)), hold)
            c.created_in = be.tx
            be.cursors[name] = c
            return 'DECLARE CURSOR'
        p = Plan('cmd', declare, oids=sub.oids)
        p.raw = sub.raw
        return p
    m = P_FETCH.match(t)
    if m:
        return plan_fetch(b, m.group(1).upper(), WS.sub(' ', m.group(2)).strip().upper(), ident(m.group(3)))
    m = P_CLOSE.match(t)
    if m:
        name = ident(m.group(1))

        def close(be, params):
            if name not in be.cursors and name not in be.portals:
                raise SQLError('34000', 'cursor "%s" does not exist' % name)
            be.cursors.pop(name, None)
            be.portals.pop(name, None)
            return 'CLOSE CURSOR'
        return Plan('cmd', close)
    if P_BEGIN.match(t):
        modes = P_MODES.match(t)
        if modes is None:
            raise SQLError('42601', 'syntax error in transaction modes: %s' % t[:60], P='1')

        def begin(be, params):
            if be.tx is not None and not be.tx.implicit:
                be.notice('there is already a transaction in progress', '25001', 'WARNING')
                return 'BEGIN'
            tx = be.need_tx()
            tx.implicit = False
            tx.isolation = modes.group(1) and modes.group(1).upper()
            tx.readonly = (modes.group(2) or '').upper() == 'READ ONLY'
            return 'BEGIN'
        return Plan('tx', begin, arg='begin')
    if P_COMMIT.match(t):
        def commit(be, params):
            if be.tx is None or be.tx.implicit:
                if be.tx is not None:
                    be.commit_tx()
                be.notice('there is no transaction in progress', '25P01', 'WARNING')
                return 'COMMIT'
            if be.failed:
                be.rollback_tx()
                return 'ROLLBACK'
            if be.opts.get('commit_error'):
                ce = be.opts['commit_error']
                if ce[0] > 0:
                    ce[0] -= 1
                elif ce[0] == 0:
                    ce[0] = -1
                    be.sim.count('srv_error_at_commit')
                    be.rollback_tx()
                    raise SQLError(ce[1], 'deferred failure at commit')
            be.commit_tx()
            return 'COMMIT'
        return Plan('tx', commit, arg='commit')
    if P_ROLLBACK.match(t):
        def rollback(be, params):
            if be.tx is None or be.tx.implicit:
                if be.tx is not None:
                    be.rollback_tx()
                be.notice('there is no transaction in progress', '25P01', 'WARNING')
                return 'ROLLBACK'
            be.rollback_tx()
            return 'ROLLBACK'
        return Plan('tx', rollback, arg='rollback')
    m = P_SAVE.match(t)
    if m:
        name = ident(m.group(1))

        def save(be, params):
            if be.tx is None or be.tx.implicit:
                raise SQLError('25P01', 'SAVEPOINT can only be used in transaction blocks')
            tx = be.tx
            tx.saves.append((name, len(tx.log), dict(be.gucs), set(be.cursors), len(tx.notifies), list(be.portals.values())))
            return 'SAVEPOINT'
        return Plan('tx', save, arg='savepoint')
    m = P_ROLLTO.match(t)
    if m:
        name = ident(m.group(1))

        def rollto(be, params):
            if be.tx is None or be.tx.implicit:
                raise SQLError('25P01', 'ROLLBACK TO SAVEPOINT can only be used in transaction blocks')
            k = find_save(be, name)
            tx = be.tx
            _, n, gucs, curs, nn, ports = tx.saves[k]
            tx.undone += 1
            del tx.saves[k + 1:]
            tx.truncate(n)
            del tx.notifies[nn:]
            be.failed = False
            be.keep_portals(ports)
            for c in list(be.cursors):
                if c not in curs:
                    del be.cursors[c]
            be.restore_gucs(dict(gucs))
            return 'ROLLBACK'
        return Plan('tx', rollto, arg='rollback_to')
    m = P_RELEASE.match(t)
    if m:
        name = ident(m.group(1))

        def rel(be, params):
            if be.tx is None or be.tx.implicit:
                raise SQLError('25P01', 'RELEASE SAVEPOINT can only be used in transaction blocks')
            k = find_save(be, name)
            if be.opts.get('release_error') is not None and not be.undo:
                ce = be.opts['release_error']
                if ce[0] > 0:
                    ce[0] -= 1
                elif ce[0] == 0:
                    ce[0] = -1
                    be.sim.count('srv_error_at_release')
                    raise SQLError(ce[1], 'failure at release')
            del be.tx.saves[k:]
            return 'RELEASE'
        return Plan('tx', rel, arg='release')
    m = P_SLEEP.match(t)
    if m:
        a = args_of(m.group(1))

        def slp(be, params):
            ms, = bindargs(a, params)
            end = be.sim.now + ms * 1000
            be.sim.after(ms * 1000, be.poke)
            yield Wait(lambda: be.sim.now >= end, 'pg_sleep')
            yield (Raw(b''),)
        return Plan('rows', slp, cols=[('pg_sleep', VOID)], oids=oids_of(a, [INT4]))
    m = P_SERIES.match(t)
    if m:
        a = args_of(m.group(1))
        return Plan('rows', lambda be, params: [(k,) for k in range(1, bindargs(a, params)[0] + 1)], cols=[('series', INT4)], oids=oids_of(a, [INT4]))
    m = P_RAISE.match(t)
    if m:
        a = args_of(m.group(1))

        def rse(be, params):
            v = bindargs(a, params)
            raise SQLError(v[0], v[1] if len(v) > 1 else 'raised', v[2] if len(v) > 2 else 'ERROR')
        return Plan('rows', rse, cols=[('raise', INT4)], oids=oids_of(a, [TEXT]))
    m = P_SAY.match(t)
    if m:
        a = args_of(m.group(1))

        def say(be, params):
            v = bindargs(a, params)
            be.notice(v[1], v[0], v[2] if len(v) > 2 else 'NOTICE', D='d' + v[1], H='h')
            return [(1,)]
        return Plan('rows', say, cols=[('say', INT4)], oids=oids_of(a, [TEXT]))
    m = P_LISTEN.match(t)
    if m:
        kind = m.group(1).lower()
        ch = m.group(2)

        def lis(be, params):
            tx = be.need_tx()
            if ch == '*':
                for c, L in be.db.listeners.items():
                    if be in L:
                        tx.listen.append(('unlisten', c))
            else:
                tx.listen.append((kind, ident(ch)))
            return kind.upper()
        return Plan('cmd', lis)
    m = P_NOTIFY.match(t)
    if m:
        ch = ident(m.group(1)); pl = (m.group(2) or '').replace("''", "'")

        def noti(be, params):
            be.need_tx().notifies.append((ch, pl))
            return 'NOTIFY'
        return Plan('cmd', noti)
    m = P_SET.match(t)
    if m and not t.upper().startswith('SET TRANSACTION') and not t.upper().startswith('SET SESSION'):
        k = ident(m.group(1)); v = m.group(2).strip()
        if v.startswith("'"):
            v = v[1:-1].replace("''", "'")

        def st(be, params):
            be.need_tx()
            be.set_guc(k, v)
            return 'SET'
        return Plan('cmd', st)
    m = P_SHOW.match(t)
    if m:
        k = ident(m.group(1))
        n = b.gucname(k)
        if n is None:
            raise SQLError('42704', 'unrecognized configuration parameter "%s"' % k)
        return Plan('rows', lambda be, params: [(be.guc(n),)], cols=[(n.lower(), TEXT)], tag='SHOW')
    m = P_RESET.match(t)
    if m:
        k = m.group(1)

        def rst(be, params):
            be.need_tx()
            if k.upper() == 'ALL':
                for n in sorted(be.gucs):
                    if n not in be.db.readonly and n != 'session_authorization':
                        be.set_guc(n, None)
            else:
                be.set_guc(ident(k), None)
            return 'RESET'
        return Plan('cmd', rst)
    if P_ONE.match(t):
        return Plan('rows', lambda be, params: [(1,)], cols=[('?column?', INT4)])
    m = P_DEALLOC.match(t)
    if m:
        name = ident(m.group(1))

        def dea(be, params):
            if name not in be.stmts:
                raise SQLError('26000', 'prepared statement "%s" does not exist' % name)
            del be.stmts[name]
            return 'DEALLOCATE'
        return Plan('cmd', dea)
    m = P_PARM.match(t)
    if m:
        a = args_of(m.group(1))
        o = oids_of(a, [TEXT])
        return Plan('rows', lambda be, params: [tuple(bindargs(a, params))], cols=[('c%d' % k, o[x[1]]) for k, x in enumerate(a)], oids=o)
    p = plan_sys(b, WS.sub(' ', t).lower(), t)
    if p is not None:
        return p
    raise SQLError('42601', 'syntax error at or near "%s"' % t[:60], P='1')


def find_save(be, name):
    for k in range(len(be.tx.saves) - 1, -1, -1):
        if be.tx.saves[k][0] == name:
            return k
    raise SQLError('3B001', 'savepoint "%s" does not exist' % name)


def insert(be, table, vals):
    tx = be.need_tx()
    if table in be.db.pk:
        k, v = vals
        if k is None:
            raise SQLError('23502', 'null value in column "k" violates not-null constraint')
        if k in tx.view(table):
            raise SQLError('23505', 'duplicate key value violates unique constraint "%s_pkey"' % table)
        tx.do(('set', table, k, (k, v)))
    else:
        be.db.rowid += 1
        tx.do(('set', table, be.db.rowid, (be.db.rowid,) + tuple(vals)))


class LazyRows:
    """rows produced on demand, kept for scrolling"""
    def __init__(self, it):
        self.it = it; self.rows = []; self.end = False

    def _to(self, n):
        while not self.end and (n is None or len(self.rows) < n):
            try:
                self.rows.append(next(self.it))
            except StopIteration:
                self.end = True
            except SQLError:
                raise

    def __len__(self):
        self._to(None)
        return len(self.rows)

    def __getitem__(self, k):
        if k >= 0:
            self._to(k + 1)
        else:
            self._to(None)
        return self.rows[k]


def gen_rows(be, n, tag, ncols, err_at, notice_at, bad_at=-1):
    for j in range(n):
        if j == err_at:
            raise SQLError('22012', 'division by zero in result %d' % tag)
        if notice_at and (j + 1) % notice_at == 0:
            be.notice('row %d of %d' % (j, tag), '00000', 'NOTICE', D='x')
        if j == bad_at:
            yield (Raw(b'\x00\xff\x02'),) + genrow(tag, j, ncols)[1:]
        else:
            yield genrow(tag, j, ncols)


def plan_gen(argstr):
    a = args_of(argstr)
    ncols = a[2][1] if len(a) > 2 and a[2][0] == 'c' else 2

    def gen(be, params):
        v = bindargs(a, params)
        n, tag = v[0], v[1]
        err_at = v[3] if len(v) > 3 else -1
        notice_at = v[4] if len(v) > 4 else 0
        bad_at = v[5] if len(v) > 5 else -1
        return gen_rows(be, n, tag, ncols, err_at, notice_at, bad_at)
    return Plan('rows', gen, cols=gencols(ncols), oids=oids_of(a, [INT4]))


def copy_gen(be, sub, binary):
    if not binary:
        for r in sub.fn(be, ()):
            yield copyline(r)
        return
    first = b'PGCOPY\n\xff\r\n\0' + I.pack(0) + I.pack(0)
    for r in sub.fn(be, ()):
        body = h.pack(len(r))
        for (nm, oid), v in zip(sub.cols, r):
            e = enc(oid, v, 1)
            body += i4.pack(-1) if e is None else i4.pack(len(e)) + e
        yield first + body
        first = b''
    yield first + h.pack(-1)


class Sink:
    """COPY FROM STDIN"""
    def __init__(self, be, table, binary):
        self.be = be; self.table = table; self.binary = binary
        self.buf = b''; self.n = 0
        self.raw = []

    def data(self, d):
        self.raw.append(d)
        self.buf += d
        if self.binary:
            return
        while True:
            k = self.buf.find(b'\n')
            if k < 0:
                return
            line, self.buf = self.buf[:k], self.buf[k + 1:]
            self.line(line)

    def line(self, line):
        if line == b'\\.':
            return
        if self.table in self.be.db.pk:
            f = uncopy(line)
            if len(f) != 2:
                raise SQLError('22P04', 'missing data for column "v"' if len(f) < 2 else 'extra data after last expected column')
            try:
                k = int(f[0])
            except (ValueError, TypeError):
                raise SQLError('22P02', 'invalid input syntax for type integer: "%s"' % f[0])
            insert(self.be, self.table, [k, f[1]])
        else:
            if line.startswith(b'!bad'):
                raise SQLError('22P04', 'extra data after last expected column')
            insert(self.be, self.table, [line])
        self.n += 1

    def done(self):
        if self.binary:
            insert(self.be, self.table, [self.buf])
            return 1
        if self.buf:
            self.line(self.buf)
        return self.n


def plan_fetch(b, verb, what, name):
    m = re.match(r'^(?:(NEXT|PRIOR|FIRST|LAST|ABSOLUTE|RELATIVE|FORWARD|BACKWARD|ALL)\s*)?(ALL|[+-]?\d+)?$', what)
    if not m:
        raise SQLError('42601', 'syntax error in %s %s' % (verb, what))
    w, q = m.group(1), m.group(2)

    def cursor(be):
        c = be.cursors.get(name)
        if c is None:
            raise SQLError('34000', 'cursor "%s" does not exist' % name)
        return c

    def move(be):
        c = cursor(be)
        n = None if q == 'ALL' or w == 'ALL' else (int(q) if q is not None else 1)
        if w in (None, 'FORWARD', 'ALL'):
            return c.fetch('FORWARD', n)
        if w == 'BACKWARD':
            return c.fetch('BACKWARD', n)
        if w == 'NEXT':
            return c.fetch('FORWARD', 1)
        if w == 'PRIOR':
            return c.fetch('BACKWARD', 1)
        if w == 'FIRST':
            return c.absolute(1)
        if w == 'LAST':
            return c.absolute(-1)
        if w == 'ABSOLUTE':
            return c.absolute(n)
        if w == 'RELATIVE':
            if n == 0:
                return [c.rows[c.pos - 1]] if 1 <= c.pos <= len(c.rows) else []
            c.fetch('FORWARD' if n > 0 else 'BACKWARD', abs(n) - 1)
            return c.fetch('FORWARD' if n > 0 else 'BACKWARD', 1)
        raise AssertionError(w)
    if verb == 'FETCH':
        def fn(be, params):
            if params == 'cols':
                return cursor(be).cols
            return move(be)
        cols = None
        c = b.cursors.get(name)
        return Plan('cursorfetch', fn, cols=None, tag='FETCH')

    def mv(be, params):
        return 'MOVE %d' % len(move(be))
    return Plan('cmd', mv)


# ------------------------------------------------------------------ what the driver itself asks
P_LOCKCALL = re.compile(r'pg_(try_)?advisory_(un)?lock(_shared)?\s*\(', re.S)
P_LOCKCASE = re.compile(r'case\s+when\s+(.*?)\s+is\s+(not\s+)?null\s+then\s+(.*?)\s+else\s+(.*?)\s+end\b', re.S)
P_LOCKARG = re.compile(r'\(?\(?\$(\d)(?:::int[48]\[\])?\)?((?:\[[^\]]*\])+)\)?')


def lock_element(text, params, i):
    """the value of $n[i] or $n[i][j]; None for NULL, LookupError if not understood"""
    m = P_LOCKARG.fullmatch(text.strip())
    if not m:
        raise LookupError(text)
    v = params[int(m.group(1)) - 1]
    for sub in re.findall(r'\[([^\]]*)\]', m.group(2)):
        if v is None:
            return None
        sub = sub.strip()
        k = i if sub == 'i' else int(sub)
        v = v[k - 1] if 1 <= k <= len(v) else None
    return v


def lock_calls(t, params):
    """[(key or None for NULL, mode, what)] of the statement, in order; what: lock, try or unlock"""
    m = P_LOCKCASE.search(t)
    n = len(params[1] or params[0] or [])
    out = []
    for i in range(1, n + 1):
        null = lock_element(m.group(1), params, i) is None
        branch = m.group(3) if null != bool(m.group(2)) else m.group(4)
        f = P_LOCKCALL.search(branch)
        args = branch[f.end():branch.rindex(')')].split(',')
        vals = [lock_element(x, params, i) for x in args]
        key = None if None in vals else ('i8', vals[0]) if len(vals) == 1 else ('i4', vals[0], vals[1])
        out.append((key, 's' if f.group(3) else 'x', 'unlock' if f.group(2) else 'try' if f.group(1) else 'lock'))
    return out


def do_lock(be, key, mode, what):
    """one call of a locking function"""
    db = be.db
    if key is None:
        return None
    if what == 'try':
        return db.lock_try(key, mode, be)
    if what == 'unlock':
        ok = db.lock_release(key, mode, be)
        if not ok:
            be.notice('you don\'t own a lock of type %s' % mode, '01000', 'WARNING')
        db.sim.after(0, db.wake)
        return ok
    yield from acquire_one(be, key, mode)


def acquire_one(be, key, mode):
    """waits for the key"""
    db = be.db
    if True:
        if not db.lock_try(key, mode, be):
            e = db.locks[key]
            e['queue'].append((be, mode))
            be.sim.count('lock_waits')
            be.wait_key = (key, mode)
            t0 = be.sim.now
            dead = [False]

            def detect():
                if getattr(be, 'wait_key', None) == (key, mode) and deadlocked(db, be):
                    dead[0] = True
                    be.poke()
            be.sim.after(SEC, detect)

            def can():
                # no queue order: PostgreSQL lets waiters overtake when it resolves soft deadlocks
                return dead[0] or not db.lock_conflicts(key, mode, be)
            try:
                yield Wait(can, 'advisory lock')
            finally:
                be.wait_key = None
                e = db.locks.get(key)
                if e is not None:
                    e['queue'] = [q for q in e['queue'] if q[0] is not be]
                    if not e['holders'] and not e['queue']:
                        del db.locks[key]
            if dead[0]:
                be.sim.count('deadlocks')
                be.sim.after(0, db.wake)
                raise SQLError('40P01', 'deadlock detected')
            assert db.lock_try(key, mode, be)
            be.sim.after(0, db.wake)


def deadlocked(db, be):
    seen = set(); todo = [be]
    while todo:
        x = todo.pop()
        wk = getattr(x, 'wait_key', None)
        if wk is None:
            continue
        for o in db.lock_conflicts(wk[0], wk[1], x):
            if o is be:
                return True
            if o.pid not in seen:
                seen.add(o.pid)
                todo.append(o)
    return False


def plan_sys(b, t, orig):
    db = b.db
    if 'pg_advisory' in t or 'pg_try_advisory' in t:
        m = P_LOCKS.match(orig)
        if m:
            f = P_LOCKCALL.search(orig.lower())
            vals = [int(x) for x in m.group(2).split(',')]
            key = ('i8', vals[0]) if len(vals) == 1 else ('i4', vals[0], vals[1])

            def one(be, params):
                v = yield from do_lock(be, key, 's' if f.group(3) else 'x', 'unlock' if f.group(2) else 'try' if f.group(1) else 'lock')
                yield (v,)
            return Plan('rows', one, cols=[('lock', BOOL)])
        count = t.startswith('select count')

        def locks(be, params):
            n = 0
            for c in lock_calls(t, params):
                v = yield from do_lock(be, *c)
                n += 1
                if not count:
                    yield (v,)
            if count:
                yield (n,)
        return Plan('rows', locks, cols=[('acquired', INT8)] if count else [('result', BOOL)], oids=[INT4A, INT8A])
    if 'pg_stat_activity' in t and 'backend_start' in t:
        return Plan('rows', lambda be, params: [(b.opts.get('version', 'PostgreSQL 16.3 on sim'), '2024-01-01 00:00:00+00', None, None)],
                    cols=[('version', TEXT), ('backend_start', TEXT), ('client_addr', TEXT), ('client_port', INT4)])
    if 'set_config' in t:
        if 'generate_series' in t:
            def upd(be, params):
                be.need_tx()
                for kv in params[0] or []:
                    yield (kv[0], be.set_guc(kv[0], kv[1]))
            return Plan('rows', upd, cols=[('key', TEXT), ('value', TEXT)], oids=[TEXTA])

        def sc(be, params):
            be.need_tx()
            return [(be.set_guc(params[0], params[1]),)]
        return Plan('rows', sc, cols=[('set_config', TEXT)], oids=[TEXT, TEXT])
    if 'pg_settings' in t:
        def all_(be):
            return [(n, be.setting(n)) for n in sorted(db.defaults)]
        if 'any (' in t or 'any(' in t:
            return Plan('rows', lambda be, params: [(n, v) for n, v in all_(be) if n in (params[0] or [])],
                        cols=[('name', TEXT), ('setting', TEXT)], oids=[TEXTA])
        if 'name = $1' in t:
            if t.startswith('select name'):
                return Plan('rows', lambda be, params: [(n, v) for n, v in all_(be) if n == params[0]],
                            cols=[('name', TEXT), ('setting', TEXT)], oids=[TEXT])
            return Plan('rows', lambda be, params: [(v,) for n, v in all_(be) if n == params[0]], cols=[('setting', TEXT)], oids=[TEXT])
        if 'count(' in t:
            return Plan('rows', lambda be, params: [(len(db.defaults),)], cols=[('count', INT8)])
        if t.startswith('select name, setting'):
            return Plan('rows', lambda be, params: all_(be), cols=[('name', TEXT), ('setting', TEXT)])
        if t.startswith('select name'):
            return Plan('rows', lambda be, params: [(n,) for n, v in all_(be)], cols=[('name', TEXT)])
        if t.startswith('select setting'):
            return Plan('rows', lambda be, params: sorted([(v,) for n, v in all_(be)]), cols=[('setting', TEXT)])
    if 'pg_type bt' in t and 'bt.oid = $1' in t:
        def lt(be, params):
            x = pgserver.TYPES.get(params[0])
            if x is None:
                return []
            ae = x[4] if x[3] == -1 and x[4] in pgserver.TYPES else None
            return [(x[0], x[1], x[2], x[3], x[4], x[5], ae, True if ae else None, True if ae else None)]
        return Plan('rows', lt, cols=[('namespace', NAME), ('typname', NAME), ('typtype', pgserver.CHAR), ('typlen', pgserver.INT2), ('typelem', pgserver.OID),
                                      ('typrelid', pgserver.OID), ('ae_typid', pgserver.OID), ('ae_hasbin_input', BOOL), ('ae_hasbin_output', BOOL)], oids=[pgserver.OID])
    if 'pg_attribute a' in t and 'attrelid = $1' in t:
        def lc(be, params):
            for o, x in pgserver.TYPES.items():
                if x[5] == params[0]:
                    return [(a, n, False) for n, a in pgserver.FIELDS_OF[o]]
            return []
        return Plan('rows', lc, cols=[('atttypid', pgserver.OID), ('attname', TEXT), ('is_domain', BOOL)], oids=[pgserver.OID])
    if 'basetypid' in t and 'tt.oid = $1' in t:
        return Plan('rows', lambda be, params: [(pgserver.INT4 if params[0] == pgserver.DOMAIN else None,)], cols=[('basetypid', pgserver.OID)], oids=[pgserver.OID])
    if 'pg_listening_channels' in t:
        return Plan('rows', lambda be, params: [(c,) for c, L in db.listeners.items() if be in L], cols=[('channel', TEXT)])
    if 'pg_notify' in t:
        def nt(be, params):
            n = 0
            for kv in params[0] or []:
                be.need_tx().notifies.append((kv[0], kv[1] or ''))
                n += 1
            return [(n,)]
        return Plan('rows', nt, cols=[('count', INT8)], oids=[TEXTA])
    if 'pg_prepared_statements' in t:
        return Plan('rows', lambda be, params: [(be.stmts[params[0]].sql,)] if params[0] in be.stmts else [], cols=[('statement', TEXT)], oids=[TEXT])
    return None
