"""
A client session driven by a list of JSON operations, checked against a reference model.

The model is the set of generated results (genrow), the server's own committed and
in-transaction tables, and the log of what the server wrote (errors, notices, ...).
Rules that hold after every operation on a live connection:
  * success  -> the value is exactly the expected one, and no error the server has sent
                is still unreported;
  * failure  -> the error is one the server sent and nobody has reported yet (or the
                client-side error the operation asked for);
  * a stream -> a prefix of its rows, then either all of them or its own error.
"""
import gc, itertools
from .core import *
from . import client, pgserver, simsql
from .pgserver import genrow, copyline


def rowsql(g, par=False):
    """g = [n, tag, ncols, err_at, notice_at, bad_at]"""
    if par:
        return 'SELECT * FROM gen($1::int4, $2::int4, %d, $3::int4, $4::int4, $5::int4)' % g[2]
    return 'SELECT * FROM gen(%d, %d, %d, %d, %d, %d)' % tuple(g)


def parms(g):
    return (g[0], g[1], g[3], g[4], g[5])


def genall(g, upto=None):
    n = g[0]
    if g[3] >= 0:
        n = min(n, g[3])
    if upto is not None:
        n = min(n, upto)
    return [genrow(g[1], j, g[2]) for j in range(n)]


def genlines(g):
    return [copyline(r) for r in genall(g)]


def names(shape):
    return [c[0] for c in pgserver.gencols(shape)]


def G(n, tag, ncols=2, err=-1, notice=0, bad=-1):
    return [n, tag, ncols, err, notice, bad]


class Stream:
    """an open result on the client and what it must yield"""
    def __init__(self, kind, it, want, err, how, g):
        self.kind = kind        # 'row' | 'chunk'
        self.it = it
        self.want = want        # expected items in full
        self.err = err          # the result ends in an error after len(want) items
        self.pos = 0
        self.done = False       # yielded everything (StopIteration seen)
        self.failed = False     # raised
        self.how = how; self.g = g
        self.may_die = False    # its cursor may legitimately have vanished (transaction ended)


class Session:
    def __init__(self, env, db, backend, lossy=False, check_errors=True):
        self.env = env; self.sim = env.sim; self.db = db; self.b = backend; self.server = backend.db
        self.slots = {}
        self.stmts = {}
        self.transcript = []
        self.claimed = 0          # errors_sent entries reported so far
        self.claimed_set = set()
        self.lossy = lossy        # the connection may be broken by a fault
        self.dead = False
        self.was_closed = False   # by the application
        self.xacts = []
        self.nerr = 0
        self.nok = 0
        self.check_errors = check_errors
        self.last_err = None
        self.keep = []

    # ---------------------------------------------------------------- rules
    def note(self, *a):
        self.transcript.append(a)
        self.sim.log('op', *a)

    def fail(self, kind, *detail):
        raise Violation(kind, ' '.join(str(d) for d in detail))

    def lost(self):
        """did a connection-breaking fault fire on this connection (as far as the world knows)?"""
        c = self.b.conn
        return c.lost or c.srv_closed or self.b.closed or self.was_closed

    def claim(self, e, own=None):
        """a server error reached the application: it must be one the server sent"""
        sent = self.b.errors_sent
        for k in range(len(sent)):
            if k in self.claimed_set:
                continue
            code, m, sev = sent[k]
            if code == e.code and m == e.message:
                self.claimed_set.add(k)
                self.same_fields(e, k)
                return k
            break       # in order
        return None

    def same_fields(self, e, k):
        """the details of a reported error are those the server sent"""
        d = e.details or {}
        f = self.b.errors_fields[k]
        for key, name in (('D', 'detail'), ('H', 'hint'), ('W', 'context')):
            if d.get(name) != f.get(key):
                self.fail('wrong-error-fields', 'error %s %r: %s is %r instead of %r' % (e.code, e.message, name, d.get(name), f.get(key)))
        if d.get('severity') != self.b.errors_sent[k][2]:
            self.fail('wrong-error-fields', 'error %s %r: severity %r' % (e.code, e.message, d.get('severity')))

    def after(self, what, st, val, client_err=(), stream=False):
        """bookkeeping common to every operation; True if it may be treated as executed"""
        self.last_err = None
        if st == 'err':
            self.nerr += 1
            e = self.last_err = val
            if e.code in client_err and not self.db.closed:
                return False
            if self.lossy and self.lost():
                self.check_dead(what, e)
                return False
            k = self.claim(e)
            if k is None:
                self.fail('unexplained-error', '%s raised %s %s %r, which is not the next unreported server error %r' % (
                    what, type(e).__name__, e.code, e.message,
                    [x for i, x in enumerate(self.b.errors_sent) if i not in self.claimed_set][:2]))
            if self.db.closed and not self.lossy:
                self.fail('closed-after-error', '%s: the connection is closed after a plain error %s' % (what, e.code))
            self.sync_check(what)
            return False
        self.nok += 1
        if self.dead and not stream:
            self.fail('success-on-dead-connection', what)
        self.sync_check(what)
        return True

    def busy(self):
        return self.db.state == 'busy'

    def sync_check(self, what):
        if not self.check_errors or self.dead or self.db.closed or (self.lossy and self.lost()):
            return
        st = self.db.state
        if st == 'busy':
            return
        left = [x for i, x in enumerate(self.b.errors_sent) if i not in self.claimed_set]
        if left:
            self.fail('error-swallowed', 'after %s the server error %r has been reported by nothing' % (what, left[0]))
        t = self.b.tx
        want = 'idle' if t is None else ('failed block' if self.b.failed else 'idle in block')
        if st != want:
            self.fail('transaction-status', 'after %s the connection says %r, the server is %r' % (what, st, want))

    def check_dead(self, what, e):
        """an operation failed on a connection that the world knows to be broken"""
        if self.dead:
            if not self.db.closed:
                self.fail('closed-reopened', '%s: the connection no longer says it is closed' % what)
            return
        k = self.claim(e)
        if k is not None and self.b.errors_sent[k][2] == 'ERROR' and not self.db.closed:
            return          # an ordinary error that arrived before the break
        if not self.db.closed:
            self.fail('not-closed', '%s raised %s %r because the connection broke, but the connection does not say it is closed' % (what, e.code, e.message))
        if self.db.state != 'closed':
            self.fail('not-closed', '%s: connection state is %r after it broke' % (what, self.db.state))
        self.dead = True
        self.dead_error = e

    # ---------------------------------------------------------------- comparing
    def same_rows(self, what, got, want, cols=None):
        if len(got) != len(want):
            self.fail('wrong-row-count', '%s: %d rows instead of %d; first difference %s' % (what, len(got), len(want), self.diff(got, want)))
        for k, (a, w) in enumerate(zip(got, want)):
            if tuple(a) != tuple(w):
                self.fail('wrong-row', '%s: row %d is %r instead of %r' % (what, k, tuple(a), w))
        if cols and got:
            r = got[0]
            if hasattr(r, 'column_names'):
                if list(r.column_names) != cols:
                    self.fail('wrong-columns', '%s: columns %r instead of %r' % (what, list(r.column_names), cols))
                for c, v in zip(cols, want[0]):
                    if r[c] != v:
                        self.fail('wrong-column-value', '%s: row[%r] is %r instead of %r' % (what, c, r[c], v))

    def diff(self, got, want):
        for k, (a, w) in enumerate(zip(got, want)):
            if (tuple(a) if isinstance(a, tuple) else a) != (tuple(w) if isinstance(w, tuple) else w):
                return 'at %d: %.120r instead of %.120r' % (k, a, w)
        n = min(len(got), len(want))
        return 'at %d: %.120r instead of %.120r' % (n, got[n:n + 1], want[n:n + 1])

    # ---------------------------------------------------------------- statements
    def stmt(self, op):
        """the prepared statement an operation uses"""
        g = op['g']
        par = bool(op.get('par'))
        sql = rowsql(g, par)
        slot = op.get('st')
        key = (slot, sql)
        if slot is not None and key in self.stmts:
            return self.stmts[key], (parms(g) if par else ())
        s = self.db.prepare(sql)
        if slot is not None:
            for k in [k for k in self.stmts if k[0] == slot]:
                del self.stmts[k]
            self.stmts[key] = s
        return s, (parms(g) if par else ())

    # ---------------------------------------------------------------- operations
    def do(self, op):
        f = getattr(self, 'op_' + op['op'])
        self.sim.mark('<' + op['op'] + op.get('how', '') + '>')
        return f(op)

    def run(self, ops):
        for op in ops:
            self.do(op)

    def op_q(self, op):
        """a complete read"""
        g = op['g']; how = op['how']; par = bool(op.get('par'))
        want = genall(g)
        errs = g[3] >= 0 and g[3] < g[0]
        cols = names(g[2])
        what = 'q/%s/%s' % (how, g)
        first = how in ('first', '.first')
        column = how in ('column', '.column')
        bad = g[5] == 0 if first else 0 <= g[5] < g[0]

        def go():
            if how == 'query':
                return self.db.query(rowsql(g, par), *(parms(g) if par else ()))
            if how[0] == '.':
                f = getattr(self.db.query, how[1:])(rowsql(g, par), *(parms(g) if par else ()))
                if how == '.first':
                    return f
                if how == '.declare':
                    return f.read()
                return [r for c in f for r in c] if how == '.chunks' else list(f)
            s, a = self.stmt(op)
            if how == 'declare':
                return s.declare(*a).read()
            if how == 'call':
                return s(*a)
            if how == 'rows':
                return list(s.rows(*a))
            if how == 'iter':
                return list(s) if not par else list(s.rows(*a))
            if how == 'chunks':
                out = []
                for c in s.chunks(*a):
                    if len(c) == 0:
                        pass
                    out.extend(c)
                return out
            if how == 'column':
                return list(s.column(*a))
            if how == 'first':
                return s.first(*a)
            raise HarnessError(how)
        st, val = client.call(go)
        if not self.after(what, st, val, client_err=('--CIO',) if bad else ()):
            self.note('q', how, g, 'err', val.code)
            return
        if bad:
            self.fail('bad-value-became-result', '%s returned %.200r although row %d cannot be decoded' % (what, val, g[5]))
        if errs:
            self.fail('error-became-result', '%s returned %.200r although the server reported an error at row %d' % (what, val, g[3]))
        if first:
            w = want[0] if want else None
            one = len(names(g[2])) == 1
            if one and w is not None:
                w = w[0]
            if not one and val is not None:
                if cols and list(val.column_names) != cols:
                    self.fail('wrong-columns', '%s: columns %r instead of %r' % (what, list(val.column_names), cols))
                val = tuple(val)
            if val != w:
                self.fail('wrong-row', '%s: %r instead of %r' % (what, val, w))
            self.note('q', how, g, val)
            return
        if column:
            w = [r[0] for r in want]
            if list(val) != w:
                self.fail('wrong-row-count' if len(val) != len(w) else 'wrong-row', '%s: %s' % (what, self.diff(val, w)))
            self.note('q', how, g, len(val))
            return
        self.same_rows(what, val, want, cols if how not in ('chunks', '.chunks') else None)
        self.note('q', how, g, len(val))

    def op_open(self, op):
        """start a result to be consumed step by step"""
        g = op['g']; how = op['how']; slot = op['s']
        if slot in self.slots:
            self.op_drop({'s': slot})
        errs = 0 <= g[3] < g[0]
        want = genall(g)
        what = 'open/%s/%s' % (how, g)

        def go():
            if how in ('copy', 'copychunks'):
                s = self.db.prepare('COPY (%s) TO STDOUT' % rowsql(g))
                return iter(s.chunks()) if how == 'copychunks' else iter(s.rows())
            s, a = self.stmt(op)
            if how == 'rows':
                return iter(s.rows(*a))
            if how == 'chunks':
                return iter(s.chunks(*a))
            if how == 'column':
                return iter(s.column(*a))
            if how == 'declare':
                return s.declare(*a)
            if how in ('sid', 'sidchunks', 'sidcol'):
                # statement of unknown source: streamed in one exchange
                sid = 'st_%d' % op['s']
                x = self.db.prepare(rowsql(g), statement_id=sid)
                s2 = self.db.statement_from_id(sid)
                it = iter({'sid': s2.rows, 'sidchunks': s2.chunks, 'sidcol': s2.column}[how]())
                self.keep.append((x, s2))
                return it
            raise HarnessError(how)
        st, val = client.call(go)
        self.note('open', how, g, st if st == 'ok' else val.code)
        if how in ('copy', 'copychunks'):
            want = [copyline(r) for r in want]
        elif how in ('column', 'sidcol'):
            want = [r[0] for r in want]
        if not self.after(what, st, val):
            return
        s = Stream('chunk' if 'chunks' in how else ('cursor' if how == 'declare' else 'row'), val, want, errs, how, g)
        s.in_tx = self.b.tx is not None and not self.b.tx.implicit
        s.tx = self.b.tx if s.in_tx else None
        self.slots[slot] = s

    def op_step(self, op):
        s = self.slots.get(op['s'])
        if s is None:
            return
        k = op.get('k', 1)
        if s.kind == 'cursor':
            return self.step_cursor(s, k)
        for _ in range(k):
            if s.failed or s.done:
                break
            self.step1(op['s'], s)

    def step_cursor(self, s, k):
        if s.failed:
            return
        what = 'cursor read %d %s' % (k, s.g)
        st, val = client.call(s.it.read, k)
        if not self.after(what, st, val, client_err=('--CIO',) if s.pos <= s.g[5] < s.pos + k else ()):
            self.note('read', s.g, 'err', val.code)
            s.failed = not self.foreign(s, val)
            return
        w = s.want[s.pos:s.pos + k]
        if s.err and s.pos + k > len(s.want):
            self.fail('error-became-result', '%s returned %r' % (what, val))
        self.same_rows(what, val, w)
        s.pos += len(w)
        self.note('read', s.g, s.pos)

    def step1(self, slot, s):
        what = 'step of %s/%s at %d' % (s.how, s.g, s.pos)

        def go():
            try:
                return (next(s.it),)
            except StopIteration:
                return None
        st, val = client.call(go)
        if st == 'err':
            s.failed = True
            if self.lossy and self.lost():
                self.note('step', s.g, 'err')
                if self.db.closed or not self.own_error(s, val):
                    self.after(what, st, val)
                return
            if val.code == '--CIO' and 0 <= s.g[5] < s.g[0]:
                if s.pos > s.g[5]:
                    self.fail('unexplained-error', '%s: --CIO after the undecodable row %d' % (what, s.g[5]))
                self.sync_check(what)
                self.note('step', s.how, s.g, 'bad')
                return
            k = self.claim(val)
            if k is None:
                # its own error may have been reported by another operation that had to read it
                if not self.own_error(s, val):
                    self.fail('unexplained-error', '%s raised %s %r which the server never sent' % (what, val.code, val.message))
            elif s.kind == 'chunk' and self.foreign(s, val):
                s.failed = False        # the stream goes on where it was
            self.nerr += 1
            self.sync_check(what)
            self.note('step', s.how, s.g, 'err', val.code)
            return
        if val is None:
            if s.pos != len(s.want) or s.err or 0 <= s.g[5] < s.g[0]:
                self.fail('short-result', '%s: the stream ended after %d of %d items%s' % (what, s.pos, len(s.want), ' (and an error)' if s.err else ''))
            s.done = True
            self.after(what, 'ok', None, stream=True)
            self.note('end', s.how, s.g)
            return
        val = val[0]
        if s.kind == 'chunk':
            n = len(val)
            w = s.want[s.pos:s.pos + n]
            if len(w) != n:
                self.fail('wrong-row-count', '%s: %d items more than the result has' % (what, n - len(w)))
            for a, b in zip(val, w):
                if (tuple(a) if isinstance(b, tuple) else bytes(a)) != b:
                    self.fail('wrong-row', '%s: %.200r instead of %.200r' % (what, a, b))
            s.pos += n
        else:
            if s.pos >= len(s.want):
                self.fail('wrong-row-count', '%s: item %.200r after the end of the result' % (what, val))
            b = s.want[s.pos]
            a = tuple(val) if isinstance(b, tuple) else val
            if a != b:
                self.fail('wrong-row', '%s: %.200r instead of %.200r' % (what, a, b))
            s.pos += 1
        self.after(what, 'ok', None, stream=True)

    def foreign(self, s, e):
        """the error is certainly not one of the stream's own requests"""
        if self.lossy or s.err or s.in_tx or self.b.tx is not None or self.b.failed or self.db.closed or e.code not in ('22012', '23505'):
            return False
        if 0 <= s.g[5] < s.g[0]:
            return False
        self.env.probe('foreign_error')
        return True

    def own_error(self, s, e):
        """an error that was reported before, by an operation that had to read it"""
        return (e.code, e.message) in [(x[0], x[1]) for i, x in enumerate(self.b.errors_sent) if i in self.claimed_set]

    def op_drain(self, op):
        s = self.slots.get(op['s'])
        if s is None:
            return
        if s.kind == 'cursor':
            if not s.failed:
                st, val = client.call(s.it.read)
                if not self.after('cursor read all %s' % s.g, st, val, client_err=('--CIO',) if s.pos <= s.g[5] else ()):
                    s.failed = True
                    self.note('drain', s.g, 'err')
                    return
                if s.err:
                    self.fail('error-became-result', 'reading all of %s' % s.g)
                self.same_rows('cursor read all %s' % s.g, val, s.want[s.pos:])
                s.pos = len(s.want)
                self.note('drain', s.g, s.pos)
            return
        n = 0
        while not (s.failed or s.done):
            self.step1(op['s'], s)
            n += 1
            if n > len(s.want) + 400:
                self.fail('endless-stream', s.g)
        if s.done:
            # stays at the end
            st, val = client.call(lambda: next(s.it, None))
            if st == 'ok' and val is not None:
                self.fail('wrong-row-count', '%s yields %.100r after its end' % (s.g, val))

    def op_close(self, op):
        s = self.slots.get(op['s'])
        if s is None or s.kind == 'row' or not hasattr(s.it, 'close'):
            return
        s.it.close()
        del self.slots[op['s']]
        self.note('close')

    def op_drop(self, op):
        s = self.slots.pop(op['s'], None)
        if s is not None:
            s.it = None
        self.note('drop')

    def op_gc(self, op):
        gc.collect()

    def op_wait(self, op):
        self.sim.block(lambda: False, op['us'], 'idle')

    def op_ex(self, op):
        st, val = client.call(self.db.execute, op['sql'])
        self.after('execute ' + op['sql'][:60], st, val)
        self.note('ex', op['sql'], st if st == 'ok' else val.code)
        return st

    def op_tx(self, op):
        """transaction control by hand: begin, commit, rollback"""
        sql = {'begin': 'START TRANSACTION', 'commit': 'COMMIT', 'rollback': 'ROLLBACK'}[op['how']]
        intx = self.b.xtx is not None
        if (op['how'] == 'begin') == intx:
            return
        st, val = client.call(self.db.execute, sql)
        self.after(sql, st, val)
        self.note('tx', sql, st if st == 'ok' else val.code)

    def check_modes(self, what, op):
        """the transaction just started is what was asked for"""
        t = self.b.xtx
        if (t.isolation or '') != (op.get('isolation') or '').upper() or t.readonly != ((op.get('mode') or '').upper() == 'READ ONLY'):
            self.fail('wrong-mode', '%s: asked for %r %r, the server was told %r %s' % (what, op.get('isolation'), op.get('mode'), t.isolation, 'READ ONLY' if t.readonly else 'READ WRITE'))

    def snapshot(self):
        """what this session would see in every table, committed or not"""
        t = self.b.tx
        return {k: dict(t.view(k) if t is not None else v) for k, v in self.server.tables.items()}

    def op_block(self, op):
        """with db.xact(): body.  end: ok | raise | propagate; type/isolation options"""
        sim = self.sim
        depth0 = len(self.b.xtx.saves) if self.b.xtx is not None else None
        intx = self.b.xtx is not None
        before = self.snapshot()
        failed0 = self.b.failed
        boom = AppError('leaving the block')
        st = {'entered': False, 'end': None, 'body': None}
        lost0 = self.lossy and self.lost()
        commits0 = len(self.server.commit_log)
        what = 'block(depth %d, end %s)' % (depth0 if intx else -1, op.get('end', 'ok'))
        kw = {k: op[k] for k in ('isolation', 'mode') if op.get(k)}

        def go():
            try:
                with self.db.xact(**kw):
                    st['entered'] = True
                    self.note('block', op.get('end'))
                    if not self.dead and (self.b.tx is None or self.b.tx.implicit) and not self.lost():
                        self.fail('no-transaction', what + ' was entered but the server has no transaction')
                    if not intx and self.b.xtx is not None:
                        self.check_modes(what, op)
                    for o in op['body']:
                        self.do(o)
                        if op.get('end') == 'propagate' and self.last_err is not None:
                            raise self.last_err
                    if op.get('end') == 'raise':
                        raise boom
                    if not self.busy():
                        st['end'] = self.snapshot() if self.b.xtx is not None else None
                    else:
                        st['end'] = 'busy'
                    st['failed'] = self.b.failed
                return 'left'
            except AppError as e:
                if e is boom:
                    return e
                raise
        try:
            rst, val = client.call(go)
        except AppError as e:
            # from an outer level: cannot be
            raise HarnessError('stray AppError')
        if val is boom or (st['entered'] and rst == 'err' and op.get('end') == 'propagate' and val is self.last_err):
            # the exception that leaves the block is what the application gets; what was pending is undone with it
            self.sync_after_source(what)
        swallowed = st['entered'] and st.get('failed') and rst == 'err' and val.code == '25P02' and self.claim(val) is None
        if swallowed:
            # the exit raised for what the block swallowed; the error of a request that was still under way goes with it
            self.sync_after_source(what)
        alive = not (self.lossy and self.lost())
        if val is boom:
            self.last_err = None
        elif rst == 'err':
            if not swallowed and not (op.get('end') == 'propagate' and val is self.last_err):
                self.after(what + ' exit', rst, val, client_err=('--OPE',) if kw and (intx or lost0) else ())
            self.last_err = val
        else:
            self.last_err = None
            if self.dead:
                self.fail('success-on-dead-connection', what)
        self.note('block end', 'boom' if val is boom else rst)
        if rst == 'ok' and val == 'left':
            if op.get('end') == 'raise':
                self.fail('exception-swallowed', what)
            # committed
            if not alive:
                if not intx and st['end'] not in (None, 'busy'):
                    if len(self.server.commit_log) == commits0 and st['end'] != before:
                        self.fail('commit-not-done', '%s was left without an error but the server committed nothing' % what)
                return
            if st['end'] == 'busy':
                pass
            elif self.snapshot() != st['end']:
                self.fail('wrong-effects', '%s: after a normal exit the effects are not those of the block' % what)
            if st.get('failed') is True and st['end'] != 'busy':
                self.fail('failed-block-committed', '%s: the transaction had failed and the exit did not raise' % what)
            if not intx and self.b.xtx is not None:
                self.fail('transaction-left-open', '%s: after a normal exit' % what)
            if intx and (self.b.xtx is None or len(self.b.tx.saves) != depth0):
                self.fail('savepoint-left', '%s: after a normal exit' % what)
            self.sync_check(what)
            return
        # raised
        if not alive or self.dead:
            return
        if not st['entered']:
            if intx != (self.b.xtx is not None):
                self.fail('transaction-left-open', '%s could not be entered' % what)
            return
        if not intx and self.b.xtx is not None:
            self.fail('transaction-left-open', '%s ended with %r and a transaction is still open' % (what, val))
        if intx:
            if self.b.xtx is None:
                self.fail('outer-transaction-lost', '%s ended with %r and the enclosing transaction is gone' % (what, val))
            if len(self.b.tx.saves) != depth0:
                self.fail('savepoint-left', '%s ended with %r and has left a savepoint' % (what, val))
            if self.b.failed and not failed0:
                self.fail('enclosing-block-failed', '%s ended with %r and the enclosing block is in a failed state' % (what, val))
        if self.snapshot() != before:
            self.fail('not-rolled-back', '%s ended with %r but its effects are there' % (what, val))
        self.sync_check(what)

    def op_cmd(self, op):
        """a prepared statement without rows; reports its count"""
        st, val = client.call(lambda: self.db.prepare(op['sql'])(*op.get('a', ())))
        if self.after('cmd ' + op['sql'][:60], st, val):
            if 'want' in op and list(val) != op['want']:
                self.fail('wrong-count', '%s returned %r instead of %r' % (op['sql'], val, op['want']))
        self.note('cmd', op['sql'], val if st == 'ok' else val.code)

    def view(self, table):
        """what a SELECT on this connection sees now"""
        t = self.b.tx
        rows = (t.view(table) if t is not None else self.server.tables[table]).values()
        return sorted(rows, key=lambda r: r[0])

    def op_put(self, op):
        """insert one row; how: call | first | query"""
        how = op.get('how', 'call'); k = op['k']; v = op['v']; table = op.get('t', 'kv')
        self.sync_view = None
        dup = None

        def go():
            s = 'INSERT INTO %s VALUES ($1, $2)' % table
            if how == 'query':
                return self.db.query(s, k, v)
            p = self.db.prepare(s)
            return p(k, v) if how == 'call' else p.first(k, v)
        before = self.has(table, k, v)
        intx = self.b.xtx is not None
        st, val = client.call(go)
        if self.after('put/%s %d' % (how, k), st, val):
            want = 1 if how == 'first' else ('INSERT', 1)
            if val != want:
                self.fail('wrong-count', 'insert reported %r instead of %r' % (val, want))
            # (the end of the session may have undone it meanwhile)
            if not self.has(table, k, v) and not (intx and self.lossy and self.lost()):
                self.fail('lost-write', 'the insert of %d returned but the row is not there' % k)
        elif not self.dead and not before and not self.busy() and self.has(table, k, v):
            self.fail('error-but-applied', 'the insert of %d raised %s but the row is there' % (k, val.code))
        self.note('put', k, st if st == 'ok' else val.code)

    def has(self, table, k, v):
        t = self.b.tx
        view = t.view(table) if t is not None else self.server.tables[table]
        return view.get(k) == (k, v)

    def op_sel(self, op):
        table = op.get('t', 'kv')
        how = op.get('how', 'call')

        def go():
            s = self.db.prepare('SELECT k, v FROM %s ORDER BY k' % table)
            if how == 'call':
                return s()
            if how == 'rows':
                return list(s.rows())
            return [r for c in s.chunks() for r in c]
        intx = self.b.xtx is not None
        st, val = client.call(go)
        if self.after('sel', st, val) and not (intx and self.lossy and self.lost()):
            self.same_rows('select %s' % table, val, self.view(table))
        self.note('sel', st if st == 'ok' else val.code, len(val) if st == 'ok' else '')

    def op_copyout(self, op):
        """a complete COPY TO STDOUT"""
        g = op['g']; how = op['how']
        what = 'copyout/%s/%s' % (how, g)
        want = genlines(g)
        errs = 0 <= g[3] < g[0]

        def go():
            s = self.db.prepare('COPY (%s) TO STDOUT' % rowsql(g))
            if how == 'call':
                return s()
            if how == 'rows':
                return list(s.rows())
            if how == 'chunks':
                return [l for c in s.chunks() for l in c]
            if how == 'iter':
                return list(s)
            raise HarnessError(how)
        st, val = client.call(go)
        if self.after(what, st, val):
            if errs:
                self.fail('error-became-result', '%s returned %d lines' % (what, len(val)))
            val = list(val)
            if val != want:
                self.fail('wrong-copy-lines', '%s: %d lines instead of %d; %s' % (what, len(val), len(want), self.diff(val, want)))
        self.note('copyout', how, g, st if st == 'ok' else val.code)

    def op_copyin(self, op):
        """COPY FROM STDIN; lines: n, sizes, bad (line number the server rejects), src (chunk at which the source raises)"""
        n = op['n']; table = op.get('t', 'lines'); cs = max(1, op.get('cs', 7)); tag = op['tag']
        bad = op.get('bad', -1); src = op.get('src', -1); how = op.get('how', 'chunks')
        lines = copy_lines(n, tag, bad)
        server = self.server
        before = {k for k in server.tables[table]} | (set(self.b.tx.view(table)) if self.b.tx is not None else set())
        inner = op.get('inner', -1)
        boom = SourceError('source %d' % tag)
        said = []
        intx = self.b.xtx is not None

        def ask():
            # the source uses the connection that is busy with its COPY, and ignores what that gives
            said.append(client.call(lambda: self.db.query.first('SELECT 1')))

        def chunks():
            for j, a in enumerate(range(0, n, cs)):
                if j == src:
                    raise boom
                if j == inner:
                    ask()
                yield lines[a:a + cs]
            if inner >= 0 and inner * cs >= n:
                ask()
            if src * cs >= n and src >= 0:
                raise boom

        def rows():
            for j, l in enumerate(lines):
                if j == src:
                    raise boom
                yield l
            if src >= n:
                raise boom

        def go():
            s = self.db.prepare('COPY %s FROM STDIN' % table)
            try:
                if how == 'chunks':
                    return s.load_chunks(chunks())
                return s.load_rows(rows(), chunksize=cs)
            except SourceError as e:
                if e is not boom:
                    raise HarnessError('source error')
                return e
        what = 'copyin %s' % {k: v for k, v in op.items() if k != 'op'}
        st, val = client.call(go)
        if val is boom:
            if src < 0:
                self.fail('unexpected-error', what)
            self.sync_after_source(what)
            ok = False
        else:
            if said:
                # the COPY was ended by the source itself
                self.sync_after_source(what)
                ok = st == 'ok'
                if not ok and not (val.code == '57014' or (self.lossy and self.lost()) or self.own_error(None, val)):
                    self.fail('unexplained-error', '%s raised %s %r' % (what, val.code, val.message))
                if not ok and self.db.closed:
                    self.check_dead(what, val)
            else:
                ok = self.after(what, st, val)
        if self.dead:
            stored = [r for r in server.tables[table].values() if r[0] not in before and r[1].startswith(b'%d|' % tag)]
            if len(stored) not in (0, n):
                self.fail('partial-load', '%s: the connection was lost and %d of %d lines are stored' % (what, len(stored), n))
            self.note('copyin', 'dead')
            return
        t = self.b.tx
        if ok and self.lossy and self.lost() and intx:
            return
        if ok:
            if src >= 0:
                self.fail('source-error-swallowed', what)
            if bad >= 0 and bad < n:
                self.fail('error-swallowed', what)
            now = [r for r in self.view(table) if r[0] not in before]
            got = [r[1] for r in now]
            want = [l[:-1] for l in lines]
            if got != want:
                self.fail('wrong-load', '%s: %d lines stored instead of %d: %s' % (what, len(got), len(want), self.diff(got, want)))
        else:
            if not self.db.closed:
                self.probe_alive(what)
            stored = [r for r in server.tables[table].values() if r[0] not in before and r[1].startswith(b'%d|' % tag)]
            vis = [r for r in (self.b.tx.view(table).values() if self.b.tx is not None and not self.b.failed else []) if r[0] not in before and r[1].startswith(b'%d|' % tag)]
            if stored or vis:
                self.fail('partial-load', '%s: the load failed but %d lines are stored' % (what, len(stored) or len(vis)))
        self.note('copyin', op, 'ok' if ok else 'err')

    def sync_after_source(self, what):
        """the source's own exception is what the application gets for this COPY, whatever the server said about it"""
        self.claimed_set.update(range(len(self.b.errors_sent)))

    def probe_alive(self, what):
        """the connection must be usable at once"""
        if self.b.failed:
            return
        n0 = len(self.b.errors_sent)
        st, val = client.call(lambda: self.db.query.first('SELECT 1'))
        # a COPY failed by the driver is reported by the source's exception, not again
        if st == 'err':
            if self.lossy and self.lost():
                return
            t = self.b.tx
            if val.code == '25P02' and self.b.failed:
                self.claim(val)
                return
            k = self.claim(val)
            if k is not None and k >= n0 and val.message.startswith('injected'):
                return          # a fault of its own
            self.fail('leftover-error', '%s: the next operation raised %s %r' % (what, val.code, val.message))
        if val != 1:
            self.fail('wrong-row', 'after %s SELECT 1 returned %r' % (what, val))
        self.sync_check('the operation after ' + what)

    def op_load(self, op):
        """parameterised bulk load; bad: row whose packing fails, dup: row the server rejects, src: source raises before that row"""
        n = op['n']; cs = op.get('cs', 256); base = op['base']; table = op.get('t', 'kv')
        bad = op.get('bad', -1); dup = op.get('dup', -1); src = op.get('src', -1); how = op.get('how', 'rows')
        boom = SourceError('rows %d' % base)
        if n == 0:
            dup = bad = -1
        keys = []
        for j in range(n):
            k = base + j
            if j == dup:
                k = base          # already inserted by row 0 (or equal to it)
            keys.append(k)

        def row(j):
            if j == bad:
                return ('not a number', 'v%d' % j)
            return (keys[j], 'v%d' % j)

        def rows():
            for j in range(n):
                if j == src:
                    raise boom
                yield row(j)
            if src >= n:
                raise boom

        def chunks():
            for a in range(0, n, cs):
                if src >= 0 and a <= src < a + cs:
                    raise boom
                yield [row(j) for j in range(a, min(n, a + cs))]
            if src >= n:
                raise boom

        def go():
            s = self.db.prepare('INSERT INTO %s VALUES ($1, $2)' % table)
            try:
                if how == 'rows':
                    return s.load_rows(rows(), chunksize=cs)
                return s.load_chunks(chunks())
            except SourceError as e:
                return e
        what = 'load %s' % {k: v for k, v in op.items() if k != 'op'}
        h0 = len(self.server.history)
        intx = self.b.xtx is not None
        st, val = client.call(go)
        if val is boom:
            ok = False
            if src < 0:
                self.fail('unexpected-error', what)
            self.sync_after_source(what)
        else:
            if st == 'err' and val.code == '--PIO':
                self.sync_after_source(what)
            ok = self.after(what, st, val, client_err=('--PIO',) if bad >= 0 else ())
            if not ok and val.code == '--PIO' and bad < 0:
                self.fail('unexplained-error', what)
        self.note('load', {k: v for k, v in op.items()}, 'ok' if ok else 'err')
        if self.dead:
            return
        return ok, boom if val is boom else val

    def op_say(self, op):
        st, val = client.call(lambda: self.db.query.first("SELECT say('%s', '%s', '%s')" % (op['code'], op['text'], op['sev'])))
        if self.after('say', st, val):
            if val != 1:
                self.fail('wrong-row', 'say returned %r' % (val,))
        self.note('say', st)

    def op_raise(self, op):
        how = op.get('how', 'query')
        sql = "SELECT raise('%s', '%s')" % (op['code'], op['text'])

        def go():
            if how == 'query':
                return self.db.query(sql)
            if how == 'ex':
                return self.db.execute(sql)
            if how == 'first':
                return self.db.prepare(sql).first()
            if how == 'rows':
                return list(self.db.prepare(sql).rows())
            if how == 'syntax':
                return self.db.prepare('SELEC ' + op['text'])
            raise HarnessError(how)
        st, val = client.call(go)
        if self.after('raise/' + how, st, val):
            self.fail('error-became-result', 'raise/%s returned %r' % (how, val))
        self.note('raise', how, val.code)

    def op_set(self, op):
        st, val = client.call(self.db.settings.__setitem__, op['k'], op['v'])
        self.after('set %s' % op['k'], st, val)
        self.note('set', op['k'], st)

    # final check: nothing is left over
    def finish(self):
        if self.dead or self.db.closed:
            return
        for s in sorted(self.slots):
            self.op_drop({'s': s})
        st, val = client.call(lambda: self.db.query.first('SELECT 1'))
        if self.b.failed or (st == 'err' and val.code == '25P02'):
            self.after('final', st, val)
            return
        if self.after('final', st, val) and val != 1:
            self.fail('wrong-row', 'final SELECT 1 returned %r' % (val,))


class SourceError(Exception):
    pass


class AppError(Exception):
    pass


def copy_lines(n, tag, bad=-1):
    out = []
    for j in range(n):
        if j == bad:
            out.append(b'!bad %d\n' % j)
        else:
            r = (tag * 7919 + j * 104729) & 0xFFFF
            size = (0, 3, 17, 60, 5, 900, 2, 33)[r % 8]
            if r % 97 < 3:
                size = 20000 if r % 97 else 65440 + r % 200
            out.append(b'%d|%d|' % (tag, j) + b'x' * size + b'\n')
    return out
