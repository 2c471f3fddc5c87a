"""C27: a stored procedure object is the function it names."""
import random, re
from sim.core import *
from sim import client, wl, pgserver, pgtypes
from sim.pgserver import SQLError, Plan
from sim.pgtypes import Universe, Typed, same, Array, TextOnly

PROP = 'C27'
RULE = ('one evaluation = one seeded session over a database with its own functions (overloaded, in several schemas, with named, unnamed, OUT, INOUT and '
        'TABLE arguments of random types, returning values, rows or sets of them), making procedure objects by signature and by oid and calling '
        'them with positional and keyword arguments, with set results read on between other operations, errors injected at any exchange, functions '
        'that fail after some rows, transactions and lost connections; distinct non-trivial = distinct sequences of operations, replies and reads '
        'among runs in which a function was executed')
RUNS = {'quick': 12000, 'thorough': 200000}
REAL = ['postgresql.driver.pq3 (StoredProcedure, Connection.proc, PreparedStatement, streams, TypeIO)', 'postgresql.lib (procedure and type look-ups)',
        'postgresql.types.*', 'postgresql.protocol.*']
STUB = ['server (simulated backend with pg_proc, function name resolution and the functions)', 'socket, clock (simulated)']
ASSUMPTIONS = ['functions are not altered or dropped while a procedure object refers to them', 'no variadic functions and no functions returning record without OUT arguments',
               'all arguments are given (defaults of the function are not used)', 'one thread uses a connection at a time']
PROBES = ['scalar', 'comp', 'set', 'setcomp', 'void', 'keyword', 'overload', 'byoid', 'out', 'badcall', 'nofunc', 'midset', 'mid_error', 'lookup_error', 'in_tx', 'cut', 'usertype', 'retried']
VARIANTS = ('c', 'py')
FNAMES = ['f', 'g', 'G g', 'sn\u00f6', 'a"b', 'UP', 'a.b', 'select']
ANAMES = ['a', 'b', 'C c', '\u00e4', 'x', 'y', 'kw', 'args']
SCHEMAS = ['public', 'My Schema', 's2']
SIMPLE = ['int4', 'text', 'bool', 'int8', 'numeric', 'timestamptz', 'date', 'bytea', 'float8', 'uuid', 'int4', 'text', 'int4']
ALIAS = {'integer': 'int4', 'int': 'int4', 'smallint': 'int2', 'bigint': 'int8', 'real': 'float4', 'double precision': 'float8', 'boolean': 'bool', 'decimal': 'numeric',
         'character varying': 'varchar', 'character': 'bpchar', 'bit varying': 'varbit', 'time without time zone': 'time', 'time with time zone': 'timetz',
         'timestamp without time zone': 'timestamp', 'timestamp with time zone': 'timestamptz', 'dec': 'numeric', 'float': 'float8'}


def gen(rng, tier):
    nt = rng.choice([0, 0, 1, 3])
    types = []
    for k in range(nt):
        d = {'name': rng.randrange(60), 'nsp': rng.choice([0, 0, 1]), 'k': rng.choice(['enum', 'domain', 'comp'])}
        if d['k'] == 'domain':
            d['of'] = rng.choice(SIMPLE)
        elif d['k'] == 'comp':
            d['f'] = [[rng.randrange(10), rng.choice(SIMPLE)] for _ in range(rng.choice([1, 2, 3]))]
        types.append(d)

    def ty():
        x = rng.random()
        if nt and x < 0.2:
            return rng.randrange(nt)
        if x < 0.3:
            return rng.choice(['int4[]', 'text[]', 'numeric[]'])
        return rng.choice(SIMPLE)
    chunk = rng.choice(wl.CHUNKSIZES + (None,))
    c = chunk or 4
    fns = []
    for _ in range(rng.randrange(1, 7)):
        f = {'n': rng.choice([0, 0, 0, 1] + list(range(len(FNAMES)))), 's': rng.choice([0, 0, 0, 1, 2])}
        f['o'] = rng.choice(['scalar', 'scalar', 'out', 'out', 'ctype', 'table', 'void'])
        f['set'] = 1 if f['o'] == 'table' or f['o'] != 'void' and rng.random() < 0.5 else 0
        a = []
        names = list(range(len(ANAMES)))
        rng.shuffle(names)
        named = rng.choice([0, 1, 1, 2])
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            a.append(['i', names.pop() if names and (named == 1 or named == 2 and rng.random() < 0.6) else -1, ty()])
        if f['o'] == 'out':
            for _ in range(rng.choice([1, 1, 2, 3])):
                a.insert(rng.randrange(len(a) + 1), [rng.choice(['o', 'o', 'b']), names.pop() if names else -1, ty()])
        elif f['o'] == 'table':
            for _ in range(rng.choice([1, 2, 3])):
                a.append(['t', names.pop() if names else -1, ty()])
        else:
            f['r'] = [ty() for _ in range(rng.choice([1, 2, 4]) if f['o'] == 'ctype' else 1)]
        f['a'] = a
        f['rows'] = rng.choice([0, 1, c - 1, c, c + 1, 2 * c, rng.randrange(0, 4 * c + 2), rng.randrange(0, 40)]) if f['set'] else 1
        if rng.random() < 0.12:
            f['err'] = rng.randrange(f['rows']) if f['rows'] else 0
        fns.append(f)
    ops = []
    for _ in range(rng.randrange(3, 20)):
        x = rng.random()
        if x < 0.25 or not ops:
            ops.append({'op': 'proc', 's': rng.randrange(4), 'f': rng.randrange(6), 'by': rng.choice(['sig', 'sig', 'sig', 'oid'])})
        elif x < 0.62:
            ops.append({'op': 'call', 's': rng.randrange(4), 'seed': rng.randrange(10 ** 6), 'kw': rng.choice([0, 0, 15, rng.randrange(16)]), 't': rng.randrange(3), 'full': rng.choice([0, 1])})
        elif x < 0.69:
            ops.append({'op': 'bad', 's': rng.randrange(4), 'seed': rng.randrange(10 ** 6), 'kw': rng.choice([0, 15, rng.randrange(16)]), 'how': rng.choice(['few', 'many', 'unknown', 'twice', 'pack'])})
        elif x < 0.85:
            ops.append({'op': rng.choice(['step', 'step', 'step', 'drain', 'drop']), 't': rng.randrange(3)})
        elif x < 0.88:
            ops.append({'op': 'nofunc', 'k': rng.randrange(4)})
        elif x < 0.92:
            ops.append({'op': 'q'})
        elif x < 0.94:
            ops.append({'op': 'forget', 's': rng.randrange(4)})
        else:
            ops.append({'op': rng.choice(['begin', 'begin', 'commit', 'rollback'])})
        if rng.random() < 0.12 and ops[-1]['op'] in ('proc', 'call', 'step', 'drain'):
            ops[-1]['err'] = [rng.randrange(0, 14), rng.choice(['57014', '53200', '42501', 'XX000'])]
    cfg = {'types': types, 'fns': fns, 'chunk': chunk}
    if rng.random() < 0.1:
        cfg['cut'] = {'dir': rng.choice(['s2c', 's2c', 'c2s']), 'at': rng.choice([rng.randrange(0, 3000), rng.randrange(0, 12000)]), 'how': rng.choice(['eof', 'reset', 'reset_drop'])}
    if rng.random() < 0.25:
        cfg['async'] = wl.asyncs(rng, rng.choice([20, 100]), 8, kinds=('notice', 'status'))
    return {'ops': ops, 'policy': wl.policy(rng), 'cfg': cfg}


def quote(s):
    return s if re.match(r'[a-z_][a-z0-9_]*$', s) and s != 'select' else '"%s"' % s.replace('"', '""')


def split(s, sep=','):
    """at separators outside of quotes and brackets"""
    out = ['']; q = False; d = 0
    for c in s:
        if c == '"':
            q = not q
        elif not q and c in '([':
            d += 1
        elif not q and c in ')]':
            d -= 1
        if c == sep and not q and not d:
            out.append('')
        else:
            out[-1] += c
    return [x.strip() for x in out] if s.strip() else []


def names_of(s):
    """a possibly qualified name -> its parts"""
    out = []
    for p in split(s, '.'):
        out.append(p[1:-1].replace('""', '"') if p[:1] == '"' else p.lower())
    return out


class F:
    """a function of the database"""
    def __init__(self, k, d, uni):
        self.oid = 50001 + k
        self.name = FNAMES[d['n'] % len(FNAMES)]; self.nsp = SCHEMAS[d['s'] % 3]
        self.kind = d['o']; self.set = bool(d['set'])
        self.args = [(m, ANAMES[n] if n >= 0 else '', uni.ref(t)) for m, n, t in d['a']]
        self.ins = [(n, t) for m, n, t in self.args if m in 'ib']
        outs = [(n or 'column%d' % (j + 1), t) for j, (n, t) in enumerate([(n, t) for m, n, t in self.args if m in 'obt'])]
        if outs:
            self.cols = outs
            self.comp = len(outs) > 1
            if not self.comp and not outs[0][0].startswith('column'):
                pass
            elif not self.comp:
                self.cols = [(None, outs[0][1])]
        elif self.kind == 'ctype':
            self.cols = [('c%d' % j, uni.ref(t)) for j, t in enumerate(d['r'])]
            self.comp = True
        elif self.kind == 'void':
            self.cols = None; self.comp = False
        else:
            self.cols = [(None, uni.ref((d.get('r') or ['int4'])[0]))]; self.comp = False
        self.rows = d['rows'] if self.set else 1
        self.err = d.get('err', -1)
        if self.err >= self.rows:
            self.err = -1
        self.rett = 2249 if outs and self.comp else 70990 if self.kind == 'ctype' else 2278 if self.cols is None else self.cols[0][1].oid

    def key(self):
        return (self.nsp, self.name, tuple(t.oid for n, t in self.ins))

    def result(self):
        """the rows of every call"""
        r = random.Random(self.oid)
        if self.cols is None:
            return [(None,)]
        return [tuple(None if r.random() < 0.12 else t.gen(r) for n, t in self.cols) for _ in range(self.rows)]


class Cstring(pgtypes.Text):
    pass


class Lost(Exception):
    pass


class Set:
    """a set result that is being read"""
    def __init__(self, it, f):
        self.it = it; self.f = f; self.pos = 0; self.in_tx = False; self.want = f.result()


class S:
    def __init__(self, env):
        self.env = env
        cfg = env.cfg
        u = self.uni = Universe(cfg.get('types') or [])
        for t in (TextOnly('regproc', 24, words=['f']), TextOnly('regprocedure', 2202, words=['f']), TextOnly('pg_node_tree', 194, words=['f']), Cstring('cstring', 2275, kind='p', typlen=-2),
                  Array('oidvector', 30, el=u.base['oid']), TextOnly('aclitem', 1033, words=['f']), TextOnly('void', 2278, kind='p', words=[''])):
            u.byoid[t.oid] = t
        u.byoid[1034] = Array('_aclitem', 1034, el=u.byoid[1033])
        self.fns = []
        for k, d in enumerate(cfg['fns']):
            f = F(k, d, u)
            if f.key() not in [g.key() for g in self.fns]:
                self.fns.append(f)
        self.calls = []         # executions: (function, arguments)
        self.ledger = []        # [function, arguments, times called, times executed, times the call succeeded]
        self.objs = {}
        self.sets = {}
        self.tx = None
        self.claimed = set()
        self.server, self.db, self.b = wl.begin(env, {'plan': self.plan})

    # ------------------------------------------------------------ the server's side
    def plan(self, b, t):
        m = re.match(r'(?is)select\s+\*\s+from\s+((?:"(?:[^"]|"")*"|[\w$]+)(?:\s*\.\s*(?:"(?:[^"]|"")*"|[\w$]+))?)\s*\((.*)\)\s*(?:as\s+)?("(?:[^"]|"")*"|\w+)\s*(\([^()]*\))?\s*$', t)
        if m and names_of(m.group(1)) != ['gen']:
            return self.plan_call(names_of(m.group(1)), split(m.group(2)), names_of(m.group(3))[0], m.group(4))
        if 'pg_proc' in t and 'pg_proc.oid' in t and t.lstrip()[:6].upper() == 'SELECT':
            return self.plan_proc(t)
        return self.uni.plan(b, t)

    def typename(self, s):
        s = re.sub(r'\s+', ' ', s.strip())
        n = s.lower()
        arr = n.endswith('[]')
        p = names_of(s[:-2] if arr else s)
        n = ALIAS.get(p[-1], p[-1]) if len(p) == 1 and '"' not in s else p[-1]
        for x in self.uni.byoid.values():
            if x.name == n and (len(p) == 1 and x.nsp in ('pg_catalog', 'public') or len(p) == 2 and p[0] == x.nsp):
                if not arr:
                    return x
                for y in self.uni.byoid.values():
                    if y.el is x and isinstance(y, Array) and y.name[:1] == '_':
                        return y
        raise SQLError('42704', 'type "%s" does not exist' % s)

    def find(self, names, types):
        for f in self.fns:
            if f.name == names[-1] and (f.nsp == 'public' if len(names) == 1 else f.nsp == names[0]) and [t for n, t in f.ins] == types:
                return f
        raise SQLError('42883', 'function %s(%s) does not exist' % ('.'.join(names), ', '.join(t.name for t in types)))

    def plan_call(self, names, args, alias, desc):
        types = []
        for k, a in enumerate(args):
            m = re.match(r'(?s)\$(\d+)\s*::(.*)$', a)
            if m is None or int(m.group(1)) != k + 1:
                raise SQLError('42601', 'syntax error at or near "%s"' % a)
            types.append(self.typename(m.group(2)))
        f = self.find(names, types)
        if desc:
            raise SQLError('42601', 'a column definition list is only allowed for functions returning "record"')
        rows = f.result()

        def go(be, params):
            vals = []
            for t, (fmt, d) in zip(types, params):
                vals.append(None if d is None else t.take(fmt, d))
            self.calls.append((f, tuple(vals)))
            for k, r in enumerate(rows):
                if k == f.err:
                    raise SQLError('22012', 'function %d fails' % f.oid)
                yield (pgserver.Raw(b''),) if f.cols is None else tuple(None if v is None else Typed(t.reported(), v) for (n, t), v in zip(f.cols, r))
        cols = [(alias, 2278)] if f.cols is None else [(alias if n is None else n, t.reported().oid) for n, t in f.cols]
        p = Plan('rows', go, cols=cols, oids=[t.oid for t in types])
        p.raw = True
        return p

    def procrow(self, f):
        same_name = [g for g in self.fns if g.name == f.name and g.nsp == 'public']
        qual = quote(f.name) if f.nsp == 'public' and len(same_name) == 1 else quote(f.nsp) + '.' + quote(f.name)
        named = any(n for m, n, t in f.args)
        modes = any(m != 'i' for m, n, t in f.args)
        allt = ((len(f.args),), (1,), [t.oid for m, n, t in f.args])
        return {'oid': (26, f.oid), 'proname': (19, f.name), 'pronamespace': (26, 2200), 'proowner': (26, 10), 'prolang': (26, 14), 'procost': (700, 100.0), 'prorows': (700, 1000.0 if f.set else 0.0),
                'provariadic': (26, 0), 'prosupport': (24, '-'), 'prokind': (18, b'f'), 'prosecdef': (16, False), 'proleakproof': (16, False), 'proisstrict': (16, False),
                'proretset': (16, f.set), 'provolatile': (18, b'v'), 'proparallel': (18, b'u'), 'pronargs': (21, len(f.ins)), 'pronargdefaults': (21, 0),
                'prorettype': (26, f.rett), 'proargtypes': (30, ((len(f.ins),), (0,), [t.oid for n, t in f.ins]) if f.ins else ((), (), [])),
                'proallargtypes': (1028, allt if modes else None), 'proargmodes': (1002, ((len(f.args),), (1,), [m.encode() for m, n, t in f.args]) if modes else None),
                'proargnames': (1009, ((len(f.args),), (1,), [n for m, n, t in f.args]) if named else None), 'proargdefaults': (194, None), 'protrftypes': (1028, None),
                'prosrc': (25, ' select 1 '), 'probin': (25, None), 'prosqlbody': (194, None), 'proconfig': (1009, None), 'proacl': (1034, None)}, qual

    def plan_proc(self, t):
        s = re.sub(r'\s+', ' ', re.sub(r'--[^\n]*', ' ', t)).strip()
        low = s.lower()
        items = split(s[7:low.index(' from pg_catalog.pg_proc')]) if ' from pg_catalog.pg_proc' in low else None
        if items is None:
            raise SQLError('42601', 'syntax error')
        blank = self.procrow(F(99, {'n': 0, 's': 0, 'o': 'void', 'set': 0, 'a': [], 'rows': 0}, self.uni))[0]
        cols = []
        for it in items:
            m = re.match(r'(?i)pg_proc\.(\*|\w+)(?:::(\w+))?(?: (?:as )?(\w+))?$', it)
            if m and m.group(1) == '*':
                cols.extend((n, blank[n][0], n, None) for n in blank)
            elif m:
                o = {'regproc': 24, 'regprocedure': 2202}.get((m.group(2) or '').lower()) or blank[m.group(1)][0]
                cols.append((m.group(3) or m.group(1), o, m.group(1), m.group(2)))
            elif re.search(r'(?i) as proargtypes$', it):
                cols.append(('proargtypes', 1028, 'proargtypes', 'oid[]'))
            elif re.search(r'(?i) as composite$', it):
                cols.append(('composite', 16, None, None))
            else:
                raise SQLError('42601', 'not simulated: ' + it)
        w = low[low.rindex(' where '):]
        bysig = 'regprocedure' in w

        def go(be, params):
            if params[0] is None:
                return
            if bysig:
                m = re.match(r'(?s)(.*?)\((.*)\)\s*$', self.unq(str(params[0])))
                if m is None:
                    raise SQLError('22P02', 'expected a left parenthesis')
                f = self.find(names_of(m.group(1).replace('\0', '(')), [self.typename(x) for x in split(m.group(2).replace('\0', '('))])
            else:
                f = next((f for f in self.fns if f.oid == params[0]), None)
            if f is None:
                return
            row, qual = self.procrow(f)
            out = []
            for n, o, src, cast in cols:
                if src is None:
                    v = f.comp
                elif cast == 'regproc':
                    v = qual
                elif cast == 'regprocedure':
                    v = qual + '(' + ','.join(t.name for a, t in f.ins) + ')'
                else:
                    v = row[src][1]
                    if cast == 'oid[]':
                        v = (v[0], (1,) * len(v[0]), v[2])
                out.append(None if v is None else Typed(self.uni.byoid[o], v))
            yield tuple(out)
        return Plan('rows', go, cols=[(n, o) for n, o, src, cast in cols], oids=[2275 if bysig else 26])

    @staticmethod
    def unq(s):
        """brackets in quotes are not brackets"""
        out = ''; q = False
        for c in s:
            if c == '"':
                q = not q
            out += '\0' if q and c == '(' else c
        return out

    # ------------------------------------------------------------ rules
    def fail(self, kind, *detail):
        raise Violation(kind, ' '.join(str(d) for d in detail))

    def lost(self):
        c = self.b.conn
        return c.lost or c.srv_closed or self.b.closed

    def do(self, what, fn, again=False):
        """-> (True, value), or (False, error) when the server reported one"""
        st, val = client.call(fn)
        if st == 'ok':
            return True, val
        if self.lost():
            if not isinstance(val, client.pgexc.Exception):
                self.fail('wrong-error', '%s: %r' % (what, val))
            raise Lost
        while val.__cause__ is not None:
            val = val.__cause__
        for k, (c, m, sv) in enumerate(self.b.errors_sent):
            if (again or k not in self.claimed) and c == getattr(val, 'code', None) and m == val.message:
                self.claimed.add(k)
                self.last_err = val
                return False, val
        self.fail('refused', '%s: %r; errors the server sent: %r' % (what, val, self.b.errors_sent))

    def value(self, what, t, x, v):
        if t is None:
            if x is not None and x != b'' and x != '':
                self.fail('wrong-value', '%s: %r from a function without result' % (what, x))
        elif not same(t.reported(), x, v):
            self.fail('wrong-value', '%s: type %s: %r instead of %r' % (what, t.name, x, v))

    def item(self, what, f, x, w):
        """one value or row of the result"""
        if not f.comp:
            return self.value(what, f.cols and f.cols[0][1], x, w[0])
        if not isinstance(x, tuple) or len(x) != len(w):
            self.fail('wrong-row', '%s: %r instead of %r' % (what, x, w))
        for (n, t), a, v in zip(f.cols, x, w):
            self.value(what, t, a, v)
        names = [n for n, t in f.cols]
        for k, n in enumerate(names):
            if names.count(n) == 1 and x[n] is not x[k]:
                self.fail('wrong-row', '%s: column %r of %r is %r' % (what, n, x, x[n]))

    def entry(self, f, held):
        for e in self.ledger:
            if e[0] is f and pgtypes.equal(e[1], held):
                return e
        self.ledger.append([f, held, 0, 0, 0])
        return self.ledger[-1]

    def account(self, what):
        """every execution is that of one call (a set may be executed later than it is asked for)"""
        for g, a in self.calls:
            e = self.entry(g, list(a))
            e[3] += 1
            if e[3] > e[2]:
                self.fail('wrong-execution', '%s: function %d was executed %d times with %r, called %d times' % (what, g.oid, e[3], a, e[2]))
        del self.calls[:]

    def executed(self, what, f, held):
        self.account(what)
        e = self.entry(f, held)
        e[4] += 1
        if e[3] < e[4]:
            self.fail('wrong-execution', '%s: function %d was executed %d times with %r, of %d calls that succeeded' % (what, f.oid, e[3], held, e[4]))

    # ------------------------------------------------------------ operations
    def signature(self, f, k):
        ts = []
        for n, t in f.ins:
            if t.nsp != 'pg_catalog':
                ts.append(quote(t.nsp) + '.' + quote(t.name))
            elif isinstance(t, Array):
                ts.append(t.el.name + '[]')
            else:
                ts.append(t.name)
        nm = quote(f.name)
        return (nm if f.nsp == 'public' and k % 2 else quote(f.nsp) + '.' + nm) + '(' + [', ', ','][k % 2].join(ts) + ')'

    def op_proc(self, op):
        f = self.fns[op['f'] % len(self.fns)]
        self.objs.pop(op['s'], None)
        how = f.oid if op['by'] == 'oid' else self.signature(f, op['s'])
        ok, p = self.do('proc(%r)' % (how,), lambda: self.db.proc(how))
        if not ok:
            self.env.probe('lookup_error')
            return False
        if op['by'] == 'oid':
            self.env.probe('byoid')
        if len([g for g in self.fns if g.name == f.name]) > 1:
            self.env.probe('overload')
        if any(t.oid > 70000 for a, t in f.ins):
            self.env.probe('usertype')
        self.objs[op['s']] = (p, f)
        return True

    def op_forget(self, op):
        self.objs.pop(op['s'], None)
        return True

    def chosen(self, op):
        return self.objs[op['s']] if op['s'] in self.objs else self.objs[min(self.objs)]

    def arguments(self, op, f):
        r = random.Random(op['seed'])
        pos = []; kw = {}; held = []
        for k, (n, t) in enumerate(f.ins):
            if r.random() < 0.12:
                x = v = None
            else:
                x, v = t.stored(r, t.gen(r))
            held.append(v)
            if n and op['kw'] >> (k % 4) & 1:
                kw[n] = x
            else:
                pos.append(x)
        ks = list(kw)
        r.shuffle(ks)
        return pos, {k: kw[k] for k in ks}, held

    def op_call(self, op):
        if not self.objs:
            return True
        p, f = self.chosen(op)
        pos, kw, held = self.arguments(op, f)
        what = 'function %d with %r and %r' % (f.oid, pos, kw)
        self.entry(f, held)[2] += 1
        ok, x = self.do(what, lambda: p(*pos, **kw))
        if not ok:
            if f.err >= 0 and not f.set:
                self.env.probe('mid_error')
            return False
        self.env.nontrivial = True
        if kw:
            self.env.probe('keyword')
        if any(m in 'ob' for m, a, t in f.args):
            self.env.probe('out')
        if not f.set:
            self.env.probe('void' if f.cols is None else 'comp' if f.comp else 'scalar')
            if f.err >= 0:
                self.fail('lost-error', what, 'returned', x)
            self.executed(what, f, held)
            self.item(what, f, x, f.result()[0])
            return True
        self.env.probe('setcomp' if f.comp else 'set')
        try:
            it = iter(x)
        except TypeError:
            self.fail('wrong-result', '%s: %r for a set' % (what, x))
        s = Set(it, f)
        s.held = held
        s.in_tx = self.tx is not None
        self.sets[op['t']] = s
        if op['full']:
            return self.op_drain(op)
        return True

    def op_step(self, op):
        s = self.sets.get(op['t'])
        if s is None:
            return True
        what = 'set of function %d after %d rows' % (s.f.oid, s.pos)

        def go():
            out = []
            for _ in range(3):
                try:
                    out.append(next(s.it))
                except StopIteration:
                    break
            return out
        if s.pos:
            self.env.probe('midset')
        ok, got = self.do(what, go, again=True)
        if not ok:
            if s.f.err >= 0:
                self.env.probe('mid_error')
            self.sets.pop(op['t'], None)
            return False
        for x in got:
            if s.pos >= len(s.want) or 0 <= s.f.err <= s.pos:
                self.fail('wrong-rows', '%s: %r, where there are %d rows' % (what, x, s.f.err if s.f.err >= 0 else len(s.want)))
            self.item(what, s.f, x, s.want[s.pos])
            s.pos += 1
        if len(got) < 3:
            if s.pos < len(s.want):
                self.fail('wrong-rows', '%s: ended after %d of %d rows' % (what, s.pos, len(s.want)))
            self.sets.pop(op['t'], None)
            self.executed(what, s.f, s.held)
        return True

    def op_drain(self, op):
        while op['t'] in self.sets:
            if not self.op_step(op):
                return False
        return True

    def op_drop(self, op):
        self.sets.pop(op['t'], None)
        return True

    def op_bad(self, op):
        """calls that cannot be made: TypeError or the error of packing, and nothing is executed"""
        if not self.objs:
            return True
        p, f = self.chosen(op)
        pos, kw, held = self.arguments(op, f)
        how = op['how']
        if how == 'few':
            if pos:
                pos.pop()
            elif kw:
                kw.pop(next(iter(kw)))
            else:
                return True
        elif how == 'many':
            pos.append(1)
        elif how == 'unknown':
            if pos:
                pos.pop()
            kw['no such argument'] = 1
        elif how == 'twice':
            # an argument given by position and by name, another one not at all
            i = [k for k, (n, t) in enumerate(f.ins) if n]
            if len(f.ins) < 2 or not i or i[0]:
                return True
            pos = [None] * (len(f.ins) - 1) + [None]; kw = {f.ins[0][0]: None}
        else:
            k = [k for k, (n, t) in enumerate(f.ins) if t.name in ('int4', 'int8')]
            if not k or kw:
                return True
            pos[k[0]] = 'no number'
        e = len(self.b.errors_sent); open_ = bool(self.sets)
        what = 'function %d (%r) with %r and %r' % (f.oid, [a for a, t in f.ins], pos, kw)
        try:
            r = p(*pos, **kw)
        except TypeError:
            pass
        except client.pgexc.Exception as x:
            if self.lost():
                raise Lost
            if how != 'pack' and not open_ and len(self.b.errors_sent) == e:
                self.fail('wrong-error', '%s: %r' % (what, x))
            if len(self.b.errors_sent) > e or open_:
                return True
        else:
            self.fail('wrong-call', what, 'returned', r)
        self.env.probe('badcall')
        return True

    def op_nofunc(self, op):
        how = ['nope()', 'f(int4, int4, int4, int4, int4, int4)', 49999, '"No Schema".f()'][op['k'] % 4]
        self.env.probe('nofunc')
        if how == 49999:
            try:
                self.db.proc(how)
            except LookupError:
                return True
            except client.pgexc.Exception as x:
                if self.lost():
                    raise Lost
                return False
            self.fail('wrong-result', 'proc(%r) found something' % how)
        ok, v = self.do('proc(%r)' % how, lambda: self.db.proc(how))
        if ok:
            self.fail('wrong-result', 'proc(%r) is %r' % (how, v))
        return False

    def op_q(self, op):
        ok, v = self.do('SELECT 1', lambda: self.db.query.first('SELECT 1'))
        if ok and v != 1:
            self.fail('wrong-result', 'SELECT 1 is', v)
        return ok

    def end_tx(self):
        self.tx = None
        for k in [k for k, x in self.sets.items() if x.in_tx]:
            del self.sets[k]

    def op_begin(self, op):
        if self.tx is not None:
            return True
        t = self.db.xact()
        ok, v = self.do('begin', t.start)
        if ok:
            self.env.probe('in_tx')
            self.tx = t
        return ok

    def op_commit(self, op):
        if self.tx is None:
            return True
        ok, v = self.do('commit', self.tx.commit)
        if not ok and self.b.tx is not None and not self.b.tx.implicit:
            # the error of what was asked for before came first
            self.op_rollback(op)
            return False
        self.end_tx()
        return ok

    def op_rollback(self, op):
        if self.tx is None:
            return True
        ok, v = self.do('rollback', self.tx.rollback)
        if not ok and self.b.tx is not None and not self.b.tx.implicit:
            # the error of what was asked for before came first
            ok, v = self.do('rollback', self.tx.rollback)
        self.end_tx()
        return ok

    # ------------------------------------------------------------
    def go(self):
        b = self.b
        if self.env.cfg.get('async'):
            wl.inject(b, self.env.cfg['async'])
        if self.env.cfg.get('cut'):
            wl.cut(self, self.env.cfg['cut'])
        try:
            for op in self.env.ops:
                f = getattr(self, 'op_' + op['op'])
                if op.get('err'):
                    k, code = op['err']
                    b.err_at[b.nin + k] = (code, 'injected')
                ok = f(op)
                b.err_at.clear()
                self.account(op['op'])
                if not ok:
                    self.env.sim.log('op', op['op'], 'error')
                    if self.tx is not None:
                        self.op_rollback(op)
                    if op['op'] == 'proc' or op['op'] == 'call' and self.objs and self.chosen(op)[1].err < 0:
                        # nothing half-made
                        self.env.probe('retried')
                        self.insist(f, op)
            if self.tx is not None:
                self.op_rollback({})
            for k in list(self.sets):
                self.op_drain({'t': k})
            self.insist(self.op_q, {})
            self.account('the end')
        except Lost:
            self.env.probe('cut')

    def insist(self, f, op):
        """errors that are still on their way may come first"""
        for _ in range(6):
            if f(op):
                return
        self.fail('stuck', '%r failed again and again' % (op,))


def run(env):
    env.nontrivial = False
    S(env).go()
