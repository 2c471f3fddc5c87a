"""
One simulated run: a pure function of its plan and of the code under test.

plan = {prop, variant, seed, choice: <int seed> | {'trace': [...]}, policy, faults, cfg, ops}
"""
import gc, sys, json, random, traceback, signal, os, threading
from . import core, net as netmod
from .core import *
from .boot import REPO

_VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_REPO_PKG = os.path.join(os.path.abspath(REPO), 'postgresql') + os.sep
CPU_LIMIT = 12.0


class Env:
    """what a property's workload gets"""
    def __init__(self, plan, sim, net):
        self.plan = plan; self.sim = sim; self.net = net
        self.cfg = plan.get('cfg', {})
        self.ops = plan.get('ops', [])
        self.probes = {}

    def probe(self, name, n=1):
        self.sim.count('probe_' + name, n)

    def known(self, fid, kind, detail):
        """what a listed finding describes has been seen: go on; a violation if it is not listed"""
        if fid not in listed(self.plan['prop']):
            raise Violation(kind, detail)
        self.sim.known[fid] = self.sim.known.get(fid, 0) + 1


_listed = {}


def listed(prop):
    if prop not in _listed:
        out = set()
        with open(os.path.join(_VERIF, 'known_findings.jsonl')) as f:
            for l in f:
                if l.strip():
                    d = json.loads(l)
                    if d.get('status') == 'known' and d['property'] == prop:
                        out.add(d['id'])
        _listed[prop] = out
    return _listed[prop]


def gen_plan(mod, seed, variant, tier='quick'):
    rng = random.Random('%s:%d' % (mod.PROP, seed))
    p = mod.gen(rng, tier)
    p.setdefault('ops', []); p.setdefault('faults', []); p.setdefault('policy', {}); p.setdefault('cfg', {})
    p['prop'] = mod.PROP
    p['variant'] = variant
    p['seed'] = seed
    p['choice'] = rng.randrange(1 << 30)
    return json.loads(json.dumps(p))


def where(tb):
    """innermost frame of the code under test, innermost frame of all"""
    inner = None; mine = None
    for f, line in traceback.walk_tb(tb):
        fn = f.f_code.co_filename
        if fn.startswith(_REPO_PKG):
            mine = '%s:%s' % (fn[len(_REPO_PKG):], f.f_code.co_name)
        inner = fn
    return mine, inner


def path(tb):
    """every frame of the code under test, outermost first"""
    r = []
    for f, line in traceback.walk_tb(tb):
        fn = f.f_code.co_filename
        if fn.startswith(_REPO_PKG):
            r.append('%s:%s' % (fn[len(_REPO_PKG):], f.f_code.co_name))
    return r


def classify(e):
    """an exception that left the workload -> (verdict, kind, detail)"""
    if isinstance(e, Violation):
        return 'violation', e.kind, e.detail
    if isinstance(e, Hang):
        return 'violation', 'hang', str(e)
    if isinstance(e, CpuLoop):
        return 'violation', 'cpu-loop', str(e)
    if isinstance(e, (HarnessAbort, HarnessError)):
        return 'harness', type(e).__name__, str(e)
    pgexc = sys.modules.get('postgresql.exceptions')
    mine, inner = where(e.__traceback__)
    txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if pgexc is not None and isinstance(e, (pgexc.Error, pgexc.Warning)) and mine:
        return 'violation', 'unexpected-error', '%s %s %s in %s\n%s' % (type(e).__name__, getattr(e, 'code', ''), getattr(e, 'message', ''), mine, txt)
    if mine is not None and inner is not None:
        ours = inner.startswith(_VERIF + os.sep)
        if not ours or inner.endswith('sim/net.py') or inner.endswith('sim/osworld.py'):
            return 'violation', 'raw-exception', '%s: %s in %s\n%s' % (type(e).__name__, e, mine, txt)
    return 'harness', 'exception', txt


def _on_cpu(sig, frame):
    raise CpuLoop('more than %g CPU seconds in one run' % CPU_LIMIT)


def run_plan(mod, plan, keep_log=False):
    """execute; returns a JSON-able result"""
    c = plan.get('choice', 0)
    ch = Choices(c) if isinstance(c, int) else Choices(0, list(c['trace']))
    sim = Sim(ch, max_steps=plan.get('max_steps', getattr(mod, 'MAX_STEPS', 300000)), keep_log=keep_log)
    sim.known = {}
    net = netmod.Net(sim, plan.get('policy'), plan.get('faults', ()))
    netmod.set_net(net)
    env = Env(plan, sim, net)
    verdict, kind, detail = 'ok', '', ''
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        try:
            mod.run(env)
            if sim.aborted is not None:
                raise sim.aborted
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if sim.violations:
            kind, detail = sim.violations[0]
            verdict = 'violation'
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        verdict, kind, detail = classify(e)
        if sim.harness_error:
            verdict, kind, detail = 'harness', 'simulator', sim.harness_error
        elif sim.violations and kind not in ('cpu-loop',):
            # what the network or the server saw came first
            kind, detail = sim.violations[0]
            verdict = 'violation'
        e.__traceback__ = None
        e = None
    finally:
        try:
            fin = getattr(mod, 'cleanup', None)
            if fin is not None:
                fin(env)
        finally:
            netmod.set_net(None)
    sim.log('verdict', verdict, kind)
    r = {'v': verdict, 'kind': kind, 'detail': detail, 'hash': sim.hash.hexdigest()[:24],
         'shape': sim.shape.hexdigest()[:16], 'now': sim.now, 'steps': sim.steps, 'stats': sim.stats,
         'nch': len(ch.rec), 'stuck': kind == 'cpu-loop', 'nt': bool(getattr(env, 'nontrivial', True)), 'known': sim.known}
    if verdict != 'ok':
        r['trace'] = ch.rec if len(ch.rec) <= 200000 else None
    if keep_log:
        r['log'] = sim.loglines
    # break cycles between the simulated world and the driver's objects
    net.conns = []; net.sockets = []; net.byfd = {}; sim.q = []
    env.__dict__.clear()
    return r
