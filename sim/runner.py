"""
The batch runner (never imports the code under test): spreads seeds over worker
processes, confirms, minimises and writes replay files, and writes the evidence.
"""
import sys, os, json, time, subprocess, threading, queue, tempfile, shutil, importlib, re, hashlib, copy
from . import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_WALL = 60.0          # seconds without any output before a worker counts as stuck


def python():
    for p in ('/opt/venv/bin/python', sys.executable):
        if p and os.path.exists(p):
            return p
    return 'python3'


class Worker:
    """a worker process and the thread that reads from it"""
    def __init__(self, prop, variant, so, outq, wid, hashseed='0'):
        env = dict(os.environ)
        env['PYTHONPATH'] = VERIF
        env['PYTHONHASHSEED'] = hashseed
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['VERIF_REPO'] = boot.REPO
        for k in list(env):
            if k.startswith('PG') and k not in ('PGSIM',):
                del env[k]
        self.prop = prop; self.variant = variant; self.so = so; self.wid = wid; self.outq = outq
        self.p = subprocess.Popen([python(), '-m', 'sim.worker', variant, so or '', prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, cwd=VERIF, env=env, text=True, bufsize=1,
                                  stderr=None if os.environ.get('VERIF_WORKER_STDERR') else subprocess.DEVNULL)
        self.last = time.time()
        self.current = None
        self.dead = False
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        for line in self.p.stdout:
            self.last = time.time()
            try:
                o = json.loads(line)
            except ValueError:
                continue
            self.outq.put((self, o))
        self.p.wait()
        self.dead = True
        self.outq.put((self, {'dead': self.p.returncode}))

    def send(self, o):
        self.last = time.time()
        try:
            self.p.stdin.write(json.dumps(o) + '\n')
            self.p.stdin.flush()
            return True
        except (OSError, ValueError):
            return False

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass

    def quit(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.kill()


class HarnessFailure(Exception):
    pass


class Lab:
    """executes single plans (for confirmation, minimisation and replay)"""
    def __init__(self, prop, so, n=1, hashseed='0'):
        self.prop = prop; self.so = so; self.n = n; self.ws = {}; self.hashseed = hashseed

    def _one(self, plan, slot, log, wall):
        key = (plan['variant'], slot)
        w = self.ws.get(key)
        if w is None or w.dead:
            q = queue.Queue()
            w = Worker(self.prop, plan['variant'], self.so, q, slot, self.hashseed)
            self.ws[key] = w
            while True:
                try:
                    _, o = q.get(timeout=120)
                except queue.Empty:
                    w.kill()
                    raise HarnessFailure('worker does not start')
                if 'hello' in o:
                    break
                if 'fatal' in o:
                    raise HarnessFailure(o['fatal'])
                if 'dead' in o:
                    raise HarnessFailure('worker died while starting')
        w.send({'cmd': 'plan', 'plan': plan, 'log': log})
        try:
            while True:
                _, o = w.outq.get(timeout=wall)
                if 'result' in o:
                    if o['result']['stuck']:
                        del self.ws[key]
                    return o['result']
                if 'dead' in o:
                    del self.ws[key]
                    return {'v': 'violation', 'kind': 'crash', 'detail': 'the interpreter died (status %s)' % o['dead'], 'hash': '', 'trace': None, 'log': [], 'nch': 0, 'stats': {}, 'now': 0}
        except queue.Empty:
            w.kill()
            self.ws.pop(key, None)
            return {'v': 'violation', 'kind': 'stuck', 'detail': 'no end after %g s of wall time' % wall, 'hash': '', 'trace': None, 'log': [], 'nch': 0, 'stats': {}, 'now': 0}

    def run(self, plan, log=False, slot=0, wall=RUN_WALL):
        return self._one(plan, slot, log, wall)

    def gen(self, seed, variant, tier):
        plan = {'variant': variant}
        q = queue.Queue()
        w = Worker(self.prop, variant, self.so, q, 0, self.hashseed)
        try:
            w.send({'cmd': 'gen', 'seed': seed, 'tier': tier})
            while True:
                _, o = q.get(timeout=120)
                if 'plan' in o:
                    return o['plan']
                if 'fatal' in o:
                    raise HarnessFailure(o['fatal'])
                if 'dead' in o:
                    raise HarnessFailure('worker died')
        finally:
            w.quit()

    def run_many(self, plans, wall=RUN_WALL):
        """run several plans in parallel; results in order"""
        out = [None] * len(plans)
        ths = []
        it = iter(range(len(plans)))
        lock = threading.Lock()
        errs = []

        def loop(slot):
            while True:
                with lock:
                    k = next(it, None)
                if k is None:
                    return
                try:
                    out[k] = self._one(plans[k], slot, False, wall)
                except HarnessFailure as e:
                    errs.append(e)
                    return
        for s in range(min(self.n, len(plans))):
            t = threading.Thread(target=loop, args=(s,))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        return out

    def close(self):
        for w in self.ws.values():
            w.quit()
        self.ws = {}


def kind_class(r):
    return r['kind']


# ------------------------------------------------------------------ minimisation
def paths_of_lists(o, pre=()):
    """paths of all op lists inside a plan: 'ops' and nested 'body' lists"""
    out = []
    if isinstance(o, dict):
        for k, v in o.items():
            if isinstance(v, list) and (k in ('ops', 'faults', 'body', 'events', 'tasks') and v and isinstance(v[0], (dict, list))):
                out.append(pre + (k,))
            if isinstance(v, (dict, list)):
                out += paths_of_lists(v, pre + (k,))
    elif isinstance(o, list):
        for k, v in enumerate(o):
            if isinstance(v, (dict, list)):
                out += paths_of_lists(v, pre + (k,))
    return out


def get_path(o, p):
    for k in p:
        o = o[k]
    return o


def set_path(o, p, v):
    for k in p[:-1]:
        o = o[k]
    o[p[-1]] = v


def minimise(lab, plan, result, mod_simplify=None, budget_s=60.0, budget_n=1500):
    """drop ops and faults, calm the network, shorten and flatten the choice trace"""
    t0 = time.time()
    kind = result['kind']
    best = copy.deepcopy(plan)
    state = {'n': 0, 'res': result}
    if kind == 'stuck':
        return best, result

    def left():
        return time.time() - t0 < budget_s and state['n'] < budget_n

    def first_ok(cands):
        """index of the first candidate that still fails the same way"""
        for a in range(0, len(cands), lab.n):
            if not left():
                return None
            part = cands[a:a + lab.n]
            rs = lab.run_many(part)
            state['n'] += len(part)
            for k, r in enumerate(rs):
                if r['v'] == 'violation' and r['kind'] == kind:
                    state['res'] = r
                    return a + k
        return None

    def try_set(cands):
        nonlocal best
        k = first_ok(cands)
        if k is None:
            return False
        best = cands[k]
        return True

    def variants_for(p):
        """a candidate, with the same seed, and (if traced) with the plain trace"""
        return [p]

    changed = True
    rounds = 0
    while changed and left() and rounds < 6:
        changed = False
        rounds += 1
        # 1. lists
        for path in paths_of_lists(best):
            try:
                lst = get_path(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while left():
                lst = get_path(best, path)
                cands = []
                for a in range(0, len(lst), size):
                    c = copy.deepcopy(best)
                    set_path(c, path, lst[:a] + lst[a + size:])
                    cands.append(c)
                if len(lst) and cands and try_set(cands):
                    changed = True
                    continue
                if size == 1:
                    break
                size = max(1, size // 2)
        # 2. network policy and configuration towards plain
        pol = best.get('policy', {})
        for key in list(pol):
            c = copy.deepcopy(best)
            del c['policy'][key]
            if try_set([c]):
                changed = True
        if mod_simplify is not None:
            for c in mod_simplify(copy.deepcopy(best)):
                if left() and c != best and try_set([c]):
                    changed = True
                    break
        # 3. numbers inside ops
        for path in number_paths(best):
            if not left():
                break
            try:
                v = get_path(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(v, bool) or not isinstance(v, int) or v <= 1:
                continue
            cands = []
            for nv in sorted({0, 1, v // 2, v - 1}):
                if nv < v:
                    c = copy.deepcopy(best)
                    set_path(c, path, nv)
                    cands.append(c)
            if cands and try_set(cands):
                changed = True
    # 4. the choices
    if left() and state['res'].get('trace'):
        c = copy.deepcopy(best)
        c['choice'] = {'trace': list(state['res']['trace'])}
        if try_set([c]):
            tr = best['choice']['trace']

            def with_trace(t):
                while t and t[-1] == 0:
                    t = t[:-1]
                c = copy.deepcopy(best)
                c['choice'] = {'trace': t}
                return c
            if not try_set([with_trace([])]):
                # truncate
                n = len(tr)
                step = n // 2
                while step >= 1 and left():
                    tr = best['choice']['trace']
                    if len(tr) - step >= 0 and try_set([with_trace(tr[:len(tr) - step])]):
                        continue
                    step //= 2
                # zero chunks
                size = max(1, len(best['choice']['trace']) // 2)
                while left():
                    tr = best['choice']['trace']
                    cands = []
                    for a in range(0, len(tr), size):
                        if any(tr[a:a + size]):
                            cands.append(with_trace(tr[:a] + [0] * len(tr[a:a + size]) + tr[a + size:]))
                    if cands and len(cands) < 4000 and try_set(cands):
                        continue
                    if size == 1:
                        break
                    size = max(1, size // 2)
    final = lab.run(best, log=True)
    return best, final


def number_paths(o, pre=()):
    out = []
    if isinstance(o, dict):
        for k, v in o.items():
            if k in ('choice', 'seed', 'variant', 'prop', 'faults', 'policy', 'conn', 'slot', 's', 'c', 'max_steps'):
                continue
            if isinstance(v, int) and not isinstance(v, bool):
                out.append(pre + (k,))
            elif isinstance(v, (dict, list)):
                out += number_paths(v, pre + (k,))
    elif isinstance(o, list):
        for k, v in enumerate(o):
            if isinstance(v, int) and not isinstance(v, bool):
                out.append(pre + (k,))
            elif isinstance(v, (dict, list)):
                out += number_paths(v, pre + (k,))
    return out


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('status') == 'known' and d['property'] == prop:
                    out.append(d)
    return out


def matches(f, plan, r):
    if f.get('kind') != r['kind']:
        return False
    return re.search(f['detail'], r['detail'] or '', re.S) is not None


# ------------------------------------------------------------------ batches
def run_check(prop, tier, seed, runs=None, jobs=None, time_cap=None, quiet=False, first=0, do_minimise=True, save=True, survey=False):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('props.' + prop.lower())
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return _run_check(mod, prop, tier, seed, runs, jobs, time_cap, quiet, first, do_minimise, save, tmp, t0, survey)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def seed_base(seed):
    return (seed % 1000003) * 10000000


def _run_check(mod, prop, tier, seed, runs, jobs, time_cap, quiet, first, do_minimise, save, tmp, t0, survey=False):
    variants = list(getattr(mod, 'VARIANTS', ('c', 'py')))
    so = ''
    if 'c' in variants:
        so = boot.build_ext(tmp)
    jobs = jobs or max(2, min(8, os.cpu_count() or 2))
    total = runs or mod.RUNS[tier]
    cap = time_cap or (getattr(mod, 'CAP', {}).get(tier) or (240 if tier == 'quick' else 1500))
    base = seed_base(seed) + first
    # seeds are dealt in slices; the variant is a function of the seed
    todo = {v: [] for v in variants}
    nv = len(variants)
    for k in range(total):
        todo[variants[k % nv]].append(base + k)
    CH = getattr(mod, 'CHUNK', 25)
    outq = queue.Queue()
    ws = []
    wid = 0
    share = {v: max(1, jobs // nv) for v in variants}

    def spawn(v):
        nonlocal wid
        wid += 1
        w = Worker(prop, v, so, outq, wid)
        w.assigned = []
        w.ready = False
        ws.append(w)
        return w
    for v in variants:
        for _ in range(share[v]):
            spawn(v)
    agg = {}
    shapes = set(); hashes = set()
    done = 0; simtime = 0; steps = 0; nontriv = 0
    fails = []           # (seed, result)
    known_seen = {}
    kfs = known_findings(prop)
    harness = []
    stuck = []           # (seed, variant, why)
    samples = []
    stop = False
    stop_at = None
    truncated = False

    def feed(w):
        if stop or not todo[w.variant]:
            return False
        part = todo[w.variant][:CH]
        del todo[w.variant][:CH]
        w.assigned = list(part)
        return w.send({'cmd': 'seeds', 'seeds': part, 'tier': tier})
    active = set(ws)
    while active:
        try:
            w, o = outq.get(timeout=1.0)
        except queue.Empty:
            w, o = None, None
        now = time.time()
        if not stop and now - t0 > cap:
            stop = True
            truncated = True
        if stop_at is not None and now > stop_at:
            stop = True
        if w is None:
            for x in list(active):
                if now - x.last > RUN_WALL:
                    if x.ready:
                        stuck.append((x.current, x.variant, 'stuck'))
                    else:
                        harness.append('worker does not start')
                    x.kill()
                    x.last = now + 1e9
            continue
        if 'hello' in o:
            w.ready = True
            if not feed(w):
                w.quit(); active.discard(w)
        elif 'fatal' in o:
            harness.append(o['fatal'])
            stop = True
        elif 'start' in o:
            w.current = o['start']
        elif 'done' in o:
            w.assigned = []
            if not feed(w):
                w.quit(); active.discard(w)
        elif 'dead' in o:
            if w in active:
                active.discard(w)
                if w.assigned:
                    if w.current is not None and w.current in w.assigned:
                        if not any(s[0] == w.current for s in stuck) and not any(f[0] == w.current for f in fails):
                            stuck.append((w.current, w.variant, 'dead'))
                        k = w.assigned.index(w.current)
                        rest = w.assigned[k + 1:]
                    else:
                        rest = w.assigned
                    todo[w.variant][:0] = rest
                    if len(stuck) < 6 and len(harness) < 3:
                        spawn(w.variant)
                        active.add(ws[-1])
                    else:
                        stop = True
        elif 'v' in o:
            done += 1
            simtime += o['now']; steps += o['steps']
            for k, v in o['stats'].items():
                agg[k] = agg.get(k, 0) + v
            hashes.add(o['hash'])
            for k, v in (o.get('known') or {}).items():
                known_seen[k] = known_seen.get(k, 0) + 1
            if o.get('nt', True):
                nontriv += 1
                shapes.add(o['shape'])
            if o['seed'] in w.assigned:
                pass
            if o['v'] == 'harness':
                harness.append('seed %s: %s' % (o['seed'], o['detail']))
                if len(harness) >= 3:
                    stop = True
            elif o['v'] == 'violation':
                kf = next((f for f in kfs if matches(f, o['plan'], o)), None)
                if kf is not None:
                    known_seen[kf['id']] = known_seen.get(kf['id'], 0) + 1
                else:
                    fails.append((o['seed'], o))
                    if stop_at is None and not survey:
                        stop_at = now + 1.0
            elif len(samples) < 3 and o.get('nt', True):
                samples.append((o['seed'], w.variant))
    for w in ws:
        w.quit()
    wall_search = time.time() - t0
    # ---- what died or hung: run again, alone
    lab = Lab(prop, so, n=jobs)
    lines = []
    try:
        for s, v, why in stuck:
            if s is None or fails:
                continue
            plan = lab.gen(s, v, tier)
            r = lab.run(plan, wall=1.5 * RUN_WALL)
            if r['v'] == 'violation':
                r['seed'] = s; r['plan'] = plan
                kf = next((f for f in kfs if matches(f, plan, r)), None)
                if kf is not None:
                    known_seen[kf['id']] = known_seen.get(kf['id'], 0) + 1
                else:
                    fails.append((s, r))
            elif r['v'] == 'harness':
                harness.append('seed %s: %s' % (s, r['detail']))
        samp = []
        for s, v in samples[:2]:
            try:
                p = lab.gen(s, v, tier)
                samp.append(shorten(p))
            except HarnessFailure:
                pass
        rc = 0
        if survey:
            for h in harness[:3]:
                print('HARNESS', h)
            seen = {}
            for s, r in fails:
                key = (r['kind'], re.sub(r'(py:)?0x[0-9a-f]+|[A-Z][A-Za-z]+Error\b|[0-9]+', '#', (r['detail'] or ''))[:130])
                seen.setdefault(key, []).append((s, r))
            for key, l in sorted(seen.items(), key=lambda x: -len(x[1])):
                print('%5d %s seeds %s\n      %s' % (len(l), key[0], [x[0] for x in l[:4]], (l[0][1]['detail'] or '')[:survey].replace('\n', '\n      ')))
            do_minimise = False
        fails.sort(key=lambda f: f[0])
        replay = None
        if fails:
            rc = 1
            s, r = fails[0]
            plan = r['plan']
            if do_minimise:
                plan2, fin = minimise(lab, plan, r, getattr(mod, 'simplify', None), budget_s=getattr(mod, 'MIN_BUDGET', 45.0))
                if fin['v'] != 'violation' or fin['kind'] != r['kind']:
                    plan2 = plan
                    fin = r if r['kind'] == 'stuck' else lab.run(plan, log=True)
            else:
                plan2, fin = plan, r if r['kind'] == 'stuck' else lab.run(plan, log=True)
            replay = os.path.join(VERIF, 'replays', '%s-%d.json' % (prop, s))
            os.makedirs(os.path.dirname(replay), exist_ok=True)
            with open(replay, 'w') as f:
                json.dump({'property': prop, 'kind': fin['kind'], 'detail': fin['detail'], 'hash': fin['hash'],
                           'seed': s, 'plan': plan2, 'log': fin.get('log', [])[-400:]}, f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
            lines.append('  kind=%s seed=%d variant=%s' % (fin['kind'], s, plan2['variant']))
            for l in (fin['detail'] or '').strip().split('\n')[:30]:
                lines.append('  | ' + l)
            kinds = {}
            for s2, r2 in fails:
                kinds[r2['kind']] = kinds.get(r2['kind'], 0) + 1
            lines.append('  failing runs before the search stopped: %d %s' % (len(fails), kinds))
    finally:
        lab.close()
    for f in reversed(kfs):
        lines.insert(0, 'KNOWN-FINDING: property=%s %s: %s (%d runs)' % (prop, f['id'], f['what'], known_seen.get(f['id'], 0)))
    if harness and not fails:
        rc = 2
        lines.append('HARNESS ERROR in %s:' % prop)
        lines += ['  ' + l for l in harness[0].strip().split('\n')[-25:]]
    wall = time.time() - t0
    faults = {k: v for k, v in sorted(agg.items()) if not k.startswith('probe_')}
    probes = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith('probe_')}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(shapes),
            'rule': mod.RULE,
            'samples': samp or ['(no completed run)'],
            'runs': done,
            'runs_planned': total,
            'stopped_by_time_cap': truncated,
            'seeds': [base, base + total - 1],
            'distinct_event_logs': len(hashes),
            'nontrivial_runs': nontriv,
            'runs_per_hour': int(done / max(wall_search, 0.001) * 3600),
            'seeds_per_hour': int(done / max(wall_search, 0.001) * 3600),
            'simulated_seconds': round(simtime / 1e6, 3),
            'simulator_steps': steps,
            'fault_and_event_counts': faults,
            'probes': probes,
            'variants': variants,
            'components_real': getattr(mod, 'REAL', []),
            'components_stub': getattr(mod, 'STUB', []),
            'known_findings_seen': known_seen,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': len(fails),
    }
    if save:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if not quiet:
        print('%s: %d runs (%d distinct non-trivial shapes), %.1f simulated s, %.1f s wall, %d violating, rc %d' % (
            prop, done, len(shapes), simtime / 1e6, wall, len(fails), rc))
        zero = [p for p in getattr(mod, 'PROBES', []) if not probes.get(p)]
        if zero:
            print('  probes never hit: ' + ' '.join(zero))
        for l in lines:
            print(l)
    return rc, ev, fails


def shorten(o, depth=0):
    if isinstance(o, list) and len(o) > 40:
        return [shorten(x, depth + 1) for x in o[:40]] + ['... %d more' % (len(o) - 40)]
    if isinstance(o, list):
        return [shorten(x, depth + 1) for x in o]
    if isinstance(o, dict):
        return {k: shorten(v, depth + 1) for k, v in o.items()}
    if isinstance(o, str) and len(o) > 300:
        return o[:300] + '...'
    return o


def replay_file(path, show=False):
    d = json.load(open(path))
    prop = d['property']
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        so = boot.build_ext(tmp) if d['plan']['variant'] == 'c' else ''
        lab = Lab(prop, so)
        try:
            r = lab.run(d['plan'], log=True)
        finally:
            lab.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if show:
        for l in r.get('log', []):
            print(l)
    same = r['v'] == 'violation' and r['kind'] == d['kind']
    exact = same and r['hash'] == d['hash']
    print('replay %s: %s %s (%s)' % (path, r['v'], r['kind'], 'event log identical' if exact else ('same violation' if same else 'NOT reproduced')))
    if r['detail']:
        print('\n'.join('  | ' + l for l in r['detail'].split('\n')[:40]))
    if r['v'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0 if r['v'] == 'ok' else 2
