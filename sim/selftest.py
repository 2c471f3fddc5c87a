"""check selftest [N [PROP...]]: the same N seeds of every property in two fresh processes with other hash seeds give the same histories"""
import os, queue, sys, glob, tempfile, shutil, importlib
from concurrent.futures import ThreadPoolExecutor
from . import runner, boot


def histories(prop, variant, so, seeds, hashseed):
    q = queue.Queue()
    w = runner.Worker(prop, variant, so, q, 0, hashseed)
    out = {}
    try:
        w.send({'cmd': 'seeds', 'seeds': seeds})
        while True:
            _, o = q.get(timeout=300)
            if 'fatal' in o or 'dead' in o:
                raise runner.HarnessFailure(str(o))
            if 'done' in o:
                return out
            if 'v' in o:
                out[o['seed']] = (o['v'], o['hash'], o['nch'], o['now'])
    finally:
        w.quit()


def main(args):
    n = int(args[0]) if args else 60
    props = [a.lower() for a in args[1:]] or sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(runner.VERIF, 'props', 'c[0-9]*.py')))
    tmp = tempfile.mkdtemp(prefix='verif-self-')
    bad = 0
    try:
        so = boot.build_ext(tmp)
        base = runner.seed_base(1)
        jobs = [(p, v) for p in props for v in getattr(importlib.import_module('props.' + p), 'VARIANTS', ('c', 'py'))]

        def one(job):
            p, v = job
            s = list(range(base, base + n))
            lib = so if v == 'c' else ''
            # the second process takes the seeds the other way round: no run may depend on those before it
            return job, histories(p.upper(), v, lib, s, '0'), histories(p.upper(), v, lib, s[::-1], '12345')
        with ThreadPoolExecutor(4) as ex:
            for (p, v), a, b in ex.map(one, jobs):
                d = [s for s in a if a[s] != b.get(s)]
                bad += len(d)
                print('%s %s %d seeds, %d differ%s' % (p.upper(), v, len(a), len(d), ' ' + ' '.join(map(str, d[:5])) if d else ''), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print('selftest', 'FAILED' if bad else 'ok')
    return 1 if bad else 0
