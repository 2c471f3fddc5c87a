"""
Worker process: one interpreter, one variant of the code under test.
Reads jobs (JSON lines) on stdin, writes results (JSON lines) on fd 1.
"""
import sys, os, json, gc, importlib


def main():
    variant, so, prop = sys.argv[1:4]
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_WORKER_STDERR'):
        os.dup2(devnull, 2)

    def emit(o):
        out.write(json.dumps(o) + '\n')
        out.flush()
    try:
        from . import net, osworld, boot
        net.install()
        osworld.install()
        boot.load(variant, so or None)
        from . import client
        client.prepare()
        from . import engine
        mod = importlib.import_module('props.' + prop.lower())
        setup = getattr(mod, 'setup', None)
        if setup is not None:
            setup(variant)
    except BaseException:
        import traceback
        tb = traceback.format_exc()
        emit({'fatal': tb})
        return
    gc.collect(); gc.freeze()      # collections during a run need not look at modules
    gc.disable()
    emit({'hello': os.getpid()})
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        if job['cmd'] == 'seeds':
            for s in job['seeds']:
                emit({'start': s})
                p = engine.gen_plan(mod, s, variant, job.get('tier', 'quick'))
                r = engine.run_plan(mod, p)
                r['seed'] = s
                if r['v'] != 'ok' or job.get('plans'):
                    # (not p: the run may have changed it)
                    r['plan'] = engine.gen_plan(mod, s, variant, job.get('tier', 'quick'))
                emit(r)
                if r['stuck']:
                    out.flush()
                    os._exit(3)
                n += 1
                if n % 50 == 0:
                    gc.collect()
            emit({'done': job.get('id')})
        elif job['cmd'] == 'gen':
            emit({'plan': engine.gen_plan(mod, job['seed'], variant, job.get('tier', 'quick'))})
        elif job['cmd'] == 'plan':
            r = engine.run_plan(mod, job['plan'], keep_log=job.get('log', False))
            emit({'result': r, 'id': job.get('id')})
            if r['stuck']:
                out.flush()
                os._exit(3)
            gc.collect()
        elif job['cmd'] == 'quit':
            return


if __name__ == '__main__':
    main()
