import sys, os, argparse, traceback
from . import runner, boot


def main():
    a = sys.argv[1:]
    if a and a[0] == 'replay':
        return runner.replay_file(a[1], '-v' in a)
    if a and a[0] == 'selftest':
        from . import selftest
        return selftest.main(a[1:])
    if a and a[0] == 'setup':
        # nothing to install: compile the accelerator once to show that a check can, and remove it
        import tempfile, shutil
        d = tempfile.mkdtemp(prefix='verif-setup-')
        try:
            boot.build_ext(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print('setup ok')
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--no-minimise', action='store_true')
    ap.add_argument('--survey', type=int, nargs='?', const=400, default=0, help='do not stop at violations; list them by kind')
    o = ap.parse_args(a)
    tier = o.tier if o.tier in ('quick', 'thorough') else 'quick'
    if o.first >= runner.seed_base(o.seed):
        o.first -= runner.seed_base(o.seed)
    try:
        rc, ev, fails = runner.run_check(o.prop.upper(), tier, o.seed, runs=o.runs, jobs=o.jobs, time_cap=o.cap,
                                         first=o.first, do_minimise=not o.no_minimise, survey=o.survey)
    except boot.BuildError as e:
        print('the C accelerator of the working tree does not compile:\n%s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return rc


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
