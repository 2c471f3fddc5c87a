"""
Loading the code under test.

Python sources are imported straight from REPO (default /repo).  The C accelerator
is compiled from REPO's current sources into a scratch directory (never from the .so
that may lie in the tree) and offered under its real name
`postgresql.port.optimized`; in the 'py' variant that import fails, which selects
the pure-Python fallbacks the package itself provides.
"""
import sys, os, importlib, importlib.util, importlib.machinery, subprocess, sysconfig, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
EXT = 'postgresql.port.optimized'


class BuildError(Exception):
    pass


def c_sources():
    d = os.path.join(REPO, 'postgresql', 'port', '_optimized')
    return [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith(('.c', '.h'))]


def build_ext(outdir):
    """compile the accelerator from REPO's sources into outdir, return the path."""
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, 'optimized' + sysconfig.get_config_var('EXT_SUFFIX'))
    src = os.path.join(REPO, 'postgresql', 'port', '_optimized', 'module.c')
    inc = sysconfig.get_paths()['include']
    cmd = ['gcc', '-shared', '-fPIC', '-O1', '-g0', '-fwrapv', '-w', '-I' + inc, src, '-o', out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(p.stdout[-4000:])
    return out


class _Finder:
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name != EXT:
            return None
        if self.path is None:
            raise ImportError('accelerator disabled for this run', name=name)
        loader = importlib.machinery.ExtensionFileLoader(name, self.path)
        return importlib.util.spec_from_file_location(name, self.path, loader=loader)


def load(variant, sopath=None):
    """make `postgresql` importable from REPO; variant is 'c' or 'py'."""
    sys.dont_write_bytecode = True
    assert not any(m == 'postgresql' or m.startswith('postgresql.') for m in sys.modules)
    sys.meta_path.insert(0, _Finder(sopath if variant == 'c' else None))
    sys.path[:] = [REPO] + [p for p in sys.path if os.path.abspath(p or '.') != os.path.abspath(REPO)]
    import postgresql
    assert os.path.dirname(os.path.dirname(os.path.abspath(postgresql.__file__))) == os.path.abspath(REPO), postgresql.__file__
    if variant == 'c':
        import postgresql.port.optimized as o
        assert o.__file__ == sopath
