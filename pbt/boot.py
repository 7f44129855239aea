"""Start-up: unpack dependencies, put /repo first on the path, keep it clean."""
import glob
import os
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEPS = os.path.join(ROOT, '.deps')
WHEELS = '/opt/veriftools/wheels'
NEEDED = ('hypothesis-[0-9]*-cp312-*.whl', 'sortedcontainers-*.whl')


def ensure_deps():
    if not os.path.isdir(os.path.join(DEPS, 'hypothesis')):
        tmp = tempfile.mkdtemp(prefix='.deps-', dir=ROOT)
        for pattern in NEEDED:
            hits = sorted(glob.glob(os.path.join(WHEELS, pattern)))
            if not hits:
                hits = sorted(glob.glob(os.path.join(
                    WHEELS, pattern.replace('-cp312-*', '-py3-*'))))
            with zipfile.ZipFile(hits[-1]) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:         # somebody else was faster
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    if DEPS not in sys.path:
        sys.path.insert(1, DEPS)


def start():
    """Importable /repo, without leaving byte code or reading stale byte code"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-bytecode')
    ensure_deps()
    sys.path.insert(0, REPO)
    import quantities
    where = os.path.dirname(os.path.dirname(os.path.abspath(quantities.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        raise RuntimeError('quantities imported from %s, not %s' % (where, REPO))
