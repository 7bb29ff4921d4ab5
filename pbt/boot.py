"""Environment of the checks: dependencies, the repository under test, scratch space."""
import atexit
import importlib.machinery
import os
import shutil
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
DEPS = os.path.join(VERIF, '.deps')
VENDOR = os.path.join(VERIF, 'vendor')


def unpack(target):
    os.makedirs(target, exist_ok=True)
    for whl in sorted(os.listdir(VENDOR)):
        if whl.endswith('.whl'):
            with zipfile.ZipFile(os.path.join(VENDOR, whl)) as z:
                z.extractall(target)
    with open(os.path.join(target, '.complete'), 'w') as f:
        f.write('ok\n')


def deps_dir():
    if os.path.exists(os.path.join(DEPS, '.complete')):
        return DEPS
    try:
        tmp = tempfile.mkdtemp(prefix='.deps', dir=VERIF)
        unpack(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        if os.path.exists(os.path.join(DEPS, '.complete')):
            return DEPS
    except OSError:
        pass
    tmp = tempfile.mkdtemp(prefix='vp_deps_')
    atexit.register(shutil.rmtree, tmp, True)
    unpack(tmp)
    return tmp


class _SourceOnly(importlib.machinery.SourceFileLoader):
    """compiles the source on every import; byte code caches are ignored"""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def _repo_hook(path):
    if path != REPO and not path.startswith(REPO + os.sep):
        raise ImportError
    return importlib.machinery.FileFinder(path, (_SourceOnly, ['.py']))


def start():
    """Make hypothesis and the repository's current working tree importable."""
    scratch = os.environ.get('VP_SCRATCH')
    if not scratch or not os.path.isdir(scratch):
        scratch = tempfile.mkdtemp(prefix='vp_scratch_')
        os.environ['VP_SCRATCH'] = scratch
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    # byte code of /repo is neither read nor written: the working tree decides
    sys.dont_write_bytecode = True
    sys.path_hooks.insert(0, _repo_hook)
    sys.path_importer_cache.clear()
    d = os.environ.get('VP_DEPS') or deps_dir()
    os.environ['VP_DEPS'] = d
    sys.path[:] = [p for p in sys.path if p not in (d, REPO)]
    sys.path.insert(0, d)
    sys.path.insert(0, REPO)
    return scratch


if __name__ == '__main__':
    if not os.path.exists(os.path.join(DEPS, '.complete')):
        shutil.rmtree(DEPS, ignore_errors=True)
    sys.path.insert(0, deps_dir())
    import hypothesis
    print('hypothesis', hypothesis.__version__, 'in', deps_dir())
