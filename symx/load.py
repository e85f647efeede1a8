"""Import the code of /repo twice: once over the symbolic numpy, once over the
real one.  Sources are compiled from the working tree at every run."""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
import warnings

REPO = os.environ.get('DEMOD_REPO', '/repo')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

import numpy as np                       # noqa: E402
import pandas                            # noqa: E402,F401
import scipy.spatial.distance            # noqa: E402,F401
try:
    import matplotlib                    # noqa: F401
    matplotlib.use('Agg')
    import matplotlib.pyplot             # noqa: F401
    import matplotlib.patches            # noqa: F401
except Exception:                        # pragma: no cover
    pass

MODE = 'conc'
SETS = {}        # mode -> {module name: module}
LOADED_FILES = set()


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            data = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return compile(data, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        code = self.get_code(module.__name__)
        LOADED_FILES.add(module.__file__)
        if MODE == 'sym':
            from . import shim
            module.__dict__['__builtins__'] = shim.BUILTINS
        exec(code, module.__dict__)
        hook = AFTER.get(module.__name__)
        if hook:
            hook(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'demod' and not name.startswith('demod.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, f, loader=_Loader(name, f), submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=_Loader(name, base + '.py'))
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


sys.meta_path.insert(0, _Finder())


def _stub_init(cls):
    """No data set can be fetched here: the loader objects made as default
    arguments when a module is imported only need to exist."""
    def f(mod):
        c = getattr(mod, cls)
        c._real_init = c.__init__
        c.__init__ = lambda self, *a, **k: None
    return f


AFTER = {'demod.datasets.GermanTOU.loader': _stub_init('GTOU'),
         'demod.datasets.Germany.loader': _stub_init('GermanDataHerus'),
         'demod.datasets.CREST.loader': _stub_init('Crest'),
         'demod.datasets.RenewablesNinja.loader': _stub_init('NinjaRenewablesClimate'),
         'demod.datasets.OpenPowerSystems.loader': _stub_init('OpenPowerSystemClimate')}


def _is_demod(n):
    return n == 'demod' or n.startswith('demod.')


def activate(mode):
    """Make `mode`'s copies the ones found in sys.modules."""
    global MODE
    for n in [n for n in sys.modules if _is_demod(n)]:
        del sys.modules[n]
    sys.modules.update(SETS.setdefault(mode, {}))
    MODE = mode


def get(name, mode=None):
    """demod module `name` in the given mode."""
    mode = mode or MODE
    full = 'demod.' + name if name else 'demod'
    mods = SETS.setdefault(mode, {})
    if full in mods:
        return mods[full]
    prev = MODE
    activate(mode)
    saved = {}
    try:
        if mode == 'sym':
            from . import shim
            for k, v in EXTRA(shim).items():
                saved[k] = sys.modules.get(k)
                sys.modules[k] = v
        m = importlib.import_module(full)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        mods.update({n: sys.modules[n] for n in list(sys.modules) if _is_demod(n)})
        activate(prev)
    return m


def EXTRA(shim):
    d = shim.shim_modules()
    try:
        from . import dtshim
        d['datetime'] = dtshim.MODULE
    except ImportError:
        pass
    try:
        from . import extras
        d.update(extras.modules())
    except ImportError:
        pass
    return d
