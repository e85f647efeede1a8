"""Stand-ins for the small standard modules that would meet symbolic values."""
import io
import json
import os
import shutil
import types

import numpy as np

from . import core
from .core import _is_sym


class MemFile:
    """A text file of this execution; json values are kept unwritten."""

    def __init__(self, store, path, mode):
        self.store, self.path, self.mode = store, path, mode
        if 'w' in mode or 'x' in mode:
            if 'x' in mode and path in store:
                raise FileExistsError(17, 'File exists', path)
            check_dir(path)
            store[path] = {'text': '', 'obj': None}
        elif path not in store:
            if 'a' not in mode:
                raise FileNotFoundError(2, 'No such file or directory', path)
            store[path] = {'text': '', 'obj': None}
        self.d = store[path]

    def write(self, s):
        self.d['text'] += s
        return len(s)

    def read(self):
        if self.d['obj'] is not None:
            raise core.Unsupported('text of a file holding symbolic json')
        return self.d['text']

    def __iter__(self):
        return iter(self.read().splitlines(True))

    def close(self):
        pass

    flush = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def check_dir(path):
    d = os.path.dirname(path)
    if d and not os.path.isdir(d):
        raise FileNotFoundError(2, 'No such file or directory', path)


def open_(path, mode='r', *a, **kw):
    from . import shim
    files = shim._files()
    p = str(path)
    if p in files or set(mode) & set('wax'):
        return MemFile(files, p, mode)
    return open(path, mode, *a, **kw)


def _plain(x):
    """What json would write: refuses what it refuses."""
    if x is None or isinstance(x, (str, bool, int, float)) and not isinstance(x, np.generic):
        return x
    if isinstance(x, np.str_):
        return str(x)
    if isinstance(x, np.float64):
        return float(x)
    if _is_sym(x):
        return x
    if isinstance(x, (list, tuple)):
        return [_plain(e) for e in x]
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if _is_sym(k):
                raise core.Unsupported('symbolic json key')
            if isinstance(k, (str, int, float, bool)) or k is None:
                k = json.loads(json.dumps({k: 0})).popitem()[0]
            else:
                raise TypeError('keys must be str, int, float, bool or None, not ' + type(k).__name__)
            out[k] = _plain(v)
        return out
    raise TypeError('Object of type %s is not JSON serializable' % type(x).__name__)


def dump(obj, f, **kw):
    if isinstance(f, MemFile):
        f.d['obj'] = _plain(obj)
    else:
        json.dump(obj, f, **kw)


def load(f, **kw):
    if isinstance(f, MemFile):
        if f.d['obj'] is None:
            return json.loads(f.d['text'], **kw)
        return _plain(f.d['obj'])
    return json.load(f, **kw)


def _vfiles():
    from . import shim
    return shim._files() if getattr(core.CUR, 'draws', None) is not None else {}


def _copy(mod):
    m = types.ModuleType(mod.__name__)
    m.__dict__.update({k: v for k, v in mod.__dict__.items() if not k.startswith('__')})
    return m


def _under(p):
    p = os.path.join(os.fspath(p), '')
    return [k for k in _vfiles() if k.startswith(p)]


def _os():
    """The real one, that also knows the files written in this execution."""
    m = _copy(os)
    m.path = _copy(os.path)
    m.path.isfile = lambda p: os.fspath(p) in _vfiles() or os.path.isfile(p)
    m.path.exists = m.path.lexists = lambda p: os.fspath(p) in _vfiles() or os.path.exists(p)

    def remove(p, **kw):
        if _vfiles().pop(os.fspath(p), None) is None:
            os.remove(p, **kw)

    def replace(a, b, **kw):
        f = _vfiles()
        if os.fspath(a) in f:
            check_dir(os.fspath(b))
            f[os.fspath(b)] = f.pop(os.fspath(a))
        else:
            os.replace(a, b, **kw)

    def listdir(p='.'):
        d = os.path.join(os.fspath(p), '')
        return os.listdir(p) + [k[len(d):] for k in _under(p) if os.sep not in k[len(d):]]
    m.remove = m.unlink = remove
    m.replace = m.rename = replace
    m.listdir = listdir
    s = _copy(shutil)

    def rmtree(p, *a, **kw):
        for k in _under(p):
            _vfiles().pop(k)
        shutil.rmtree(p, *a, **kw)
    s.rmtree = rmtree
    s.move = replace
    return {'os': m, 'os.path': m.path, 'shutil': s}


def modules():
    m = _copy(json)
    m.dump, m.load = dump, load
    return dict(_os(), json=m)


class Interp1d:
    """scipy.interpolate.interp1d, linear in increasing x, refusing what lies outside."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=float('nan'),
                 assume_sorted=False):
        from .arrays import S
        if kind not in ('linear', 1) or bounds_error is False:
            raise core.Unsupported('kind of interpolation')
        self.x, self.y = S(x).copy(), S(y).copy()
        if self.x.ndim != 1 or self.y.ndim != 1 or len(self.x) != len(self.y):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')

    def __call__(self, new):
        from .arrays import S, vec
        xs, ys = list(self.x.a), list(self.y.a)

        def one(v):
            if bool(core.logic('|', core.compare('<', v, xs[0]), core.compare('>', v, xs[-1]))):
                raise ValueError('A value in x_new is out of the interpolation range.')
            if len(xs) == 1:
                return ys[0]
            out = None
            for i in range(len(xs) - 1, 0, -1):
                slope = core.binop('/', core.binop('-', ys[i], ys[i - 1]), core.binop('-', xs[i], xs[i - 1]))
                y = core.binop('+', ys[i - 1], core.binop('*', slope, core.binop('-', v, xs[i - 1])))
                out = y if out is None else core.ite(core.compare('<=', v, xs[i]), y, out)
            return out
        return S(vec(one, 'f', S(new)))
