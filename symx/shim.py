"""A module that stands for `numpy` when the code of /repo runs symbolically.

Numeric data always lives in SymArray; strings, dates and objects stay in real
numpy arrays.  Functions are (a) given symbolic semantics here, (b) applied to
the inner object arrays when they only move data, or (c) run by the real numpy
when every argument is concrete.
"""
import builtins
import math
import sys
import types
import itertools

import numpy as np
import z3

from . import core, arrays
from .core import (SNum, SBool, Unsupported, binop, ite, cast, py, kind_of, lnot, truth, compare, logic,
                   concretize, _is_sym, is_conc_num, eng)
from .arrays import (SymArray, S, mk, out, ret, vec, conc_array, force_conc, reduce_, scan_, _sum, _prod, _max,
                     _min, _any, _all, _argbest, sort_els, argsort_els, array_op, array_ufunc, ufunc_call, wrap,
                     has_sym, dt_kind, promote, GARBAGE, KDT, _obj, _isnan, _norm_axis)

FUNCS = {}


def fn(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def _is_arr(x):
    return isinstance(x, (SymArray, np.ndarray))


def unwrap(x):
    """Concrete value of a nested argument, or raises KeyError('sym')."""
    if isinstance(x, SymArray):
        r = conc_array(x)
        if r is None:
            raise KeyError('sym')
        return r
    if _is_sym(x):
        raise KeyError('sym')
    if type(x) in (list, tuple):
        return type(x)(unwrap(e) for e in x)
    if type(x) is dict:
        return {k: unwrap(v) for k, v in x.items()}
    if isinstance(x, type):
        return real_dtype(x)
    return x


def real_dtype(t):
    m = {IntShim: int, FloatShim: float, BoolShim: bool}
    try:
        return m.get(t, t)
    except TypeError:
        return t


def all_conc(*args, **kw):
    try:
        unwrap(args)
        unwrap(kw)
        return True
    except KeyError:
        return False


def run_real(f, args, kwargs):
    with np.errstate(all='ignore'):
        return wrap(f(*unwrap(args), **unwrap(kwargs)))


# ------------------------------------------------- builtins replacements

class _NumMeta(type):
    def __instancecheck__(cls, x):
        if cls is IntShim:
            return builtins.isinstance(x, builtins.int) or (isinstance(x, SNum) and x.kind == 'i')
        if cls is FloatShim:
            return builtins.isinstance(x, builtins.float) or (isinstance(x, SNum) and x.kind == 'f')
        return builtins.isinstance(x, builtins.bool)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls._base) if sub not in (IntShim, FloatShim, BoolShim) else True

    def __call__(cls, *args, **kw):
        if args:
            x = args[0]
            if isinstance(x, SymArray):
                if x.size != 1:
                    raise TypeError('only length-1 arrays can be converted to Python scalars')
                x = x.a.reshape(-1)[0]
                args = (x,) + args[1:]
            if _is_sym(x) and len(args) == 1:
                if cls is IntShim:
                    return cast(x, 'i') if kind_of(x) != 'f' else core.trunc_int(x)
                if cls is FloatShim:
                    return cast(x, 'f')
                return builtins.bool(x)
        return cls._base(*args, **kw)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)

    def __or__(cls, o):
        return cls._base | o

    def __getattr__(cls, name):
        return getattr(cls._base, name)


class IntShim(metaclass=_NumMeta):
    _base = int


class FloatShim(metaclass=_NumMeta):
    _base = float


class BoolShim(metaclass=_NumMeta):
    _base = bool


for _c, _b in ((IntShim, int), (FloatShim, float), (BoolShim, bool)):
    _c.__name__ = _b.__name__
    _c.__qualname__ = _b.__name__


def _type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (SymArray,)):
            return NdShim
        if isinstance(x, SNum):
            return IntShim if x.kind == 'i' else FloatShim
        if isinstance(x, SBool):
            return BoolShim
        t = builtins.type(x)
        return {int: IntShim, float: FloatShim, bool: BoolShim}.get(t, t)
    return builtins.type(*a)


def _bmax(*args, key=None, default=None, **kw):
    return _bminmax('max', builtins.max, _max, args, key, default, kw)


def _bmin(*args, key=None, default=None, **kw):
    return _bminmax('min', builtins.min, _min, args, key, default, kw)


def _bminmax(nm, real, red, args, key, default, kw):
    els = list(args[0]) if len(args) == 1 else list(args)
    if key is None and els and all(_is_sym(e) or is_conc_num(e) for e in els) and any(_is_sym(e) for e in els):
        return red(els)
    k = {}
    if key is not None:
        k['key'] = key
    if default is not None:
        k['default'] = default
    if len(args) == 1:
        return real(els, **k)
    return real(*args, **k)


def _bround(x, n=None):
    if _is_sym(x):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def _bisinstance(x, t):
    return builtins.isinstance(x, t)


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(int=IntShim, float=FloatShim, bool=BoolShim, type=_type, max=_bmax, min=_bmin, round=_bround)


def _bopen(*a, **kw):
    from . import extras
    return extras.open_(*a, **kw)


BUILTINS['open'] = _bopen


# ------------------------------------------------- ndarray stand-in

class _NdMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (SymArray, np.ndarray))

    def __call__(cls, shape, dtype=float, **kw):
        return FUNCS['empty'](shape, dtype)


class NdShim(metaclass=_NdMeta):
    pass


NdShim.__name__ = 'ndarray'


class _GenMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, cls._real) or (
            _is_sym(x) and kind_of(x) in cls._kinds)

    def __call__(cls, x=0):
        if _is_sym(x):
            return cast(x, cls._kinds[0])
        if isinstance(x, SymArray):
            return x.astype(KDT[cls._kinds[0]])
        return cls._real(x)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _gen(name, real, kinds):
    c = _GenMeta(name, (), {'_real': real, '_kinds': kinds})
    return c


class Int64(metaclass=_GenMeta):
    _real, _kinds = np.int64, 'i'


GENERIC = {n: _gen(n, getattr(np, n), k) for n, k in (
    ('generic', 'bif'), ('number', 'if'), ('integer', 'i'), ('floating', 'f'), ('bool_', 'b'))}


# ------------------------------------------------- constructors

def _dtk(dtype):
    d = real_dtype(dtype)
    if isinstance(d, _GenMeta):
        d = d._real
    return dt_kind(d)


def _rdt(dtype):
    d = real_dtype(dtype)
    if isinstance(d, _GenMeta):
        d = d._real
    return d


def _is_dt(x, dtype):
    """A datetime64 or timedelta64 array is concerned."""
    from . import dt64
    if dtype is not None:
        return dt64.unit_of(dtype) is not None
    return isinstance(x, dt64.D64)


@fn('datetime64')
def datetime64(x, unit=None):
    from . import dt64
    return dt64.make(x, 'datetime64' if unit is None else 'datetime64[%s]' % unit)


@fn('timedelta64')
def timedelta64(x, unit=None):
    from . import dt64
    return dt64.make(x, 'timedelta64' if unit is None else 'timedelta64[%s]' % unit)


@fn('array')
def array(x, dtype=None, copy=True, ndmin=0, **kw):
    if _is_dt(x, dtype):
        from . import dt64
        r = dt64.make(x, dtype if dtype is not None else 'datetime64')
        return r.copy() if r is x else r
    r = asarray(x, dtype)
    if r is x or (isinstance(r, SymArray) and isinstance(x, SymArray)) or r is x:
        r = r.copy()
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


@fn('asarray', 'asanyarray', 'ascontiguousarray')
def asarray(x, dtype=None, **kw):
    if _is_dt(x, dtype):
        from . import dt64
        return x if dtype is None else dt64.make(x, dtype)
    k = _dtk(dtype) if dtype is not None else None
    if isinstance(x, SymArray):
        if dtype is None or (k == x.k):
            return x
        return x.astype(_rdt(dtype))
    if isinstance(x, np.ndarray):
        if dtype is not None and x.dtype.kind not in 'biuf':
            x = x.astype(_rdt(dtype))
        if x.dtype.kind not in 'biuf' and not (x.dtype == object and has_sym(x)):
            return x
    elif not has_sym(x):
        if isinstance(x, (list, tuple)) or _has_inner(x):
            x2 = unwrap(x) if not isinstance(x, (set, dict)) else x
        else:
            x2 = x
        r = np.array(x2, dtype=_rdt(dtype)) if not isinstance(x2, np.ndarray) else x2
        if r.dtype.kind in 'biuf':
            return S(r) if k is None else mk(S(r).a, k)
        return r
    elif isinstance(x, (list, tuple)) and not _is_sym(x):
        try:
            x2 = unwrap(x)
            r = np.array(x2, dtype=_rdt(dtype))
            if r.dtype.kind in 'biuf':
                return S(r) if k is None else mk(S(r).a, k)
            return r
        except KeyError:
            pass
        if k == 'O' and np.dtype(_rdt(dtype)).kind == 'O':
            pass
    r = S(x)
    if isinstance(x, (list, tuple, np.ndarray)) or True:
        if k is not None:
            r = SymArray(r.a, r.k).astype(_rdt(dtype)) if k != r.k else r
    return r


def _has_inner(x):
    return False


@fn('asfarray')
def asfarray(x, dtype=float):
    return S(asarray(x)).astype(float)


def _shape(s):
    if isinstance(s, SymArray):
        s = tuple(force_conc(s).reshape(-1))
    if isinstance(s, (tuple, list)):
        return tuple(int(concretize(e)) for e in s)
    return (int(concretize(s)),)


def _full(shape, v, k):
    o = _obj(_shape(shape))
    o.fill(v)
    return SymArray(o, k)


ZERO = {'b': np.False_, 'i': 0, 'f': 0.0}
ONE = {'b': np.True_, 'i': 1, 'f': 1.0}


def _ctor(vals, realname):
    def f(shape, dtype=float, **kw):
        k = _dtk(dtype) or 'f'
        if k == 'O':
            return getattr(np, realname)(_shape(shape), dtype=_rdt(dtype))
        return _full(shape, vals[k], k)
    return f


FUNCS['zeros'] = _ctor(ZERO, 'zeros')
FUNCS['ones'] = _ctor(ONE, 'ones')
FUNCS['empty'] = _ctor({'f': GARBAGE['f'], 'i': GARBAGE['i'], 'b': np.True_}, 'empty')


@fn('full')
def full(shape, fill, dtype=None, **kw):
    if dtype is None and not isinstance(fill, (SymArray, np.ndarray, list, tuple)):
        k = kind_of(fill)
    else:
        k = _dtk(dtype) if dtype is not None else S(fill).k
    if k == 'O':
        return np.full(_shape(shape), fill, dtype=_rdt(dtype))
    if isinstance(fill, (SymArray, np.ndarray, list, tuple)):
        r = mk(np.broadcast_to(S(fill).a, _shape(shape)).copy(), k)
        return r
    return _full(shape, cast(py(fill) if not _is_sym(fill) else fill, k), k)


def _like(which):
    def f(x, *args, dtype=None, shape=None, **kw):
        if which == 'full':
            fill, args = args[0], args[1:]
        if args:
            dtype = args[0]
        if isinstance(x, np.ndarray) and x.dtype.kind not in 'biuf' and dtype is None:
            if which == 'full':
                return np.full_like(x, fill)
            return getattr(np, which + '_like')(x)
        x = asarray(x)
        k = _dtk(dtype) if dtype is not None else S(x).k
        shp = x.shape if shape is None else shape
        if which == 'full':
            return full(shp, fill, KDT[k])
        return FUNCS[which](shp, KDT[k])
    return f


for _w in ('zeros', 'ones', 'empty', 'full'):
    FUNCS[_w + '_like'] = _like(_w)


@fn('arange')
def arange(*a, dtype=None, **kw):
    if has_sym(list(a)):
        if all(kind_of(e) == 'i' for e in a):
            a = [concretize(e) for e in a]
        else:
            raise Unsupported('arange of symbolic reals')
    a = [int(e) if isinstance(e, np.integer) else e for e in a]
    return wrap(np.arange(*a, dtype=_rdt(dtype)))


@fn('linspace')
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(concretize(num))
    if all_conc(start, stop) and not retstep:
        r = np.linspace(start, stop, num, endpoint=endpoint)
        r = wrap(r)
    else:
        div = num - 1 if endpoint else num
        step = binop('/', binop('-', stop, start), div)
        r = mk(S([cast(binop('+', start, binop('*', step, i)), 'f') for i in range(num)]).a, 'f')
    return r.astype(_rdt(dtype)) if dtype is not None else r


@fn('fromiter')
def fromiter(it, dtype, count=-1, **kw):
    return asarray(list(it), dtype)


@fn('copy')
def copy(x, **kw):
    return array(x)


# ------------------------------------------------- structural functions

def _mixed(parts):
    """Parts for stacking; returns (list of object arrays, kind) or None if real."""
    ps = [asarray(p) for p in parts]
    if any(isinstance(p, np.ndarray) and p.dtype.kind not in 'biuf' for p in ps):
        return [force_conc(p) if isinstance(p, SymArray) else p for p in ps], None
    ps = [S(p) for p in ps]
    k = promote(*[p.k for p in ps])
    return [p.a for p in ps], k


def _joiner(name):
    real = getattr(np, name)

    def f(parts, *args, **kw):
        if isinstance(parts, SymArray):
            parts = list(parts)
        kw.pop('dtype', None)
        ps, k = _mixed(list(parts))
        r = real(ps, *args, **kw)
        if k is None:
            return r
        return mk(r.copy(), k)
    return f


for _n in ('concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'dstack', 'row_stack'):
    FUNCS[_n] = _joiner(_n)


@fn('append')
def append(x, v, axis=None):
    if axis is None:
        x, v = asarray(x), asarray(v)
        return FUNCS['concatenate']([x.reshape(-1), v.reshape(-1)])
    return FUNCS['concatenate']([x, v], axis=axis)


@fn('insert')
def insert(x, idx, v, axis=None):
    x, v = S(asarray(x)), S(asarray(v))
    idx = unwrap(idx)
    return mk(np.insert(x.a, idx, mk(v.a.copy(), x.k).a, axis=axis), x.k)


@fn('delete')
def delete(x, idx, axis=None):
    if isinstance(idx, SymArray):
        idx = force_conc(idx)
    idx = concretize(idx) if _is_sym(idx) else idx
    x = asarray(x)
    if isinstance(x, np.ndarray):
        return np.delete(x, idx, axis)
    return SymArray(np.delete(x.a, idx, axis), x.k)


def _view1(name):
    real = getattr(np, name)

    def f(x, *args, **kw):
        x = asarray(x)
        args = unwrap_idx(args)
        kw = {k: unwrap_idx((v,))[0] for k, v in kw.items()}
        if isinstance(x, np.ndarray):
            return real(x, *args, **kw)
        r = real(x.a, *args, **kw)
        if isinstance(r, (list, tuple)):
            return [SymArray(e, x.k) for e in r]
        return SymArray(r, x.k)
    return f


def unwrap_idx(args):
    def u(e):
        if isinstance(e, SymArray):
            return force_conc(e)
        if _is_sym(e):
            return int(concretize(e))
        if isinstance(e, (tuple, list)):
            return type(e)(u(q) for q in e)
        return e
    return tuple(u(e) for e in args)


for _n in ('reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'expand_dims', 'squeeze', 'tile',
           'repeat', 'roll', 'flip', 'fliplr', 'flipud', 'broadcast_to', 'atleast_1d', 'atleast_2d', 'split',
           'array_split', 'hsplit', 'vsplit', 'diagonal', 'triu', 'tril', 'rot90', 'resize', 'pad'):
    FUNCS[_n] = _view1(_n)


@fn('pad')
def pad(x, w, mode='constant', constant_values=0, **kw):
    x = asarray(x)
    if mode == 'constant':
        r = np.pad(x.a, unwrap_idx((w,))[0], mode='constant', constant_values=constant_values)
        return mk(r, x.k)
    return SymArray(np.pad(x.a, unwrap_idx((w,))[0], mode=mode, **kw), x.k)


@fn('broadcast_arrays')
def broadcast_arrays(*xs, **kw):
    return [SymArray(a, S(x).k) for a, x in zip(np.broadcast_arrays(*[S(x).a for x in xs]), xs)]


@fn('meshgrid')
def meshgrid(*xs, **kw):
    return [SymArray(a.copy(), S(x).k) for a, x in zip(np.meshgrid(*[S(x).a for x in xs], **kw), xs)]


@fn('shape')
def shape(x):
    return asarray(x).shape


@fn('ndim')
def ndim(x):
    return asarray(x).ndim


@fn('size')
def size(x, axis=None):
    return asarray(x).size if axis is None else asarray(x).shape[axis]


@fn('diag')
def diag(x, k=0):
    x = S(asarray(x))
    if x.ndim == 2:
        return SymArray(np.diag(x.a, k).copy(), x.k)
    return mk(np.diag(x.a, k).copy(), x.k)


@fn('eye', 'identity')
def eye(n, M=None, dtype=float, **kw):
    return wrap(np.eye(int(n), M, dtype=_rdt(dtype)))


@fn('take')
def take(x, idx, axis=None, **kw):
    x = S(asarray(x))
    if axis is None:
        return x.reshape(-1)[idx]
    ax = _norm_axis(axis, x.ndim)
    return x[(slice(None),) * ax + (idx,)]


@fn('take_along_axis')
def take_along_axis(x, idx, axis):
    x, idx = S(asarray(x)), S(asarray(idx))
    if axis is None:
        return x.reshape(-1)[idx]
    ax = _norm_axis(axis, x.ndim)
    xm = np.moveaxis(x.a, ax, -1)
    im = np.moveaxis(idx.a, ax, -1)
    shp = np.broadcast_shapes(xm.shape[:-1], im.shape[:-1])
    xm = np.broadcast_to(xm, shp + xm.shape[-1:])
    im = np.broadcast_to(im, shp + im.shape[-1:])
    r = _obj(im.shape)
    for p in np.ndindex(*shp):
        row = SymArray(xm[p], x.k)
        for j in range(im.shape[-1]):
            r[p + (j,)] = _sc(row[im[p + (j,)]])
    return mk(np.moveaxis(r, -1, ax).copy(), x.k)


def _sc(e):
    if isinstance(e, SymArray):
        return e.a.reshape(-1)[0]
    return py(e) if not _is_sym(e) else e


@fn('choose')
def choose(idx, choices, **kw):
    idx = S(idx)
    cs = [np.broadcast_to(S(c).a, idx.shape) for c in choices]
    k = promote(*[S(c).k for c in choices])
    r = _obj(idx.shape)
    for p in np.ndindex(*idx.shape):
        v = cs[-1][p]
        for q in range(len(cs) - 2, -1, -1):
            v = ite(compare('==', idx.a[p], q), cs[q][p], v)
        r[p] = v
    return out(r, k)


# ------------------------------------------------- reductions

def _out(r, o):
    if o is not None:
        o[...] = r
        return o
    return r


def _where_fill(x, where, fill):
    if where is True or where is None:
        return x
    return S(vec(lambda c, a: ite(truth(c), a, fill), S(x).k, where, x))


@fn('sum')
def sum_(x, axis=None, dtype=None, out=None, keepdims=False, where=True, initial=None):
    if isinstance(x, types.GeneratorType):
        x = list(x)
    x = S(asarray(x))
    x = _where_fill(x, where, ZERO[x.k])
    k = 'i' if x.k == 'b' else x.k
    r = reduce_(x, _sum, axis, keepdims, k)
    if initial is not None:
        r = r + initial
    if dtype is not None:
        r = S(r).astype(_rdt(dtype))
        r = r[()] if r.ndim == 0 else r
    return _out(r, out)


@fn('prod', 'product')
def prod_(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    x = S(asarray(x))
    return _out(reduce_(x, _prod, axis, keepdims, 'i' if x.k == 'b' else x.k), out)


@fn('max', 'amax')
def max_(x, axis=None, out=None, keepdims=False, initial=None, where=True):
    x = S(asarray(x))
    f = _max if initial is None else (lambda e: _max([cast(initial, x.k)] + e))
    if where is not True:
        x = _where_fill(x, where, initial)
    return _out(reduce_(x, f, axis, keepdims, x.k), out)


@fn('min', 'amin')
def min_(x, axis=None, out=None, keepdims=False, initial=None, where=True):
    x = S(asarray(x))
    f = _min if initial is None else (lambda e: _min([cast(initial, x.k)] + e))
    if where is not True:
        x = _where_fill(x, where, initial)
    return _out(reduce_(x, f, axis, keepdims, x.k), out)


@fn('ptp')
def ptp(x, axis=None, **kw):
    return max_(x, axis) - min_(x, axis)


@fn('any', 'sometrue')
def any_(x, axis=None, out=None, keepdims=False, **kw):
    x = asarray(x)
    if isinstance(x, np.ndarray):
        return x.any(axis)
    return _out(reduce_(x, _any, axis, keepdims, 'b'), out)


@fn('all', 'alltrue')
def all_(x, axis=None, out=None, keepdims=False, **kw):
    x = asarray(x)
    if isinstance(x, np.ndarray):
        return x.all(axis)
    return _out(reduce_(x, _all, axis, keepdims, 'b'), out)


def _count(x, axis):
    if axis is None:
        return x.size
    ax = axis if isinstance(axis, tuple) else (axis,)
    n = 1
    for q in ax:
        n *= x.shape[q]
    return n


@fn('mean')
def mean(x, axis=None, dtype=None, out=None, keepdims=False, where=True):
    x = S(asarray(x))
    if where is not True:
        s = sum_(x, axis, keepdims=keepdims, where=where)
        c = sum_(np.broadcast_to(S(where).a, x.shape) * 1, axis, keepdims=keepdims) \
            if False else sum_(S(array_op('&', S(where), mk(np.full(x.shape, True, dtype=object), 'b'))), axis,
                               keepdims=keepdims)
        return s / c
    n = _count(x, axis)
    s = sum_(x, axis, keepdims=keepdims)
    if n == 0:
        return _out(S(s).astype(float) * float('nan'), out)
    return _out(array_op('/', s, n), out)


@fn('average')
def average(x, axis=None, weights=None, returned=False, **kw):
    if weights is None:
        return mean(x, axis)
    x, w = S(asarray(x)), S(asarray(weights))
    if w.shape != x.shape:
        if axis is None or w.ndim != 1:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        shp = [1] * x.ndim
        shp[axis] = w.shape[0]
        if w.shape[0] != x.shape[axis]:
            raise ValueError('Length of weights not compatible with specified axis.')
        w = SymArray(np.broadcast_to(w.a.reshape(shp), x.shape), w.k)
    s = sum_(w, axis)
    z = any_(array_op('==', s, 0))
    if z:
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = array_op('/', sum_(array_op('*', x, w), axis), s)
    return (r, s) if returned else r


@fn('var')
def var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    x = S(asarray(x))
    m = mean(x, axis, keepdims=True) if axis is not None else mean(x)
    d = array_op('-', x, m)
    return array_op('/', sum_(array_op('*', d, d), axis, keepdims=keepdims), _count(x, axis) - ddof)


@fn('std')
def std(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return ufunc_call('sqrt', (var(x, axis, ddof=ddof, keepdims=keepdims),))


def _arg(op):
    g = _argbest(op)

    def f(x, axis=None, out=None, keepdims=False, **kw):
        x = S(asarray(x))
        return _out(reduce_(x, g, axis, keepdims, 'i'), out)
    return f


FUNCS['argmax'] = _arg('>')
FUNCS['argmin'] = _arg('<')


def _nn(els):
    return [e for e in els if not _isnan(e)]


def _nanred(f, empty):
    def g(x, axis=None, keepdims=False, **kw):
        x = S(asarray(x))

        def h(els):
            q = _nn(els)
            if not q:
                if empty is ValueError:
                    raise ValueError('All-NaN slice encountered')
                return empty
            return f(q)
        return reduce_(x, h, axis, keepdims, None)
    return g


FUNCS['nansum'] = _nanred(_sum, 0.0)
FUNCS['nanmax'] = _nanred(_max, float('nan'))
FUNCS['nanmin'] = _nanred(_min, float('nan'))
FUNCS['nanmean'] = _nanred(lambda q: binop('/', _sum(q), len(q)), float('nan'))


def _nanarg(op):
    g = _argbest(op)

    def h(els):
        if not _nn(els):
            raise ValueError('All-NaN slice encountered')
        inf = float('-inf') if op == '>' else float('inf')
        # skip the nan entries, keep the positions
        idx = [i for i, e in enumerate(els) if not _isnan(e)]
        b = g([els[i] for i in idx])
        r = idx[-1]
        for q in range(len(idx) - 2, -1, -1):
            r = ite(compare('==', b, q), idx[q], r)
        return r

    def f(x, axis=None, **kw):
        return reduce_(S(asarray(x)), h, axis, False, 'i')
    return f


FUNCS['nanargmax'] = _nanarg('>')
FUNCS['nanargmin'] = _nanarg('<')


@fn('cumsum')
def cumsum(x, axis=None, dtype=None, out=None):
    x = S(asarray(x))
    if x.k == 'b':
        x = x.astype(int)
    r = scan_(x, lambda a, b: binop('+', a, b), axis, x.k)
    if dtype is not None:
        r = r.astype(_rdt(dtype))
    return _out(r, out)


@fn('cumprod')
def cumprod(x, axis=None, dtype=None, out=None):
    x = S(asarray(x))
    return _out(scan_(x, lambda a, b: binop('*', a, b), axis, x.k), out)


@fn('diff')
def diff(x, n=1, axis=-1, prepend=None, append=None):
    x = S(asarray(x))
    def edge(v):
        v = S(asarray(v))
        if v.ndim == 0:
            shp = list(x.shape)
            shp[_norm_axis(axis, x.ndim)] = 1
            v = S(FUNCS['broadcast_to'](v, tuple(shp)))
        return v
    if prepend is not None:
        x = S(FUNCS['concatenate']([edge(prepend), x], axis=axis))
    if append is not None:
        x = S(FUNCS['concatenate']([x, edge(append)], axis=axis))
    for _ in range(n):
        ax = _norm_axis(axis, x.ndim)
        a = x[(slice(None),) * ax + (slice(1, None),)]
        b = x[(slice(None),) * ax + (slice(None, -1),)]
        x = S(array_op('!=' if x.k == 'b' else '-', a, b))
    return x


@fn('ediff1d')
def ediff1d(x, **kw):
    return diff(S(asarray(x)).reshape(-1))


# ------------------------------------------------- elementwise

@fn('where')
def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    if isinstance(c, np.ndarray) and c.dtype.kind != 'O' or isinstance(c, SymArray) or _is_sym(c) or True:
        a2, b2 = asarray(a), asarray(b)
        if any(isinstance(q, np.ndarray) and q.dtype.kind not in 'biuf' for q in (a2, b2)):
            return np.where(force_conc(S(c)), force_conc(a2) if isinstance(a2, SymArray) else a2,
                            force_conc(b2) if isinstance(b2, SymArray) else b2)
        k = promote(S(a2).k, S(b2).k)
        r = vec(lambda q, x, y: ite(truth(q), cast(x, k), cast(y, k)), k, asarray(c), a2, b2)
        return S(r) if not isinstance(r, SymArray) else r


@fn('select')
def select(conds, choices, default=0):
    k = promote(*[S(c).k for c in choices], kind_of(default))
    r = S(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


@fn('clip')
def clip(x, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    x = asarray(x)
    r = x
    if lo is not None:
        r = array_op('max', r, lo)
    if hi is not None:
        r = array_op('min', r, hi)
    return _out(r if r is not x else x.copy(), out)


@fn('round', 'around', 'round_')
def round_(x, decimals=0, out=None):
    x = S(asarray(x))
    if decimals == 0:
        r = vec(lambda e: e if arrays.is_special(e) else core.rint(e) if kind_of(e) == 'f' else e, x.k, x)
        return _out(r, out)
    s = 10.0 ** decimals
    return _out(vec(lambda e: binop('/', core.rint(binop('*', e, s)), s), x.k, x), out)


@fn('nan_to_num')
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        if _isnan(e):
            return float(nan)
        if isinstance(e, float) and math.isinf(e):
            return (1.7976931348623157e308 if posinf is None else posinf) if e > 0 else \
                (-1.7976931348623157e308 if neginf is None else neginf)
        return e
    return vec(f, S(x).k, x)


@fn('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if _isnan(x) or _isnan(y):
            return np.bool_(equal_nan and _isnan(x) and _isnan(y))
        if arrays.is_special(x) or arrays.is_special(y):
            return compare('==', x, y)
        return compare('<=', core.absolute(binop('-', x, y)),
                       binop('+', atol, binop('*', rtol, core.absolute(y))))
    return vec(f, 'b', a, b)


@fn('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all_(isclose(a, b, rtol, atol, equal_nan))


@fn('array_equal')
def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all_(array_op('==', a, b))


@fn('array_equiv')
def array_equiv(a, b):
    return all_(array_op('==', a, b))


@fn('isscalar')
def isscalar(x):
    return _is_sym(x) or np.isscalar(x)


@fn('logical_and')
def _la(a, b, out=None, **kw):
    return array_ufunc(np.logical_and, '__call__', a, b, out=(out,) if out is not None else None)


del FUNCS['logical_and']


# ------------------------------------------------- searching / sorting

@fn('nonzero')
def nonzero(x):
    x = asarray(x)
    if isinstance(x, np.ndarray):
        return tuple(S(q) for q in x.nonzero())
    if x.ndim == 0:
        x = x.reshape(1)
    b = _obj(x.shape)
    for p in np.ndindex(*x.shape):
        b[p] = bool(truth(x.a[p]))
    return tuple(S(q) for q in b.astype(bool).nonzero())


@fn('argwhere')
def argwhere(x):
    return S(np.stack([conc_array(q) for q in nonzero(x)], axis=-1))


@fn('flatnonzero')
def flatnonzero(x):
    return nonzero(S(asarray(x)).reshape(-1))[0]


@fn('count_nonzero')
def count_nonzero(x, axis=None, **kw):
    x = S(asarray(x))
    return sum_(mk(np.array(vec(truth, 'b', x).a if x.ndim else truth(x.a[()]), dtype=object), 'b'), axis)


@fn('extract', )
def extract(c, x):
    return S(asarray(x)).reshape(-1)[S(asarray(c)).reshape(-1)]


@fn('compress')
def compress(cond, x, axis=None):
    x = S(asarray(x))
    idx = nonzero(cond)[0]
    return take(x, idx, axis)


def _nosym_sorted(els):
    return not any(_is_sym(e) for e in els)


@fn('sort', 'msort')
def sort(x, axis=-1, **kw):
    x = asarray(x)
    if isinstance(x, np.ndarray):
        return np.sort(x, axis)
    if conc_array(x) is not None:
        return S(np.sort(conc_array(x), axis))
    if axis is None:
        x = x.reshape(-1)
        axis = -1
    ax = _norm_axis(axis, x.ndim)
    m = np.moveaxis(x.a, ax, -1).copy()
    for p in np.ndindex(*m.shape[:-1]):
        m[p] = np.array(sort_els(list(m[p])) + [None], dtype=object)[:-1]
    return mk(np.moveaxis(m, -1, ax).copy(), x.k)


@fn('argsort')
def argsort(x, axis=-1, kind=None, **kw):
    x = asarray(x)
    if isinstance(x, np.ndarray):
        return S(np.argsort(x, axis, kind='stable'))
    c = conc_array(x)
    if c is not None:
        return S(np.argsort(c, axis, kind='stable'))
    if axis is None:
        x = x.reshape(-1)
        axis = -1
    ax = _norm_axis(axis, x.ndim)
    m = np.moveaxis(x.a, ax, -1)
    r = _obj(m.shape)
    for p in np.ndindex(*m.shape[:-1]):
        for j, e in enumerate(argsort_els(list(m[p]))):
            r[p + (j,)] = e
    return mk(np.moveaxis(r, -1, ax).copy(), 'i')


@fn('searchsorted')
def searchsorted(a, v, side='left', sorter=None):
    from . import dt64
    if isinstance(a, dt64.D64):
        a, v = a.t, dt64.lift(v).t
    a, v = asarray(a), asarray(v)
    if isinstance(a, np.ndarray) or isinstance(v, np.ndarray):
        return wrap(np.searchsorted(force_conc(a) if isinstance(a, SymArray) else a,
                                    force_conc(v) if isinstance(v, SymArray) else v, side=side))
    if sorter is not None:
        a = a[sorter]
    ca, cv = conc_array(a), conc_array(v)
    if ca is not None and cv is not None:
        r = np.searchsorted(ca, cv, side=side)
        return S(r) if isinstance(r, np.ndarray) else r
    op = '<' if side == 'left' else '<='
    els = list(a.a)

    def f(x):
        # binary search as numpy does it would give the same on sorted input
        r = 0
        for e in els:
            r = binop('+', r, cast(compare(op, e, x), 'i'))
        return r
    return vec(f, 'i', v)


@fn('digitize')
def digitize(x, bins, right=False):
    b = S(asarray(bins))
    x = S(asarray(x))
    if b.size > 1 and compare('>', b.a[0], b.a[-1]):
        raise Unsupported('digitize with decreasing bins')
    return searchsorted(b, x, side='left' if right else 'right')


@fn('interp')
def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp with period')
    x, xp, fp = asarray(x), S(asarray(xp)), S(asarray(fp))
    n = xp.shape[0]
    X, F = list(xp.a), list(fp.a)

    def f(e):
        r = cast(F[-1] if right is None else right, 'f')
        if right is not None:
            r = ite(compare('==', e, X[-1]), cast(F[-1], 'f'), r)
        for i in range(n - 2, -1, -1):
            w = binop('/', binop('-', e, X[i]), binop('-', X[i + 1], X[i]))
            v = binop('+', F[i], binop('*', w, binop('-', F[i + 1], F[i])))
            r = ite(compare('<', e, X[i + 1]), cast(v, 'f'), r)
        return ite(compare('<', e, X[0]), cast(F[0] if left is None else left, 'f'), r)
    return vec(f, 'f', x)


def _unique_els(els):
    """Sorted distinct values (forks), with inverse and counts per element."""
    vals = []      # list of [value, [indices]]
    for i, e in enumerate(els):
        lo = 0
        placed = False
        for j, (v, idx) in enumerate(vals):
            if _isnan(e) and _isnan(v):
                idx.append(i)
                placed = True
                break
            if _isnan(e):
                lo = j + 1
                continue
            if _isnan(v):
                lo = j
                break
            if compare('==', e, v):
                idx.append(i)
                placed = True
                break
            if compare('<', e, v):
                lo = j
                break
            lo = j + 1
        if not placed:
            vals.insert(lo, [e, [i]])
    return vals


@fn('unique')
def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if isinstance(x, (list, tuple)) and any(isinstance(e, dict) for e in x):
        x = np.array(x, dtype=object)
    x = asarray(x)
    if isinstance(x, np.ndarray):
        r = np.unique(x, return_index, return_inverse, return_counts, axis)
        return tuple(wrap(q) for q in r) if isinstance(r, tuple) else wrap(r)
    c = conc_array(x)
    if c is not None and x.k != 'O':
        r = np.unique(c, return_index, return_inverse, return_counts, axis)
        return tuple(wrap(q) for q in r) if isinstance(r, tuple) else wrap(r)
    if axis is not None:
        ax = _norm_axis(axis, x.ndim)
        m = np.moveaxis(x.a, ax, 0)
        rows = m.reshape(m.shape[0], -1)
        vals = []
        for i in range(rows.shape[0]):
            lo, placed = 0, False
            for j, (v, idx) in enumerate(vals):
                d = None
                for p, q in zip(rows[i], v):
                    if compare('==', p, q):
                        continue
                    d = bool(compare('<', p, q))
                    break
                if d is None:
                    idx.append(i)
                    placed = True
                    break
                if d:
                    lo = j
                    break
                lo = j + 1
            if not placed:
                vals.insert(lo, [rows[i], [i]])
        u = _obj((len(vals),) + m.shape[1:])
        for j, (v, idx) in enumerate(vals):
            u[j] = m[idx[0]]
        res = [SymArray(np.moveaxis(u, 0, ax).copy(), x.k)]
        n = rows.shape[0]
    else:
        els = list(x.a.flat)
        vals = _unique_els(els)
        n = len(els)
        u = _obj((len(vals),))
        for j, (v, idx) in enumerate(vals):
            u[j] = v
        res = [SymArray(u, x.k)]
    if return_index:
        res.append(S(np.array([idx[0] for _, idx in vals], dtype=int)))
    if return_inverse:
        inv = np.zeros(n, dtype=int)
        for j, (_, idx) in enumerate(vals):
            inv[idx] = j
        res.append(S(inv))
    if return_counts:
        res.append(S(np.array([len(idx) for _, idx in vals], dtype=int)))
    return tuple(res) if len(res) > 1 else res[0]


@fn('isin', 'in1d')
def isin(x, test, assume_unique=False, invert=False, **kw):
    if isinstance(test, (set, dict)):
        test = list(test)
    x, test = asarray(x), asarray(test)
    if isinstance(x, np.ndarray) or isinstance(test, np.ndarray):
        return wrap(np.isin(force_conc(x) if isinstance(x, SymArray) else x,
                            force_conc(test) if isinstance(test, SymArray) else test, invert=invert))
    T = list(test.a.flat)

    def f(e):
        r = np.False_
        for t in T:
            r = logic('|', r, compare('==', e, t))
        return lnot(r) if invert else r
    r = vec(f, 'b', x)
    return r


@fn('bincount')
def bincount(x, weights=None, minlength=0):
    x = S(asarray(x))
    if x.k == 'f' and x.size:
        raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
    if x.ndim != 1:
        raise ValueError('object too deep for desired array')
    if x.size == 0:
        return FUNCS['zeros'](minlength, 'i')
    for e in x.a:
        if compare('<', e, 0):
            raise ValueError("'list' argument must have no negative elements")
    ml = int(concretize(minlength))
    mx = _max(list(x.a))
    if _is_sym(mx):
        if ml > 0 and compare('<', mx, ml):
            n = ml
        else:
            n = builtins.max(ml, int(concretize(mx)) + 1)
    else:
        n = builtins.max(ml, int(mx) + 1)
    w = None if weights is None else S(asarray(weights))
    r = _obj((n,))
    for v in range(n):
        acc = 0 if w is None else 0.0
        for i, e in enumerate(x.a):
            acc = binop('+', acc, ite(compare('==', e, v), 1 if w is None else cast(w.a[i], 'f'),
                                      0 if w is None else 0.0))
        r[v] = acc
    return mk(r, 'i' if w is None else 'f')


@fn('histogram')
def histogram(x, bins=10, range=None, density=None, weights=None):
    x = S(asarray(x)).reshape(-1)
    if isinstance(bins, str):
        raise Unsupported('histogram with named bins')
    if isinstance(bins, (SymArray, np.ndarray, list, tuple)):
        e = S(asarray(bins))
        d = list(e.a)
        for a, b in zip(d[:-1], d[1:]):
            if compare('>', a, b):
                raise ValueError('`bins` must increase monotonically, when an array')
    else:
        n = int(concretize(bins))
        if range is None:
            lo, hi = (0.0, 1.0) if x.size == 0 else (_min(list(x.a)), _max(list(x.a)))
        else:
            lo, hi = range
            if compare('>', lo, hi):
                raise ValueError('max must be larger than min in range parameter.')
        if compare('==', lo, hi):
            lo, hi = binop('-', lo, 0.5), binop('+', hi, 0.5)
        e = linspace(lo, hi, n + 1)
        d = list(e.a)
    w = None if weights is None else S(asarray(weights)).reshape(-1)
    cnt = []
    for j in builtins.range(len(d) - 1):
        acc = 0 if w is None else 0.0
        for i, v in enumerate(x.a):
            c = logic('&', compare('>=', v, d[j]), compare('<=' if j == len(d) - 2 else '<', v, d[j + 1]))
            acc = binop('+', acc, ite(c, 1 if w is None else w.a[i], 0 if w is None else 0.0))
        cnt.append(acc)
    r = S(cnt)
    if r.k == 'f' and w is None:
        r = r.astype(int)
    if density:
        db = diff(e)
        r = array_op('/', array_op('/', r, db), sum_(r))
    return r, e


# ------------------------------------------------- products

@fn('dot', 'matmul')
def matmul(a, b, out=None, **kw):
    a, b = S(asarray(a)), S(asarray(b))
    k = promote(a.k, b.k)

    def ip(x, y):
        return _sum([binop('*', p, q) for p, q in zip(x, y)])
    if a.ndim == 0 or b.ndim == 0:
        return array_op('*', a, b)
    if b.ndim == 1:
        r = _obj(a.shape[:-1])
        if a.shape[-1] != b.shape[0]:
            raise ValueError('shapes not aligned')
        for p in np.ndindex(*a.shape[:-1]):
            r[p] = ip(a.a[p], b.a)
        return arrays.out(r, k)
    if a.ndim == 1:
        if a.shape[0] != b.shape[-2]:
            raise ValueError('shapes not aligned')
        bm = np.moveaxis(b.a, -2, -1)
        r = _obj(bm.shape[:-1])
        for p in np.ndindex(*bm.shape[:-1]):
            r[p] = ip(a.a, bm[p])
        return arrays.out(r, k)
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('shapes not aligned')
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a.a, lead + a.shape[-2:])
    B = np.broadcast_to(b.a, lead + b.shape[-2:])
    r = _obj(lead + (a.shape[-2], b.shape[-1]))
    for p in np.ndindex(*r.shape):
        r[p] = ip(A[p[:-2] + (p[-2],)], B[p[:-2] + (slice(None), p[-1])])
    return arrays.out(r, k)


@fn('inner', 'vdot')
def inner(a, b):
    a, b = S(asarray(a)), S(asarray(b))
    if a.ndim == 1 and b.ndim == 1:
        return matmul(a, b)
    return matmul(a, b.T)


@fn('outer')
def outer(a, b, **kw):
    a, b = S(asarray(a)).reshape(-1), S(asarray(b)).reshape(-1)
    return array_op('*', a.reshape(-1, 1), b)


@fn('einsum')
def einsum(spec, *ops, **kw):
    spec = spec.replace(' ', '')
    ins, outs = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    if '...' in spec:
        raise Unsupported('einsum with ellipsis')
    ops = [S(asarray(o)) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dims[c] = d
    if outs is None:
        al = ''.join(ins)
        outs = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    inner_ = [c for c in dims if c not in outs]
    r = _obj(tuple(dims[c] for c in outs))
    for p in np.ndindex(*r.shape):
        env = dict(zip(outs, p))
        els = []
        for q in itertools.product(*[range(dims[c]) for c in inner_]):
            env.update(zip(inner_, q))
            els.append(_prod([o.a[tuple(env[c] for c in s)] for s, o in zip(ins, ops)]))
        r[p] = _sum(els)
    return out(r, promote(*[o.k for o in ops]))


@fn('tensordot')
def tensordot(a, b, axes=2):
    a, b = S(asarray(a)), S(asarray(b))
    if isinstance(axes, int):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    ax, bx = [[q] if isinstance(q, int) else list(q) for q in axes]
    L = 'abcdefghijklmnopqrstuvwxyz'
    sa = L[:a.ndim]
    sb = ''
    it = iter(L[a.ndim:])
    for i in range(b.ndim):
        sb += sa[ax[bx.index(i)]] if i in bx else next(it)
    o = ''.join(c for i, c in enumerate(sa) if i not in ax) + ''.join(c for i, c in enumerate(sb) if i not in bx)
    return einsum('%s,%s->%s' % (sa, sb, o), a, b)


@fn('apply_along_axis')
def apply_along_axis(f, axis, x, *args, **kw):
    x = S(asarray(x))
    ax = _norm_axis(axis, x.ndim)
    m = np.moveaxis(x.a, ax, -1)
    parts = {}
    for p in np.ndindex(*m.shape[:-1]):
        parts[p] = S(asarray(f(SymArray(m[p].copy(), x.k), *args, **kw)))
    first = next(iter(parts.values()))
    r = _obj(m.shape[:-1] + first.shape)
    for p, v in parts.items():
        r[p] = v.a if v.ndim else v.a[()]
    if first.ndim == 1:
        r = np.moveaxis(r, -1, ax)
    return mk(r.copy(), promote(*[v.k for v in parts.values()]))


@fn('vectorize')
def vectorize(pyfunc, otypes=None, **kw):
    def f(*args):
        arrs = [S(asarray(a)) for a in args]
        r = vec(lambda *e: _sc(pyfunc(*[ret(q, kind_of(q)) for q in e])), None, *arrs)
        if otypes is not None:
            r = S(r).astype(_rdt(otypes[0]))
        return r
    return f


@fn('piecewise')
def piecewise(x, condlist, funclist, *a, **kw):
    x = S(asarray(x))
    r = FUNCS['zeros_like'](x)
    n = len(condlist)
    if len(funclist) == n + 1:
        rest = funclist[-1]
        r = S(rest(x) if callable(rest) else full(x.shape, rest)).astype(KDT[x.k])
    for c, f in zip(condlist, funclist):
        r = where(c, f(x) if callable(f) else f, r)
    return r


class _RC:
    def __init__(self, name):
        self.name = name

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = [wrap(np.r_[k]) if isinstance(k, slice) else asarray(k) for k in key]
        if self.name == 'r_':
            parts = [S(p).reshape(-1) if S(p).ndim == 0 else p for p in parts]
            return FUNCS['concatenate'](parts)
        parts = [S(p) for p in parts]
        parts = [p.reshape(-1, 1) if p.ndim <= 1 else p for p in parts]
        return FUNCS['concatenate'](parts, axis=-1)


@fn('put_along_axis')
def put_along_axis(arr, idx, values, axis):
    idx = S(asarray(idx))
    ax = _norm_axis(axis, arr.ndim)
    am = SymArray(np.moveaxis(arr.a, ax, -1), arr.k)
    im = np.moveaxis(idx.a, ax, -1)
    vm = np.moveaxis(np.broadcast_to(S(values).a, idx.shape), ax, -1)
    for p in np.ndindex(*im.shape):
        am[p[:-1] + (im[p],)] = vm[p]


@fn('putmask')
def putmask(a, mask, values):
    a[...] = where(mask, values, a)


@fn('copyto')
def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = FUNCS['where'](where, src, dst)


@fn('place')
def place(a, mask, vals):
    a[mask] = vals


@fn('median')
def median(x, axis=None, **kw):
    x = S(asarray(x))

    def f(els):
        s = sort_els(els)
        n = len(s)
        if n % 2:
            return cast(s[n // 2], 'f')
        return binop('/', binop('+', s[n // 2 - 1], s[n // 2]), 2)
    return reduce_(x, f, axis, False, 'f')


@fn('intersect1d')
def intersect1d(a, b, **kw):
    u = unique(a)
    return u[isin(u, b)]


@fn('setdiff1d')
def setdiff1d(a, b, **kw):
    u = unique(a)
    return u[isin(u, b, invert=True)]


@fn('union1d')
def union1d(a, b):
    return unique(FUNCS['concatenate']([S(a).reshape(-1), S(b).reshape(-1)]))


@fn('setxor1d')
def setxor1d(a, b, **kw):
    u = S(union1d(a, b))
    return u[FUNCS['logical_xor'](isin(u, a), isin(u, b))] if 'logical_xor' in FUNCS else u[S(isin(u, a)) != S(isin(u, b))]


@fn('lexsort')
def lexsort(keys, axis=-1):
    keys = [S(asarray(k)) for k in (keys if isinstance(keys, (list, tuple)) else list(S(keys)))]
    order = S(np.arange(len(keys[0])))
    for k in keys:
        order = order[S(argsort(k[order]))]
    return order


@fn('ix_')
def ix_(*seqs):
    out = []
    for i, s in enumerate(seqs):
        s = S(asarray(s))
        if s.k == 'b':
            s = S(nonzero(s)[0])
        shp = [1] * len(seqs)
        shp[i] = s.size
        out.append(s.reshape(tuple(shp)))
    return tuple(out)


@fn('put')
def put(a, ind, v, **kw):
    ind, v = S(asarray(ind)).reshape(-1), S(asarray(v)).reshape(-1)
    flat = a.reshape(-1)
    for i in range(ind.size):
        flat[ind.a[i]] = v.a[i % v.size]
    a[...] = flat.reshape(a.shape)


@fn('ravel_multi_index')
def ravel_multi_index(idx, dims, **kw):
    r = 0
    for i, d in zip(idx, dims):
        r = r * d + i
    return r


@fn('unravel_index')
def unravel_index(idx, shp, **kw):
    idx, out = asarray(idx), []
    shp = (shp,) if not isinstance(shp, tuple) else shp
    for d in reversed(shp):
        out.append(idx % d)
        idx = idx // d
    return tuple(reversed(out))


@fn('trace')
def trace(x, **kw):
    return sum_(diag(x))


@fn('nancumsum')
def nancumsum(x, axis=None, **kw):
    return cumsum(nan_to_num(x), axis, **kw)


@fn('partition')
def partition(x, kth, axis=-1, **kw):
    return sort(x, axis)


@fn('argpartition')
def argpartition(x, kth, axis=-1, **kw):
    return argsort(x, axis)


@fn('indices')
def indices(shp, dtype=int, sparse=False):
    return S(np.indices(tuple(shp), dtype=int))


@fn('broadcast_shapes')
def broadcast_shapes(*shps):
    return np.broadcast_shapes(*shps)


@fn('convolve')
def convolve(a, v, mode='full'):
    a, v = S(asarray(a)), S(asarray(v))
    if a.size < v.size:
        a, v = v, a
    n, m = a.size, v.size
    r = []
    for k in range(n + m - 1):
        e = 0
        for j in range(builtins.max(0, k - n + 1), builtins.min(m, k + 1)):
            e = binop('+', e, binop('*', a.a[k - j], v.a[j]))
        r.append(e)
    if mode == 'same':
        r = r[(m - 1) // 2:(m - 1) // 2 + n]
    elif mode == 'valid':
        r = r[m - 1:n]
    return FUNCS['array'](r)


@fn('fill_diagonal')
def fill_diagonal(a, v, **kw):
    v = S(v)
    n = builtins.min(a.shape)
    for i in range(n):
        a[(i,) * a.ndim] = v.a.reshape(-1)[i % v.size]


@fn('trapz')
def trapz(y, x=None, dx=1.0, axis=-1):
    y = S(asarray(y))
    if axis not in (-1, y.ndim - 1):
        raise Unsupported('trapz axis')
    m = (y[..., 1:] + y[..., :-1]) / 2.0
    return sum_(m * (dx if x is None else diff(x)), -1)


@fn('gradient')
def gradient(*a, **kw):
    raise Unsupported('gradient')


@fn('result_type')
def result_type(*a):
    return np.result_type(*[x.dtype if isinstance(x, SymArray) else x for x in a])


@fn('may_share_memory', 'shares_memory')
def shares_memory(a, b, **kw):
    return np.shares_memory(a.a if isinstance(a, SymArray) else a, b.a if isinstance(b, SymArray) else b)


def _files():
    """The arrays written in this execution, in place of the disk."""
    d = core.CUR.draws
    if not hasattr(d, 'files'):
        d.files = {}
    return d.files


@fn('save')
def save(path, arr, **kw):
    from . import extras
    path = str(path)
    extras.check_dir(path)
    _files()[path if path.endswith('.npy') else path + '.npy'] = FUNCS['array'](arr).copy()


@fn('savez', 'savez_compressed')
def savez(path, *a, **kw):
    from . import extras
    path = str(path)
    extras.check_dir(path)
    kw.update({'arr_%d' % i: x for i, x in enumerate(a)})
    _files()[path if path.endswith('.npz') else path + '.npz'] = {
        k: FUNCS['array'](x).copy() for k, x in kw.items()}


class Npz(dict):
    @property
    def files(self):
        return list(self)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@fn('load')
def load(path, *a, **kw):
    f = _files().get(str(path))
    if f is None:
        return wrap(np.load(path, *a, **kw))
    if isinstance(f, dict):
        return Npz({k: x.copy() for k, x in f.items()})
    return f.copy()


@fn('iterable')
def iterable(x):
    return np.iterable(x)


@fn('ndenumerate')
def ndenumerate(x):
    x = asarray(x)
    for p in np.ndindex(*x.shape):
        yield p, x[p]


@fn('ndindex')
def ndindex(*a):
    return np.ndindex(*a)


@fn('errstate')
def errstate(**kw):
    return np.errstate(**kw)


@fn('set_printoptions', 'seterr')
def _noop(*a, **k):
    return {}


@fn('array2string', 'array_str', 'array_repr')
def _astr(x, *a, **k):
    return '<symarray>'


@fn('percentile', 'quantile')
def _quant(*a, **k):
    raise Unsupported('quantile')


class UF:
    def __init__(self, name):
        self.__name__ = name
        self.real = getattr(np, name)

    def __call__(self, *args, out=None, where=True, dtype=None, **kw):
        args = list(args)
        nin = self.real.nin
        if len(args) > nin and out is None:
            out = tuple(args[nin:])
            if out == (None,):
                out = None
            args = args[:nin]
        if any(isinstance(a, np.ndarray) and a.dtype.kind not in 'biufO' for a in args) or \
                any(isinstance(a, (str, np.generic)) and not is_conc_num(a) for a in args):
            if all_conc(args):
                return wrap(self.real(*unwrap(args)))
        ins = [asarray(a) if isinstance(a, (list, tuple)) else a for a in args]
        if not any(has_sym(a) for a in ins):
            # plain python/numpy values
            kw2 = {}
            if dtype is not None:
                kw2['dtype'] = _rdt(dtype)
            if out is None and where is True:
                with np.errstate(all='ignore'):
                    return wrap(self.real(*ins, **kw2))
        if out is not None and not isinstance(out, tuple):
            out = (out,)
        return array_ufunc(self.real, '__call__', *ins, out=out, where=where,
                           dtype=_rdt(dtype) if dtype is not None else None)

    def reduce(self, x, axis=0, dtype=None, out=None, keepdims=False, **kw):
        r = array_ufunc(self.real, 'reduce', asarray(x), axis=axis, keepdims=keepdims)
        return _out(r, out)

    def accumulate(self, x, axis=0, **kw):
        return array_ufunc(self.real, 'accumulate', asarray(x), axis=axis)

    def outer(self, a, b, **kw):
        return array_ufunc(self.real, 'outer', asarray(a), asarray(b))

    def at(self, *a):
        return array_ufunc(self.real, 'at', *a)

    def __getattr__(self, n):
        return getattr(self.real, n)


_UFS = {}


def dispatch(func, args, kwargs):
    name = func.__name__
    if name in FUNCS:
        return FUNCS[name](*args, **kwargs)
    return generic(name, func, args, kwargs)


def generic(name, func, args, kwargs):
    try:
        return run_real(func, args, kwargs)
    except KeyError as exc:
        if exc.args != ('sym',):
            raise
    # concretise integers and booleans by forking; symbolic reals cannot
    def conc(x):
        if isinstance(x, SymArray):
            return force_conc(x)
        if _is_sym(x):
            return concretize(x)
        if type(x) in (list, tuple):
            return type(x)(conc(e) for e in x)
        return x
    return wrap(func(*[conc(a) for a in args], **{k: conc(v) for k, v in kwargs.items()}))


# ------------------------------------------------- random

class Random:
    """numpy.random for both modes.  `src` yields the elementary draws."""

    def __init__(self, sym):
        self.sym = sym

    def src(self):
        return core.CUR.draws

    def _mk(self, size, f):
        if size is None:
            return f()
        if isinstance(size, SymArray):
            size = tuple(force_conc(size))
        shp = tuple(int(concretize(e)) for e in size) if isinstance(size, (tuple, list)) else (int(concretize(size)),)
        if self.sym:
            o = _obj(shp)
            for p in np.ndindex(*shp):
                o[p] = f()
            return mk(o)if o.size else SymArray(o, 'f')
        els = [f() for _ in range(int(np.prod(shp, dtype=int)))]
        return np.array(els).reshape(shp)

    def _bc(self, size, f, *params):
        """Draws with broadcast parameters."""
        arrs = [p for p in params if isinstance(p, (SymArray, np.ndarray, list, tuple))]
        if not arrs:
            return self._mk(size, lambda: f(*params))
        if self.sym:
            ps = [S(p).a for p in params]
        else:
            ps = [np.asarray(p) for p in params]
        shp = np.broadcast_shapes(*[p.shape for p in ps])
        if size is not None:
            size = size if isinstance(size, tuple) else (int(concretize(size)),)
            if np.broadcast_shapes(shp, size) != size:
                raise ValueError('shape mismatch')
            shp = size
        bs = [np.broadcast_to(p, shp) for p in ps]
        els = [f(*[b[q] for b in bs]) for q in np.ndindex(*shp)]
        if self.sym:
            o = _obj(shp)
            for q, e in zip(np.ndindex(*shp), els):
                o[q] = e
            return mk(o) if o.size else SymArray(o, 'f')
        return np.array(els).reshape(shp)

    def uniform(self, low=0.0, high=1.0, size=None):
        def f(lo, hi):
            u = self.src().unit()
            if is_conc_num(lo) and lo == 0 and is_conc_num(hi) and hi == 1:
                return u
            return lo + (hi - lo) * u
        return self._bc(size, f, low, high)

    def random(self, size=None):
        return self._mk(size, lambda: self.src().unit())

    random_sample = sample = ranf = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._bc(size, lambda lo, hi: self.src().integer(lo, hi), low, high)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        return self.randint(low, high, size)

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, high + 1, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._bc(size, lambda m, s: m + s * self.src().gauss(), loc, scale)

    def standard_normal(self, size=None):
        return self._mk(size, lambda: self.src().gauss())

    def randn(self, *shape):
        return self.standard_normal(shape if shape else None)

    def exponential(self, scale=1.0, size=None):
        return self._bc(size, lambda s: s * self.src().positive(), scale)

    def poisson(self, lam=1.0, size=None):
        return self._bc(size, lambda l: self.src().count(None, l), lam)

    def binomial(self, n, p, size=None):
        return self._bc(size, lambda n_, p_: self.src().count(n_, p_), n, p)

    def choice(self, a, size=None, replace=True, p=None):
        if self.sym:
            pool = asarray(a) if not is_conc_num(a) and not _is_sym(a) else S(np.arange(int(concretize(a))))
            n = pool.shape[0]
            if n == 0:
                raise ValueError("'a' cannot be empty unless no samples are taken")
            if not replace:
                perm = self.permutation(n)
                k = 1 if size is None else int(np.prod(_shape(size), dtype=int))
                if k > n:
                    raise ValueError("Cannot take a larger sample than population when 'replace=False'")
                idx = perm[:k]
                idx = idx[0] if size is None else idx.reshape(_shape(size))
                return pool[idx]
            if p is None:
                idx = self.randint(0, n, size)
            else:
                c = cumsum(p)
                idx = searchsorted(c / c[-1], self.random(size), side='right')
            if isinstance(pool, np.ndarray):
                return pool[force_conc(idx) if isinstance(idx, SymArray) else concretize(idx)]
            return pool[idx]
        pool = np.asarray(a) if not isinstance(a, (int, np.integer)) else np.arange(a)
        n = pool.shape[0]
        if not replace:
            perm = self.permutation(n)
            k = 1 if size is None else int(np.prod(size, dtype=int))
            idx = perm[:k]
            idx = idx[0] if size is None else idx.reshape(size)
            return pool[idx]
        if p is None:
            idx = self.randint(0, n, size)
        else:
            c = np.cumsum(p)
            idx = np.searchsorted(c / c[-1], self.random(size), side='right')
        return pool[idx]

    def permutation(self, x):
        if is_conc_num(x) or _is_sym(x):
            x = np.arange(int(concretize(x)))
            x = S(x) if self.sym else x
        x = array(x) if self.sym else np.array(x)
        self.shuffle(x)
        return x

    def shuffle(self, x, **kw):
        n = len(x)
        for i in range(n - 1, 0, -1):
            j = self.src().integer(0, i + 1)
            j = int(concretize(j))
            if j != i:
                if isinstance(x, list):
                    x[i], x[j] = x[j], x[i]
                else:
                    t = x[i].copy() if hasattr(x[i], 'copy') else x[i]
                    x[i] = x[j]
                    x[j] = t

    def seed(self, *a, **k):
        return None

    def default_rng(self, *a, **k):
        return self

    RandomState = Generator = default_rng

    def get_state(self, *a, **k):
        return ('MT19937', None, 0, 0, 0.0)

    def set_state(self, *a, **k):
        return None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('numpy.random.%s' % n)


RANDOM_NAMES = ['uniform', 'random', 'random_sample', 'sample', 'ranf', 'rand', 'randint', 'random_integers', 'normal',
                'standard_normal', 'randn', 'exponential', 'poisson', 'binomial', 'choice', 'permutation', 'shuffle',
                'seed', 'default_rng', 'RandomState', 'Generator', 'get_state', 'set_state']


class SymDraws:
    """Elementary random draws as fresh symbolic variables."""

    def __init__(self, e):
        self.e = e
        self.vars = []      # (name, kind) in order

    def _new(self, kind):
        i = len(self.vars)
        t = (z3.Int if kind == 'i' else z3.Real)('draw%d' % i)
        self.vars.append(t)
        return t

    def unit(self):
        t = self._new('f')
        self.e.add(z3.And(t >= 0, t < 1))
        return SNum(t, 'f')

    def gauss(self):
        t = self._new('f')
        self.e.add(z3.And(t >= -6, t <= 6))
        return SNum(t, 'f')

    def positive(self):
        t = self._new('f')
        self.e.add(z3.And(t >= 0, t <= 40))
        return SNum(t, 'f')

    def integer(self, lo, hi):
        if not compare('<', lo, hi):
            raise ValueError('low >= high')
        t = self._new('i')
        s = SNum(t, 'i')
        k = 'i'
        lo, hi = cast(lo, 'i'), (cast(hi, 'i') if kind_of(hi) != 'f' else core.neg(core.floor_int(core.neg(hi))))
        self.e.add(core.as_bool_term(compare('>=', s, lo)))
        self.e.add(core.as_bool_term(compare('<', s, hi)))
        return s

    def count(self, n, p):
        t = self._new('i')
        s = SNum(t, 'i')
        if n is None:
            if compare('<', p, 0):
                raise ValueError('lam < 0 or lam contains NaNs')
            self.e.add(z3.And(t >= 0, t <= 50))
            self.e.add(core.as_bool_term(logic('|', compare('>', p, 0), compare('==', s, 0))))
        else:
            if logic('|', compare('<', p, 0), compare('>', p, 1)):
                raise ValueError('p < 0, p > 1 or p is NaN')
            self.e.add(t >= 0)
            self.e.add(core.as_bool_term(compare('<=', s, n)))
            self.e.add(core.as_bool_term(logic('|', compare('>', p, 0), compare('==', s, 0))))
            self.e.add(core.as_bool_term(logic('|', compare('<', p, 1), compare('==', s, n))))
        return s


class ConcDraws:
    """Replays recorded draws."""

    def __init__(self, values):
        self.values = list(values)
        self.pos = 0

    def _next(self, default):
        if self.pos < len(self.values):
            v = self.values[self.pos]
        else:
            v = default
        self.pos += 1
        return v

    def unit(self):
        v = float(self._next(0.5))
        return min(max(v, 0.0), float(np.nextafter(1.0, 0.0)))

    def gauss(self):
        return float(self._next(0.0))

    def positive(self):
        return float(self._next(1.0))

    def integer(self, lo, hi):
        if not lo < hi:
            raise ValueError('low >= high')
        v = int(self._next(lo))
        return min(max(v, int(lo)), int(math.ceil(hi)) - 1)

    def count(self, n, p):
        if n is None and p < 0 or n is not None and not 0 <= p <= 1:
            raise ValueError('p')
        v = int(self._next(0))
        return v


# ------------------------------------------------- the module

class ShimModule(types.ModuleType):
    def __init__(self, name, real, top=None):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_top'] = top or self
        if hasattr(real, '__path__'):
            self.__dict__['__path__'] = list(real.__path__)

    def __getattr__(self, name):
        if name.startswith('__'):
            return getattr(self._real, name)
        return lookup(self._real, name)


SYM_RANDOM = Random(True)


def lookup(real, name):
    if name == 'ndarray':
        return NdShim
    if name in GENERIC:
        return GENERIC[name]
    if name == 'random' and real is np:
        return SYM_RANDOM_MOD
    if name in ('r_', 'c_'):
        return _RC(name)
    if name in ('linalg', 'ma', 'lib', 'core', 'testing', 'char'):
        m = getattr(np, name)
        return m if name in ('char', 'lib', 'testing') else ShimModule('numpy.' + name, m)
    if name in FUNCS and (real is np or 'core' in getattr(real, '__name__', '')):
        return FUNCS[name]
    obj = getattr(real, name)
    if isinstance(obj, np.ufunc):
        if name not in _UFS:
            _UFS[name] = UF(name) if hasattr(np, name) else obj
        return _UFS[name]
    if isinstance(obj, type) or not callable(obj):
        return obj
    return lambda *a, **k: generic(name, obj, a, k)


class _RandMod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(SYM_RANDOM, n)


SYM_RANDOM_MOD = _RandMod('numpy.random')
NUMPY = ShimModule('numpy', np)


def shim_modules():
    d = {'numpy': NUMPY, 'numpy.random': SYM_RANDOM_MOD}
    for n in ('numpy.core', 'numpy.core.numeric', 'numpy.core.fromnumeric', 'numpy.core.multiarray',
              'numpy.core.umath', 'numpy.linalg'):
        if n in sys.modules:
            d[n] = ShimModule(n, sys.modules[n], NUMPY)
    return d
