"""Symbolic arrays with numpy semantics over object arrays of scalars."""
import itertools
import math
import builtins

import numpy as np
import z3

from . import core
from .core import (SNum, SBool, Unsupported, Inconclusive, binop, ite, cast, py, kind_of, lnot,
                   truth, compare, logic, concretize, _is_sym, is_conc_num, is_special, eng)

GARBAGE = {'f': 123456.78125, 'i': 987654, 'b': True}
KDT = {'b': np.dtype(bool), 'i': np.dtype(int), 'f': np.dtype(float), 'O': np.dtype(object)}
ORDER = {'b': 0, 'i': 1, 'f': 2, 'O': 3}


class UFuncCast(TypeError):
    pass


def promote(*ks):
    return max(ks, key=lambda k: ORDER[k]) if ks else 'f'


def dt_kind(dtype):
    """kind of a dtype-like; None if not numeric (strings, datetimes, objects)."""
    if dtype is None:
        return None
    if isinstance(dtype, str) and dtype in ('b', 'i', 'f'):
        return dtype if dtype != 'b' else 'i'
    d = np.dtype(dtype)
    if d.kind == 'b':
        return 'b'
    if d.kind in 'iu':
        return 'i'
    if d.kind == 'f':
        return 'f'
    return 'O'


def has_sym(x):
    if _is_sym(x):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(has_sym(e) for e in x.flat)
    if isinstance(x, dict):
        return any(has_sym(e) for e in x.values())
    if isinstance(x, slice):
        return any(_is_sym(e) for e in (x.start, x.stop, x.step))
    return False


def _obj(shape):
    return np.empty(shape, dtype=object)


def _from_seq(x):
    """list/tuple -> (object ndarray, kind)."""
    parts = [_lift(e) for e in x]
    if not parts:
        return np.empty((0,), dtype=object), 'f'
    shp = parts[0][0].shape
    for p in parts:
        if p[0].shape != shp:
            raise ValueError('setting an array element with a sequence. The requested array has an '
                             'inhomogeneous shape after 1 dimensions.')
    out = _obj((len(parts),) + shp)
    for i, p in enumerate(parts):
        if shp == ():
            out[i] = p[0][()]
        else:
            out[i] = p[0]
    return out, promote(*[p[1] for p in parts])


def _lift(x):
    if isinstance(x, SymArray):
        return x.a, x.k
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            flat = [_lift(e) if isinstance(e, SymArray) else e for e in x.flat]
            out = _obj(x.shape)
            ks = []
            of = out.reshape(-1)
            for i, e in enumerate(x.flat):
                if isinstance(e, SymArray) and e.ndim == 0:
                    e = e.a[()]
                of[i] = py(e)
                ks.append(kind_of(e))
            out = of.reshape(x.shape)
            return out, promote(*ks) if ks else 'f'
        k = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}.get(x.dtype.kind, 'O')
        out = _obj(x.shape)
        if out.size:
            f = {'b': np.bool_, 'i': int, 'f': float, 'O': lambda e: e}[k]
            fl = out.reshape(-1)
            for i, e in enumerate(x.flat):
                fl[i] = f(e)
            out = fl.reshape(x.shape)
        return out, k
    if isinstance(x, (list, tuple)):
        return _from_seq(x)
    if isinstance(x, range):
        return _from_seq(list(x))
    if hasattr(x, '__array__') and not _is_sym(x) and not is_conc_num(x):
        return _lift(np.asarray(x))
    out = _obj(())
    out[()] = py(x)
    return out, kind_of(x)


def S(x):
    if isinstance(x, SymArray):
        return x
    a, k = _lift(x)
    return SymArray(a, k)


def mk(a, k=None):
    """Wrap an object ndarray, casting the elements to kind k."""
    if not isinstance(a, np.ndarray):
        o = _obj(())
        o[()] = a
        a = o
    if k is None:
        k = promote(*[kind_of(e) for e in a.flat]) if a.size else 'f'
    if a.size:
        fl = a.reshape(-1) if a.flags.c_contiguous else None
        if fl is None:
            a = a.copy()
            fl = a.reshape(-1)
        for i in range(fl.shape[0]):
            e = fl[i]
            fl[i] = cast(e, k)
        a = fl.reshape(a.shape)
    return SymArray(a, k)


def ret(e, k):
    """Scalar handed back to the code: numpy scalar or symbol."""
    if _is_sym(e):
        return e
    if k == 'f':
        return np.float64(e)
    if k == 'i':
        return np.int64(e) if -2**63 <= e < 2**63 else e
    if k == 'b':
        return np.bool_(e)
    return e


def out(a, k=None):
    """Result of an operation: scalar if 0-d, else SymArray."""
    r = mk(a, k)
    if r.a.ndim == 0:
        return ret(r.a[()], r.k)
    return r


def vec(fn, k, *xs):
    arrs = [S(x).a for x in xs]
    shp = np.broadcast_shapes(*[x.shape for x in arrs])
    bs = [np.broadcast_to(x, shp) for x in arrs]
    o = _obj(shp)
    if shp == ():
        o[()] = fn(*[b[()] for b in bs])
    else:
        of = o.reshape(-1)
        for i, els in enumerate(zip(*[b.flat for b in bs])):
            of[i] = fn(*els)
        o = of.reshape(shp)
    return out(o, k)


def conc_array(x):
    """Real ndarray if everything inside is concrete, else None."""
    if isinstance(x, SymArray):
        for e in x.a.flat:
            if _is_sym(e):
                return None
        if x.k == 'O':
            return x.a.copy()
        return x.a.astype(KDT[x.k])
    return None


def force_conc(x):
    """Real ndarray, concretising symbols by forking."""
    r = conc_array(x)
    if r is not None:
        return r
    o = _obj(x.a.shape)
    of = o.reshape(-1)
    for i, e in enumerate(x.a.flat):
        of[i] = concretize(e)
    return of.reshape(x.a.shape).astype(KDT[x.k])


def _norm_axis(axis, nd):
    if axis is None:
        return None
    if isinstance(axis, (tuple, list)):
        return tuple(_norm_axis(a, nd) for a in axis)
    axis = int(axis)
    if not -nd <= axis < nd:
        raise np.AxisError(axis, nd)
    return axis % nd


def reduce_(x, fn, axis=None, keepdims=False, k=None):
    """fn(list of elements) -> element, along axis."""
    x = S(x)
    a = x.a
    ax = _norm_axis(axis, a.ndim)
    if ax is None:
        r = _obj(())
        r[()] = fn(list(a.flat))
        if keepdims:
            r = r.reshape((1,) * a.ndim)
        return out(r, k)
    if not isinstance(ax, tuple):
        ax = (ax,)
    m = np.moveaxis(a, ax, tuple(range(a.ndim - len(ax), a.ndim)))
    oshape = m.shape[:a.ndim - len(ax)]
    r = _obj(oshape)
    for idx in np.ndindex(*oshape):
        r[idx] = fn(list(m[idx].flat))
    if keepdims:
        for q in sorted(ax):
            r = np.expand_dims(r, q)
    return out(r, k)


def scan_(x, fn, axis=None, k=None):
    x = S(x)
    a = x.a
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    ax = _norm_axis(axis, a.ndim)
    m = np.moveaxis(a, ax, -1)
    r = _obj(m.shape)
    for idx in np.ndindex(*m.shape[:-1]):
        acc = None
        for j in range(m.shape[-1]):
            acc = m[idx][j] if j == 0 else fn(acc, m[idx][j])
            r[idx + (j,)] = acc
    return mk(np.moveaxis(r, -1, ax).copy(), k)


def _sum(els):
    acc = None
    bools = []
    for e in els:
        if kind_of(e) == 'b':
            e = cast(e, 'i')
        acc = e if acc is None else binop('+', acc, e)
    return 0 if acc is None else acc


def _prod(els):
    acc = None
    for e in els:
        if kind_of(e) == 'b':
            e = cast(e, 'i')
        acc = e if acc is None else binop('*', acc, e)
    return 1 if acc is None else acc


def _isnan(e):
    return isinstance(e, float) and math.isnan(e)


def _max(els):
    if not els:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    acc = els[0]
    for e in els[1:]:
        if _isnan(acc):
            return acc
        if _isnan(e):
            return e
        if kind_of(acc) == 'b' and kind_of(e) == 'b':
            acc = logic('|', acc, e)
        else:
            acc = binop('max', acc, e)
    return acc


def _min(els):
    if not els:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    acc = els[0]
    for e in els[1:]:
        if _isnan(acc):
            return acc
        if _isnan(e):
            return e
        if kind_of(acc) == 'b' and kind_of(e) == 'b':
            acc = logic('&', acc, e)
        else:
            acc = binop('min', acc, e)
    return acc


def _any(els):
    acc = np.False_
    for e in els:
        acc = logic('|', acc, truth(e))
    return acc


def _all(els):
    acc = np.True_
    for e in els:
        acc = logic('&', acc, truth(e))
    return acc


def _argbest(op):
    def f(els):
        if not els:
            raise ValueError('attempt to get argmax of an empty sequence')
        for i, e in enumerate(els):
            if _isnan(e):
                return i
        if all(kind_of(e) == 'b' for e in els):
            r = 0
            for i in range(len(els) - 1, -1, -1):
                c = els[i] if op == '>' else lnot(els[i])
                r = ite(c, i, r)
            return r
        idx, best = 0, els[0]
        for i in range(1, len(els)):
            c = compare(op, els[i], best)
            idx = ite(c, i, idx)
            best = ite(c, els[i], best)
        return idx
    return f


def _lt(a, b):
    return compare('<', a, b)


def sort_els(els):
    els = list(els)
    n = len(els)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = els[j], els[j + 1]
            if _isnan(a):
                els[j], els[j + 1] = b, a
                continue
            if _isnan(b):
                continue
            c = compare('<=', a, b)
            els[j], els[j + 1] = ite(c, a, b), ite(c, b, a)
    return els


def argsort_els(els):
    n = len(els)
    ranks = []
    for i in range(n):
        r = 0
        for j in range(n):
            if i == j:
                continue
            if _isnan(els[i]) or _isnan(els[j]):
                before = (not _isnan(els[j]) or j < i) if _isnan(els[i]) else False
                c = np.bool_(before)
            else:
                c = compare('<=' if j < i else '<', els[j], els[i])
            r = binop('+', r, cast(c, 'i'))
        ranks.append(r)
    res = []
    for p in range(n):
        v = 0
        for i in range(n - 1, -1, -1):
            v = ite(compare('==', ranks[i], p), i, v)
        res.append(v)
    return res


# ---------------------------------------------------------------- indexing

def _as_key(key):
    """Normalise; returns (tuple key, symbolic-int?)."""
    if not isinstance(key, tuple):
        key = (key,)
    res = []
    symint = False
    for c in key:
        if isinstance(c, SBool):
            c = bool(c)
        elif isinstance(c, SNum):
            if c.kind == 'f':
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and '
                                 'integer or boolean arrays are valid indices')
            symint = True
        elif isinstance(c, (list, tuple)):
            c = S(c)
            if c.size == 0:
                c = np.zeros(c.shape, dtype=int)
        if isinstance(c, SymArray):
            if c.k == 'b':
                c = force_conc(c)
            elif c.k == 'i':
                r = conc_array(c)
                if r is None:
                    symint = True
                else:
                    c = r
            elif c.k == 'f':
                if c.size == 0 and False:
                    c = np.zeros(c.shape, dtype=int)
                else:
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
            if isinstance(c, np.ndarray) and c.ndim == 0:
                c = c[()]
        res.append(c)
    return tuple(res), symint


def _expand(key, nd):
    """Expand Ellipsis and missing dims; None unsupported here."""
    n = sum(1 for c in key if c is not Ellipsis and c is not None)
    n += sum(c.ndim - 1 for c in key if isinstance(c, np.ndarray) and c.dtype == bool)
    res = []
    seen = False
    for c in key:
        if c is Ellipsis:
            res += [slice(None)] * (nd - n)
            seen = True
        else:
            res.append(c)
    if not seen:
        res += [slice(None)] * (nd - n)
    return res


def _norm_sym_index(c, n):
    """In-bounds, non-negative symbolic index (forks on the error cases)."""
    if not _is_sym(c):
        c = int(c)
        if not -n <= c < n:
            raise IndexError('index %d is out of bounds for axis with size %d' % (c, n))
        return c % n
    ok = logic('&', compare('>=', c, -n), compare('<', c, n))
    if not ok:      # forks
        raise IndexError('index is out of bounds for axis with size %d' % n)
    if compare('<', c, 0):
        return binop('+', c, n)
    return c


def _sym_layout(key, shape):
    """For gather/scatter: advanced comps then only full slices after them."""
    if any(c is None for c in key):
        return None
    nd = len(shape)
    key = _expand(key, nd)
    # expand boolean arrays to their nonzero indices
    k2 = []
    for c in key:
        if isinstance(c, np.ndarray) and c.dtype == bool:
            k2 += list(c.nonzero())
        else:
            k2.append(c)
    key = k2
    if len(key) != nd:
        raise IndexError('too many indices for array')
    adv = [i for i, c in enumerate(key) if not isinstance(c, slice)]
    sl = [i for i, c in enumerate(key) if isinstance(c, slice)]
    scal = all(not isinstance(key[i], (np.ndarray, SymArray)) for i in adv)
    return key, adv, sl, scal


def gather(x, key):
    lay = _sym_layout(key, x.a.shape)
    if lay is None:
        return None
    key, adv, sl, scal = lay
    a = x.a
    # apply slices first
    a = a[tuple(key[i] if i in sl else slice(None) for i in range(a.ndim))]
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    a = np.moveaxis(a, adv, range(len(adv)))
    comps = [S(key[i]).a for i in adv]
    shp = np.broadcast_shapes(*[c.shape for c in comps])
    bs = [np.broadcast_to(c, shp) for c in comps]
    rest = a.shape[len(adv):]
    n_alt = 1
    for ci, c in enumerate(bs):
        if any(_is_sym(e) for e in c.flat):
            n_alt *= a.shape[ci]
    if n_alt * max(1, int(np.prod(rest, dtype=int))) > 400:
        return None
    res = _obj(shp + rest)
    for pos in np.ndindex(*shp):
        ids = [_norm_sym_index(bs[ci][pos], a.shape[ci]) for ci in range(len(bs))]

        def sel(sub, ids):
            if not ids:
                return sub
            c = ids[0]
            if not _is_sym(c):
                return sel(sub[c], ids[1:])
            opts = [sel(sub[v], ids[1:]) for v in range(sub.shape[0])]
            acc = opts[-1]
            for v in range(sub.shape[0] - 2, -1, -1):
                cond = compare('==', c, v)
                if isinstance(acc, np.ndarray):
                    o = _obj(acc.shape)
                    for q in np.ndindex(*acc.shape):
                        o[q] = ite(cond, opts[v][q], acc[q])
                    acc = o
                else:
                    acc = ite(cond, opts[v], acc)
            return acc
        val = sel(a, ids)
        if rest:
            res[pos] = val
        else:
            res[pos] = val
    # numpy puts the advanced dims at the first advanced position if contiguous
    if contiguous and not scal and adv[0] > 0:
        nb = len(shp)
        res = np.moveaxis(res, range(nb), range(adv[0], adv[0] + nb))
    r = SymArray(res, x.k)
    return ret(res[()], x.k) if res.ndim == 0 else r


def scatter(x, key, val):
    lay = _sym_layout(key, x.a.shape)
    if lay is None:
        return False
    key, adv, sl, scal = lay
    if sl and any(key[i] != slice(None) for i in sl):
        return False
    comps = [S(key[i]).a for i in adv]
    shp = np.broadcast_shapes(*[c.shape for c in comps])
    bs = [np.broadcast_to(c, shp) for c in comps]
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    if sl and not (adv[0] == 0 and contiguous):
        return False
    a = x.a
    rest = a.shape[len(adv):]
    v = np.broadcast_to(S(val).a, shp + rest)
    n_alt = 1
    for ci, c in enumerate(bs):
        if any(_is_sym(e) for e in c.flat):
            n_alt *= a.shape[ci]
    if n_alt > 64:
        return False
    norm = [[_norm_sym_index(bs[ci][pos], a.shape[ci]) for ci in range(len(bs))]
            for pos in np.ndindex(*shp)]
    for pos, ids in zip(np.ndindex(*shp), norm):
        ranges = [range(a.shape[ci]) if _is_sym(c) else [c] for ci, c in enumerate(ids)]
        for cell in itertools.product(*ranges):
            cond = np.True_
            for c, q in zip(ids, cell):
                if _is_sym(c):
                    cond = logic('&', cond, compare('==', c, q))
            if rest:
                for r in np.ndindex(*rest):
                    a[cell + r] = cast(ite(cond, v[pos + r], a[cell + r]), x.k)
            else:
                a[cell] = cast(ite(cond, v[pos], a[cell]), x.k)
    return True


def bool_result(x):
    return x


class SymArray:
    __symarray__ = True
    __array_priority__ = 2000
    __slots__ = ('a', 'k', 'mask')
    __hash__ = None

    def __init__(self, a, k):
        self.a = a
        self.k = k

    # ---- attributes
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a = self.a.reshape(s)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        return KDT[self.k]

    @property
    def T(self):
        return SymArray(self.a.T, self.k)

    @property
    def flat(self):
        return (ret(e, self.k) for e in self.a.flat)

    @property
    def real(self):
        return self

    @property
    def nbytes(self):
        return self.a.size * 8

    @property
    def itemsize(self):
        return 8

    @property
    def base(self):
        return None

    # ---- python protocol
    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.a.shape[0]

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.a.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.a.size > 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        if self.a.size == 0:
            return False
        return bool(truth(self.a.reshape(-1)[0]))

    def __int__(self):
        return int(self._one())

    def __float__(self):
        return float(self._one())

    def __index__(self):
        if self.k == 'i' and self.a.ndim == 0:
            return int(self._one())
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def _one(self):
        if self.a.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return concretize(self.a.reshape(-1)[0])

    def __contains__(self, x):
        return bool(_any(list(S(self == x).a.flat)))

    def __repr__(self):
        return 'SymArray(%s, %s)' % (self.k, self.a)

    def __str__(self):
        return '<symarray>'

    def __format__(self, spec):
        return '<symarray>'

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    # ---- numpy protocol
    def __array__(self, dtype=None, copy=None):
        r = force_conc(self)
        return r if dtype is None else r.astype(dtype)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import shim
        return shim.dispatch(func, args, kwargs)

    # ---- indexing
    def __getitem__(self, key):
        key, symint = _as_key(key)
        if symint:
            r = gather(self, key)
            if r is not None:
                return r
            key = tuple(force_conc(c) if isinstance(c, SymArray) else
                        (concretize(c) if _is_sym(c) else c) for c in key)
        r = self.a[key]
        if isinstance(r, np.ndarray) and not (r.ndim == 0 and not any(c is Ellipsis for c in key)):
            return SymArray(r, self.k)
        if isinstance(r, np.ndarray):
            return SymArray(r, self.k)
        return ret(r, self.k)

    def __setitem__(self, key, val):
        k = self.k
        if isinstance(val, (str, dict)) or val is None:
            if k != 'O':
                val = cast(val, k)
        # symbolic boolean mask with a scalar value: merge
        m = key[0] if isinstance(key, tuple) and len(key) == 1 else key
        if isinstance(m, (list,)) and has_sym(m):
            m = S(m)
        if isinstance(m, SymArray) and m.k == 'b' and conc_array(m) is None:
            v = S(val)
            if m.a.shape == self.a.shape[:m.a.ndim]:
                if v.a.size == 1 and v.a.ndim <= 1 or \
                        (v.a.ndim <= self.a.ndim - m.a.ndim and v.a.ndim > 0 and m.a.ndim < self.a.ndim):
                    rest = self.a.shape[m.a.ndim:]
                    vb = np.broadcast_to(v.a if v.a.size > 1 else v.a.reshape(()), rest)
                    for pos in np.ndindex(*m.a.shape):
                        c = m.a[pos]
                        for r in np.ndindex(*rest):
                            if not _is_sym(c):
                                if c:
                                    self.a[pos + r] = cast(vb[r], k)
                            else:
                                self.a[pos + r] = ite(c, cast(vb[r], k), self.a[pos + r])
                    return
            else:
                raise IndexError('boolean index did not match indexed array')
        key, symint = _as_key(key)
        if symint:
            if scatter(self, key, val):
                return
            key = tuple(force_conc(c) if isinstance(c, SymArray) else
                        (concretize(c) if _is_sym(c) else c) for c in key)
        v = S(val)
        tgt = self.a[key]
        if isinstance(tgt, np.ndarray):
            va = _obj(v.a.shape)
            for i in np.ndindex(*v.a.shape):
                va[i] = cast(v.a[i], k)
            if v.a.ndim == 0:
                va = va[()]
                if tgt.ndim == 0:
                    self.a[key] = va
                    return
                full = _obj(tgt.shape)
                full.fill(va)
                self.a[key] = full
            else:
                self.a[key] = va
        else:
            if v.a.size != 1:
                raise ValueError('setting an array element with a sequence.')
            self.a[key] = cast(v.a.reshape(-1)[0], k)

    # ---- methods
    def copy(self, order='C'):
        return SymArray(self.a.copy(), self.k)

    def astype(self, dtype, copy=True, **kw):
        k = dt_kind(dtype)
        if k == 'O' or k is None:
            if np.dtype(dtype) == object:
                return SymArray(self.a.copy(), 'O')
            return force_conc(self).astype(dtype)
        return mk(self.a.copy(), k)

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return SymArray(self.a.reshape(tuple(int(s) for s in shape)), self.k)

    def flatten(self, order='C'):
        return SymArray(self.a.flatten(order), self.k)

    def ravel(self, order='C'):
        return SymArray(self.a.ravel(order), self.k)

    def transpose(self, *axes):
        return SymArray(self.a.transpose(*axes), self.k)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self.k)

    def swapaxes(self, a, b):
        return SymArray(self.a.swapaxes(a, b), self.k)

    def diagonal(self, *a, **kw):
        return SymArray(self.a.diagonal(*a, **kw).copy(), self.k)

    def trace(self):
        return self.diagonal().sum()

    def fill(self, v):
        v = cast(py(v) if not _is_sym(v) else v, self.k)
        for i in np.ndindex(*self.a.shape):
            self.a[i] = v

    def tolist(self):
        return self.a.tolist()

    def item(self, *args):
        if args:
            e = self.a.item(*args)
        else:
            if self.a.size != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            e = self.a.reshape(-1)[0]
        return e

    def view(self, *a, **k):
        return SymArray(self.a.view(), self.k)

    def repeat(self, n, axis=None):
        n = force_conc(S(n)) if has_sym(n) else n
        return SymArray(self.a.repeat(n, axis), self.k)

    def take(self, idx, axis=None, **kw):
        from . import shim
        return shim.FUNCS['take'](self, idx, axis=axis, **kw)

    def sort(self, axis=-1, **kw):
        from . import shim
        self.a[...] = shim.FUNCS['sort'](self, axis=axis).a

    def searchsorted(self, v, side='left', sorter=None):
        from . import shim
        return shim.FUNCS['searchsorted'](self, v, side=side, sorter=sorter)

    def compress(self, cond, axis=None):
        from . import shim
        return shim.FUNCS['compress'](cond, self, axis=axis)

    def __getattr__(self, name):
        if name in ('sum', 'prod', 'mean', 'std', 'var', 'max', 'min', 'argmax', 'argmin', 'any', 'all', 'cumsum',
                    'cumprod', 'clip', 'round', 'nonzero', 'argsort', 'dot', 'ptp', 'choose'):
            from . import shim
            f = shim.FUNCS[name]
            return lambda *a, **k: f(self, *a, **k)
        raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % name)


OPS = {
    'add': '+', 'subtract': '-', 'multiply': '*', 'true_divide': '/', 'divide': '/', 'floor_divide': '//',
    'remainder': '%', 'mod': '%', 'power': '**', 'float_power': '**', 'less': '<', 'less_equal': '<=',
    'greater': '>', 'greater_equal': '>=', 'equal': '==', 'not_equal': '!=', 'bitwise_and': '&',
    'bitwise_or': '|', 'bitwise_xor': '^', 'maximum': 'max', 'minimum': 'min', 'left_shift': '<<',
    'right_shift': '>>',
}


def op_kind(op, ka, kb):
    if op in ('<', '<=', '>', '>=', '==', '!='):
        return 'b'
    if op == '/':
        return 'f'
    if op in ('&', '|', '^', 'max', 'min'):
        return promote(ka, kb)
    if op in ('+', '*'):
        return promote(ka, kb)
    if op == '-':
        if ka == kb == 'b':
            raise TypeError('numpy boolean subtract, the `-` operator, is not supported, use the bitwise_xor, '
                            'the `^` operator, or the logical_xor function instead.')
        return promote(ka, kb)
    k = promote(ka, kb)
    return 'i' if k == 'b' else k


def array_op(op, x, y):
    if isinstance(x, np.ndarray) and x.dtype.kind not in 'biufO' or \
            isinstance(y, np.ndarray) and y.dtype.kind not in 'biufO':
        xr = force_conc(x) if isinstance(x, SymArray) else x
        yr = force_conc(y) if isinstance(y, SymArray) else y
        inv = {v: k for k, v in OPS.items()}
        return getattr(np, inv[op])(xr, yr)
    x, y = S(x), S(y)
    if 'O' in (x.k, y.k):
        if op in ('==', '!='):
            return vec(lambda a, b: binop(op, a, b), 'b', x, y)
        k = None
        return vec(lambda a, b: binop(op, a, b), k, x, y)
    k = op_kind(op, x.k, y.k)
    if op in ('max', 'min') and k == 'b':
        return vec(lambda a, b: logic('|' if op == 'max' else '&', a, b), 'b', x, y)
    if op in ('max', 'min'):
        def f(a, b):
            if _isnan(a):
                return a
            if _isnan(b):
                return b
            return binop(op, a, b)
        return vec(f, k, x, y)
    if op in ('//', '%', '**') and k != 'f':
        return vec(lambda a, b: binop(op, cast(a, k), cast(b, k)), k, x, y)
    return vec(lambda a, b: binop(op, a, b), k, x, y)


def _isfinite(e):
    return np.bool_(_is_sym(e) or math.isfinite(e))


def _isinf(e):
    return np.bool_((not _is_sym(e)) and isinstance(e, float) and math.isinf(e))


def _sign(e):
    k = kind_of(e)
    if _isnan(e):
        return e
    r = ite(compare('>', e, 0), 1, ite(compare('<', e, 0), -1, 0))
    return cast(r, k)


def _floorf(e):
    if kind_of(e) != 'f' or is_special(e):
        return e
    return cast(core.floor_int(e), 'f')


def _ceilf(e):
    if kind_of(e) != 'f' or is_special(e):
        return e
    return cast(core.neg(core.floor_int(core.neg(e))), 'f')


UNARY = {
    'negative': (core.neg, None), 'positive': (lambda e: e, None), 'absolute': (core.absolute, None),
    'fabs': (core.absolute, 'f'), 'sign': (_sign, None),
    'floor': (_floorf, None), 'ceil': (_ceilf, None),
    'trunc': (lambda e: e if kind_of(e) != 'f' or is_special(e) else cast(core.trunc_int(e), 'f'), None),
    'rint': (lambda e: e if is_special(e) else core.rint(e), 'f'),
    'sqrt': (core.sqrt, 'f'),
    'square': (lambda e: binop('*', e, e), None),
    'reciprocal': (lambda e: binop('/', 1.0, e), 'f'),
    'logical_not': (lnot_ := (lambda e: lnot(truth(e))), 'b'),
    'invert': (lambda e: lnot(e) if kind_of(e) == 'b' else binop('-', -1, e), None),
    'isnan': (lambda e: np.bool_(_isnan(e)), 'b'),
    'isinf': (_isinf, 'b'), 'isfinite': (_isfinite, 'b'),
}
for _n in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'exp', 'log', 'log10', 'log2', 'log1p', 'expm1',
           'sinh', 'cosh', 'tanh', 'exp2', 'cbrt'):
    UNARY[_n] = ((lambda e, n=_n: core.uf1(n, e, getattr(np, n))), 'f')
for _n, _f in (('deg2rad', math.pi / 180), ('radians', math.pi / 180), ('rad2deg', 180 / math.pi),
               ('degrees', 180 / math.pi)):
    UNARY[_n] = ((lambda e, f=_f: binop('*', e, f)), 'f')

BIN2 = {
    'logical_and': (lambda a, b: logic('&', truth(a), truth(b)), 'b'),
    'logical_or': (lambda a, b: logic('|', truth(a), truth(b)), 'b'),
    'logical_xor': (lambda a, b: logic('^', truth(a), truth(b)), 'b'),
    'fmax': (lambda a, b: b if _isnan(a) else a if _isnan(b) else binop('max', a, b), None),
    'fmin': (lambda a, b: b if _isnan(a) else a if _isnan(b) else binop('min', a, b), None),
    'hypot': (lambda a, b: core.sqrt(binop('+', binop('*', a, a), binop('*', b, b))), 'f'),
    'arctan2': (lambda a, b: core.uf2('arctan2', a, b), 'f'),
    'heaviside': (lambda a, b: ite(compare('<', a, 0), 0.0, ite(compare('>', a, 0), 1.0, b)), 'f'),
    'copysign': (lambda a, b: ite(compare('<', b, 0), core.neg(core.absolute(a)), core.absolute(a)), 'f'),
}


def ufunc_call(name, inputs):
    if name in OPS:
        x, y = inputs
        return array_op(OPS[name], x, y)
    if name in UNARY:
        f, k = UNARY[name]
        x = S(inputs[0])
        if name in ('isnan', 'isinf', 'isfinite') and x.k == 'O':
            raise TypeError("ufunc '%s' not supported for the input types" % name)
        if k is None:
            k = x.k
            if name in ('absolute', 'sign') and k == 'b':
                k = 'b'
            if name in ('floor', 'ceil', 'trunc') and k != 'f':
                k = 'f'
        return vec(f, k, x)
    if name in BIN2:
        f, k = BIN2[name]
        return vec(f, k if k else promote(S(inputs[0]).k, S(inputs[1]).k), *inputs)
    if name == 'divmod':
        return array_op('//', *inputs), array_op('%', *inputs)
    if name == 'clip':
        x, lo, hi = inputs
        return array_op('min', array_op('max', x, lo), hi)
    if name == 'matmul':
        from . import shim
        return shim.FUNCS['matmul'](*inputs)
    raise Unsupported('ufunc %s on symbolic arrays' % name)


def array_ufunc(ufunc, method, *inputs, **kwargs):
    name = ufunc.__name__
    outp = kwargs.pop('out', None)
    where = kwargs.pop('where', True)
    dtype = kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    if method == '__call__':
        # everything concrete: let numpy do it
        if all(not has_sym(x) or conc_array(x) is not None for x in inputs) and where is True:
            ins = [conc_array(x) if isinstance(x, SymArray) else x for x in inputs]
            with np.errstate(all='ignore'):
                r = getattr(ufunc, '__call__')(*ins)
            r = tuple(wrap(q) for q in r) if isinstance(r, tuple) else wrap(r)
        else:
            r = ufunc_call(name, inputs)
        if dtype is not None and not isinstance(r, tuple):
            r = S(r).astype(dtype)
        if where is not True:
            base = outp[0] if outp is not None else None
            sh = np.broadcast_shapes(S(r).shape, S(where).shape)
            if base is None:
                base = mk(np.full(sh, GARBAGE[S(r).k], dtype=object), S(r).k)
            res = vec(lambda c, a, b: ite(truth(c), a, b), S(r).k, where, r, base)
            r = res
        if outp is not None:
            o = outp[0] if isinstance(outp, tuple) else outp
            if isinstance(o, SymArray):
                rk = S(r).k
                if ORDER[rk] > ORDER[o.k]:
                    raise UFuncCast("Cannot cast ufunc '%s' output from dtype to dtype with casting rule "
                                    "'same_kind'" % name)
                o[...] = r
                return o
            if isinstance(o, np.ndarray):
                rc = conc_array(S(r))
                if rc is None:
                    raise Unsupported('symbolic result into a real numpy array')
                o[...] = rc
                return o
        return r
    from . import shim
    axis = kwargs.get('axis', 0)
    keep = kwargs.get('keepdims', False)
    red = {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min', 'logical_or': 'any',
           'logical_and': 'all', 'bitwise_or': 'any', 'bitwise_and': 'all'}
    if method == 'reduce' and name in red:
        return shim.FUNCS[red[name]](inputs[0], axis=axis, keepdims=keep)
    if method == 'reduce':
        x = S(inputs[0])

        def fold(els):
            acc = els[0]
            for e in els[1:]:
                acc = ufunc_call(name, (acc, e))
            return acc
        return reduce_(x, fold, axis, keep)
    if method == 'accumulate':
        def f2(a, b):
            return ufunc_call(name, (a, b))
        return scan_(inputs[0], f2, axis)
    if method == 'outer':
        x, y = S(inputs[0]), S(inputs[1])
        return ufunc_call(name, (x.reshape(x.shape + (1,) * y.ndim), y))
    if method == 'at':
        x, idx = inputs[0], inputs[1]
        val = inputs[2] if len(inputs) > 2 else None
        if not isinstance(x, SymArray):
            raise Unsupported('ufunc.at on a real array')
        if isinstance(idx, tuple):
            comps = [S(c) for c in idx]
            shp = np.broadcast_shapes(*[c.shape for c in comps])
            its = [np.broadcast_to(c.a, shp) for c in comps]
            n = shp
            v = np.broadcast_to(S(val).a, n) if val is not None else None
            for p in np.ndindex(*n):
                key = tuple(c[p] for c in its)
                x[key] = ufunc_call(name, (x[key], v[p])) if val is not None else ufunc_call(name, (x[key],))
        else:
            ii = S(idx)
            if ii.k == 'b':
                ii = S(force_conc(ii).nonzero()[0])
            v = np.broadcast_to(S(val).a, ii.shape) if val is not None else None
            for p in np.ndindex(*ii.shape):
                key = ii.a[p]
                x[key] = ufunc_call(name, (x[key], v[p])) if val is not None else ufunc_call(name, (x[key],))
        return None
    raise Unsupported('ufunc method %s.%s' % (name, method))


def wrap(r):
    """Real numeric ndarray -> SymArray; others unchanged."""
    if isinstance(r, np.ndarray) and not isinstance(r, np.ma.MaskedArray):
        if r.dtype.kind in 'biuf':
            return S(r)
        if r.dtype == object and r.size and has_sym(r):
            return S(r)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(q) for q in r)
    if isinstance(r, list):
        return [wrap(q) for q in r]
    return r


def _mk_op(op, swap=False):
    def f(self, other):
        if isinstance(other, (str, dict, set)) or other is None:
            if op == '==':
                return mk(np.full(self.a.shape, False, dtype=object), 'b')
            if op == '!=':
                return mk(np.full(self.a.shape, True, dtype=object), 'b')
            raise TypeError('unsupported operand')
        import pandas as pd
        if isinstance(other, (pd.Series, pd.DataFrame)):
            return NotImplemented
        if swap:
            return array_op(op, other, self)
        return array_op(op, self, other)
    return f


def _mk_iop(op):
    def f(self, other):
        r = S(array_op(op, self, other))
        if ORDER[r.k] > ORDER[self.k]:
            raise UFuncCast("Cannot cast ufunc output with casting rule 'same_kind'")
        if r.a.shape != self.a.shape:
            if np.broadcast_shapes(r.a.shape, self.a.shape) != self.a.shape:
                raise ValueError('non-broadcastable output operand')
        for p in np.ndindex(*self.a.shape):
            self.a[p] = cast(r.a[p], self.k)
        return self
    return f


for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'),
               ('pow', '**'), ('and', '&'), ('or', '|'), ('xor', '^'), ('lshift', '<<'), ('rshift', '>>')):
    setattr(SymArray, '__%s__' % _n, _mk_op(_o))
    setattr(SymArray, '__r%s__' % _n, _mk_op(_o, True))
    setattr(SymArray, '__i%s__' % _n, _mk_iop(_o))
for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    setattr(SymArray, '__%s__' % _n, _mk_op(_o))
SymArray.__neg__ = lambda self: ufunc_call('negative', (self,))
SymArray.__pos__ = lambda self: self.copy()
SymArray.__abs__ = lambda self: ufunc_call('absolute', (self,))
SymArray.__invert__ = lambda self: ufunc_call('invert', (self,))


def _matmul(self, other):
    from . import shim
    return shim.FUNCS['matmul'](self, other)


SymArray.__matmul__ = _matmul
SymArray.__rmatmul__ = lambda self, other: _matmul(S(other), self)

core.ARRAY_OP = array_op
core.ARRAY_UFUNC = array_ufunc
core.TO_ARRAY = S
