"""Model of numpy's datetime64 and timedelta64 values with symbolic ticks.

A value holds whole microseconds since 1970 (or of a duration) and its unit;
converting to a coarser unit drops the rest downwards (times after 1970) or
towards zero (durations), as numpy does."""
import datetime as real
import re

import numpy as np

from . import core, dtshim
from .arrays import SymArray, S, mk, vec
from .core import Unsupported, binop, compare, _is_sym

US = {'W': 604800 * 10**6, 'D': 86400 * 10**6, 'h': 3600 * 10**6, 'm': 60 * 10**6, 's': 10**6, 'ms': 1000, 'us': 1}
ORDER = list(US)


def _finer(a, b):
    return max(a, b, key=ORDER.index)


def unit_of(dtype):
    """(kind, unit) of a datetime-like dtype, else None."""
    if isinstance(dtype, Type):
        return dtype.kind, dtype.unit
    if dtype is np.datetime64:
        return 'M', None
    if dtype is np.timedelta64:
        return 'm', None
    if isinstance(dtype, np.dtype):
        if dtype.kind not in 'Mm':
            return None
        dtype = str(dtype)
    if isinstance(dtype, str):
        m = re.fullmatch(r'(datetime64|timedelta64|[<>=]?M8|[<>=]?m8)(?:\[(\w+)\])?', dtype)
        if m:
            return 'M' if m.group(1) == 'datetime64' or 'M8' in m.group(1) else 'm', m.group(2)
    return None


class Type:
    """dtype of a D64."""

    def __init__(self, kind, unit):
        self.kind, self.unit = kind, unit
        self.name = '%s[%s]' % ('datetime64' if kind == 'M' else 'timedelta64', unit)
        self.itemsize = 8

    def __str__(self):
        return self.name

    def __eq__(self, o):
        u = unit_of(o)
        return u is not None and u == (self.kind, self.unit)

    def __hash__(self):
        return hash(self.name)


def _ticks(x):
    """Microseconds of a date, a duration or a number of them."""
    if isinstance(x, (dtshim.datetime, real.datetime)):
        x = dtshim.of_real(x) if isinstance(x, real.datetime) else x
        if x.tzinfo is not None:
            raise Unsupported('datetime64 of an aware datetime')
        return binop('+', binop('*', binop('-', x._s, dtshim.EPOCH), 10**6), x._us)
    if isinstance(x, real.date):
        return (x.toordinal() * 86400 - dtshim.EPOCH) * 10**6
    if isinstance(x, (dtshim.timedelta, real.timedelta)):
        x = dtshim.of_real(x)
        return binop('+', binop('*', x.s, 10**6), x.us)
    return None


def _trunc(t, unit, kind):
    n = US[unit]
    if n == 1:
        return t

    def one(v):
        if not _is_sym(v):
            v = int(v)
            return v - v % n if kind == 'M' or v >= 0 else -(-v - -v % n)
        q = binop('*', dtshim._divmod(v, n)[0], n)
        if kind == 'm':
            q2 = -binop('*', dtshim._divmod(-v, n)[0], n)
            return core.ite(compare('>=', v, 0), q, q2)
        return q
    if isinstance(t, SymArray):
        return vec(one, 'i', t)
    return one(t)


def make(x, dtype):
    """np.array(x, dtype) for a datetime-like dtype."""
    kind, unit = unit_of(dtype)
    if isinstance(x, D64):
        if x.kind != kind:
            raise TypeError('Cannot cast')
        return x.astype(Type(kind, unit or x.unit))
    if isinstance(x, (np.datetime64, np.timedelta64)) or isinstance(x, np.ndarray) and x.dtype.kind in 'Mm':
        u = np.datetime_data(x.dtype)[0]
        u = 'us' if u == 'generic' or u not in US else u
        t = np.asarray(x).astype('%s8[us]' % x.dtype.kind).astype(int)
        r = D64(S(t) if t.ndim else int(t), x.dtype.kind, u)
        return r.astype(Type(kind, unit or u))
    if isinstance(x, str):
        return make(np.datetime64(x), dtype)
    if isinstance(x, (list, tuple, np.ndarray, SymArray)):
        els = [make(e, dtype) for e in x]
        if not els:
            raise Unsupported('empty datetime array')
        unit = unit or max((e.unit for e in els), key=ORDER.index)
        o = np.empty(len(els), dtype=object)
        for i, e in enumerate(els):
            o[i] = e.t
        return D64(mk(o, 'i'), kind, unit)
    t = _ticks(x)
    if t is None:
        if core.is_conc_num(x) or _is_sym(x):
            if unit is None:
                raise Unsupported('duration without unit')
            return D64(binop('*', x, US[unit]), kind, unit)
        raise Unsupported('datetime64 of %r' % (type(x),))
    if unit is None:
        unit = 'us'
    return D64(_trunc(t, unit, kind), kind, unit)


def lift(x):
    if isinstance(x, D64):
        return x
    if isinstance(x, (dtshim.datetime, real.datetime, real.date)):
        return make(x, 'datetime64[us]')
    if isinstance(x, (dtshim.timedelta, real.timedelta)):
        return make(x, 'timedelta64[us]')
    if isinstance(x, np.datetime64) or isinstance(x, np.ndarray) and x.dtype.kind == 'M':
        return make(x, 'datetime64')
    if isinstance(x, np.timedelta64) or isinstance(x, np.ndarray) and x.dtype.kind == 'm':
        return make(x, 'timedelta64')
    return None


class D64:
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __init__(self, t, kind, unit):
        self.t, self.kind, self.unit = t, kind, unit

    @property
    def ndim(self):
        return self.t.ndim if isinstance(self.t, SymArray) else 0

    @property
    def shape(self):
        return self.t.shape if isinstance(self.t, SymArray) else ()

    @property
    def size(self):
        return self.t.size if isinstance(self.t, SymArray) else 1

    @property
    def dtype(self):
        return Type(self.kind, self.unit)

    def __len__(self):
        return len(self.t)

    def __iter__(self):
        return (D64(e, self.kind, self.unit) for e in self.t)

    def __getitem__(self, key):
        if isinstance(key, tuple) and not key and self.ndim == 0:
            return self
        return D64(self.t[key], self.kind, self.unit)

    def copy(self):
        return D64(self.t.copy() if self.ndim else self.t, self.kind, self.unit)

    def astype(self, dtype, copy=True):
        from . import shim
        u = unit_of(dtype)
        if u is not None:
            kind, unit = u
            if kind != self.kind:
                raise TypeError('Cannot cast')
            unit = unit or self.unit
            if unit == 'ns':
                raise Unsupported('nanoseconds')
            t = self.t
            if ORDER.index(unit) < ORDER.index(self.unit):
                t = _trunc(t, unit, kind)
            return D64(t, kind, unit)
        if dtype in (dtshim.datetime, dtshim.timedelta, dtshim.date, object):
            if self.ndim:
                raise Unsupported('array of datetime objects')
            if self.kind == 'M':
                return dtshim.datetime._mk(dtshim.EPOCH, self.t)
            return dtshim.timedelta._mk(0, self.t)
        k = shim._dtk(dtype)
        r = self.t // US[self.unit]
        if k == 'f':
            r = r * 1.0
        return r

    def item(self):
        return self.astype(object)

    def tolist(self):
        return [e.item() for e in self] if self.ndim else self.item()

    def __bool__(self):
        raise Unsupported('truth of a datetime64')

    def __hash__(self):
        return hash((core.concretize(self.t), self.kind))

    def _arith(self, o, op):
        o = lift(o)
        if o is None:
            return NotImplemented
        kinds = (self.kind, o.kind)
        if op == '-':
            kind = {('M', 'M'): 'm', ('M', 'm'): 'M', ('m', 'm'): 'm'}.get(kinds)
        else:
            kind = {('m', 'M'): 'M', ('M', 'm'): 'M', ('m', 'm'): 'm'}.get(kinds)
        if kind is None:
            raise TypeError('ufunc cannot use operands with these types')
        a, b = self.t, o.t
        return D64(a - b if op == '-' else a + b, kind, _finer(self.unit, o.unit))

    def __add__(self, o):
        return self._arith(o, '+')

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, '-')

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o._arith(self, '-')

    def __neg__(self):
        return D64(-self.t, self.kind, self.unit)

    def _div(self, o, op):
        o2 = lift(o)
        if o2 is not None:
            if (self.kind, o2.kind) != ('m', 'm'):
                raise TypeError('ufunc cannot use operands with these types')
            if op == '//':
                return self.t // o2.t
            if op == '%':
                return D64(self.t % o2.t, 'm', _finer(self.unit, o2.unit))
            return self.t / o2.t
        raise Unsupported('division of a duration by a number')

    def __truediv__(self, o):
        return self._div(o, '/')

    def __floordiv__(self, o):
        return self._div(o, '//')

    def __mod__(self, o):
        return self._div(o, '%')


def _cmp(op):
    def f(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if o.kind != self.kind:
            raise TypeError('ufunc cannot use operands with these types')
        a, b = self.t, o.t
        if isinstance(a, SymArray) or isinstance(b, SymArray):
            from .arrays import array_op
            return array_op(op, a, b)
        return compare(op, a, b)
    return f


for _n, _op in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    setattr(D64, '__%s__' % _n, _cmp(_op))
D64.__hash__ = lambda self: hash((core.concretize(self.t), self.kind))
