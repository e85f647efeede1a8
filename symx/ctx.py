"""The interface harnesses are written against.

The same harness runs in two modes: SymCtx (inputs and random draws are
symbols, the solver decides every check) and ConcCtx (inputs and draws are the
numbers of a solver model, the code runs over the real numpy).
"""
import contextlib
import math
from fractions import Fraction

import numpy as np
import z3

from . import core, load
from .core import (SNum, SBool, PathAbort, Inconclusive, Unsupported, _is_sym, as_bool_term, cast, compare, logic, lnot,
                   binop)


class AssumeFail(BaseException):
    pass


class Base:
    sym = False

    def draw(self, i):
        """The i-th elementary random draw made so far."""
        if self.sym:
            t = core.CUR.draws.vars[i]
            return SNum(t, 'i' if z3.is_int(t) else 'f')
        return core.CUR.draws.values[i]

    def n_draws(self):
        return len(core.CUR.draws.vars) if self.sym else core.CUR.draws.pos

    # ---- values
    def _shape(self, shape):
        return (shape,) if isinstance(shape, int) else tuple(shape)

    def reals(self, name, shape, lo=None, hi=None):
        shape = self._shape(shape)
        o = np.empty(shape, dtype=object)
        for p in np.ndindex(*shape):
            o[p] = self.real('%s_%s' % (name, '_'.join(map(str, p))), lo, hi)
        return self._arr(o, 'f')

    def gaps(self, name, shape, lo=None, hi=None):
        """Reals of which any may be missing (nan): one execution per pattern."""
        shape = self._shape(shape)
        o = np.empty(shape, dtype=object)
        for p in np.ndindex(*shape):
            tag = name + '_' + '_'.join(map(str, p))
            o[p] = float('nan') if bool(self.bool(tag + '_nan')) else self.real(tag, lo, hi)
        return self._arr(o, 'f')

    def ints(self, name, shape, lo, hi):
        shape = self._shape(shape)
        o = np.empty(shape, dtype=object)
        for p in np.ndindex(*shape):
            o[p] = self.int('%s_%s' % (name, '_'.join(map(str, p))), lo, hi)
        return self._arr(o, 'i')

    def bools(self, name, shape):
        shape = self._shape(shape)
        o = np.empty(shape, dtype=object)
        for p in np.ndindex(*shape):
            o[p] = self.bool('%s_%s' % (name, '_'.join(map(str, p))))
        return self._arr(o, 'b')

    def pdf(self, name, n, positive=False, exact=True):
        """A probability distribution of n entries as a list; the last one
        closes the sum."""
        p = [self.real('%s_%d' % (name, i), 0, 1) for i in range(n - 1)]
        s = self.sum(p)
        last = 1.0 - s
        self.assume(last >= 0)
        p = p + [last]
        if positive:
            for e in p:
                self.assume(e > 0)
        return p

    def pdfs(self, name, shape, **kw):
        """Array of distributions along the last axis."""
        shape = self._shape(shape)
        o = np.empty(shape, dtype=object)
        for q in np.ndindex(*shape[:-1]):
            for j, e in enumerate(self.pdf('%s_%s' % (name, '_'.join(map(str, q))), shape[-1], **kw)):
                o[q + (j,)] = e
        return self._arr(o, 'f')

    def choice(self, name, options):
        i = int(self.int(name, 0, len(options) - 1))
        return options[i]

    def datetime(self, name, years=(1999, 2031), seconds=True, micro=False, minutes=True):
        """Any date and time of the given years."""
        y = self.int(name + '_year', *years)
        m = self.int(name + '_month', 1, 12)
        d = self.int(name + '_day', 1, 31)
        leap = y % 4 == 0
        short = self.Or(m == 4, m == 6, m == 9, m == 11)
        self.assume(self.And(self.Implies(short, d <= 30), self.Implies(m == 2, d <= self.ite(leap, 29, 28))))
        h = self.int(name + '_hour', 0, 23)
        mi = self.int(name + '_minute', 0, 59) if minutes else 0
        s = self.int(name + '_second', 0, 59) if seconds and minutes else 0
        us = self.int(name + '_us', 0, 999999) if micro else 0
        return self.dt.datetime(y, m, d, h, mi, s, us)

    # ---- logic over scalars of both modes
    def sum(self, els):
        acc = 0.0
        first = True
        for e in els:
            acc = e if first else acc + e
            first = False
        return acc

    def els(self, x):
        if hasattr(x, '__symarray__'):
            return list(x.a.flat)
        if isinstance(x, np.ndarray):
            return list(x.flat)
        if isinstance(x, (list, tuple)):
            return [q for e in x for q in self.els(e)]
        return [x]

    def And(self, *cs):
        r = np.True_
        for c in cs:
            for e in (self.els(c) if not _is_sym(c) else [c]):
                r = logic('&', r, core.truth(e))
        return r

    def Or(self, *cs):
        r = np.False_
        for c in cs:
            for e in (self.els(c) if not _is_sym(c) else [c]):
                r = logic('|', r, core.truth(e))
        return r

    def Not(self, c):
        return lnot(core.truth(c))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return compare('==', core.truth(a), core.truth(b))

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def shape(self, x):
        return tuple(x.shape) if hasattr(x, 'shape') else np.shape(x)

    def eq(self, a, b):
        """Elementwise equality of everything, shapes included."""
        ea, eb = self.els(a), self.els(b)
        if len(ea) != len(eb):
            return np.False_
        if hasattr(a, 'shape') and hasattr(b, 'shape') and tuple(a.shape) != tuple(b.shape):
            return np.False_
        return self.And(*[self._eq1(x, y) for x, y in zip(ea, eb)]) if ea else np.True_

    def _eq1(self, x, y):
        if isinstance(x, float) and isinstance(y, float) and math.isnan(x) and math.isnan(y):
            return np.True_
        return binop('==', x, y)

    def close(self, a, b, tol=1e-6):
        ea, eb = self.els(a), self.els(b)
        if len(ea) != len(eb):
            return np.False_
        if hasattr(a, 'shape') and hasattr(b, 'shape') and tuple(a.shape) != tuple(b.shape):
            return np.False_
        cs = []
        for x, y in zip(ea, eb):
            sx, sy = core.is_special(x), core.is_special(y)
            if sx or sy:
                cs.append(np.bool_(sx and sy and (x == y or (math.isnan(x) and math.isnan(y)))))
                continue
            if not _is_sym(x) and not _is_sym(y):
                cs.append(np.bool_(abs(float(x) - float(y)) <= tol * (1 + abs(float(y)))))
                continue
            if self.sym and core._is_sym(x) and core._is_sym(y) and kindterm_eq(x, y):
                continue
            d = binop('-', cast(x, 'f'), cast(y, 'f'))
            cs.append(logic('&', compare('<=', d, tol), compare('>=', d, -tol)))
        return self.And(*cs) if cs else np.True_

    def raises(self, f, *types):
        """(raised?, value)"""
        try:
            return False, f()
        except (types or (Exception,)):
            return True, None

    @contextlib.contextmanager
    def patched(self, obj, **attrs):
        old = {k: obj.__dict__.get(k, None) for k in attrs}
        had = {k: k in obj.__dict__ for k in attrs}
        for k, v in attrs.items():
            setattr(obj, k, v)
        try:
            yield
        finally:
            for k in attrs:
                if had[k]:
                    setattr(obj, k, old[k])
                else:
                    delattr(obj, k)


def kindterm_eq(x, y):
    return core.as_term(x, 'f').eq(core.as_term(y, 'f'))


class SymCtx(Base):
    sym = True

    def __init__(self, engine, job):
        from . import shim
        self.e = engine
        self.job = job
        self.np = shim.NUMPY
        self.inputs = {}
        self.obs = []
        self.checked = 0

    def mod(self, name):
        return load.get(name, 'sym')

    @property
    def dt(self):
        from . import dtshim
        return dtshim.MODULE

    def _arr(self, o, k):
        from .arrays import mk
        return mk(o, k)

    def _new(self, name, t):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.inputs[name] = t
        return t

    def real(self, name, lo=None, hi=None):
        t = self._new(name, z3.Real(name))
        if lo is not None:
            self.e.add(t >= core._rv(lo))
        if hi is not None:
            self.e.add(t <= core._rv(hi))
        return SNum(t, 'f')

    def int(self, name, lo=None, hi=None):
        t = self._new(name, z3.Int(name))
        if lo is not None and lo == hi:
            self.e.add(t == lo)
            return lo
        if lo is not None:
            self.e.add(t >= lo)
        if hi is not None:
            self.e.add(t <= hi)
        return SNum(t, 'i')

    def bool(self, name):
        return SBool(self._new(name, z3.Bool(name)))

    def assume(self, c):
        if hasattr(c, '__symarray__') or isinstance(c, np.ndarray):
            c = self.And(c)
        self.e.assume(c)

    def observe(self, name, value):
        self.obs.append((name, value))

    def cover(self, cond, label):
        label = 'cover:' + label
        if label in self.job.covered:
            return
        self.job.covered.setdefault(label, False) if False else None
        self.job.want_cover.add(label)
        self.e.get_model()
        if _is_sym(cond):
            ok, _ = self.e.check(as_bool_term(cond))
        else:
            ok = bool(cond)
        if ok:
            self.job.covered[label] = True

    def check(self, cond, label, known=None):
        if hasattr(cond, '__symarray__') or isinstance(cond, np.ndarray):
            cond = self.And(cond)
        self.e.get_model()           # the path is feasible (or aborts)
        self.job.reached[label] = self.job.reached.get(label, 0) + 1
        self.checked += 1
        if not _is_sym(cond):
            if bool(cond):
                return
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(as_bool_term(cond))
        region = None
        if known is not None and known[0] in self.job.known:
            region = as_bool_term(known[1])
            if label not in self.job.known_hits:
                ok, m = self.e.check(neg, region)
                if ok:
                    self.job.known_hits[label] = (known[0], self.values(m))
        extra = [neg] + ([z3.Not(region)] if region is not None else [])
        r, m = self.e.raw_check(*extra)
        if r == z3.unknown:
            r, m = self.job.retry(self.e, extra)
        if r == z3.sat:
            self.job.violation(self, label, m, extra)
            raise PathAbort()
        if r == z3.unknown:
            raise Inconclusive('solver answered unknown on check %s' % label)
        if region is not None and _is_sym(cond):
            self.e.assume(cond)          # go on outside the known finding
        elif not _is_sym(cond):
            raise PathAbort()

    def values(self, m):
        d = {}
        for n, t in self.inputs.items():
            d[n] = val(m, t)
        dr = [val(m, t) for t in core.CUR.draws.vars]
        return {'inputs': d, 'draws': dr}

    def fail(self, label, known=None):
        self.check(False, label, known)


def val(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_bool(v):
        return z3.is_true(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(30).as_fraction())
    return 0


class CheckFailed(BaseException):
    def __init__(self, label):
        self.label = label


class ConcCtx(Base):
    def __init__(self, values, stop=True):
        self.np = np
        self.vals = values['inputs']
        self.obs = []
        self.failed = []
        self.stop = stop
        self.known_ids = set()

    def mod(self, name):
        return load.get(name, 'conc')

    @property
    def dt(self):
        import datetime
        return datetime

    def _arr(self, o, k):
        return o.astype({'f': float, 'i': int, 'b': bool}[k])

    def real(self, name, lo=None, hi=None):
        v = float(self.vals.get(name, 0.0))
        return np.float64(v)

    def int(self, name, lo=None, hi=None):
        return int(self.vals.get(name, 0 if lo is None else lo))

    def bool(self, name):
        return np.bool_(self.vals.get(name, False))

    def assume(self, c):
        if not bool(np.all(c)):
            raise AssumeFail()

    def observe(self, name, value):
        self.obs.append((name, value))

    def cover(self, cond, label):
        pass

    def check(self, cond, label, known=None):
        if not bool(np.all(cond)):
            self.failed.append(label)
            raise CheckFailed(label)

    def fail(self, label, known=None):
        self.check(False, label)
