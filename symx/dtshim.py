"""Stand-in for the datetime module with symbolic fields.

Times are whole seconds since 0001-01-01 plus microseconds; the calendar is
the proleptic Gregorian one, restricted for symbolic dates to 1901..2099.
"""
import datetime as real
import types

import z3

from . import core
from .core import SNum, _is_sym, binop, cast, compare, ite, logic, lnot, truth, Unsupported

MIN_YEAR, MAX_YEAR = 1901, 2099
DAY = 86400


def _i(x):
    """An integer (python or symbolic)."""
    if _is_sym(x):
        return x if x.kind == 'i' else core.trunc_int(x)
    return int(x)


def _fresh(base, *cons):
    e = core.eng()
    v = e.fresh_int(base)
    return v if isinstance(v, SNum) else SNum(v, 'i')


def _divmod(a, n):
    """floor division of an integer by a positive constant."""
    if not _is_sym(a):
        return divmod(a, n)
    q = z3.simplify(a.t / n)
    r = z3.simplify(a.t % n)
    return core.mk_num(q, 'i'), core.mk_num(r, 'i')


def _and(*cs):
    r = True
    for c in cs:
        r = logic('&', r, c)
    return r


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def _table(m, tab):
    if not _is_sym(m):
        return tab[m - 1]
    out = tab[11]
    for k in range(11, 0, -1):
        out = ite(compare('==', m, k), tab[k - 1], out)
    return out


def _leap(y):
    if not _is_sym(y):
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return compare('==', _divmod(y, 4)[1], 0)


def _month_len(y, m):
    return binop('+', _table(m, LEN), ite(_and(_leap(y), compare('==', m, 2)), 1, 0))


def _ordinal(y, m, d):
    if not (_is_sym(y) or _is_sym(m) or _is_sym(d)):
        return real.date(y, m, d).toordinal()
    before = 365 * (y - 1) + _divmod(y - 1, 4)[0] - 15
    return before + _table(m, CUM) + ite(_and(_leap(y), compare('>', m, 2)), 1, 0) + d


def _valid(y, m, d):
    if not (_is_sym(y) or _is_sym(m) or _is_sym(d)):
        real.date(y, m, d)
        return
    ok = _and(compare('>=', y, MIN_YEAR), compare('<=', y, MAX_YEAR), compare('>=', m, 1), compare('<=', m, 12),
              compare('>=', d, 1))
    if not bool(ok):
        raise ValueError('date out of range')
    if not bool(compare('<=', d, _month_len(y, m))):
        raise ValueError('day is out of range for month')


def _civil(ordinal):
    if not _is_sym(ordinal):
        d = real.date.fromordinal(ordinal)
        return d.year, d.month, d.day
    e = core.eng()
    y, m, d = (SNum(z3.FreshInt(n), 'i') for n in ('year', 'month', 'day'))
    c = _and(compare('>=', y, MIN_YEAR), compare('<=', y, MAX_YEAR), compare('>=', m, 1), compare('<=', m, 12),
             compare('>=', d, 1), compare('<=', d, _month_len(y, m)), compare('==', _ordinal(y, m, d), ordinal))
    e.add(core.as_bool_term(c))
    return y, m, d


def _cmp_key(op, pairs):
    """Comparison of (seconds, microseconds)."""
    (s1, s2), (u1, u2) = pairs
    if _is_sym(u1) or _is_sym(u2):
        return compare(op, binop('+', binop('*', binop('-', s1, s2), 1000000), u1), u2)
    if op in ('==', '!='):
        r = _and(*[compare('==', a, b) for a, b in pairs])
        return r if op == '==' else lnot(r)
    strict = op[0]
    r = op in ('<=', '>=')
    for a, b in reversed(pairs):
        r = logic('|', compare(strict, a, b), logic('&', compare('==', a, b), r))
    return r


class timedelta:
    __slots__ = ('s', 'us')

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        args = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not any(_is_sym(a) for a in args):
            t = real.timedelta(*[float(a) if hasattr(a, 'dtype') and a.dtype.kind == 'f' else
                                 int(a) if hasattr(a, 'dtype') else a for a in args])
            self.s, self.us = t.days * DAY + t.seconds, t.microseconds
            return
        s, us = 0, 0
        for v, unit in ((weeks, 7 * DAY), (days, DAY), (hours, 3600), (minutes, 60), (seconds, 1)):
            if _is_sym(v) and v.kind == 'f':
                tot = core.rint(binop('*', v, unit * 1000000))
                q, r = _divmod(_i(tot), 1000000)
                s, us = binop('+', s, q), binop('+', us, r)
            elif isinstance(v, float) and v != int(v):
                t = real.timedelta(seconds=v * unit)
                s, us = binop('+', s, t.days * DAY + t.seconds), binop('+', us, t.microseconds)
            else:
                s = binop('+', s, binop('*', _i(v), unit))
        for v, unit in ((milliseconds, 1000), (microseconds, 1)):
            us = binop('+', us, _i(v) * unit)
        self.s, self.us = _norm(s, us)

    @staticmethod
    def _mk(s, us):
        o = timedelta.__new__(timedelta)
        o.s, o.us = _norm(s, us)
        return o

    @property
    def days(self):
        return _divmod(_full(self.s, self.us)[0], DAY)[0]

    @property
    def seconds(self):
        return _divmod(_full(self.s, self.us)[0], DAY)[1]

    @property
    def microseconds(self):
        return _full(self.s, self.us)[1]

    def _tot(self):
        """Total microseconds."""
        return binop('+', binop('*', self.s, 1000000), self.us)

    def total_seconds(self):
        if not _is_sym(self.us) and self.us == 0:
            return cast(self.s, 'f')
        return binop('+', cast(self.s, 'f'), binop('/', self.us, 1000000))

    def __add__(self, o):
        if isinstance(o, timedelta):
            return timedelta._mk(binop('+', self.s, o.s), binop('+', self.us, o.us))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return timedelta._mk(binop('-', self.s, o.s), binop('-', self.us, o.us))
        return NotImplemented

    def __neg__(self):
        return timedelta._mk(binop('-', 0, self.s), binop('-', 0, self.us))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if bool(self < timedelta(0)) else self

    def __mul__(self, k):
        if _is_sym(k) and k.kind == 'f' or isinstance(k, float) and k != int(k):
            return timedelta(microseconds=core.rint(binop('*', k, self._tot())))
        if not (_is_sym(k) or core.is_conc_num(k)):
            return NotImplemented
        k = _i(k)
        return timedelta._mk(binop('*', self.s, k), binop('*', self.us, k))

    __rmul__ = __mul__

    def _zero(self, o):
        z = o._is_zero() if isinstance(o, timedelta) else compare('==', o, 0)
        if bool(z):
            raise ZeroDivisionError('division by zero')

    def _is_zero(self):
        return compare('==', self._tot(), 0)

    def _whole(self, o):
        return not _is_sym(self.us) and not _is_sym(o.us) and self.us == 0 and o.us == 0

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            self._zero(o)
            if self._whole(o):
                return binop('/', cast(self.s, 'f'), cast(o.s, 'f'))
            return binop('/', cast(self._tot(), 'f'), cast(o._tot(), 'f'))
        self._zero(o)
        return timedelta(microseconds=core.rint(binop('/', self._tot(), o)))

    def __floordiv__(self, o):
        self._zero(o)
        if isinstance(o, timedelta):
            if self._whole(o):
                return binop('//', self.s, o.s)
            return binop('//', self._tot(), o._tot())
        return timedelta(microseconds=binop('//', self._tot(), _i(o)))

    def __mod__(self, o):
        self._zero(o)
        if self._whole(o):
            return timedelta._mk(binop('%', self.s, o.s), 0)
        q = binop('%', self._tot(), o._tot())
        return timedelta(microseconds=q)

    def __divmod__(self, o):
        return self // o, self % o

    def __bool__(self):
        return not bool(self._is_zero())

    def __hash__(self):
        return hash(core.concretize(self._tot()))

    def __repr__(self):
        return 'timedelta(s=%s, us=%s)' % (self.s, self.us)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (timedelta._mk, (self.s, self.us))


def _norm(s, us):
    if not _is_sym(us):
        c, us = divmod(us, 1000000)
        return (binop('+', s, c) if c else s), us
    return s, us        # normalised when a field is read


def _full(s, us):
    if not _is_sym(us):
        return _norm(s, us)
    c, us = _divmod(us, 1000000)
    return binop('+', s, c), us


def _cmps(cls, pairs):
    def mk(op):
        def f(self, o):
            if not isinstance(o, cls):
                if op == '==':
                    return False
                if op == '!=':
                    return True
                return NotImplemented
            return _cmp_key(op, pairs(self, o))
        return f
    for n, op in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
        setattr(cls, '__%s__' % n, mk(op))


_cmps(timedelta, lambda a, b: [(a.s, b.s), (a.us, b.us)])
timedelta.min = timedelta._mk(-999999999 * DAY, 0)
timedelta.max = timedelta._mk(999999999 * DAY, 0)
timedelta.resolution = timedelta._mk(0, 1)


class tzinfo:
    pass


class timezone(tzinfo):
    def __init__(self, offset, name=None):
        self.offset = offset

    def utcoffset(self, dt):
        return self.offset

    def __eq__(self, o):
        return isinstance(o, timezone) and bool(self.offset == o.offset)

    def __hash__(self):
        return hash(self.offset)

    def __repr__(self):
        return 'timezone'


timezone.utc = timezone(timedelta(0))


class date:
    def __init__(self, year, month, day):
        y, m, d = _i(year), _i(month), _i(day)
        _valid(y, m, d)
        self._ord = _ordinal(y, m, d)
        self._ymd = (y, m, d)

    @classmethod
    def _mk(cls, ordinal):
        o = date.__new__(date)
        o._ord, o._ymd = ordinal, None
        return o

    def _day_no(self):
        return self._ord

    def _fields(self):
        if self._ymd is None:
            self._ymd = _civil(self._day_no())
        return self._ymd

    year = property(lambda self: self._fields()[0])
    month = property(lambda self: self._fields()[1])
    day = property(lambda self: self._fields()[2])

    def toordinal(self):
        return self._day_no()

    @classmethod
    def fromordinal(cls, n):
        return date._mk(_i(n))

    def weekday(self):
        return _divmod(binop('+', self._day_no(), 6), 7)[1]

    def isoweekday(self):
        return binop('+', self.weekday(), 1)

    def timetuple(self):
        y = self.year
        yd = binop('+', binop('-', self._day_no(), _ordinal(y, 1, 1)), 1)
        return types.SimpleNamespace(tm_year=self.year, tm_mon=self.month, tm_mday=self.day, tm_yday=yd,
                                     tm_wday=self.weekday(), tm_hour=getattr(self, 'hour', 0),
                                     tm_min=getattr(self, 'minute', 0), tm_sec=getattr(self, 'second', 0))

    def isocalendar(self):
        raise Unsupported('isocalendar')

    def replace(self, year=None, month=None, day=None):
        y, m, d = self._fields()
        return date(y if year is None else year, m if month is None else month, d if day is None else day)

    def __add__(self, o):
        if isinstance(o, timedelta):
            return date._mk(binop('+', self._ord, o.days))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return date._mk(binop('-', self._ord, o.days))
        if isinstance(o, date) and not isinstance(o, datetime):
            return timedelta._mk(binop('*', binop('-', self._ord, o._ord), DAY), 0)
        return NotImplemented

    def __hash__(self):
        return hash(core.concretize(self._day_no()))

    def strftime(self, f):
        return '<date>'

    isoformat = __str__ = __repr__ = lambda self, *a, **k: '<%s>' % type(self).__name__

    def __format__(self, s):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    @classmethod
    def today(cls):
        raise Unsupported('today')


_cmps(date, lambda a, b: [(a._day_no(), b._day_no()), (0, 0)])


class time:
    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        self.hour, self.minute, self.second = _i(hour), _i(minute), _i(second)
        self.microsecond = _i(microsecond)
        self.tzinfo = tzinfo
        self._hms = (self.hour, self.minute, self.second)
        for v, n in ((self.hour, 24), (self.minute, 60), (self.second, 60), (self.microsecond, 1000000)):
            if not bool(_and(compare('>=', v, 0), compare('<', v, n))):
                raise ValueError('time out of range')
        self._sec = self.hour * 3600 + self.minute * 60 + self.second

    @classmethod
    def _mk(cls, sec, us, tz=None):
        o = _LazyTime.__new__(_LazyTime)
        o._sec, o.microsecond, o.tzinfo = sec, us, tz
        return o

    def replace(self, **k):
        d = dict(hour=self.hour, minute=self.minute, second=self.second, microsecond=self.microsecond,
                 tzinfo=self.tzinfo)
        d.update(k)
        return time(**d)

    def __hash__(self):
        return hash((core.concretize(self._sec), core.concretize(self.microsecond)))

    isoformat = __str__ = __repr__ = lambda self, *a, **k: '<time>'
    strftime = lambda self, f: '<time>'

    def __format__(self, s):
        return '<time>'

    def __deepcopy__(self, memo):
        return self


class _LazyTime(time):
    hour = property(lambda self: _divmod(self._sec, 3600)[0])
    minute = property(lambda self: _divmod(_divmod(self._sec, 60)[0], 60)[1])
    second = property(lambda self: _divmod(self._sec, 60)[1])


_cmps(time, lambda a, b: [(a._sec, b._sec), (a.microsecond, b.microsecond)])
time.min, time.max = time(0), time(23, 59, 59, 999999)


class datetime(date):
    def __init__(self, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        y, m, d = _i(year), _i(month), _i(day)
        _valid(y, m, d)
        t = time(hour, minute, second, microsecond)
        self._s = binop('+', binop('*', _ordinal(y, m, d), DAY), t._sec)
        self._us = t.microsecond
        self._ymd = (y, m, d)
        self._split_ = (_ordinal(y, m, d), t._sec)
        self._hms_ = t._hms
        self.tzinfo = tzinfo

    @classmethod
    def _mk(cls, s, us, tz=None):
        o = datetime.__new__(datetime)
        o._s, o._us = _norm(s, us)
        o._ymd = o._split_ = o._hms_ = None
        o.tzinfo = tz
        return o

    def _split(self):
        if self._split_ is None:
            s, us = _full(self._s, self._us)
            self._split_ = _divmod(s, DAY)
        return self._split_

    @property
    def _ord(self):
        return self._split()[0]

    def _day_no(self):
        return self._split()[0]

    def _hms(self):
        if self._hms_ is None:
            x, s = _divmod(self._split()[1], 60)
            self._hms_ = _divmod(x, 60) + (s,)
        return self._hms_

    hour = property(lambda self: self._hms()[0])
    minute = property(lambda self: self._hms()[1])
    second = property(lambda self: self._hms()[2])

    microsecond = property(lambda self: _full(0, self._us)[1])

    def date(self):
        o = date._mk(self._split()[0])
        o._ymd = self._ymd
        return o

    def time(self):
        return time._mk(self._split()[1], self.microsecond)

    timetz = time

    @classmethod
    def combine(cls, d, t, tzinfo=None):
        return datetime._mk(binop('+', binop('*', d._day_no(), DAY), t._sec), t.microsecond, tzinfo)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None,
                tzinfo=True, fold=None):
        tz = self.tzinfo if tzinfo is True else tzinfo
        if all(v is None for v in (year, month, day, hour, minute, second, microsecond)):
            o = datetime._mk(self._s, self._us, tz)
            o._ymd, o._split_, o._hms_ = self._ymd, self._split_, self._hms_
            return o
        if year is None and month is None and day is None:
            t = time(self.hour if hour is None else hour, self.minute if minute is None else minute,
                     self.second if second is None else second,
                     self.microsecond if microsecond is None else microsecond)
            return datetime._mk(binop('+', binop('*', self._day_no(), DAY), t._sec), t.microsecond, tz)
        y, m, d = self._fields()
        return datetime(y if year is None else year, m if month is None else month, d if day is None else day,
                        self.hour if hour is None else hour, self.minute if minute is None else minute,
                        self.second if second is None else second,
                        self.microsecond if microsecond is None else microsecond, tz)

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(self)

    def _utc(self):
        if self.tzinfo is None:
            return self._s, self._us
        o = self.tzinfo.utcoffset(self)
        return _norm(binop('-', self._s, o.s), binop('-', self._us, o.us))

    def astimezone(self, tz=None):
        if tz is None or self.tzinfo is None:
            raise Unsupported('local time zone')
        s, us = self._utc()
        o = tz.utcoffset(None)
        return datetime._mk(binop('+', s, o.s), binop('+', us, o.us), tz)

    def timestamp(self):
        s, us = self._utc()        # naive times: the time zone of the sandbox is UTC
        r = timedelta._mk(binop('-', s, EPOCH), us).total_seconds()
        if _is_sym(r):
            # remembered so that the way back needs no rounding
            core.eng().__dict__.setdefault('stamps', {})[r.t.get_id()] = (r.t, s, us)
        return r

    @staticmethod
    def _of_stamp(t):
        if _is_sym(t):
            known = getattr(core.eng(), 'stamps', {}).get(t.t.get_id())
            if known is not None:
                return datetime._mk(known[1], known[2])
        return datetime._mk(EPOCH, 0) + timedelta(seconds=t)

    @classmethod
    def utcfromtimestamp(cls, t):
        return cls._of_stamp(t)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        r = cls._of_stamp(t)
        if tz is not None:
            r = (r + tz.utcoffset(None)).replace(tzinfo=tz)
        return r

    @classmethod
    def now(cls, tz=None):
        raise Unsupported('now')

    utcnow = today = now

    @classmethod
    def fromisoformat(cls, s):
        return of_real(real.datetime.fromisoformat(s))

    @classmethod
    def strptime(cls, s, f):
        return of_real(real.datetime.strptime(s, f))

    def __add__(self, o):
        if isinstance(o, timedelta):
            return datetime._mk(binop('+', self._s, o.s), binop('+', self._us, o.us), self.tzinfo)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return datetime._mk(binop('-', self._s, o.s), binop('-', self._us, o.us), self.tzinfo)
        if isinstance(o, datetime):
            if (self.tzinfo is None) != (o.tzinfo is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            (a, b), (c, d) = self._utc(), o._utc()
            return timedelta._mk(binop('-', a, c), binop('-', b, d))
        return NotImplemented

    def __hash__(self):
        s, us = self._utc()
        return hash(core.concretize(binop('+', binop('*', s, 1000000), us)))


def _dtcmp(op):
    def f(self, o):
        if not isinstance(o, datetime):
            if isinstance(o, date) and op not in ('==', '!='):
                raise TypeError("can't compare datetime.datetime to datetime.date")
            return NotImplemented
        if (self.tzinfo is None) != (o.tzinfo is None):
            if op in ('==', '!='):
                return op == '!='
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        (a, b), (c, d) = self._utc(), o._utc()
        return _cmp_key(op, [(a, c), (b, d)])
    return f


for _n, _op in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    setattr(datetime, '__%s__' % _n, _dtcmp(_op))

EPOCH = real.date(1970, 1, 1).toordinal() * DAY


def of_real(x):
    """A stand-in object for a concrete one."""
    if isinstance(x, real.datetime):
        tz = None
        if x.tzinfo is not None:
            tz = timezone(of_real(x.utcoffset()))
        return datetime(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, tz)
    if isinstance(x, real.timedelta):
        return timedelta._mk(x.days * DAY + x.seconds, x.microseconds)
    if isinstance(x, real.time):
        return time(x.hour, x.minute, x.second, x.microsecond)
    if isinstance(x, real.date):
        return date(x.year, x.month, x.day)
    return x


MODULE = types.ModuleType('datetime')
for _c in (timedelta, tzinfo, timezone, date, time, datetime):
    setattr(MODULE, _c.__name__, _c)
    _c.__module__ = 'datetime'
MODULE.MINYEAR, MODULE.MAXYEAR = 1, 9999
MODULE.UTC = timezone.utc
