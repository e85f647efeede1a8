"""Symbolic scalars and the path-exploring engine (z3)."""
import sys
import time
import math
import numbers
from fractions import Fraction

import numpy as np
import z3

# --------------------------------------------------------------------------
# Control exceptions: BaseException so that the code under test cannot catch
# them with `except Exception`.


class PathAbort(BaseException):
    """The current path is infeasible or was assumed away."""


class Inconclusive(BaseException):
    """The engine cannot decide (solver unknown, bounds exhausted...)."""


class Unsupported(Inconclusive):
    """A construct outside what the encoding covers."""


class _Cur:
    eng = None


CUR = _Cur()


def eng():
    if CUR.eng is None:
        raise Unsupported('symbolic value used outside of a run')
    return CUR.eng


# --------------------------------------------------------------------------
# z3 helpers

def _rv(x):
    """RealVal of a python number (exact)."""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


def py(x):
    """Normalise a concrete scalar to bool_/int/float; leave others."""
    if isinstance(x, (bool, np.bool_)):
        return np.bool_(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, Fraction):
        return float(x)
    return x


def is_conc_num(x):
    return isinstance(x, (bool, np.bool_, int, float, np.integer, np.floating))


def kind_of(x):
    if isinstance(x, SBool):
        return 'b'
    if isinstance(x, SNum):
        return x.kind
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating)):
        return 'f'
    return 'O'


def is_special(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def as_term(x, sort=None):
    """z3 arithmetic term of any numeric scalar; sort 'i' or 'f' forces."""
    if isinstance(x, SNum):
        t = x.t
        if sort == 'f' and x.kind == 'i':
            return z3.ToReal(t)
        return t
    if isinstance(x, SBool):
        if sort == 'f':
            return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return z3.IntVal(int(x)) if sort != 'f' else z3.RealVal(int(x))
    if isinstance(x, (float, np.floating)):
        return _rv(float(x))
    raise Unsupported('no term for %r' % (x,))


def as_bool_term(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SNum):
        return x.t != 0
    return z3.BoolVal(bool(x))


def mk_bool(t):
    """SBool or concrete from a z3 bool, folding constants."""
    if z3.is_true(t):
        return np.True_
    if z3.is_false(t):
        return np.False_
    s = z3.simplify(t)
    if z3.is_true(s):
        return np.True_
    if z3.is_false(s):
        return np.False_
    return SBool(t)


def mk_num(t, kind):
    if z3.is_int_value(t):
        return t.as_long() if kind == 'i' else float(t.as_long())
    if z3.is_rational_value(t):
        f = t.as_fraction()
        v = float(f)
        if Fraction(v) == f:
            return v
    return SNum(t, kind)


def _promote(a, b):
    ka, kb = kind_of(a), kind_of(b)
    return 'f' if 'f' in (ka, kb) else 'i'


_CONC = {
    '+': np.add, '-': np.subtract, '*': np.multiply, '/': np.true_divide,
    '//': np.floor_divide, '%': np.remainder, '**': np.power,
    '<': np.less, '<=': np.less_equal, '>': np.greater, '>=': np.greater_equal,
    '==': np.equal, '!=': np.not_equal, '&': np.bitwise_and, '|': np.bitwise_or,
    '^': np.bitwise_xor, 'min': np.minimum, 'max': np.maximum,
    '<<': np.left_shift, '>>': np.right_shift,
}


def _is_sym(x):
    return isinstance(x, (SNum, SBool))


def conc_op(op, a, b):
    if not (is_conc_num(a) and is_conc_num(b)):
        import operator as _o
        f = {'+': _o.add, '-': _o.sub, '*': _o.mul, '/': _o.truediv, '//': _o.floordiv,
             '%': _o.mod, '<': _o.lt, '<=': _o.le, '>': _o.gt, '>=': _o.ge, '==': _o.eq,
             '!=': _o.ne, '&': _o.and_, '|': _o.or_, '^': _o.xor}[op]
        return f(a, b)
    with np.errstate(all='ignore'):
        if op == '**' and kind_of(a) == 'i' and kind_of(b) == 'i' and b < 0:
            raise ValueError('Integers to negative integer powers are not allowed.')
        return py(_CONC[op](a, b))


def _numeric_or_notimpl(x):
    return _is_sym(x) or is_conc_num(x)


def binop(op, a, b):
    """Numpy-scalar semantics of `a op b`."""
    if not _is_sym(a) and not _is_sym(b):
        return conc_op(op, a, b)
    if not (_numeric_or_notimpl(a) and _numeric_or_notimpl(b)):
        if op == '==':
            return np.False_
        if op == '!=':
            return np.True_
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise TypeError('unsupported operand types for %s' % op)
        raise Unsupported('%s on %r and %r' % (op, type(a), type(b)))
    if op in ('<', '<=', '>', '>=', '==', '!='):
        return compare(op, a, b)
    if op in ('&', '|', '^'):
        return logic(op, a, b)
    if is_special(a) or is_special(b):
        return special_arith(op, a, b)
    ka, kb = kind_of(a), kind_of(b)
    if op == '+':
        if ka == 'b' and kb == 'b':
            return logic('|', a, b)
        if not _is_sym(a) and a == 0 and kind_of(b) != 'b' and (ka != 'f' or kb == 'f'):
            return b
        if not _is_sym(b) and b == 0 and kind_of(a) != 'b' and (kb != 'f' or ka == 'f'):
            return a
        k = _promote(a, b)
        return mk_num(as_term(a, k) + as_term(b, k), k)
    if op == '-':
        if ka == 'b' and kb == 'b':
            raise TypeError('numpy boolean subtract, the `-` operator, is not supported')
        k = _promote(a, b)
        if not _is_sym(b) and b == 0 and ka == k:
            return a
        ta, tb = as_term(a, k), as_term(b, k)
        if ta.eq(tb):
            return 0 if k == 'i' else 0.0
        return mk_num(ta - tb, k)
    if op == '*':
        if ka == 'b' and kb == 'b':
            return logic('&', a, b)
        k = _promote(a, b)
        zero, one = (0, 1) if k == 'i' else (0.0, 1.0)
        for x, y in ((a, b), (b, a)):
            bb = x if isinstance(x, SBool) else getattr(x, 'b', None)
            if bb is not None:
                return ite(bb, cast(y, k), zero)
            if not _is_sym(x):
                if x == 0:
                    return zero
                if x == 1 and kind_of(y) == k:
                    return y
        # push a concrete-branch ite through the product to stay linear
        return mk_num(as_term(a, k) * as_term(b, k), k)
    if op == '/':
        return divide(a, b)
    if op == '//' or op == '%':
        return divmod_(op, a, b)
    if op == '**':
        return power(a, b)
    if op == 'min':
        return ite(compare('<=', a, b), a, b)
    if op == 'max':
        return ite(compare('>=', a, b), a, b)
    if op in ('<<', '>>') and not _is_sym(b):
        return binop('*' if op == '<<' else '//', a, 2 ** int(b))
    raise Unsupported('operator %s' % op)


def special_arith(op, a, b):
    """One operand is a concrete nan or inf, the other a finite symbol."""
    for x in (a, b):
        if isinstance(x, float) and math.isnan(x):
            return float('nan')
    sa, sb = is_special(a), is_special(b)
    if op == '+':
        return a if sa else b
    if op == '-':
        return a if sa else -b
    if op in ('*', '/'):
        if op == '/' and sb:
            return 0.0
        inf, o = (a, b) if sa else (b, a)
        if compare('>', o, 0):
            return inf
        if compare('<', o, 0):
            return -inf
        return float('nan') if op == '*' else inf
    if op == 'min':
        return (b if a > 0 else a) if sa else (a if b > 0 else b)
    if op == 'max':
        return (a if a > 0 else b) if sa else (b if b > 0 else a)
    raise Unsupported('special float in %s' % op)


def compare(op, a, b):
    if not _is_sym(a) and not _is_sym(b):
        return conc_op(op, a, b)
    if is_special(a) or is_special(b):
        for x in (a, b):
            if isinstance(x, float) and math.isnan(x):
                return np.bool_(op == '!=')
        if is_special(a):
            return conc_op(op, a, 0.0)
        return conc_op(op, 0.0, b)
    if isinstance(a, SBool) and isinstance(b, (SBool, bool, np.bool_)) or \
            isinstance(b, SBool) and isinstance(a, (bool, np.bool_)):
        if op == '==':
            return mk_bool(as_bool_term(a) == as_bool_term(b))
        if op == '!=':
            return mk_bool(as_bool_term(a) != as_bool_term(b))
    k = _promote(a, b)
    ta, tb = as_term(a, k), as_term(b, k)
    if ta.eq(tb):
        return np.bool_(op in ('<=', '>=', '=='))
    d = decided(op, ta, tb)
    if d is not None:
        return np.bool_(d)
    d = by_cases(op, ta, tb)
    if d is not None:
        return np.bool_(d) if isinstance(d, bool) else mk_bool(d)
    t = {'<': lambda: ta < tb, '<=': lambda: ta <= tb, '>': lambda: ta > tb,
         '>=': lambda: ta >= tb, '==': lambda: ta == tb, '!=': lambda: ta != tb}[op]()
    return mk_bool(t)


INF = float('inf')
NOWHERE = ((-INF, True), (INF, True))


def _num(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def value_range(t, depth=12):
    """((lo, open), (hi, open)) that surely contain the term, from the
    declared ranges of the unknowns in it."""
    v = _num(t)
    if v is not None:
        return (v, False), (v, False)
    e = eng()
    k = t.get_id()
    r = e.ranges.get(k)
    if r is not None:
        return r[1]
    if depth == 0 or not z3.is_app(t):
        return NOWHERE
    d = t.decl().kind()
    n = t.num_args()
    if n == 0:
        lo, hi = e.bounds.get(t.decl().name(), NOWHERE)
        return lo, hi
    if d == z3.Z3_OP_ITE:
        r = _union(value_range(t.arg(1), depth - 1), value_range(t.arg(2), depth - 1))
    elif d == z3.Z3_OP_TO_REAL:
        r = value_range(t.arg(0), depth - 1)
    elif d == z3.Z3_OP_ADD and n <= 40:
        lo, hi = (Fraction(0), False), (Fraction(0), False)
        for i in range(n):
            a, b = value_range(t.arg(i), depth - 1)
            lo = (lo[0] + a[0], lo[1] or a[1])
            hi = (hi[0] + b[0], hi[1] or b[1])
            if lo[0] == -INF and hi[0] == INF:
                break
        r = lo, hi
    elif d == z3.Z3_OP_MUL and n == 2 and _num(t.arg(0)) is not None:
        c = _num(t.arg(0))
        if c == 0:
            return (c, False), (c, False)
        lo, hi = value_range(t.arg(1), depth - 1)
        lo, hi = (lo[0] * c, lo[1]), (hi[0] * c, hi[1])
        r = (lo, hi) if c > 0 else (hi, lo)
    else:
        r = NOWHERE
    e.ranges[k] = (t, r)         # keeps the term, hence its id, alive
    return r


def _union(a, b):
    lo = min(a[0], b[0], key=lambda x: (x[0], x[1]))
    hi = max(a[1], b[1], key=lambda x: (x[0], not x[1]))
    return lo, hi


def decided(op, ta, tb):
    """Whether the comparison follows from the ranges of its operands."""
    a, b = value_range(ta), value_range(tb)

    def below(x, y, strict):     # x < y (or x <= y) everywhere
        hi, lo = x[1], y[0]
        if hi[0] == INF or lo[0] == -INF:
            return False
        return hi[0] < lo[0] or hi[0] == lo[0] and (not strict or hi[1] or lo[1])
    if op in ('>', '>='):
        return decided('<' if op == '>' else '<=', tb, ta)
    if op in ('<', '<='):
        if below(a, b, op == '<'):
            return True
        if below(b, a, op == '<='):
            return False
        return None
    if below(a, b, True) or below(b, a, True):
        return op == '!='
    return None


MAX_CASES = 6


def cases(t, depth=40):
    """{value: guard} of a term that takes few values, else None."""
    v = _num(t)
    if v is not None:
        return {v: True}
    if depth == 0 or not z3.is_app(t):
        return None
    e = eng()
    k = t.get_id()
    if k in e.cases:
        return e.cases[k][1]
    d = t.decl().kind()
    r = None
    if d == z3.Z3_OP_ITE:
        a = cases(t.arg(1), depth - 1)
        b = a and cases(t.arg(2), depth - 1)
        if b:
            c = t.arg(0)
            n = z3.Not(c)
            r = {}
            for x in list(a) + [y for y in b if y not in a]:
                r[x] = _or(_and(c, a.get(x, False)), _and(n, b.get(x, False)))
    elif d == z3.Z3_OP_TO_REAL:
        r = cases(t.arg(0), depth - 1)
    elif d == z3.Z3_OP_ADD and t.num_args() <= 8:
        r = {Fraction(0): True}
        for i in range(t.num_args()):
            b = cases(t.arg(i), depth - 1)
            if not b or len(b) * len(r) > 24:
                r = None
                break
            s = {}
            for x, g in r.items():
                for y, h in b.items():
                    s[x + y] = _or(s.get(x + y, False), _and(g, h))
            r = s
    elif d == z3.Z3_OP_MUL and t.num_args() == 2 and _num(t.arg(0)):
        b = cases(t.arg(1), depth - 1)
        r = b and {x * _num(t.arg(0)): g for x, g in b.items()}
    if r is not None and len(r) > MAX_CASES:
        r = None
    e.cases[k] = (t, r)
    return r


def _and(a, b):
    if a is False or b is False:
        return False
    return b if a is True else a if b is True else z3.And(a, b)


def _or(a, b):
    if a is True or b is True:
        return True
    if a is False or b is False:
        return b if a is False else a
    if z3.is_not(a) and a.arg(0).eq(b) or z3.is_not(b) and b.arg(0).eq(a):
        return True
    return z3.Or(a, b)


def by_cases(op, ta, tb):
    """The comparison as a formula over the guards of the few values that the
    operands take; None if it is not one."""
    a, b = cases(ta), cases(tb)
    if a is None and b is None or a is not None and b is not None and len(a) == len(b) == 1:
        return None
    r = False
    if a is None or b is None:
        if len(a or b) == 1:
            return None
        for x, g in (a or b).items():
            x = z3.RealVal(x)
            y = decided(op, x, tb) if b is None else decided(op, ta, x)
            if y is None:
                return None
            if y:
                r = _or(r, g)
        return r
    for x, g in a.items():
        for y, h in b.items():
            if conc_op(op, x, y):
                r = _or(r, _and(g, h))
    return r


def logic(op, a, b):
    ka, kb = kind_of(a), kind_of(b)
    if ka != 'b' or kb != 'b':
        if 'f' in (ka, kb):
            raise TypeError("ufunc 'bitwise' not supported for the input types")
        # bitwise on integers: only with concretised operands
        a2, b2 = concretize(a), concretize(b)
        return conc_op(op, a2, b2)
    if not _is_sym(a) and not _is_sym(b):
        return conc_op(op, a, b)
    if op == '&':
        for x, y in ((a, b), (b, a)):
            if not _is_sym(x):
                return y if x else np.False_
        return mk_bool(z3.And(a.t, b.t))
    if op == '|':
        for x, y in ((a, b), (b, a)):
            if not _is_sym(x):
                return np.True_ if x else y
        return mk_bool(z3.Or(a.t, b.t))
    for x, y in ((a, b), (b, a)):
        if not _is_sym(x):
            return lnot(y) if x else y
    return mk_bool(z3.Xor(a.t, b.t))


def lnot(a):
    if isinstance(a, SBool):
        if z3.is_not(a.t):
            return SBool(a.t.arg(0))
        return SBool(z3.Not(a.t))
    if isinstance(a, SNum):
        return compare('==', a, 0)
    return np.bool_(not a)


def truth(a):
    """Symbolic truth value of a scalar."""
    if isinstance(a, SNum):
        return compare('!=', a, 0)
    if isinstance(a, SBool):
        return a
    return np.bool_(bool(a))


def divide(a, b):
    if not _is_sym(b):
        if b == 0:
            a_ = a
            if compare('>', a_, 0):
                return float('inf')
            if compare('<', a_, 0):
                return float('-inf')
            return float('nan')
        if isinstance(b, float) or True:
            ta = as_term(a, 'f')
            inv = Fraction(float(b)) if isinstance(b, (float, np.floating)) else Fraction(int(b))
            return mk_num(ta * z3.Q(inv.denominator, inv.numerator) if inv.numerator > 0
                          else ta * z3.Q(-inv.denominator, -inv.numerator), 'f')
    if compare('==', b, 0):          # forks
        if not _is_sym(a):
            if a == 0 or math.isnan(a):
                return float('nan')
            return float('inf') if a > 0 else float('-inf')
        if compare('>', a, 0):
            return float('inf')
        if compare('<', a, 0):
            return float('-inf')
        return float('nan')
    if not _is_sym(a) and a == 0:
        return 0.0
    ta, tb = as_term(a, 'f'), as_term(b, 'f')
    if ta.eq(tb):
        return 1.0
    return mk_num(ta / tb, 'f')


def floor_int(x):
    """floor of a real as an integer-kind scalar."""
    if not _is_sym(x):
        return int(math.floor(x))
    if x.kind == 'i':
        return x
    t = x.t
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return mk_num(t.arg(0), 'i')
    if z3.is_app_of(t, z3.Z3_OP_DIV) and not z3.is_rational_value(t.arg(1)):
        return quotient(SNum(t.arg(0), 'f'), SNum(t.arg(1), 'f'))
    return mk_num(z3.ToInt(t), 'i')


def _int_term(t):
    """The integer term behind a real one, if any."""
    if z3.is_int(t):
        return t
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return z3.IntVal(t.numerator_as_long())
    return None


def quotient(a, b):
    """floor(a / b) for a symbolic divisor that is not zero: one integer
    unknown per pair of operands, shared by //, % and int(a / b)."""
    e = eng()
    ta, tb = as_term(a, 'f'), as_term(b, 'f')
    ia, ib = _int_term(ta), _int_term(tb)
    if ia is not None and ib is not None:
        ta, tb = ia, ib
    key = (ta.get_id(), tb.get_id())
    if key not in e.quot:
        pos = e.fork(z3.simplify(tb > 0))
        q = e.fresh_int('quot')
        qq = q if z3.is_int(ta) else z3.ToReal(q)
        if pos:
            e.add(z3.And(qq * tb <= ta, ta < qq * tb + tb))
        else:
            e.add(z3.And(qq * tb >= ta, ta > qq * tb + tb))
        e.quot[key] = (q, ta, tb)
    return SNum(e.quot[key][0], 'i')


def divmod_(op, a, b):
    k = _promote(a, b)
    if not _is_sym(b):
        if b == 0:
            if k == 'i':
                return 0
            return float('nan')
        pos = b > 0
    else:
        if compare('==', b, 0):
            return 0 if k == 'i' else float('nan')
        q = quotient(a, b)
        if op == '//':
            return cast(q, k)
        return binop('-', a, binop('*', cast(q, k), b))
    if k == 'i':
        ta, tb = as_term(a, 'i'), as_term(b, 'i')
        if pos:
            return mk_num(ta / tb if op == '//' else ta % tb, 'i')
        if op == '//':
            return mk_num((-ta) / (-tb), 'i')
        return mk_num(-((-ta) % (-tb)), 'i')
    q = divide(a, b)
    fl = floor_int(q)
    if op == '//':
        return cast(fl, 'f')
    return binop('-', a, binop('*', cast(fl, 'f'), b))


def power(a, b):
    if not _is_sym(b):
        if float(b) == int(b) and 0 <= int(b) <= 6:
            n = int(b)
            k = 'f' if kind_of(b) == 'f' or kind_of(a) == 'f' else 'i'
            out = 1 if k == 'i' else 1.0
            for _ in range(n):
                out = binop('*', out, a)
            return cast(out, k)
        if float(b) == int(b) and -4 <= int(b) < 0:
            return divide(1.0, power(a, -int(b)))
        if b == 0.5:
            return sqrt(a)
    return uf2('pow', a, b)


def sqrt(x):
    if not _is_sym(x):
        with np.errstate(all='ignore'):
            return float(np.sqrt(x))
    if compare('<', x, 0):
        return float('nan')
    e = eng()
    y = e.fresh_real('sqrt')
    e.add(z3.And(y >= 0, y * y == as_term(x, 'f')))
    return SNum(y, 'f')


_UF1 = {}


def uf1(name, x, npf):
    if not _is_sym(x):
        with np.errstate(all='ignore'):
            return float(npf(x))
    f = _UF1.setdefault(name, z3.Function('uf_' + name, z3.RealSort(), z3.RealSort()))
    t = f(as_term(x, 'f'))
    e = eng()
    e.used_uf.add(name)
    if name in ('sin', 'cos', 'tanh'):
        e.add(z3.And(t >= -1, t <= 1))
    elif name in ('exp',):
        e.add(t > 0)
    return SNum(t, 'f')


def uf2(name, x, y):
    f = _UF1.setdefault(name + '2', z3.Function('uf_' + name, z3.RealSort(), z3.RealSort(), z3.RealSort()))
    eng().used_uf.add(name)
    return SNum(f(as_term(x, 'f'), as_term(y, 'f')), 'f')


def neg(a):
    if _is_sym(a):
        if isinstance(a, SBool):
            raise TypeError('The numpy boolean negative, the `-` operator, is not supported')
        return mk_num(-a.t, a.kind)
    if isinstance(a, np.bool_):
        raise TypeError('The numpy boolean negative, the `-` operator, is not supported')
    return -a


def absolute(a):
    if _is_sym(a):
        if isinstance(a, SBool):
            return a
        return ite(compare('>=', a, 0), a, neg(a))
    return py(np.absolute(a))


def trunc_int(x):
    if _is_sym(x):
        if isinstance(x, SBool):
            return cast(x, 'i')
        if x.kind == 'i':
            return x
        f = floor_int(x)
        # trunc(x) = floor(x) if x>=0 else -floor(-x)
        if z3.is_app_of(x.t, z3.Z3_OP_DIV) and not z3.is_rational_value(x.t.arg(1)):
            return f if compare('>=', x, 0) else neg(floor_int(divide(neg(SNum(x.t.arg(0), 'f')), SNum(x.t.arg(1), 'f'))))
        if _is_sym(f) and x.t.decl().kind() == z3.Z3_OP_TO_REAL:
            return f
        return ite(compare('>=', x, 0), f, neg(floor_int(neg(x))))
    if is_special(x):
        with np.errstate(all='ignore'):
            return int(np.array(x).astype(int))
    return int(x)


def rint(x):
    """Round half to even, float kind."""
    if not _is_sym(x):
        return py(np.rint(x)) if kind_of(x) != 'i' else x
    if isinstance(x, SBool):
        return cast(x, 'f')
    if x.kind == 'i':
        return x
    f = floor_int(x)
    d = binop('-', x, cast(f, 'f'))
    up = binop('+', f, 1)
    even = compare('==', divmod_('%', f, 2), 0)
    r = ite(compare('<', d, 0.5), f, ite(compare('>', d, 0.5), up, ite(even, f, up)))
    return cast(r, 'f')


def cast(x, k):
    if k == 'O':
        return x
    kx = kind_of(x)
    if kx == k:
        return py(x) if not _is_sym(x) else x
    if kx == 'O':
        if x is None:
            if k == 'f':
                return float('nan')
            raise TypeError('cannot cast None')
        if isinstance(x, str):
            return py({'f': float, 'i': int, 'b': bool}[k](x))
        raise Unsupported('cast of %r' % (type(x),))
    if not _is_sym(x):
        if k == 'b':
            return np.bool_(x)
        if k == 'i':
            return trunc_int(py(x))
        return float(x)
    if k == 'b':
        return truth(x)
    if k == 'i':
        if kx == 'b':
            r = SNum(as_term(x, 'i'), 'i')
            r.b = x
            return r
        return trunc_int(x)
    if kx == 'b':
        r = SNum(as_term(x, 'f'), 'f')
        r.b = x
        return r
    return mk_num(z3.ToReal(x.t), 'f')


def ite(c, a, b):
    """Merge; forks when the branches cannot be one term."""
    if not _is_sym(c):
        return a if c else b
    if isinstance(c, SNum):
        c = truth(c)
        if not _is_sym(c):
            return a if c else b
    if a is b:
        return a
    if not _is_sym(a) and not _is_sym(b):
        try:
            if type(a) is type(b) and bool(a == b):
                return a
        except Exception:
            pass
    if not (_numeric_or_notimpl(a) and _numeric_or_notimpl(b)) or is_special(a) or is_special(b):
        return a if c else b           # forks
    ka, kb = kind_of(a), kind_of(b)
    if ka == 'b' and kb == 'b':
        if not _is_sym(a):
            return logic('|', c, b) if a else logic('&', lnot(c), b)
        if not _is_sym(b):
            return logic('|', lnot(c), a) if b else logic('&', c, a)
        return mk_bool(z3.If(c.t, a.t, b.t))
    k = _promote(a, b)
    ta, tb = as_term(a, k), as_term(b, k)
    if ta.eq(tb):
        return cast(a, k)
    return SNum(z3.If(c.t, ta, tb), k)


def concretize(x):
    if isinstance(x, SBool):
        return np.bool_(bool(x))
    if isinstance(x, SNum):
        if x.kind == 'i':
            return eng().concretize_int(x.t)
        return eng().unique_real(x.t)
    return x


# --------------------------------------------------------------------------

def _rop(op):
    def f(self, other):
        if hasattr(other, '__symarray__'):
            return NotImplemented
        if isinstance(other, np.ndarray):
            return ARRAY_OP(op, self, other)
        if not _numeric_or_notimpl(other) and op not in ('==', '!='):
            return NotImplemented
        return binop(op, self, other)
    return f


def _rrop(op):
    def f(self, other):
        if hasattr(other, '__symarray__'):
            return NotImplemented
        if isinstance(other, np.ndarray):
            return ARRAY_OP(op, other, self)
        if not _numeric_or_notimpl(other):
            return NotImplemented
        return binop(op, other, self)
    return f


ARRAY_OP = None     # set by arrays.py
ARRAY_UFUNC = None


class SymBase:
    __slots__ = ()
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1
    nbytes = 8

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ARRAY_UFUNC(ufunc, method, *inputs, **kwargs)

    __add__ = _rop('+')
    __radd__ = _rrop('+')
    __sub__ = _rop('-')
    __rsub__ = _rrop('-')
    __mul__ = _rop('*')
    __rmul__ = _rrop('*')
    __truediv__ = _rop('/')
    __rtruediv__ = _rrop('/')
    __floordiv__ = _rop('//')
    __rfloordiv__ = _rrop('//')
    __mod__ = _rop('%')
    __rmod__ = _rrop('%')
    __pow__ = _rop('**')
    __rpow__ = _rrop('**')
    __lt__ = _rop('<')
    __le__ = _rop('<=')
    __gt__ = _rop('>')
    __ge__ = _rop('>=')
    __eq__ = _rop('==')
    __ne__ = _rop('!=')
    __and__ = _rop('&')
    __rand__ = _rrop('&')
    __or__ = _rop('|')
    __ror__ = _rrop('|')
    __xor__ = _rop('^')
    __rxor__ = _rrop('^')
    __lshift__ = _rop('<<')
    __rshift__ = _rop('>>')

    def __divmod__(self, o):
        return binop('//', self, o), binop('%', self, o)

    def __rdivmod__(self, o):
        return binop('//', o, self), binop('%', o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __int__(self):
        return int(concretize(trunc_int(self)))

    def __float__(self):
        return float(concretize(self))

    def __floor__(self):
        return floor_int(self)

    def __ceil__(self):
        return neg(floor_int(neg(self)))

    def __trunc__(self):
        return trunc_int(self)

    def __round__(self, n=None):
        if n is None:
            return trunc_int(rint(self))
        s = 10 ** n
        return binop('/', rint(binop('*', self, s)), s)

    def __hash__(self):
        return hash(concretize(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return '<sym>'

    __str__ = __repr__

    # numpy-scalar like api
    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return np.dtype({'b': bool, 'i': int, 'f': float}[kind_of(self)])

    @property
    def real(self):
        return self

    def _arr(self):
        return TO_ARRAY(self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('sum', 'max', 'min', 'mean', 'any', 'all', 'astype', 'reshape', 'flatten', 'ravel',
                    'clip', 'round', 'cumsum', 'repeat', 'squeeze', 'nonzero', 'std', 'prod'):
            arr = TO_ARRAY(self)

            def g(*a, **k):
                r = getattr(arr, name)(*a, **k)
                if hasattr(r, '__symarray__') and r.ndim == 0:
                    return r[()]
                return r
            return g
        raise AttributeError(name)


TO_ARRAY = None


class SBool(SymBase):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().fork(self.t)

    def __invert__(self):
        return lnot(self)

    def __index__(self):
        return int(bool(self))

    __hash__ = SymBase.__hash__

    def __repr__(self):
        return '<%s>' % str(self.t)[:200]


class SNum(SymBase):
    __slots__ = ('t', 'kind', 'b')

    def __init__(self, t, kind):
        self.t = t
        self.kind = kind
        self.b = None

    def __bool__(self):
        return bool(compare('!=', self, 0))

    def __index__(self):
        if self.kind != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(concretize(self))

    def __invert__(self):
        if self.kind == 'i':
            return binop('-', -1, self)
        raise TypeError('bad operand type for unary ~')

    def is_integer(self):
        return compare('==', self, cast(floor_int(self), 'f'))

    __hash__ = SymBase.__hash__

    def __repr__(self):
        return '<%s>' % str(self.t)[:200]


numbers.Number.register(SNum)


# --------------------------------------------------------------------------

class Dec:
    __slots__ = ('kind', 'v', 'alt', 'seen', 'fresh')

    def __init__(self, kind, v):
        self.kind, self.v, self.alt, self.seen, self.fresh = kind, v, None, [], False


class Engine:
    """One depth-first exploration of a harness by re-execution."""

    def __init__(self, query_timeout_ms=20000, deadline=None, max_concretize=64):
        self.query_timeout = query_timeout_ms
        self.deadline = deadline
        self.max_conc = max_concretize
        self.n_queries = 0
        self.n_forks = 0
        self.solver_time = 0.0
        self.used_uf = set()
        self.stack = []

    # ---- per path
    def begin(self):
        self.quot = {}
        self.stamps = {}
        self.bounds = {}
        self.ranges = {}
        self.cases = {}
        self.pos = 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.query_timeout)
        self.model = None
        self.nfresh = 0
        self.ndraw = 0

    def next_path(self):
        """Advance to the next unexplored decision sequence."""
        while self.stack:
            d = self.stack[-1]
            if d.alt is not None:
                if d.kind == 'b':
                    d.v, d.alt = d.alt, None
                else:
                    d.seen = d.seen + [d.v]
                    d.v, d.alt, d.fresh = d.alt, None, True
                return True
            self.stack.pop()
        return False

    def raw_check(self, *extra, timeout=None):
        """(result, model) of the path condition plus extra terms."""
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive('time budget of the harness is used up')
        t0 = time.time()
        m = None
        r = self.solver.check(*extra)
        if r == z3.sat:
            m = self.solver.model()
        elif r == z3.unknown:
            s = z3.Solver()          # non-incremental attempt
            s.set('timeout', timeout or self.query_timeout)
            s.add(*self.pc)
            s.add(*extra)
            r = s.check()
            if r == z3.sat:
                m = s.model()
        self.n_queries += 1
        self.solver_time += time.time() - t0
        return r, m

    def check(self, *extra):
        r, m = self.raw_check(*extra)
        if r == z3.unknown:
            raise Inconclusive('solver answered unknown')
        return (r == z3.sat), m

    def note(self, t):
        """Remember the range of an unknown that a fact `unknown <= c` gives."""
        if not z3.is_app(t):
            return
        d = t.decl().kind()
        if d == z3.Z3_OP_AND and t.num_args() <= 4:
            for c in t.children():
                self.note(c)
            return
        neg = d == z3.Z3_OP_NOT
        if neg:
            t = t.arg(0)
            d = t.decl().kind()
        if d not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or t.num_args() != 2:
            return
        le = d in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        strict = d in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if neg:
            le, strict = not le, not strict
        a, b = t.arg(0), t.arg(1)
        if _num(a) is not None:
            a, b, le = b, a, not le
        v = _num(b)
        if v is None or not z3.is_const(a) or a.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return
        x = a.decl().name()
        lo, hi = self.bounds.get(x, NOWHERE)
        if le:
            hi = min(hi, (v, strict), key=lambda y: (y[0], not y[1]))
        else:
            lo = max(lo, (v, strict), key=lambda y: (y[0], y[1]))
        self.bounds[x] = (lo, hi)

    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)
        self.note(t)
        if self.model is not None and not z3.is_true(self.model.eval(t, model_completion=True)):
            self.model = None

    def assume(self, cond):
        if not _is_sym(cond):
            if not cond:
                raise PathAbort()
            return
        self.add(as_bool_term(cond))

    def get_model(self):
        if self.model is None:
            ok, m = self.check()
            if not ok:
                raise PathAbort()
            self.model = m
        return self.model

    def fork(self, t):
        """Decide a z3 bool: returns a python bool, exploring both."""
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            if d.kind != 'b':
                raise Inconclusive('nondeterministic re-execution')
        else:
            m = self.get_model()
            v = z3.is_true(m.eval(t, model_completion=True))
            d = Dec('b', v)
            sat, _ = self.check(z3.Not(t) if v else t)
            if sat:
                d.alt = not v
            self.n_forks += 1
            self.stack.append(d)
        self.pos += 1
        self.add(t if d.v else z3.Not(t))
        return d.v

    def concretize_int(self, t):
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            if d.kind != 'i':
                raise Inconclusive('nondeterministic re-execution')
            if d.fresh:
                self._alt(d, t)
        else:
            v = self.get_model().eval(t, model_completion=True).as_long()
            d = Dec('i', v)
            self._alt(d, t)
            self.n_forks += 1
            self.stack.append(d)
        self.pos += 1
        self.add(t == d.v)
        return d.v

    def _alt(self, d, t):
        d.fresh = False
        ok, m = self.check(t != d.v, *[t != w for w in d.seen])
        d.alt = None
        if ok:
            if len(d.seen) + 1 >= self.max_conc:
                raise Inconclusive('an integer takes more than %d values' % self.max_conc)
            d.alt = m.eval(t, model_completion=True).as_long()

    def unique_real(self, t):
        s = z3.simplify(t)
        if z3.is_rational_value(s):
            return float(s.as_fraction())
        v = self.get_model().eval(t, model_completion=True)
        if not z3.is_rational_value(v):
            raise Unsupported('irrational concretisation')
        other, _ = self.check(t != v)
        if other:
            raise Unsupported('a symbolic real had to be turned into a python float')
        return float(v.as_fraction())

    # ---- variables
    def fresh_real(self, base):
        self.nfresh += 1
        return z3.Real('%s!%d' % (base, self.nfresh))

    def fresh_int(self, base):
        self.nfresh += 1
        return z3.Int('%s!%d' % (base, self.nfresh))
