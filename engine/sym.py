"""Symbolic scalars over the reals / integers / booleans (z3 terms).

Machine floats are modelled as mathematical reals plus a definedness flag: ``S.bad``
is the condition under which the real program would produce a non-finite number
(division by zero, log of a non-positive number, ...).
"""
from __future__ import annotations

from fractions import Fraction

import z3


class Unsupported(Exception):
    """The verified subset of Python/numpy/jax/pandas was left (tool limit, not a bug)."""


class PathEnd(BaseException):
    """This execution path was cut (loop-invariant cut point)."""


class Infeasible(BaseException):
    """The current path condition is unsatisfiable."""


RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()

# Uninterpreted transcendental functions (axioms are in solver.AXIOMS)
F_EXP = z3.Function("exp", RS, RS)
F_LOG = z3.Function("log", RS, RS)
F_POW = z3.Function("pow", RS, RS, RS)

CUR = None  # current verification session (set by vc.py)


def _num(v):
    return isinstance(v, (bool, int, Fraction))


def z(v, kind):
    """python/z3 value -> z3 term of the given kind."""
    if isinstance(v, z3.ExprRef):
        return v
    if kind == "b":
        return z3.BoolVal(bool(v))
    if kind == "i":
        return z3.IntVal(int(v))
    return z3.RealVal(v if isinstance(v, (int, Fraction)) else Fraction(v))


def _or(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is True or b is True:
        return True
    if a.eq(b):
        return a
    return z3.Or(a, b)


class S:
    """Scalar. v: bool/int/Fraction (concrete) or z3 expr. k in 'b','i','r'."""

    __slots__ = ("v", "k", "bad", "__weakref__")
    __array_priority__ = 1000

    def __init__(self, v, k, bad=None):
        self.v = v
        self.k = k
        self.bad = bad

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- basic -------------------------------------------------------------
    @property
    def conc(self):
        return not isinstance(self.v, z3.ExprRef)

    def term(self):
        return z(self.v, self.k)

    def as_real(self):
        if self.k == "r":
            return self
        if self.k == "i":
            if self.conc:
                return S(Fraction(self.v), "r", self.bad)
            return S(z3.ToReal(self.v), "r", self.bad)
        if self.conc:
            return S(Fraction(int(self.v)), "r", self.bad)
        return S(z3.If(self.v, z3.RealVal(1), z3.RealVal(0)), "r", self.bad)

    def as_int(self):
        if self.k == "i":
            return self
        if self.k == "b":
            if self.conc:
                return S(int(self.v), "i", self.bad)
            return S(z3.If(self.v, z3.IntVal(1), z3.IntVal(0)), "i", self.bad)
        raise Unsupported("implicit real->int")

    def as_bool(self):
        if self.k == "b":
            return self
        return self != 0

    def trunc(self):
        """float -> int conversion (towards zero)."""
        if self.k != "r":
            return self.as_int()
        if self.conc:
            return S(int(self.v), "i", self.bad)
        t = self.v
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            return S(t.arg(0), "i", self.bad)
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a = S(t.arg(1), "r").trunc()
            b = S(t.arg(2), "r").trunc()
            if z3.is_app_of(t.arg(1), z3.Z3_OP_TO_REAL) or z3.is_app_of(
                t.arg(2), z3.Z3_OP_TO_REAL
            ):
                r = ite(S(t.arg(0), "b"), a, b)
                return S(r.v, "i", self.bad)
        if z3.is_rational_value(t):
            return S(int(t.as_fraction()), "i", self.bad)
        return S(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), "i", self.bad)

    def floor(self):
        if self.k != "r":
            return self.as_int()
        if self.conc:
            import math

            return S(math.floor(self.v), "i", self.bad)
        if z3.is_app_of(self.v, z3.Z3_OP_TO_REAL):
            return S(self.v.arg(0), "i", self.bad)
        return S(z3.ToInt(self.v), "i", self.bad)

    def __repr__(self):
        s = str(self.v)
        return f"S[{self.k}]({s if len(s) < 200 else s[:200] + '...'})"

    # -- control flow ------------------------------------------------------
    def __bool__(self):
        b = self.as_bool()
        if b.conc:
            return bool(b.v)
        if CUR is None:
            raise Unsupported("symbolic truth value outside a session")
        return CUR.branch(b)

    def __index__(self):
        if self.conc and self.k in "ib":
            return int(self.v)
        r = const_int(self)
        if r is not None:
            return r
        raise Unsupported("symbolic value used as a concrete index/size")

    __int__ = __index__

    def __float__(self):
        if self.conc:
            return float(self.v)
        raise Unsupported("float() of a symbolic value")

    def __hash__(self):
        return hash(self.v) if self.conc else self.v.hash()

    # -- arithmetic --------------------------------------------------------
    def __add__(self, o):
        return _arith("+", self, o)

    def __radd__(self, o):
        return _arith("+", o, self)

    def __sub__(self, o):
        return _arith("-", self, o)

    def __rsub__(self, o):
        return _arith("-", o, self)

    def __mul__(self, o):
        return _arith("*", self, o)

    def __rmul__(self, o):
        return _arith("*", o, self)

    def __truediv__(self, o):
        return _arith("/", self, o)

    def __rtruediv__(self, o):
        return _arith("/", o, self)

    def __floordiv__(self, o):
        return _arith("//", self, o)

    def __rfloordiv__(self, o):
        return _arith("//", o, self)

    def __mod__(self, o):
        return _arith("%", self, o)

    def __rmod__(self, o):
        return _arith("%", o, self)

    def __pow__(self, o):
        return _arith("**", self, o)

    def __rpow__(self, o):
        return _arith("**", o, self)

    def __neg__(self):
        return _arith("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def rint(self):
        """nearest integer (kind 'i'), halves to the even one"""
        if self.k != "r":
            return self.as_int()
        h = self + lift(Fraction(1, 2))
        f = h.floor()
        return ite((f.as_real() == h) & (f % 2 == 1), f - 1, f)

    def round_to(self, n):
        """numpy's round: n decimals, of the same kind"""
        if not isinstance(n, int):
            raise Unsupported("rounding to a symbolic number of decimals")
        if self.k == "b":
            raise Unsupported("round of a truth value")
        if self.k == "i":
            if n >= 0:
                return self
            raise Unsupported("round of an integer to tens")
        q = lift(Fraction(10) ** n)
        return (self * q).rint().as_real() / q

    def __round__(self, n=None):
        return self.rint() if n is None else self.round_to(n)

    def __and__(self, o):
        return _logic("&", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return _logic("|", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return _logic("^", self, o)

    __rxor__ = __xor__

    def __invert__(self):
        if self.k == "b":
            return lnot(self)
        if self.k == "i":
            return -self - 1
        raise Unsupported("invert real")

    # -- comparisons -------------------------------------------------------
    def __lt__(self, o):
        return _cmp("<", self, o)

    def __le__(self, o):
        return _cmp("<=", self, o)

    def __gt__(self, o):
        return _cmp(">", self, o)

    def __ge__(self, o):
        return _cmp(">=", self, o)

    def __eq__(self, o):
        return _cmp("==", self, o)

    def __ne__(self, o):
        return _cmp("!=", self, o)

    # -- numpy-scalar look-alike methods ----------------------------------
    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        from . import arr

        return arr.DType(self.k)

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, **kw):
        from . import arr

        return arr.cast(self, arr.dkind(dt))

    def clip(self, min=None, max=None, a_min=None, a_max=None):
        lo = min if min is not None else a_min
        hi = max if max is not None else a_max
        r = self
        from . import arr

        if isinstance(lo, arr.Arr) or isinstance(hi, arr.Arr):
            return arr.as_arr(self).clip(lo, hi)
        if lo is not None:
            r = smax(r, lo)
        if hi is not None:
            r = smin(r, hi)
        return r

    def sum(self, axis=None, **k):
        return self

    def any(self, axis=None):
        return self.as_bool()

    def all(self, axis=None):
        return self.as_bool()

    def max(self, axis=None):
        return self

    def min(self, axis=None):
        return self

    def reshape(self, *shape):
        from . import arr

        return arr.as_arr(self).reshape(*shape)

    def __getitem__(self, key):
        from . import arr

        return arr.as_arr(self)[key]

    def to_numpy(self):
        return self


def lift(x) -> S:
    if isinstance(x, S):
        return x
    if isinstance(x, bool):
        return S(x, "b")
    if isinstance(x, int):
        return S(x, "i")
    if isinstance(x, Fraction):
        return S(x, "r")
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return S(Fraction(0), "r", True)
        return S(Fraction(repr(x)), "r")
    if isinstance(x, z3.BoolRef):
        return S(x, "b")
    if isinstance(x, z3.ArithRef):
        return S(x, "i" if x.is_int() else "r")
    h = getattr(x, "__lift__", None)
    if h is not None:
        return h()
    raise Unsupported(f"cannot lift {type(x).__name__}")


def is_scalar(x):
    return isinstance(x, (S, bool, int, float, Fraction, z3.ExprRef)) or hasattr(
        x, "__lift__"
    )


def const_int(s):
    """Concrete int value of an S if it is syntactically constant."""
    s = lift(s)
    if s.conc:
        return int(s.v) if s.k in "ib" else None
    t = z3.simplify(s.v)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return 1
    if z3.is_false(t):
        return 0
    return None


def _pair(a, b):
    a, b = lift(a), lift(b)
    if a.k == "r" or b.k == "r":
        return a.as_real(), b.as_real(), "r"
    if a.k == "b" and b.k == "b":
        return a, b, "b"
    return a.as_int(), b.as_int(), "i"


_PYOP = {
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
}


def _arith(op, a, b):
    if not (is_scalar(a) and is_scalar(b)):
        return NotImplemented
    a, b = lift(a), lift(b)
    bad = _or(a.bad, b.bad)
    if op == "*":
        # masks: bool * x  ==  where(bool, x, 0)
        if a.k == "b" and b.k != "b" and not a.conc:
            zero = S(0 if b.k == "i" else Fraction(0), b.k)
            r = ite(a, S(b.v, b.k), zero)
            return S(r.v, r.k, bad)
        if b.k == "b" and a.k != "b" and not b.conc:
            zero = S(0 if a.k == "i" else Fraction(0), a.k)
            r = ite(b, S(a.v, a.k), zero)
            return S(r.v, r.k, bad)
        if a.k == "b" and b.k == "b":
            return _logic("&", a, b)
    if op == "+" and a.k == "b" and b.k == "b":
        return _logic("|", a, b)  # numpy: bool + bool is logical or
    if op == "**":
        return power(a, b)
    if op == "/":
        a, b = a.as_real(), b.as_real()
        return divide(a, b)
    if a.k == "b" and b.k == "b":
        a, b = a.as_int(), b.as_int()
    a, b, k = _pair(a, b)
    if op in "+-*":
        if a.conc and b.conc:
            return S(_PYOP[op](a.v, b.v), k, bad)
        if op == "+":
            if a.conc and a.v == 0:
                return S(b.v, k, bad)
            if b.conc and b.v == 0:
                return S(a.v, k, bad)
            return S(a.term() + b.term(), k, bad)
        if op == "-":
            if b.conc and b.v == 0:
                return S(a.v, k, bad)
            if not a.conc and not b.conc and a.v.eq(b.v):
                return S(0 if k == "i" else Fraction(0), k, bad)
            if a.conc and a.v == 0:
                return S(-b.term(), k, bad)
            return S(a.term() - b.term(), k, bad)
        if a.conc and a.v == 0 or b.conc and b.v == 0:
            return S(0 if k == "i" else Fraction(0), k, bad)
        if a.conc and a.v == 1:
            return S(b.v, k, bad)
        if b.conc and b.v == 1:
            return S(a.v, k, bad)
        return S(a.term() * b.term(), k, bad)
    if op in ("//", "%"):
        if k == "r":
            raise Unsupported("real floor division")
        if a.conc and b.conc and b.v != 0:
            return S(a.v // b.v if op == "//" else a.v % b.v, k, bad)
        d = CUR.split_index(a, b) if CUR is not None else None
        if d is not None:
            q, r = d
            res = q if op == "//" else r
            return S(res.v, "i", bad)
        if b.conc:
            if b.v <= 0:
                raise Unsupported("floor division by non-positive constant")
        elif CUR is None or not CUR.entails(b.term() > 0):
            raise Unsupported("floor division by a symbolic divisor not known positive")
        t = a.term() / b.term() if op == "//" else a.term() % b.term()
        return S(t, k, bad)
    raise Unsupported(op)


def divide(a, b):
    bad = _or(a.bad, b.bad)
    if b.conc:
        if b.v == 0:
            return S(Fraction(0), "r", True)
        if a.conc:
            return S(a.v / b.v, "r", bad)
        return S(a.term() / z3.RealVal(b.v) if b.v != 1 else a.v, "r", bad)
    # cancel an integer factor:  (n*m)/m  (used for block sizes such as N/T)
    q = _cancel(a, b)
    if q is not None:
        return S(q, "r", bad)
    zero = b.v == 0
    if CUR is not None and CUR.quick_entails(z3.Not(zero)):
        pass
    else:
        bad = _or(bad, zero)
    if a.conc and a.v == 0:
        return S(Fraction(0), "r", bad)
    return S(a.term() / b.term(), "r", bad)


def _cancel(a, b):
    if a.conc:
        return None
    num, den = a.v, b.v
    if num.eq(den):
        if CUR is not None and CUR.entails(den != 0):
            return z3.RealVal(1)
        return None
    if z3.is_app_of(num, z3.Z3_OP_TO_REAL) and z3.is_app_of(den, z3.Z3_OP_TO_REAL):
        ni, di = num.arg(0), den.arg(0)
        if z3.is_mul(ni):
            # product, possibly nested
            facs = []

            def fl(t):
                if z3.is_mul(t):
                    for c in t.children():
                        fl(c)
                else:
                    facs.append(t)

            fl(ni)
            dfacs = []

            def fl2(t):
                if z3.is_mul(t):
                    for c in t.children():
                        fl2(c)
                else:
                    dfacs.append(t)

            fl2(di)
            rest = list(facs)
            for d in dfacs:
                for i, f in enumerate(rest):
                    if f.eq(d):
                        del rest[i]
                        break
                else:
                    return None
            if CUR is None or not CUR.entails(z3.And(*[d != 0 for d in dfacs])):
                return None
            if not rest:
                return z3.RealVal(1)
            t = rest[0]
            for r in rest[1:]:
                t = t * r
            return z3.ToReal(t)
    return None


def power(a, b):
    bad = _or(a.bad, b.bad)
    n = None
    if b.conc and Fraction(b.v).denominator == 1:
        n = int(b.v)
    if n is not None and abs(n) <= 8:
        if a.k == "b":
            a = a.as_int()
        if n == 0:
            return S(1 if (a.k == "i" and b.k != "r") else Fraction(1), a.k, bad)
        base = S(a.v, a.k)
        if b.k == "r" and a.k == "i":
            base = base.as_real()
        r = base
        for _ in range(abs(n) - 1):
            r = r * base
        if n < 0:
            r = S(Fraction(1), "r") / r.as_real()
        return S(r.v, r.k, _or(bad, r.bad))
    a, b = a.as_real(), b.as_real()
    if a.conc and b.conc and a.v == 1:
        return S(Fraction(1), "r", bad)
    if b.conc and b.v == Fraction(1, 2):
        pass
    # x ** y : finite whenever x > 0 (x == 0 with y > 0 gives 0)
    if a.conc and a.v > 0:
        pass
    else:
        at = a.term()
        if not (CUR is not None and CUR.quick_entails(at > 0)):
            cond = at < 0 if (b.conc and b.v > 0) else at <= 0
            bad = _or(bad, cond)
    return S(F_POW(a.term(), b.term()), "r", bad)


def _logic(op, a, b):
    if not (is_scalar(a) and is_scalar(b)):
        return NotImplemented
    a, b = lift(a), lift(b)
    if a.k != "b" or b.k != "b":
        if a.k == "r" or b.k == "r":
            raise TypeError("bitwise op on floats")
        # int bitwise on 0/1-valued data only if one side is bool-like constants
        if a.conc and b.conc:
            f = {"&": int.__and__, "|": int.__or__, "^": int.__xor__}[op]
            return S(f(int(a.v), int(b.v)), "i")
        raise Unsupported("bitwise op on symbolic ints")
    if op == "^":
        if a.conc and b.conc:
            return S(a.v != b.v, "b")
        return S(z3.Xor(a.term(), b.term()), "b")
    if op == "&":
        if a.conc:
            return b if a.v else S(False, "b")
        if b.conc:
            return a if b.v else S(False, "b")
        if a.v.eq(b.v):
            return a
        return S(z3.And(a.v, b.v), "b")
    if a.conc:
        return S(True, "b") if a.v else b
    if b.conc:
        return S(True, "b") if b.v else a
    if a.v.eq(b.v):
        return a
    return S(z3.Or(a.v, b.v), "b")


def lnot(a):
    a = lift(a).as_bool()
    if a.conc:
        return S(not a.v, "b")
    if z3.is_not(a.v):
        return S(a.v.arg(0), "b")
    return S(z3.Not(a.v), "b")


_PYCMP = {
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
}


def _as_whole(a):
    """The integer scalar a real scalar was converted from, if it was (comparisons of integers stay integer)."""
    if a.conc:
        f = Fraction(a.v)
        return S(f.numerator, "i", a.bad) if f.denominator == 1 else None
    if z3.is_app_of(a.v, z3.Z3_OP_TO_REAL):
        return S(a.v.arg(0), "i", a.bad)
    return None


def _cmp(op, a, b):
    if not (is_scalar(a) and is_scalar(b)):
        if op == "==":
            return NotImplemented
        return NotImplemented
    a, b = lift(a), lift(b)
    if (a.bad is True or b.bad is True):
        # comparison with NaN
        return S(op == "!=", "b")
    nan = _or(a.bad, b.bad)
    if a.k == "b" and b.k == "b" and op in ("==", "!="):
        if a.conc and b.conc:
            return S(_PYCMP[op](a.v, b.v), "b")
        t = a.term() == b.term()
        return S(t if op == "==" else z3.Not(t), "b")
    a, b, k = _pair(a, b)
    if k == "b":
        a, b, k = a.as_int(), b.as_int(), "i"
    if k == "r" and not (a.conc and b.conc):
        ia, ib = _as_whole(a), _as_whole(b)
        if ia is not None and ib is not None:
            a, b, k = ia, ib, "i"
    if a.conc and b.conc:
        r = S(_PYCMP[op](a.v, b.v), "b")
    elif not a.conc and not b.conc and a.v.eq(b.v):
        r = S(op in ("==", "<=", ">="), "b")
    else:
        t = _icmp_const(op, a, b, k)
        r = t if t is not None else S(_PYCMP[op](a.term(), b.term()), "b")
    if nan is not None and CUR is not None and CUR.nan_compare:
        # NaN compares false (true for !=)
        if op == "!=":
            return r | S(nan, "b")
        return r & S(z3.Not(nan), "b")
    return r


def _icmp_const(op, a, b, k):
    """Push comparison of an ite-of-constants against a constant (keeps terms small)."""
    if b.conc and not a.conc and z3.is_app_of(a.v, z3.Z3_OP_ITE):
        c, x, y = a.v.children()
        if _isval(x) and _isval(y):
            f = _PYCMP[op]
            xv, yv = _val(x), _val(y)
            rx, ry = f(xv, b.v), f(yv, b.v)
            if rx and ry:
                return S(True, "b")
            if not rx and not ry:
                return S(False, "b")
            return S(c, "b") if rx else lnot(S(c, "b"))
    return None


def _isval(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def _val(t):
    return t.as_long() if z3.is_int_value(t) else t.as_fraction()


def ite(c, a, b):
    c = lift(c).as_bool()
    if c.conc:
        return lift(a) if c.v else lift(b)
    a, b = lift(a), lift(b)
    a, b, k = _pair(a, b)
    bad = None
    if a.bad is not None or b.bad is not None:
        ba = z3.BoolVal(False) if a.bad is None else z(a.bad, "b")
        bb = z3.BoolVal(False) if b.bad is None else z(b.bad, "b")
        bad = z3.simplify(z3.If(c.v, ba, bb))
        if z3.is_false(bad):
            bad = None
        elif z3.is_true(bad):
            bad = True
    if a.conc and b.conc and a.v == b.v:
        return S(a.v, k, bad)
    if not a.conc and not b.conc and a.v.eq(b.v):
        return S(a.v, k, bad)
    if a.bad is True and b.bad is None:
        # value irrelevant where undefined
        return S(z3.If(c.v, a.term(), b.term()), k, bad)
    return S(z3.If(c.v, a.term(), b.term()), k, bad)


def smax(a, b):
    a, b = lift(a), lift(b)
    if a.conc and b.conc:
        return _mx(a, b, True)
    r = ite(_raw(a) >= _raw(b), _raw(a), _raw(b))
    return S(r.v, r.k, _or(a.bad, b.bad))


def smin(a, b):
    a, b = lift(a), lift(b)
    if a.conc and b.conc:
        return _mx(a, b, False)
    r = ite(_raw(a) <= _raw(b), _raw(a), _raw(b))
    return S(r.v, r.k, _or(a.bad, b.bad))


def _raw(a):
    return S(a.v, a.k)


def _mx(a, b, mx):
    a, b, k = _pair(a, b)
    v = max(a.v, b.v) if mx else min(a.v, b.v)
    return S(v, k, _or(a.bad, b.bad))


def addends(t):
    """Top-level sum decomposition of a z3 real term -> list of (coef, atom|None)."""
    out = []

    def go(t, c):
        if z3.is_add(t):
            for ch in t.children():
                go(ch, c)
        elif z3.is_sub(t):
            ch = t.children()
            go(ch[0], c)
            for x in ch[1:]:
                go(x, -c)
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            go(t.arg(0), -c)
        elif z3.is_rational_value(t):
            out.append((c * t.as_fraction(), None))
        elif z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            i = t.arg(0)
            if z3.is_add(i) or z3.is_sub(i):
                out.append((c, t))
            else:
                out.append((c, t))
        elif z3.is_mul(t):
            ch = t.children()
            k = c
            rest = []
            for x in ch:
                if z3.is_rational_value(x):
                    k = k * x.as_fraction()
                else:
                    rest.append(x)
            if len(rest) == 1:
                go(rest[0], k)
            else:
                out.append((k, z3.Product(*rest) if len(rest) > 1 else None))
        else:
            out.append((c, t))

    go(t, Fraction(1))
    return out


def exp(a):
    a = lift(a).as_real()
    if a.conc:
        if a.v == 0:
            return S(Fraction(1), "r", a.bad)
        return S(F_EXP(a.term()), "r", a.bad)
    parts = addends(a.v)
    if len(parts) == 1:
        return _exp1(*parts[0], a.bad)
    # exp(x + y) = exp(x) * exp(y)
    merged = {}
    order = []
    for c, t in parts:
        key = t.get_id() if t is not None else None
        if key in merged:
            merged[key][0] += c
        else:
            merged[key] = [c, t]
            order.append(key)
    res = S(Fraction(1), "r")
    for key in order:
        c, t = merged[key]
        if c == 0:
            continue
        res = res * _exp1(c, t, None)
    return S(res.v, "r", _or(a.bad, res.bad))


def _exp1(c, t, bad):
    if t is None:
        return S(F_EXP(z3.RealVal(c)), "r", bad) if c != 0 else S(Fraction(1), "r", bad)
    if z3.is_app(t) and t.decl().eq(F_LOG):
        x = S(t.arg(0), "r")
        if c == 1:
            return S(x.v, "r", bad)  # log's definedness is tracked by its own flag
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        cc, x, y = t.children()
        r = ite(S(cc, "b"), exp(S(x, "r") * c), exp(S(y, "r") * c))
        return S(r.v, "r", bad)
    if c < 0:
        r = S(Fraction(1), "r") / S(_exp1(-c, t, None).v, "r")
        return S(r.v, "r", bad)
    arg = t if c == 1 else z3.RealVal(c) * t
    return S(F_EXP(arg), "r", bad)


def log(a):
    a = lift(a).as_real()
    if a.conc:
        if a.v == 1:
            return S(Fraction(0), "r", a.bad)
        if a.v <= 0:
            return S(Fraction(0), "r", True)
        return S(F_LOG(a.term()), "r", a.bad)
    if z3.is_app(a.v) and a.v.decl().eq(F_EXP):
        return S(a.v.arg(0), "r", a.bad)
    bad = a.bad
    if not (CUR is not None and CUR.quick_entails(a.v > 0)):
        bad = _or(bad, a.v <= 0)
    return S(F_LOG(a.v), "r", bad)


def substitute(s, pairs):
    """Substitute z3 constants in an S."""
    if s.conc and (s.bad is None or s.bad is True):
        return s
    v = s.v if s.conc else z3.substitute(s.v, *pairs)
    bad = s.bad
    if bad is not None and bad is not True:
        bad = z3.substitute(bad, *pairs)
    return S(v, s.k, bad)
