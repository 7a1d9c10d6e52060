"""Shadow numpy / jax / pandas / scipy: the library semantics the verifier assumes.

Everything in this file is a trusted model of the third-party API (the contracts of the
external functions).  Anything not modelled raises Unsupported.
"""
from __future__ import annotations

import builtins
import types
from fractions import Fraction

import z3

from . import arr as A
from . import reduce as R
from . import sym
from .arr import Arr, DType, as_arr, dim, dim_eq, dkind, from_nested, nidx, unwrap
from .sym import S, Unsupported, ite, is_scalar, lift


# ------------------------------------------------------------------ python builtins
class SymRange:
    """range() with a symbolic bound."""

    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step

    def __len__(self):
        raise Unsupported("len of symbolic range")

    def slen(self):
        return lift(self.b) - lift(self.a)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range without a loop contract")

    def __toarr__(self):
        a = lift(self.a)
        r = Arr((dim(self.slen()),), lambda idx: a + lift(idx[0]), "i")
        r.affine = self.a
        return r


class SymList:
    """Python list with symbolic length (from an array's tolist)."""

    def __init__(self, n, get):
        self.n, self._get = dim(n), get
        self.over = []  # (index, value)

    @classmethod
    def from_arr(cls, a):
        rd = a.snap()
        return cls(a.shape[0], lambda i: rd((nidx(i),)))

    def get(self, i):
        r = self._get(i)
        for j, v in self.over:
            r = ite(A.eq_idx(nidx(i), nidx(j)), v, r)
        return r

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymListSlice(self, k)
        k = nidx(k)
        if isinstance(k, int) and k < 0:
            k = nidx(lift(self.n) + k)
        return self.get(k)

    def __setitem__(self, k, v):
        k = nidx(k)
        if isinstance(k, int) and k < 0:
            k = nidx(lift(self.n) + k)
        self.over.append((k, lift(v)))

    def __toarr__(self):
        snap = list(self.over)
        g = self._get

        def fn(idx):
            r = g(idx[0])
            for j, v in snap:
                r = ite(A.eq_idx(idx[0], nidx(j)), v, r)
            return r

        k = "r"
        return Arr((self.n,), fn, k)

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("len of symbolic list")

    def slen(self):
        return lift(self.n)

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.get(i) for i in range(self.n)])
        raise Unsupported("iteration over a symbolic list")

    def __deepcopy__(self, memo):
        r = SymList(self.n, self._get)
        r.over = list(self.over)
        return r


class SymListSlice:
    def __init__(self, base, sl):
        a = base.__toarr__()
        self.arr = a[sl]

    def __toarr__(self):
        return self.arr

    def slen(self):
        return lift(self.arr.shape[0])

    def __iter__(self):
        return iter(self.arr)


def sh_range(*a):
    if builtins.all(isinstance(x, int) for x in a):
        return range(*a)
    v = [nidx(x) for x in a]
    if builtins.all(isinstance(x, int) for x in v):
        return range(*v)
    if len(v) == 1:
        return SymRange(0, v[0])
    if len(v) == 2:
        return SymRange(v[0], v[1])
    raise Unsupported("stepped symbolic range")


def sh_len(x):
    if isinstance(x, Arr):
        d = x.shape[0]
        return d if isinstance(d, int) else lift(d)
    h = getattr(x, "slen", None)
    if h is not None:
        s = h()
        c = sym.const_int(s)
        return c if c is not None else s
    return builtins.len(x)


def sh_sum(x, start=0):
    if isinstance(x, Arr):
        return R.rsum(x, 0) + start
    h = getattr(x, "__toarr__", None)
    if h is not None:
        r = R.rsum(h(), 0)
        return r if (isinstance(start, int) and start == 0) else r + start
    r = start
    for v in x:
        r = r + v
    return r


def sh_min(*a, **kw):
    if kw:
        return builtins.min(*a, **kw)
    if len(a) == 1:
        a = list(a[0])
    if not builtins.any(isinstance(x, S) for x in a):
        return builtins.min(a)
    r = a[0]
    for x in a[1:]:
        r = sym.smin(r, x)
    return r


def sh_max(*a, **kw):
    if kw:
        return builtins.max(*a, **kw)
    if len(a) == 1:
        a = list(a[0])
    if not builtins.any(isinstance(x, S) for x in a):
        return builtins.max(a)
    r = a[0]
    for x in a[1:]:
        r = sym.smax(r, x)
    return r


def sh_abs(x):
    return abs(x)


def _scalar_of(x):
    if isinstance(x, Arr):
        return x.__lift_scalar__()
    return lift(x)


class _NumMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, S):
            return cls._k == x.k
        return isinstance(x, cls._py)

    def __eq__(cls, o):
        return o is cls or o is cls._py

    def __hash__(cls):
        return hash(cls._py)


class ShFloat(metaclass=_NumMeta):
    _k, _py = "r", float
    __name__ = "float"

    def __new__(cls, x=0):
        if isinstance(x, str):
            return S(Fraction(x), "r")
        return _scalar_of(x).as_real()


class ShInt(metaclass=_NumMeta):
    _k, _py = "i", int

    def __new__(cls, x=0, *a):
        if isinstance(x, str):
            return int(x, *a)
        s = _scalar_of(x).trunc()
        c = sym.const_int(s)
        if c is not None and s.bad is None:
            return c
        return s


class ShBool(metaclass=_NumMeta):
    _k, _py = "b", bool

    def __new__(cls, x=False):
        return bool(x)


ShFloat.__name__, ShInt.__name__, ShBool.__name__ = "float", "int", "bool"


def sh_isinstance(x, cls):
    if isinstance(cls, tuple):
        return builtins.any(sh_isinstance(x, c) for c in cls)
    if cls is int and isinstance(x, S):
        return x.k == "i"
    if cls is float and isinstance(x, S):
        return x.k == "r"
    return isinstance(x, cls)


def sh_round(x, n=None):
    if isinstance(x, S):
        return x.__round__(n)
    if isinstance(x, Arr):
        return x.round(n or 0)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def sh_list(x=()):
    if isinstance(x, (SymRange,)):
        a = x.__toarr__()
        r = SymList.from_arr(a)
        r.affine = x.a
        return r
    if isinstance(x, SymList):
        r = SymList(x.n, x._get)
        r.over = list(x.over)
        return r
    if isinstance(x, Arr) and not isinstance(x.shape[0], int):
        return SymList.from_arr(x)
    if isinstance(x, Series):
        return x.to_list()
    return list(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)


class ShList(metaclass=_ListMeta):
    def __new__(cls, x=()):
        return sh_list(x)


class ShFile:
    """An opened file known to the contract; only the yaml parser reads it."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def sh_open(path, mode="r", *a, **k):
    if not isinstance(path, str) or mode not in ("r", "rt"):
        raise Unsupported("open")
    if path not in sym.CUR.files:
        raise FileNotFoundError(path)
    return ShFile(path)


BUILTINS = {
    "open": sh_open,
    "range": sh_range,
    "len": sh_len,
    "sum": sh_sum,
    "min": sh_min,
    "max": sh_max,
    "abs": sh_abs,
    "float": ShFloat,
    "int": ShInt,
    "isinstance": sh_isinstance,
    "round": sh_round,
    "list": ShList,
}


# ------------------------------------------------------------------ module helper
class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n} is not modelled")


def _num(name, f, kf):
    def g(*args, **kw):
        kw.pop("dtype", None)
        if kw.pop("where", None) is not None or kw.pop("out", None) is not None:
            raise Unsupported(f"{name}(where=/out=)")
        return A.elementwise(f, kf, *args)

    g.__name__ = name
    return g


def _r(*k):
    return "r"


def _p(*k):
    return A.promote(*k)


def _b(*k):
    return "b"


def rounded(a, decimals=0, out=None):
    if out is not None:
        raise Unsupported("round(out=)")
    if isinstance(a, (Series, DataFrame)):
        raise Unsupported("np.round of a table")
    return A.elementwise(lambda x: x.round_to(decimals), lambda k: k, a)


def make_numpy(lib):
    m = Mod("numpy" if lib == "np" else "jax.numpy")
    d = m.__dict__

    def isnan(x):
        return S(False, "b") if x.bad is None else S(x.bad if x.bad is not True else True, "b")

    d.update(
        exp=_num("exp", sym.exp, _r),
        log=_num("log", sym.log, _r),
        log1p=_num("log1p", lambda a: sym.log(a + 1), _r),
        expm1=_num("expm1", lambda a: sym.exp(a) - 1, _r),
        sqrt=_num("sqrt", _sqrt, _r),
        maximum=_num("maximum", sym.smax, _p),
        minimum=_num("minimum", sym.smin, _p),
        fmax=_num("fmax", sym.smax, _p),
        fmin=_num("fmin", sym.smin, _p),
        abs=_num("abs", abs, _p),
        absolute=_num("absolute", abs, _p),
        power=_num("power", lambda a, b: a**b, _p),
        float_power=_num("float_power", lambda a, b: a.as_real() ** b, _r),
        square=_num("square", lambda a: a * a, _p),
        add=_num("add", lambda a, b: a + b, _p),
        subtract=_num("subtract", lambda a, b: a - b, _p),
        multiply=_num("multiply", lambda a, b: a * b, _p),
        divide=_num("divide", lambda a, b: a / b, _r),
        true_divide=_num("divide", lambda a, b: a / b, _r),
        negative=_num("negative", lambda a: -a, _p),
        floor=_num("floor", lambda a: a.floor().as_real(), _r),
        ceil=_num("ceil", lambda a: -(-a.as_real()).floor().as_real(), _r),
        trunc=_num("trunc", lambda a: a.as_real().trunc().as_real(), _r), fix=_num("fix", lambda a: a.as_real().trunc().as_real(), _r),
        rint=_num("rint", lambda a: a.as_real().rint().as_real(), _r),
        round=rounded, around=rounded,
        logical_and=_num("logical_and", lambda a, b: a.as_bool() & b.as_bool(), _b),
        logical_or=_num("logical_or", lambda a, b: a.as_bool() | b.as_bool(), _b),
        logical_not=_num("logical_not", lambda a: sym.lnot(a), _b),
        logical_xor=_num("logical_xor", lambda a, b: a.as_bool() ^ b.as_bool(), _b),
        bitwise_and=_num("bitwise_and", lambda a, b: a & b, _p),
        bitwise_or=_num("bitwise_or", lambda a, b: a | b, _p),
        invert=_num("invert", lambda a: ~a, _p),
        equal=_num("equal", lambda a, b: a == b, _b),
        not_equal=_num("not_equal", lambda a, b: a != b, _b),
        less=_num("less", lambda a, b: a < b, _b),
        less_equal=_num("less_equal", lambda a, b: a <= b, _b),
        greater=_num("greater", lambda a, b: a > b, _b),
        greater_equal=_num("greater_equal", lambda a, b: a >= b, _b),
        isnan=_num("isnan", isnan, _b),
        isfinite=_num("isfinite", lambda x: sym.lnot(isnan(x)), _b),
        mod=_num("mod", lambda a, b: a % b, _p),
    )

    def clip(a, a_min=None, a_max=None, min=None, max=None):
        lo = min if min is not None else a_min
        hi = max if max is not None else a_max
        if is_scalar(a) and (lo is None or is_scalar(lo)) and (hi is None or is_scalar(hi)):
            return lift(a).clip(lo, hi)
        return as_arr(a).clip(lo, hi)

    def array(x, dtype=None, copy=True, ndmin=0, **kw):
        k = dkind(dtype) if dtype is not None else None
        if isinstance(x, (Series, DataFrame)):
            x = x.to_numpy()
        r = from_nested(x, k, lib)
        if isinstance(r, Arr):
            r = r.narrow(A.dwidth(dtype))
            if dtype is not None and isinstance(x, Arr) and r.w != A.dwidth(dtype):
                r = r.astype(dtype)
        elif dtype is not None:
            r = A.fit(r, A.dwidth(dtype))
        if isinstance(r, Arr) and isinstance(x, Arr) and getattr(x, "affine", None) is not None:
            r.affine = x.affine
        return r

    def asarray(x, dtype=None, **kw):
        if isinstance(x, Arr) and x.lib == lib and (dtype is None or (dkind(dtype) == x.k and A.dwidth(dtype) == x.w)):
            return x
        return array(x, dtype)

    def arange(*a, dtype=None, **kw):
        k = dkind(dtype) if dtype is not None else None
        v = [lift(x) for x in a]
        if any_(x.k == "r" for x in v):
            raise Unsupported("float arange")
        v = [nidx(x) for x in v]
        st, sp, step = 0, None, 1
        if len(v) == 1:
            sp = v[0]
        elif len(v) == 2:
            st, sp = v
        else:
            st, sp, step = v
        if not isinstance(step, int) or step == 0:
            raise Unsupported("arange step")
        if isinstance(st, int) and isinstance(sp, int):
            n = len(range(st, sp, step))
        elif step == 1:
            n = dim(lift(sp) - lift(st))
            if not isinstance(n, int) and not sym.CUR.entails((lift(n) >= 0).term()):
                n = dim(sym.smax(n, 0))
        else:
            raise Unsupported("strided symbolic arange")
        k = k or "i"
        r = Arr((n,), lambda idx: A.cast(lift(st) + step * lift(idx[0]), k), k, lib).narrow(A.dwidth(dtype))
        if step == 1 and r.w is None:
            r.affine = st
        return r

    def _shape(s):
        if isinstance(s, (tuple, list)):
            return tuple(dim(x) for x in s)
        return (dim(s),)

    def full(shape, v, dtype=None, **kw):
        v = unwrap(v) if isinstance(v, Arr) else v
        if isinstance(v, Arr):
            r = broadcast_to(v, _shape(shape)).copy()
            return r.astype(dtype) if dtype is not None else r
        s = lift(v)
        k = dkind(dtype) if dtype is not None else s.k
        sh = _shape(shape)
        if not sh:
            return A.fit(A.cast(s, k), A.dwidth(dtype))
        return A.const_arr(s, sh, k, lib).narrow(A.dwidth(dtype))

    def zeros(shape, dtype=None, **kw):
        return full(shape, S(Fraction(0), "r"), dtype or float)

    def ones(shape, dtype=None, **kw):
        return full(shape, S(Fraction(1), "r"), dtype or float)

    def empty(shape, dtype=None, **kw):
        k = dkind(dtype) if dtype is not None else "r"
        sh = _shape(shape)
        name = sym.CUR.varies(f"uninit!{sym.CUR.new_id()}")

        def fn(idx):
            srt = {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[k]
            f = z3.Function(name, *[z3.IntSort()] * len(idx), srt)
            return S(f(*[lift(i).term() for i in idx]), k)

        return Arr(sh, fn, k, lib).narrow(A.dwidth(dtype))

    def full_like(a, v, dtype=None, shape=None, **kw):
        if is_scalar(a):
            return A.cast(lift(v), dkind(dtype) if dtype is not None else lift(a).k)
        a = as_arr(a)
        return full(shape or a.shape, v, dtype or a.dtype)

    def zeros_like(a, dtype=None, **kw):
        return full_like(a, S(Fraction(0), "r"), dtype)

    def ones_like(a, dtype=None, **kw):
        return full_like(a, S(Fraction(1), "r"), dtype)

    def empty_like(a, dtype=None, **kw):
        a = as_arr(a)
        return empty(a.shape, dtype or a.dtype)

    def where(c, *ab, **kw):
        if "x" in kw or "y" in kw:
            raise Unsupported("where kwargs")
        if not ab:
            return R.nonzero(c)
        return A.where(c, *ab)

    def select(condlist, choicelist, default=0):
        r = default
        for c, v in list(zip(condlist, choicelist))[::-1]:
            r = A.where(c, v, r)
        return r

    def concatenate(xs, axis=0, **kw):
        if hasattr(xs, "concat"):
            return xs.concat(axis, lib)
        return A.concatenate([_arrize(x) for x in xs], axis, lib)

    def stack(xs, axis=0, **kw):
        h = getattr(xs, "__toarr__", None)
        if h is not None and not isinstance(xs, Arr):
            return h() if axis == 0 else moveaxis(h(), 0, axis)
        return A.stack([_arrize(x) for x in xs], axis, lib)

    def atleast_1d(x):
        x = as_arr(x, lib)
        return x if x.ndim else x.reshape(1)

    def column_stack(xs):
        out = []
        for x in xs:
            x = as_arr(_arrize(x), lib)
            out.append(x[:, None] if x.ndim == 1 else x)
        return A.concatenate(out, 1, lib)

    def hstack(xs):
        xs = [atleast_1d(_arrize(x)) for x in xs]
        return A.concatenate(xs, 0 if xs[0].ndim == 1 else 1, lib)

    def vstack(xs):
        xs = [as_arr(_arrize(x), lib) for x in xs]
        xs = [x[None, :] if x.ndim == 1 else x for x in xs]
        return A.concatenate(xs, 0, lib)

    def transpose(a, axes=None):
        return as_arr(a).transpose(*(axes or ()))

    def moveaxis(a, s, t):
        a = as_arr(a)
        order = [n for n in range(a.ndim) if n != s % a.ndim]
        order.insert(t % a.ndim, s % a.ndim)
        return a.transpose(*order)

    def reshape(a, shape, **kw):
        return A.reshape(a, shape)

    def broadcast_to(a, shape):
        a = as_arr(a)
        sh = _shape(shape)
        rd, s = a.snap(), a.shape
        bs = A.bshape(s, sh)
        if not all_(dim_eq(x, y) for x, y in zip(bs, sh)) or len(bs) != len(sh):
            raise ValueError("broadcast_to")
        return Arr(sh, lambda idx: rd(A.bidx(idx, s, len(sh))), a.k, lib)

    def broadcast_arrays(*xs):
        xs = [as_arr(x) for x in xs]
        sh = A.bshape(*[x.shape for x in xs])
        return [broadcast_to(x, sh) for x in xs]

    def expand_dims(a, axis):
        a = as_arr(a)
        nd = a.ndim + 1
        key = [slice(None)] * nd
        key[axis % nd] = None
        return a[tuple(key)]

    def squeeze(a, axis=None):
        return as_arr(a).squeeze(axis)

    def flip(a, axis=None):
        a = as_arr(a)
        ax = range(a.ndim) if axis is None else ([axis] if isinstance(axis, int) else axis)
        ax = [x % a.ndim for x in ax]
        return a[tuple(slice(None, None, -1) if n in ax else slice(None) for n in range(a.ndim))]

    def take_along_axis(a, idx, axis):
        a, idx = as_arr(a), as_arr(idx)
        ax = axis % a.ndim
        rd, ir = a.snap(), idx.snap()
        # broadcasting of the other axes
        sh = []
        for j in range(a.ndim):
            if j == ax:
                sh.append(idx.shape[j])
            else:
                sh.append(A.bshape((a.shape[j],), (idx.shape[j],))[0])
        nd = a.ndim

        def fn(ii):
            p = ir(A.bidx(ii, idx.shape, nd))
            p = A.norm_index(p, a.shape[ax], lib)
            jj = list(A.bidx(ii, a.shape, nd))
            jj[ax] = p
            return rd(tuple(jj))

        return Arr(sh, fn, a.k, lib)

    def take(a, idx, axis=None, **kw):
        a = as_arr(a)
        if kw.get("mode") not in (None, "clip", "wrap", "raise", "fill"):
            raise Unsupported("take mode")
        if kw:
            raise Unsupported("take mode")
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        key = [slice(None)] * a.ndim
        key[axis % a.ndim] = idx
        return a[tuple(key)]

    def searchsorted(a, v, side="left", **kw):
        return R.searchsorted(_arrize(a), _arrize(v), side)

    def interp(x, xp, fp, **kw):
        if kw:
            raise Unsupported("interp(left/right)")
        xp, fp = as_arr(_arrize(xp)), as_arr(_arrize(fp))
        n = xp.shape[0]
        j = R.searchsorted(xp, x, "right")
        j = clip(j, 1, n - 1)
        lo, hi = xp[j - 1], xp[j]
        flo, fhi = fp[j - 1], fp[j]
        r = flo + (x - lo) / (hi - lo) * (fhi - flo)
        r = A.where(x < xp[0], fp[0], r)
        return A.where(x > xp[n - 1], fp[n - 1], r)

    def _red(name):
        def g(a, axis=None, **kw):
            if isinstance(a, (list, tuple, SymList)) or is_scalar(a):
                a = as_arr(a)
            return getattr(_arrize(a), name)(axis=axis, **kw)

        return g

    def count_nonzero(a, axis=None):
        a = as_arr(a)
        return R.rsum(a != 0 if a.k != "b" else a, axis)

    def cumsum(a, axis=None, **kw):
        a = as_arr(a)
        if a.ndim != 1 or not isinstance(a.shape[0], int):
            raise Unsupported("cumsum")
        out, t = [], None
        for x in a:
            t = x if t is None else t + x
            out.append(t)
        return from_nested(out, None, lib)

    def diff(a, **kw):
        a = as_arr(a)
        return a[..., 1:] - a[..., :-1]

    def dot(a, b):
        return A.matmul(a, b) if not (is_scalar(a) or is_scalar(b)) else a * b

    def ravel(a, **kw):
        return as_arr(a).ravel()

    def outer(a, b):
        return as_arr(a)[:, None] * as_arr(b)[None, :]

    def repeat(a, n, axis=None, **kw):
        a, n = as_arr(_arrize(a), lib), nidx(lift(n)) if is_scalar(n) else None
        if kw or not isinstance(n, int) or n < 1:
            raise Unsupported("repeat")
        if axis is None:
            a, axis = a.reshape(-1), 0
        ax, rd = axis % a.ndim, a.snap()
        sh = tuple(dim(lift(d) * n) if q == ax else d for q, d in enumerate(a.shape))
        return Arr(sh, lambda ix: rd(tuple(nidx(lift(x) // n) if q == ax else x for q, x in enumerate(ix))), a.k, lib)

    def nonzero(a):
        return R.nonzero(a)

    def flatnonzero(a):
        return R.nonzero(a)[0]

    def isin(a, vals, **kw):
        return as_arr(a).isin(list(vals))

    def copy(a):
        return as_arr(a).copy()

    def convolve(a, b, mode="full"):
        a, b = as_arr(a), as_arr(b)
        na, nb = a.shape[0], b.shape[0]
        if mode != "full" or a.ndim != 1 or b.ndim != 1:
            raise Unsupported("convolve: only full, of two vectors")
        if not (isinstance(na, int) and isinstance(nb, int)):
            return R.convolve(a, b, lib)
        out = []
        for n in range(na + nb - 1):
            t = S(Fraction(0), "r")
            for i in range(na):
                if 0 <= n - i < nb:
                    t = t + a[i] * b[n - i]
            out.append(t)
        return from_nested(out, None, lib)

    def finfo(dt):
        f = types.SimpleNamespace()
        f.eps = S(Fraction(1, 2**52), "r")
        f.tiny = S(Fraction(1, 2**1022), "r")
        return f

    def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
        return A.elementwise(
            lambda x, y: abs(x - y) <= lift(atol) + lift(rtol) * abs(y), _b, a, b
        )

    d.update(
        clip=clip, array=array, asarray=asarray, ascontiguousarray=asarray, arange=arange,
        full=full, zeros=zeros, ones=ones, empty=empty, full_like=full_like,
        zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, where=where,
        select=select, concatenate=concatenate, stack=stack, column_stack=column_stack,
        hstack=hstack, vstack=vstack, transpose=transpose, moveaxis=moveaxis,
        reshape=reshape, broadcast_to=broadcast_to, broadcast_arrays=broadcast_arrays,
        expand_dims=expand_dims, squeeze=squeeze, flip=flip,
        take_along_axis=take_along_axis, take=take, searchsorted=searchsorted,
        interp=interp, sum=_red("sum"), mean=_red("mean"), max=_red("max"),
        min=_red("min"), amax=_red("max"), amin=_red("min"), any=_red("any"),
        all=_red("all"), argmax=_red("argmax"), argmin=_red("argmin"),
        count_nonzero=count_nonzero, cumsum=cumsum, diff=diff, dot=dot, matmul=dot,
        ravel=ravel, outer=outer, repeat=repeat, nonzero=nonzero, flatnonzero=flatnonzero,
        isin=isin, copy=copy, convolve=convolve, finfo=finfo, isclose=isclose,
        atleast_1d=atleast_1d, newaxis=None,
        nan=S(Fraction(0), "r", True), inf=S(Fraction(0), "r", True),
        pi=S(z3.Real("pi"), "r"), e=S(sym.F_EXP(z3.RealVal(1)), "r"),
        int8=DType("i", "int8"), int16=DType("i", "int16"), int32=DType("i", "int32"),
        int64=DType("i", "int64"), intp=DType("i", "int64"), uint8=DType("i", "uint8"), uint16=DType("i", "uint16"), uint32=DType("i", "uint32"), uint64=DType("i", "uint64"),
        float16=DType("r", "float16"), half=DType("r", "float16"), single=DType("r", "float32"), double=DType("r"),
        float64=DType("r", "float64"), float32=DType("r", "float32"),
        float_=DType("r"), int_=DType("i"), bool_=DType("b", "bool"), ndarray=Arr,
        integer=DType("i"), floating=DType("r"),
        newaxis_=None,
    )
    def _conc_len(a, what):
        n = a.shape[0]
        if a.ndim != 1 or not isinstance(n, int):
            raise Unsupported(f"{what} over a symbolic dimension")
        return n

    def tile(a, reps):
        a = as_arr(_arrize(a), lib)
        reps = reps if isinstance(reps, (tuple, list)) else (reps,)
        if not all_(isinstance(nidx(lift(r)), int) for r in reps):
            raise Unsupported("tile with symbolic repetitions")
        reps = [int(nidx(lift(r))) for r in reps]
        while a.ndim < len(reps):
            a = a[None]
        reps = [1] * (a.ndim - len(reps)) + reps
        for ax, r in enumerate(reps):
            if r != 1:
                if r < 1:
                    raise Unsupported("tile by zero")
                a = A.concatenate([a] * r, ax, lib)
        return a.copy()

    def eye(n, M=None, dtype=None, **kw):
        if kw:
            raise Unsupported("eye options")
        n = dim(n)
        M = n if M is None else dim(M)
        k = dkind(dtype) if dtype is not None else "r"
        return Arr((n, M), lambda ix: A.cast(ite(A.eq_idx(ix[0], ix[1]), lift(1), lift(0)), k), k, lib)

    def linspace(a, b, num=50, **kw):
        if kw or not isinstance(num, int) or num < 2:
            raise Unsupported("linspace")
        a, b = lift(a).as_real(), lift(b).as_real()
        return from_nested([a + (b - a) * S(Fraction(i, num - 1), "r") for i in range(num)], None, lib)

    def cumprod(a, axis=None, **kw):
        a = as_arr(_arrize(a))
        _conc_len(a, "cumprod")
        out, t = [], None
        for x in a:
            t = x if t is None else t * x
            out.append(t)
        return from_nested(out, None, lib)

    def prod(a, axis=None, **kw):
        a = as_arr(_arrize(a))
        if kw or (axis is not None and a.ndim != 1):
            raise Unsupported("prod axis")
        r = lift(1)
        for x in a.reshape(-1):
            r = r * x
        return r

    def roll(a, shift, axis=None):
        a = as_arr(a)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported("roll of the flattened array")
            axis = 0
        ax, k = axis % a.ndim, nidx(lift(shift))
        if not isinstance(k, int):
            raise Unsupported("symbolic roll")
        n, rd = a.shape[ax], a.snap()

        def fn(ix):
            ix = list(ix)
            if isinstance(n, int):
                j = ix[ax]
                ix[ax] = nidx((lift(j) - k) % n)
            elif abs(k) == 1:
                j = lift(ix[ax]) - k
                ix[ax] = nidx(ite(j < 0, lift(n) - 1, ite(j >= lift(n), lift(0), j)))
            else:
                raise Unsupported("roll over a symbolic dimension")
            return rd(tuple(ix))

        return Arr(a.shape, fn, a.k, lib)

    def nan_to_num(x, copy=True, nan=0.0, **kw):
        if kw:
            raise Unsupported("nan_to_num options")
        return A.elementwise(
            lambda a, b: ite(S(a.bad if a.bad is not None else False, "b"), b, S(a.v, a.k)), _p, x, nan)

    def average(a, axis=None, weights=None, **kw):
        if kw:
            raise Unsupported("average options")
        a = as_arr(_arrize(a))
        if weights is None:
            return a.mean(axis=axis)
        w = as_arr(_arrize(weights))
        if a.ndim != 1 or w.ndim != 1:
            raise Unsupported("weighted average of a matrix")
        return (a * w).sum() / w.sum()

    def append(a, v, axis=None):
        a, v = atleast_1d(_arrize(a)), atleast_1d(_arrize(v))
        if axis is None and (a.ndim != 1 or v.ndim != 1):
            raise Unsupported("append of matrices")
        return A.concatenate([a, v], axis or 0, lib)

    def array_equal(a, b, **kw):
        a, b = as_arr(_arrize(a)), as_arr(_arrize(b))
        if a.ndim != b.ndim or not all_(dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
            return False
        return (a == b).all()

    def allclose(a, b, **kw):
        r = isclose(a, b, **kw)
        return r.all() if isinstance(r, Arr) else r

    def digitize(x, bins, right=False):
        return R.searchsorted(as_arr(_arrize(bins)), x, "left" if right else "right")

    def einsum(spec, *ops, **kw):
        if kw or not isinstance(spec, str) or "." in spec:
            raise Unsupported("einsum")
        lhs, _, rhs = spec.replace(" ", "").partition("->")
        terms = lhs.split(",")
        if "->" not in spec:
            flat = lhs.replace(",", "")
            rhs = "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
        ops = [as_arr(_arrize(x)) for x in ops]
        if len(terms) != len(ops):
            raise ValueError("einsum operands")
        letters = list(rhs) + [c for c in dict.fromkeys(lhs.replace(",", "")) if c not in rhs]
        r = None
        for t, x in zip(terms, ops):
            if len(set(t)) != len(t) or len(t) != x.ndim:
                raise Unsupported("einsum diagonal")
            order = sorted(range(len(t)), key=lambda q: letters.index(t[q]))
            x = x.transpose(*order) if x.ndim > 1 else x
            x = x[tuple(slice(None) if c in t else None for c in letters)]
            r = x if r is None else r * x
        for ax in range(len(letters) - 1, len(rhs) - 1, -1):
            r = r.sum(axis=ax)
        return r

    def split_(a, n, axis=0):
        a = as_arr(a)
        d = a.shape[axis]
        if not isinstance(n, int) or not isinstance(d, int) or d % n:
            raise Unsupported("split")
        key = [slice(None)] * a.ndim
        out = []
        for i in range(n):
            key[axis] = slice(i * (d // n), (i + 1) * (d // n))
            out.append(a[tuple(key)])
        return out

    def meshgrid(*xs, indexing="xy", **kw):
        if kw or len(xs) != 2:
            raise Unsupported("meshgrid")
        x, y = [as_arr(_arrize(v), lib) for v in xs]
        if indexing == "xy":
            return list(broadcast_arrays(x[None, :], y[:, None]))
        return list(broadcast_arrays(x[:, None], y[None, :]))

    def ix_(*xs):
        n = len(xs)
        return tuple(
            as_arr(_arrize(x), lib)[tuple(slice(None) if i == j else None for j in range(n))] for i, x in enumerate(xs))

    def choose(a, choices, **kw):
        r = choices[-1]
        for i in range(len(choices) - 2, -1, -1):
            r = A.where(A.elementwise(lambda u: u == i, _b, a), choices[i], r)
        return r

    def sign(x):
        return A.elementwise(lambda a: ite(a > 0, lift(1), ite(a < 0, lift(-1), lift(0))), _p, x)

    def piecewise(x, conds, funs):
        x = as_arr(x)
        conds = list(conds)
        f = list(funs)
        r = f.pop() if len(f) == len(conds) + 1 else S(Fraction(0), "r")
        r = r(x) if callable(r) else r
        for c, g in zip(conds, f):  # a later condition that holds wins, as in numpy
            r = A.where(c, g(x) if callable(g) else g, r)
        return r

    d.update(
        tile=tile, eye=eye, identity=eye, linspace=linspace, cumprod=cumprod, prod=prod, roll=roll,
        nan_to_num=nan_to_num, average=average, append=append, array_equal=array_equal, allclose=allclose,
        digitize=digitize, einsum=einsum, split=split_, meshgrid=meshgrid, ix_=ix_, choose=choose, sign=sign,
        piecewise=piecewise, swapaxes=lambda a, i, j: as_arr(a).swapaxes(i, j), permute_dims=transpose,
        ndim=lambda a: as_arr(_arrize(a)).ndim if not is_scalar(a) else 0,
        shape=lambda a: as_arr(_arrize(a)).shape if not is_scalar(a) else (),
        size=lambda a: lift(as_arr(_arrize(a)).size) if not is_scalar(a) else 1,
        isscalar=lambda a: is_scalar(a) and not isinstance(a, Arr),
        asanyarray=asarray, concat=concatenate, fliplr=lambda a: flip(a, 1), flipud=lambda a: flip(a, 0),
        astype=lambda a, dt, **kw: as_arr(a).astype(dt), reciprocal=_num("reciprocal", lambda a: 1 / a, _p),
        remainder=_num("remainder", lambda a, b: a % b, _p),
        floor_divide=_num("floor_divide", lambda a, b: a // b, _p),
        positive=_num("positive", lambda a: a, _p), isinf=_num("isinf", isnan, _b), inner=lambda a, b: (as_arr(a) * as_arr(b)).sum(),
        log2=_num("log2", lambda a: sym.log(a) / sym.log(lift(2)), _r),
        log10=_num("log10", lambda a: sym.log(a) / sym.log(lift(10)), _r),
        hypot=_num("hypot", lambda a, b: _sqrt(a * a + b * b), _r),
        vectorize=lambda f, **kw: (lambda *a: A.elementwise(f, _p, *a)) if not kw else _unsup("vectorize options"),
    )
    d.pop("isinf")  # inf and nan are one value here
    d.pop("inner")
    d.pop("reciprocal")  # of an integer array it rounds
    d.pop("vectorize")
    t = Mod(m.__name__ + ".testing")
    t.assert_equal = lambda a, b, *k: None
    d["testing"] = t
    d["__version__"] = "shadow"
    if lib == "np":
        d["random"] = make_random()
    return m


any_, all_ = builtins.any, builtins.all


def _arrize(x):
    if isinstance(x, Series):
        return x.to_numpy()
    if isinstance(x, DataFrame):
        return x.to_numpy()
    h = getattr(x, "__toarr__", None)
    if h is not None:
        return h()
    return x


def _sqrt(a):
    a = a.as_real()
    r = sym.power(a, lift(Fraction(1, 2)))
    if not a.conc or a.v not in (0, 1):
        C = sym.CUR
        t = r.term()
        if C is not None and C.once(("sqrt", t.get_id())):
            C.keepalive(t)
            C.assume(z3.Implies(a.term() >= 0, z3.And(t >= 0, t * t == a.term())))
    return r


# ------------------------------------------------------------------ numpy.random
def make_random():
    m = Mod("numpy.random")

    def seed(s=None):
        sym.CUR.rng = {"seed": s if s is None else lift(s), "n": 0}

    def _pos(kind, **info):
        C = sym.CUR
        if C.rng is None:
            C.rng = {"seed": None, "n": 0}
        p = C.rng["n"]
        C.rng["n"] = p + 1
        rec = dict(kind=kind, pos=p, seed=C.rng["seed"], stream=C.rng.get("stream", ""), **info)
        C.rng_log.append(rec)
        rec["id"] = len(C.rng_log) - 1
        return rec

    def _shape(size):
        if size is None:
            return ()
        if isinstance(size, (tuple, list)):
            return tuple(dim(x) for x in size)
        return (dim(size),)

    def _uf(rec, nd, k):
        srt = {"r": z3.RealSort(), "i": z3.IntSort()}[k]
        # a draw is a function of the seed, the position in the stream and the index
        nm = f"rng_{rec['kind']}{rec['stream']}!{rec['pos']}"
        sd = rec["seed"]
        f = z3.Function(nm, z3.IntSort(), *[z3.IntSort()] * nd, srt)
        st = sd.as_int().term() if sd is not None else sym.CUR.fresh("noseed", "i").term()
        rec["uf"] = f
        return lambda idx: f(st, *[lift(i).term() for i in idx])

    def normal(loc=0, scale=1, size=None):
        sh = _shape(size)
        rec = _pos("normal", loc=loc, scale=scale, size=sh)
        u = _uf(rec, len(sh), "r")
        rec["fn"] = lambda idx: S(u(idx), "r")
        base = Arr(sh, lambda idx: S(u(idx), "r"), "r")
        rec["arr"] = base
        r = base * scale + loc if sh else base.get() * scale + loc
        return r

    def standard_normal(size=None):
        return normal(0, 1, size)

    def choice(a, size=None, replace=True, p=None):
        if is_scalar(a):
            n = dim(lift(a))
            vals = None
        else:
            vals = as_arr(_arrize(a))
            n = vals.shape[0]
        sh = _shape(size)
        pa = None if p is None else as_arr(_arrize(p))
        if pa is not None and not dim_eq(pa.shape[0], n):
            raise ValueError("'a' and 'p' must have same size")
        rec = _pos("choice", vals=vals, n=n, p=pa, size=sh)
        u = _uf(rec, len(sh), "i")
        rv = vals.snap() if vals is not None else None
        pr = pa.snap() if pa is not None else None

        def fn(idx):
            t = u(idx)
            C = sym.CUR
            if C.once(("choice", t.get_id())):
                C.keepalive(t)
                C.assume(z3.And(t >= 0, t < lift(n).term()))
                if pr is not None:
                    # only outcomes of positive probability are drawn
                    C.assume(pr((S(t, "i"),)).term() > 0)
            return S(t, "i") if rv is None else rv((S(t, "i"),))

        rec["fn"] = fn
        k = "i" if vals is None else vals.k
        if not sh:
            return fn(())
        r = Arr(sh, fn, k)
        rec["arr"] = r
        return r

    def binomial(n, p, size=None):
        if not (is_scalar(n) and sym.const_int(n) == 1):
            raise Unsupported("binomial with n != 1")
        pa = p if is_scalar(p) else as_arr(_arrize(p))
        sh = _shape(size) if size is not None else (() if is_scalar(p) else pa.shape)
        if not is_scalar(p):
            b = A.bshape(pa.shape, sh)
            if not all_(dim_eq(x, y) for x, y in zip(b, sh)):
                raise ValueError("shape mismatch in binomial")
        rec = _pos("binomial", p=pa, size=sh)
        u = _uf(rec, len(sh), "i")

        def fn(idx):
            t = u(idx)
            C = sym.CUR
            if C.once(("binom", t.get_id())):
                C.keepalive(t)
                C.assume(z3.Or(t == 0, t == 1))
                if is_scalar(p):
                    pv = lift(p).as_real().term()
                else:
                    pv = pa.snap()(A.bidx(idx, pa.shape, len(sh))).as_real().term()
                C.assume(z3.Implies(pv == 0, t == 0))
                C.assume(z3.Implies(pv == 1, t == 1))
            return S(t, "i")

        rec["fn"] = fn
        if not sh:
            return fn(())
        r = Arr(sh, fn, "i")
        rec["arr"] = r
        return r

    m.__dict__.update(
        seed=seed, normal=normal, standard_normal=standard_normal, choice=choice,
        binomial=binomial,
    )
    return m


# ------------------------------------------------------------------ jax
def _tree_map(f, t, *rest):
    if isinstance(t, dict):
        return {k: _tree_map(f, t[k], *[r[k] for r in rest]) for k in t}
    if hasattr(t, "_fields"):
        return type(t)(*[_tree_map(f, *xs) for xs in zip(t, *rest)])
    if isinstance(t, (tuple, list)):
        return type(t)(_tree_map(f, *xs) for xs in zip(t, *rest))
    if t is None:
        return None
    return f(t, *rest)


def _leaves(t, out=None):
    out = [] if out is None else out
    if isinstance(t, dict):
        for k in sorted(t):
            _leaves(t[k], out)
    elif isinstance(t, (tuple, list)):
        for x in t:
            _leaves(x, out)
    elif t is not None:
        out.append(t)
    return out


def _to_jnp(x):
    if isinstance(x, Arr):
        return x if x.lib == "jnp" else Arr(x.shape, x.snap(), x.k, "jnp")
    if is_scalar(x):
        return lift(x)
    return from_nested(x, None, "jnp")


def vmap(fun, in_axes=0, out_axes=0, **kw):
    if not is_scalar(out_axes) and out_axes is not None:
        raise Unsupported("structured out_axes")

    def wrapped(*args, **kwargs):
        C = sym.CUR
        ax = in_axes
        if is_scalar(ax) or ax is None:
            ax = [ax] * len(args)
        ax = list(ax)
        if len(ax) != len(args):
            raise ValueError("vmap in_axes must match the number of arguments")
        sizes = []
        conv = []
        for a, x in zip(args, ax):
            if x is None:
                conv.append((None, a))
                continue
            if isinstance(x, (dict, list, tuple)):
                raise Unsupported("structured in_axes")
            a2 = _tree_map(_to_jnp, a)
            for lf in _leaves(a2):
                if not isinstance(lf, Arr) or lf.ndim == 0:
                    raise ValueError("vmap over a scalar argument")
                sizes.append(lf.shape[int(x) % lf.ndim])
            conv.append((int(x), a2))
        kconv = {}
        for k, a in kwargs.items():  # kwargs always map over axis 0
            a2 = _tree_map(_to_jnp, a)
            for lf in _leaves(a2):
                sizes.append(lf.shape[0])
            kconv[k] = a2
        if not sizes:
            raise ValueError("vmap must have at least one mapped argument")
        n = sizes[0]
        for s in sizes[1:]:
            if not dim_eq(s, n):
                raise ValueError("vmap got inconsistent sizes for array axes")

        def slice_at(lf, axis, i):
            return lf[tuple([slice(None)] * (axis % lf.ndim) + [i])]

        cache = {}

        def run(i):
            key = A.ikey(i)
            if key not in cache:
                a2 = [
                    a if x is None else _tree_map(lambda lf, x=x: slice_at(lf, x, i), a)
                    for x, a in conv
                ]
                k2 = {k: _tree_map(lambda lf: slice_at(lf, 0, i), a) for k, a in kconv.items()}
                cache[key] = (fun(*a2, **k2), i)
            return cache[key][0]

        if isinstance(n, int):
            probe = 0
            if n == 0:
                raise Unsupported("vmap over an empty axis")
        else:
            b = C.bound_var(n)
            probe = S(b, "i")
        if isinstance(probe, S):
            with C.bound(b, n):
                out0 = run(nidx(probe))
        else:
            out0 = run(probe)

        flat0 = _leaves(out0)

        def build(pos, lf0):
            l0 = as_arr(lf0, "jnp")
            sh = list(l0.shape)
            oa = int(out_axes)
            oa = oa % (len(sh) + 1)
            full = tuple(sh[:oa]) + (n,) + tuple(sh[oa:])

            def fn(idx):
                i = idx[oa]
                rest = idx[:oa] + idx[oa + 1 :]
                out = as_arr(_leaves(run(i))[pos], "jnp")
                return out.snap()(rest)

            return Arr(full, fn, l0.k, "jnp")

        res = [build(p, lf) for p, lf in enumerate(flat0)]
        it = iter(res)

        def rebuild(t):
            if isinstance(t, dict):
                m = {k: rebuild(t[k]) for k in sorted(t)}
                return {k: m[k] for k in t}
            if hasattr(t, "_fields"):
                return type(t)(*[rebuild(x) for x in t])
            if isinstance(t, (tuple, list)):
                return type(t)([rebuild(x) for x in t])
            if t is None:
                return None
            return next(it)

        return rebuild(out0)

    return wrapped


class Scan:
    """lax.scan as an uninterpreted recurrence with on-demand defining equations."""


def scan(f, init, xs, length=None, reverse=False, unroll=1, **kw):
    C = sym.CUR
    init = _tree_map(_to_jnp, init)
    xs = _tree_map(_to_jnp, xs) if xs is not None else None
    lv = _leaves(xs)
    n = lv[0].shape[0] if lv else dim(length)
    for x in lv[1:]:
        if not dim_eq(x.shape[0], n):
            raise ValueError("scan got values with different leading axis sizes")
    if reverse:
        xs_r = _tree_map(lambda a: a[::-1], xs)
        c, ys = scan(f, init, xs_r, length)
        return c, _tree_map(lambda a: a[::-1], ys)
    if isinstance(n, int):
        carry, ysl = init, []
        for i in range(n):
            carry, y = f(carry, _tree_map(lambda a: a[i], xs))
            ysl.append(y)
        ys = _tree_map(lambda *a: A.stack(list(a), 0, "jnp"), ysl[0], *ysl[1:]) if ysl else None
        return carry, ys
    sid = C.new_id()
    cl0 = _leaves(init)

    def carry_arr(pos, k):
        lf = as_arr(cl0[pos], "jnp")
        srt = {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[lf.k]
        F = z3.Function(
            C.varies(f"carry!{sid}!{pos}"), z3.IntSort(), *[z3.IntSort()] * lf.ndim, srt
        )

        def fn(idx):
            t = F(lift(k).term(), *[lift(i).term() for i in idx])
            on_carry(pos, lf, k, idx, t)
            return S(t, lf.k)

        a = Arr(lf.shape, fn, lf.k, "jnp")
        return unwrap(a) if lf.ndim == 0 else a

    def rebuild(t, leaves):
        it = iter(leaves)

        def go(t):
            if isinstance(t, dict):
                m = {k: go(t[k]) for k in sorted(t)}
                return {k: m[k] for k in t}
            if hasattr(t, "_fields"):
                return type(t)(*[go(x) for x in t])
            if isinstance(t, (tuple, list)):
                return type(t)([go(x) for x in t])
            if t is None:
                return None
            return next(it)

        return go(t)

    cache = {}

    def step(k):
        key = A.ikey(nidx(k))
        if key not in cache:
            carry = rebuild(init, [carry_arr(p, k) for p in range(len(cl0))])
            x = _tree_map(lambda a: a[nidx(k)], xs) if xs is not None else None
            cache[key] = (f(carry, x), k)
        return cache[key][0]

    b = C.bound_var(n)
    with C.bound(b, n):
        c_out, y_out = step(S(b, "i"))
        same = []  # for each carry leaf: index of an identical output leaf
        yl, cl = _leaves(y_out), _leaves(c_out)
        if len(cl) != len(cl0):
            raise TypeError("scan carry structure changed")
        for p, c in enumerate(cl):
            ca, ia = as_arr(c), as_arr(cl0[p])
            if ca.ndim != ia.ndim or not all_(
                dim_eq(x, y) for x, y in zip(ca.shape, ia.shape)
            ):
                raise TypeError("scan carry shape changed")
            q = [j for j, y in enumerate(yl) if y is c]
            if not q:
                # same content?
                for j, y in enumerate(yl):
                    ya = as_arr(y)
                    if ya.ndim == ca.ndim and all_(
                        dim_eq(u, v) for u, v in zip(ya.shape, ca.shape)
                    ):
                        ix = tuple(
                            S(z3.Int(f"scidx!{sid}!{m}"), "i") for m in range(ca.ndim)
                        )
                        if z3.simplify(ca.get(*ix).term()).eq(
                            z3.simplify(ya.get(*ix).term())
                        ):
                            q = [j]
                            break
            same.append(q[0] if q else None)

    ydefs = {}

    def y_fun(j):
        lf = as_arr(yl[j])
        srt = {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[lf.k]
        return z3.Function(
            C.varies(f"ys!{sid}!{j}"), z3.IntSort(), *[z3.IntSort()] * lf.ndim, srt
        )

    def on_carry(pos, lf, k, idx, t):
        """carry(0)=init, carry(k)=out(k-1): linked to the stacked output when equal."""
        if not C.once(("carry", sid, pos, t.get_id())):
            return
        C.keepalive(t)
        lk = lift(k)
        i0 = lf.snap()(idx).term()
        base = z3.Implies(lk.term() == 0, t == i0)
        C.assume(base)
        j = same[pos] if len(same) > pos else None
        pend.append((pos, k, idx, t))

    pend = []
    same_done = []

    def flush():
        while pend:
            pos, k, idx, t = pend.pop()
            j = same[pos]
            lk = lift(k)
            if j is not None:
                F = y_fun(j)
                prev = F((lk - 1).term(), *[lift(i).term() for i in idx])
                C.assume(z3.Implies(lk.term() >= 1, t == prev))
                i0 = as_arr(cl0[pos], "jnp").snap()(idx).term()
                C.rewrites[t.get_id()] = (t, z3.If(lk.term() == 0, i0, prev), z3.And(lk.term() >= 0))
            else:
                C.notes.add("scan carry not linked to a stacked output")

    C.flushers = getattr(C, "flushers", [])
    C.flushers.append(flush)

    def y_arr(j):
        lf = as_arr(yl[j])
        F = y_fun(j)

        def fn(idx):
            k, rest = idx[0], idx[1:]
            t = F(lift(k).term(), *[lift(i).term() for i in rest])
            if not getattr(C, "no_unfold", False) and C.once(("ydef", sid, j, t.get_id())):
                C.keepalive(t)
                y = as_arr(_leaves(step(k)[1])[j]).snap()(rest)
                ydefs[t.get_id()] = y
                bad = y.bad
                eq = t == y.term()
                C.assume(eq)
                C.defs = getattr(C, "defs", {})
                C.defs[t.get_id()] = (t, y)
                C.rewrites[t.get_id()] = (t, eq.arg(1), None)
            y = ydefs.get(t.get_id())
            flush()
            return S(t, lf.k, None if y is None else y.bad)

        return Arr((n,) + lf.shape, fn, lf.k, "jnp")

    flush()
    ys = rebuild(y_out, [y_arr(j) for j in range(len(yl))])
    cfin = rebuild(init, [carry_arr(p, n) for p in range(len(cl0))])
    flush()
    return cfin, ys


def fori_loop(lo, hi, body, init):
    lo, hi = nidx(lo), nidx(hi)
    if isinstance(lo, int) and isinstance(hi, int):
        for i in range(lo, hi):
            init = body(i, init)
        return init
    raise Unsupported("fori_loop with symbolic bounds")


def make_jax(jnp):
    j = Mod("jax")

    def jit(f=None, **kw):
        if f is None:
            return lambda g: g
        return f

    tu = Mod("jax.tree_util")
    tu.tree_map = _tree_map
    tu.tree_leaves = lambda t: _leaves(t)
    lax = Mod("jax.lax")
    lax.scan = scan
    lax.fori_loop = fori_loop
    lax.select = lambda c, a, b: A.where(c, a, b)
    lax.cond = lambda p, t, f, *a: _tree_map(
        lambda x, y: A.where(p, x, y), t(*a), f(*a)
    )
    lax.stop_gradient = lambda x: x
    lax.map = lambda f, xs, **kw: vmap(f)(xs) if not kw else _unsup("lax.map options")

    def dyn_index(a, i, axis=0, keepdims=True):
        a = as_arr(a)
        n = a.shape[axis]
        i = lift(i)
        i = sym.smax(sym.smin(ite(i < 0, i + lift(n), i), lift(n) - 1), 0)
        r = a[tuple([slice(None)] * (axis % a.ndim) + [i])]
        return jnp.expand_dims(r, axis) if keepdims else r

    lax.dynamic_index_in_dim = dyn_index
    lax.fori_loop = fori_loop
    j.__dict__.update(
        numpy=jnp, jit=jit, vmap=vmap, lax=lax, tree_util=tu, tree=tu, Array=Arr,
        block_until_ready=lambda x: x, device_get=lambda x: x, device_put=lambda x: x,
    )
    tu.map = _tree_map
    cfg = Mod("jax.config")
    cfg.update = lambda *a: None
    j.config = cfg
    nn = Mod("jax.nn")
    j.nn = nn
    return j


# ------------------------------------------------------------------ pandas
class Index:
    """Row index: a plain RangeIndex-like, or labelled levels (name -> Arr/list)."""

    def __init__(self, levels=None, labels=None):
        self.levels = levels or {}  # name -> Arr (per row)
        self.labels = labels  # list of tuples for fully concrete indexes

    def get_level_values(self, name):
        if self.labels is not None:
            p = name if isinstance(name, int) else self.names.index(name)
            return LabelArr([t[p] for t in self.labels])
        if isinstance(name, int):
            name = list(self.levels)[name]
        if name not in self.levels:
            raise KeyError(name)
        return self.levels[name]

    names = ()


class LabelArr(list):
    def unique(self):
        out = []
        for x in self:
            if x not in out:
                out.append(x)
        return out

    def __eq__(self, o):
        if isinstance(o, list):
            return list.__eq__(self, o)
        return from_nested([bool(x == o) for x in self])

    __hash__ = None


class Series:
    def __init__(self, data=None, index=None, name=None, labels=None, **kw):
        self.labels = labels
        if isinstance(data, Series):
            data = data.arr
        if isinstance(data, (list, tuple)):
            data = from_nested(data)
        self.arr = as_arr(data)
        self.name = name
        self.index = index

    def to_numpy(self, *a, **k):
        return self.arr

    @property
    def values(self):
        return self.arr

    def __toarr__(self):
        return self.arr

    def slen(self):
        return lift(self.arr.shape[0])

    def to_list(self):
        return self.arr.tolist()

    tolist = to_list

    def to_dict(self):
        if self.labels is None:
            raise Unsupported("Series.to_dict without concrete labels")
        return {l: self.arr[i] for i, l in enumerate(self.labels)}

    def items(self):
        if self.labels is None:
            raise Unsupported("Series.items")
        return [(l, self.arr[i]) for i, l in enumerate(self.labels)]

    def __iter__(self):
        return iter(self.arr)

    @property
    def dtype(self):
        return self.arr.dtype

    @property
    def shape(self):
        return self.arr.shape

    def astype(self, dt):
        return Series(self.arr.astype(dt), self.index, self.name, self.labels)

    def copy(self, deep=True):
        return Series(self.arr.copy(), self.index, self.name, self.labels)

    def isin(self, v):
        return self.arr.isin(v)

    def fillna(self, v):
        a = self.arr
        return Series(
            A.elementwise(
                lambda x, y: ite(S(x.bad if x.bad is not None else False, "b"), y, S(x.v, x.k)),
                lambda p, q: A.promote(p, q),
                a,
                v,
            )
        )

    def isna(self):
        return A.emap(lambda x: S(x.bad if x.bad is not None else False, "b"), self.arr, "b")

    def __getitem__(self, k):
        if isinstance(k, str):
            if self.labels is None:
                raise Unsupported("label lookup")
            return self.arr[self.labels.index(k)]
        if isinstance(k, Series):
            k = k.arr
        return Series(self.arr[k])

    @property
    def iloc(self):
        return self.arr

    def sum(self):
        return self.arr.sum()

    def unique(self):
        raise Unsupported("Series.unique")

    def nunique(self, dropna=True):
        n = self.arr.shape[0]
        if not isinstance(n, int):
            raise Unsupported("Series.nunique over a symbolic dimension")
        xs = [self.arr[i] for i in range(n)]
        if any_(x.bad is not None for x in xs):
            raise Unsupported("Series.nunique with missing values")
        r = lift(0)
        for i, x in enumerate(xs):
            new = lift(True)
            for y in xs[:i]:
                new = new & (x != y)
            r = r + ite(new, lift(1), lift(0))
        return r

    def _new(self, arr):
        return Series(arr, self.index, self.name, self.labels)

    def where(self, cond, other=None, **kw):
        if kw or callable(cond):
            raise Unsupported("Series.where options")
        other = S(Fraction(0), "r", True) if other is None else _arrize(other)
        return self._new(A.where(_arrize(cond), self.arr, other))

    def mask(self, cond, other=None, **kw):
        if kw or callable(cond):
            raise Unsupported("Series.mask options")
        other = S(Fraction(0), "r", True) if other is None else _arrize(other)
        return self._new(A.where(_arrize(cond), other, self.arr))

    def round(self, decimals=0):
        return Series(self.arr.round(decimals), self.index, self.name, self.labels)

    def clip(self, lower=None, upper=None, **kw):
        if kw:
            raise Unsupported("Series.clip options")
        return self._new(self.arr.clip(lower, upper))

    def between(self, left, right, inclusive="both"):
        lo = self >= left if inclusive in ("both", "left") else self > left
        hi = self <= right if inclusive in ("both", "right") else self < right
        return lo & hi

    def map(self, f, na_action=None):
        if na_action is not None:
            raise Unsupported("Series.map options")
        if isinstance(f, dict):
            keys = list(f)

            def g(x):
                r = S(Fraction(0), "r", True)
                for k in keys[::-1]:
                    r = ite(x == lift(k), lift(f[k]).as_real(), r)
                return r

            # pandas keeps integer values when every element has a key
            if not all_(lift(v).k == "r" for v in f.values()):
                raise Unsupported("Series.map to integers")
            return self._new(A.emap(g, self.arr, "r"))
        raise Unsupported("Series.map")

    def mean(self):
        return self.arr.mean()

    def max(self):
        return self.arr.max()

    def min(self):
        return self.arr.min()

    def abs(self):
        return self._new(abs(self.arr))

    @property
    def size(self):
        return lift(self.arr.shape[0])

    @property
    def empty(self):
        return lift(self.arr.shape[0]) == 0

    def notna(self):
        return Series(~self.isna())

    notnull, isnull = notna, lambda self: self.isna()

    def reset_index(self, drop=False, **kw):
        if kw or not drop:
            raise Unsupported("Series.reset_index")
        return Series(self.arr, name=self.name)

    def get(self, k, default=None):
        if self.labels is None:
            raise Unsupported("Series.get")
        return self.arr[self.labels.index(k)] if k in self.labels else default

    @property
    def loc(self):
        return _SLoc(self)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Series.{n}")


class _SLoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        s = self.s
        if isinstance(k, slice) and k == slice(None):
            return s
        if isinstance(k, Series):
            k = k.arr
        if isinstance(k, Arr) and k.k == "b":
            return Series(s.arr[k])
        if isinstance(k, str) and s.labels is not None:
            if s.labels.count(k) != 1:
                raise KeyError(k) if k not in s.labels else Unsupported("duplicate label")
            return s.arr[s.labels.index(k)]
        raise Unsupported("Series.loc")


for _op in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ "
    "__lt__ __le__ __gt__ __ge__ __eq__ __ne__ __and__ __or__ __pow__"
).split():

    def _mk(op):
        def f(self, o):
            if isinstance(o, Series):
                o = o.arr
            r = getattr(self.arr, op)(o)
            return Series(r, self.index, self.name, self.labels) if isinstance(r, Arr) else r

        return f

    setattr(Series, _op, _mk(_op))
Series.__hash__ = object.__hash__
Series.__invert__ = lambda self: Series(~self.arr)
Series.__neg__ = lambda self: Series(-self.arr)
Series.eq = lambda self, o: self == o
Series.ne = lambda self, o: self != o
Series.lt, Series.le = lambda self, o: self < o, lambda self, o: self <= o
Series.gt, Series.ge = lambda self, o: self > o, lambda self, o: self >= o
Series.add = lambda self, o: self + o
Series.sub = lambda self, o: self - o
Series.mul = lambda self, o: self * o
Series.div = Series.truediv = lambda self, o: self / o
Series.any = lambda self: self.arr.any()
Series.all = lambda self: self.arr.all()


def cut(x, bins, labels=None, right=True, **kw):
    """pandas.cut: left-open right-closed bins; values outside become NaN."""
    if kw or not right or labels is None:
        raise Unsupported("pd.cut options")
    a = x.arr if isinstance(x, Series) else as_arr(x)
    edges = [lift(b) for b in bins]
    if labels is False:
        labels = list(range(len(edges) - 1))
    labs = [lift(l) for l in labels]
    if len(labs) != len(edges) - 1:
        raise ValueError("Bin labels must be one fewer than the number of bin edges")
    for p, q in zip(edges, edges[1:]):
        c = p < q
        if c.conc:
            if not c.v:
                raise ValueError("bins must increase monotonically.")
        elif not sym.CUR.entails(c.term()):
            sym.CUR.prove("pd.cut bins increase", c)
    rd = a.snap()

    def fn(idx):
        v = rd(idx)
        r = S(Fraction(0), "r", True)
        for lo, hi, l in list(zip(edges, edges[1:], labs))[::-1]:
            r = ite((v > lo) & (v <= hi), l.as_real(), r)
        return r

    # labels are integers; the array is float only because of possible NaN
    return Series(Arr(a.shape, fn, "r"))


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, **kw):
        self.cols = {}
        self.index = index or Index()
        self._n = None
        if isinstance(data, dict):
            for k, v in data.items():
                if isinstance(v, Series):
                    v = v.arr
                v = as_arr(_arrize(v))
                self.cols[k] = v.copy()
        elif data is None:
            pass
        elif isinstance(data, DataFrame):
            self.cols = {k: v for k, v in data.cols.items()}
            self.index = data.index
            self._n = data._n
        else:
            a = as_arr(_arrize(data))
            if columns is None or a.ndim != 2:
                raise Unsupported("DataFrame from array")
            for j, c in enumerate(columns):
                self.cols[c] = a[:, j].copy()
        if kw:
            raise Unsupported("DataFrame options")

    # -- shape
    @property
    def n(self):
        for v in self.cols.values():
            return v.shape[0]
        return self._n if self._n is not None else 0

    @property
    def shape(self):
        return (self.n, len(self.cols))

    def slen(self):
        return lift(self.n)

    def __len__(self):
        d = self.n
        if isinstance(d, int):
            return d
        raise Unsupported("len of symbolic frame")

    @property
    def columns(self):
        return LabelArr(self.cols.keys())

    @property
    def empty(self):
        return lift(self.n) == 0

    @property
    def dtypes(self):
        return {k: v.dtype for k, v in self.cols.items()}

    def _like(self, cols, index=None):
        r = DataFrame()
        r.cols = cols
        r.index = index or Index()
        return r

    def copy(self, deep=True):
        r = self._like({k: v.copy() for k, v in self.cols.items()}, self.index)
        r._n = self._n
        return r

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            return Series(self.cols[k], self.index, k)
        if isinstance(k, list) and all_(isinstance(x, str) for x in k):
            return self._like({c: self.cols[c].copy() for c in k}, self.index)
        if isinstance(k, Series):
            k = k.arr
        if isinstance(k, Arr) and k.k == "b":
            return self._rows(k)
        raise Unsupported("DataFrame getitem")

    def __setitem__(self, k, v):
        if isinstance(v, Series):
            v = v.arr
        v = _arrize(v)
        if is_scalar(v):
            v = A.const_arr(v, (self.n,), lift(v).k)
        else:
            v = as_arr(v).copy()
            if self.cols and not dim_eq(v.shape[0], self.n):
                raise ValueError("Length of values does not match length of index")
        self.cols[k] = Arr(v.shape, v.snap(), v.k, "np")

    def __getattr__(self, n):
        if n.startswith("__") or n in ("cols", "_n"):
            raise AttributeError(n)
        c = self.__dict__.get("cols", {})
        if n in c:
            return Series(c[n], self.index, n)
        raise Unsupported(f"DataFrame.{n}")

    def _rows(self, key):
        cols = {k: v[key] if not isinstance(key, slice) else v[key].copy() for k, v in self.cols.items()}
        idx = self.index
        lv = {}
        for nme, a in getattr(idx, "levels", {}).items():
            lv[nme] = a[key]
        new = Index(lv)
        if getattr(idx, "labels", None) is not None and isinstance(key, slice):
            new.labels = idx.labels[key]
        return self._like(cols, new)

    def _loc_levels(self, sel):
        """.loc[(sel0, sel1, ...), :] on labelled levels; ranges and slice(None) only."""
        keep = None
        for a, s in zip(self.index.levels.values(), sel):
            if isinstance(s, slice) and s == slice(None):
                continue
            if isinstance(s, SymRange):
                lo, hi = s.a, s.b
            elif isinstance(s, range) and s.step == 1:
                lo, hi = s.start, s.stop
            else:
                raise Unsupported("loc level selector")
            m = (a < hi)
            if not (isinstance(lo, int) and lo == 0):
                raise Unsupported("loc level range not from zero")
            keep = m if keep is None else keep & m
        return self if keep is None else self._rows(keep)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def loc(self):
        return _Loc(self)

    def to_numpy(self, *a, **k):
        names = list(self.cols)
        arrs = [self.cols[c] for c in names]
        if len(arrs) == 1:
            return arrs[0][:, None].copy()
        return A.stack([x.copy() for x in arrs], 1)

    @property
    def values(self):
        return self.to_numpy()

    def astype(self, fmt):
        cols = {}
        for k, v in self.cols.items():
            if isinstance(fmt, dict):
                cols[k] = v.astype(fmt[k]) if k in fmt else v.copy()
            else:
                cols[k] = v.astype(fmt)
        if isinstance(fmt, dict):
            for k in fmt:
                if k not in self.cols:
                    raise KeyError(k)
        return self._like(cols, self.index)

    def set_index(self, keys, **kw):
        if kw:
            raise Unsupported("set_index options")
        keys = [keys] if isinstance(keys, str) else list(keys)
        idx = Index({k: self.cols[k] for k in keys})
        return self._like({k: v for k, v in self.cols.items() if k not in keys}, idx)

    def reset_index(self, drop=False, **kw):
        cols = {}
        if not drop:
            cols.update(self.index.levels)
        cols.update(self.cols)
        return self._like(cols)

    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r[k] = v(r) if callable(v) else v
        return r

    def drop(self, columns=None, **kw):
        if kw or columns is None:
            raise Unsupported("drop")
        columns = [columns] if isinstance(columns, str) else columns
        return self._like({k: v for k, v in self.cols.items() if k not in columns}, self.index)

    def rename(self, columns=None, **kw):
        if kw or not isinstance(columns, dict):
            raise Unsupported("rename")
        return self._like({columns.get(k, k): v for k, v in self.cols.items()}, self.index)

    def pop(self, c):
        r = self[c]
        del self.cols[c]
        return r

    def insert(self, loc, c, v):
        if c in self.cols:
            raise ValueError(f"cannot insert {c}, already exists")
        self[c] = v
        names = [k for k in self.cols if k != c]
        names.insert(loc, c)
        self.cols = {k: self.cols[k] for k in names}

    def keys(self):
        return self.columns

    def items(self):
        return [(k, self[k]) for k in self.cols]

    def __contains__(self, k):
        return k in self.cols

    def __iter__(self):
        return iter(self.columns)

    def __deepcopy__(self, memo):
        return self.copy()


class _ILoc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, key):
        df = self.df
        names = list(df.cols)
        if not isinstance(key, tuple):
            if isinstance(key, Series):
                key = key.arr
            if is_scalar(key):
                raise Unsupported("iloc row")
            return df._rows(key)
        r, c = key
        if isinstance(c, int) or isinstance(c, S):
            col = df.cols[names[int(c)]]
            if isinstance(r, slice) and r == slice(None):
                return Series(col, df.index, names[int(c)])
            return Series(col[r])
        raise Unsupported("iloc")

    def __setitem__(self, key, v):
        df = self.df
        if not isinstance(key, tuple):
            raise Unsupported("iloc row assignment")
        r, c = key
        names = list(df.cols)
        col = df.cols[names[int(c)]]
        if isinstance(v, Series):
            v = v.arr
        if not (isinstance(r, slice) and r == slice(None)):
            raise Unsupported("partial iloc assignment")
        va = as_arr(_arrize(v))
        if va.k != col.k and not (va.k == "i" and col.k == "r"):
            # pandas upcasts the column (new block); views of the old one are detached
            raise Unsupported("iloc assignment changes dtype")
        col[:] = va.copy() if isinstance(va, Arr) else va


class _Loc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, key):
        df = self.df
        if isinstance(key, tuple) and len(key) == 2:
            r, c = key
            if isinstance(r, tuple):
                return df._loc_levels(r) if hasattr(type(df), "_loc_levels") else _unsup("loc tuple")
            if isinstance(r, Series):
                r = r.arr
            if isinstance(r, Arr) and r.k == "b":
                sub = df._rows(r)
            elif isinstance(r, slice) and r == slice(None):
                sub = df
            else:
                raise Unsupported("loc rows")
            if isinstance(c, slice) and c == slice(None):
                return sub
            return sub[c]
        if isinstance(key, Series):
            key = key.arr
        if isinstance(key, Arr) and key.k == "b":
            return df._rows(key)
        raise Unsupported("loc")

    def __setitem__(self, key, v):
        df = self.df
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], str):
            r, c = key
            if isinstance(r, Series):
                r = r.arr
            if isinstance(r, slice) and r == slice(None):
                df[c] = v
                return
            if isinstance(r, Arr) and r.k == "b":
                if c not in df.cols:
                    raise Unsupported("loc creates a column")
                col = df.cols[c].copy()
                if lift(v).k == "r" and col.k != "r":
                    col = col.astype(float)
                col[r] = v
                df.cols[c] = col
                return
        raise Unsupported("loc assignment")


class LabelFrame(DataFrame):
    """A frame whose row labels (tuples) are concrete and whose cells may be symbolic."""

    def __init__(self, labels, cols, names=()):
        super().__init__()
        self.cols = dict(cols)
        self.labels = [tuple(t) for t in labels]
        self.lnames = tuple(names)
        self.index = Index(labels=self.labels)
        self.index.names = self.lnames

    def _rows_at(self, ps):
        return {k: from_nested([v[p] for p in ps]) for k, v in self.cols.items()}

    def _select(self, l):
        """Rows with first label(s) l, label(s) dropped as pandas does for a partial key."""
        l = l if isinstance(l, tuple) else (l,)
        ps = [i for i, t in enumerate(self.labels) if t[: len(l)] == l]
        if not ps:
            raise KeyError(l[0] if len(l) == 1 else l)
        rest = [self.labels[i][len(l):] for i in ps]
        return ps, rest

    def _partial(self, l):
        ps, rest = self._select(l)
        if rest and rest[0] == ():
            if len(ps) == 1:
                return Series(from_nested([v[ps[0]] for v in self.cols.values()]), labels=list(self.cols))
            raise Unsupported("duplicate labels")
        return LabelFrame(rest, self._rows_at(ps), self.lnames[len(self.labels[0]) - len(rest[0]):])

    def _partial_col(self, l, c):
        ps, rest = self._select(l)
        if c not in self.cols:
            raise KeyError(c)
        col = self.cols[c]
        if rest[0] == ():
            if len(ps) > 1:
                raise Unsupported("duplicate labels")
            return col[ps[0]]
        return Series(from_nested([col[p] for p in ps]), labels=[t[0] if len(t) == 1 else t for t in rest])

    def copy(self, deep=True):
        return LabelFrame(self.labels, {k: v.copy() for k, v in self.cols.items()}, self.lnames)

    __deepcopy__ = lambda self, memo: self.copy()

    @property
    def loc(self):
        return _LabelLoc(self)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            labs = [t[0] if len(t) == 1 else t for t in self.labels]
            return Series(self.cols[k], labels=labs)
        if isinstance(k, Series):
            k = k.arr
        if isinstance(k, Arr) and k.k == "b":
            return self._mask(k)
        raise Unsupported("labelled frame indexing")

    def _mask(self, m):
        if m.ndim != 1 or not dim_eq(m.shape[0], len(self.labels)):
            raise ValueError("Boolean index has wrong length")
        keep = []
        for i in range(len(self.labels)):
            x = m[i]
            if not x.conc:
                raise Unsupported("labelled rows chosen by a symbolic condition")
            if x.v:
                keep.append(i)
        cols = {}
        for c, v in self.cols.items():
            cols[c] = from_nested([v[i] for i in keep]) if keep else v[slice(0, 0)]
        return LabelFrame([self.labels[i] for i in keep], cols, self.lnames)

    def xs(self, key, axis=0, level=None, drop_level=True):
        if axis != 0 or not drop_level:
            raise Unsupported("xs options")
        if level is None:
            return self._partial(key)
        p = level if isinstance(level, int) else self.lnames.index(level)
        ps = [i for i, t in enumerate(self.labels) if t[p] == key]
        if not ps:
            raise KeyError(key)
        rest = [self.labels[i][:p] + self.labels[i][p + 1:] for i in ps]
        return LabelFrame(rest, self._rows_at(ps), self.lnames[:p] + self.lnames[p + 1:])

    def to_numpy(self, *a, **k):
        return A.stack([v for v in self.cols.values()], 1)

    values = property(to_numpy)

    def __len__(self):
        return len(self.labels)


class _LabelLoc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, key):
        df = self.df
        if isinstance(key, Series):
            key = key.arr
        if isinstance(key, Arr) and key.k == "b":
            return df._mask(key)
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], (Arr, Series)):
            m = df._mask(key[0].arr if isinstance(key[0], Series) else key[0])
            if isinstance(key[1], slice) and key[1] == slice(None):
                return m
            return m[key[1]] if isinstance(key[1], str) else _unsup("loc columns")
        if isinstance(key, str):
            return df._partial(key)
        if isinstance(key, tuple):
            if len(key) == 2 and isinstance(key[0], slice) and key[0] == slice(None) and isinstance(key[1], str):
                return df[key[1]]
            if len(key) == 2 and isinstance(key[1], str) and key[1] in df.cols and isinstance(key[0], (str, tuple)):
                return df._partial_col(key[0], key[1])
            if all(isinstance(x, str) for x in key):
                return df._partial(key)
            if len(key) == 2 and isinstance(key[1], slice) and key[1] == slice(None) and isinstance(key[0], (str, tuple)):
                return df._partial(key[0])
        raise Unsupported("loc on labelled frame")

    def __setitem__(self, key, v):
        df = self.df
        if isinstance(key, tuple) and len(key) == 2 and key[1] in df.cols and isinstance(key[0], (str, tuple)):
            ps, rest = df._select(key[0])
            col = df.cols[key[1]].copy()
            for p in ps:
                col[p] = v
            df.cols[key[1]] = col
            return
        raise Unsupported("loc assignment on labelled frame")


def _unsup(m):
    raise Unsupported(m)


def concat(objs, axis=0, ignore_index=False, **kw):
    if axis != 0 or kw:
        raise Unsupported("pd.concat options")
    h = getattr(objs, "__concat__", None)
    if h is not None:
        return h()
    objs = list(objs)
    names = list(objs[0].cols)
    for o in objs[1:]:
        if set(o.cols) != set(names):
            raise Unsupported("pd.concat with different columns")
    r = DataFrame()
    for c in names:
        r.cols[c] = A.concatenate([o.cols[c] for o in objs], 0)
    return r


def make_pandas():
    m = Mod("pandas")

    def read_pickle(path):
        fs = sym.CUR.files
        if path not in fs:
            raise FileNotFoundError(path)
        return fs[path]()

    m.__dict__.update(
        Series=Series, DataFrame=DataFrame, cut=cut, concat=concat,
        read_pickle=read_pickle,
    )
    return m


def make_yaml():
    m = Mod("yaml")

    def load(stream, Loader=None):
        if not isinstance(stream, ShFile):
            raise Unsupported("yaml.load of a string")
        return sym.CUR.files[stream.path]()

    for l in ("Loader", "SafeLoader", "FullLoader", "CSafeLoader"):
        m.__dict__[l] = l
    m.__dict__.update(load=load, safe_load=load, full_load=load)
    return m


def make_scipy():
    sp = Mod("scipy")
    spec = Mod("scipy.special")

    def roots_hermite(n):
        C = sym.CUR
        n = dim(lift(n))
        C.hermite_n = n
        X = z3.Function("hermite_x", z3.IntSort(), z3.IntSort(), z3.RealSort())
        W = z3.Function("hermite_w", z3.IntSort(), z3.IntSort(), z3.RealSort())
        nt = lift(n).term()
        x = Arr((n,), lambda idx: S(X(nt, lift(idx[0]).term()), "r"), "r")
        w = Arr((n,), lambda idx: S(W(nt, lift(idx[0]).term()), "r"), "r")
        return x, w

    spec.roots_hermite = roots_hermite
    sp.special = spec
    return sp


def build():
    np_ = make_numpy("np")
    jnp_ = make_numpy("jnp")
    jnp_.__dict__["random"] = Mod("jax.random")
    jax_ = make_jax(jnp_)
    pd_ = make_pandas()
    sp_ = make_scipy()
    return {
        "numpy": np_,
        "numpy.random": np_.random,
        "jax": jax_,
        "jax.numpy": jnp_,
        "jax.lax": jax_.lax,
        "jax.tree_util": jax_.tree_util,
        "pandas": pd_,
        "scipy": sp_,
        "scipy.special": sp_.special,
        "yaml": make_yaml(),
        "pytest": Mod("pytest"),
    }
