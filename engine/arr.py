"""Lazy pointwise symbolic arrays with numpy semantics (possibly symbolic dimensions).

An ``Arr`` is a shape, an element kind ('b','i','r') and a reader function from an index
tuple to a scalar ``S``.  numpy arrays are mutable (functional update of the reader, with
write-through views); jax arrays are immutable.  Assumption: machine integers and floats
are treated as mathematical integers and reals (plus the definedness flag ``S.bad``).
"""
from __future__ import annotations

import itertools
from fractions import Fraction

import z3

from . import sym
from .sym import S, Unsupported, ite, lift, lnot, is_scalar, const_int


# ------------------------------------------------------------------ dtypes
class DType:
    """numpy dtype look-alike; only the kind matters to the engine."""

    def __init__(self, k, name=None):
        self.k = k
        self.name = name or {"b": "bool", "i": "int64", "r": "float64", "o": "object"}[k]

    @property
    def kind(self):
        return {"b": "b", "i": "i", "r": "f", "o": "O"}[self.k]

    def __call__(self, x=0, *a, **kw):  # np.float64(x)
        if isinstance(x, Arr):
            return x.astype(self)
        dkind(self)
        return fit(cast(lift(x), self.k), dwidth(self))

    def __eq__(self, o):
        try:
            return self.k == dkind(o)
        except Exception:
            return False

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return self.name


WIDTHS = {
    "int8": (-(2**7), 2**7 - 1),
    "int16": (-(2**15), 2**15 - 1),
    "uint8": (0, 2**8 - 1),
    "uint16": (0, 2**16 - 1),
    "uint32": (0, 2**32 - 1),
    "uint64": (0, 2**64 - 1),
}
COARSE = ("float32", "float16", "half", "single", "bfloat16")


def dwidth(dt):
    """Range of a narrow or unsigned integer dtype, None for the others (int32 and int64 are
    treated as mathematical integers)."""
    if isinstance(dt, str):
        return WIDTHS.get(dt)
    if isinstance(dt, DType):
        return WIDTHS.get(dt.name)
    return None


def fit(s, w):
    """s stored in an integer format of range w: the value modulo its number of values."""
    if w is None:
        return s
    lo, hi = w
    n = hi - lo + 1
    if s.conc:
        return S((int(s.v) - lo) % n + lo, "i", s.bad)
    return ite((s >= lo) & (s <= hi), s, (s - lo) % n + lo)


def wjoin(arrs, others):
    """integer format of the result of an operation: python scalars are weak"""
    ws = [a.w for a in arrs if a.k == "i"]
    if not ws or any(w is None for w in ws):
        return None
    lo, hi = min(w[0] for w in ws), max(w[1] for w in ws)
    if (lo, hi) not in WIDTHS.values():
        # mixed signedness: numpy goes to the next wider signed type
        for c in ("int16", "int32"):
            if c == "int32" or (WIDTHS[c][0] <= lo and hi <= WIDTHS[c][1]):
                return WIDTHS.get(c)
    return (lo, hi)


def dkind(dt):
    if dt is None:
        return "r"
    if (dt.name if isinstance(dt, DType) else dt) in COARSE if isinstance(dt, (DType, str)) else False:
        raise Unsupported(f"rounding to {dt}")
    if isinstance(dt, DType):
        return dt.k
    if dt is bool:
        return "b"
    if dt is int:
        return "i"
    if dt is float:
        return "r"
    n = getattr(dt, "__name__", None) or (dt if isinstance(dt, str) else str(dt))
    if "bool" in n:
        return "b"
    if "int" in n:
        return "i"
    if "float" in n or "double" in n or n == "f8":
        return "r"
    if n == "object":
        return "o"
    raise Unsupported(f"dtype {dt!r}")


def cast(s, k):
    s = lift(s)
    if s.k == k or k == "o":
        return s
    if k == "r":
        return s.as_real()
    if k == "i":
        if s.k == "r" and s.bad is not None:
            # float -> int of a non-finite value is undefined
            r = s.trunc()
            return S(r.v, "i", s.bad)
        return s.trunc()
    return s.as_bool()


def promote(*ks):
    if "o" in ks:
        return "o"
    if "r" in ks:
        return "r"
    if "i" in ks:
        return "i"
    return "b"


# ------------------------------------------------------------------ dims
def dim(d):
    """Normalise a dimension to int or symbolic S."""
    if isinstance(d, bool):
        return int(d)
    if isinstance(d, int):
        return d
    s = lift(d)
    c = const_int(s)
    if c is not None:
        return c
    if s.k != "i":
        raise Unsupported("non-integer dimension")
    return s


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    la, lb = lift(a), lift(b)
    d = z3.simplify(la.term() - lb.term(), som=True)
    if z3.is_int_value(d):
        return d.as_long() == 0
    if sym.CUR is not None and sym.CUR.entails(la.term() == lb.term()):
        return True
    return False


def dim_prod(ds):
    r = 1
    for d in ds:
        r = d * r if not isinstance(r, int) or r != 1 else d
    return dim(r)


def factors(d):
    """Multiset of integer-factor terms of a dimension."""
    if isinstance(d, int):
        return d, []
    c, out = 1, []

    def go(t):
        nonlocal c
        if z3.is_mul(t):
            for ch in t.children():
                go(ch)
        elif z3.is_int_value(t):
            c *= t.as_long()
        else:
            out.append(t)

    go(d.v)
    return c, out


def dim_div(a, b):
    """a / b when b's factors divide a's syntactically."""
    ca, fa = factors(a)
    cb, fb = factors(b)
    rest = list(fa)
    for f in fb:
        for i, g in enumerate(rest):
            if g.eq(f):
                del rest[i]
                break
        else:
            return None
    if ca % cb:
        return None
    r = ca // cb
    res = lift(r)
    for g in rest:
        res = S(g, "i") * res
    return dim(res)


def bshape(*shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for ax in range(nd):
        d = 1
        for s in shapes:
            j = ax - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = x
            elif not dim_eq(d, x):
                if isinstance(d, int) and isinstance(x, int):
                    raise ValueError(
                        f"operands could not be broadcast together: {shapes}"
                    )
                raise Unsupported(f"cannot prove broadcast dimensions equal: {d} {x}")
        out.append(d)
    return tuple(out)


def bidx(idx, shape, nd):
    """Index into an operand of `shape` given an index for broadcast rank nd."""
    off = nd - len(shape)
    return tuple(
        0 if (isinstance(shape[j], int) and shape[j] == 1) else idx[off + j]
        for j in range(len(shape))
    )


def ikey(i):
    if isinstance(i, int):
        return i
    if i.conc:
        return int(i.v)
    return ("t", i.v.get_id())


def nidx(i):
    """normalise an index scalar to int or symbolic S(int)"""
    if isinstance(i, int) and not isinstance(i, bool):
        return i
    i = lift(i)
    if i.conc:
        return int(i.v)
    if i.k == "b":
        i = i.as_int()
    if i.k != "i":
        raise Unsupported("non-integer index")
    if z3.is_int_value(i.v):
        return i.v.as_long()
    C = sym.CUR
    if C is not None and i.v.num_args() and i.v.get_id() not in C.flats:
        hit = C.simp_cache.get(i.v.get_id())
        if hit is None:
            hit = C.simp_cache[i.v.get_id()] = (i.v, z3.simplify(i.v))
        t = hit[1]
        if z3.is_int_value(t):
            return t.as_long()
        if t.get_id() != i.v.get_id():
            i = S(t, "i", i.bad)
    return i


def eq_idx(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return S(a == b, "b")
    la, lb = lift(a), lift(b)
    d = z3.simplify(la.term() - lb.term(), som=True)
    if z3.is_int_value(d):
        return S(d.as_long() == 0, "b")
    return la == lb


# ------------------------------------------------------------------ array
class Arr:
    __array_priority__ = 2000
    serial = 0

    def __init__(self, shape, fn, k, lib="np", base=None, bmap=None, bset=None):
        self.shape = tuple(dim(d) for d in shape)
        self._fn = fn
        self.k = k
        self.lib = lib
        self._memo = {}
        self._keep = []
        self.base = base  # view: underlying array
        self.bmap = bmap  # view index -> base index
        self.bset = bset  # callable(value) writing this view's content back to base
        self.tag = None
        self.w = base.w if base is not None else None  # range of a narrow integer format
        Arr.serial += 1
        self.no = Arr.serial

    def __deepcopy__(self, memo):
        return self.copy()

    # ---- reading
    def snap(self):
        """Immutable reader for the present content."""
        if self.base is not None:
            b = self.base.snap()
            m = self.bmap
            return lambda idx: b(m(idx))
        memo, fn, keep, k, w = self._memo, self._fn, self._keep, self.k, self.w

        def rd(idx):
            key = tuple(ikey(i) for i in idx)
            C = sym.CUR
            if C is not None and C.guards:
                # simplifications made under a guard hold only there
                r = memo.get(key)
                if r is not None:
                    return r
                key = (key, C.gkey())
            r = memo.get(key)
            if r is None:
                r = fn(idx)
                if k != "o":
                    r = cast(r, k)
                    if w is not None:
                        r = fit(r, w)
                memo[key] = r
                keep.append(idx)
            return r

        return rd

    def get(self, *idx):
        if len(idx) != len(self.shape):
            raise Unsupported("rank mismatch in get")
        return self.snap()(tuple(nidx(i) for i in idx))

    def _replace(self, fn):
        """in-place content change"""
        if self.lib == "jnp":
            raise TypeError("JAX arrays are immutable")
        if self.base is not None:
            self.bset(Arr(self.shape, fn, self.k))
            return
        fr = sym.CUR.frame if sym.CUR is not None else None
        if fr is not None and self.no <= fr[0] and id(self) not in fr[1]:
            raise Unsupported("an iteration changes an array made outside the loop")
        self._fn = fn
        self._memo = {}
        self._keep = []

    # ---- attributes
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        for n, w in WIDTHS.items():
            if self.w == w and self.k == "i":
                return DType("i", n)
        return DType(self.k)

    @property
    def size(self):
        return dim_prod(self.shape)

    @property
    def T(self):
        return self.transpose()

    @property
    def values(self):
        return self

    @property
    def at(self):
        return _At(self)

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        d = self.shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("len() with symbolic size (use the shadow len)")

    def __iter__(self):
        d = self.shape[0]
        if not isinstance(d, int):
            raise Unsupported("iteration over a symbolic dimension")
        for i in range(d):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(self.get(*[0] * self.ndim))
        raise ValueError("truth value of an array is ambiguous")

    def __float__(self):
        if self.size == 1:
            return float(self.get(*[0] * self.ndim))
        raise TypeError("only length-1 arrays can be converted")

    def __lift_scalar__(self):
        if self.size == 1:
            return self.get(*[0] * self.ndim)
        raise Unsupported("array used as scalar")

    def __repr__(self):
        return f"Arr[{self.k},{self.lib}]{self.shape}"

    __hash__ = object.__hash__

    # ---- arithmetic
    def __add__(self, o):
        return binop("+", self, o)

    def __radd__(self, o):
        return binop("+", o, self)

    def __sub__(self, o):
        return binop("-", self, o)

    def __rsub__(self, o):
        return binop("-", o, self)

    def __mul__(self, o):
        return binop("*", self, o)

    def __rmul__(self, o):
        return binop("*", o, self)

    def __truediv__(self, o):
        return binop("/", self, o)

    def __rtruediv__(self, o):
        return binop("/", o, self)

    def __floordiv__(self, o):
        return binop("//", self, o)

    def __rfloordiv__(self, o):
        return binop("//", o, self)

    def __mod__(self, o):
        return binop("%", self, o)

    def __pow__(self, o):
        return binop("**", self, o)

    def __rpow__(self, o):
        return binop("**", o, self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __neg__(self):
        return emap(lambda a: -a, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return emap(abs, self)

    def __and__(self, o):
        return binop("&", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return binop("|", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return binop("^", self, o)

    __rxor__ = __xor__

    def __invert__(self):
        return emap(lambda a: ~a, self)

    def __lt__(self, o):
        return binop("<", self, o)

    def __le__(self, o):
        return binop("<=", self, o)

    def __gt__(self, o):
        return binop(">", self, o)

    def __ge__(self, o):
        return binop(">=", self, o)

    def __eq__(self, o):
        return binop("==", self, o)

    def __ne__(self, o):
        return binop("!=", self, o)

    def _iop(self, op, o):
        r = binop(op, self, o)
        if self.lib == "jnp":
            return r
        if not all(dim_eq(a, b) for a, b in zip(r.shape, self.shape)) or len(
            r.shape
        ) != len(self.shape):
            raise ValueError("non-broadcastable output operand")
        if promote(r.k, self.k) != self.k:
            raise TypeError(f"Cannot cast ufunc output from {r.k} to {self.k}")
        self._replace(r.snap())
        return self

    def __iadd__(self, o):
        return self._iop("+", o)

    def __isub__(self, o):
        return self._iop("-", o)

    def __imul__(self, o):
        return self._iop("*", o)

    def __itruediv__(self, o):
        return self._iop("/", o)

    def __iand__(self, o):
        return self._iop("&", o)

    def __ior__(self, o):
        return self._iop("|", o)

    # ---- methods
    def copy(self, order=None, deep=True):
        r = self.snap()
        return Arr(self.shape, r, self.k, self.lib).narrow(self.w)

    def narrow(self, w):
        """the same content in an integer format of range w"""
        if w is not None and self.k == "i":
            if self.base is not None:
                return self.copy().narrow(w)
            self.w = w
        return self

    def astype(self, dt, copy=True, **kw):
        k = dkind(dt)
        rd = self.snap()
        return Arr(self.shape, lambda idx: cast(rd(idx), k), k, self.lib).narrow(dwidth(dt))

    def to_numpy(self, *a, **k):
        return self

    def item(self):
        return self.__lift_scalar__()

    def tolist(self):
        if self.ndim == 0:
            return self.get()
        d = self.shape[0]
        if isinstance(d, int):
            out = []
            for i in range(d):
                x = self[i]
                out.append(x.tolist() if isinstance(x, Arr) else x)
            return out
        from .shadow import SymList

        return SymList.from_arr(self)

    to_list = tolist

    def clip(self, min=None, max=None, a_min=None, a_max=None, out=None):
        lo = min if min is not None else a_min
        hi = max if max is not None else a_max
        r = self
        if lo is not None:
            r = emap2(sym.smax, r, lo)
        if hi is not None:
            r = emap2(sym.smin, r, hi)
        return r

    def round(self, decimals=0, out=None):
        return elementwise(lambda x: x.round_to(decimals), lambda k: k, self)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(a % self.ndim for a in axes)
        sh = tuple(self.shape[a] for a in axes)

        def bm(idx):
            out = [None] * len(axes)
            for p, a in enumerate(axes):
                out[a] = idx[p]
            return tuple(out)

        inv = [axes.index(i) for i in range(len(axes))]

        def bset(v):
            self[...] = v.transpose(*inv)

        if self.lib == "jnp":
            rd = self.snap()
            return Arr(sh, lambda idx: rd(bm(idx)), self.k, self.lib)
        return Arr(sh, None, self.k, self.lib, base=self, bmap=bm, bset=bset)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, order="C"):
        return reshape(self, (-1,))

    def flatten(self, order="C"):
        return reshape(self, (-1,)).copy()

    def squeeze(self, axis=None):
        if axis is None:
            ax = [i for i, d in enumerate(self.shape) if isinstance(d, int) and d == 1]
        else:
            ax = [axis % self.ndim]
        return self[tuple(0 if i in ax else slice(None) for i in range(self.ndim))]

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        from . import reduce

        return reduce.rsum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False, **kw):
        from . import reduce

        n = self.size if axis is None else self.shape[axis]
        return reduce.rsum(self, axis, keepdims) / n

    def max(self, axis=None, keepdims=False, **kw):
        from . import reduce

        return reduce.rfold(self, axis, sym.smax, keepdims)

    def min(self, axis=None, keepdims=False, **kw):
        from . import reduce

        return reduce.rfold(self, axis, sym.smin, keepdims)

    def any(self, axis=None, **kw):
        from . import reduce

        return reduce.rany(self, axis)

    def all(self, axis=None, **kw):
        from . import reduce

        return reduce.rall(self, axis)

    def argmax(self, axis=None, **kw):
        from . import reduce

        return reduce.argmax(self, axis)

    def argmin(self, axis=None, **kw):
        from . import reduce

        return reduce.argmax(-self, axis)

    def eq(self, o):
        return self == o

    def isin(self, vals):
        r = None
        for v in vals:
            c = self == v
            r = c if r is None else (r | c)
        return r

    def fill(self, v):
        self[...] = v

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, key):
        return _AtK(self.a, key)


class _AtK:
    def __init__(self, a, key):
        self.a, self.key = a, key

    def _go(self, f):
        c = Arr(self.a.shape, self.a.snap(), self.a.k, "np")
        c[self.key] = f(c)
        return Arr(c.shape, c.snap(), c.k, "jnp")

    def set(self, v, **k):
        return self._go(lambda c: v)

    def _plain(self):
        # an index array may name an element twice, which these accumulate over
        ks = self.key if isinstance(self.key, tuple) else (self.key,)
        if any(isinstance(x, (Arr, list)) and not (isinstance(x, Arr) and x.k == "b") for x in ks):
            raise Unsupported("at[].add with index arrays")

    def add(self, v, **k):
        self._plain()
        return self._go(lambda c: c[self.key] + v)

    def multiply(self, v, **k):
        self._plain()
        return self._go(lambda c: c[self.key] * v)

    def divide(self, v, **k):
        self._plain()
        return self._go(lambda c: c[self.key] / v)

    def max(self, v, **k):
        self._plain()
        return self._go(lambda c: elementwise(sym.smax, promote2, c[self.key], v))

    def min(self, v, **k):
        self._plain()
        return self._go(lambda c: elementwise(sym.smin, promote2, c[self.key], v))


def promote2(*ks):
    return promote(*ks)


# ------------------------------------------------------------------ constructors
def const_arr(v, shape, k, lib="np"):
    v = cast(lift(v), k) if k != "o" else v
    return Arr(shape, lambda idx: v, k, lib)


def pick(items, i):
    """items[i] for a python list of S and a (possibly symbolic) index."""
    i = nidx(i)
    if isinstance(i, int):
        return items[i]
    if not items:
        raise Unsupported("symbolic index into empty list")
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = ite(eq_idx(i, j), items[j], r)
    return r


def from_nested(x, k=None, lib="np"):
    """np.array(x) for nested python sequences."""
    if isinstance(x, Arr):
        r = x.copy()
        r.lib = lib
        return r.astype(DType(k)) if k and k != r.k else r
    if is_scalar(x):
        s = lift(x)
        return cast(s, k) if k else s
    tl = getattr(x, "__toarr__", None)
    if tl is not None:
        r = tl()
        r = Arr(r.shape, r.snap(), r.k, lib)
        return r.astype(DType(k)) if k and k != r.k else r
    if isinstance(x, (list, tuple, range)) or hasattr(x, "__iter__"):
        items = [from_nested(y, None, lib) for y in x]
        if not items:
            return const_arr(Fraction(0), (0,), k or "r", lib)
        return stack(items, 0, lib, k)
    raise Unsupported(f"array() of {type(x).__name__}")


def as_arr(x, lib="np"):
    if isinstance(x, Arr):
        return x
    if is_scalar(x):
        s = lift(x)
        return Arr((), lambda idx: s, s.k, lib)
    r = from_nested(x, None, lib)
    return r if isinstance(r, Arr) else as_arr(r, lib)


def unwrap(a):
    """0-d arrays become scalars."""
    if isinstance(a, Arr) and a.ndim == 0:
        return a.get()
    return a


def elementwise(f, kf, *args):
    arrs = [a if isinstance(a, Arr) else None for a in args]
    if not any(a is not None for a in arrs):
        arr_args = []
        need = False
        for a in args:
            if is_scalar(a):
                arr_args.append(lift(a))
            else:
                need = True
        if not need:
            return f(*arr_args)
    ops = [as_arr(a) for a in args]
    lib = "jnp" if any(o.lib == "jnp" for o in ops if o.ndim) else "np"
    sh = bshape(*[o.shape for o in ops])
    nd = len(sh)
    rds = [(o.snap(), o.shape) for o in ops]
    k = kf(*[o.k for o in ops])

    def fn(idx):
        return f(*[rd(bidx(idx, s, nd)) for rd, s in rds])

    if nd == 0:
        return fn(())
    r = Arr(sh, fn, k, lib)
    if k == "i" and any(o.w is not None for o in ops):
        r.narrow(wjoin([o for a, o in zip(args, ops) if isinstance(a, Arr)], args))
    return r


def emap(f, a, k=None):
    return elementwise(f, (lambda x: k or x), a)


def emap2(f, a, b, k=None):
    return elementwise(f, (lambda x, y: k or promote(x, y)), a, b)


_OPS = {
    "+": (lambda a, b: a + b),
    "-": (lambda a, b: a - b),
    "*": (lambda a, b: a * b),
    "/": (lambda a, b: a / b),
    "//": (lambda a, b: a // b),
    "%": (lambda a, b: a % b),
    "**": (lambda a, b: a**b),
    "&": (lambda a, b: a & b),
    "|": (lambda a, b: a | b),
    "^": (lambda a, b: a ^ b),
    "<": (lambda a, b: a < b),
    "<=": (lambda a, b: a <= b),
    ">": (lambda a, b: a > b),
    ">=": (lambda a, b: a >= b),
    "==": (lambda a, b: a == b),
    "!=": (lambda a, b: a != b),
}


def _opk(op):
    def kf(a, b):
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return "b"
        if op == "/":
            return "r"
        p = promote(a, b)
        if op in ("-", "**", "//", "%") and p == "b":
            return "i"
        return p

    return kf


def binop(op, a, b):
    if a is None or b is None:
        if op == "==":
            return False
        if op == "!=":
            return True
    if isinstance(a, str) or isinstance(b, str):
        if op == "==":
            return False
        return NotImplemented
    return elementwise(_OPS[op], _opk(op), a, b)


def where(c, a=None, b=None):
    if a is None and b is None:
        from . import reduce

        return reduce.nonzero(c)
    return elementwise(ite, lambda kc, x, y: promote(x, y), c, a, b)


def stack(items, axis=0, lib=None, k=None):
    items = [as_arr(x) for x in items]
    sh = items[0].shape
    for it in items[1:]:
        if len(it.shape) != len(sh) or not all(
            dim_eq(x, y) for x, y in zip(it.shape, sh)
        ):
            raise ValueError("all input arrays must have the same shape")
    n = len(items)
    nd = len(sh) + 1
    axis = axis % nd
    k = k or promote(*[i.k for i in items])
    lib = lib or ("jnp" if any(i.lib == "jnp" for i in items) else "np")
    rds = [i.snap() for i in items]

    def fn(idx):
        i = idx[axis]
        rest = idx[:axis] + idx[axis + 1 :]
        if isinstance(i, int):
            return cast(rds[i](rest), k)
        return pick([cast(rd(rest), k) for rd in rds], i)

    return Arr(sh[:axis] + (n,) + sh[axis:], fn, k, lib)


def concatenate(items, axis=0, lib=None):
    items = [as_arr(x) for x in items]
    if axis is None:
        items = [reshape(i, (-1,)) for i in items]
        axis = 0
    nd = items[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    for it in items:
        if it.ndim != nd:
            raise ValueError("concatenate: ndim mismatch")
    axis = axis % nd
    for it in items[1:]:
        for d in range(nd):
            if d != axis and not dim_eq(it.shape[d], items[0].shape[d]):
                raise ValueError("concatenate: dimension mismatch")
    k = promote(*[i.k for i in items])
    lib = lib or ("jnp" if any(i.lib == "jnp" for i in items) else "np")
    sizes = [i.shape[axis] for i in items]
    tot = 0
    offs = []
    for s in sizes:
        offs.append(tot)
        tot = dim(lift(tot) + lift(s))
    sh = items[0].shape[:axis] + (tot,) + items[0].shape[axis + 1 :]
    rds = [i.snap() for i in items]

    def fn(idx):
        i = idx[axis]

        def at(j, loc):
            return cast(rds[j](idx[:axis] + (nidx(loc),) + idx[axis + 1 :]), k)

        if isinstance(i, int) and all(isinstance(o, int) for o in offs):
            for j in range(len(items) - 1, -1, -1):
                if i >= offs[j] and not (isinstance(sizes[j], int) and sizes[j] == 0):
                    return at(j, i - offs[j])
            raise IndexError("concatenate")
        li = lift(i)
        live = [
            j for j in range(len(items)) if not (isinstance(sizes[j], int) and sizes[j] == 0)
        ]
        if not live:
            return cast(lift(0), k)
        r = at(live[-1], li - offs[live[-1]])
        for j in reversed(live[:-1]):
            end = lift(offs[j]) + lift(sizes[j])
            c = li < end
            if c.conc:
                if c.v:
                    r = at(j, li - offs[j])
                continue
            r = ite(c, at(j, li - offs[j]), r)
        return r

    return Arr(sh, fn, k, lib).narrow(wjoin(items, ()))


def matmul(a, b):
    from . import reduce

    a, b = as_arr(a), as_arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return reduce.rsum(a * b, 0)
    if a.ndim == 2 and b.ndim == 1:
        return reduce.rsum(a * b[None, :], 1)
    if a.ndim == 1 and b.ndim == 2:
        return reduce.rsum(a[:, None] * b, 0)
    if a.ndim == 2 and b.ndim == 2:
        return reduce.rsum(a[:, :, None] * b[None, :, :], 1)
    raise Unsupported("matmul ranks")


# ------------------------------------------------------------------ reshape
def reshape(a, shape):
    a = as_arr(a)
    if is_scalar(shape):
        shape = (shape,)
    shape = [
        d if isinstance(d, int) and not isinstance(d, bool) else dim(d) for d in shape
    ]
    if any(isinstance(d, int) and d == -1 for d in shape):
        p = shape.index(-1)
        known = dim_prod([d for j, d in enumerate(shape) if j != p])
        # cancel per-dimension factors
        q = dim_div(dim_prod(a.shape), known)
        if q is None:
            raise Unsupported("reshape: cannot infer -1")
        shape[p] = q
    shape = tuple(shape)
    tot_a, tot_b = dim_prod(a.shape), dim_prod(shape)
    if not dim_eq(tot_a, tot_b):
        if isinstance(tot_a, int) and isinstance(tot_b, int):
            raise ValueError("cannot reshape")
        raise Unsupported(f"reshape: sizes not provably equal {a.shape} {shape}")
    groups = _groups(list(a.shape), list(shape))

    def mapper(groups):
        def bm(idx):
            out = []
            for ga, gb in groups:
                ib = [idx[j] for j, _ in gb]
                db = [d for _, d in gb]
                da = [d for _, d in ga]
                if len(da) == 1 and len(db) == 1:
                    out.append(ib[0])
                    continue
                flat = ravel_index(ib, db)
                out.extend(unravel_index(flat, da))
            return tuple(out)

        return bm

    bm = mapper(groups)
    rd = a.snap()
    if a.lib == "jnp":
        r = Arr(shape, lambda idx: rd(bm(idx)), a.k, a.lib)
    else:

        def bset(v):
            a[...] = reshape(Arr(v.shape, v.snap(), v.k), a.shape)

        r = Arr(shape, None, a.k, a.lib, base=a, bmap=bm, bset=bset)
    return unwrap(r)


def _groups(da, db):
    """Split two shapes into matched groups with equal products."""
    ga, gb, out = [], [], []
    i = j = 0
    A = [(n, d) for n, d in enumerate(da)]
    B = [(n, d) for n, d in enumerate(db)]
    while i < len(A) or j < len(B):
        ga, gb = [], []
        if i < len(A):
            ga.append(A[i])
            i += 1
        if j < len(B):
            gb.append(B[j])
            j += 1
        while True:
            pa = dim_prod([d for _, d in ga]) if ga else 1
            pb = dim_prod([d for _, d in gb]) if gb else 1
            if dim_eq(pa, pb):
                break
            # extend the side whose product divides the other's
            if dim_div(pb, pa) is not None and i < len(A):
                ga.append(A[i])
                i += 1
            elif j < len(B):
                gb.append(B[j])
                j += 1
            elif i < len(A):
                ga.append(A[i])
                i += 1
            else:
                raise Unsupported("reshape grouping")
        out.append((ga, gb))
    return out


def ravel_index(ib, db):
    flat = None
    for i, d in zip(ib, db):
        if flat is None:
            flat = i
        else:
            if isinstance(flat, int) and flat == 0:
                flat = i
                continue
            flat = flat_index(flat, i, d)
    return 0 if flat is None else flat


def flat_index(hi, lo, d):
    """hi*d + lo, remembered so that it can be split again."""
    if isinstance(hi, int) and isinstance(lo, int) and isinstance(d, int):
        return hi * d + lo
    t = nidx(lift(hi) * lift(d) + lift(lo))
    if not isinstance(t, int) and sym.CUR is not None:
        sym.CUR.register_flat(t, hi, lo, d)
    return t


def unravel_index(flat, da):
    if not da:
        return []
    out = []
    f = flat
    for d in reversed(da[1:]):
        if isinstance(f, int) and isinstance(d, int):
            f, r = divmod(f, d)
        elif isinstance(d, int) and d == 1:
            r = 0
        elif isinstance(f, int) and f == 0:
            r = 0
        else:
            q = lift(f) // lift(d)
            r = lift(f) % lift(d)
            f, r = nidx(q), nidx(r)
        out.append(r)
    out.append(f)
    return list(reversed(out))


# ------------------------------------------------------------------ indexing
def norm_index(i, n, lib, what="index"):
    """Wrap negatives; numpy: bounds obligation, jax: clamp."""
    i = nidx(i)
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        if j < 0 or j >= n:
            if lib == "jnp":
                return min(max(j, 0), n - 1)
            raise IndexError(f"index {i} is out of bounds for size {n}")
        return j
    li, ln = lift(i), lift(n)
    C = sym.CUR
    if isinstance(i, int):
        j = ln + i if i < 0 else li
    elif C.entails(li.term() >= 0):
        j = li
    elif C.entails(li.term() < 0):
        j = li + ln
    else:
        j = ite(li < 0, li + ln, li)
    inb = C.entails(z3.And(j.term() >= 0, j.term() < ln.term()))
    if not inb:
        if lib == "jnp":
            j = sym.smin(sym.smax(j, 0), ln - 1)
        else:
            C.bounds_obligation(j, ln, what)
    return nidx(j)


def _norm_slice(s, n):
    """-> (start, length, step) ; step in {1,-1} or positive int for concrete n"""
    st, sp, step = s.start, s.stop, s.step
    step = 1 if step is None else const_int(step)
    if step is None:
        raise Unsupported("symbolic slice step")

    def c(x):
        if x is None:
            return None
        x = nidx(x)
        return x

    st, sp = c(st), c(sp)
    if isinstance(n, int) and (st is None or isinstance(st, int)) and (
        sp is None or isinstance(sp, int)
    ):
        r = range(*slice(st, sp, step).indices(n))
        return r.start, len(r), step
    if step == -1:
        if st is None and sp is None:
            return nidx(lift(n) - 1), n, -1
        raise Unsupported("reversed partial slice")
    if step != 1:
        raise Unsupported("strided slice of a symbolic dimension")
    ln = lift(n)

    def clampit(x, default):
        if x is None:
            return default
        if isinstance(x, int) and x == 0:
            return 0
        lx = lift(x)
        C = sym.CUR
        if C.entails((lx >= 0).term()):
            v = lx
        elif C.entails((lx < 0).term()):
            v = sym.smax(lx + ln, 0) if not C.entails((lx + ln >= 0).term()) else lx + ln
        else:
            v = ite(lx < 0, sym.smax(lx + ln, 0), lx)
        if C.entails((v <= ln).term()):
            return nidx(v)
        return nidx(sym.smin(v, ln))

    a = clampit(st, 0)
    b = clampit(sp, n)
    length = lift(b) - lift(a)
    if not (length.conc and length.v >= 0):
        if not sym.CUR.entails((length >= 0).term()):
            length = sym.smax(length, 0)
    return a, dim(length), 1


def _parse_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    out = []
    n_used = 0
    for x in key:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, Arr) and x.k == "b":
            n_used += max(x.ndim, 1)
        else:
            n_used += 1
    seen = False
    for x in key:
        if x is Ellipsis:
            seen = True
            out.extend([slice(None)] * (a.ndim - n_used))
        else:
            out.append(x)
    if not seen:
        out.extend([slice(None)] * (a.ndim - n_used))
    if n_used > a.ndim:
        raise IndexError("too many indices for array")
    return out


class _Plan:
    """Resolved index expression: result shape, out-index -> base-index map."""


def plan(a, key, for_set=False):
    key = _parse_key(a, key)
    # expand boolean masks / lists
    items = []  # (kind, payload, base_axis)
    ax = 0
    adv = False
    for x in key:
        if x is None:
            items.append(("new", None, None))
            continue
        if isinstance(x, slice):
            items.append(("slice", _norm_slice(x, a.shape[ax]), ax))
            ax += 1
            continue
        if isinstance(x, (bool,)) and not isinstance(x, int):
            raise Unsupported("scalar boolean index")
        if isinstance(x, (list, range)) or hasattr(x, "__toarr__"):
            x = from_nested(x)
        if isinstance(x, Arr) and x.ndim == 0:
            x = x.get()
        if isinstance(x, Arr):
            if x.k == "b":
                if x.ndim != 1:
                    if x.ndim == a.ndim and for_set:
                        items.append(("fullmask", x, ax))
                        ax += x.ndim
                        adv = True
                        continue
                    raise Unsupported("multi-dimensional boolean mask")
                if not dim_eq(x.shape[0], a.shape[ax]):
                    raise IndexError("boolean index did not match indexed array")
                items.append(("mask", x, ax))
            else:
                if x.k == "r":
                    raise IndexError("arrays used as indices must be of integer type")
                items.append(("arr", x, ax))
            adv = True
            ax += 1
            continue
        if is_scalar(x):
            x = lift(x)
            if x.k == "r":
                raise IndexError("only integers are valid indices")
            items.append(("int", x, ax))
            ax += 1
            continue
        raise Unsupported(f"index of type {type(x).__name__}")
    return items, adv


def getitem(a, key):
    if isinstance(key, str):
        raise Unsupported("string index")
    items, adv = plan(a, key)
    lib = a.lib
    if not adv:
        # basic indexing -> view
        shape = []
        maps = []  # per base axis: ('c', idx) or ('s', out_pos, start, step)
        pos = 0
        for kind, p, ax in items:
            if kind == "new":
                shape.append(1)
                pos += 1
            elif kind == "int":
                maps.append(("c", norm_index(p, a.shape[ax], lib)))
            else:
                st, ln, step = p
                shape.append(ln)
                maps.append(("s", pos, st, step))
                pos += 1

        def bm(idx):
            out = []
            for m in maps:
                if m[0] == "c":
                    out.append(m[1])
                else:
                    _, po, st, step = m
                    i = idx[po]
                    if step == 1 and isinstance(st, int) and st == 0:
                        out.append(i)
                    elif isinstance(i, int) and isinstance(st, int):
                        out.append(st + step * i)
                    else:
                        out.append(nidx(lift(st) + step * lift(i)))
            return tuple(out)

        if not shape:
            return a.snap()(bm(()))
        if lib == "jnp":
            rd = a.snap()
            return Arr(shape, lambda idx: rd(bm(idx)), a.k, lib).narrow(a.w)

        def bset(v):
            setitem(a, key, v)

        return Arr(shape, None, a.k, lib, base=a, bmap=bm, bset=bset)
    return _adv_get(a, items)


def _adv_layout(items):
    """numpy rule: advanced dims go to the position of the first advanced index if all
    advanced indices (ints included) are adjacent, else to the front."""
    pos = [i for i, (k, _, _) in enumerate(items) if k in ("arr", "mask", "int")]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    return contiguous, pos[0]


def _adv_arrays(a, items):
    from . import reduce

    arrs = []
    for kind, p, ax in items:
        if kind == "arr":
            arrs.append(p)
        elif kind == "mask":
            arrs.append(reduce.mask_sel(p))
        elif kind == "int":
            arrs.append(None)
    sh = bshape(*[x.shape for x in arrs if x is not None])
    return arrs, sh


def _adv_get(a, items):
    lib = a.lib
    arrs, ash = _adv_arrays(a, items)
    contiguous, first = _adv_layout(items)
    nadv = len(ash)
    # output shape
    shape = []
    adv_pos = None
    sl = []  # (base_axis, out_pos, start, step)
    adv_items = []
    if not contiguous:
        adv_pos = 0
        shape.extend(ash)
    ai = 0
    for n, (kind, p, ax) in enumerate(items):
        if kind in ("arr", "mask", "int"):
            if adv_pos is None:
                adv_pos = len(shape)
                shape.extend(ash)
            if kind == "int":
                adv_items.append((ax, None, None, p))
            else:
                x = arrs[ai]
                adv_items.append((ax, x.snap(), x.shape, None))
            ai += 1
        elif kind == "new":
            shape.append(1)
        else:
            st, ln, step = p
            sl.append((ax, len(shape), st, step))
            shape.append(ln)
    rd = a.snap()
    nd = a.ndim
    dims = a.shape
    masks = {ax: (kind == "mask") for kind, _, ax in items if kind != "new"}

    def fn(idx):
        out = [None] * nd
        aidx = idx[adv_pos : adv_pos + nadv]
        for ax, xr, xs, c in adv_items:
            v = c if xr is None else xr(bidx(aidx, xs, nadv))
            if masks[ax]:
                out[ax] = nidx(v)
            else:
                out[ax] = norm_index(v, dims[ax], lib)
        for ax, po, st, step in sl:
            i = idx[po]
            if step == 1 and isinstance(st, int) and st == 0:
                out[ax] = i
            else:
                out[ax] = nidx(lift(st) + step * lift(i))
        return rd(tuple(out))

    if not shape:
        return fn(())
    return Arr(shape, fn, a.k, lib).narrow(a.w)


def setitem(a, key, val):
    if a.lib == "jnp":
        raise TypeError("JAX arrays are immutable")
    if a.base is not None:
        # write through: rebuild this view's content and store it in the base
        tmp = Arr(a.shape, a.snap(), a.k)
        setitem(tmp, key, val)
        a.bset(tmp)
        return
    items, adv = plan(a, key, for_set=True)
    old = a.snap()
    k = a.k
    v = as_arr(val)
    vrd, vsh = v.snap(), v.shape

    if any(kind == "fullmask" for kind, _, _ in items):
        m = items[0][1]
        mr = m.snap()
        if v.ndim != 0:
            raise Unsupported("array value into full boolean mask")
        a._replace(lambda idx: ite(mr(idx), cast(vrd(()), k), old(idx)))
        return

    def sval(oidx, nd):
        off = nd - len(vsh)
        if off < 0:
            # leading ones allowed
            lead = -off
            if any(not (isinstance(d, int) and d == 1) for d in vsh[:lead]):
                raise ValueError("could not broadcast input array")
            ii = tuple([0] * lead) + bidx(oidx, vsh[lead:], nd)
            return cast(vrd(ii), k)
        return cast(vrd(bidx(oidx, vsh, nd)), k)

    if not adv:
        outshape = []
        spec = []
        for kind, p, ax in items:
            if kind == "new":
                outshape.append(1)
                continue
            if kind == "int":
                spec.append((ax, "c", norm_index(p, a.shape[ax], "np"), None, None, None))
            else:
                st, ln, step = p
                spec.append((ax, "s", st, ln, step, len(outshape)))
                outshape.append(ln)
        _check_b(vsh, outshape)
        nd = len(outshape)

        def fn(idx):
            cond = S(True, "b")
            oidx = [0] * nd
            for ax, t, st, ln, step, po in spec:
                i = idx[ax]
                if t == "c":
                    cond = cond & eq_idx(i, st)
                else:
                    if step == 1 and isinstance(st, int) and st == 0 and dim_eq(
                        ln, a.shape[ax]
                    ):
                        oidx[po] = i
                        continue
                    if step == 1:
                        j = nidx(lift(i) - lift(st))
                        if isinstance(st, int) and st == 0:
                            c = lift(i) < lift(ln)
                        else:
                            c = (lift(j) >= 0) & (lift(j) < lift(ln))
                        cond = cond & c
                        oidx[po] = j
                    elif step == -1 and dim_eq(ln, a.shape[ax]):
                        oidx[po] = nidx(lift(st) - lift(i))
                    else:
                        raise Unsupported("strided assignment")
                if cond.conc and not cond.v:
                    return old(idx)
            if cond.conc:
                return sval(tuple(oidx), nd) if cond.v else old(idx)
            return ite(cond, sval(tuple(oidx), nd), old(idx))

        a._replace(fn)
        return
    _adv_set(a, items, old, sval, vsh)


def _check_b(vsh, outshape):
    b = bshape(tuple(vsh), tuple(outshape))
    if len(b) > len(outshape):
        if any(not (isinstance(d, int) and d == 1) for d in b[: len(b) - len(outshape)]):
            raise ValueError("could not broadcast input array into shape")
        b = b[len(b) - len(outshape) :]
    if not all(dim_eq(x, y) for x, y in zip(b, outshape)):
        raise ValueError("could not broadcast input array into shape")


def _adv_set(a, items, old, sval, vsh):
    from . import reduce

    arrs, ash = _adv_arrays(a, items)
    contiguous, first = _adv_layout(items)
    nadv = len(ash)
    if nadv != 1:
        if nadv == 0:
            raise Unsupported("0-d advanced assignment")
        raise Unsupported("multi-dimensional advanced assignment")
    shape = []
    adv_pos = None
    if not contiguous:
        adv_pos = 0
        shape.extend(ash)
    info = []
    ai = 0
    for kind, p, ax in items:
        if kind in ("arr", "mask", "int"):
            if adv_pos is None:
                adv_pos = len(shape)
                shape.extend(ash)
            info.append((kind, p, ax, arrs[ai]))
            ai += 1
        elif kind == "new":
            shape.append(1)
        else:
            st, ln, step = p
            if not (step == 1 and isinstance(st, int) and st == 0 and dim_eq(ln, a.shape[ax])):
                raise Unsupported("partial slice with advanced assignment")
            info.append(("slice", len(shape), ax, None))
            shape.append(ln)
    _check_b(vsh, shape)
    nd = len(shape)
    n = ash[0]
    drivers = [x for x in info if x[0] in ("mask", "arr") and x[3].tag]

    if isinstance(n, int) and not drivers:
        # concrete number of advanced positions: sequential point updates (last wins)
        def fn(idx):
            res = old(idx)
            for m in range(n):
                cond = S(True, "b")
                oidx = [0] * nd
                oidx[adv_pos] = m
                for kind, p, ax, x in info:
                    if kind == "slice":
                        oidx[p] = idx[ax]
                        continue
                    if kind == "int":
                        v = norm_index(p, a.shape[ax], "np")
                    else:
                        v = x.snap()(bidx((m,), x.shape, 1))
                        v = norm_index(v, a.shape[ax], "np")
                    cond = cond & eq_idx(idx[ax], v)
                    if cond.conc and not cond.v:
                        break
                if cond.conc:
                    if cond.v:
                        res = sval(tuple(oidx), nd)
                    continue
                res = ite(cond, sval(tuple(oidx), nd), res)
            return res

        a._replace(fn)
        return
    # symbolic count: need an injective driver (mask or where()-index) to invert
    if not drivers:
        # identity-like index arrays (arange)
        inv = [x for x in info if x[0] == "arr" and getattr(x[3], "affine", None)]
        if not inv:
            raise Unsupported("advanced assignment through a general index array")
        kind, p, ax0, x0 = inv[0]
        st = x0.affine  # x(m) = st + m

        def fn(idx):
            m = nidx(lift(idx[ax0]) - lift(st))
            cond = (lift(m) >= 0) & (lift(m) < lift(n))
            oidx = [0] * nd
            oidx[adv_pos] = m
            for kind, p, ax, x in info:
                if kind == "slice":
                    oidx[p] = idx[ax]
                elif ax == ax0:
                    continue
                elif kind == "int":
                    cond = cond & eq_idx(idx[ax], norm_index(p, a.shape[ax], "np"))
                else:
                    v = norm_index(x.snap()(bidx((m,), x.shape, 1)), a.shape[ax], "np")
                    cond = cond & eq_idx(idx[ax], v)
            return ite(cond, sval(tuple(oidx), nd), old(idx))

        a._replace(fn)
        return
    kind, p, ax0, x0 = drivers[0]
    mask = x0.tag[1]

    def fn(idx):
        i = idx[ax0]
        cond = mask.snap()((i,))
        if cond.conc and not cond.v:
            return old(idx)
        m = reduce.mask_rank(mask, i)
        oidx = [0] * nd
        oidx[adv_pos] = m
        for kind, p, ax, x in info:
            if kind == "slice":
                oidx[p] = idx[ax]
            elif ax == ax0:
                continue
            elif kind == "int":
                cond = cond & eq_idx(idx[ax], norm_index(p, a.shape[ax], "np"))
            else:
                with sym.CUR.guarded(cond):
                    v = norm_index(
                        x.snap()(bidx((m,), x.shape, 1)), a.shape[ax], "np"
                    )
                cond = cond & eq_idx(idx[ax], v)
            if cond.conc and not cond.v:
                return old(idx)
        with sym.CUR.guarded(cond):
            val = sval(tuple(oidx), nd)
        return ite(cond, val, old(idx))

    a._replace(fn)
