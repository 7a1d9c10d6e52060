"""Reductions, boolean selection and search over (possibly symbolic) axes."""
from __future__ import annotations

from fractions import Fraction

import z3

from . import sym
from .arr import (
    Arr,
    as_arr,
    dim,
    dim_eq,
    eq_idx,
    ikey,
    nidx,
    pick,
    reshape,
    unwrap,
    const_arr,
)
from .sym import S, Unsupported, ite, lift, lnot, is_scalar


def _axis_reader(a, axis):
    rd = a.snap()

    def at(rest, i):
        return rd(rest[:axis] + (i,) + rest[axis:])

    return at


def _reduce(a, axis, keepdims, f, k):
    """f(list_or_(reader,n)) -> S ; builds the reduced array."""
    a = as_arr(a)
    if axis is None:
        if a.ndim == 0:
            return f(lambda i: a.get(), 1)
        if a.ndim > 1:
            a = reshape(a, (-1,)) if any(
                not isinstance(d, int) for d in a.shape
            ) else reshape(a, (-1,))
        axis = 0
    if isinstance(axis, (tuple, list)):
        if len(axis) == 1:
            axis = axis[0]
        else:
            # sums, extrema, any and all over several axes: one after the other
            for x in sorted((x % a.ndim for x in axis), reverse=True):
                a = _reduce(a, x, keepdims, f, k)
                a = a if isinstance(a, Arr) else as_arr(a)
            return unwrap(a)
    axis = axis % a.ndim
    n = a.shape[axis]
    at = _axis_reader(a, axis)
    sh = a.shape[:axis] + a.shape[axis + 1 :]
    res = Arr(sh, lambda rest: f(lambda i: at(rest, i), n), k, a.lib)
    if keepdims:
        full = a.shape[:axis] + (1,) + a.shape[axis + 1 :]
        rd = res.snap()
        return Arr(full, lambda idx: rd(idx[:axis] + idx[axis + 1 :]), k, a.lib)
    return unwrap(res)


def rsum(a, axis=None, keepdims=False):
    a = as_arr(a)
    k = "i" if a.k == "b" else a.k

    def f(rd, n):
        if isinstance(n, int):
            tot = lift(0) if k == "i" else S(Fraction(0), "r")
            for i in range(n):
                x = rd(i)
                tot = tot + (x.as_int() if x.k == "b" else x)
            return tot
        if a.k == "b":
            m = Arr((n,), lambda idx: rd(idx[0]), "b")
            return mask_info(m).count_s()
        return sum_term(rd, n)

    return _reduce(a, axis, keepdims, f, k)


def sum_term(rd, n):
    C = sym.CUR
    n = dim(n)
    b = C.bound_var(n)
    with C.bound(b, n):
        body = rd(S(b, "i"))
    body = body.as_real() if body.k != "r" else body
    t = C.simp(body.term())
    with C.bound(b, n):
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not any(z3.is_real(x) for x in t.arg(0).children()):
            if C.entails(t.arg(0)):
                t = t.arg(1)
            elif C.entails(z3.Not(t.arg(0))):
                t = t.arg(2)
            else:
                break
    den = None
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV and not _occurs(t.arg(1), b):
        t, den = t.arg(0), t.arg(1)  # lemmas/Engine.lean: sum_scaled
    bad = body.bad
    if bad is not None and bad is not True:
        # some element may be non-finite: over-approximate by a fresh flag
        bad = C.exists_flag(b, n, bad)
    if not _occurs(t, b):
        r = S(t if den is None else t / den, "r") * lift(n)
        return S(r.v, "r", bad)
    t = C.sum_const(b, n, t)
    return S(t if den is None else t / den, "r", bad)


def convolve(a, b, lib=None):
    """numpy.convolve(a, b), full, for symbolic lengths.

    Element k is the sum over j < na of a[j] * b[k - j] where k - j is an index of b
    (lemmas/Engine.lean: conv_comm, conv_total, sum_peel: the order does not matter, the elements
    sum to sum(a) * sum(b), and the first element of a sum may be taken out).
    """
    C = sym.CUR
    na, nb = lift(a.shape[0]), lift(b.shape[0])
    C.prove("convolve: neither argument is empty", (na > 0) & (nb > 0), kind="pre")
    ra, rb = a.snap(), b.snap()

    def one(k, rx, nx, ry, ny):
        def body(j):
            d = lift(k) - lift(j)
            ok = (d >= 0) & (d < ny)
            x = rx((j,))
            x = x.as_real() if x.k != "r" else x
            with C.guarded(ok.term()):
                y = ry((nidx(d),))
                y = y.as_real() if y.k != "r" else y
            return ite(ok, x * y, S(Fraction(0), "r"))

        return sum_term(body, dim(nx))

    def term(k):
        t = one(k, ra, na, rb, nb)
        C.assume(t == one(k, rb, nb, ra, na))  # lemmas/Engine.lean: conv_comm
        return t

    n = dim(na + nb - 1)
    res = Arr((n,), lambda ix: term(ix[0]), "r", lib)
    tot = [sum_term(lambda i, r=r: r((i,)), d) for r, d in ((ra, a.shape[0]), (rb, b.shape[0]))]
    C.notes.add("a convolution sums to the product of the sums (lemmas/Engine.lean: conv_total)")
    C.assume(sum_term(term, n) == tot[0] * tot[1])
    for r, d, t in ((ra, na, tot[0]), (rb, nb, tot[1])):
        rest = sum_term(lambda i, r=r: r((nidx(lift(i) + 1),)), dim(d - 1))
        C.assume(t == r((0,)) + rest)
    return res


def _occurs(t, b):
    seen = set()
    deps = sym.CUR.deps if sym.CUR is not None else {}
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(b):
            return True
        if deps and z3.is_app(x) and b.get_id() in deps.get(x.decl().name(), ()):
            return True
        st.extend(x.children())
    return False


def rfold(a, axis, op, keepdims=False):
    a = as_arr(a)

    def f(rd, n):
        if not isinstance(n, int):
            raise Unsupported("max/min over a symbolic axis")
        r = rd(0)
        for i in range(1, n):
            r = op(r, rd(i))
        return r

    return _reduce(a, axis, keepdims, f, a.k)


def rany(a, axis=None):
    a = as_arr(a)

    def f(rd, n):
        if isinstance(n, int):
            r = S(False, "b")
            for i in range(n):
                r = r | rd(i).as_bool()
            return r
        m = Arr((n,), lambda idx: rd(idx[0]).as_bool(), "b")
        return mask_info(m).count_s() > 0

    return _reduce(a, axis, False, f, "b")


def rall(a, axis=None):
    a = as_arr(a)

    def f(rd, n):
        if isinstance(n, int):
            r = S(True, "b")
            for i in range(n):
                r = r & rd(i).as_bool()
            return r
        m = Arr((n,), lambda idx: lnot(rd(idx[0]).as_bool()), "b")
        c = mask_info(m).count_s()
        return c == 0

    return _reduce(a, axis, False, f, "b")


def argmax(a, axis=None):
    a = as_arr(a)
    if sym.CUR is not None:
        sym.CUR.maximised.append((a.shape, a.snap()))

    def f(rd, n):
        if not isinstance(n, int):
            raise Unsupported("argmax over a symbolic axis")
        best, bi = rd(0), lift(0)
        for i in range(1, n):
            x = rd(i)
            c = x > best
            best, bi = ite(c, x, best), ite(c, lift(i), bi)
        return S(bi.v, "i", best.bad)

    return _reduce(a, axis, False, f, "i")


# ------------------------------------------------------------------ boolean selection
class MaskInfo:
    def __init__(self, mid, reader, n):
        self.mid, self.rd, self.n = mid, reader, n
        self.cnt = z3.Int(f"cnt!{mid}")
        self.sel = z3.Function(f"sel!{mid}", z3.IntSort(), z3.IntSort())
        self.rank = z3.Function(f"rank!{mid}", z3.IntSort(), z3.IntSort())
        self.rank_of = {}
        self.keep = []
        self.conc = None
        self.ival = None  # (lo, hi): the mask is exactly lo <= i < hi

    def count_s(self):
        if self.conc is not None:
            return lift(len(self.conc))
        if self.ival is not None:
            return self.ival[1] - self.ival[0]
        return S(self.cnt, "i")


def _interval(C, body, b, n):
    """(lo, hi) with body <=> lo <= b < hi on 0 <= b < n, for recognised forms.

    b < c;  b div d < c;  b div d == c   (d > 0).
    """
    ln = lift(n)

    def split(t):  # t = b or b div d -> d
        if t.eq(b):
            return lift(1)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_IDIV and t.arg(0).eq(b) and not _occurs(t.arg(1), b):
            d = S(t.arg(1), "i") if not z3.is_int_value(t.arg(1)) else lift(t.arg(1).as_long())
            if C.entails((d > 0).term()):
                return d
        return None

    def num(t):
        return lift(t.as_long()) if z3.is_int_value(t) else S(t, "i")

    neg = False
    if z3.is_not(body):
        neg, body = True, body.arg(0)
    if z3.is_true(body):
        return lift(0), ln
    if z3.is_false(body):
        return lift(0), lift(0)
    if not z3.is_app(body) or body.num_args() != 2 or not z3.is_int(body.arg(0)):
        return None
    k, x, y = body.decl().kind(), body.arg(0), body.arg(1)
    d = split(x)
    if d is None or _occurs(y, b):
        d = split(y)
        if d is None or _occurs(x, b):
            return None
        x, y = y, x
        k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
    c = num(y)
    if neg:
        k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
    zero = lift(0)
    if k == z3.Z3_OP_LT:
        lo, hi = zero, c * d
    elif k == z3.Z3_OP_LE:
        lo, hi = zero, (c + 1) * d
    elif k == z3.Z3_OP_GE:
        lo, hi = c * d, ln
    elif k == z3.Z3_OP_GT:
        lo, hi = (c + 1) * d, ln
    elif k == z3.Z3_OP_EQ:
        lo, hi = c * d, (c + 1) * d
    else:
        return None
    # clip to the axis
    def norm(v):
        if v.conc:
            return v
        q = S(z3.simplify(v.term()), "i")
        if C.entails(q.term() <= 0):
            return zero
        if C.entails(q.term() >= ln.term()):
            return ln
        if C.entails(z3.And(q.term() >= 0, q.term() <= ln.term())):
            return q
        return None

    lo, hi = norm(lo), norm(hi)
    if lo is None or hi is None or not C.entails((lo <= hi).term()):
        return None
    return lo, hi


def mask_info(m: Arr) -> MaskInfo:
    C = sym.CUR
    rd = m.snap()
    n = m.shape[0]
    rdb = lambda i: rd((nidx(i),)).as_bool()
    if isinstance(n, int):
        vals = [rdb(i) for i in range(n)]
        if all(v.conc for v in vals):
            mi = MaskInfo(C.new_id(), rdb, n)
            mi.conc = [i for i, v in enumerate(vals) if v.v]
            return mi
    b = C.bound_var(n)
    with C.bound(b, n):
        body = C.simp(rdb(S(b, "i")).term())
        if not z3.is_false(body) and C.entails(z3.Not(body)):
            body = z3.BoolVal(False)
        elif not z3.is_true(body) and C.entails(body):
            body = z3.BoolVal(True)
        key = (body.get_id(), b.get_id(), ikey(n) if not isinstance(n, int) else n)
        mi = C.masks.get(key)
        if mi is None and not C.guards and not isinstance(n, int):
            # the same selection written differently
            for k2, m2 in list(C.masks.items()):
                if k2[1:] == key[1:] and C.entails(m2.body[1] == body):
                    mi = C.masks[key] = m2
                    m2.keep.append((body, b))
                    break
    if mi is None:
        mi = MaskInfo(C.new_id(), rdb, n)
        mi.keep.append((body, b))
        mi.body = (b, body)
        C.masks[key] = mi
        C.depend([f"cnt!{mi.mid}", f"sel!{mi.mid}", f"rank!{mi.mid}"], body, b)
        iv = _interval(C, body, b, n)
        if iv is not None:
            mi.ival = iv
            C.assume(mi.cnt == (iv[1] - iv[0]).term())
            return mi
        C.assume(mi.cnt >= 0)
        C.assume(mi.cnt <= lift(n).term())
        C.add_schema(n, lambda i, mi=mi: z3.Implies(mi.rd(i).term(), mi.cnt > 0))
        C.assume_some(
            z3.Implies(
                mi.cnt == lift(n).term(), z3.BoolVal(True)
            )
        )
        C.add_schema(
            n,
            lambda i, mi=mi: z3.Implies(
                mi.cnt == lift(mi.n).term(), mi.rd(i).term()
            ),
        )
    return mi


def mask_sel(m: Arr) -> Arr:
    """Array of the positions where m holds (ascending)."""
    C = sym.CUR
    mi = mask_info(m)
    if mi.conc is not None:
        c = list(mi.conc)
        r = Arr((len(c),), lambda idx: pick([lift(x) for x in c], idx[0]), "i")
        if all(j == x for j, x in enumerate(c)):
            r.affine = 0
        return r

    if mi.ival is not None:
        lo = mi.ival[0]
        r = Arr((nidx(mi.count_s()),), lambda idx: lift(idx[0]) + lo, "i")
        r.affine = nidx(lo)
        r.tag = ("sel", m)
        return r

    def fn(idx):
        j = idx[0]
        lj = lift(j)
        if not lj.conc:
            inv = mi.rank_of.get(lj.v.get_id())
            if inv is not None:
                return inv
        t = mi.sel(lj.term())
        if C.once(("sel", mi.mid, ikey(nidx(j)))):
            st = S(t, "i")
            C.keepalive(t)
            C.assume(
                z3.Implies(
                    z3.And(lj.term() >= 0, lj.term() < mi.cnt),
                    z3.And(
                        t >= 0, t < lift(mi.n).term(), mi.rank(t) == lj.term()
                    ),
                )
            )
            C.see(mi.n, st)
            C.assume(
                z3.Implies(
                    z3.And(lj.term() >= 0, lj.term() < mi.cnt), mi.rd(st).term()
                )
            )
        return S(t, "i")

    r = Arr((mi.count_s(),), fn, "i")
    r.tag = ("sel", m)
    return r


def mask_rank(m: Arr, i):
    C = sym.CUR
    mi = mask_info(m)
    if mi.conc is not None:
        i = nidx(i)
        if isinstance(i, int):
            return mi.conc.index(i) if i in mi.conc else 0
        r = lift(0)
        for j, x in enumerate(mi.conc):
            r = ite(eq_idx(i, x), lift(j), r)
        return r
    if mi.ival is not None:
        return lift(i) - mi.ival[0]
    li = lift(i)
    # the index may itself be sel(j)
    if not li.conc and z3.is_app(li.v) and li.v.decl().eq(mi.sel):
        return S(li.v.arg(0), "i")
    t = mi.rank(li.term())
    mi.rank_of[t.get_id()] = li
    C.keepalive(t)
    if C.once(("rank", mi.mid, ikey(nidx(i)))):
        C.assume(
            z3.Implies(
                z3.And(
                    li.term() >= 0, li.term() < lift(mi.n).term(), mi.rd(li).term()
                ),
                z3.And(t >= 0, t < mi.cnt, mi.sel(t) == li.term()),
            )
        )
    return S(t, "i")


def nonzero(c):
    c = as_arr(c)
    if c.k != "b":
        c = c != 0
    if c.ndim != 1:
        raise Unsupported("nonzero of multi-dimensional array")
    # freeze the mask content
    m = c.copy()
    return (mask_sel(m),)


# ------------------------------------------------------------------ searchsorted
def searchsorted(grid, x, side="left"):
    C = sym.CUR
    grid = as_arr(grid)
    n = grid.shape[0]
    rd = grid.snap()

    if isinstance(n, int) and n <= 16:
        # number of grid points strictly below (left) / not above (right) x; exact for
        # sorted grids, which is searchsorted's precondition
        def one(v):
            r = lift(0)
            for i in range(n):
                g = rd((i,))
                c = (g < v) if side == "left" else (g <= v)
                r = r + c.as_int()
            return S(r.v, "i", v.bad)

        if is_scalar(x):
            return one(lift(x))
        x = as_arr(x)
        xr = x.snap()
        return Arr(x.shape, lambda idx: one(xr(idx)), "i", x.lib)

    gid = C.intern_fun(rd, n)
    F = C.ufun(f"ss_{side}!{gid}", [z3.RealSort()], z3.IntSort())

    def one(v):
        v = v.as_real()
        t = F(v.term())
        if C.once(("ss", side, gid, v.term().get_id())):
            C.keepalive(t)
            ts = S(t, "i")
            ln = lift(n)
            C.assume(z3.And(t >= 0, t <= ln.term()))
            lo = rd((nidx(ts - 1),))
            hi = rd((nidx(ts),))
            vt = v.term()
            if side == "right":
                C.assume(z3.Implies(t > 0, lo.term() <= vt))
                C.assume(z3.Implies(t < ln.term(), hi.term() > vt))
            else:
                C.assume(z3.Implies(t > 0, lo.term() < vt))
                C.assume(z3.Implies(t < ln.term(), hi.term() >= vt))
        return S(t, "i", v.bad)

    if is_scalar(x):
        return one(lift(x))
    x = as_arr(x)
    xr = x.snap()
    return Arr(x.shape, lambda idx: one(xr(idx)), "i", x.lib)
