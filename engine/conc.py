"""Concrete side of the contracts: real code, real numpy/jax/pandas, sampled inputs.

Used for (a) replaying verifier counter-models on the real code, (b) the concrete search
that accompanies a failed obligation, (c) bounded stand-ins.  Never counted as proof.
"""
from __future__ import annotations

import itertools
import math
import os
from types import SimpleNamespace

import numpy as np

from .base import Reject

RTOL = 1e-7


class Violation(Exception):
    def __init__(self, name, detail):
        self.name, self.detail = name, detail
        super().__init__(f"{name}: {detail}")


def _np(x):
    return np.asarray(x)


class ConcG:
    symbolic = False

    def __init__(self, rng, model=None, scale=None):
        self.rng = rng
        self.model = model or {}
        self.names = {}
        self.edge = rng.random() < 0.3
        self.big = int(rng.integers(0, 4)) if rng.random() < 0.2 else -1  # one dimension beyond its usual range
        self.ndims = 0
        self.ties = rng.random() < 0.3  # this input has exactly equal values
        self.pool = []

    # -- helpers
    def _m(self, name):
        return self.model.get(name) if self.model else None

    def _log(self, name, v):
        self.names[name] = v
        return v

    def dim(self, name, lo=1, hi=None, conc=None):
        v = self._m(name)
        if v is None:
            a, b = conc if conc else (lo, min(hi if hi is not None else lo + 4, lo + 4))
            if self.ndims == self.big and b > a:
                b = b + 3 * (b - a) + 2 if hi is None else hi
            self.ndims += 1
            v = int(self.rng.integers(a, b + 1))
        v = int(v)
        if v < lo or (hi is not None and v > hi):
            raise Reject(name)
        if v > 5000:
            raise Reject("dimension too large to replay")
        return self._log(name, v)

    def int(self, name, lo=None, hi=None, conc=None):
        v = self._m(name)
        if v is None:
            if conc is not None:
                v = conc(self.rng) if callable(conc) else self.rng.integers(conc[0], conc[1] + 1)
            else:
                a = lo if lo is not None else (hi - 6 if hi is not None else -3)
                b = hi if hi is not None else a + 6
                if self.edge and self.rng.random() < 0.5:
                    v = a if self.rng.random() < 0.5 else b
                else:
                    v = self.rng.integers(int(a), int(b) + 1)
        v = int(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject(name)
        return self._log(name, v)

    def bool(self, name):
        v = self._m(name)
        if v is None:
            v = self.rng.random() < 0.5
        return self._log(name, bool(v))

    def _real(self, lo, hi, slo, shi):
        a = lo if lo is not None else slo
        b = hi if hi is not None else shi
        r = self.rng
        if a is None and b is None:
            v = r.normal() * 3
        elif b is None:
            v = a + r.exponential() * r.choice([0.1, 1.0, 30.0])
        elif a is None:
            v = b - r.exponential() * 3
        else:
            v = a + (b - a) * r.random()
        u = r.random()
        if u < 0.08 and lo is not None:
            v = lo
        elif u < 0.16 and hi is not None:
            v = hi
        elif u < 0.2 and a is None and b is None:
            v = 0.0
        return float(v)

    def _check(self, name, v, lo, hi, slo, shi):
        if not math.isfinite(v):
            raise Reject(name)
        if lo is not None and v < lo - 0 or hi is not None and v > hi:
            raise Reject(name)
        if slo is not None and v <= slo or shi is not None and v >= shi:
            raise Reject(name)

    def real(self, name, lo=None, hi=None, slo=None, shi=None, conc=None, snap=None):
        """snap: values (thresholds) where the real should sometimes land exactly."""
        v = self._m(name)
        if v is None:
            if snap is not None and self.rng.random() < 0.3:
                v = float(self.rng.choice(np.asarray(snap, dtype=float)))
            elif conc is not None:
                if callable(conc):
                    v = conc(self.rng)
                else:
                    v = self._real(conc[0], conc[1], None, None)
            else:
                v = self._real(lo, hi, slo, shi)
            # ties: an earlier value again, where it is admissible here
            if self.ties and self.pool and not callable(conc) and self.rng.random() < 0.4:
                c = conc if isinstance(conc, tuple) else (None, None)
                los = [float(x) for x in (lo, c[0]) if x is not None]
                his = [float(x) for x in (hi, c[1]) if x is not None]
                ok = [w for w in self.pool if all(w >= x for x in los) and all(w <= x for x in his)
                      and (slo is None or w > float(slo)) and (shi is None or w < float(shi))]
                if ok:
                    v = ok[-1] if self.rng.random() < 0.5 else ok[int(self.rng.integers(0, len(ok)))]
            self.pool.append(float(v))
        v = float(v)
        self._check(name, v, *(None if x is None else float(x) for x in (lo, hi, slo, shi)))
        return self._log(name, v)

    def num(self, x):
        return float(x)

    def arr(self, name, shape, k="r", lo=None, hi=None, slo=None, shi=None, conc=None,
            lib="np", fact=None, snap=None, dtype=None):
        shape = tuple(int(d) for d in shape)
        m = self._m(name)
        if conc is not None:
            a = np.array(conc(self.rng, shape))
        elif k == "r":
            a = np.array(
                [self._real(lo, hi, slo, shi) for _ in range(int(np.prod(shape)))]
            ).reshape(shape)
            if snap is not None:
                sn = np.asarray(snap, dtype=float).ravel()
                mask = self.rng.random(shape) < 0.3
                a = np.where(mask, self.rng.choice(sn, size=shape), a)
            if self.ties and a.size > 1 and self.rng.random() < 0.5:
                few = self.rng.choice(a.ravel(), size=max(1, int(a.size) // 3))
                a = np.where(self.rng.random(shape) < 0.5, self.rng.choice(few, size=shape), a)
        elif k == "i":
            l = int(lo) if lo is not None else 0
            h = int(hi) if hi is not None else l + 5
            a = self.rng.integers(l, h + 1, size=shape)
        else:
            a = self.rng.random(shape) < 0.5
        a = a.astype({"r": float, "i": np.int64, "b": bool}[k])
        if m is not None:
            e = m.get("else")
            if e is not None:
                a[...] = e
            for key, v in m.items():
                if key == "else" or v is None:
                    continue
                idx = tuple(int(x) for x in key.split(",")) if key else ()
                if len(idx) == a.ndim and all(0 <= i < d for i, d in zip(idx, shape)):
                    a[idx] = v
        if k == "r":
            for v in a.ravel():
                self._check(name, v, lo, hi, slo, shi)
        elif k == "i":
            for v in a.ravel():
                if lo is not None and v < lo or hi is not None and v > hi:
                    raise Reject(name)
        if fact is not None:
            o = ConcO(None)
            for idx in itertools.product(*[range(d) for d in shape]):
                c = fact(o, a[idx], idx)
                if c is not None and not bool(c):
                    raise Reject(name)
        self.names[name] = a.tolist() if a.size < 60 else f"array{a.shape}"
        return self._lib(a, lib, dtype)

    def _lib(self, a, lib, dtype=None):
        if dtype is not None:
            a = a.astype(dtype)
        if lib == "jnp":
            import jax.numpy as jnp

            return jnp.asarray(a)
        return a

    def table(self, name, levels, col, vals):
        import pandas as pd

        lv = [range(int(a), int(a) + int(s)) for _, a, s in levels]
        names = [n for n, _, _ in levels]
        ix = pd.MultiIndex.from_product(lv, names=names) if len(lv) > 1 else pd.Index(lv[0], name=names[0])
        path = os.path.abspath(f"table_{name}.pkl")  # (the runner's scratch directory)
        pd.DataFrame(np.asarray(vals).ravel(), index=ix, columns=[col]).to_pickle(path)
        return path

    def labelled(self, labels, names, col, vals):
        import pandas as pd

        ix = pd.MultiIndex.from_tuples(labels, names=names)
        return pd.DataFrame([float(v) for v in vals], index=ix, columns=[col])

    def pickled(self, name, frame):
        path = os.path.abspath(f"frame_{name}.pkl")
        frame.to_pickle(path)
        return path

    def yaml(self, name, obj):
        import yaml

        def plain(x):
            if isinstance(x, dict):
                return {k: plain(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [plain(v) for v in x]
            if hasattr(x, "tolist"):
                return x.tolist()
            return x

        path = os.path.abspath(f"spec_{name}.yml")
        with open(path, "w") as f:
            yaml.safe_dump(plain(obj), f)
        return path

    def define(self, name, shape, fn, k="r", lib="np", dtype=None):
        shape = tuple(int(d) for d in shape)
        o = ConcO(None)
        a = np.zeros(shape, dtype={"r": float, "i": np.int64, "b": bool}[k])
        for idx in itertools.product(*[range(d) for d in shape]):
            a[idx] = fn(o, *idx)
        return self._lib(a, lib, dtype)

    def grid(self, name, n, lib="jnp", lo=None, hi=None):
        n = int(n)
        m = self._m(name)
        l = lo if lo is not None else self.rng.choice([0.0, 0.0, 0.1, -0.2])
        h = hi if hi is not None else l + self.rng.choice([1.0, 1.0, 0.7, 3.0])
        steps = self.rng.random(max(n - 1, 0)) + 0.05
        if self.rng.random() < 0.3:
            steps[:] = 1
        a = l + (h - l) * np.concatenate([[0.0], np.cumsum(steps)]) / max(steps.sum(), 1e-9)
        if m is not None:
            try:
                a = np.array([float(m[str(i)]) for i in range(n)])
            except (KeyError, TypeError):
                pass
        if np.any(np.diff(a) <= 0):
            raise Reject(name)
        self.names[name] = a.tolist()
        return self._lib(a, lib)

    def assume(self, c):
        if not bool(c):
            raise Reject("assume")

    def ns(self, **kw):
        return SimpleNamespace(**kw)

    def choice(self, name, options):
        """concrete-only choice among options (symbolic side: use cases)"""
        return options[int(self.rng.integers(0, len(options)))]


class ConcO:
    symbolic = False
    MAX_POINTS = 400

    def __init__(self, rng):
        self.rng = rng
        self.cache = {}
        self.n = 0
        self.n_skipped = 0

    def where(self, c, a, b):
        return a if bool(c) else b

    def exp(self, x):
        return math.exp(x) if x < 700 else math.inf

    def log(self, x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def pow(self, x, y):
        try:
            r = float(x) ** float(y)
            return math.nan if isinstance(r, complex) else r
        except ZeroDivisionError:
            return math.inf
        except OverflowError:
            return math.inf

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def max(self, a, b):
        return a if a >= b else b

    def min(self, a, b):
        return a if a <= b else b

    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not bool(a)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def real(self, x):
        return float(x)

    def num(self, x):
        return float(x) if isinstance(x, str) else x

    def int(self, x):
        return int(x)

    def pick(self, xs, i):
        return xs[int(i)]

    eps = float(np.finfo(float).eps)

    def general(self, vals, facts=()):
        return list(vals)

    def opaque(self, name, args, defn):
        return defn()

    def hermite(self, n, which, i):
        from numpy.polynomial.hermite import hermgauss

        key = ("herm", int(n))
        if key not in self.cache:
            self.cache[key] = hermgauss(int(n))
        return float(self.cache[key][which][int(i)])

    def normal(self, seed, shape, *idx, pos=0, stream=""):
        key = ("normal", int(seed), tuple(int(d) for d in shape))
        if key not in self.cache:
            self.cache[key] = np.random.RandomState(int(seed)).normal(0, 1, key[2])
        return float(self.cache[key][tuple(int(i) for i in idx)])

    def div(self, a, b):
        return a / b if b != 0 else math.nan

    def finite(self, x):
        return math.isfinite(float(x))

    pi = math.pi

    def arr_of(self, a):
        key = id(a)
        r = self.cache.get(key)
        if r is None:
            r = (np.asarray(a), a)
            self.cache[key] = r
        return r[0]

    def at(self, a, *idx):
        if isinstance(a, (list, tuple)) and not any(hasattr(x, "shape") for x in a):
            r = a
            for i in idx:
                r = r[int(i)]
            return r
        a = self.arr_of(a)
        if not idx:
            return a[()] if a.ndim == 0 else a.item()
        if len(idx) != a.ndim:
            raise Violation("array rank", f"shape {a.shape}, expected rank {len(idx)}")
        ii = []
        for i, d in zip(idx, a.shape):
            i = int(i)
            if d == 0:
                return math.nan
            ii.append(min(max(i, 0), d - 1))
        return a[tuple(ii)]

    def shape(self, a):
        return np.shape(a)

    def sum(self, n, f):
        t = 0.0
        for i in range(int(n)):
            t = t + f(i)
        return t

    def flat(self, hi, lo, d):
        return int(hi) * int(d) + int(lo)

    def interp(self, grid, vals, x):
        g = self.arr_of(grid)
        n = len(g)
        j = int(np.searchsorted(g, x, side="right"))
        j = min(max(j, 1), n - 1)
        vl, vh = vals(j - 1), vals(j)
        return vl + (float(x) - g[j - 1]) / (g[j] - g[j - 1]) * (vh - vl)

    def forall(self, *dims, names=None, include=None):
        dims = [int(d) for d in dims]
        tot = 1
        for d in dims:
            tot *= d
        if tot == 0:
            return
        if tot <= self.MAX_POINTS or self.rng is None:
            yield from itertools.product(*[range(d) for d in dims])
            return
        yield tuple(0 for _ in dims)
        yield tuple(d - 1 for d in dims)
        for _ in range(self.MAX_POINTS):
            yield tuple(int(self.rng.integers(0, d)) for d in dims)

    each = forall

    def eq(self, name, code, spec, rtol=RTOL, atol=None):
        self.n += 1
        c = self.at(code) if not isinstance(code, (int, float, bool, np.generic)) else code
        s = spec
        if isinstance(s, (bool, np.bool_)):
            if bool(c) != bool(s):
                raise Violation(name, f"got {c}, specified {s}")
            return
        c, s = float(c), float(s)
        if not math.isfinite(s):
            self.n_skipped += 1
            return
        a = atol if atol is not None else rtol
        if not (abs(c - s) <= a + rtol * abs(s)):
            raise Violation(name, f"got {c!r}, specified {s!r}")

    def check(self, name, cond):
        self.n += 1
        if not bool(cond):
            raise Violation(name, "does not hold")

    # tolerant comparisons (exact in the symbolic side)
    def le(self, a, b, tol=1e-7):
        return float(a) <= float(b) + tol * max(1.0, abs(float(a)), abs(float(b)))

    def ge(self, a, b, tol=1e-7):
        return self.le(b, a, tol)

    def same(self, a, b, tol=1e-7):
        return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))

    def fact(self, cond):
        pass

    def arr_of(self, x):
        return np.asarray(x)

    def shape_eq(self, name, a, dims):
        self.n += 1
        sh = tuple(np.shape(a))
        if sh != tuple(int(d) for d in dims):
            raise Violation(name, f"shape {sh}, specified {tuple(dims)}")

    def arb(self, name, lo=None, hi=None, **kw):
        lo = 0 if lo is None else int(lo)
        hi = lo + 3 if hi is None else int(hi)
        return int(self.rng.integers(lo, hi + 1)) if hi >= lo else lo

    def array(self, shape, fn, k="r", lib="jnp"):
        shape = tuple(int(d) for d in shape)
        a = np.zeros(shape, dtype={"r": float, "i": np.int64, "b": bool}[k])
        for idx in itertools.product(*[range(d) for d in shape]):
            a[idx] = fn(*idx)
        return a


def resolve(qual):
    import importlib

    mod, fn = qual.rsplit(".", 1)
    return getattr(importlib.import_module(mod), fn)


def _raised_in_repo(e):
    repo = os.path.realpath(os.environ.get("SOEPY_REPO", "/repo"))
    tb = e.__traceback__
    hit = False
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(repo + os.sep):
            hit = True
        tb = tb.tb_next
    return hit


def run_once(unit, case, seed, model=None):
    """-> ('ok'|'reject'|'violation'|'error', info)"""
    import traceback

    rng = np.random.default_rng(seed)
    g = ConcG(rng, model)
    o = ConcO(np.random.default_rng(seed + 1))
    try:
        inp = unit.make(g, case)
    except Reject as e:
        return "reject", str(e)
    try:
        try:
            res = unit.call(resolve, inp, case)
        except Reject as e:
            return "reject", str(e)
        except Exception as e:
            if hasattr(unit, "post_exc"):
                unit.post_exc(o, inp, e, case)
                return "ok", dict(n=o.n)
            shallow = isinstance(e, (TypeError, AttributeError, NameError, ImportError, KeyError))
            if _raised_in_repo(e) and (getattr(unit, "public", False) or not shallow):
                # (an internal function called directly may have changed its interface:
                # that is no violation; the public-interface units decide then)
                return "violation", dict(
                    name=f"no exception ({type(e).__name__})",
                    detail=traceback.format_exc()[-1500:], inputs=_trim(g.names),
                )
            return "error", traceback.format_exc()[-3000:]
        try:
            unit.post(o, inp, res, case)
        except (Violation, Reject):
            raise
        except Exception as e:
            if getattr(unit, "public", False):
                return "violation", dict(
                    name=f"the result has the documented form ({type(e).__name__})",
                    detail=traceback.format_exc()[-1500:], inputs=_trim(g.names),
                )
            raise
    except Violation as v:
        return "violation", dict(name=v.name, detail=v.detail, inputs=_trim(g.names))
    except Reject as e:
        return "reject", str(e)
    except Exception as e:
        return "error", traceback.format_exc()[-3000:]
    return "ok", dict(n=o.n, skipped=o.n_skipped, inputs=_trim(g.names))


def _trim(d):
    out = {}
    for k, v in d.items():
        out[k] = v
    return out
