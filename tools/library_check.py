#!/usr/bin/env python3
"""Compares the engine's models of numpy, jax and pandas with the libraries.

    /opt/venv/bin/python tools/library_check.py gen OUT.json [seed] [rounds]   the libraries' answers
    python3-vt          tools/library_check.py chk OUT.json                    the models' answers

Every program below is run on random small inputs by the libraries, and by the models twice: on
concrete arrays, and on arrays with symbolic sizes and elements, where the answer must follow from
the facts that pin the sizes and elements. A model that says "unsupported" is not wrong; one that
answers differently is. Written to stdout: one JSON line with the counts and the differences.
"""
import json
import math
import os
import sys

PROGRAMS = r"""
a + b * 2 - s
a / 4 + b ** 2
-a + abs(b)
a > b
(a > b) & c
(a > b) | ~c
a == b
a != s
i // 2
i % 3
i ** 2
np.maximum(a, b) - np.minimum(a, 0.5)
np.clip(a, -0.5, 0.75)
a.clip(0, None)
np.where(a > 0, a, b)
np.where(c[:, None], m, 0)
np.where(c, 1, i)
np.select([a > 1, a > 0], [a, b], default=s)
np.sign(a)
np.square(a) + np.absolute(b)
np.logical_xor(c, a > 0)
np.isclose(a, b)
a[i]
m[i]
m[i, 1]
m[i, ik]
m[:, 1] - m[:, 0]
m[-1]
m[1:-1]
m[:, ::-1]
a[::-1]
a[1:] - a[:-1]
np.diff(a)
a[c]
m[c]
m[c, 0]
m[c][:, 1]
a[c].sum()
i[a > 0]
c.sum()
np.count_nonzero(c)
np.flatnonzero(c)
np.nonzero(c)[0]
np.where(c)[0]
a.sum()
m.sum(axis=0)
m.sum(axis=1)
m.sum()
m.mean(axis=1)
m.max(axis=1)
m.min(axis=1)
m.argmax(axis=1)
np.argmax(m, axis=1)
np.argmin(m, axis=1)
np.argmax(c)
m.max(axis=1)[i]
np.any(c), np.all(c)
(m > 0).any(axis=1)
(m > 0).all(axis=1)
m.T
m.T @ a
m @ w
np.dot(a, b)
np.outer(a, w)
a[:, None] * w
a[:, None] + w[None, :]
m * a[:, None]
np.stack([a, b], axis=1)
np.stack([a, b])
np.column_stack((a, b, i))
np.concatenate([a, b])
np.concatenate([m, m * 2], axis=1)
np.hstack((m, a[:, None]))
np.vstack((m, m))
m.reshape(-1)
m.ravel()
m.flatten()[i]
m.reshape(-1, 1)
np.reshape(m, m.shape)
np.expand_dims(a, 1)
np.squeeze(a[:, None], axis=1)
np.transpose(m)
np.swapaxes(m, 0, 1)
np.moveaxis(t, 0, 1)
t.transpose(2, 0, 1)
t[:, :, 1]
t[..., 0]
t[i, 1]
t[i, :, 1]
t[0, i % 2]
t[:, i % 2, 0] * 1
t.sum(axis=2)
t.sum(axis=(1, 2))
t.max(axis=2)
np.flip(a)
np.flip(m, axis=1)
np.roll(a, 1)
np.roll(a, -1)
np.tile(w, 2)
np.tile(w, (2, 1))
np.repeat(w, 2)
np.repeat(a, 2)
np.zeros((a.shape[0], 2)) + w[:2]
np.ones_like(a) * s
np.full(a.shape, s)
np.full_like(i, 3)
np.arange(a.shape[0]) + i
np.arange(2, 6)
np.arange(5)[::-1]
np.arange(1, 9, 3)
np.eye(3) * w
np.identity(2)
np.linspace(0, s, 4)
np.cumsum(w)
np.cumprod(w)
np.prod(w)
np.average(w), np.average(w, weights=np.array([1.0, 2.0, 3.0]))
np.append(w, s)
np.isin(i, [0, 2])
np.searchsorted(g, a)
np.searchsorted(g, a, side="right")
np.digitize(a, g)
np.interp(a, g, g * 2 - 1)
np.take(a, i)
np.take(m, i, axis=0)
np.take_along_axis(m, m.argmax(axis=1)[:, None], axis=1)
np.einsum("ij,j->i", m, w)
np.einsum("ij,i->j", m, a)
np.einsum("ij,ij->i", m, m)
np.choose(i % 2, [a, b])
np.nan_to_num(np.where(c, np.nan, a), nan=-1.0)
np.where(c, np.nan, a)
np.isnan(np.where(c, np.nan, a))
np.broadcast_to(w, (2, 3))
np.meshgrid(a, w, indexing="ij")[0]
np.meshgrid(a, w)[1]
m[np.ix_([0, 1], [2, 0])]
np.split(w, 3)[1]
np.convolve(w, np.array([1.0, -1.0]))
np.convolve(a, w)
np.convolve(a, b)
np.convolve(a, b).sum()
np.convolve(a, b)[: a.shape[0]] / s
(a[:, None] * b).sum(axis=1).sum()
np.outer(a, b).sum(axis=0) * a
((a[:, None] > b).sum(axis=1) * a).sum()
(a / s).sum() - a[1:].sum() / s
np.piecewise(a, [a > 0, a > 1], [1.0, 2.0, 3.0])
np.array_equal(a, a)
np.allclose(a, a)
np.floor_divide(i, 2)
np.array([[1, 2], [3, 4]])[i % 2, 1]
a.astype(bool)
c.astype(int) + i
(i * 100).astype(np.int8)
(i * 100 - 250).astype(np.uint8) + 7
(i * 30).astype(np.int8) * 3
(i * 30).astype(np.int8) + i
(i * 30).astype("int8")[1:] - 120
(ik * 40000 - 1).astype(np.uint16)
-(i * 40).astype(np.uint8)
np.where(c, (i * 60).astype(np.int8), (ik * 70).astype(np.int8)) * 2
np.concatenate([(i * 100).astype(np.int8), (ik * 100).astype(np.uint8)]) * 3
(i * 60).astype(np.int8).sum()
np.arange(120, 123, dtype=np.int8) + 6
np.zeros(3, dtype=np.uint8) - 1
x = np.full(a.shape[0], 7, dtype=np.int8); x[:] = i * 90; r = x * 1
x = np.empty((a.shape[0], 3), dtype=np.int16); x[:, 0] = i * 20000; x[:, 1:] = 5; r = x + 1
(i * 90).astype(np.int8).astype(int) * 2
np.array([(i * 60).astype(np.int8)[0], 5]) * 2
c.astype(float) * a
np.round(a)
np.round(a * 3, 1)
a.round()
(a / 2).round(1) + i
np.rint(a * 2)
np.ceil(a) - np.floor(b)
np.trunc(a) + np.fix(b)
round(s)
df["x"].round()
(a > 0).mean()
a[0], a[-1], m[1, -1]
float(s), int(i[0])
x = a.copy(); x[c] = 0; r = x
x = a.copy(); x[c] = b[c]; r = x
x = a.copy(); x[1] = s; r = x
x = a.copy(); x[:] = s; r = x
x = a.copy(); x += b; r = x
x = a.copy(); x[1:] -= a[:-1]; r = x
x = m.copy(); x[:, 1] = a; r = x
x = m.copy(); x[c, 1] = s; r = x
x = m.copy(); x[c] = w; r = x
x = m.copy(); x[c, :] *= 2; r = x
x = m.copy(); x[0, :] = w; r = x
x = m.copy(); x[:, 0] += a; x[:, 2] = x[:, 0] * 2; r = x
x = m.copy(); y = x[:, 1]; y[:] = 0; r = x
x = m.copy(); y = x[1]; y[0] = 9; r = x
x = m.T.copy(); x[1] = a; r = x
x = t.copy(); x[:, :, 0] = 1 - x[:, :, 1]; r = x
x = t.copy(); x[c] = 0; r = x
x = t.copy(); x[:, 1] = w[:2]; r = x
x = a.copy(); x[np.flatnonzero(c)] = -1; r = x
x = np.zeros(a.shape[0]); x[c] = a[c]; x[~c] = b[~c]; r = x
x = np.zeros_like(m); x[np.arange(a.shape[0]), i % 3] = 1; r = x
jnp.where(ja > 0, ja, s)
ja.at[1].set(s)
ja.at[1].add(s)
ja.at[1:].multiply(2)
jm.at[:, 0].set(ja)
jax.vmap(lambda x: x.sum())(jm)
jax.vmap(lambda x, y: x * y)(jm, ja)
jax.vmap(lambda x, y: x + y, in_axes=(0, None))(ja, jnp.asarray(w))
jax.vmap(lambda x: x * 2, in_axes=1, out_axes=1)(jm)
jax.vmap(lambda x: x * 2, in_axes=1)(jm)
jax.vmap(lambda k: jm[k, 0])(jnp.asarray(i))
jax.vmap(jax.vmap(lambda x, y: x - y, (None, 0)), (0, None))(ja, jnp.asarray(w))
jax.lax.scan(lambda h, x: (h + x, h * 2), 0.5, jnp.asarray(w))[1]
jax.lax.scan(lambda h, x: (h + x, h), 0.5, jnp.asarray(w), reverse=True)[1]
jax.lax.scan(lambda h, x: (h * 0.5 + x, h), 0.5, jnp.asarray(w))[0]
jax.lax.fori_loop(0, 3, lambda k, h: h * 2 + k, s)
jax.lax.map(lambda x: x.max(), jm)
jax.lax.select(ja > 0, ja, ja * 2)
jax.lax.cond(s > 0, lambda x: x + 1, lambda x: x - 1, s)
jax.lax.dynamic_index_in_dim(jm, 1, 0, keepdims=False)
jax.lax.dynamic_index_in_dim(jm, 99, 0, keepdims=False)
jm[99]
ja[jnp.asarray(i) + 50]
jnp.take(ja, jnp.asarray(i))
jnp.dot(jm, jnp.asarray(w))
df["x"] + df["y"]
df[df["k"] == 1]["x"]
df.loc[df["k"] >= 1, "x"]
df[["x", "y"]].to_numpy()
df["x"].where(df["k"] == 0)
df["x"].where(df["k"] == 0, df["y"])
df["x"].mask(df["k"] == 0)
df["x"].clip(0, 1)
df["x"].clip(lower=0)
df["k"].between(1, 2)
df["x"].isna()
df["k"].isin([0, 2])
df["k"].map({0: 0.5, 1: 1.5, 2: 2.5})
df["k"].map({0: 0.5, 1: 1.5})
df["k"].eq(1)
df["x"].sub(df["y"])
df["x"].fillna(3)
df["x"].where(df["k"] == 0).fillna(3)
df["x"].abs()
df["k"].max()
df["x"].sum()
df.assign(z=df["x"] * 2)["z"]
df.assign(z=lambda d: d.x * 2).z
df.rename(columns={"x": "u"})["u"]
df.drop(columns=["x"])["y"]
df.astype({"k": float})["k"] / 2
df.iloc[:, 1]
pd.cut(df["x"], [-9, 0, 1, 9], labels=[0, 1, 2]).astype(float)
pd.concat([df, df])["x"]
pd.concat([df[df["k"] == 0], df])["y"]
pd.Series([1.0, 1.0, s]).nunique()
pd.Series(w).nunique()
d = df.copy(); d["z"] = 1; r = d["z"] + d["k"]
d = df.copy(); d.loc[d["k"] == 1, "x"] = 0; r = d["x"]
d = df.copy(); d.loc[d["k"] == 1, "x"] = np.nan; r = d["x"]
d = df.copy(); d.loc[d["k"] == 1, "k"] = 7; r = d["k"]
d = df.copy(); d.insert(0, "q", a); r = d.iloc[:, 0]
d = df.copy(); q = d.pop("x"); r = q + len(d.columns)
d = df.set_index(["k"]); r = d["x"]
d = df.reset_index(drop=True); r = d["x"]
lf.loc["u", "value"]
lf.loc["u"]["value"]
lf.loc[("u", "p"), "value"]
lf.loc["v"]["value"].to_list()
lf.loc[lf.index.get_level_values("cat") == "v", "value"]
lf[lf.index.get_level_values("cat") == "u"]["value"]
lf.xs("u")["value"]
lf.xs("p", level="name")["value"]
lf["value"]
lf.loc[:, "value"].nunique()
sum(lf.loc["u", "value"].to_numpy())
len(lf.loc["v"])
""".strip().splitlines()

# loops and comprehensions over a symbolic range (n = len(a)); "!" marks loops whose iterations
# depend on each other, which must not be accepted as maps
LOOPS = r"""
x = m.copy()\nfor p in range(n):\n    x[p, 0] = 1 - x[p, 1]\nreturn x
x = m.copy()\nfor p in range(n):\n    y = a[p] * 2\n    x[p, :] = y + w\n    x[p, 1] = x[p, 0] - y\nreturn x
x = np.zeros((3, n))\nfor p in range(n):\n    x[:, p] = m[p]\nreturn x
x = a.copy()\nfor p in range(1, n):\n    x[p] = a[p] - a[p - 1]\nreturn x
x = np.zeros((n, n))\nfor p in range(n):\n    x[p] = a * a[p]\nreturn x
x = np.zeros((n, n))\nfor p in range(n):\n    x[:, p] = a * b[p]\nreturn x
x = t.copy()\nfor p in range(n):\n    for q in range(2):\n        x[p, q, 0] = 1 - x[p, q, 1]\nreturn x
x = np.zeros((n, n))\nfor p in range(n):\n    for q in range(n):\n        x[p, q] = a[p] - b[q]\nreturn x
x = a.copy()\nfor p in range(n):\n    x[p] += b[p]\nreturn x
out = []\nfor p in range(n):\n    out.append(a[p] + p)\nreturn np.array(out)
out = []\nfor p in range(n):\n    out.append(m[p] * b[p])\nreturn np.array(out)
out = []\nfor v in a:\n    out.append(v * 2)\nreturn np.array(out)
return np.array([a[p] * p for p in range(n)])
return np.array([m[p, 1] for p in range(n)])
return np.stack([m[p] + w for p in range(n)])
return np.array([v + s for v in a])
y = a.copy()\nl = [y[p] for p in range(n)]\ny[:] = 0\nreturn np.array(l) + y
return np.array([s, *a[1:]])
return np.array([np.sum(m[p]) for p in range(n)])
!x = a.copy()\nfor p in range(1, n):\n    x[p] = x[p - 1] + 1\nreturn x
!x = a.copy()\nfor p in range(n - 1):\n    x[p + 1] = b[p]\nreturn x
!x = a.copy()\nfor p in range(n):\n    x[0] = b[p]\nreturn x
!x = a.copy()\nfor p in range(n):\n    x[i[p]] = b[p]\nreturn x
!x = a.copy()\nr = 0.0\nfor p in range(n):\n    r = r + x[p]\n    x[p] = r\nreturn x
!x = m.copy()\nfor p in range(n):\n    x[p] = x.sum()\nreturn x
!x = a.copy()\ny = x[:]\nfor p in range(1, n):\n    x[p] = y[p - 1]\nreturn x
!x = a.copy()\ny = b.copy()\ndef g(k):\n    y[0] = k\n    return y[0]\nfor p in range(n):\n    x[p] = g(p)\nreturn x + y
!x = np.zeros((n, n))\nfor p in range(n):\n    x[p] = a\n    x[:, p] = b\nreturn x
""".strip().splitlines()
LARGS = "np, a, b, m, t, w, i, c, s, n"


def wrap(prog):
    return f"def f({LARGS}):\n" + "\n".join("    " + l for l in prog.lstrip("!").replace("\\n", "\n").splitlines())


def split(prog):
    """statements, result expression"""
    if "; r = " in prog:
        st, _, ex = prog.rpartition("; r = ")
        return st, ex
    return "", prog


def draw(rng):
    import numpy as np

    n = int(rng.integers(3, 6))
    q = lambda sh: rng.integers(-6, 9, size=sh) / 4
    g = np.sort(rng.choice(np.arange(-6, 9), size=4, replace=False)) / 4
    return dict(a=q(n), b=q(n), m=q((n, 3)), t=q((n, 2, 2)), w=q(3), g=g, s=float(q(())),
                i=rng.integers(0, n, n), ik=rng.integers(0, 3, n), c=rng.random(n) < 0.5,
                k=rng.integers(0, 3, n), x=q(n), y=q(n), lv=q(5))


LABELS = [("u", "p"), ("u", "q"), ("v", "p"), ("v", "q"), ("v", "r")]


def gen(out, seed, rounds):
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    import jax
    import jax.numpy as jnp
    import numpy as np
    import pandas as pd

    jax.config.update("jax_enable_x64", True)
    rng = np.random.default_rng(seed)
    res = []
    for _ in range(rounds):
        inp = draw(rng)
        ns = dict(inp, np=np, jnp=jnp, jax=jax, pd=pd, ja=jnp.asarray(inp["a"]), jm=jnp.asarray(inp["m"]))
        ns["df"] = pd.DataFrame({"x": inp["x"], "y": inp["y"], "k": inp["k"]})
        ns["lf"] = pd.DataFrame({"value": inp["lv"]}, index=pd.MultiIndex.from_tuples(LABELS, names=["cat", "name"]))
        for p in PROGRAMS:
            env = dict(ns)
            st, ex = split(p)
            try:
                exec(st, env)
                r = eval(ex, env)
            except Exception as e:
                res.append(dict(prog=p, error=type(e).__name__))
                continue
            if isinstance(r, tuple):
                r = np.asarray(r, dtype=float)
            r = np.asarray(r.to_numpy() if hasattr(r, "to_numpy") else r, dtype=float)
            res.append(dict(prog=p, shape=list(r.shape), val=[None if math.isnan(v) else v for v in r.ravel().tolist()]))
        for p in LOOPS:
            env = {}
            exec(wrap(p), env)
            r = np.asarray(env["f"](np, *[ns[k.strip()] for k in LARGS.split(",")[1:-1]], len(ns["a"])), dtype=float)
            res.append(dict(prog=p, loop=True, shape=list(r.shape), val=r.ravel().tolist()))
        res.append(dict(inputs={k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in inp.items()}))
    json.dump(res, open(out, "w"))


def chk(path):
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from fractions import Fraction

    import z3
    from engine import arr as A, load, shadow, sym, vc
    from engine.sym import S, lift

    mods = shadow.build()
    rows = json.load(open(path))
    stats = {"concrete": 0, "symbolic": 0, "unsupported": 0, "undecided": 0, "modelled_programs": 0}
    bad, unsup, batch, modelled, undec = [], {}, [], set(), {}

    def env_for(inp, symbolic, C):
        n = len(inp["a"])
        ns = dict(np=mods["numpy"], jnp=mods["jax.numpy"], jax=mods["jax"], pd=mods["pandas"])
        pins = []
        if symbolic:
            nz = z3.Int("n")
            C.assume(nz >= 3)
            pins.append(nz == n)
            N = S(nz, "i")

            def mk(name, v, k, lib="np", lo=None, hi=None):
                f = z3.Function(name, *[z3.IntSort()] * depth(v), {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[k])
                for ix, val in cells(v):
                    pins.append(f(*[z3.IntVal(q) for q in ix]) == const(val, k))
                sh = [N] + shape(v)[1:]

                def fn(idx):
                    t = S(f(*[lift(q).term() for q in idx]), k)
                    if lo is not None:
                        if C.once(("in", t.term().get_id())):
                            C.keepalive(t.term())
                            C.assume((t >= lo).term())
                            C.assume((t < hi).term())
                    return t

                return A.Arr(tuple(sh), fn, k, lib)

            ns["s"] = S(z3.Real("s"), "r")
            pins.append(z3.Real("s") == const(inp["s"], "r"))
        else:
            N = n

            def mk(name, v, k, lib="np", lo=None, hi=None):
                def lift_in(u):
                    return [lift_in(w) for w in u] if isinstance(u, list) else S({"r": lambda: Fraction(u), "i": lambda: int(u), "b": lambda: bool(u)}[k](), k)

                return A.from_nested(lift_in(v), None, lib)

            ns["s"] = S(Fraction(inp["s"]), "r")
        num = lambda v: [S(Fraction(x), "r") for x in v]
        ns.update(a=mk("a", inp["a"], "r"), b=mk("b", inp["b"], "r"), m=mk("m", inp["m"], "r"), t=mk("t", inp["t"], "r"),
                  c=mk("c", inp["c"], "b"), i=mk("i", inp["i"], "i", lo=0, hi=N), ik=mk("ik", inp["ik"], "i", lo=0, hi=3),
                  w=A.from_nested(num(inp["w"])), g=A.from_nested(num(inp["g"])),
                  ja=mk("a", inp["a"], "r", "jnp"), jm=mk("m", inp["m"], "r", "jnp"))
        ns["df"] = mods["pandas"].DataFrame({"x": mk("x", inp["x"], "r"), "y": mk("y", inp["y"], "r"), "k": mk("k", inp["k"], "i")})
        ns["lf"] = shadow.LabelFrame(LABELS, {"value": A.from_nested(num(inp["lv"]))}, ("cat", "name"))
        ns.update(__builtins__=dict(vars(__import__("builtins")), len=shadow.sh_len, sum=shadow.sh_sum, float=shadow.ShFloat, int=shadow.ShInt)
                  if hasattr(shadow, "sh_sum") else __import__("builtins"))
        return ns, pins

    def depth(v):
        return 1 + depth(v[0]) if isinstance(v, list) else 0

    def shape(v):
        return [len(v)] + shape(v[0]) if isinstance(v, list) else []

    def cells(v, pre=()):
        if isinstance(v, list):
            for q, u in enumerate(v):
                yield from cells(u, pre + (q,))
        else:
            yield pre, v

    def const(v, k):
        return z3.RealVal(str(Fraction(v))) if k == "r" else (z3.IntVal(int(v)) if k == "i" else z3.BoolVal(bool(v)))

    from engine.solver import subterms

    def expand(C, n):
        """the finite sums behind the sum constants, for the pinned sizes"""
        out = []
        size = lambda v: v if isinstance(v, int) else z3.simplify(z3.substitute(lift(v).term(), (z3.Int("n"), z3.IntVal(n))))
        # symbols whose value varies with an outer bound variable, written out (inner ones first)
        inner = {}
        made = [(0, v) for v in C.sums.values()] + [(1, v) for v in {id(v): v for v in C.masks.values()}.values()]

        def written_out(t):
            for _ in range(4):
                have = [v for k, v in inner.items() if any(x.eq(v[0]) for x in subterms([t]))]
                if not have:
                    break
                t = z3.substitute(t, *have)
            return t

        for kind, v in made:
            name = v[0].decl().name() if kind == 0 else f"cnt!{v.mid}"
            if not C.deps.get(name):
                continue
            m = size(v[2] if kind == 0 else v.n)
            m = m if isinstance(m, int) else (m.as_long() if z3.is_int_value(m) else None)
            if m is None:
                continue
            if kind == 0:
                inner[name] = (v[0], z3.Sum([z3.substitute(v[3], (v[1], z3.IntVal(q))) for q in range(m)]))
            else:
                inner[name] = (v.cnt, z3.Sum([z3.If(z3.substitute(v.body[1], (v.body[0], z3.IntVal(q))), 1, 0) for q in range(m)]))
        for (c, b, sz, body) in list(C.sums.values()):
            m = size(sz)
            m = m if isinstance(m, int) else (m.as_long() if z3.is_int_value(m) else None)
            if m is None:
                continue
            body = written_out(body)
            out.append(c == z3.Sum([z3.substitute(body, (b, z3.IntVal(q))) for q in range(m)]))
        for mi in {id(v): v for v in C.masks.values()}.values():
            m = size(mi.n)
            if mi.conc is None and not isinstance(m, int) and z3.is_int_value(m):
                # the count and the positions behind the mask summary
                hold = [z3.substitute(mi.body[1], (mi.body[0], z3.IntVal(q))) for q in range(m.as_long())]
                before = [z3.Sum([z3.If(h, 1, 0) for h in hold[:q]] + [z3.IntVal(0)]) for q in range(len(hold))]
                out.append(mi.count_s().term() == z3.Sum([z3.If(h, 1, 0) for h in hold]))
                if mi.ival is None:
                    for q, h in enumerate(hold):
                        out.append(z3.Implies(h, z3.And(mi.sel(before[q]) == q, mi.rank(z3.IntVal(q)) == before[q])))
        return out

    def run_loop(prog, inp, want):
        """every path: the independence obligations, then the values behind the loop"""
        import ast

        code = load.Transform("library").visit(ast.parse(wrap(prog)))
        ast.fix_missing_locations(code)
        code = compile(code, "library", "exec")
        work, seen = [[]], 0
        while work:
            C = vc.Session("library", work.pop())
            sym.CUR = C
            C.files = {}
            C.loop_contracts = {}
            env, pins = env_for(inp, True, C)
            ld = load.Loader(C)
            ns = {"__builtins__": ld.builtins}
            exec(code, ns)
            try:
                r = ns["f"](*[env[k.strip()] for k in LARGS.split(",")[:-1]], S(z3.Int("n"), "i"))
                v = compare(C, pins, r, inp, want, True)
                seen += 1
            except sym.PathEnd:
                # these obligations hold for all sizes and elements: nothing is pinned
                sv = z3.Solver()
                sv.set("timeout", 3000)
                C.instantiate_schemas()
                for f in C.facts:
                    sv.add(f)
                v = True
                for ob in C.obligations:
                    if sv.check(z3.Not(ob.goal)) != z3.unsat:
                        v = f"{ob.name}: not discharged"
            if v is not True:
                return v
            work.extend(C.alternatives)
        return True if seen else "no path reaches the end"

    def run(prog, inp, want, symbolic):
        C = vc.Session("library")
        sym.CUR = C
        C.files = {}
        env, pins = env_for(inp, symbolic, C)
        st, ex = split(prog)
        exec(st, env)
        return compare(C, pins, eval(ex, env), inp, want, symbolic)

    def compare(C, pins, r, inp, want, symbolic):
        if isinstance(r, tuple):
            r = A.from_nested([lift(x) for x in r])
        r = shadow._arrize(r)
        if isinstance(r, (list,)):
            r = A.from_nested(r)
        if not isinstance(r, A.Arr):
            r = lift(r)
        sh = r.shape if isinstance(r, A.Arr) else ()
        goals = []
        if len(sh) != len(want["shape"]):
            return f"rank {len(sh)}, the library's {len(want['shape'])}"
        for d, e in zip(sh, want["shape"]):
            goals.append(("shape", (lift(d) == e).term()))
        import itertools
        for ix, v in zip(itertools.product(*[range(d) for d in want["shape"]]), want["val"]):
            x = r.get(*ix) if isinstance(r, A.Arr) else r
            isbad = S(x.bad if x.bad is not None else False, "b").term()
            if v is None:
                goals.append((ix, isbad))
            else:
                x = x.as_int().as_real() if x.k != "r" else x
                lo, hi = Fraction(v) - Fraction(1, 10**9), Fraction(v) + Fraction(1, 10**9)
                t = x.term()
                goals.append((ix, z3.And(z3.Not(isbad), t >= const(lo, "r"), t <= const(hi, "r"))))
        C.instantiate_schemas()
        sv = z3.Solver()
        sv.set("timeout", 3000)
        from engine.solver import axioms_for
        fs = list(C.facts) + pins + expand(C, len(inp["a"]))
        for f in fs + axioms_for(fs + [g for _, g in goals]):
            sv.add(f)
        q = sv.check()
        if q == z3.unsat:
            return "the facts are contradictory"
        for ob in C.obligations:
            goals.append((ob.name, ob.goal))
        for name, g in goals:
            q = sv.check(z3.Not(g))
            if q == z3.sat:
                # an element the summaries leave open is not a wrong answer
                if symbolic and sv.check(g) != z3.unsat:
                    return ("open", f"{name}")
                return f"at {name}: not the library's answer"
            if q == z3.unknown:
                return ("open", f"{name}: undecided")
        return True

    for row in rows:
        if "inputs" not in row:
            batch.append(row)
            continue
        inp = row["inputs"]
        for w in batch:
            if "error" in w:
                continue
            for symbolic in (True,) if w.get("loop") else (False, True):
                try:
                    r = run_loop(w["prog"], inp, w) if w.get("loop") else run(w["prog"], inp, w, symbolic)
                    if w["prog"].startswith("!"):
                        if r is not True:
                            stats["rejected_dependent_loops"] = stats.get("rejected_dependent_loops", 0) + 1
                            continue
                        r = "dependent iterations accepted as a map"
                except (sym.Unsupported, sym.PathEnd, sym.Infeasible) as e:
                    if w["prog"].startswith("!"):
                        stats["rejected_dependent_loops"] = stats.get("rejected_dependent_loops", 0) + 1
                        continue
                    stats["unsupported"] += 1
                    unsup[w["prog"] + (" [symbolic]" if symbolic else "")] = str(e)
                    continue
                except Exception as e:
                    if "symbolic" in str(e) or isinstance(e, z3.Z3Exception):
                        unsup[w["prog"] + (" [symbolic]" if symbolic else "")] = repr(e)[:120]
                        stats["unsupported"] += 1
                        continue
                    r = f"raised {type(e).__name__}: {e}"
                if r is True:
                    stats["symbolic" if symbolic else "concrete"] += 1
                    modelled.add(w["prog"])
                elif isinstance(r, tuple):
                    stats["undecided"] += 1
                    undec[w["prog"]] = r[1]
                else:
                    bad.append(dict(prog=w["prog"], symbolic=symbolic, what=r))
        batch = []
    stats["modelled_programs"] = len(modelled)
    stats["programs"] = len(PROGRAMS) + len(LOOPS)
    errs = sorted({r["prog"] for r in rows if "error" in r})
    print(json.dumps(dict(stats=stats, differences=bad, unsupported=unsup, undecided=undec, library_errors=errs)))
    return 1 if bad else 0


def start(seed=1, rounds=1):
    """in the background: both halves"""
    import subprocess
    import tempfile
    import time

    d = tempfile.mkdtemp(prefix="vlib")
    f = os.path.join(d, "lib.json")
    me = os.path.abspath(__file__)
    env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
    cmd = f"/opt/venv/bin/python {me} gen {f} {seed} {rounds} && {sys.executable} {me} chk {f}"
    return time.time(), d, subprocess.Popen(["/bin/sh", "-c", cmd], env=env, stdout=subprocess.PIPE,
                                            stderr=subprocess.PIPE, text=True, start_new_session=True)


def finish(h, timeout=120):
    import shutil
    import signal
    import subprocess
    import time

    t0, d, p = h
    r = dict(programs=len(PROGRAMS) + len(LOOPS), problems=[])
    try:
        out, err = p.communicate(timeout=timeout)
        o = json.loads(out.strip().splitlines()[-1])
        r.update(o["stats"], wall_s=round(time.time() - t0, 2), unsupported=sorted(o["unsupported"]), undecided=sorted(o["undecided"]),
                 answers="concrete/symbolic: runs in which the model's answer on concrete arrays / on arrays of symbolic size agreed with the library's")
        r["problems"] = [f"{b['prog']}: {b['what']}" for b in o["differences"]]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        r["problems"].append("not finished within the time given")
    except (ValueError, IndexError, KeyError) as e:
        r["problems"].append(f"no answer: {e}")
    shutil.rmtree(d, ignore_errors=True)
    return r


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 1, int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    else:
        sys.exit(chk(sys.argv[2]))
