"""Concrete replay and bounded conformance checks on the real code (runs in the environment that runs glass)."""
from __future__ import annotations

import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("JAX_ENABLE_X64", "1")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false")
sys.dont_write_bytecode = True
REPO = os.environ.get("GLASS_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")


class Failure(Exception):
    pass


def show(x, depth=0):
    if isinstance(x, np.ndarray):
        s = np.array2string(x, threshold=60, precision=17, separator=", ").replace("\n", " ")
        return f"array({s}, shape={x.shape}, dtype={x.dtype})"
    if isinstance(x, (list, tuple)) and depth < 3:
        return ("[" if isinstance(x, list) else "(") + ", ".join(show(y, depth + 1) for y in x[:12]) + (
            ", ..." if len(x) > 12 else "") + ("]" if isinstance(x, list) else ")")
    if isinstance(x, dict) and depth < 3:
        return "{" + ", ".join(f"{k}: {show(v, depth + 1)}" for k, v in list(x.items())[:12]) + "}"
    return repr(x)[:1500]


def expect(cond, what, /, **inputs):
    ok = bool(np.all(npa(cond))) if not isinstance(cond, bool) else cond
    if not ok:
        raise Failure(what + " | " + "; ".join(f"{k} = {show(unx(v))}" for k, v in inputs.items()))


def unx(v):
    try:
        if hasattr(v, "__array_namespace__") and not isinstance(v, np.ndarray):
            return np.asarray(v)
    except Exception:  # noqa: BLE001
        pass
    return v


class Rng:
    """A random number generator that records every draw; `script` maps a method to a function (rng, *args) -> array."""

    def __init__(self, r, **script):
        self.g = np.random.default_rng(int(r.integers(2 ** 31)))
        self.calls, self.script = [], script

    def _do(self, m, size, *args):
        args = tuple(np.asarray(a) for a in args)
        if isinstance(size, np.ndarray) or hasattr(size, "__array__"):
            size = tuple(int(x) for x in np.atleast_1d(np.asarray(size)))
        if m in self.script:
            out = self.script[m](self.g, *args, size)
        else:
            out = getattr(self.g, m)(*args, size)
        self.calls.append((m, args, size, np.copy(out)))
        return out

    def of(self, m):
        return [c for c in self.calls if c[0] == m]

    def random(self, size=None, dtype=None):
        return self._do("random", size)

    def standard_normal(self, size=None, dtype=None):
        return self._do("standard_normal", size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._do("normal", size, loc, scale)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._do("uniform", size, low, high)

    def poisson(self, lam=1.0, size=None):
        return self._do("poisson", size, lam)

    def multinomial(self, n, pvals, size=None):
        return self._do("multinomial", size, n, pvals)


def npa(x):
    return np.asarray(x)


def close(a, b, rtol=1e-9, atol=1e-11):
    a, b = npa(a), npa(b)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def expect_close(a, b, what, /, *, rtol=1e-9, atol=1e-11, **inputs):
    a, b = npa(a), npa(b)
    if a.shape != b.shape:
        raise Failure(f"{what}: shape {a.shape} instead of {b.shape} | " + "; ".join(f"{k} = {show(unx(v))}" for k, v in inputs.items()))
    if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
        raise Failure(f"{what}: got {show(a)} expected {show(b)} | " + "; ".join(f"{k} = {show(unx(v))}" for k, v in inputs.items()))


def expect_raises(exc, fn, what, /, **inputs):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Failure(f"{what}: raised {type(e).__name__}: {e} | " + "; ".join(f"{k} = {show(unx(v))}" for k, v in inputs.items())) from None
    raise Failure(f"{what}: returned {show(unx(r))} | " + "; ".join(f"{k} = {show(unx(v))}" for k, v in inputs.items()))


_back = {}


def backend(name):
    if name not in _back:
        if name == "numpy":
            _back[name] = np
        elif name == "strict":
            import array_api_strict
            _back[name] = array_api_strict
        elif name == "jax":
            import jax
            jax.config.update("jax_enable_x64", True)
            import jax.numpy as jnp
            _back[name] = jnp
    return _back[name]


def backends(jax=True):
    return ["numpy", "strict"] + (["jax"] if jax else [])


def run_module(prop, seed, budget, minrounds, only=None, rounds=None):
    m = importlib.import_module(prop.lower())
    tests = [(n, f) for n, f in vars(m).items() if n.startswith("t_") and callable(f)]
    count = 0
    nontrivial = {}
    t0 = time.time()
    k = 0
    spent = {n: 0.0 for n, _ in tests}
    while True:
        k += 1
        for n, f in tests:
            if only and n != only:
                continue
            if k > minrounds and spent[n] > budget / max(1, len(tests)):
                continue
            mx = getattr(f, "maxrounds", None)
            if mx and k > mx:
                continue
            r = np.random.default_rng([seed, zlib.crc32(n.encode()), k])
            t1 = time.time()
            try:
                f(r)
            except Failure as e:
                return dict(ok=False, test=n, round=k, seed=seed, message=str(e), count=count)
            except Exception as e:  # noqa: BLE001
                return dict(ok=False, test=n, round=k, seed=seed, count=count,
                            message=f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}")
            spent[n] += time.time() - t1
            count += 1
            nontrivial[n] = nontrivial.get(n, 0) + 1
        if rounds is not None and k >= rounds:
            break
        if time.time() - t0 > budget and k >= minrounds:
            break
        if k >= 4000:
            break
    return dict(ok=True, count=count, per_test=nontrivial, seconds=round(time.time() - t0, 2))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--minrounds", type=int, default=2)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    if a.replay:
        d = json.load(open(a.replay))
        d = d.get("failing_input", d)
        m = importlib.import_module(a.prop.lower())
        r = np.random.default_rng([d["seed"], zlib.crc32(d["test"].encode()), d["round"]])
        try:
            getattr(m, d["test"])(r)
        except Exception as e:  # noqa: BLE001
            print(f"FAILS: {type(e).__name__}: {e}")
            return 1
        print("passes")
        return 0
    res = run_module(a.prop, a.seed, a.budget, a.minrounds)
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        print(json.dumps(res, indent=1))
    return 0 if res["ok"] else 1


if __name__ == "__main__":
    sys.modules["common"] = sys.modules["__main__"]
    sys.exit(main())
