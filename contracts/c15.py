"""C15: expected galaxy numbers follow density, bias and visibility."""
import z3

from contracts.util import iter_index
from pv import vals as V
from pv.arr import SArr, memo, rsum
from pv.core import Unsupported, ctx, z3i
from pv.harness import harness
from pv.stubs import events
from pv.vals import F, PI, Sc, cast

P = "glass.points."
FUNCS = [P + f for f in ("positions_from_delta", "_broadcast_inputs", "_compute_density_contrast", "_compute_expected_count",
                         "_apply_visibility", "_sample_number_galaxies", "linear_bias", "loglinear_bias")] + \
    ["glass.arraytools.broadcast_leading_axes", "glass.rng.Generator"]
AREA = 4 * PI * (z3.RealVal(180 * 60) / PI) * (z3.RealVal(180 * 60) / PI)


def real(s):
    return cast(s, "r").re


def expected(name, ngal, delta, bias, vis, model="linear", mono=False, thorough=False):
    """Shapes are tuples of axis names for the population axes (1: unit axis), or 'float' / None."""
    @harness(f"expected[{name}]", funcs=FUNCS, thorough=thorough)
    def h(v):
        ns = v.int("nside", lo=1)
        npix = ns * ns * 12
        v.c.store["nside_hints"] = [ns]
        names = {d for s in (ngal, delta, bias, vis) if isinstance(s, tuple) for d in s if d != 1}
        dims = {d: v.int(d, lo=1) for d in sorted(names)}
        sh = lambda s: tuple(dims.get(d, 1) for d in s)
        G = v.real("ngal") if ngal == "float" else v.arr("ngal", sh(ngal))
        D = v.arr("delta", sh(delta) + (npix,))
        B = None if bias is None else v.real("bias") if bias == "float" else v.arr("bias", sh(bias))
        W = None if vis is None else v.arr("vis", sh(vis) + (npix,))
        got = []

        def sampler(*a, **k):
            ks = [x for x in [*a, *k.values()] if isinstance(x, tuple)]
            got.append((a, k, ks))
            yield "batch"

        v.replace(P + "_sample_galaxies_per_pixel", sampler)
        kw = {}
        if model == "loglinear":
            kw["bias_model"] = v.fn(P + "loglinear_bias")
        elif model == "opaque":
            bm = v.c.fresh_fun("biasmodel", 2) if False else z3.Function("biasmodel", z3.RealSort(), z3.RealSort(), z3.RealSort())
            from pv.arr import elementwise
            kw["bias_model"] = lambda d, b: elementwise(lambda x, y: Sc("r", bm(real(x), real(y))), d, b)
        if mono:
            kw["remove_monopole"] = True
        if W is not None:
            kw["vis"] = W
        v.cover()
        gen = v.call(v.fn(P + "positions_from_delta"), G, D, *([] if B is None else [B]), **kw)
        try:
            v.call(next, gen, raises=(StopIteration,))
        except Exception as e:  # noqa: BLE001
            if isinstance(getattr(e, "__cause__", None), StopIteration):
                return
            raise
        draws = events("draw")
        if len(draws) != 1 or draws[0].method != "poisson":
            raise Unsupported("galaxy numbers are not one Poisson draw per population")
        lam = draws[0].lam
        if not isinstance(lam, SArr):
            raise Unsupported("expected numbers are not an array")
        # the drawn numbers are the ones sampled
        a, k, _ = got[0]
        passed = [x for x in [*a, *k.values()] if isinstance(x, SArr)]
        v.prove("draw-is-used", any(x.buf is draws[0].result.buf for x in passed))
        # population index
        rank = max([len(s) for s in (ngal, delta, bias, vis) if isinstance(s, tuple)] + [0])
        idx = ()
        if rank:
            t = iter_index(v)
            full = []
            for ax in range(rank):
                ds = {s[len(s) - rank + ax] for s in (ngal, delta, bias, vis) if isinstance(s, tuple) and len(s) - rank + ax >= 0} - {1}
                full.append(dims[ds.pop()] if ds else 1)
            idx = []
            for ax in range(rank):
                i = v.ix(f"pop{ax}", full[ax]) if not isinstance(full[ax], int) else z3.IntVal(0)
                idx.append(i)
            flat = idx[0]
            for ax in range(1, rank):
                flat = flat * z3i(full[ax]) + idx[ax]
            v.assume(flat == t)
            if rank > 1:
                kt = [x for x in [*a, *k.values()] if isinstance(x, tuple) and len(x) == rank]
                kt = [x for x in kt if all(not (isinstance(q, Sc) and any(q.re.eq(z3i(d)) for d in dims.values())) for q in x)]
                for x in kt:
                    v.hint(z3.And(*[z3i(q) == i for q, i in zip(x, idx)]))
        pick = lambda s: [z3.IntVal(0) if d == 1 else idx[rank - len(s) + j] for j, d in enumerate(s)]
        p = v.ix("p", npix)
        v.dims("expected.shape", lam, (npix,))
        g = G.re if ngal == "float" else G.at(*pick(ngal)).re
        b = None if B is None else B.re if bias == "float" else B.at(*pick(bias)).re

        def contrast(q):
            d = real(D.at(*pick(delta), q))
            if b is None:
                return d
            if model == "linear":
                return b * d
            if model == "loglinear":
                return real(V.s_exp(Sc("r", b * real(V.s_log(Sc("r", 1 + d)))))) - 1
            return kw["bias_model"](D.at(*pick(delta), q), Sc("r", b)).re

        if model == "loglinear":
            v.assume(real(D.at(*pick(delta), p)) > -1)
        N = z3.ToReal(npix.re)
        v.hint(N > 0)
        c = contrast(p)
        if mono:
            c = c - rsum(0, npix, lambda q: Sc("r", contrast(q))).re / N
        w = z3.RealVal(1) if W is None else real(W.at(*pick(vis), p))
        want = v.let("want", g * (AREA / N) * (1 + c) * w)
        got_ = v.let("got", real(lam.at(p)))
        v.prove("expected-number", got_ == z3.If(want > 0, want, z3.RealVal(0)))
    return h


expected("plain", "float", (), None, None)
expected("bias", "float", (), "float", None)
expected("vis", "float", (), "float", ())
expected("monopole", "float", (), None, None, mono=True)
expected("monopole-bias-vis", "float", (), "float", (), mono=True)
expected("loglinear", "float", (), "float", None, model="loglinear")
expected("loglinear-vis-monopole", "float", (), "float", (), model="loglinear", mono=True)
expected("custom", "float", (), "float", (), model="opaque")
expected("populations-ngal", ("m",), (), None, None)
expected("populations-all", ("m",), ("m",), ("m",), ("m",))
expected("populations-bias", "float", (), ("m",), ())
expected("populations-vis", ("m",), (), "float", ("m",), mono=True)
expected("outer", ("m",), ("k", 1), ("m",), ("k", 1))
expected("outer-vis", "float", ("m",), None, ("k", 1), mono=True)


@harness("total", funcs=[P + "_compute_expected_count"])
def total(v):
    """With the monopole removed, the expected numbers add up to ngal times the area of the sky."""
    ns = v.int("nside", lo=1)
    npix = ns * ns * 12
    n = v.arr("contrast", (npix,))
    g = v.real("ngal")
    v.cover()
    out = v.call(v.fn(P + "_compute_expected_count"), (), n, v.mod("glass.points").np.asarray(g) if False else SArr((), "r", memo(lambda: g), n.xp),
                 remove_monopole=True)
    p = v.ix("p", npix)
    N = z3.ToReal(npix.re)
    v.hint(N > 0)
    mean = rsum(0, npix, lambda q: n.at(q)).re / N
    # per-pixel value (proved for an arbitrary pixel), so the total is the sum of these values
    v.prove("pixel", real(out.at(p)) == g.re * (AREA / N) * (1 + n.at(p).re - mean))
    A = v.let("A", g.re * (AREA / N))
    S = v.let("S", rsum(0, npix, lambda q: n.at(q)).re)
    T = z3.Real("T")      # sum of A (1 + c_p - S/N) over the N pixels = A N + A S - N A S / N
    v.assume(T == A * N + A * S - N * (A * (S / N)))
    v.prove("sky-total", T == g.re * AREA)


@harness("linear_bias", funcs=[P + "linear_bias"])
def linear(v):
    n = v.int("n", lo=1)
    d, b = v.arr("delta", (n,)), v.real("b")
    i = v.ix("i", n)
    v.cover()
    out = v.call(v.fn(P + "linear_bias"), d, b)
    v.dims("shape", out, (n,))
    v.prove("value", real(out.at(i)) == b.re * d.at(i).re)


@harness("loglinear_bias", funcs=[P + "loglinear_bias"])
def loglinear(v):
    n = v.int("n", lo=1)
    d, b = v.arr("delta", (n,)), v.real("b")
    i = v.ix("i", n)
    v.assume(d.at(i).re > -1)
    v.cover()
    out = v.call(v.fn(P + "loglinear_bias"), d, b)
    v.dims("shape", out, (n,))
    o = real(out.at(i))
    v.prove("positive", 1 + o > 0)
    v.prove("value", F["log"](1 + o) == b.re * F["log"](1 + d.at(i).re))
