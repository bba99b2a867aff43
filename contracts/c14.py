"""C14: sampled positions account for every drawn galaxy."""
import z3

from contracts.util import iter_count, iter_index, one_yield, tri  # noqa: F401
from pv import vals as V
from pv.arr import SArr, memo, rsum
from pv.core import PathEnd, Unsupported, ctx, z3i
from pv.harness import harness
from pv.seq import LoopSpec
from pv.stubs import events, pix_f
from pv.vals import F, PI, Sc, cast

P = "glass.points."
ST = {}


def real(s):
    return cast(s, "r").re


def N(lo, hi):
    """number of galaxies in the pixels lo <= p < hi"""
    n = ST["n"]
    return rsum(lo, hi, lambda p: n.at(p)).re


def loops():
    """start: first pixel not yet listed; the pixels start..stop-1 (size galaxies) are gathered for the next batch."""
    def inv(env, k):
        start, stop, size, count = z3i(env.start), z3i(env.stop), z3i(env.size), z3i(env.count)
        npix, batch = z3i(ST["npix"]), z3i(ST["batch"])
        return [("order", z3.And(start >= 0, start <= stop, stop <= npix)),
                ("gathered", size == N(start, stop)),
                ("left", count == N(start, npix)),
                ("below-batch", z3.Or(start == stop, z3.And(size < batch, size < count))),
                ("yielded", ctx().store["Y"] == N(z3.IntVal(0), start))]

    def havoc(env, k):
        c = ctx()
        c.store["Y"] = c.fresh("Y", "i")
        f = lambda nm: Sc("i", c.fresh(nm, "i"))
        d = dict(start=f("start"), stop=f("stop"), size=f("size"), count=f("count"))
        for m in ("q", "ipix", "lon", "lat"):
            pass
        ST["start"] = d["start"].re
        return d

    def final(env, k):
        npix = z3i(ST["npix"])
        start, stop = z3i(env.start), z3i(env.stop)
        ST["v"].hint(N(start, npix) == N(start, stop) + N(stop, npix))
        ST["v"].hint(N(stop, npix) >= 0)
        ST["v"].hint(N(start, stop) >= 0)

    def variant(env):
        return Sc("i", 2 * z3i(ST["npix"]) - z3i(env.start) - z3i(env.stop))

    return {P + "_sample_galaxies_per_pixel:while1": LoopSpec(inv, havoc, variant=variant, exit_hook=final)}


def sample(rank):
    @harness(f"batches[{rank}]", funcs=[P + "_sample_galaxies_per_pixel"], loops=loops, budget=600)
    def h(v):
        ns = v.int("nside", lo=1)
        npix = v.int("npix", lo=12)
        v.assume(npix.re == 12 * ns.re * ns.re)
        v.c.store["nside_hints"] = [ns]
        v.c.store["Y"] = z3.IntVal(0)
        n = v.arr("n", (npix,), "i", lo=0)
        batch = v.int("batch", lo=1)
        dims = tuple(v.int(f"d{a}", lo=1) for a in range(rank))
        pop = tuple(Sc("i", v.ix(f"pop{a}", d)) for a, d in enumerate(dims))
        ST.update(n=n, npix=npix, batch=batch, v=v)
        v.cover()
        gen = v.call(v.fn(P + "_sample_galaxies_per_pixel"), batch, dims, pop, n)
        try:
            item = v.call(next, gen, raises=(StopIteration,))
        except Exception as e:  # noqa: BLE001
            if isinstance(getattr(e, "__cause__", None), StopIteration):
                v.prove("nothing-lost", v.c.store["Y"] == N(z3.IntVal(0), npix.re))
                return
            raise
        lon, lat, cnt = item
        if not isinstance(lon, SArr) or not isinstance(lat, SArr) or lon.ndim != 1 or lat.ndim != 1:
            raise Unsupported("positions are not one-dimensional arrays")
        start = ST["start"]
        size = z3i(lon.shape[0])
        # the galaxy at place Y+q in the list of all galaxies (pixel by pixel) lies in pixel p
        # iff  N(0, p) <= Y+q < N(0, p+1)
        v.dims("latitudes", lat, (Sc("i", size),))
        Y = v.c.store["Y"]
        q = v.ix("q", Sc("i", size))
        p = v.let("p", pix_f(ns.re, real(lon.at(q)), real(lat.at(q))))
        Z = z3.IntVal(0)
        v.prove("own-pixel-range", z3.And(p >= 0, p < npix.re))
        v.hint(N(Z, p) == N(Z, start) + N(start, p))
        v.prove("own-pixel-from", N(Z, p) <= Y + q)
        v.hint(N(Z, p + 1) == N(Z, p) + n.at(p).re)
        v.prove("own-pixel-to", Y + q < N(Z, p + 1))
        # the count is attributed to the population
        if rank == 0:
            v.prove("count", z3i(cnt if isinstance(cnt, (int, Sc)) else cnt.at()) == size)
        else:
            v.dims("count.shape", cnt, dims)
            o = [v.ix(f"o{a}", d) for a, d in enumerate(dims)]
            same = z3.And(*[a == b.re for a, b in zip(o, pop)])
            v.prove("count", cnt.at(*o).re == z3.If(same, size, 0))
        ST["size"] = size
        v.prove("batch-size", z3.Or(size <= batch.re, single(v, size, start)))
        v.c.store["Y"] = Y + size
        try:
            v.call(next, gen, raises=(StopIteration,))
        except PathEnd:
            raise
        except Exception as e:  # noqa: BLE001
            if isinstance(getattr(e, "__cause__", None), StopIteration):
                v.prove("nothing-lost", v.c.store["Y"] == N(z3.IntVal(0), npix.re))
                return
            raise
        v.c.fail("single-yield", "more than one batch in an iteration")
    return h


def single(v, size, start):
    """the batch is one pixel"""
    return size == ST["n"].at(start).re


sample(0)
sample(1)
sample(2)


def populations(rank):
    """Every population is sampled exactly once, in order, with its own numbers and the caller's batch size."""
    @harness(f"populations[{rank}]", funcs=[P + "positions_from_delta", P + "_broadcast_inputs"])
    def h(v):
        ns = v.int("nside", lo=1)
        npix = ns * ns * 12
        v.c.store["nside_hints"] = [ns]
        dims = tuple(v.int(f"d{a}", lo=1) for a in range(rank))
        G = v.arr("ngal", dims) if rank else v.real("ngal")
        D = v.arr("delta", (*dims, npix))
        batch = v.int("batch", lo=1)
        got = []

        def sampler(*a, **k):
            got.append([*a, *k.values()])
            yield "first"
            yield "second"

        v.replace(P + "_sample_galaxies_per_pixel", sampler)
        v.cover()
        gen = v.call(v.fn(P + "positions_from_delta"), G, D, batch=batch)
        out = []
        try:
            while True:
                out.append(v.call(next, gen, raises=(StopIteration,)))
        except PathEnd:
            out.append("rest")
        except Exception as e:  # noqa: BLE001
            if not isinstance(getattr(e, "__cause__", None), StopIteration):
                raise
            out.append("end")
        if rank and out == ["end"]:
            return
        v.prove("all-batches", out == ["first", "second", "rest" if rank else "end"])
        v.prove("one-per-population", len(got) == 1)
        args = got[0]
        v.prove("batch", any(isinstance(x, Sc) and x.re.eq(batch.re) for x in args))
        if not rank:
            return
        t, n = iter_index(v), iter_count(v)
        tot = z3.IntVal(1)
        for d in dims:
            tot = tot * d.re
        v.prove("every-population", n == tot)
        tups = [x for x in args if isinstance(x, tuple) and len(x) == rank]
        isdim = lambda x: all(isinstance(q, Sc) and q.re.eq(d.re) for q, d in zip(x, dims))
        ks = [x for x in tups if not isdim(x)]
        if len(ks) != 1 or len(tups) != 2:
            raise Unsupported("population index and dimensions are not passed as tuples")
        k = [z3i(q) for q in ks[0]]
        flat = k[0]
        for a in range(1, rank):
            flat = flat * dims[a].re + k[a]
        v.prove("population-in-order", z3.And(flat == t, *[z3.And(q >= 0, q < d.re) for q, d in zip(k, dims)]))
    return h


populations(0)
populations(1)
populations(2)


def uniform(rank):
    @harness(f"uniform[{rank}]", funcs=[P + "uniform_positions", "glass._array_api_utils.XPAdditions.ndindex"])
    def h(v):
        dims = tuple(v.int(f"d{a}", lo=1) for a in range(rank))
        G = v.arr("ngal", dims, lo=0)
        rng = v.rng()
        v.cover()
        gen = v.call(v.fn(P + "uniform_positions"), G, rng=rng)
        if rank:
            got = one_yield(v, gen)
            if got is None:
                return
        else:
            got = (v.call(next, gen),)
            try:
                v.call(next, gen, raises=(StopIteration,))
                v.prove("single-batch", False)
            except Exception as e:  # noqa: BLE001
                if not isinstance(getattr(e, "__cause__", None), StopIteration):
                    raise
        lon, lat, count = got[0]
        draws = events("draw")
        num = [d for d in draws if d.method == "poisson"]
        if len(num) != 1:
            raise Unsupported("numbers are not one Poisson draw")
        N, lam = num[0].result, num[0].lam
        if rank == 0:
            k = ()
            mean = lam.at().re if isinstance(lam, SArr) else lam.re
            n = N.at().re if isinstance(N, SArr) else N.re
        else:
            t, cnt = iter_index(v), iter_count(v)
            tot = z3.IntVal(1)
            for d in dims:
                tot = tot * d.re
            v.prove("every-population", cnt == tot)
            k = [v.ix(f"pop{a}", d) for a, d in enumerate(dims)]
            flat = k[0]
            for a in range(1, rank):
                flat = flat * dims[a].re + k[a]
            v.assume(flat == t)
            v.dims("numbers", N, dims)
            n, mean = N.at(*k).re, lam.at(*k).re
        area = 4 * PI * (z3.RealVal(180 * 60) / PI) * (z3.RealVal(180 * 60) / PI)
        v.prove("mean-number", real(Sc("r", mean)) == real(G.at(*k)) * area)
        v.dims("longitudes", lon, (Sc("i", n),))
        v.dims("latitudes", lat, (Sc("i", n),))
        q = v.ix("q", Sc("i", n))
        v.prove("longitude-range", z3.And(real(lon.at(q)) >= -180, real(lon.at(q)) <= 180))
        v.prove("latitude-range", z3.And(real(lat.at(q)) >= -90, real(lat.at(q)) <= 90))
        if rank == 0:
            v.prove("count", z3i(count) == n)
        else:
            v.dims("count.shape", count, dims)
            o = [v.ix(f"o{a}", d) for a, d in enumerate(dims)]
            v.prove("count", count.at(*o).re == z3.If(z3.And(*[a == b for a, b in zip(o, k)]), n, 0))
    return h


uniform(0)
uniform(1)
uniform(2)
