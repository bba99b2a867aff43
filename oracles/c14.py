"""C14: sampled positions on the real code."""
import healpy as hp
import numpy as np
from common import Rng, backend, backends, expect, expect_close

import glass


def pick(r):
    return backend(backends()[r.integers(3)])


def t_positions(r):
    b = np
    big = r.random() < 0.15
    ns = 16 if big else int(r.choice([1, 2, 4, 8]))
    npix = 12 * ns * ns
    pop = [(), (2,), (3,), (2, 2), (1,)][r.integers(3 if big else 5)]
    num = []

    def numbers(g, lam, size):
        kind = int(g.integers(7))
        n = np.zeros(npix, dtype=np.int64)
        if kind == 0:
            n = g.poisson(0.5, npix)
        elif kind == 1:
            n = g.poisson(3.0, npix)
        elif kind == 2:
            n[g.integers(npix)] = g.integers(1, 40)
        elif kind == 3:
            n[-1] = g.integers(1, 40)
        elif kind == 4:
            n[g.integers(npix, size=3)] = g.integers(0, 200, size=3)
        elif kind == 5:
            n[: int(g.integers(npix))] = g.integers(1, 4)
        n = n.astype(np.int64)
        num.append(n)
        return n

    rng = Rng(r, poisson=numbers)
    batch = int(r.choice([1, 2, 3, 5, 10, 50, 100, 999, 1000, 1001, 100000])) if r.random() < 0.8 else int(r.integers(1, 3000))
    if big:
        batch = max(batch, 100)
    state = np.random.get_state()
    np.random.seed(int(r.integers(2 ** 31)))
    out = list(glass.positions_from_delta(b.asarray(np.full(pop, 1e-5)), b.asarray(np.zeros((*pop, npix))), batch=batch, rng=rng))
    np.random.set_state(state)
    P = int(np.prod(pop, dtype=int))
    expect(len(num) == P, "one draw per population", pop=pop)
    t = 0
    rows = [np.zeros(npix, dtype=np.int64) for _ in range(P)]
    total = np.zeros(pop, dtype=np.int64)
    seen = []
    info = dict(nside=ns, pop=pop, batch=batch, numbers=num)
    for lon, lat, cnt in out:
        lon, lat = np.asarray(lon), np.asarray(lat)
        cnt = np.asarray(cnt)
        expect(lon.shape == lat.shape and lon.ndim == 1, "positions are one-dimensional", **info)
        expect(cnt.shape == pop, "shape of the counts", count=cnt, **info)
        expect(int(cnt.sum()) == lon.size, "counts add up to the positions yielded", count=cnt, size=lon.size, **info)
        nz = np.flatnonzero(cnt.reshape(-1))
        expect(nz.size <= 1, "a batch belongs to one population", count=cnt, **info)
        pix = hp.ang2pix(ns, lon, lat, lonlat=True)
        if lon.size == 0:
            continue
        t = int(nz[0])
        seen.append(t)
        rows[t] += np.bincount(pix, minlength=npix)
        expect(lon.size <= batch or np.unique(pix).size == 1, "batch too large", size=lon.size, **info)
        total += cnt
    expect(seen == sorted(seen), "populations are not in order", order=seen, **info)
    for t in range(P):
        expect(rows[t] == num[t], "galaxies per pixel", population=t, got=rows[t], **info)
    expect(total.reshape(-1) == np.array([n.sum() for n in num]), "total counts", got=total, **info)


def t_uniform(r):
    b = np
    pop = [(), (2,), (3,), (2, 2), (1, 2)][r.integers(5)]
    ngal = r.uniform(0, 3e-6, pop)
    num = []

    def numbers(g, lam, size):
        n = g.integers(0, 60, size=pop)
        num.append((np.array(lam), np.asarray(n)))
        return n if pop else np.asarray(n)

    rng = Rng(r, poisson=numbers)
    out = list(glass.uniform_positions(b.asarray(ngal), rng=rng))
    info = dict(ngal=ngal, pop=pop, numbers=[n for _, n in num])
    expect(len(num) == 1, "one draw of the numbers", **info)
    lam, n = num[0]
    expect_close(lam, ngal * 4 * np.pi * (180 * 60 / np.pi) ** 2, "mean number", rtol=1e-9, **info)
    expect(len(out) == n.size, "one item per population", items=len(out), **info)
    for t, (lon, lat, cnt) in enumerate(out):
        want = np.zeros(n.size, dtype=int)
        want[t] = n.reshape(-1)[t]
        expect(np.shape(lon) == (want[t],) and np.shape(lat) == (want[t],), "number of positions", population=t, **info)
        expect(np.shape(cnt) == pop, "shape of the count", **info)
        expect(np.asarray(cnt).reshape(-1) == want, "count", got=cnt, population=t, **info)
        expect(np.all(np.abs(np.asarray(lon)) <= 180), "longitude range", lon=lon, **info)
        expect(np.all(np.abs(np.asarray(lat)) <= 90), "latitude range", lat=lat, **info)
        if want[t] >= 20:
            expect(np.ptp(np.asarray(lon)) > 90, "longitudes do not cover the circle", lon=lon, **info)
            expect(np.ptp(np.asarray(lat)) > 20, "latitudes do not cover the sphere", lat=lat, **info)
