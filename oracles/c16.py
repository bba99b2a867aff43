"""C16: great-circle displacement on the real code."""
import numpy as np
from common import backend, backends, expect, expect_close

import glass
import glass.lensing


def xyz(lon, lat):
    lo, la = np.radians(lon), np.radians(lat)
    return np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])


def target(lon, lat, a, g):
    lo, la = np.radians(lon), np.radians(lat)
    north = np.array([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)])
    east = np.array([-np.sin(lo), np.cos(lo), 0 * lo])
    return np.cos(a) * xyz(lon, lat) + np.sin(a) * (np.cos(g) * north + np.sin(g) * east)


def points(r, n):
    lon = r.uniform(-180, 360, n)
    lat = np.degrees(np.arcsin(r.uniform(-1, 1, n)))
    if r.random() < 0.3:
        lon, lat = np.round(lon / 45) * 45, np.round(lat / 45) * 45.0
    return lon, lat


def amplitude(r, n):
    a = r.uniform(0, np.pi, n) if r.random() < 0.5 else np.exp(r.uniform(-12, np.log(3), n))
    g = r.uniform(-np.pi, np.pi, n)
    if r.random() < 0.3:
        g = np.round(g / (np.pi / 2)) * np.pi / 2
    return a, g


def t_displace(r):
    b = backend(backends()[r.integers(3)])
    shape = [(7,), (), (2, 3)][r.integers(3)]
    lon, lat = points(r, shape)
    a, g = amplitude(r, shape)
    alpha = a * np.exp(1j * g)
    want = target(lon, lat, a, g)
    info = dict(lon=lon, lat=lat, alpha=alpha, backend=b.__name__)
    forms = [b.asarray(alpha)]
    if b.__name__ != "array_api_strict":          # arrays of that backend cannot be unpacked
        forms.append(b.asarray(np.stack([alpha.real, alpha.imag])))
    for al in forms:
        lo2, la2 = glass.displace(b.asarray(lon), b.asarray(lat), al)
        got = xyz(np.asarray(lo2), np.asarray(la2))
        expect_close(got, want, "displaced position", rtol=1e-8, atol=1e-8, **info)
        expect(np.abs(np.asarray(la2)) <= 90 + 1e-9, "latitude range", **info)
        lo3, la3 = glass.deflect(b.asarray(lon), b.asarray(lat), al)
        expect_close(la3, la2, "latitude of the older deflection", rtol=1e-8, atol=1e-8, **info)
        d = (np.asarray(lo3) - lon) + (np.asarray(lo2) - lon)
        expect_close(np.cos(np.radians(d)), np.ones(shape), "mirrored longitude change", rtol=1e-8, atol=1e-8, **info)


def t_displacement(r):
    b = backend(backends()[r.integers(3)])
    n = 8
    lon, lat = points(r, n)
    if r.random() < 0.5:
        lon2, lat2 = points(r, n)
    else:                      # close pairs
        e = 10.0 ** r.uniform(-8, -1)
        lon2, lat2 = lon + e * r.normal(size=n), np.clip(lat + e * r.normal(size=n), -90, 90)
    info = dict(from_lon=lon, from_lat=lat, to_lon=lon2, to_lat=lat2, backend=b.__name__)
    al = glass.displacement(*map(b.asarray, (lon, lat, lon2, lat2)))
    al0 = np.asarray(al)
    expect(np.abs(al0) <= np.pi + 1e-9, "modulus range", **info)
    lo, la = glass.displace(b.asarray(lon), b.asarray(lat), al)
    expect_close(xyz(np.asarray(lo), np.asarray(la)), xyz(lon2, lat2), "displacement reaches the second point",
                 rtol=1e-7, atol=1e-7 * 0 + 2e-8, **info)
    expect_close(target(lon, lat, np.abs(al0), np.angle(al0)), xyz(lon2, lat2), "displacement vector", rtol=1e-7, atol=2e-8, **info)
    # the modulus is the angular separation, accurate for close pairs as well
    c = np.linalg.norm(xyz(lon, lat) - xyz(lon2, lat2), axis=0)
    expect_close(2 * np.sin(np.abs(al0) / 2), c, "angular separation", rtol=1e-5, atol=1e-12, **info)


def t_directions(r):
    a = 10.0 ** r.uniform(-3, 1.7)          # degrees
    lon0 = r.uniform(-180, 180)
    lat0 = r.uniform(-60, 0)
    lo, la = glass.displace(np.array([lon0]), np.array([lat0]), np.array([np.radians(a) + 0j]))
    expect_close(np.asarray(la), [lat0 + a], "zero argument moves north", lon=lon0, lat=lat0, a=a)
    lo, la = glass.displace(np.array([lon0]), np.array([0.0]), np.array([1j * np.radians(a)]))
    expect_close(np.asarray(lo), [lon0 + a], "argument 90 degrees moves east", lon=lon0, a=a)
