"""C16: displacement moves along the great circle and inverts."""
import z3

from pv import vals as V
from pv.harness import harness
from pv.vals import F, PI, Sc

P = "glass.points."
L = "glass.lensing."


def sin(t):
    return V.s_sin(Sc("r", t)).re


def cos(t):
    return V.s_cos(Sc("r", t)).re


def rad(t):
    return V.cancel_pi(t * PI / 180)


def moved(v, pre, lon, lat, lon2, lat2, a1, a2, mirror=False):
    """(lon2, lat2) is the point at distance a = |alpha| on the great circle leaving (lon, lat) at bearing g."""
    T = rad(lat)
    a = F["sqrt"](z3.simplify(a1 * a1 + a2 * a2))
    g = F["atan2"](a2, a1)
    st, ct, sa, ca, sg, cg = sin(T), cos(T), sin(a), cos(a), sin(g), cos(g)
    # the polar form of the displacement: modulus and bearing
    v.lemma(pre + ".polar", z3.And(a >= 0, a * cg == a1, a * sg == a2))
    # cos(a) * position + sin(a) * (cos(g) * north + sin(g) * east), in the frame of the meridian of the point
    X, Y, Z = ct * ca - st * sa * cg, sa * sg, st * ca + ct * sa * cg
    v.lemma(pre + ".unit", X * X + Y * Y + Z * Z == 1)
    T2 = rad(lat2)
    D = rad(lon - lon2) if mirror else rad(lon2 - lon)
    s2, c2, sd, cd = sin(T2), cos(T2), sin(D), cos(D)
    for t in v.apps("atan2", lon2, lat2):
        if not t.eq(g):
            y, x = t.arg(0), t.arg(1)
            x2 = x.arg(0) if x.decl().name() == "sqrt" else x * x
            if v.hint(y * y + x2 == 1) or v.hint(y * y + x2 == X * X + Y * Y):
                if x.decl().name() == "sqrt":
                    v.hint(x.arg(0) >= 0)
    v.prove(pre + ".latitude-range", z3.And(lat2 >= -90, lat2 <= 90))
    v.prove(pre + ".longitude-change-range", z3.And(lon2 - lon >= -180, lon2 - lon <= 180))
    v.prove(pre + ".z", s2 == Z)
    v.lemma(pre + ".cos-latitude-nonneg", c2 >= 0)
    v.lemma(pre + ".cos-latitude", c2 * c2 == X * X + Y * Y)
    us, gen = [c2 >= 0, c2 * c2 == X * X + Y * Y], [c2, cd, sd, X, Y]
    for t in v.apps("atan2", lon2):
        if t.eq(g):
            continue
        y, x = t.arg(0), t.arg(1)
        r = F["sqrt"](z3.simplify(x * x + y * y))
        facts = [z3.And(r * cos(t) == x, r * sin(t) == y, r >= 0, r * r == x * x + y * y), cd == cos(t), sd == sin(t),
                 x == X, y == Y]
        us += [f for f in facts if v.hint(f) and v.c.known(f)]
        gen += [r, cos(t), sin(t), x, y]
    v.prove(pre + ".x", c2 * cd == X, using=us, gen=gen)
    v.prove(pre + ".y", c2 * sd == Y, using=us, gen=gen)


def inputs(v, form, shape):
    lon, lat = v.arr("lon", shape), v.arr("lat", shape)
    if form == "complex":
        alpha = v.arr("alpha", shape, "c")
        at = lambda *i: (alpha.at(*i).re, alpha.at(*i).im)
    else:
        alpha = v.arr("alpha", (2, *shape))
        at = lambda *i: (alpha.at(z3.IntVal(0), *i).re, alpha.at(z3.IntVal(1), *i).re)
    return lon, lat, alpha, at


def mk(fname, form, mirror):
    @harness(f"{fname.split('.')[-1]}[{form}]", funcs=[fname])
    def h(v):
        n = v.int("n", lo=1)
        lon, lat, alpha, at = inputs(v, form, (n,))
        i = v.ix("i", n)
        v.cover()
        lo2, la2 = v.call(v.fn(fname), lon, lat, alpha)
        v.dims("lon.shape", lo2, (n,))
        v.dims("lat.shape", la2, (n,))
        moved(v, "moved", lon.at(i).re, lat.at(i).re, lo2.at(i).re, la2.at(i).re, *at(i), mirror=mirror)
    return h


for _f in ("complex", "components"):
    mk(P + "displace", _f, False)
    mk(L + "deflect", _f, True)


@harness("displacement", funcs=[P + "displacement"])
def displacement(v):
    n = v.int("n", lo=1)
    lon1, lat1, lon2, lat2 = (v.arr(k, (n,)) for k in ("lon1", "lat1", "lon2", "lat2"))
    i = v.ix("i", n)
    for lat in (lat1, lat2):
        v.assume(z3.And(lat.at(i).re >= -90, lat.at(i).re <= 90))
    v.cover()
    out = v.call(v.fn(P + "displacement"), lon1, lat1, lon2, lat2)
    v.dims("shape", out, (n,))
    o = V.cast(out.at(i), "c")
    re, im = o.re, o.im
    A, B, G = rad(lat1.at(i).re), rad(lat2.at(i).re), rad(lon2.at(i).re - lon1.at(i).re)
    sa, ca, sb, cb, sg, cg = sin(A), cos(A), sin(B), cos(B), sin(G), cos(G)
    # second point in the frame (meridian, east, pole) of the first
    QX, QY, QZ = cb * cg, cb * sg, sb
    north, east, up = ca * QZ - sa * QX, QY, sa * QZ + ca * QX      # components along N, E and the position
    v.lemma("unit", north * north + east * east + up * up == 1)
    a = F["sqrt"](z3.simplify(re * re + im * im))
    g = F["atan2"](im, re)
    sg_, cg_, sn_, cs_ = sin(g), cos(g), sin(a), cos(a)
    S = re * re + im * im
    v.lemma("modulus", z3.And(a >= 0, a * a == S))
    cand = v.apps("atan2", re, im)       # whichever angles the code computes: modulus and bearing
    same = []
    for t in cand:
        y, x = t.arg(0), t.arg(1)
        y2 = y.arg(0) if y.decl().name() == "sqrt" else y * y
        if y.decl().name() == "sqrt":
            v.hint(y2 >= 0, using=())
        v.hint(y2 + x * x == 1)
        v.hint(y2 + x * x == 1 - up * up)
        if v.hint(t * t == S):
            rng = z3.And(t >= 0, t <= PI)
            if v.hint(rng) and v.hint(a == t, using=[z3.And(a >= 0, a * a == S), t * t == S, rng], gen=[a, t, re, im]):
                same.append(t)
                v.hint(z3.And(sn_ == sin(t), cs_ == cos(t)), using=[a == t])
    rng = [z3.And(t >= 0, t <= PI) for t in same] + [a == t for t in same]
    v.prove("modulus-range", z3.And(a >= 0, a <= PI), using=rng or None)
    v.lemma("polar", z3.And(a * cg_ == re, a * sg_ == im))
    for t in cand:
        if not any(t.eq(s) for s in same):
            us = [z3.And(a * cg_ == re, a * sg_ == im)] + [a == s for s in same]
            v.hint(z3.Implies(a != 0, z3.And(cg_ == cos(t), sg_ == sin(t))), using=us, gen=[a, *same, cos(t), sin(t), cg_, sg_])
    v.prove("distance", cs_ == up)
    v.lemma("sine-nonneg", sn_ >= 0)
    v.lemma("circle", sn_ * sn_ + cs_ * cs_ == 1)
    v.lemma("sine", sn_ * sn_ == north * north + east * east,
            using=[north * north + east * east + up * up == 1, cs_ == up, sn_ * sn_ + cs_ * cs_ == 1],
            gen=[cs_, sn_, north, east, up])
    sine = sn_ * sn_ == north * north + east * east
    v.hint(z3.Implies(a == 0, z3.And(sn_ == 0, north == 0, east == 0)), using=[sine], gen=[north, east])
    us = [z3.Implies(a == 0, z3.And(sn_ == 0, north == 0, east == 0)), sine, sn_ >= 0]
    gen = [a, sn_, cg_, sg_, north, east]
    for t in cand:
        if not any(t.eq(s) for s in same):
            r = F["sqrt"](z3.simplify(t.arg(0) * t.arg(0) + t.arg(1) * t.arg(1)))
            f1 = z3.And(r * cos(t) == t.arg(1), r * sin(t) == t.arg(0), r >= 0, r * r == t.arg(0) * t.arg(0) + t.arg(1) * t.arg(1))
            if v.hint(f1):
                us += [f1, z3.Implies(a != 0, z3.And(cg_ == cos(t), sg_ == sin(t)))]
                gen += [r, cos(t), sin(t)]
    us = [u for u in us if v.c.known(u)]
    v.prove("north", sn_ * cg_ == north, using=us, gen=gen)
    v.prove("east", sn_ * sg_ == east, using=us, gen=gen)
