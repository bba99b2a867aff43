"""C24: files written and read back, on the real code (in a scratch directory)."""
import os
import shutil
import tempfile

import numpy as np
from common import expect, expect_close

import glass


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-c24-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def t_spectra(r):
    n = int(r.integers(1, 9))
    sizes = r.integers(0, 7, n)
    cls = [r.normal(size=int(s)) for s in sizes]
    if r.random() < 0.3:
        cls = tuple(cls)
    with Scratch() as d:
        f = os.path.join(d, "cls.npz")
        glass.save_cls(f, cls)
        out = glass.load_cls(f)
    info = dict(sizes=sizes, got=[len(x) for x in out])
    expect(len(out) == n, "number of spectra", **info)
    for a, b in zip(out, cls):
        expect(len(a) == len(b), "length of a spectrum", **info)
        expect_close(np.asarray(a), b, "values of a spectrum", rtol=0, atol=0, **info)


def t_catalogue(r):
    import fitsio
    ext = [None, "CATALOG", "Galaxies"][r.integers(3)]
    names = ["RA", "DEC", "Z", "FLAG"][:int(r.integers(1, 5))]
    hist = []
    rows = {q: [] for q in names}
    with Scratch() as d:
        f = os.path.join(d, "cat.fits")
        with glass.write_catalog(f, ext=ext) as w:
            for _ in range(int(r.integers(1, 7))):
                how = ["data", "columns", "both"][r.integers(3)]
                parts = []
                data, kw = None, {}
                if how in ("data", "both"):
                    n = int(r.integers(1, 6))
                    data = np.empty(n, dtype=[(q, float) for q in names])
                    for q in names:
                        data[q] = r.normal(size=n)
                    parts.append({q: data[q].copy() for q in names})
                if how in ("columns", "both"):
                    n = int(r.integers(1, 6))
                    perm = list(r.permutation(names)) if rows[names[0]] or data is not None else names
                    kw = {str(q): r.normal(size=n) for q in perm}
                    parts.append({q: kw[q].copy() for q in names})
                hist.append((how, [len(p[names[0]]) for p in parts]))
                if data is None:
                    w.write(**kw)
                else:
                    w.write(data, **kw)
                for p in parts:
                    for q in names:
                        rows[q].append(p[q])
        with fitsio.FITS(f) as fits:
            tabs = [h for h in fits if h.get_exttype() == "BINARY_TBL"]
            info = dict(ext=ext, columns=names, writes=hist)
            expect(len(tabs) == 1, "number of tables", tables=len(tabs), **info)
            t = tabs[0].read()
            if ext is not None:
                expect(tabs[0].get_extname().lower() == ext.lower(), "name of the table", got=tabs[0].get_extname(), **info)
    expect(sorted(t.dtype.names) == sorted(names), "columns", got=t.dtype.names, **info)
    for q in names:
        want = np.concatenate(rows[q])
        expect(len(t[q]) == len(want), "number of rows", got=len(t[q]), want=len(want), **info)
        expect_close(np.asarray(t[q], dtype=float), want, f"rows of column {q}", rtol=0, atol=0, **info)
