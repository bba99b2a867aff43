"""C24: saved spectra and catalogues read back complete."""
import z3

from pv.arr import SArr, rsum
from pv import xp as X
from pv.core import Unsupported, ctx, z3i
from pv.harness import harness
from pv.seq import SSeq, to_seq
from pv.vals import Sc, cast

P = "glass.user."
R, I = z3.RealSort(), z3.IntSort()
ZERO = z3.IntVal(0)
ST = {}


@harness("spectra", funcs=[P + "save_cls", P + "load_cls"])
def spectra(v):
    c = ctx()
    n = v.int("n", lo=1)
    size = v.arr("size", (n,), "i", lo=0)
    val = c.fresh_fun("cl", 2)
    ln = lambda k: size.at(k).re
    cls = v.seq("cls", n, lambda k: SArr((Sc("i", ln(k)),), "r", lambda i: Sc("r", val(k, i)), X.NUMPY)) if False else SSeq(
        n, lambda k: SArr((Sc("i", ln(k)),), "r", lambda i: Sc("r", val(k, i)), X.NUMPY))
    k = v.ix("k", n)
    j = z3.Int("ix!j")
    v.cover()
    v.call(v.fn(P + "save_cls"), "file.npz", cls)
    out = to_seq(v.call(v.fn(P + "load_cls"), "file.npz"))
    S = lambda lo, hi: rsum(lo, hi, lambda q: size.at(q)).re
    v.hint(z3.And(S(ZERO, k) >= 0, S(ZERO, k + 1) == S(ZERO, k) + ln(k), S(ZERO, n.re) == S(ZERO, n.re - 1) + ln(n.re - 1)))
    v.hint(z3.Implies(k > 0, S(ZERO, k) == S(ZERO, k - 1) + ln(k - 1)))
    v.hint(z3.And(S(ZERO, n.re) == S(ZERO, k + 1) + S(k + 1, n.re), S(k + 1, n.re) >= 0))
    v.length("count", out, n)
    a = out.getter(k)
    v.dims("length", a, (Sc("i", ln(k)),))
    v.assume(z3.And(j >= 0, j < ln(k)))
    p = v.let("ix!p", S(ZERO, k) + j)
    got = cast(a.at(j), "r").re
    ks = [t for t in apps(got) if t.decl().name().startswith("flat")]
    for t in ks:
        v.lemma("position", z3.And(t >= 0, t < n.re, S(ZERO, t) <= S(ZERO, k) + j, S(ZERO, k) + j < S(ZERO, t) + ln(t)))
        for lo, hi in ((t, k), (k, t)):
            v.lemma("order", z3.Implies(lo < hi, z3.And(S(ZERO, hi) == S(ZERO, lo) + S(lo, hi), S(lo, hi) == ln(lo) + S(lo + 1, hi), S(lo + 1, hi) >= 0)))
        v.lemma("spectrum", t == k)
    v.prove("values", got == val(k, j))


def apps(e):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            out.append(x)
        todo.extend(x.children())
    return out


# ------------------------------------------------------------------ catalogue files
class Rec:
    """a structured array: named columns of equal length"""

    def __init__(self, cols):
        self.cols = cols


class Table:
    """a binary table: rows of named columns"""

    def __init__(self, num, name, cols, nrows):
        self.num, self.name, self.cols, self.nrows = num, name, cols, nrows

    def get_extnum(self):
        return self.num

    def get_extname(self):
        return self.name or ""

    def get_nrows(self):
        return Sc("i", self.nrows)

    def write(self, data, firstrow=0, columns=None, names=None, **kw):
        if kw:
            raise Unsupported("option of a table write")
        cols = columns_of(data, columns if columns is not None else names)
        unknown = [q for q in cols if q not in self.cols]
        if unknown:
            raise ValueError(f"no column {unknown}")
        r = z3i(firstrow)
        n = rows(cols)
        v = ST["v"]
        for q, a in cols.items():
            old, new = self.cols[q], a.copy_().reader()
            self.cols[q] = (lambda old, new: lambda i: z3.If(z3.And(i >= r, i < r + n), cast(new(z3.simplify(i - r)), "r").re, old(i)))(old, new)
        if sorted(cols) != sorted(self.cols):
            ST["partial"] = True
        self.nrows = z3.simplify(z3.If(r + n > self.nrows, r + n, self.nrows))

    def append(self, data, columns=None, names=None, **kw):
        self.write(data, firstrow=self.get_nrows(), columns=columns, names=names, **kw)


def columns_of(data, names):
    if isinstance(data, Rec):
        return dict(data.cols)
    if isinstance(data, dict):
        return dict(data)
    data = list(data)
    if names is None:
        raise ValueError("names are needed for a list of columns")
    names = list(names)
    if len(names) != len(data):
        raise ValueError("names do not match the columns")
    return dict(zip(names, data))


def rows(cols):
    ns = {str(z3i(a.shape[0])): z3i(a.shape[0]) for a in cols.values()}
    if len(ns) != 1:
        raise Unsupported("columns of different length")
    return next(iter(ns.values()))


class Image:
    def __init__(self, num):
        self.num, self.name = num, None

    def get_extnum(self):
        return self.num

    def get_extname(self):
        return ""


class Fits:
    """an open FITS file: header-data units in order, found by number or name"""

    def __init__(self, *a, **kw):
        self.opened = (a, kw)
        self.hdus, self.closed = [], False
        ST.setdefault("files", []).append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return None

    def close(self):
        self.closed = True

    def write(self, data, **kw):
        if data is not None:
            raise Unsupported("data written to the file directly")
        self.hdus.append(Image(len(self.hdus)))

    def write_table(self, data, table_type="binary", names=None, formats=None, units=None, extname=None, **kw):
        if kw or table_type != "binary" or formats or units:
            raise Unsupported("option of write_table")
        cols = columns_of(data, names)
        t = Table(len(self.hdus), extname, {q: (lambda a: lambda i: cast(a(i), "r").re)(a.copy_().reader()) for q, a in cols.items()}, rows(cols))
        self.hdus.append(t)

    def find(self, x):
        if isinstance(x, str):
            hits = [h for h in self.hdus if h.name is not None and h.name.lower() == x.lower()]
            if not hits:
                raise OSError(f"extension not found: {x}")
            return hits[0]
        if isinstance(x, int):
            return self.hdus[x]
        raise Unsupported("extension given in another way")

    def __contains__(self, x):
        try:
            self.find(x)
            return True
        except (OSError, IndexError):
            return False

    def __getitem__(self, x):
        return self.find(x)

    def __len__(self):
        return len(self.hdus)


class FitsModule:
    FITS = Fits
    BINARY_TBL, ASCII_TBL, IMAGE_HDU = 2, 1, 0


def state(v, ext, table):
    """a writer and its file, as write_catalog makes them, after any number of writes"""
    c = ctx()
    f = Fits("file", "rw")
    f.write(None)
    old = None
    N = None
    if table:
        N = v.int("rows", lo=1).re
        old = {q: c.fresh_fun("old_" + q, 1) for q in ("RA", "DEC")}
        f.hdus.append(Table(1, ext, {q: (lambda g: lambda i: g(i))(g) for q, g in old.items()}, N))
    w = v.fn(P + "_FitsWriter")(f, ext if ext is not None or not table else 1)
    return f, w, old, N


def writes(extk, table, mode):
    ext = {"name": "CATALOG", "none": None}[extk]

    @harness(f"write[{extk},{'more' if table else 'first'},{mode}]", funcs=[P + "_FitsWriter.write", P + "_FitsWriter._append"],
             stubs=lambda: {"fitsio": FitsModule})
    def h(v):
        ST.clear()
        ST["v"] = v
        f, w, old, N = state(v, ext, table)
        parts = []
        if mode in ("data", "both"):
            m = v.int("m", lo=1)
            parts.append((m, {q: v.arr("data_" + q, (m,)) for q in ("RA", "DEC")}))
        if mode in ("columns", "both", "swapped"):
            m = v.int("k", lo=1)
            names = ("DEC", "RA") if mode == "swapped" else ("RA", "DEC")
            parts.append((m, {q: v.arr("col_" + q, (m,)) for q in names}))
        v.cover()
        args = [Rec(dict(parts[0][1]))] if mode in ("data", "both") else []
        kw = dict(parts[-1][1]) if mode != "data" else {}
        v.call(w.write, *args, **kw)
        tabs = [t for t in f.hdus if isinstance(t, Table)]
        if len(tabs) != 1:
            v.c.fail("table", f"the file holds {len(tabs)} tables")
            return
        t = tabs[0]
        if ST.get("partial"):
            v.c.fail("columns", "rows are written without all of their columns")
        v.prove("name", z3.BoolVal(ext is None or (t.name or "").lower() == ext.lower()))
        base = N if table else ZERO
        total = z3.Sum(base, *[m.re for m, _ in parts])
        v.prove("rows", t.nrows == total)
        v.prove("columns", z3.BoolVal(sorted(t.cols) == ["DEC", "RA"]))
        if table:
            i = v.ix("i", N)
            for q in old:
                v.prove(f"kept.{q}", t.cols[q](i) == old[q](i))
        off = base
        for b, (m, cols) in enumerate(parts):
            i = v.ix(f"r{b}", m)
            for q, a in cols.items():
                v.prove(f"appended{b}.{q}", t.cols[q](z3.simplify(off + i)) == cast(a.at(i), "r").re)
            off = off + m.re
        # the writer goes on with this table (so the step above applies to the next write)
        m2 = v.int("m2", lo=1)
        before = t.nrows
        was = dict(t.cols)
        v.call(w.write, **{q: v.arr("next_" + q, (m2,)) for q in ("RA", "DEC")})
        v.prove("continues", z3.And(z3.BoolVal(len(f.hdus) == 2), t.nrows == before + m2.re))
        i = v.ix("z", Sc("i", before))
        for q in was:
            v.prove(f"continues.{q}", t.cols[q](i) == was[q](i))
    return h


for _e in ("name", "none"):
    for _t in (False, True):
        for _m in ("data", "columns", "both", "swapped"):
            writes(_e, _t, _m)


def opened(extk):
    @harness(f"write_catalog[{extk}]", funcs=[P + "write_catalog"], stubs=lambda: {"fitsio": FitsModule})
    def h(v):
        """the file starts empty, the writer is in its initial state, and the file is closed in the end"""
        ST.clear()
        ST["v"] = v
        v.cover()
        ext = {"name": "CATALOG", "none": None}[extk]
        with v.call(v.fn(P + "write_catalog"), "name.fits", ext=ext) as w:
            if len(ST["files"]) != 1:
                raise Unsupported("files are opened in another way")
            f = ST["files"][0]
            a, kw = f.opened
            a = list(a) + [None] * 2
            mode, clob = kw.get("mode", a[1]), kw.get("clobber", False)
            v.prove("opened", z3.BoolVal((kw.get("filename", a[0])) == "name.fits" and mode == "rw" and clob is True))
            v.prove("empty", z3.BoolVal(len(f.hdus) == 1 and isinstance(f.hdus[0], Image)))
            v.prove("initial", z3.BoolVal(type(w).__name__ == "_FitsWriter" and w.fits is f and w.ext == ext))
            v.prove("open", z3.BoolVal(not f.closed))
        v.prove("closed", z3.BoolVal(f.closed))
    return h


opened("name")
opened("none")

ASSUMPTIONS = [
    "fitsio: a table HDU keeps the rows written to it, write(firstrow=r) overwrites rows from r on and extends the table, HDUs are found by number "
    "or by name; numpy: savez and load give back the arrays that were stored, split cuts at the given points",
]
LEVEL_NOTE = ("spectra: any number of spectra of any length; catalogue: inductive step over writes from every state the writer can be in, with two "
              "columns (column code is the same for any number)")
