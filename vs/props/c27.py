"""Dataset readers: every record of the archive, exactly, and nothing else.

The archive written for a symbolic run holds a distinct numeral (or one
private-use character for a click label) in the place of every symbolic cell;
pandas parses that text, and the cells are replaced by their solver terms as
they leave the parser (pd.read_csv / to_numeric / int as seen by the dataset
modules).  Everything after the parser - selection, conversion, duplicates,
exploding, joining - runs on terms.  The native replay writes the values."""
import contextlib
import re
import shutil
import sys
import tempfile
import zipfile
from fractions import Fraction
from pathlib import Path

import numpy as np
import pandas as pd

from ..ctx import H

ID = "C27"
MODULES = []
FUNCTIONS = ["irspack.dataset.neu_mf NeuMFDownloader.read_train_test", "irspack.dataset.citeulike CiteULikeADataManager.read_interaction, read_item_meta",
             "irspack.dataset.mind MINDDataManager.read_behaviors, read_impressions, read_interaction, read_item_info, read_entity_embeddings, "
             "read_relation_embeddings, _read_as_istream", "irspack.dataset.movielens ML100K / ML1M / ML20M read_interaction, read_item_info, read_user_info",
             "irspack.dataset.amazon_music AmazonMusicDataManager.read_interaction, read_metadata",
             "pandas text parser executed on placeholders (its numeral decoding is not encoded)"]
BOUNDS = ("archives of up to 3 records per file with symbolic integer ids (any equalities among them), ratings, times, counts, genre flags and click labels; "
          "up to 3 candidates per impression; every archive layout from a list (flat, one folder, two folders, nested name); every split selection")

BASE = 7000000
PRIV = 0xE000


class SymTime:
    """seconds since the epoch, as a term"""

    def __init__(self, sec):
        self.sec = sec


class SymStr(str):
    """text in which private-use characters stand for symbolic digits"""

    cells = None

    @classmethod
    def mk(cls, s):
        return cls(s) if any(ord(c) >= PRIV and ord(c) < PRIV + 0x800 for c in s) else str(s)

    def _digit(self, c):
        return SymStr.cells.labels.get(c)

    def _whole(self):
        """concrete text (case split over the digits)"""
        out = ""
        for c in str.__str__(self):
            v = self._digit(c)
            out += c if v is None else ("1" if bool(v == 1) else "0")
        return out

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        a, b = str.__str__(self), str.__str__(o)
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            u, v = self._digit(x), self._digit(y)
            if u is None and v is None:
                if x != y:
                    return False
            elif u is not None and v is not None:
                if not bool(u == v):
                    return False
            else:
                t, c = (u, y) if u is not None else (v, x)
                if c not in "01" or not bool(t == int(c)):
                    return False
        return True

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._whole())

    def split(self, *a, **k):
        return [SymStr.mk(x) for x in str.split(str.__str__(self), *a, **k)]

    def rsplit(self, *a, **k):
        return [SymStr.mk(x) for x in str.rsplit(str.__str__(self), *a, **k)]

    def partition(self, *a):
        return tuple(SymStr.mk(x) for x in str.partition(str.__str__(self), *a))

    def rpartition(self, *a):
        return tuple(SymStr.mk(x) for x in str.rpartition(str.__str__(self), *a))

    def strip(self, *a):
        return str.strip(self._whole(), *a) if a and a[0] is not None else SymStr.mk(str.strip(str.__str__(self)))

    def __getitem__(self, i):
        return SymStr.mk(str.__getitem__(str.__str__(self), i))

    def endswith(self, s, *a):
        if a or not isinstance(s, str):
            return self._whole().endswith(s, *a)
        return len(s) <= len(self) and self[len(self) - len(s):] == s

    def removesuffix(self, s):
        return self[: len(self) - len(s)] if s and self.endswith(s) else self

    def __str__(self):
        return self

    def __reduce__(self):
        return (str, (self._whole(),))


def _concrete(name):
    """methods which look into the text (replace, find, ...) decide the symbolic digits first"""
    def f(self, *a, **k):
        return getattr(self._whole(), name)(*a, **k)
    return f


for _n in ("replace", "find", "rfind", "index", "rindex", "count", "startswith", "removeprefix", "rstrip", "lstrip", "isdigit", "isnumeric",
           "isdecimal", "__contains__", "translate", "__lt__", "__le__", "__gt__", "__ge__", "__add__", "__iter__", "encode"):
    if _n not in SymStr.__dict__:
        setattr(SymStr, _n, _concrete(_n))


def _patch_pandas():
    """regular expressions see concrete text: one path per value of the symbolic digits"""
    import functools

    import pandas as pd
    from pandas.core.strings.accessor import StringMethods

    def wrap(name):
        orig = getattr(StringMethods, name)

        @functools.wraps(orig)
        def g(self, *a, **k):
            d = self._orig
            if isinstance(d, pd.Series) and any(isinstance(x, SymStr) for x in d):
                d = pd.Series([x._whole() if isinstance(x, SymStr) else x for x in d], index=d.index, name=d.name, dtype=object)
                return orig(d.str, *a, **k)
            return orig(self, *a, **k)
        setattr(StringMethods, name, g)

    for n in ("extract", "extractall", "match", "fullmatch", "findall", "contains", "replace", "count", "find", "rfind"):
        wrap(n)


_patch_pandas()


class Cells:
    def __init__(self, ctx):
        self.ctx = ctx
        self.nums = {}
        self.labels = {}
        self.patched = []

    # -- writing -------------------------------------------------------------
    def num(self, v):
        """text of a numeric cell"""
        if self.ctx.symbolic and self.ctx.core.is_sym(v):
            k = BASE + 1 + len(self.nums)
            self.nums[k] = v
            return str(k)
        return repr(v) if isinstance(v, float) else str(v)

    def label(self, v):
        if self.ctx.symbolic and self.ctx.core.is_sym(v):
            c = chr(PRIV + len(self.labels))
            self.labels[c] = v
            return c
        return str(v)

    # -- reading -------------------------------------------------------------
    def of(self, x):
        """term of a cell that is (still) a placeholder"""
        if isinstance(x, (str, bytes)):
            return x
        try:
            if isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool) and int(x) == x:
                return self.nums.get(int(x), x)
        except (ValueError, OverflowError):
            pass
        return x

    def cell(self, x):
        if isinstance(x, str):
            return SymStr.mk(x)
        return self.of(x)

    def frame(self, df):
        out = df
        for pos in range(df.shape[1]):
            col = df.iloc[:, pos]
            vals = col.tolist()
            new = [self.cell(v) for v in vals]
            if any(a is not b for a, b in zip(vals, new)):
                out = out.copy() if out is df else out
                arr = np.empty(len(new), dtype=object)
                arr[:] = new
                out.isetitem(pos, pd.Series(arr, index=df.index, dtype=object))
        idx = df.index.tolist()
        new = [self.cell(v) for v in idx]
        if any(a is not b for a, b in zip(idx, new)):
            out = out.copy() if out is df else out
            arr = np.empty(len(new), dtype=object)
            arr[:] = new
            out.index = pd.Index(arr, dtype=object, name=df.index.name)
        return out

    def read_csv(self, *a, **k):
        return self.frame(pd.read_csv(*a, **k))

    def _syms(self, x):
        vals = x.tolist() if hasattr(x, "tolist") else x
        return isinstance(vals, list) and any(self.ctx.core.is_sym(v) for v in vals)

    def to_numeric(self, x, *a, **k):
        if self._syms(x):
            return x
        r = pd.to_numeric(x, *a, **k)
        return self.frame(r.to_frame()).iloc[:, 0] if isinstance(r, pd.Series) else self.of(r)

    UNIT = {"D": Fraction(86400), "h": Fraction(3600), "m": Fraction(60), "s": Fraction(1), "ms": Fraction(1, 10**3), "us": Fraction(1, 10**6),
            "ns": Fraction(1, 10**9)}

    def to_datetime(self, x, *a, **k):
        if not self._syms(x):
            return pd.to_datetime(x, *a, **k)
        unit = k.get("unit") or "ns"
        sc = self.UNIT[unit]
        arr = np.empty(len(x), dtype=object)
        arr[:] = [SymTime(v * sc.numerator if sc.denominator == 1 else self.ctx.const(sc) * v) for v in x.tolist()]
        return pd.Series(arr, index=getattr(x, "index", None), dtype=object, name=getattr(x, "name", None))

    class _Int(type):
        me = None

        def __instancecheck__(cls, x):
            return isinstance(x, int)

        def __call__(cls, x=0, *a):
            if isinstance(x, SymStr):
                x = x._whole()
            r = int(x, *a) if a else int(x)
            return Cells._Int.me.of(r)

    @contextlib.contextmanager
    def inside(self):
        if not self.ctx.symbolic:
            yield
            return
        Cells._Int.me = self
        SymStr.cells = self
        shim_int = Cells._Int("int", (), {})

        class Proxy:
            read_csv = staticmethod(self.read_csv)
            read_table = staticmethod(lambda *a, **k: self.frame(pd.read_table(*a, **k)))
            to_numeric = staticmethod(self.to_numeric)
            to_datetime = staticmethod(self.to_datetime)

            def __getattr__(self, n):
                return getattr(pd, n)

        proxy = Proxy()
        saved = []
        for n, m in list(sys.modules.items()):
            if n.startswith("irspack.dataset") and m is not None:
                for key, old, new in (("pd", pd, proxy), ("int", None, shim_int), ("read_csv", pd.read_csv, self.read_csv),
                                      ("to_datetime", pd.to_datetime, self.to_datetime), ("to_numeric", pd.to_numeric, self.to_numeric)):
                    if old is None or m.__dict__.get(key) is old:
                        saved.append((m, key, m.__dict__.get(key)))
                        m.__dict__[key] = new
        try:
            yield
        finally:
            for m, key, old in saved:
                if old is None:
                    del m.__dict__[key]
                else:
                    m.__dict__[key] = old

    # -- comparing -----------------------------------------------------------
    def rows(self, df, columns):
        """list of records; None when a column is missing"""
        if not set(columns) <= set(df.columns):
            return None
        cols = [df[c].tolist() for c in columns]
        return [list(r) for r in zip(*cols)] if len(df) else []

    def same(self, label, got, want):
        """one cell"""
        ctx = self.ctx
        got = self.of(got)
        if isinstance(want, Sec):
            if isinstance(got, SymTime):
                ctx.eq(label, got.sec, want.sec)
            elif isinstance(got, pd.Timestamp):
                ctx.eq(label, (got - pd.Timestamp(0)) / pd.Timedelta(1, "s"), want.sec, 1e-12)
            else:
                ctx.check(label + " is a timestamp", False)
        elif want is None:
            ctx.check(label + " missing", got is None or got is pd.NA or got is pd.NaT or (isinstance(got, float) and got != got))
        elif isinstance(want, (str, bool, list, dict, pd.Timestamp)):
            ctx.check(f"{label} {got!r}", (str(got) if isinstance(want, str) else got) == want and (not isinstance(want, bool) or got in (True, False)))
        elif isinstance(got, (str, SymTime, pd.Timestamp)) or got is None:
            ctx.check(label + " is a number", False)
        else:
            ctx.eq(label, got, want, 1e-12)

    def table(self, label, df, columns, want):
        ctx = self.ctx
        rows = self.rows(df, columns)
        ctx.check(f"{label}: columns {list(df.columns)}", rows is not None)
        if rows is None:
            return
        ctx.check(f"{label}: number of records {len(rows)}", len(rows) == len(want))
        for i, (r, w) in enumerate(zip(rows, want)):
            for c, a, b in zip(columns, r, w):
                self.same(f"{label} record {i} {c}", a, b)


class Sec:
    def __init__(self, sec):
        self.sec = sec


@contextlib.contextmanager
def archive(members, *more):
    tmp = Path(tempfile.mkdtemp(prefix="c27_"))
    try:
        out = []
        for k, ms in enumerate((members,) + more):
            p = tmp / f"a{k}.zip"
            with zipfile.ZipFile(p, "w") as z:
                for n, b in ms.items():
                    z.writestr(zipfile.ZipInfo(n), b if isinstance(b, bytes) else b.encode())
            out.append(p)
        yield out if more else out[0]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


MAXT = 2 * 10**9


def neumf(ctx, train=2, negs=(2, 1), pinterest=False, spaced=False):
    from irspack.dataset import NeuMFML1MDownloader, NeuMFMPinterestDownloader

    cls = NeuMFMPinterestDownloader if pinterest else NeuMFML1MDownloader
    c = Cells(ctx)
    tr, txt = [], ""
    for i in range(train):
        u, it, r, t = ctx.key(f"u{i}", 0, 50), ctx.key(f"i{i}", 0, 50), ctx.int(f"r{i}", 1, 5), ctx.int(f"t{i}", 0, MAXT)
        tr.append([u, it, r, Sec(t)])
        txt += "\t".join(c.num(x) for x in (u, it, r, t)) + "\n"
    te, ttxt = [], ""
    for i, n in enumerate(negs):
        u, p = ctx.key(f"tu{i}", 0, 50), ctx.key(f"tp{i}", 0, 50)
        ng = [ctx.key(f"tn{i}_{k}", 0, 50) for k in range(n)]
        te.append((u, p, True))
        te += [(u, x, False) for x in ng]
        ttxt += (f"( {c.num(u)} , {c.num(p)} )" if spaced else f"({c.num(u)},{c.num(p)})") + "".join("\t" + c.num(x) for x in ng) + "\n"
    want = []
    for u, i, b in te:
        if not any(bool(ctx.and_(u == u2, i == i2)) for u2, i2, _ in want):
            want.append((u, i, b))
    with archive({"train": txt, "test": ttxt}) as p, c.inside():
        m = cls(p)
        a, b = m.read_train_test()
        m.zf.close()
    c.table("train", a, ["user_id", "item_id", "rating", "timestamp"], tr)
    c.table("test", b, ["user_id", "item_id", "positive"], want)
    ctx.check("no further columns", a.shape[1] == 4 and b.shape[1] == 3)
    ctx.reach("neumf")


def citeulike(ctx, counts=(2, 0, 1), meta=2):
    from irspack.dataset import CiteULikeADataManager

    c = Cells(ctx)
    users, want, txt = [], [], ""
    ok = []
    for u, n in enumerate(counts):
        cnt = ctx.int(f"c{u}", 0, 3)
        ids = [ctx.key(f"i{u}_{k}", 0, 50) for k in range(n)]
        ok.append(cnt == n)
        want += [[u, x] for x in ids]
        txt += " ".join([c.num(cnt)] + [c.num(x) for x in ids]) + "\n"
    ids = [ctx.key(f"d{k}", 1, 60) for k in range(meta)]
    cit = [ctx.int(f"x{k}", 0, 9) for k in range(meta)]
    csv = '"doc.id","title","citeulike.id"\n' + "".join(f'{c.num(d)},"t\u00e9\u00f1\u00e3{k}, x",{c.num(x)}\n' for k, (d, x) in enumerate(zip(ids, cit)))
    with archive({"citeulike-a-master/users.dat": txt, "citeulike-a-master/raw-data.csv": csv.encode("latin-1")}) as p, c.inside():
        m = CiteULikeADataManager(p)
        df, err = ctx.call(m.read_interaction, Exception)
        im = m.read_item_meta()
        m.zf.close()
    good = all([bool(x) for x in ok])
    if good:
        ctx.check("well-formed file is read", err is None)
        if err is None:
            c.table("interactions", df, ["user_id", "item_id"], want)
    else:
        ctx.check("a line whose count is wrong is refused", err is not None)
    ctx.check("indexed by document", len(im) == meta)
    for k, (a, d) in enumerate(zip(im.index.tolist(), ids)):
        ctx.eq(f"document id {k} is zero-based", a, d - 1)
    c.table("item meta", im, ["title", "citeulike.id"], [[f"t\u00e9\u00f1\u00e3{k}, x", x] for k, x in enumerate(cit)])
    ctx.reach("citeulike")


STAMPS = [("11/13/2019 8:36:57 AM", "2019-11-13 08:36:57"), ("02/03/2019 12:05:09 AM", "2019-02-03 00:05:09"),
          ("12/01/2019 11:59:59 PM", "2019-12-01 23:59:59"), ("1/2/2019 12:00:00 PM", "2019-01-02 12:00:00")]
LAYOUT = ["{}", "MINDsmall/{}", "a/b/{}"]


def mind(ctx, cands=((2,), (1, 2)), split=None, what="impressions", layout=0, bare=False):
    from irspack.dataset import MINDDataManager

    c = Cells(ctx)
    files, want, beh = [], {"train": [], "dev": []}, {"train": [], "dev": []}
    kst = ctx.pick("stamp", len(STAMPS))
    n = 0
    for s, rows in zip(("train", "dev"), cands):
        txt, seen = "", []
        for r, m in enumerate(rows):
            imp, user = ctx.key(f"imp_{s}{r}", 1, 50), ctx.key(f"user_{s}{r}", 1, 50)
            for x in seen:
                ctx.assume(ctx.not_(imp == x))
            seen.append(imp)
            st = STAMPS[(kst + r) % len(STAMPS)]
            cs = []
            for k in range(m):
                lab = ctx.int(f"lab_{s}{r}_{k}", 0, 1)
                # ids may hold digits and hyphens
                item = ["N%d", "N-1-%d", "N%d-0"][n % 3] % (n // 2)
                n += 1
                if bare and k == 1:
                    # a candidate without a label, as in MIND's test split, is no click
                    cs.append((f"B{n}", None))
                    want[s].append((imp, user, pd.Timestamp(st[1]), f"B{n}", 0, k, s))
                    continue
                cs.append((item, lab))
                want[s].append((imp, user, pd.Timestamp(st[1]), item, lab, k, s))
            hist = ["", "N0 N7", "N5"][r % 3]
            txt += "\t".join([c.num(imp), c.num(user), st[0], hist, " ".join(i if lb is None else f"{i}-{c.label(lb)}" for i, lb in cs)]) + "\n"
            beh[s].append([imp, user, pd.Timestamp(st[1]), hist or None])
        files.append({LAYOUT[layout].format("behaviors.tsv"): txt, "README.txt": "x"})
    with archive(*files) as (p, q), c.inside():
        with MINDDataManager(p, q) as mgr:
            if what == "behaviors":
                for s in ("train", "dev"):
                    c.table("behaviors", mgr.read_behaviors(s), ["impression_id", "user_id", "timestamp", "history"], beh[s])
                df = None
            elif what == "impressions":
                df = mgr.read_impressions(split) if split else mgr.read_impressions()
            elif what == "clicked":
                df = mgr.read_impressions(split=split, clicked_only=True)
            else:
                df = mgr.read_interaction(split)
    order = ["train", "dev"] if split is None else [split]
    exp = [w for s in order for w in want[s]]
    names = ["impression_id", "user_id", "timestamp", "item_id", "clicked", "position", "split"]
    if what == "behaviors":
        pass
    else:
        exp = [w[:4] + (bool(w[4] == 1),) + w[5:] for w in exp]
        if what != "impressions":
            exp = [w for w in exp if w[4]]
        if what == "interaction":
            ctx.check("interaction columns", list(df.columns) == [x for x in names if x not in ("clicked", "position")])
            exp = [w[:4] + w[6:] for w in exp]
            names = [x for x in names if x not in ("clicked", "position")]
        c.table(what, df, names, exp)
        ctx.check("index is 0..n-1", df.index.tolist() == list(range(len(df))))
    ctx.reach("mind " + what)


def mind_items(ctx, n=(2, 1), split=None, parse=True, layout=0):
    from irspack.dataset import MINDDataManager

    c = Cells(ctx)
    files, want = [], {}
    k = 0
    ENT = ["", '[{"WikidataId": "Q1", "Label": "a b"}]', "[]"]
    for s, m in zip(("train", "dev"), n):
        txt, want[s] = "", []
        for r in range(m):
            it, cat = ctx.key(f"item_{s}{r}", 1, 50), ctx.int(f"cat_{s}{r}", 1, 50)
            e1, e2 = ENT[k % 3], ENT[(k + 1) % 3]
            k += 1
            txt += "\t".join([c.num(it), c.num(cat), "sub", f"title {k}", "" if k % 2 else f"abs {k}", "url", e1, e2]) + "\n"
            want[s].append((it, cat, f"title {k}", None if k % 2 else f"abs {k}", e1, e2))
        files.append({LAYOUT[layout].format("news.tsv"): txt})
    with archive(*files) as (p, q), c.inside():
        with MINDDataManager(p, q) as mgr:
            df = mgr.read_item_info(split, parse_entities=parse)
    import json

    exp = []
    for s in ["train", "dev"] if split is None else [split]:
        for w in want[s]:
            if not any(bool(w[0] == x[0]) for x in exp):
                exp.append(w)
    ctx.check("each article once", len(df) == len(exp))
    for i, (a, w) in enumerate(zip(df.index.tolist(), exp)):
        c.same(f"article {i}", a, w[0])
    ent = (lambda e: json.loads(e) if e else []) if parse else (lambda e: e or None)
    c.table("articles", df, ["category", "title", "abstract", "title_entities", "abstract_entities"],
            [[w[1], w[2], w[3], ent(w[4]), ent(w[5])] for w in exp])
    ctx.reach("mind items")


def mind_vec(ctx, rows=2, dim=2):
    from irspack.dataset import MINDDataManager

    c = Cells(ctx)
    mats, files = {}, []
    for s in ("train", "dev"):
        d = {}
        for name in ("entity", "relation"):
            M = [[ctx.int(f"{s}{name}{i}_{j}", -1000, 1000) for j in range(dim)] for i in range(rows)]
            mats[s, name] = M
            d[f"{name}_embedding.vec"] = "".join(f"Q{s}{i}\t" + "\t".join(c.num(x) for x in M[i]) + "\n" for i in range(rows))
        files.append(d)
    with archive(*files) as (p, q):
        with MINDDataManager(p, q) as mgr:
            for s in ("train", "dev"):
                for name, f in (("entity", mgr.read_entity_embeddings), ("relation", mgr.read_relation_embeddings)):
                    df = f(s)
                    ctx.check("row labels", df.index.tolist() == [f"Q{s}{i}" for i in range(rows)])
                    c.table(f"{name} vectors", df, [f"embedding_{j}" for j in range(dim)], mats[s, name])
                    ctx.check("dimension", df.shape[1] == dim)
            df = mgr.read_entity_embeddings()
            c.table("default split", df, [f"embedding_{j}" for j in range(dim)], mats["train", "entity"])
    ctx.reach("mind vectors")


def mind_lookup(ctx):
    from irspack.dataset import MINDDataManager

    NAMES = ["behaviors.tsv", "x/behaviors.tsv", "y/z/behaviors.tsv", "xbehaviors.tsv", "behaviors.tsv.bak", "behaviors.tsv/x"]
    line = "{}\tU1\t11/13/2019 8:36:57 AM\t\tN1-1\n"
    have = [bool(ctx.bool(f"member{k}")) for k in range(len(NAMES))]
    ctx.assume(not (have[0] and have[5]))
    members = {n: line.format(k) for k, n in enumerate(NAMES) if have[k]}
    members["other"] = "x"
    with archive(members, {"behaviors.tsv": line.format(99)}) as (p, q):
        with MINDDataManager(p, q) as mgr:
            df, err = ctx.call(lambda: mgr.read_behaviors("train"), Exception)
            d2 = mgr.read_behaviors("dev")
            _, bad = ctx.call(lambda: mgr.read_behaviors("test"), Exception)
            _, bad2 = ctx.call(lambda: mgr.read_impressions("valid"), Exception)
            _, bad3 = ctx.call(lambda: mgr.read_item_info(""), Exception)
    ctx.check("unknown split refused", all(isinstance(b, ValueError) for b in (bad, bad2, bad3)))
    ctx.check("dev archive", d2["impression_id"].tolist() == [99])
    if have[0]:
        exp = 0
    elif have[1] != have[2]:
        exp = 1 if have[1] else 2
    else:
        exp = None
    if exp is None:
        ctx.check("missing or ambiguous member refused", isinstance(err, KeyError))
    else:
        ctx.check("the one matching member is read", err is None and df["impression_id"].tolist() == [exp])
    ctx.reach("mind lookup")


def ml_ratings(ctx, which="100k", n=2):
    from irspack.dataset import MovieLens1MDataManager, MovieLens20MDataManager, MovieLens100KDataManager

    c = Cells(ctx)
    want = []
    for i in range(n):
        r = ctx.real(f"r{i}", 0, 5) if which == "20m" else ctx.int(f"r{i}", 1, 5)
        want.append([ctx.key(f"u{i}", 0, 10**6), ctx.key(f"i{i}", 0, 10**6), r, ctx.int(f"t{i}", 0, MAXT)])
    sep = {"100k": "\t", "1m": "::", "20m": ","}[which]
    txt = "".join(sep.join(c.num(x) for x in w) + "\n" for w in want)
    if which == "20m":
        txt = "userId,movieId,rating,timestamp\n" + txt
    cls, name = {"100k": (MovieLens100KDataManager, "ml-100k/u.data"), "1m": (MovieLens1MDataManager, "ml-1m/ratings.dat"),
                 "20m": (MovieLens20MDataManager, "ml-20m/ratings.csv")}[which]
    with archive({name: txt}) as p, c.inside():
        m = cls(p)
        df = m.read_interaction()
        m.zf.close()
    c.table("ratings", df, ["userId", "movieId", "rating", "timestamp"], [w[:3] + [Sec(w[3])] for w in want])
    ctx.check("no further columns", df.shape[1] == 4)
    ctx.reach("ml ratings " + which)


def ml100k_items(ctx, n=2, g=2):
    from irspack.dataset import MovieLens100KDataManager

    c = Cells(ctx)
    genres = ["unknown", "Children's", "Sci-Fi", "Film-Noir"][:g]
    flags = [[ctx.int(f"f{i}_{j}", 0, 1) for j in range(g)] for i in range(n)]
    ids = [ctx.key(f"m{i}", 1, 10**6) for i in range(n)]
    dates = ["01-Jan-1995", "05-Dec-1997", ""]
    stamps = [pd.Timestamp("1995-01-01"), pd.Timestamp("1997-12-05"), None]
    txt = "".join("|".join([c.num(ids[i]), f"Mov\u00e9 {i} (199{i})", dates[i], "", f"http://x/{i}"] + [c.num(f) for f in flags[i]]) + "\n" for i in range(n))
    ages = [ctx.int(f"a{i}", 1, 99) for i in range(n)]
    uids = [ctx.key(f"u{i}", 1, 10**6) for i in range(n)]
    ut = "".join(f"{c.num(uids[i])}|{c.num(ages[i])}|M|writer|0{i}x\n" for i in range(n))
    gt = "".join(f"{x}|{k}\n" for k, x in enumerate(genres)) + "\n"
    with archive({"ml-100k/u.item": txt.encode("latin-1"), "ml-100k/u.genre": gt, "ml-100k/u.user": ut}) as p, c.inside():
        m = MovieLens100KDataManager(p)
        df, gdf = m.read_item_info()
        us = m.read_user_info()
        m.zf.close()
    for i, (a, b) in enumerate(zip(df.index.tolist(), ids)):
        c.same(f"movie {i}", a, b)
    c.table("movies", df, ["title", "release_date", "URL"], [[f"Mov\u00e9 {i} (199{i})", stamps[i], f"http://x/{i}"] for i in range(n)])
    ctx.check("genre flags are not left in the movie table", not set(genres) & set(df.columns))
    want = [[ids[i], genres[j]] for i in range(n) for j in range(g) if bool(flags[i][j] == 1)]
    if want:
        c.table("genres", gdf, ["movieId", "genre"], want)
    else:
        ctx.check("no genre", len(gdf) == 0)
    for i, (a, b) in enumerate(zip(us.index.tolist(), uids)):
        c.same(f"user {i}", a, b)
    c.table("users", us, ["age", "gender", "occupation", "zipcode"], [[ages[i], "M", "writer", f"0{i}x"] for i in range(n)])
    ctx.reach("ml100k items")


def ml1m_items(ctx, n=3):
    from irspack.dataset import MovieLens1MDataManager

    c = Cells(ctx)
    ids = [ctx.key(f"m{i}", 1, 10**6) for i in range(n)]
    years = [ctx.int(f"y{i}", 1900, 2030) for i in range(n)]
    shapes = ["Toy: Story ({})", "2001 (1968) Caf\u00e9 ({})", "Seven (a.k.a. Se7en) ({})  "]
    titles = [shapes[i % 3].format(c.num(years[i])) for i in range(n)]
    txt = "".join(f"{c.num(ids[i])}::{titles[i]}::Drama|War\n" for i in range(n))
    uids = [ctx.key(f"u{i}", 1, 10**6) for i in range(n)]
    ages = [ctx.int(f"a{i}", 1, 99) for i in range(n)]
    occ = [ctx.int(f"o{i}", 0, 20) for i in range(n)]
    ut = "".join(f"{c.num(uids[i])}::F::{c.num(ages[i])}::{c.num(occ[i])}::0{i}-x\n" for i in range(n))
    with archive({"ml-1m/movies.dat": txt.encode("latin-1"), "ml-1m/users.dat": ut}) as p, c.inside():
        m = MovieLens1MDataManager(p)
        df = m.read_item_info()
        us = m.read_user_info()
        m.zf.close()
    for i, (a, b) in enumerate(zip(df.index.tolist(), ids)):
        c.same(f"movie {i}", a, b)
    c.table("movies", df, ["title", "genres", "release_year"], [[titles[i], "Drama|War", years[i]] for i in range(n)])
    for i, (a, b) in enumerate(zip(us.index.tolist(), uids)):
        c.same(f"user {i}", a, b)
    c.table("users", us, ["gender", "age", "occupation", "zipcode"], [["F", ages[i], occ[i], f"0{i}-x"] for i in range(n)])
    ctx.reach("ml1m items")


def amazon(ctx, n=2):
    from irspack.dataset import AmazonMusicDataManager

    c = Cells(ctx)
    want = [[f"A{i}", f"00{i}X", ctx.real(f"r{i}", 0, 5), ctx.int(f"t{i}", 0, MAXT)] for i in range(n)]
    txt = "".join(f"{w[0]},{w[1]},{c.num(w[2])},{c.num(w[3])}\n" for w in want)
    price = [ctx.int(f"p{i}", 0, 1000) for i in range(n)]
    meta = "".join("{'asin': '00%dX'%s%s, 'categories': [['A%d', 'B'], ['C']]}\n"
                   % (i, f", 'title': \"T'{i}\"" if i % 2 == 0 else "", f", 'price': {c.num(price[i])}" if i != 1 else "", i) for i in range(n))
    with archive({"amazon-music/ratings.csv": txt, "amazon-music/music-meta.json": meta}) as p, c.inside():
        m = AmazonMusicDataManager(p)
        df = m.read_interaction()
        md = m.read_metadata()
        m.zf.close()
    c.table("ratings", df, ["user_id", "music_id", "rating", "timestamp"], want)
    ctx.check("meta index", md.index.tolist() == [f"00{i}X" for i in range(n)])
    c.table("meta", md, ["title", "price", "categories"],
            [[f"T'{i}" if i % 2 == 0 else None, price[i] if i != 1 else None, [f"A{i}", "B"]] for i in range(n)])
    ctx.reach("amazon")


HARNESSES = [
    H("neumf", neumf, [dict(), dict(negs=(1, 1, 1), pinterest=True), dict(train=3, negs=(3,), spaced=True), dict(negs=(2, 2), spaced=True)],
      [dict(negs=(3, 1)), dict(negs=(2, 1, 1))]),
    H("citeulike", citeulike, [dict(), dict(counts=(1,), meta=3)], [dict(counts=(3, 1, 2))]),
    H("mind", mind, [dict(), dict(split="train"), dict(split="dev", layout=1), dict(what="clicked", layout=2), dict(what="interaction"),
                     dict(what="behaviors", layout=1), dict(what="interaction", split="dev", cands=((1,), (3,))),
                     dict(bare=True, cands=((2,), (3, 1))), dict(bare=True, what="interaction", cands=((3,), (2,)))],
      [dict(cands=((3, 1), (2, 2))), dict(what="interaction", cands=((2, 2), (2, 1, 1)))]),
    H("mind_items", mind_items, [dict(), dict(n=(3, 2), parse=False), dict(split="dev", n=(2, 3), layout=1), dict(split="train", n=(3, 1))],
      [dict(n=(3, 3))]),
    H("mind_vec", mind_vec, [dict()], [dict(rows=3, dim=3)]),
    H("mind_lookup", mind_lookup, [dict()]),
    H("ml_ratings", ml_ratings, [dict(which=w, n=3) for w in ("100k", "1m", "20m")]),
    H("ml100k_items", ml100k_items, [dict(), dict(n=3, g=1), dict(n=1, g=4)], [dict(n=3, g=3)]),
    H("ml1m_items", ml1m_items, [dict()]),
    H("amazon", amazon, [dict(), dict(n=3)]),
]
