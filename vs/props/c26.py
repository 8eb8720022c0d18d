"""Dataset archives: downloads are complete or absent, at every crash point."""
import contextlib
import gzip
import http.client
import io
import os
import shutil
import sys
import tempfile
import urllib.request
import zipfile
from pathlib import Path
from urllib.error import HTTPError

from ..ctx import H

ID = "C26"
MODULES = []
FUNCTIONS = ["irspack.dataset.downloader BaseDownloader.__init__, SingleZipDownloader._save_to_zippath",
             "irspack.dataset.neu_mf NeuMFDownloader._save_to_zippath", "irspack.dataset.amazon_music AmazonMusicDataManager._save_to_zippath",
             "irspack.dataset.mind MINDDataManager.__init__, _download",
             "standard library urllib.request / http.client / zipfile / shutil executed unmodified on a stand-in socket"]
BOUNDS = ("archives of 40 kB (90 kB for MIND); a fault (early end of stream, reset connection, timeout, KeyboardInterrupt, disk error while the file is put in "
          "place) at every socket-level step of the download, or any HTTP status 400..599, or none; every combination of present/missing archives, prompt "
          "answer, size, source, token argument and token variables; one optional redirect to another host")

_active = []


def _audit(event, args):
    if _active:
        _active[-1].audit(event, args)


_installed = []
WRITE = os.O_WRONLY | os.O_RDWR


class Disk(OSError):
    pass


def blob(key, n):
    return (key.encode() + b"|") * (n // (len(key) + 1))


def zipped(key, n):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        z.writestr(zipfile.ZipInfo("data"), blob(key, n))
    return b.getvalue()


class Server:
    """stand-in for the network: real urllib / http.client on fake sockets"""

    def __init__(self, ctx, body, chunk=16384, fault=None, at=-1, status=None, redirect=None):
        self.ctx, self.body, self.chunk = ctx, body, chunk
        self.fault, self.at, self.status, self.redirect = fault, at, status, redirect
        self.step = 0
        self.requests = []
        self.faulted = False
        self.watch = []       # (path, expected bytes)
        self.bad = []
        self.busy = False

    # every step of the outside world is a possible crash point
    def tick(self):
        self.look("step %d" % self.step)
        k = self.step
        self.step += 1
        if self.fault is not None and not self.faulted and bool(self.at == k):
            self.faulted = True
            return True
        return False

    def look(self, where):
        self.busy = True
        try:
            for p, want in self.watch:
                if os.path.exists(p) and Path(p).read_bytes() != want():
                    self.bad.append(f"{where}: incomplete {os.path.basename(p)}")
        finally:
            self.busy = False

    def audit(self, event, args):
        if self.busy:
            return
        if event == "open" and isinstance(args[0], (str, bytes, os.PathLike)):
            name = os.fspath(args[0])
            name = name.decode() if isinstance(name, bytes) else name
            flags = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
            mode = args[1] or ""
            if any(os.path.abspath(name) == p for p, _ in self.watch) and (flags & WRITE or set(str(mode)) & set("wax+")):
                self.bad.append(f"written in place: {os.path.basename(name)}")
        if event in ("os.rename", "os.remove", "os.truncate", "os.link", "shutil.copyfile", "shutil.move"):
            self.look(event)

    def raise_fault(self):
        if self.fault == "reset":
            raise ConnectionResetError("reset")
        if self.fault == "timeout":
            raise TimeoutError("timed out")
        if self.fault == "interrupt":
            raise KeyboardInterrupt()


class Raw(io.RawIOBase):
    def __init__(self, srv, data):
        self.srv, self.data, self.pos, self.dead = srv, data, 0, False

    def readable(self):
        return True

    def readinto(self, b):
        if self.dead or self.pos >= len(self.data):
            return 0
        if self.srv.tick():
            self.srv.raise_fault()
            self.dead = True
            return 0
        n = min(len(b), self.srv.chunk, len(self.data) - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Sock:
    def __init__(self, srv, host, secure):
        self.srv, self.host, self.secure, self.sent = srv, host, secure, b""

    def sendall(self, b):
        self.sent += bytes(b)

    def makefile(self, mode, *a, **k):
        srv = self.srv
        head = self.sent.decode().split("\r\n")
        path = head[0].split()[1]
        headers = {}
        for line in head[1:]:
            if ":" in line:
                k_, v = line.split(":", 1)
                headers[k_.strip().lower()] = v.strip()
        url = ("https://" if self.secure else "http://") + self.host + path
        srv.requests.append((url, headers))
        if srv.redirect is not None and self.host != srv.redirect:
            data = f"HTTP/1.1 302 Found\r\nLocation: https://{srv.redirect}/{self.host}{path}\r\nContent-Length: 0\r\n\r\n".encode()
            return io.BytesIO(data)
        if srv.redirect is not None:
            url = "https:/" + path
        if srv.status is not None:
            return io.BytesIO(b"HTTP/1.1 400 Error\r\nContent-Length: 0\r\n\r\n")
        body = srv.body(url)
        data = f"HTTP/1.1 200 OK\r\nContent-Length: {len(body)}\r\nContent-Type: application/zip\r\n\r\n".encode() + body
        return io.BufferedReader(Raw(srv, data), 8192)

    def close(self):
        pass

    def setsockopt(self, *a):
        pass

    def settimeout(self, *a):
        pass


@contextlib.contextmanager
def world(ctx, srv, answer=None, env=()):
    if not _installed:
        sys.addaudithook(_audit)
        _installed.append(1)
    import builtins

    prompts = []

    def connect(secure):
        def f(self):
            if srv.tick():
                srv.raise_fault()
                raise ConnectionResetError("reset")
            self.sock = Sock(srv, self.host, secure)
        return f

    real_default = urllib.request.HTTPDefaultErrorHandler.http_error_default

    def error(self, req, fp, code, msg, hdrs):
        raise HTTPError(req.full_url, srv.status if srv.status is not None and code == 400 else code, msg, hdrs, fp)

    def ask(prompt=""):
        prompts.append(prompt)
        return answer

    saved = (http.client.HTTPConnection.connect, http.client.HTTPSConnection.connect, builtins.input, tempfile.tempdir,
             dict(os.environ), sys.stdout, urllib.request._opener)
    tmp = Path(tempfile.mkdtemp(prefix="vs_c26_"))
    (tmp / "tmp").mkdir()
    (tmp / "home").mkdir()
    try:
        http.client.HTTPConnection.connect = connect(False)
        http.client.HTTPSConnection.connect = connect(True)
        urllib.request.HTTPDefaultErrorHandler.http_error_default = error
        builtins.input = ask
        tempfile.tempdir = str(tmp / "tmp")
        for v in list(os.environ):
            if v.lower().endswith("_proxy") or v in ("HF_TOKEN", "HUGGING_FACE_HUB_TOKEN"):
                del os.environ[v]
        for k, v in env:
            if v is not None:
                os.environ[k] = v
        urllib.request._opener = None
        sys.stdout = io.StringIO()
        _active.append(srv)
        yield tmp, prompts
    finally:
        if _active and _active[-1] is srv:
            _active.pop()
        (http.client.HTTPConnection.connect, http.client.HTTPSConnection.connect, builtins.input, tempfile.tempdir) = saved[:4]
        urllib.request.HTTPDefaultErrorHandler.http_error_default = real_default
        os.environ.clear()
        os.environ.update(saved[4])
        sys.stdout = saved[5]
        urllib.request._opener = saved[6]
        shutil.rmtree(tmp, ignore_errors=True)


FAULTS = [None, "eof", "reset", "timeout", "interrupt", "status"]


def _draw(ctx, faults, steps):
    fault = ctx.choice("fault", faults)
    at = ctx.int("at", 0, steps) if fault not in (None, "status") else -1
    status = ctx.int("status", 400, 599) if fault == "status" else None
    return (None if fault == "status" else fault), at, status


def _go(make):
    try:
        return make(), None
    except (Exception, KeyboardInterrupt) as e:
        return None, e


def _members(path):
    with zipfile.ZipFile(path) as z:
        return {n: z.read(n) for n in z.namelist()}


def archive(ctx, kind, exists=False, force=True, faults=FAULTS, steps=9, redirect=False):
    from irspack import dataset
    from irspack.dataset.downloader import SingleZipDownloader  # noqa: F401

    cls = getattr(dataset, kind)
    N = 40000
    RAT, META = "ratings_Digital_Music.csv", "meta_Digital_Music.json.gz"

    def body(url):
        if kind.startswith("NeuMF"):
            return blob(url, N // 2)
        if kind.startswith("Amazon"):
            return gzip.compress(blob(url, N // 2), 0) if url.endswith(".gz") else blob(url, N // 2)
        return zipped(url, N)

    fault, at, status = _draw(ctx, faults, steps)
    answer = None if force else ctx.choice("answer", ["y", "Y", "n", "N", "", "no"])
    srv = Server(ctx, body, fault=fault, at=at, status=status, redirect="mirror.example.org" if redirect else None)
    with world(ctx, srv, answer) as (tmp, prompts):
        target = tmp / "home" / "archive.zip"
        old = zipped("old", 100)
        if exists:
            target.write_bytes(old)

        def want():
            if exists:
                return old
            if kind.startswith(("NeuMF", "Amazon")):
                # the archive is assembled locally: complete = readable with both members
                b = target.read_bytes()
                try:
                    return b if good(_members(target)) else b""
                except Exception:
                    return None
            return body(cls.DOWNLOAD_URL)

        def good(m):
            if kind.startswith("NeuMF"):
                return m == {"train": body(cls.TRAIN_URL), "test": body(cls.NEGATIVE_URL)}
            if kind.startswith("Amazon"):
                ks = {k: v for k, v in m.items()}
                r = ks.pop("amazon-music/ratings.csv", b"")
                d = ks.pop("amazon-music/music-meta.json", b"")
                return not ks and r.split(b"|")[0].decode().endswith(RAT) and r == blob(r.split(b"|")[0].decode(), N // 2) \
                    and d.split(b"|")[0].decode().endswith(META) and d == blob(d.split(b"|")[0].decode(), N // 2)
            return m == {"data": blob("old" if exists else cls.DOWNLOAD_URL, 100 if exists else N)}

        srv.watch = [(str(target), want)]
        consent = exists or force or answer in ("y", "Y")
        mgr, err = _go(lambda: cls(zippath=target if not exists else str(target), force_download=force))
        srv.look("end")
        ctx.check("final path absent or complete at every step: " + "; ".join(srv.bad[:3]), not srv.bad)
        if exists:
            ctx.check("existing archive opened without asking or downloading", err is None and not prompts and not srv.requests)
        elif not consent:
            ctx.check("no consent: refused", isinstance(err, RuntimeError) and not srv.requests and not target.exists())
        elif srv.faulted or status is not None:
            ctx.check("failed download is reported", err is not None)
            if fault == "interrupt":
                ctx.check("interrupt propagates", isinstance(err, KeyboardInterrupt))
            ctx.check("failed download leaves nothing at the path", not target.exists())
            srv.fault = srv.status = None
            mgr, err = _go(lambda: cls(zippath=target, force_download=True))
            ctx.check("a second attempt succeeds", err is None)
        else:
            ctx.check("download succeeds", err is None)
        if err is None and mgr is not None:
            ctx.check("archive complete", target.exists() and good(_members(target)))
            ctx.check("archive opened", set(mgr.zf.namelist()) == set(_members(target)))
            mgr.zf.close()
        left = sorted(p.name for p in (tmp / "home").iterdir()) + sorted(p.name for p in (tmp / "tmp").iterdir())
        ctx.check("nothing left behind", left in ([], ["archive.zip"]))
    ctx.reach("archive")


TOK = [None, "", "tok-env"]


def mind(ctx, have=(), size="small", source="huggingface", arg=None, env=False, faults=(None,), steps=9, force=True, redirect=False,
         sym_have=False, default_dir=False):
    from irspack.dataset import mind as mod

    cls = mod.MINDDataManager
    BASE = {"huggingface": "https://huggingface.co/datasets/yjw1029/MIND/resolve/main",
            "azure": "https://mind201910small.blob.core.windows.net/release"}
    N = 90000

    def body(url):
        return zipped(url, N)

    if sym_have:
        have = [s for s in ("train", "dev") if ctx.choice("have_" + s, [False, True])]
    fault, at, status = _draw(ctx, list(faults), steps)
    e1 = ctx.choice("HF_TOKEN", TOK) if env else None
    e2 = ctx.choice("HUB_TOKEN", [None, "tok-hub"]) if env else None
    tok = ctx.choice("arg", ["tok-arg", None, ""]) if arg is None else arg
    answer = None if force else ctx.choice("answer", ["y", "Y", "n", "N", "", "no"])
    srv = Server(ctx, body, chunk=32768, fault=fault, at=at, status=status, redirect="cdn.example.org" if redirect else None)
    with world(ctx, srv, answer, [("HF_TOKEN", e1), ("HUGGING_FACE_HUB_TOKEN", e2)]) as (tmp, prompts):
        d = tmp / "home" / "sub" / "dir"
        if default_dir:
            names = {s: d / f"MIND{size}_{s}.zip" for s in ("train", "dev")}
        else:
            names = {"train": d / "a.zip", "dev": d / "b.zip"}
        if have:
            d.mkdir(parents=True)
        for s in have:
            names[s].write_bytes(zipped("old" + s, 50))
        exp = {s: (zipped("old" + s, 50) if s in have else body(f"{BASE[source]}/MIND{size}_{s}.zip")) for s in names}
        srv.watch = [(str(p), (lambda s=s: exp[s])) for s, p in names.items()]

        def make():
            saved = cls.DEFAULT_DIR
            try:
                kw = {}
                if default_dir:
                    cls.DEFAULT_DIR = d
                else:
                    kw = dict(train_zippath=names["train"], dev_zippath=str(names["dev"]))
                return cls(size=size, force_download=force, download_source=source, hf_token=tok, **kw)
            finally:
                cls.DEFAULT_DIR = saved

        missing = [s for s in ("train", "dev") if s not in have]
        consent = force or not missing or answer in ("y", "Y")
        mgr, err = _go(make)
        srv.look("end")
        ctx.check("final paths absent or complete at every step: " + "; ".join(srv.bad[:3]), not srv.bad)
        if not missing:
            ctx.check("nothing missing: not asked, nothing downloaded", err is None and not prompts and not srv.requests)
        elif not consent:
            ctx.check("no consent: refused", isinstance(err, RuntimeError) and not srv.requests and not any(names[s].exists() for s in missing))
        elif status is not None:
            gated = ctx.or_(status == 401, status == 403, status == 409)
            ctx.check("denied access is explained", ctx.or_(ctx.not_(gated), isinstance(err, RuntimeError)))
            ctx.check("other statuses propagate", ctx.or_(gated, isinstance(err, HTTPError)))
        elif srv.faulted:
            ctx.check("failed download is reported", err is not None)
            if fault == "interrupt":
                ctx.check("interrupt propagates", isinstance(err, KeyboardInterrupt))
        else:
            ctx.check("success", err is None)
        want_tok = tok or e1 or e2
        for url, headers in srv.requests:
            auth = headers.get("authorization")
            if url.startswith("https://huggingface.co/") and want_tok:
                ctx.check("token sent to Hugging Face", auth == "Bearer " + want_tok)
            else:
                ctx.check("no token sent elsewhere", auth is None)
        ctx.check("existing archives are not downloaded again", not any(f"_{s}.zip" in u for u, _ in srv.requests for s in have))
        left = {p.name for p in d.iterdir()} if d.exists() else set()
        left |= {p.name for p in (tmp / "tmp").iterdir()}
        ctx.check("nothing else left behind", left <= {p.name for p in names.values()})
        if (srv.faulted or status is not None) and missing:
            srv.fault = srv.status = None
            mgr, err = _go(make) if force else (None, None)
            if force:
                ctx.check("a second attempt succeeds", err is None)
        if mgr is not None:
            for s in names:
                ctx.check(f"{s} archive complete", names[s].exists() and names[s].read_bytes() == exp[s])
                ctx.check(f"{s} archive readable", mgr._read_as_istream(s, "data").read() == _members(names[s])["data"])
            ctx.check("size", mgr.size == size)
            mgr.close()
    ctx.reach("mind")


def mind_invalid(ctx):
    from irspack.dataset import MINDDataManager

    srv = Server(ctx, lambda u: b"")
    with world(ctx, srv) as (tmp, _):
        size = ctx.choice("size", ["small", "large", "tiny", "Small", ""])
        src = ctx.choice("src", ["huggingface", "azure", "s3", ""])
        ok = size in ("small", "large") and src in ("huggingface", "azure")
        for s in ("a", "b"):
            (tmp / f"{s}.zip").write_bytes(zipped(s, 10))
        mgr, err = _go(lambda: MINDDataManager(tmp / "a.zip", tmp / "b.zip", size=size, download_source=src, force_download=True))
        ctx.check("invalid size or source rejected", (err is None) if ok else isinstance(err, ValueError))
        if mgr is not None:
            mgr.close()
        ctx.check("nothing downloaded", not srv.requests)
    ctx.reach("invalid")


SINGLE = ["MovieLens1MDataManager", "MovieLens100KDataManager", "MovieLens20MDataManager", "CiteULikeADataManager"]
LOCAL = ["NeuMFML1MDownloader", "NeuMFMPinterestDownloader", "AmazonMusicDataManager"]
HARNESSES = [
    H("archive", archive,
      [dict(kind=k) for k in SINGLE[:1] + LOCAL[:1] + LOCAL[2:]] + [dict(kind=k, exists=True, force=f) for k in (SINGLE[0],) for f in (True, False)]
      + [dict(kind=k, force=False, faults=[None]) for k in (SINGLE[0], LOCAL[1])] + [dict(kind=k, faults=[None, "eof"]) for k in SINGLE[1:]]
      + [dict(kind=SINGLE[3], faults=[None, "reset", "status"], redirect=True)],
      [dict(kind=k) for k in SINGLE[1:] + LOCAL[1:2]], seeds=1),
    H("mind", mind,
      [dict(env=True, source=s, have=["train"]) for s in ("huggingface", "azure")] + [dict(source=s, arg="t", redirect=True) for s in ("huggingface", "azure")]
      + [dict(faults=FAULTS, arg="t", size=z) for z in ("small", "large")] + [dict(faults=FAULTS, source="azure", arg="", have=["dev"])]
      + [dict(sym_have=True, force=False, arg=""), dict(sym_have=True, force=True, arg="", default_dir=True, size="large", faults=[None, "eof"])],
      [dict(env=True, sym_have=True, faults=FAULTS, source=s, steps=12) for s in ("huggingface", "azure")], seeds=1),
    H("mind_invalid", mind_invalid, [dict()], seeds=1),
]
