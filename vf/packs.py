"""Trees of files, packaged by the real program in many places and ways -> runs for spec/PackTrace.  Judges nothing."""
import errno, hashlib, io, os, random, shutil, socket, stat, tarfile, tempfile

from . import pool, zst
from .core import World, write

ODD = ["a", "b", "a.b", "a-b", "a b", "A", "a0", ".hidden", "..x", "x.", "-f", "--", "na\nme", "t\tab", "back\\slash", "\u00e9", "\u4e2d\u6587", "PaxHeaders", "@LongLink", "sym", "*", "a:b", "'", "~", "con", "aa", "ab", "a!", "a/",
       "x.tar.zst", "current", "\x01", "\x7f", "._x", "._a", "._artefacta-temp-1-2x.part", "x.part", "x~", "x.bak", "x.tmp", ".git", ".gitignore", ".gitignore", ".DS_Store", "target", "node_modules", "#x#", "x.patch.zst",
       "core", "Makefile", "x.so.1", "lost+found", ".nfs01", "x.orig", "empty"]
MODES = [0o644, 0o644, 0o755, 0o600, 0o444, 0o400, 0o555, 0o777, 0o666, 0o640, 0o4755, 0o2755, 0o1644, 0o6711, 0, 0o111, 0o222, 0o7777]
SIZES = [0, 0, 1, 2, 100, 511, 512, 513, 1024, 4096, 8191, 8192, 8193, 10239, 10240, 65536, 131073]


def name(rng, kind):
    if kind == "odd":
        n = rng.choice(ODD).rstrip("/")
        return os.fsencode(n) + (b"" if rng.random() < 0.6 else b"%d" % rng.randrange(10))
    if kind == "bytes":
        return bytes(rng.choice([x for x in range(1, 256) if x != 47]) for _ in range(rng.randrange(1, 12))).replace(b".", b"_")
    if kind == "long":
        return (rng.choice("abc") * rng.choice([20, 49, 50, 60, 97, 98, 99, 100, 101, 120, 155, 200, 250])).encode()
    return ("%s%d" % (rng.choice(["f", "lib", "data.", "x-"]), rng.randrange(30))).encode()


def tree(rng, big=False):
    """[[path, mode, size, seed of the content]]"""
    kinds = rng.choice([["plain"], ["plain", "odd"], ["odd"], ["long", "plain"], ["bytes", "plain"], ["plain", "odd", "long", "bytes"]])
    depth = rng.choice([1, 2, 3, 3, 6, 12])
    n = rng.choice([1, 2, 3, 5, 8, 20, 40]) if not big else rng.choice([150, 300, 1030])
    files, dirs = {}, {b"": True}
    tries = 0
    while len(files) < n and tries < 1000:
        tries += 1
        d = rng.choice(list(dirs))
        if rng.random() < 0.4 and d.count(b"/") < depth:
            x = d + name(rng, rng.choice(kinds)) + b"/"
            if x[:-1] not in files and len(x) < 1500:
                dirs[x] = True
                d = x
        p = d + name(rng, rng.choice(kinds))
        if p in files or p + b"/" in dirs or p in (b".", b"..") or p.endswith((b"/.", b"/..")) or len(p) > 1800:
            continue
        if len(p) > 100:      # the tar library refuses some of these when they are not UTF-8 or their first 100 bytes end in ".."
            try:
                p.decode()
            except UnicodeDecodeError:
                continue
            if b"/.." in p:
                continue
        files[p] = [rng.choice(MODES), rng.choice(SIZES) if rng.random() < 0.6 else rng.randrange(3000), rng.randrange(8)]
    if rng.random() < 0.05:
        files[rng.choice(list(files))][1] = rng.choice([3000000, 3000000, 5000000])
    if rng.random() < 0.08:      # deep down
        d = b""
        for i in range(rng.choice([20, 31, 40, 65, 101, 130, 260, 400])):
            d += rng.choice([b"d", b"e", b"1"]) + b"/"
            if rng.random() < 0.05:
                files.setdefault(d + b"f", [rng.choice(MODES), rng.randrange(50), rng.randrange(8)])
        files[d + b"bottom"] = [rng.choice(MODES), rng.randrange(50), rng.randrange(8)]
    return [[os.fsdecode(p).encode("utf-8", "surrogateescape").hex(), *x] for p, x in files.items()]


def content(size, seed):
    r = random.Random(seed)
    b = r.randbytes(min(size, 7000))
    return (b * (size // max(1, len(b)) + 1))[:size] if size else b""


ROOTS = ["My.app", "tree.tar.zst", "tree.tar", ".hidden", "with space", "v1.0-2", "\u00fcn\u00ef", "x.d", "a.zip", "current", "src", "target", "build", "a~", "#a#", "tmp.part", "1.patch.zst", "1.tar.zst"]
WAYS = ["again", "order", "times", "owners", "elsewhere", "far", "relative", "dot", "slash", "links", "hard", "umask", "extras", "shortreads", "sparse", "parent", "fresh"]


def make(root, files, rng, way):
    fs = list(files)
    if way == "order":
        rng.shuffle(fs)
    if way == "extras":      # directories first, and empty ones
        for _ in range(5):
            os.makedirs(os.path.join(root, b"zz-empty%d" % rng.randrange(9), b"e"), exist_ok=True)
    seen = {}
    for hx, mode, size, seed in fs:
        p = os.path.join(root, bytes.fromhex(hx))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if way == "hard" and (size, seed, mode) in seen:
            os.link(seen[(size, seed, mode)], p)
            continue
        data = content(size, seed)
        if way == "sparse" and not data.strip(b"\0"):
            with open(p, "wb") as f:
                f.truncate(size)
        else:
            write(p, data)
        seen[(size, seed, mode)] = p
        if way == "owners":
            os.chown(p, rng.randrange(70000), rng.randrange(70000))
        os.chmod(p, mode)
        if way == "times":
            t = rng.choice([0, 1, 10**9, 2**31 - 1, 2**31, 2**32 + 5, rng.randrange(2 * 10**9)])
            os.utime(p, ns=(t * 10**9, t * 10**9 + rng.randrange(10**9)))
    dirs = [d for d, _, _ in os.walk(root)]
    for d in dirs:
        if way == "owners":
            os.chown(d, rng.randrange(70000), rng.randrange(70000))
        if way == "times":
            os.utime(d, (rng.randrange(10**9), rng.randrange(10**9)))
        if way in ("order", "owners"):
            os.chmod(d, rng.choice([0o700, 0o755, 0o777, 0o500]))
    if way == "links":        # what is no regular file is left out
        for i in range(rng.randrange(1, 6)):
            q = os.path.join(rng.choice(dirs), b"zz-link%d" % i)
            os.symlink(rng.choice([b".", b"..", b"/nonexistent", b"/etc", os.path.basename(os.path.dirname(q)) or b"x", b"f1", root]), q)
            if rng.random() < 0.3:
                os.mkfifo(q + b"-fifo")
            if rng.random() < 0.3 and len(q) < 90:
                s = socket.socket(socket.AF_UNIX)
                s.bind(q + b"-s")
                s.close()


def read_archive(raw):
    """entries as an independent reader sees them"""
    data = zst.decompress(raw)
    out = []
    t = tarfile.open(fileobj=io.BytesIO(data), mode="r:", encoding="utf-8", errors="surrogateescape", ignore_zeros=False)
    end = 0
    for e in t:
        b = t.extractfile(e).read() if e.isreg() else b""
        p = [list(c) for c in e.name.encode("utf-8", "surrogateescape").split(b"/")]
        out.append({"t": "f" if e.isreg() and not e.issparse() else "other", "p": p, "m": e.mode & 0o7777, "h": hashlib.md5(b).hexdigest()[:16], "s": len(b)})
        end = e.offset_data + (e.size + 511) // 512 * 512
    rest = data[end:]
    return out, len(rest) >= 1024 and not rest.strip(b"\0")


def pack_run(job):
    """job: {"seed", "files", "ways", "single"}"""
    rng = random.Random(job["seed"])
    files = job["files"]
    want = []
    for hx, mode, size, seed in files:
        comps = bytes.fromhex(hx).split(b"/")
        want.append({"p": [list(c) for c in comps], "m": mode, "h": hashlib.md5(content(size, seed)).hexdigest()[:16], "s": size})
    if job["single"] is not None:
        f = want[job["single"]]
        want = [dict(f, p=f["p"][-1:])]
    outs, first = [], None
    for way in ["first"] + job["ways"]:
        with World(job["seed"], *pool.TOOLS) as w:
            w.machine("a")
            base = w.src
            away = None
            if way in ("elsewhere", "far"):
                away = base = tempfile.mkdtemp(prefix="vfp-", dir="/tmp")
            try:
                if way == "far":
                    base = os.path.join(base, *(["d" * 60] * 6))
                    os.makedirs(base)
                root = os.path.join(base, {"elsewhere": "other-name", "far": "t", "fresh": "z" * 99}.get(way) or ("tree" if rng.random() < 0.5 else rng.choice(ROOTS)))
                os.mkdir(root)
                old = os.umask(0o077 if way == "umask" else 0o022)
                try:
                    make(os.fsencode(root), files, rng, way)
                finally:
                    os.umask(old)
                cmd = {"op": "addpkg", "v": "1", "upload": rng.random() < 0.2}
                tgt = os.fsencode(root)
                if job["single"] is not None:
                    tgt = os.path.join(tgt, bytes.fromhex(files[job["single"]][0]))
                cwd, disturbed = w.aux, False
                if way == "relative":
                    cwd, tgt = os.path.dirname(tgt), b"./" + os.path.basename(tgt) if not os.path.basename(tgt).startswith(b"-") and rng.random() < 0.5 else os.path.basename(tgt)
                elif way == "dot" and job["single"] is None:
                    cwd, tgt = tgt, b"."
                elif way == "slash" and job["single"] is None:
                    tgt += b"/" * rng.choice([1, 2])
                elif way == "parent":
                    cwd, tgt = os.fsencode(root), b"../" + os.path.basename(os.fsencode(root)) + tgt[len(os.fsencode(root)):]
                cmd.update(path=os.fsdecode(tgt), cwd=cwd)
                if way in ("shortreads", "readfault"):
                    p = w.start("a", cmd, "r")
                    k = 0
                    src = os.path.realpath(w.src) + "/"
                    hit = rng.randrange(2 * len(want)) if way == "readfault" else -1
                    while True:
                        op = p.next()
                        if op is None:
                            break
                        r = "g"
                        if op[2].startswith(src):
                            if way == "shortreads" and op[1] == "read":
                                r = "s%d" % rng.choice([1, 2, 7, 600])
                            elif k == hit:
                                r, disturbed = "e%d" % errno.EIO, True
                            k += 1
                        p.reply(r)
                    code = p.code
                else:
                    if way == "umask":
                        w.umask = 0o077
                    code = w.run("a", cmd)[0]
                o = {"how": way, "code": code, "h": "", "entries": [], "clean": True, "disturbed": disturbed}
                f = os.path.join(w.machine("a"), "1.tar.zst")
                if code == 0:
                    with open(f, "rb") as g:
                        raw = g.read()
                    o["h"] = hashlib.md5(raw).hexdigest()[:16]
                    if first is None or o["h"] != first:
                        try:
                            o["entries"], o["clean"] = read_archive(raw)
                        except (ValueError, tarfile.TarError, EOFError, OSError):
                            o["clean"] = False
                if way == "first":
                    first = o["h"]
                outs.append(o)
            finally:
                if away:
                    shutil.rmtree(away, ignore_errors=True)
    return {"files": want, "outs": outs}


def jobs(seed, tag, n, ways=4, faults=False):
    out = []
    for i in range(n):
        s = (seed * 1000003 + tag * 7919 + i) % 2**31
        rng = random.Random(s)
        files = tree(rng, i % 25 == 24)
        ws = rng.sample(WAYS, ways)
        if faults:
            ws = ["readfault"] * ways
        one = None
        if rng.random() < 0.15:
            one = rng.randrange(len(files))
            try:         # (arguments have to be UTF-8)
                bytes.fromhex(files[one][0]).decode()
            except UnicodeDecodeError:
                one = None
        out.append({"seed": s, "files": files, "ways": ws, "single": one})
    return out
