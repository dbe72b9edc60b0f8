"""Histories on the real program: scenario (data) -> recorded run (data) for spec/Trace.tla.

scenario: {"seed", "remote": "dir"|"s3", "s3path", "page", "names": {abstract: real version}, "actions": [...]}
Every action is a dict with "op"; commands are executed by the real binary, everything else edits the world.
"""
import hashlib, os, random

from . import bidiff, gitrepo, zst
from .build import ToolError
from .core import CUR, World, rand_content, write

UNIT = 300
NOSRC = {"k": "none", "h": "", "s": 0, "c": "-", "good": False, "kept": True}
COMMANDS = {"install", "patch", "sync", "add", "addup", "addpkg", "auto", "debug"}


def way(sc):
    """how the commands of a scenario are called"""
    if "way" in sc:
        return sc["way"]
    r = random.Random(sc["seed"] * 6007 + 5)
    if r.random() < 0.4:
        return {}
    step = "procs" in sc    # links are not followed by what observes single operations
    w = {"local": r.choice(["abs", "rel", "rel", "slash", "dots", "twice"] + ([] if step else ["link", "alias"])), "remote": r.choice(["abs", "rel", "slash", "dots", "twice"]),    # what is read there is observed by its path
         "source": r.choice(["abs", "rel", "dots", "twice"] + ([] if step else ["link"]))}
    if r.random() < 0.2:
        w["env"] = True
    if r.random() < 0.15:
        w["verbose"] = True
    elif r.random() < 0.1:
        w["log"] = r.choice(["off", "error", "artefacta=trace"])
    if not step and not sc.get("near") and not any(k in ("huge", "random-mb", "random-mbs", "near-mbs") for k in sc.get("contents", {}).values()) and r.random() < 0.25:
        w["level"] = r.choice([None, None, 3, 9, 0, -4, "x", ""])
    return w


class Runner:
    def __init__(self, sc, tools, s3=None):
        """tools: (binary, shim, certs)"""
        self.sc = sc
        if sc.get("remote") == "s3":
            s3.reset()
            s3.page = sc.get("page", 1000)
            s3.quote = sc.get("quote", True)
        self.w = World(sc["seed"], *tools, s3=s3 if sc.get("remote") == "s3" else None, s3path=sc.get("s3path", "/"))
        self.w.way = way(sc)
        self.rng = random.Random(sc["seed"] * 7919 + 17)
        self.names = sc.get("names", {})
        base = rand_content(self.rng, 10 * UNIT - 100)
        self.base = base
        self.made = {}
        self.machines = sc.get("machines", ["a"])
        for m in self.machines:
            self.w.machine(m)
        self.items = []
        self.n = 0
        if sc.get("tree"):
            self.tree(os.path.join(self.w.src, "tree"), sc["tree"])

    def close(self):
        self.w.close()

    def ver(self, v):
        if v.startswith("=@root"):    # a name which is an absolute path, kept below the scratch directory
            return os.path.realpath(self.w.root) + v[6:]
        return v[1:] if v.startswith("=") else self.names.get(v, v)

    def tree(self, root, files):
        """files: [path, bytes in hex, mode]; null bytes: a directory; in order"""
        os.mkdir(root)
        for p, data, mode in files:
            q = os.path.join(root, p)
            os.makedirs(q if data is None else os.path.dirname(q), exist_ok=True)
            if data is not None:
                write(q, bytes.fromhex(data))
                os.chmod(q, mode)

    def repo(self, tags):
        p = os.path.join(self.w.aux, "repo")
        if not os.path.exists(p):
            os.mkdir(p)
            gitrepo.write(p, tags, random.Random(self.sc["seed"]), bool(self.sc.get("bare")), 3, self.sc.get("branches", ()))
            os.mkdir(os.path.join(p, "sub"))
        return p

    def content(self, v, alt=0):
        """published content of (abstract or real) version v"""
        v = self.sc.get("alias", {}).get(v, v)
        cid = "c:%s" % v + ("~%d" % alt if alt else "")
        if cid not in self.made:
            r = random.Random("%d/%s" % (self.sc["seed"], cid))
            k = self.sc.get("contents", {}).get(v)
            if k == "empty":
                d = b""
            elif k is not None:
                d = self.shape(k, r, v)
            else:
                x = r.random()
                if x < 0.75:  # small patches: everything differs in the same place
                    d = self.base[: 1000 + r.randrange(50)] + r.randbytes(r.randrange(10, 100)) + self.base[1100 + r.randrange(50) :]
                else:
                    d = rand_content(r, like=self.base if x < 0.9 else rand_content(r, 10 * UNIT - 200))
            self.w.contents.put(cid if k != "empty" else "c:empty", d)
            self.made[cid] = d
        return self.made[cid]

    def shape(self, k, r, v):
        text = b"".join(b"line %d of a file\n" % i for i in range(400))
        base = random.Random(4711).randbytes(20000)
        return {"tiny": r.randbytes(3), "one": b"%s" % v.encode()[:1], "zeros": bytes(5000 + len(v)), "text": text + r.randbytes(1) + text,
                "big": r.randbytes(50000) + bytes(100000) + r.randbytes(30000), "huge": base * 60 + r.randbytes(200000), "prefix": base[: r.randrange(1, 20000)] + v.encode(),
                "suffix": v.encode() + base[r.randrange(1, 19000):], "moved": base[10000:] + v.encode() + base[:10000], "same": base + v.encode(),
                "random-mb": base + r.randbytes(1200000 + r.randrange(400000)) if k == "random-mb" else b"", "random-mbs": r.randbytes(2200000 + r.randrange(2500000)) if k == "random-mbs" else b"",
                "near-mbs": self.near(r) if k == "near-mbs" else b"", "mid": base + r.randbytes(40) + base * 6 + random.Random(v).randbytes(60000), "rep": (r.randbytes(7) * 3000)[: r.randrange(50, 21000)]}[k]

    def near(self, r):
        """several megabytes, of which nearly all are the same in all versions"""
        rr = random.Random("%d/near" % self.sc["seed"])
        d = bytearray(rr.randbytes(self.sc.get("near", 2200000) + rr.randrange(1500000)))
        for i in range(r.randrange(1, 6)):
            k = r.randrange(len(d)) if i else len(d) - 20   # the last one near the end
            d[k : k + r.randrange(0, 50)] = r.randbytes(r.randrange(1, 60))
        return bytes(d) + r.randbytes(r.randrange(1, 100))

    def build_bytes(self, v, size=None, level=3, alt=0):
        d = self.content(v, alt)
        r = random.Random("%d/%s/%s" % (self.sc["seed"], v, alt))
        if len(d) > 1 and r.random() < 0.2:   # in more than one frame, which is the same for everybody who reads it to the end
            cuts = sorted(r.randrange(1, len(d)) for _ in range(r.choice([1, 1, 2])))
            parts = [zst.compress(x, level) for x in (d[i:j] for i, j in zip([0] + cuts, cuts + [len(d)]))]
            b = (zst.skippable(r.randrange(8, 20)) if r.random() < 0.3 else b"").join(parts)
            if r.random() < 0.2:
                b = zst.skippable(8) + b
        else:
            b = zst.compress(d, level)
        if size is not None and size >= len(b) + 8:
            b = zst.pad_to(b, size)
        return b

    def patch_bytes(self, f, t, size=None, damage="ok", rng=None, cut=None):
        """damage: ok trunc garbage emptyzst notpatch magic"""
        rng = rng or self.rng
        a, b = self.content(f), self.content(t)
        p = zst.compress(bidiff.diff(a, b), 3)
        if damage == "ok":
            if size is not None and size >= len(p) + 8:
                p = zst.pad_to(p, size)
            return p
        if damage in ("broken", "trunc"):
            k = rng.randrange(1, len(p))
            q = p[:k]
        elif damage == "cut":
            return p[: 1 + (cut or 0) % (len(p) - 1)]
        elif damage.startswith("late-"):
            n = min(len(a), len(b))
            h = n * 3 // 4
            x = bytes((y - z) & 0xFF for y, z in zip(b[:n], a[:n]))
            if damage == "late-seek":
                q = bidiff.encode([(x[:h], b"", -(len(a) + 9)), (x[h:], b[n:], 0)])
            elif damage == "late-past":
                q = bidiff.encode([(x, b[n:], 0), (bytes(len(a) + 40), b"", 0)])
            else:
                q = bidiff.encode([(x[:h], b"", 0), (x[h:], b[n:] + rng.randbytes(60), 0)])[:-rng.randrange(2, 61)]
            q = zst.compress(q)
        elif damage == "garbage":
            q = b"\x01" + rng.randbytes(max(40, (size or 60) - 1))
        elif damage == "little":
            return rng.randbytes(rng.randrange(1, 13))
        elif damage == "emptyzst":
            q = zst.compress(b"")
        elif damage == "notpatch":
            q = zst.compress(b"xx" + rng.randbytes(60))
        elif damage == "magic":
            q = zst.compress(b"\0" + bidiff.diff(a, b)[1:])
        else:
            raise ToolError("damage " + damage)
        if size is not None and damage not in ("broken", "trunc") and size >= len(q) + 8:
            q = zst.pad_to(q, size) if damage != "garbage" else q + rng.randbytes(size - len(q))
        elif size is not None and damage in ("broken", "trunc"):
            # keep the size but lose the end: padding goes in front
            if size >= len(q) + 8:
                q = zst.skippable(size - len(q)) + q
        return q

    # -- names (spec/Naming)
    def bf(self, v):
        return self.ver(v) + ".tar.zst"

    def pf(self, f, t):
        f, t = self.ver(f), self.ver(t)
        return (f + "---" + t if "-" in f or "-" in t else f + "-" + t) + ".patch.zst"

    def path(self, mach, name):
        return os.path.join(self.w.machine(mach), name)

    def place(self, where, name, data, mode=None):
        if where == "remote":
            self.w.remote_put(name, data)
        else:
            write(self.path(where, name), data)
        h = hashlib.md5(repr((self.sc.get("seed"), where, name)).encode()).digest()
        if (mode or h[0] < 60) and not (where == "remote" and self.w.s3):       # permissions of all kinds
            os.chmod(os.path.join(self.w.remote, name) if where == "remote" else self.path(where, name), mode or (0o444, 0o400, 0o600, 0o555, 0o777)[h[1] % 5])

    def there(self, where, name):
        if where == "remote" and self.w.s3:
            return self.w.key(name) in self.w.s3.objects(self.w.bucket)
        return os.path.lexists(os.path.join(self.w.remote, name) if where == "remote" else self.path(where, name))

    # -- edits
    def edit(self, a):
        op = a["op"]
        if a.get("if_absent"):
            n = self.bf(a["v"]) if op == "publish" else self.pf(a["from"], a["to"])
            if self.there(a["mach"] if op == "lpatch" else a.get("where", "remote"), n):
                return
        if op == "publish":
            self.place(a.get("where", "remote"), self.bf(a["v"]), self.build_bytes(a["v"], a.get("size"), a.get("level", 3), a.get("alt", 0)), a.get("mode"))
        elif op in ("ppatch", "lpatch"):
            z = int(a["x"]) * UNIT if a.get("x") else a.get("size")
            self.place(a["mach"] if op == "lpatch" else "remote", self.pf(a["from"], a["to"]),
                       self.patch_bytes(a["from"], a["to"], z, a.get("v") or "ok", cut=a.get("cut")))
        elif op == "evict":
            p = self.path(a["mach"], self.bf(a["v"]))
            if os.path.exists(p):
                os.unlink(p)
        elif op == "forget":
            p = self.path(a["mach"], self.pf(*a["pair"]) if "pair" in a else a["v"])
            if os.path.exists(p):
                os.unlink(p)
        elif op == "badbuild":  # a build file which cannot be unpacked
            self.place(a["where"], self.bf(a["v"]), (b"not a zstd file" + self.rng.randbytes(a.get("size", 50)))[: max(1, a["size"]) if a.get("size", 50) < 15 else None])
        elif op == "current":
            p = self.path(a["mach"], CUR)
            if os.path.lexists(p):
                os.unlink(p)
            if a.get("rel"):
                os.symlink(self.bf(a["v"]), p)
            else:
                os.symlink(os.path.join(os.path.realpath(self.w.machine(a["mach"])), self.bf(a["v"])), p)
        elif op == "stray":
            self.stray(a)
        elif op == "outside":  # object elsewhere in the bucket
            d = bytes.fromhex(a["data"]) if "data" in a else self.patch_bytes(*a["patch"]) if "patch" in a else self.build_bytes(a["v"])
            if self.w.s3:
                self.w.s3.put(self.w.bucket, a["key"], d)
        elif op == "crowd":       # many files which are of no use, before, between and behind the others
            for i in range(a["n"]):
                self.place("remote", "%s%04d.bin" % ("-0aAz~"[i % 6], i), b"x")
        else:
            raise ToolError("edit " + op)

    def stray(self, a):
        k, name, where = a["x"], a["v"], a["mach"]
        if where == "remote" and self.w.s3:
            if self.there(where, name):
                return
            if k == "f":
                self.w.remote_put(name, b"")
            elif k == "x":
                self.w.remote_put(name, self.rng.randbytes(20))
            return
        d = self.w.remote if where == "remote" else self.w.machine(where)
        p = os.path.join(os.fsencode(d), os.fsencode(name))
        if os.path.lexists(p):
            return
        cur = os.path.join(d, "current")
        if k in ("lb", "ln", "li") and os.path.islink(cur) and os.path.basename(os.readlink(cur)) == name:
            return      # (current would lead out of the store)
        if k == "f":
            write(p, b"")
        elif k == "x":
            write(p, self.rng.randbytes(20))
        elif k == "l":  # dangling link
            os.symlink(b"/nonexistent/file", p)
        elif k == "lb":  # link to something that looks like a build
            q = os.path.join(self.w.src, "linked-%d" % self.n)
            self.n += 1
            write(q, zst.compress(b"linked" + self.rng.randbytes(30)))
            os.symlink(q, p)
        elif k in ("ln", "li"):   # link to another name, elsewhere or in the same store
            q = os.path.join(os.fsencode(d if k == "li" else os.path.join(self.w.src, "linked-%d" % self.n)), os.fsencode(a["to"]))
            self.n += 1
            if k == "ln":
                os.mkdir(os.path.dirname(q))
                write(q, zst.compress(b"linked" + self.rng.randbytes(30)))
            if p != q:
                os.symlink(q, p)
        elif k == "d":
            os.mkdir(p)
        elif k == "db":  # directory with a build in it
            os.mkdir(p)
            write(os.path.join(p, b"9.tar.zst"), zst.compress(b"inner"))
        elif k == "p":  # fifo
            os.mkfifo(p)
        elif k == "nonutf8":
            write(os.path.join(os.fsencode(d), b"\xff\xfe" + os.fsencode(name)), zst.compress(b"x"))
        else:
            raise ToolError("stray " + k)

    # -- commands
    def command(self, a):
        """the command line (core.World.argv) and the record for the specification"""
        op = a["op"]
        c = {"op": op, "v": "", "from": "", "to": "", "upload": False, "prefix": "", "tags": [], "src": NOSRC, "file": ""}
        if op == "install":
            c["v"] = self.ver(a["v"])
            return {"op": op, "v": c["v"]}, c
        if op == "patch":
            c["from"], c["to"] = self.ver(a["from"]), self.ver(a["to"])
            return {"op": op, "from": c["from"], "to": c["to"]}, c
        if op in ("sync", "debug"):
            return {"op": op}, c
        if op in ("add", "addup"):
            up = op == "addup" or bool(a.get("upload"))
            fn = a.get("file") or self.bf(a["v"])
            d = os.path.join(self.w.src, "%d" % self.n)
            self.n += 1
            os.mkdir(d)
            p = os.path.join(d, fn)
            kind = a.get("x") or "file"
            data = b""
            if a.get("mtime") and kind == "file":
                made_at = 1500000000 + a["mtime"]
            else:
                made_at = None
            if kind == "file":
                if a.get("raw") is not None:
                    data = bytes.fromhex(a["raw"])
                else:
                    data = self.build_bytes(a["v"], a.get("size"), self.rng.choice([1, 3, 9]), a.get("alt", 0))
                write(p, data)
            elif kind == "empty":
                write(p, b"")
            elif kind == "dir":
                os.mkdir(p)
            elif kind == "dangling":
                os.symlink(os.path.join(d, "nothing"), p)
            if a.get("mode") is not None:
                os.chmod(p, a["mode"])
            if made_at:
                os.utime(p, (made_at, made_at))
            c.update(op="add", upload=up, file=fn, v=self.ver(a["v"]), **{"from": self.ver(a["from"]) if a.get("from") else ""})
            e = self.w.entry(data, "x.tar.zst", "")
            c["src"] = {"k": "missing" if kind == "dangling" else kind, "h": e["h"] if kind == "file" else "", "s": e["s"], "c": e["c"],
                        "good": kind == "file" and e["c"] not in ("-", "c:empty"), "kept": True}
            return {"op": "add", "path": p, "from": c["from"] or None, "upload": up}, c
        if op == "addpkg":
            c.update(op=op, v=self.ver(a["v"]), upload=bool(a.get("upload")), **{"from": self.ver(a["from"]) if a.get("from") else ""})
            c["src"] = {"k": a.get("kind", "file"), "h": "?", "s": 0, "c": "-", "good": True, "kept": True}
            return {"op": op, "v": c["v"], "path": os.path.join(self.w.src, "tree", a["path"][6:]) if a["path"].startswith("@tree") else a["path"], "from": c["from"] or None, "upload": c["upload"]}, c
        if op == "auto":
            there = [t if isinstance(t, str) else t[0] for t in a["tags"] if isinstance(t, str) or t[1] not in ("tree", "blob", "anntree")]
            c.update(v=self.ver(a["v"]), prefix=a.get("prefix", ""), tags=there)
            return {"op": op, "v": c["v"], "prefix": c["prefix"], "repo": self.repo(a["tags"]) + a["repo"][5:] if a["repo"].startswith("@repo") else a["repo"]}, c
        raise ToolError("command " + op)

    def snap_all(self):
        r, o = self.w.remote_snap()
        return {"Ls": {m: self.w.dir_snap(self.w.machine(m)) for m in self.machines},
                "curs": {m: self.w.cur_snap(self.w.machine(m)) for m in self.machines}, "R": r, "O": o}

    def item(self, mach, kind, **kw):
        it = {"kind": kind, "mach": mach, "post": self.w.snap(mach)}
        it.update(kw)
        self.items.append(it)
        return it

    def execute(self, a):
        line, c = self.command(a)
        mach = a.get("mach") or self.machines[0]
        code, obs, err = self.w.run(mach, line, level=a.get("level", 1))
        if c["op"] == "add" and c["src"]["k"] in ("file", "empty"):
            try:
                with open(line["path"], "rb") as f:
                    raw = f.read()
                c["src"]["kept"] = core_h(raw) == c["src"]["h"] if raw else c["src"]["k"] == "empty"
            except FileNotFoundError:
                c["src"]["kept"] = False
        if c["op"] == "add" and c["src"]["k"] == "file" and c["src"]["kept"] and self.rng.random() < 0.5:
            # the file that was added has its own life: it is written again, in place
            with open(line["path"], "r+b") as f:
                f.truncate(self.rng.choice([0, c["src"]["s"], c["src"]["s"]]))
                f.write(self.rng.randbytes(min(c["src"]["s"], 300)))
        if c["op"] == "addpkg" and code == 0:
            # the packed content becomes known under its own id
            n = c["v"] + ".tar.zst"
            p = self.path(mach, n)
            if os.path.exists(p):
                with open(p, "rb") as f:
                    raw = f.read()
                try:
                    d = zst.decompress(raw)
                    if d not in self.w.contents.by_data:
                        self.w.contents.put("c:pkg%d" % self.n, d)
                        self.n += 1
                except ValueError:
                    pass
        it = self.item(mach, "cmd", cmd=c, code=code, reads=obs["R"], bad=[], refused=[], disturbed=False,
                       puts=self.put_names(obs["put"]) if self.w.s3 else ["?"])
        it["err"] = "exit %s: %s" % (code, err[-600:]) if code else ""
        return it

    def put_names(self, keys):
        pre = self.w.key("")
        return sorted(k[len(pre):] if k.startswith(pre) else "//" + k for k in keys)

    def go(self):
        # contents have to be known before anything is looked at
        for a in self.sc["actions"]:
            for k in ("v", "from", "to"):
                if a["op"] in ("publish", "ppatch", "lpatch", "add", "addup", "install", "patch") and a.get(k) and not (k == "v" and a["op"] in ("ppatch", "lpatch")):
                    if a.get("alt") and k == "v":
                        self.content(a[k], a["alt"])
                    self.content(a[k])
        head = []
        acts = list(self.sc["actions"])
        while acts and acts[0]["op"] not in COMMANDS:
            self.edit(acts.pop(0))
        init = self.snap_all()
        for a in acts:
            if a["op"] in COMMANDS:
                self.execute(a)
            else:
                self.edit(a)
                m = a.get("mach") or self.machines[0]
                self.item(m if m != "remote" else self.machines[0], "env")
        return {"init": init, "items": self.items}


def twin(sc, tools, s3):
    """the scenario with its S3 remote, and with a directory in its place; every command with what its twin did"""
    runs = []
    for x in (sc, dict(sc, remote="dir")):
        r = Runner(x, tools, s3 if x is sc else None)
        try:
            runs.append(r.go())
        finally:
            r.close()
    a, b = runs
    bad = [(x, y) for x, y in zip(a["items"], b["items"]) if x["kind"] != y["kind"]]
    if bad or len(a["items"]) != len(b["items"]):
        raise ToolError("the twins went different ways")
    world = {"R": b["init"]["R"], "Ls": dict(b["init"]["Ls"]), "curs": dict(b["init"]["curs"])}
    for x, y in zip(a["items"], b["items"]):
        m, p = y["mach"], y["post"]
        pre = {"L": world["Ls"][m], "R": world["R"], "cur": world["curs"][m]}
        world["R"], world["Ls"][m], world["curs"][m] = p["R"], p["L"], p["cur"]
        if x["kind"] == "cmd":
            x["twin"] = {"pre": pre, "post": {"L": p["L"], "R": p["R"], "cur": p["cur"]}, "code": y["code"]}
            if y["code"] != x["code"]:
                x["err"] += " / with a directory: " + y["err"]
    return a


def core_h(d):
    from .core import h
    return h(d)


def strip(run):
    """what TLC is given; the error messages apart"""
    return [it.pop("err", "") for it in run.get("items", [])]
