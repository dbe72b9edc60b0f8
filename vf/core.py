"""Scratch worlds, observation of stores, execution of the real binary under the shim.

A world has machines (local stores), one remote (a directory or a path in a scripted S3 bucket) and a table
of known contents.  Observations are plain data; they are judged by the TLA+ specification only.
"""
import errno, hashlib, json, os, random, select, shutil, signal, socket, subprocess, tempfile, time

from . import bidiff, zst
from .build import Hung, ToolError

BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
CUR = "current"


def h(b):
    return hashlib.md5(b).hexdigest()[:16]


class Contents:
    """Known unpacked contents, by id."""

    def __init__(self):
        self.by_id, self.by_data, self.cache = {}, {}, {}

    def put(self, cid, data):
        if cid in self.by_id:
            if self.by_id[cid] != data:
                raise ToolError("content id reused: " + cid)
            return cid
        self.by_id[cid] = data
        self.by_data[data] = cid
        self.cache.clear()
        return cid

    def cid(self, data):
        c = self.by_data.get(data)
        return c if c is not None else "?" + h(data)

    def look(self, raw, patch):
        """(content id of the unpacked bytes or "-", [[from, to], ...] when read as patch)"""
        key = (patch, hashlib.md5(raw).digest())
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = self._look(raw, patch)
        return r

    def _look(self, raw, patch):
        try:
            data = zst.decompress(raw)
        except ValueError:
            return "-", []
        if not patch:
            return self.cid(data), []
        m = []
        for cid, old in sorted(self.by_id.items()):
            try:
                new = self.by_data.get(bidiff.apply(old, data))
                if new is not None:
                    m.append([cid, new])
            except bidiff.Bad:
                pass
        return "p", m


def listing(path):
    return sorted((os.path.relpath(p, path), sorted(ds), sorted(fs)) for p, ds, fs in os.walk(path))


def rand_content(rng, n=None, like=None):
    """Random bytes; with `like`, mostly the same as that."""
    if n is None:
        n = rng.randrange(60, 400)
    if like is None:
        return rng.randbytes(n)
    b = bytearray(like)
    for _ in range(rng.randrange(1, 6)):
        k = rng.randrange(3)
        i = rng.randrange(len(b) + 1)
        if k == 0 and b:
            b[i % len(b)] = rng.randrange(256)
        elif k == 1:
            b[i:i] = rng.randbytes(rng.randrange(1, 30))
        elif len(b) > 40:
            del b[i : i + rng.randrange(1, 20)]
    return bytes(b)


class World:
    def __init__(self, seed=0, binary=None, shim=None, certs=None, s3=None, s3path="/", bucket="bkt"):
        self.root = tempfile.mkdtemp(prefix="vf-", dir=BASE)
        self.rng = random.Random(seed)
        self.binary, self.shim, self.certs = binary, shim, certs
        self.contents = Contents()
        self.machines = {}
        self.s3, self.s3path, self.bucket = s3, s3path, bucket
        # (names which start like that of a store)
        self.remote = os.path.join(self.root, "a.remote")
        os.mkdir(self.remote)
        self.tmp = os.path.join(self.root, "a-tmp")
        os.mkdir(self.tmp)
        self.src = os.path.join(self.root, "a2")
        os.mkdir(self.src)
        self.aux = tempfile.mkdtemp(prefix="vfaux-", dir=BASE)
        self.umask = None
        self.way = {}    # how the program is called: see gen.way

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.rmtree(self.aux, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def machine(self, name):
        if name not in self.machines:
            p = os.path.join(self.root, name)
            os.mkdir(p)
            self.machines[name] = p
        return self.machines[name]

    # -- remote as a flat name -> bytes map
    def key(self, name):
        p = self.s3path.strip("/")
        return p + "/" + name if p else name

    def remote_put(self, name, data):
        if self.s3:
            self.s3.put(self.bucket, self.key(name), data)
        else:
            write(os.path.join(self.remote, name), data)

    def remote_url(self):
        if self.s3:
            return "s3://%s.localhost%s" % (self.bucket, self.s3path)
        return self.remote

    # -- observation
    def entry(self, raw, name, stamp):
        c, m = ("-", [])
        if name.endswith(".zst"):
            c, m = self.contents.look(raw, name.endswith(".patch.zst")) if raw else ("-", [])
        return {"t": "f", "s": len(raw), "h": h(raw), "c": c, "m": m, "v": stamp}

    def dir_snap(self, path):
        out = {}
        for e in os.scandir(path):
            if e.name == CUR:
                continue
            try:
                name = e.name.encode().decode("utf-8")
            except (UnicodeDecodeError, UnicodeEncodeError):
                name = "?nonutf8"
            try:
                st = e.stat(follow_symlinks=False)
                if e.is_symlink():
                    out[name] = {"t": "l", "s": 0, "h": h(os.readlink(e.path).encode()), "c": "-", "m": [], "v": ""}
                elif e.is_file(follow_symlinks=False):
                    with open(e.path, "rb") as f:
                        raw = f.read()
                    out[name] = self.entry(raw, name, "%d:%d" % (st.st_ino, st.st_mtime_ns))
                else:
                    out[name] = {"t": "d", "s": 0, "h": h(repr(listing(e.path)).encode()) if e.is_dir(follow_symlinks=False) else "", "c": "-", "m": [], "v": ""}
            except FileNotFoundError:
                pass
        return out

    def cur_snap(self, path):
        p = os.path.join(path, CUR)
        try:
            t = os.readlink(p)
        except FileNotFoundError:
            return {"k": "none", "n": "", "c": "-", "in": False}
        except OSError:
            return {"k": "other", "n": "", "c": "-", "in": False}
        r = os.path.realpath(p)
        name = os.path.basename(t)
        if not os.path.isfile(r) or os.path.getsize(r) == 0:
            return {"k": "dangling", "n": name, "c": "-", "in": False}
        with open(r, "rb") as f:
            c, _ = self.contents.look(f.read(), False)
        return {"k": "ok", "n": os.path.basename(r), "c": c, "in": os.path.dirname(r) == os.path.realpath(path)}

    def remote_snap(self):
        if not self.s3:
            d = self.dir_snap(self.remote)
            p = os.path.join(self.remote, CUR)
            if os.path.islink(p) or os.path.exists(p):
                d[CUR] = {"t": "l", "s": 0, "h": h(os.readlink(p).encode()) if os.path.islink(p) else "?", "c": "-", "m": [], "v": ""}
            # whatever appears besides the stores
            known = {os.path.basename(p) for p in (self.remote, self.tmp, self.src)} | set(self.machines)
            return d, {n: "there" for n in os.listdir(self.root) if n not in known}
        pre, inside, outside = self.key(""), {}, {}
        for k, (raw, gen) in self.s3.objects(self.bucket).items():
            if k.startswith(pre) and "/" not in k[len(pre) :] and k != pre:
                inside[k[len(pre) :]] = self.entry(raw, k, "%d" % gen)
            else:
                outside[k] = h(raw) + ":%d" % gen
        return inside, outside

    def snap(self, machine):
        p = self.machine(machine)
        r, o = self.remote_snap()
        return {"L": self.dir_snap(p), "R": r, "O": o, "cur": self.cur_snap(p)}

    # -- execution
    def spelt(self, path, how, cwd):
        """another way to write a path"""
        if how == "rel":
            return os.path.relpath(path, cwd)
        if how == "slash":
            return path + "/" if os.path.isdir(path) else path
        if how == "dots":
            return os.path.join(os.path.dirname(path), ".", "..", os.path.basename(os.path.dirname(path)), os.path.basename(path))
        if how == "twice":
            return path.replace("/", "//")
        if how == "link":    # through a link to the directory it is in
            l = os.path.join(self.aux, "to-" + os.path.basename(os.path.dirname(path)))
            if not os.path.islink(l):
                os.symlink(os.path.dirname(path), l)
            return os.path.join(l, os.path.basename(path))
        if how == "alias":    # through a link to it, of another name
            l = os.path.join(self.aux, "store-of-" + os.path.basename(path))
            if not os.path.islink(l):
                os.symlink(path, l)
            return l
        return path

    def argv(self, machine, cmd):
        w, cwd = self.way, cmd.get("cwd", self.aux)
        a = [self.binary]
        if w.get("verbose"):
            a += ["-v"]
        if not w.get("env"):
            a += ["--local", cmd.get("local") or self.spelt(self.machine(machine), w.get("local"), cwd), "--remote", cmd.get("remote") or (self.remote_url() if self.s3 else self.spelt(self.remote, w.get("remote"), cwd))]
        op = cmd["op"]
        if op == "install":
            a += ["install", cmd["v"]] if not cmd["v"].startswith("-") else ["install", "--", cmd["v"]]
        elif op in ("add", "addpkg"):
            a += ["add"] if op == "add" else ["add-package"]
            if cmd.get("upload"):
                a += ["--upload"]
            if cmd.get("from") is not None:
                a += ["--calc-patch-from=" + cmd["from"]]
            a += ["--"]
            if op == "addpkg":
                a += [cmd["v"]]
            a += [self.spelt(cmd["path"], w.get("source"), cwd) if cmd["path"].startswith(self.root + "/") else cmd["path"]]
        elif op == "patch":
            a += ["create-patch", "--", cmd["from"], cmd["to"]]
        elif op == "auto":
            a += ["auto-patch", "--repo-root", cmd["repo"]]
            if cmd.get("prefix"):
                a += ["--prefix=" + cmd["prefix"]]
            a += ["--", cmd["v"]]
        elif op == "sync":
            a += ["sync"]
        elif op == "debug":
            a += ["debug"]
        else:
            raise ToolError("op " + op)
        return a

    def env(self, machine, cmd, level=1, clock=None, classes=None):
        e = {"PATH": "/usr/bin:/bin", "HOME": self.aux, "TMPDIR": self.tmp, "RUST_BACKTRACE": "0",
             "LD_PRELOAD": self.shim, "VF_ROOT": os.path.realpath(self.root), "GIT_CONFIG_NOSYSTEM": "1", "RUST_LOG": "warn"}
        w = self.way
        if w.get("env"):
            e.update(ARTEFACTA_LOCAL_STORE=cmd.get("local") or self.spelt(self.machine(machine), w.get("local"), cmd.get("cwd", self.aux)),
                     ARTEFACTA_REMOTE_STORE=cmd.get("remote") or (self.remote_url() if self.s3 else self.spelt(self.remote, w.get("remote"), cmd.get("cwd", self.aux))))
        if w.get("log"):
            e["RUST_LOG"] = w["log"]
        if w.get("verbose"):
            del e["RUST_LOG"]
        if level == 1 and "level" in w:
            level = w["level"]
        if level is not None:
            e["ARTEFACTA_COMPRESSION_LEVEL"] = str(level)
        if clock is not None:
            e["VF_CLOCK"] = str(int(clock))
        if classes:
            e["VF_CLASSES"] = classes
        if self.s3:
            e.update(VF_S3PORT=str(self.s3.port), SSL_CERT_FILE=self.certs[0], AWS_ACCESS_KEY_ID="k", AWS_SECRET_ACCESS_KEY="s")
        return e

    def run(self, machine, cmd, level=1, timeout=120):
        """Undisturbed run.  Returns (exit code, {store: names read}, stderr)."""
        log = os.path.join(self.aux, "ops")
        try:
            os.unlink(log)
        except FileNotFoundError:
            pass
        e = self.env(machine, cmd, level, classes=cmd.get("classes", "mr"))
        e["VF_LOG"] = log
        mark = self.s3.mark() if self.s3 else 0
        try:
            p = subprocess.run(self.argv(machine, cmd), env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=timeout, cwd=cmd.get("cwd", self.aux),
                               preexec_fn=(lambda: os.umask(self.umask)) if self.umask is not None else None)
        except subprocess.TimeoutExpired:
            raise Hung("the command did not end within %d s: %s" % (timeout, json.dumps({k: v for k, v in cmd.items() if v})))
        reads, hello = set(), False
        rr = os.path.realpath(self.remote) + "/"
        with open(log, "rb") as f:
            for l in f.read().decode("utf-8", "replace").split("\n"):
                q = l.split("\t")
                if len(q) < 5:
                    continue
                if q[1] == "hello":
                    hello = True
                if q[1] == "read" and q[2].startswith(rr):
                    reads.add(q[2][len(rr):])
        if not hello:
            raise ToolError("the shim was not loaded")
        obs = {"R": sorted(reads), "put": [], "get": []}
        if self.s3:
            ev = self.s3.since(mark)
            obs["get"] = [e["key"] for e in ev if e["m"] == "GET"]
            obs["put"] = [e["key"] for e in ev if e["m"] == "PUT"]
            pre = self.key("")
            obs["R"] = sorted({k[len(pre):] if k.startswith(pre) else "//" + k for k in obs["get"]})
        return p.returncode, obs, p.stderr.decode("utf-8", "replace")

    def start(self, machine, cmd, classes="m", level=1, clock=None):
        return Proc(self, machine, cmd, classes, level, clock)


class Proc:
    """The real program, stopped before every reported operation."""

    def __init__(self, world, machine, cmd, classes, level=1, clock=None):
        self.world, self.machine, self.cmd = world, machine, cmd
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.sock = a
        e = world.env(machine, cmd, level, clock, classes)
        e["VF_FD"] = str(b.fileno())
        self.errpath = os.path.join(world.aux, "err%d" % b.fileno())
        with open(self.errpath, "wb") as err:
            self.p = subprocess.Popen(world.argv(machine, cmd), env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                      stderr=err, pass_fds=(b.fileno(),), cwd=cmd.get("cwd", world.aux))
        b.close()
        self.code = None
        self.pending = None
        self.count = 0
        m = self._recv()
        if m is None or m[1] != "hello":
            self.kill()
            raise ToolError("no handshake with the shim")
        self.reply("g")

    def _recv(self, timeout=60):
        r, _, _ = select.select([self.sock], [], [], timeout)
        if not r:
            self.kill()
            self.code = 999
            return None
        try:
            m = self.sock.recv(65536)
        except ConnectionResetError:   # killed while a reply was on its way
            m = b""
        if not m:
            try:
                self.code = self.p.wait(30)
            except subprocess.TimeoutExpired:
                self.kill()
                self.code = 999
            self.sock.close()
            return None
        q = m.decode("utf-8", "surrogateescape").split("\t")
        return q[0], q[1], "\t".join(q[2:-2]), q[-2], int(q[-1])

    def next(self):
        """Next operation (class, op, path, path2, number), or None when the program has ended."""
        if self.code is not None:
            return None
        if self.pending is None:
            self.count += 1
            if self.count > 100000:
                self.kill()
                self.code = 999
                return None
            self.pending = self._recv()
        return self.pending

    def reply(self, r="g"):
        self.pending = None
        try:
            self.sock.send(r.encode())
        except OSError:
            pass

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.code = -9 if self.code is None else self.code
        try:
            self.sock.close()
        except OSError:
            pass

    def finish(self):
        while self.next():
            self.reply("g")
        return self.code

    def stderr(self):
        with open(self.errpath, "rb") as f:
            return f.read().decode("utf-8", "replace")


def write(path, data):
    with open(path, "wb") as f:
        f.write(data)
    return path
