"""Executions of the real program with faults, kills and a second process -> runs for spec/FaultTrace.tla.

A scene is a scenario (vf.hist) whose actions are edits, with "procs": one or two commands.  The program is stopped before
every file operation below the scratch directory; pictures of all stores are taken there.  Every execution starts from a
fresh copy of the scene.  Nothing here judges anything.
"""
import errno, json, os, random, re, threading

from . import hist, pool
from .build import Hung, ToolError
from .core import Contents

DISK = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EDQUOT": errno.EDQUOT}
MAKING = {"open", "write", "mkdir", "symlink", "link"}


class Stage(hist.Runner):
    """a fresh copy of the scene, with the contents shared between copies"""

    def __init__(self, scene, shared):
        super().__init__(scene, pool.TOOLS, pool.server() if scene.get("remote") == "s3" else None)
        self.w.contents = shared["contents"]
        self.scene, self.shared = scene, shared
        for v in scene["versions"]:
            self.content(v)
            if scene.get("alts"):
                self.content(v, 1), self.content(v, 2)
        for a in scene["actions"]:
            self.edit(a)
        self.lines = [self.command(a) for a in scene["procs"]]
        for a, (line, c) in zip(scene["procs"], self.lines):
            if c["op"] == "addpkg" and "src" in shared:
                c["src"] = dict(shared["src"])

    def content(self, v, alt=0):
        r = super().content(v, alt)
        return r

    def mach(self, i):
        return self.scene["procs"][i].get("mach") or self.machines[0]

    def start(self, i, classes="mr", clock=None):
        a = self.scene["procs"][i]
        return self.w.start(self.mach(i), self.lines[i][0], classes, a.get("level", 1), clock)

    def learn(self, a, c, code):
        """what add-package packs is known only afterwards"""
        if c["op"] == "addpkg" and code == 0:
            with open(self.path(a.get("mach") or self.machines[0], c["v"] + ".tar.zst"), "rb") as f:
                raw = f.read()
            e = self.w.entry(raw, "x.tar.zst", "")
            if e["c"].startswith("?"):
                from . import zst
                d = zst.decompress(raw)
                self.w.contents.put("c:pkg" + hist.core_h(d), d)
                e = self.w.entry(raw, "x.tar.zst", "")
            self.shared["src"] = {"k": "file", "h": e["h"], "s": e["s"], "c": e["c"], "good": True, "kept": True}
            c["src"] = dict(self.shared["src"])


class Record:
    """one run; stamps and the numbers in temporary names are made independent of the execution"""

    def __init__(self):
        self.stamps, self.tmp, self.pics = {}, {}, []

    def norm_store(self, store, S):
        out = {}
        for n, e in sorted(S.items()):
            k = (store, n, e["v"])
            seen = self.stamps.setdefault((store, n), [])
            if e["v"] not in seen:
                seen.append(e["v"])
            m = n
            if re.search(r"\d{6,}", n) and n.startswith("."):
                m = self.tmp.setdefault(n, re.sub(r"\d{4,}", "N", n) + "~%d" % len(self.tmp))
            out[m] = dict(e, v=str(seen.index(e["v"])))
        return out

    def norm(self, w):
        return {"Ls": {m: self.norm_store(m, S) for m, S in sorted(w["Ls"].items())}, "curs": w["curs"], "R": self.norm_store("R", w["R"]), "O": w["O"]}


def name_in(path, names):
    b = os.path.basename(path)
    best = ""
    for n in names:
        if n in b and len(n) > len(best):
            best = n
    return best


def one(scene, shared, fault, mode):
    """a single execution of procs[0]; mode: what is done afterwards ("" "redo" "later")"""
    st = Stage(scene, shared)
    try:
        rec = Record()
        init = st.snap_all()
        run = {"init": rec.norm(init), "insts": [], "later": [], "procs": []}
        s3 = st.w.s3
        mark = s3.mark() if s3 else 0
        line, c = st.lines[0]
        proc = st.start(0, "mr" if not fault.get("s3") else "r")
        reads, bad, refused = set(), set(), set()
        rr, lr = os.path.realpath(st.w.remote) + "/", os.path.realpath(st.w.root) + "/"
        watch = fault["how"] == "none"
        ops, k, last, stuck, disturbed, dying = [], -1, None, None, False, False
        hit = {"n": 0}
        if s3 and fault.get("s3"):
            def act(ev):
                if ev["m"] != fault["s3"]:
                    return None
                i = hit["n"]
                hit["n"] += 1
                if i != fault["k"] and not fault.get("all") and not (fault.get("sticky") and hit.get("key") == ev["key"]):
                    return None
                hit["key"] = ev["key"]
                if fault["how"] == "kill":
                    proc.p.kill()
                    return ("drop",)
                if fault["how"] == "killafter":
                    threading.Timer(0.02, proc.p.kill).start()
                    return ("dropafter",) if ev["m"] == "PUT" else ("drop",)
                n = ev["key"][len(st.w.key("")):] if ev["key"].startswith(st.w.key("")) else ev["key"]
                if ev["m"] == "GET":
                    bad.add(n)
                elif ev["m"] == "PUT":
                    refused.add(n)
                return tuple(fault["fault"])
            s3.fault = act
        try:
            while True:
                op = proc.next()
                if op is None:
                    break
                k += 1
                cls, o, p, p2, num = op
                ops.append((cls, o, os.path.basename(p), p[len(lr):].split("/")[0], num))
                if o == "read" and p.startswith(rr):
                    reads.add(p[len(rr):])
                if watch and cls == "m":
                    x = st.snap_all()
                    if x != last:
                        run["insts"].append(rec.norm(x))
                        last = x
                if dying:
                    proc.kill()
                    break
                r = "g"
                if not fault.get("s3"):
                    if k == fault.get("k"):
                        how = fault["how"]
                        if how == "kill":
                            proc.kill()
                            break
                        if how == "short":
                            r, dying = ("s%d" % max(1, num // 2) if o == "write" else "g"), True
                        elif how == "shortgo":
                            r = "s%d" % max(1, num // 3)
                        elif how == "fail":
                            r, disturbed, watch = "e%d" % fault["errno"], True, True
                            if fault.get("sticky"):
                                stuck = p if cls == "r" else True
                            if cls == "r" and o in ("open", "read"):
                                n = os.path.basename(p)
                                if p.startswith(rr) or n.endswith(".zst"):
                                    bad.add(n)
                    elif stuck is True and cls == "m" and o in MAKING:
                        r = "e%d" % fault["errno"]
                    elif stuck is not None and stuck is not True and cls == "r" and p == stuck:
                        r = "e%d" % fault["errno"]
                proc.reply(r)
        finally:
            if proc.code is None:
                proc.kill()
            if s3:
                s3.fault = None
        if proc.code == 999:
            raise Hung("the command did not end: %s, %s" % (json.dumps(scene["procs"][0]), json.dumps(fault)))
        code, damaged = proc.code, []
        if fault.get("s3"):
            disturbed = "key" in hit
        if s3:
            ev = s3.since(mark)
            reads = {e["key"][len(st.w.key("")):] for e in ev if e["m"] == "GET"}
            puts = st.put_names([e["key"] for e in ev if e["m"] == "PUT"])
            damaged = sorted({(e["key"][len(st.w.key("")):], e["sent"]) for e in ev if e["m"] == "GET" and e["fault"] and "sent" in e})
        else:
            puts = ["?"]
        a = scene["procs"][0]
        if fault["how"] == "none":
            st.learn(a, c, code)
        run["post"] = rec.norm(st.snap_all())
        run["procs"] = [{"mach": st.mach(0), "cmd": c, "code": code, "reads": sorted(reads), "puts": puts, "bad": sorted(bad),
                         "refused": sorted(refused), "disturbed": disturbed, "damaged": [{"n": n, "h": x} for n, x in damaged]}]
        if fault["how"] == "none":
            run["insts"] = [x for x in run["insts"]]
        redo = {"has": False, "code": 0}
        if mode == "redo" and code != 0:
            redo = {"has": True, "code": st.w.run(st.mach(0), line, level=a.get("level", 1))[0]}
            redo["post"] = rec.norm(st.snap_all())
        run["redo"] = redo
        if mode == "later":
            for b in scene.get("later", []):
                it = st.execute(b)
                run["later"].append({k: it[k] for k in ("mach", "cmd", "code", "reads", "puts", "bad", "refused", "disturbed")}
                                    | {"damaged": [], "post": rec.norm(st.snap_all())})
        run["err"] = "exit %s: %s" % (code, proc.stderr()[-400:]) if code else ""
        return run, ops
    finally:
        st.close()


def faults_of(ops, plan, rng, scene):
    """which faults to try: plan maps a kind to the number wanted (None: all)"""
    out = []

    def some(xs, n):
        xs = list(xs)
        return xs if n is None or len(xs) <= n else [xs[i] for i in sorted(rng.sample(range(len(xs)), n))]

    m = [i for i, o in enumerate(ops) if o[0] == "m"]
    w = [i for i in m if ops[i][1] == "write"]
    r = [i for i, o in enumerate(ops) if o[0] == "r"]
    for kind, n in plan.items():
        if kind == "kill":
            out += [{"k": i, "how": "kill"} for i in some(m, n)]
        elif kind == "short":
            out += [{"k": i, "how": "short"} for i in some(w, n)]
        elif kind == "shortgo":
            out += [{"k": i, "how": "shortgo"} for i in some(w, n)]
        elif kind == "fail":
            out += [{"k": i, "how": "fail", "errno": rng.choice([errno.EIO, errno.EACCES, errno.ENOSPC, errno.EDQUOT])} for i in some(m, n)]
        elif kind == "full":
            out += [{"k": i, "how": "fail", "errno": errno.ENOSPC, "sticky": True} for i in some([i for i in m if ops[i][1] in MAKING], n)]
        elif kind == "read":
            out += [{"k": i, "how": "fail", "errno": errno.EIO} for i in some(r, n)]
        elif kind == "unreadable":
            out += [{"k": i, "how": "fail", "errno": errno.EACCES, "sticky": True} for i in some([i for i in r if ops[i][1] in ("open", "read")], n)]
        elif kind == "patchread":
            q = [i for i in r if ops[i][1] in ("open", "read") and ops[i][2].endswith(".patch.zst")]
            out += [{"k": i, "how": "fail", "errno": rng.choice([errno.EIO, errno.EACCES]), "sticky": s} for i in some(q, n) for s in (False, True)]
        else:
            raise ToolError("fault " + kind)
    return out


def fresh():
    return {"contents": Contents()}


def scene_runs(job):
    """all executions of a scene: job = {"scene", "plan", "mode", "seed"}; returns interned pictures, runs and counts"""
    scene, rng = job["scene"], random.Random(job["seed"])
    shared = fresh()
    out = Table()
    if scene.get("addpkg"):   # learn what is packed
        one(scene, shared, {"how": "none"}, "")
    ref, ops = one(scene, shared, {"how": "none"}, "later" if job["mode"] == "later" else "")
    refrec = {"has": True, "code": ref["procs"][0]["code"], "post": ref["post"]}
    out.add(ref, refrec, {"how": "none"})
    fs = list(job.get("faults", [])) + faults_of(ops, job["plan"], rng, scene)
    if scene.get("remote") == "s3":
        fs += s3_faults(ref, job.get("s3plan", {}), rng)
    for f in fs:
        run, _ = one(scene, shared, f, job["mode"])
        out.add(run, refrec, f)
    return out.data(scene)


STATUS = [(400, "InvalidRequest"), (400, "RequestTimeout"), (401, "Unauthorized"), (403, "AccessDenied"), (403, "RequestTimeTooSkewed"), (404, "NoSuchKey"), (404, "NoSuchBucket"), (404, "NoSuchKey"),
          (405, "MethodNotAllowed"), (408, "RequestTimeout"), (409, "OperationAborted"), (409, "BucketAlreadyExists"), (409, "InvalidBucketState"), (410, "Gone"), (411, "MissingContentLength"),
          (412, "PreconditionFailed"), (413, "EntityTooLarge"), (416, "InvalidRange"), (418, "Teapot"), (429, "TooManyRequests"), (500, "InternalError"), (501, "NotImplemented"), (502, "BadGateway"),
          (503, "SlowDown"), (503, "ServiceUnavailable"), (504, "GatewayTimeout"), (507, "InsufficientStorage"), (301, "PermanentRedirect"), (307, "TemporaryRedirect"), (304, "NotModified")]


def damage(rng):
    """something that is wrong with a download"""
    at = rng.choice([0, 1, 2, 3, -1, -2, rng.randrange(64), rng.randrange(10**6), rng.randrange(10**6), 2**20, 2**20 + 1, 65536, 8192])
    how = rng.choice(["flip", "flip", "flip", "bit", "last", "shorten", "shorten", "one-less", "to-nothing", "extend", "transpose", "other", "sumof", "etag", "etag", "etag", "digit", "digit", "cut", "cut", "both",
                      "unknown-length", "status", "partial", "two"])
    d = {"flip": {"flip": at, "by": rng.choice([0x55, 0xFF, 0x01, 0x80, 0x20])}, "bit": {"flip": at, "by": 1 << rng.randrange(8)}, "last": {"flip": -1, "by": rng.randrange(1, 256)},
         "shorten": {"shorten": at}, "one-less": {"shorten": -1}, "to-nothing": {"shorten": 0}, "extend": {"extend": at, **({} if rng.random() < 0.5 else {"zero": 1})}, "transpose": {"transpose": at},
         "other": {"other": at}, "sumof": {"sumof": at}, "etag": {"etag": rng.choice(["none", "none", "empty", "empty", "cut", "cut", "long", "front", "zero", "sha1", "of-nothing"]), "at": rng.randrange(10**6)},
         "digit": {"etag": "digit", "at": rng.choice([0, 31, 15, 16, 7, rng.randrange(10**6)])}, "cut": {"cut": at}, "both": {"flip": at, "etag": rng.choice(["none", "empty", "cut", "digit"]), "at": rng.randrange(32)},
         "unknown-length": rng.choice([{"flip": at, "nolength": True}, {"cut": at, "nolength": True}]),
         "status": {"status": rng.choice([400, 403, 404, 416, 500, 503, 301, 302]), **({"flip": at} if rng.random() < 0.3 else {})},
         "partial": {"status": 206, **rng.choice([{"shorten": at}, {"flip": at}])}, "two": {"flip": at, "extend": 3}}[how]
    return ("mix", d)


def s3_faults(ref, plan, rng):
    n = {"GET": len(ref["procs"][0]["reads"]), "PUT": len([x for x in ref["procs"][0]["puts"] if x != "?"]), "LIST": 1}
    out = []
    for m, kinds in plan.items():
        for i in range(n[m]):
            for f in kinds:
                if f in ("kill", "killafter"):
                    out.append({"s3": m, "k": i, "how": f})
                else:
                    if f in ("damage", "damage-all"):
                        out.append({"s3": m, "k": i, "how": "s3", "fault": damage(rng), "sticky": True, "all": f == "damage-all" or rng.random() < 0.15})
                        continue
                    if f == "any":
                        f = ("status",) + rng.choice(STATUS)
                    out.append({"s3": m, "k": i, "how": "s3", "fault": f, "sticky": True})
    return out


class Table:
    """runs with shared pictures; equal runs are kept once"""

    def __init__(self):
        self.pics, self.index, self.runs, self.seen, self.count = [], {}, [], {}, 0
        self.faults = []

    def pic(self, p):
        k = json.dumps(p, sort_keys=True)
        if k not in self.index:
            self.pics.append(p)
            self.index[k] = len(self.pics)
        return self.index[k]

    def add(self, run, ref, fault):
        self.count += 1
        err = run.pop("err", "")
        r = {"init": self.pic(run["init"]), "procs": run["procs"], "insts": [self.pic(x) for x in run["insts"]], "post": self.pic(run["post"])}
        r["ref"] = {"has": ref["has"], "code": ref["code"], "post": self.pic(ref["post"]) if ref["has"] else r["init"]}
        d = run["redo"]
        r["redo"] = {"has": d["has"], "code": d["code"], "post": self.pic(d["post"]) if d["has"] else r["init"]}
        r["later"] = [dict(x, post=self.pic(x["post"])) for x in run["later"]]
        k = json.dumps(r, sort_keys=True)
        if k not in self.seen:
            self.seen[k] = len(self.runs)
            self.runs.append(r)
            self.faults.append({"fault": fault, "err": err})

    def data(self, scene):
        return {"pics": self.pics, "runs": self.runs, "faults": self.faults, "count": self.count, "scene": scene}


# ---- two processes
def pair(scene, shared, sched):
    """sched: {"i": ops of the first before the second starts, "j": ops of the second before the first goes on, "turns": ops of
    the first, the second, ... after that, "kill": None|0|1}
    or {"net": k, ...}: the second runs (j operations, or all) when the k-th request of the first has reached the server"""
    st = Stage(scene, shared)
    procs = []
    try:
        rec = Record()
        run = {"init": rec.norm(st.snap_all()), "insts": [], "later": [], "procs": []}
        last = [None]

        def look():
            x = st.snap_all()
            if x != last[0]:
                run["insts"].append(rec.norm(x))
                last[0] = x

        def advance(p, n):
            """let p do n operations (or all it has)"""
            k = 0
            while n is None or k < n:
                op = p.next()
                if op is None:
                    return False
                p.reply("g")
                k += 1
                if op[0] == "m":
                    q = p.next()
                    look()
                    if q is None:
                        return False
            return True

        clock = 1700000000
        a = st.start(0, "mr", clock)
        procs.append(a)
        if "net" in sched:
            seen, wrong = [0], []

            def act(ev):
                seen[0] += 1
                if seen[0] == sched["net"] and len(procs) == 1:
                    try:
                        procs.append(st.start(1, "mr", clock))
                        advance(procs[1], sched.get("j"))
                    except BaseException as e:
                        wrong.append(e)
            st.w.s3.fault = act
            advance(a, None)
            st.w.s3.fault = None
            if wrong:
                raise wrong[0]
        else:
            advance(a, sched["i"])
        b = procs[1] if len(procs) > 1 else st.start(1, "mr", clock)
        if len(procs) == 1:
            procs.append(b)
            advance(b, sched.get("j"))
        for x, k in enumerate(sched.get("turns", ())):
            p = (a, b)[x % 2]
            if p.code is None:
                advance(p, k)
        if sched.get("kill") == 0:
            a.kill()
        if sched.get("kill") == 1:
            b.kill()
        if a.code is None:
            advance(a, None)
        if b.code is None:
            advance(b, None)
        look()
        for i, p in enumerate(procs):
            c = st.lines[i][1]
            run["procs"].append({"mach": st.mach(i), "cmd": c, "code": p.code, "reads": [], "puts": ["?"], "bad": [], "refused": [], "disturbed": True, "damaged": [],
                                 "alone": sched.get("alone", [-1, -1])[i]})
        run["post"] = rec.norm(st.snap_all())
        redo = {"has": True, "code": st.w.run(st.machines[0], {"op": "debug"})[0], "post": run["post"]}
        run["redo"] = redo
        run["err"] = " / ".join("exit %s: %s" % (p.code, p.stderr()[-300:]) for p in procs if p.code not in (0, -9))
        return run
    finally:
        if st.w.s3:
            st.w.s3.fault = None
        for p in procs:
            if p.code is None:
                p.kill()
        st.close()


def count_ops(scene, shared, i):
    """operations and requests of a command, and its exit code"""
    st = Stage(scene, shared)
    try:
        mark = st.w.s3.mark() if st.w.s3 else 0
        p = st.start(i, "mr", 1700000000)
        n = 0
        while p.next():
            p.reply("g")
            n += 1
        st.learn(scene["procs"][i], st.lines[i][1], p.code)
        return n, p.code, len(st.w.s3.since(mark)) if st.w.s3 else 0
    finally:
        st.close()


def pair_runs(job):
    """job = {"scene", "count", "seed"}: schedules of two commands"""
    scene, rng = job["scene"], random.Random(job["seed"])
    shared = fresh()
    n, alone, nets = zip(count_ops(scene, shared, 0), count_ops(scene, shared, 1))
    scheds = [{"i": i, "j": None} for i in range(n[0] + 1)]
    two = [{"i": i, "j": j} for i in range(n[0] + 1) for j in range(1, n[1])]
    kills = [dict(s, kill=rng.choice([0, 1])) for s in two]

    def many():
        """switching more often"""
        s = {"i": rng.randrange(n[0] + 1), "j": rng.randrange(1, max(2, n[1])), "turns": []}
        for _ in range(rng.randrange(1, 9)):
            s["turns"].append(rng.choice([1, 1, 1, 2, 2, 3, rng.randrange(1, max(2, n[len(s["turns"]) % 2]))]))
        return s

    k = job["count"]
    if k is not None:
        # single switches first, then some double ones and some with a kill
        scheds = scheds if len(scheds) <= k // 2 else rng.sample(scheds, k // 2)
        scheds = scheds + [many() for _ in range(k // 6)]
        left = k - len(scheds)
        scheds = scheds + rng.sample(two, min(len(two), left * 2 // 3)) + rng.sample(kills, min(len(kills), left // 3))
    else:
        scheds = scheds + two + kills + [many() for _ in range(300)]
    net = [{"net": i, "j": None} for i in range(1, nets[0] + 1)] + [{"net": i, "j": rng.randrange(1, max(2, n[1]))} for i in range(1, nets[0] + 1) for _ in range(2)]
    scheds += net if k is None or len(net) <= k // 2 else rng.sample(net, k // 2)
    t = Table()
    for s in scheds:
        s["alone"] = alone
        t.add(pair(scene, shared, s), {"has": False, "code": 0}, s)
    return t.data(scene)
