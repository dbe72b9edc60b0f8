"""What is done for every property."""
import json, os, random

from . import gen, hist, ops, packs, pool, scenes, tlc
from .build import ToolError
from .check import Violation, execute, execute_twin

ALL = ["C01", "C02", "C05", "C06", "C07", "C08", "C09", "C10", "C17", "C18", "C19"]


# ---- the history machine
def system(c, **over):
    k = dict(Vs=tlc.tla({"1", "2", "3"}), Machines=tlc.tla({"a"}), PSizes="{3, 6}", BSize="10", Damage='{"ok", "broken"}',
             EnvOps=tlc.tla({"publish", "ppatch", "lpatch", "evict"}), CmdOps=tlc.tla({"install", "patch", "sync", "add", "badadd"}),
             MaxSteps="3", Report="FALSE", Published="{}", Props=tlc.tla({c.prop}))
    k.update({a: b if isinstance(b, str) else tlc.tla(b) for a, b in over.items()})
    return k


def check_system(c, label, **over):
    c.model(label, "System.tla", tlc.cfg(system(c, **over), ["AllHold", "Sound"], view="Explored"), timeout=3000, heap="12g")


def simulated(c, n, steps, tag=0, remote="dir", names=True, **over):
    """histories which TLC draws from the history machine, as scenarios"""
    k = system(c, Report="TRUE", Props=set(), MaxSteps=str(steps), **over)
    r = tlc.run("System.tla", tlc.cfg(k, []), workers=1, timeout=600, light=True,
                args=["-simulate", "num=%d" % n, "-depth", str(steps + 2), "-seed", str(c.seed * 131 + tag)])
    hs = r.printed("HIST")
    if len(hs) < n * 0.9:
        raise ToolError("TLC drew only %d histories\n%s" % (len(hs), r.out[-2000:]))
    machines = ["a", "b"] if "Machines" in over and len(over["Machines"]) > 1 else ["a"]
    pub = [{"op": "publish", "v": v} for v in sorted(over.get("Published", []))]
    out = []
    for i, h in enumerate(hs):
        rng = random.Random(c.seed * 7 + i + tag * 100003)
        out.append({"seed": c.seed * 100000 + tag * 5000 + i, "remote": remote, "machines": machines, "actions": pub + h,
                    "s3path": rng.choice(["/", "/p/q"]), "names": gen.names(rng, 4) if names and not any(a["op"] == "stray" for a in h) else {}})
    return out


def histories(c, *groups):
    """groups of (what, scenarios or a future of them); executes and judges all of them"""
    sc, runs = [], []
    for what, x in groups:
        x = x if isinstance(x, list) else x.result()
        r = pool.run(execute, x)
        c.lap("ran %d %s" % (len(x), what))
        sc += x
        runs += r
    c.evaluations += sum(1 for r in runs for i in r["items"] if i["kind"] == "cmd")
    for i in sorted(range(len(runs)), key=lambda i: -len(runs[i]["items"]))[:2]:
        c.sample({"scenario": sc[i]["actions"][:12], "names": sc[i].get("names"),
                  "observed": [{"cmd": {k: v for k, v in x["cmd"].items() if v and k in ("op", "v", "from", "to", "upload")}, "exit": x["code"], "read": x["reads"],
                                "local": sorted(x["post"]["L"]), "current": x["post"]["cur"]["n"]} for x in runs[i]["items"] if x["kind"] == "cmd"][:4]})
    c.judge(runs, sc, what="recorded histories")
    return runs


def teeth(c, runs, spoil, what):
    """the judge has to reject a recorded run that has been tampered with"""
    bad = json.loads(json.dumps(runs))
    hits = [r for r in bad if spoil(r)][:12]
    if not hits:
        c.notes.setdefault("nothing_to_tamper_with", []).append(what)
        return
    try:
        c2 = type(c)(c.prop, c.level, c.seed, c.tier)
        c2.save = lambda *a: "-"
        c2.judge(hits, [{}] * len(hits), what="spoilt")
    except Violation:
        c.notes.setdefault("tampered_traces_rejected", []).append(what)
        c.lap("teeth")
        return
    raise ToolError("a run that was tampered with was accepted: " + what)


def first_cmd(r, f):
    for i in r["items"]:
        if i["kind"] == "cmd" and f(i):
            return i
    return None


V3 = {"1", "2", "3"}
ENV_INSTALL = {"ppatch", "lpatch", "evict", "forget"}


# ---- C01
def c01(c):
    c.later(check_system, c, "histories of one machine, installs and patches", CmdOps={"install", "patch"}, EnvOps=ENV_INSTALL, Published=V3,
            MaxSteps=c.pick("3", "4"))
    a = c.later(simulated, c, c.pick(120, 1500), 14, 1, Machines={"a", "b"}, EnvOps=ENV_INSTALL, CmdOps={"install", "patch", "sync"}, Published=V3)
    o = {"variants": [{"machines": 1}, {"machines": 2}, {"nvers": (4, 8), "density": 0.4}], "cmds": {"install": 6, "patch": 1, "sync": 1, "add": 1}}
    runs = histories(c, ("random histories, directory remote", gen.larges(c.seed, c.pick(2, 24), {}, 71) + gen.many(c.seed, c.pick(700, 8000), o, 1)),
                     ("random histories, S3 remote", gen.larges(c.seed, c.pick(1, 12), {"remote": "s3"}, 72) + gen.many(c.seed, c.pick(50, 800), dict(o, remote="s3", steps=(1, 5)), 2)),
                     ("stores with very many files", gen.bulks(c.seed, c.pick(3, 30), {"bulk": [40, 60, 90], "more": 6}, 57)),
                     ("histories drawn by TLC", a))
    c.need(route__full=20, route__chain=10, route__cached_part=3, route__fallback=10, route__cached=20, route__local_patch=10, cur__dangling=5)

    def spoil(r):
        i = first_cmd(r, lambda i: i["cmd"]["op"] == "install" and i["code"] == 0)
        if i:
            i["post"]["L"][i["cmd"]["v"] + ".tar.zst"].update(c="c:other", h="other")
            return True
    teeth(c, runs, spoil, "content of an installed build changed")


# ---- C05
def graphs(c, n):
    """small patch graphs, all or a sample: one to be installed from, one to be installed, every edge absent or of one of 3 sizes"""
    edges = [(f, t) for f in "123" for t in "123" if f != t]
    total = 4 ** 6
    ids = range(total) if n >= total else sorted(random.Random(c.seed * 31 + 5).sample(range(total), n))
    out = []
    for x in ids:
        rng = random.Random(c.seed * 100000 + x)
        acts = [{"op": "publish", "v": v, "size": 9 * hist.UNIT} for v in "123"]
        acts += [{"op": "publish", "v": "1", "where": "a", "size": 9 * hist.UNIT}, {"op": "current", "mach": "a", "v": "1"}]
        y = x
        for e in edges:
            z, y = y % 4, y // 4
            if z:
                local = rng.random() < 0.3
                acts.append({"op": "lpatch" if local else "ppatch", "mach": "a" if local else "remote", "from": e[0], "to": e[1], "size": [0, 3, 6, 9][z] * hist.UNIT, "v": "ok"})
        acts.append({"op": "install", "mach": "a", "v": "3"})
        nm = rng.sample(["1.0", "2.0", "3.0", "a", "b-1", "10", "9"], 3)
        out.append({"seed": 77, "remote": "dir", "machines": ["a"], "actions": acts, "names": dict(zip("123", nm)), "graph": x})
    return out


def c05(c):
    c.later(c.model, "shortest paths against all simple chains, all graphs of 3 builds", "MCPlanner.tla", "MCPlanner.cfg", workers=2)
    if not c.quick:
        c.later(c.model, "shortest paths against all simple chains, all graphs of 4 builds", "MCPlanner.tla", tlc.cfg({"N": "4", "Z": "3"}, ["Right"]), timeout=3000, heap="8g")
    c.later(check_system, c, "histories of one machine, installs and patches", CmdOps={"install", "patch"}, EnvOps=ENV_INSTALL, Published=V3,
            MaxSteps=c.pick("3", "4"))
    a = c.later(simulated, c, c.pick(60, 1500), 14, 2, Machines={"a"}, EnvOps={"ppatch", "lpatch", "evict"}, CmdOps={"install"}, Published=V3)
    g = graphs(c, c.pick(300, 5000))
    runs = histories(c, ("upgrades, directory remote", gen.upgrades(c.seed, c.pick(450, 8000), {"damage": 0.04, "long": 0.08, "large": 0.1}, 3)),
                     ("small patch graphs", g),
                     ("upgrades, S3 remote", gen.upgrades(c.seed, c.pick(40, 800), {"damage": 0.03, "remote": "s3"}, 4)),
                     ("random histories", gen.many(c.seed, c.pick(150, 3000), {"cmds": {"install": 6, "patch": 1, "sync": 1, "add": 1}, "machines": 2}, 5)),
                     ("histories drawn by TLC", a))
    c.notes["small_graphs_replayed"] = len(g)
    c.need(route__full=50, route__full_though_patches=30, route__patches=150, route__chain=80, route__cached_part=15, route__cached=20, route__local_patch=50,
           route__installed=10, route__tie=10)

    def spoil(r):
        i = first_cmd(r, lambda i: i["cmd"]["op"] == "install" and i["code"] == 0 and i["reads"] and i["reads"] != [i["cmd"]["v"] + ".tar.zst"])
        if i:
            i["reads"] = sorted(i["reads"] + [i["cmd"]["v"] + ".tar.zst"])
            return True
    teeth(c, runs, spoil, "the full build was read besides usable patches")


# ---- C06
def c06(c):
    c.later(check_system, c, "histories of one machine with broken patches", CmdOps={"install"}, EnvOps={"ppatch", "lpatch", "evict"}, Published=V3,
            MaxSteps=c.pick("3", "4"), Damage={"broken", "ok"})
    runs = histories(c, ("upgrades with damaged patches", gen.upgrades(c.seed, c.pick(700, 10000), {"damage": 0.35, "large": 0.35, "long": 0.02}, 6)),
                     ("upgrades with damaged patches, S3 remote", gen.upgrades(c.seed, c.pick(40, 800), {"damage": 0.35, "large": 0.3, "remote": "s3"}, 7)),
                     ("every truncation of a patch", truncations(c)))
    unread = faulty(c, "", (scenes.scenes(c.seed, 20, ["chain", "fallback", "chain"], c.pick(24, 400), big=0.1), {"patchread": None}, {}),
                    (scenes.scenes(c.seed, 21, ["chain", "chain", "fallback"], c.pick(6, 60), "s3"), {"patchread": 4},
                     {"GET": [("status", 500, "InternalError"), ("status", 404, "NoSuchKey"), ("cut", 100), ("flip", 30), ("drop",)]}))
    c.need(route__fallback=200, route__chain=100, unreadable=60, survived_the_fault=60)

    def spoil(r):
        i = first_cmd(r, lambda i: i["cmd"]["op"] == "install" and i["code"] == 0 and i["reads"])
        if i:
            i["post"]["L"]["1234.tar.zst"] = {"t": "f", "s": 10, "h": "x", "c": "?x", "m": [], "v": "1"}
            return True
    teeth(c, runs, spoil, "a build with wrong content left behind")


def truncations(c):
    """a chain of two; each patch cut at every byte (quick: a sample)"""
    out = []
    for pos in (0, 1):
        for where in ("ppatch", "lpatch"):
            for cut in range(0, 400, c.pick(9, 1)):
                out.append({"seed": 5, "remote": "dir", "machines": ["a"], "names": {"1": "1.0", "2": "0.9", "3": "1.1"}, "actions":
                            [{"op": "publish", "v": v} for v in "123"]
                            + [{"op": "publish", "v": "1", "where": "a"}, {"op": "current", "mach": "a", "v": "1"}]
                            + [{"op": where if i == pos else "ppatch", "mach": "a" if where == "lpatch" and i == pos else "remote", "from": e[0], "to": e[1],
                                "v": "cut" if i == pos else "ok", "cut": cut + c.seed % 9} for i, e in enumerate(("12", "23"))]
                            + [{"op": "install", "mach": "a", "v": "3"}]})
    return out


# ---- C07
def c07(c):
    c.later(check_system, c, "histories of one machine, patches", CmdOps={"install", "patch", "add"}, EnvOps={"publish", "ppatch", "lpatch", "evict"},
            MaxSteps=c.pick("3", "4"))
    a = c.later(simulated, c, c.pick(80, 1500), 12, 3, Machines={"a", "b"}, CmdOps={"patch", "add", "sync", "install"}, EnvOps={"publish", "ppatch", "evict"}, Published={"1", "2"})
    o = {"variants": [{"machines": 1}, {"machines": 2}], "cmds": {"patch": 6, "add": 4, "sync": 0.5, "install": 0.5}, "damage": 0.05, "badadd": 0.05, "steps": (2, 7)}
    runs = histories(c, ("random histories, directory remote", gen.padded(c.seed, c.pick(2, 12), 78) + gen.larges(c.seed, c.pick(3, 30), {}, 73) + gen.many(c.seed, c.pick(500, 8000), o, 8)),
                     ("random histories, S3 remote", gen.many(c.seed, c.pick(40, 800), dict(o, remote="s3"), 9)),
                     ("contents of all kinds", shapes(c)), ("histories drawn by TLC", a))
    c.need(patch__new=150, patch__known=50, patch__self=20)

    def spoil(r):
        i = first_cmd(r, lambda i: i["cmd"]["op"] == "patch" and i["code"] == 0)
        if i and i["cmd"]["from"] != i["cmd"]["to"]:
            f, t = i["cmd"]["from"], i["cmd"]["to"]
            n = (f + "---" + t if "-" in f or "-" in t else f + "-" + t) + ".patch.zst"
            i["post"]["L"][n].update(m=[], h="other", v="0")
            return True
    teeth(c, runs, spoil, "a patch which makes something else")


def shapes(c):
    """pairs of contents of all kinds and sizes: create-patch, then upgrade with it"""
    out = []
    rng = random.Random(c.seed * 17 + 3)
    kinds = ["tiny", "one", "zeros", "text", "big", "huge", "prefix", "suffix", "moved", "same", "rep", None]
    pairs = [(a, b) for a in kinds for b in kinds]
    rng.shuffle(pairs)
    for i, (a, b) in enumerate(pairs[: c.pick(70, len(pairs))]):
        where = rng.choice(["a", "remote"]), rng.choice(["a", "remote"])
        acts = [{"op": "publish", "v": "1", "where": where[0]}, {"op": "publish", "v": "2", "where": where[1]}]
        acts += [{"op": "patch", "mach": "a", "from": "1", "to": "2", "level": rng.choice([1, 3, 19, 22])}, {"op": "sync", "mach": "a"}]
        acts += [{"op": "install", "mach": "b", "v": "1"}, {"op": "install", "mach": "b", "v": "2"}, {"op": "patch", "mach": "b", "from": "2", "to": "1"}]
        out.append({"seed": 900 + i, "remote": "dir", "machines": ["a", "b"], "names": {}, "contents": {"1": a, "2": b}, "actions": acts})
    return out


# ---- C08
def c08(c):
    c.later(check_system, c, "histories of one machine, uploads", CmdOps={"sync", "add", "patch"}, EnvOps={"publish", "ppatch", "lpatch", "evict", "stray"}, MaxSteps="3",
            Vs={"1", "2"} if c.quick else V3)
    a = c.later(simulated, c, c.pick(60, 1500), 12, 4, Machines={"a", "b"}, CmdOps={"patch", "add", "sync", "install"}, EnvOps={"publish", "ppatch", "evict", "stray"})
    o = {"variants": [{"machines": 1}, {"machines": 2}, {"nvers": (6, 12), "density": 0.5, "pub": 0.2, "steps": (1, 3)}],
         "cmds": {"patch": 2, "add": 4, "sync": 6, "install": 0.5}, "strays": 0.5, "badadd": 0.1, "newalt": True}
    runs = histories(c, ("random histories, directory remote", gen.padded(c.seed, c.pick(1, 6), 79) + gen.larges(c.seed, c.pick(2, 20), {}, 74) + gen.many(c.seed, c.pick(450, 8000), o, 10)),
                     ("random histories, S3 remote", gen.larges(c.seed, c.pick(1, 12), {"remote": "s3"}, 75) + gen.many(c.seed, c.pick(80, 1500), dict(o, remote="s3", steps=(1, 5)), 11)),
                     ("stores with very many files", gen.bulks(c.seed, c.pick(4, 40), {"bulk": [105, 310, 72]}, 51)), ("stores with very many files, S3 remote", gen.bulks(c.seed, c.pick(2, 15), {"remote": "s3", "bulk": [70, 40, 130]}, 52)),
                     ("histories drawn by TLC", a))
    c.need(upload__some=100, upload__many=50, strays=100)

    def spoil(r):
        i = first_cmd(r, lambda i: i["cmd"]["op"] == "sync" and any(n not in r["init"]["R"] for n in i["post"]["R"] if n.endswith(".tar.zst") and i["post"]["R"][n]["s"] > 0))
        if i and i is r["items"][0]:
            n = next(n for n in i["post"]["R"] if n.endswith(".tar.zst") and n not in r["init"]["R"])
            del i["post"]["R"][n]
            return True
    teeth(c, runs, spoil, "a build was not uploaded")


# ---- C17
def c17(c):
    c.later(check_system, c, "histories of one machine, all commands", EnvOps={"publish", "ppatch", "lpatch", "evict"}, MaxSteps="3", Vs={"1", "2"} if c.quick else V3)
    a = c.later(simulated, c, c.pick(120, 2000), 14, 5, Machines={"a", "b"}, EnvOps={"publish", "ppatch", "lpatch", "evict", "stray"})
    o = {"variants": [{"machines": 1}, {"machines": 2}, {"damage": 0.4}], "cmds": {"patch": 3, "add": 4, "sync": 2, "install": 4, "debug": 0.3}, "strays": 0.3, "badadd": 0.4, "newalt": True, "steps": (3, 8)}
    runs = histories(c, ("random histories, directory remote", gen.many(c.seed, c.pick(500, 8000), o, 12)),
                     ("random histories, S3 remote", gen.many(c.seed, c.pick(50, 1000), dict(o, remote="s3", steps=(1, 5)), 13)),
                     ("upgrades with damaged patches", gen.upgrades(c.seed, c.pick(150, 2000), {"damage": 0.3, "cached": 0.5}, 14)),
                     ("versions added again", gen.readds(c.seed, c.pick(40, 600), {}, 39)),
                     ("stores with very many files", gen.bulks(c.seed, c.pick(4, 40), {"bulk": [40, 70, 110], "more": 5}, 55) + gen.bulks(c.seed, c.pick(1, 10), {"bulk": [30], "more": 4, "remote": "s3"}, 56)),
                     ("histories drawn by TLC", a))
    faulty(c, "", (scenes.scenes(c.seed, 22, scenes.KINDS, c.pick(40, 800), big=0.1), {"fail": c.pick(8, None), "full": c.pick(4, None), "kill": c.pick(4, None), "read": c.pick(4, None)}, {}),
           (scenes.scenes(c.seed, 23, ["full", "sync", "addup", "chain"], c.pick(4, 60), "s3"), {"fail": 3}, {"GET": GETS, "PUT": PUTS, "LIST": LISTS}))
    c.need(add__failed=50, add__replace=50, install__failed=20, sync__ok=100, patch__failed=20, fault__fail=200)

    def spoil(r):
        i = first_cmd(r, lambda i: i["code"] == 0 and i["cmd"]["op"] == "sync")
        if i and i is r["items"][0]:
            for n in list(r["init"]["Ls"][i["mach"]]):
                if n.endswith(".tar.zst") and r["init"]["Ls"][i["mach"]][n]["s"] > 0:
                    del i["post"]["L"][n]
                    return True
    teeth(c, runs, spoil, "a build was removed by a sync")


# ---- C18
def c18(c):
    c.later(check_system, c, "histories of one machine with litter", EnvOps={"publish", "ppatch", "lpatch", "stray"}, CmdOps={"install", "patch", "sync"}, MaxSteps="3", Vs={"1", "2"} if c.quick else V3)
    a = c.later(simulated, c, c.pick(100, 2000), 12, 6, Machines={"a"}, EnvOps={"publish", "ppatch", "lpatch", "evict", "stray"}, CmdOps={"install", "patch", "sync"})
    o = {"variants": [{"machines": 1}, {"machines": 1, "pub": 0.4}, {"machines": 1, "density": 0.9}], "cmds": {"patch": 3, "add": 0.5, "sync": 2, "install": 5, "debug": 2}, "strays": 0.9, "steps": (2, 6), "env": 0.15, "damage": 0.05}
    runs = histories(c, ("random histories, directory remote", gen.many(c.seed, c.pick(600, 8000), o, 15)),
                     ("random histories, S3 remote", gen.many(c.seed, c.pick(60, 1000), dict(o, remote="s3", steps=(1, 5)), 16)),
                     ("upgrades", gen.upgrades(c.seed, c.pick(150, 2000), {"strays": 1.0}, 17)),
                     ("histories drawn by TLC", a))
    c.need(strays=300, install__failed=20, route__patches=30, debug__ok=50)

    def spoil(r):
        i = first_cmd(r, lambda i: i["cmd"]["op"] == "install" and i["code"] == 0)
        if i and i is r["items"][0]:
            i["code"] = 1
            return True
    teeth(c, runs, spoil, "a known build was not accepted")


# ---- C19
def c19(c):
    c.later(check_system, c, "histories of one machine, adds", CmdOps={"add", "badadd", "install"}, EnvOps={"publish", "ppatch", "evict"}, MaxSteps="3", Vs={"1", "2"} if c.quick else V3)
    a = c.later(simulated, c, c.pick(60, 1500), 12, 7, Machines={"a", "b"}, CmdOps={"add", "badadd", "install", "sync"}, EnvOps={"publish", "ppatch", "evict", "stray"})
    o = {"variants": [{"machines": 1}, {"machines": 2}], "cmds": {"add": 8, "install": 2, "sync": 0.5, "patch": 0.5}, "strays": 0.2, "badadd": 0.4, "newalt": True, "steps": (3, 8), "damage": 0.05}
    runs = histories(c, ("random histories, directory remote", gen.larges(c.seed, c.pick(2, 20), {}, 76) + gen.many(c.seed, c.pick(500, 8000), o, 18)),
                     ("random histories, S3 remote", gen.many(c.seed, c.pick(60, 1000), dict(o, remote="s3", steps=(1, 5)), 19)),
                     ("files of all kinds", files(c)), ("versions added again", gen.readds(c.seed, c.pick(80, 1000), {}, 38)), ("histories drawn by TLC", a))
    c.need(add__ok=200, add__failed=150, add__replace=50, upload__some=50)

    def spoil(r):
        i = first_cmd(r, lambda i: i["cmd"]["op"] == "add" and i["code"] == 0)
        if i:
            n = i["cmd"]["file"]
            if n in i["post"]["L"]:
                i["post"]["L"][n].update(h="other")
                return True
    teeth(c, runs, spoil, "the stored build differs")


def files(c):
    """names with and without the usual extensions, arbitrary bytes, sizes from one byte up"""
    rng = random.Random(c.seed * 23 + 1)
    out = []
    for i in range(c.pick(60, 600)):
        stem = rng.choice(["1.0", "a-b", "x", "1.2.3-rc1", "v", "q.tar", ".h", "a.b.c", "n.patch", "long" * 20])
        fn = stem + rng.choice([".tar.zst", ".tar.zst", ".zst", "", ".tar", ".bin", ".tar.gz", ".patch.zst"])
        n = rng.choice([1, 2, 10, 100, 8191, 8192, 8193, 65536, 131072, 131073, 300000, 2100000 if i % 10 == 0 else 5])
        raw = (rng.randbytes(min(n, 5000)) * (n // 5000 + 1))[:n]
        acts = []
        if rng.random() < 0.4:
            acts.append({"op": "publish", "v": "7", "where": rng.choice(["a", "remote"])})
        acts.append({"op": "add", "mach": "a", "v": "?", "file": fn, "raw": raw.hex(), "upload": rng.random() < 0.5, "mode": rng.choice([None, 0o600, 0o444, 0o755])})
        acts += [{"op": "debug", "mach": "a"}, {"op": "sync", "mach": "a"}]
        out.append({"seed": 3000 + i, "remote": "dir", "machines": ["a"], "actions": acts})
    return out


# ---- C10
def strings(pieces, n):
    out = {""}
    for _ in range(n):
        out |= {a + b for a in out for b in pieces}
    return sorted(out - {""})


def accepted(v):
    return "---" not in v and "/" not in v


def pair_history(seed, f, t, remote="dir"):
    """two builds added, published and upgraded between in both directions by the program itself; "=": names as they are"""
    F, T = "=" + f, "=" + t
    acts = [{"op": "add", "mach": "a", "v": F, "upload": True}, {"op": "add", "mach": "a", "v": T, "from": F, "upload": True},
            {"op": "install", "mach": "b", "v": F}, {"op": "install", "mach": "b", "v": T}]
    if not t.endswith("-"):
        acts += [{"op": "patch", "mach": "b", "from": T, "to": F}, {"op": "sync", "mach": "b"}, {"op": "install", "mach": "a", "v": T},
                 {"op": "evict", "mach": "a", "v": F}, {"op": "install", "mach": "a", "v": F}]
    acts += [{"op": "install", "mach": "a", "v": "=" + f + "0"}, {"op": "sync", "mach": "a"}]
    return {"seed": seed, "remote": remote, "machines": ["a", "b"], "names": {}, "contents": {F: "same", T: "same"}, "actions": acts, "s3path": "/n"}


def rejected_history(rng, seed, bad):
    """names which have to be rejected by every command that takes one"""
    B, ok = "=" + bad, "=1"
    acts = [{"op": "publish", "v": ok, "where": rng.choice(["a", "remote"])}, {"op": "publish", "v": "=2", "where": "a"},
            {"op": "stray", "mach": "a", "v": "d", "x": "d"}, {"op": "stray", "mach": "remote", "v": "d", "x": "d"}]
    cmds = [{"op": "install", "v": B}, {"op": "patch", "from": B, "to": ok}, {"op": "patch", "from": ok, "to": B}, {"op": "patch", "from": "=2", "to": "=1"},
            {"op": "addpkg", "v": B, "path": "@tree", "upload": rng.random() < 0.5}, {"op": "addpkg", "v": "=3", "from": B, "path": "@tree", "upload": True},
            {"op": "add", "v": "=4", "from": B, "upload": True}, {"op": "auto", "v": B, "prefix": "", "tags": ["1", "2"], "repo": "@repo"},
            {"op": "auto", "v": "=2", "prefix": bad, "tags": ["1", "2"], "repo": "@repo"}]
    if "/" not in bad:
        cmds.append({"op": "add", "v": B, "upload": True})
        cmds.append({"op": "add", "v": "?", "file": bad + rng.choice([".zst", ".tar", "", ".patch.zst"]), "upload": True})
    rng.shuffle(cmds)
    return {"seed": seed, "remote": "dir", "machines": ["a"], "names": {}, "contents": {}, "tree": [["f", "aabb", 0o644]], "actions": acts + [dict(x, mach="a") for x in cmds]}


def c10(c):
    pieces = {"a", "-", ".", "/", ".tar", ".patch", ".zst", "--"}
    for label, ps, n in [("all names of up to %d pieces" % c.pick(2, 3), pieces, c.pick(2, 3)), ("all names of up to 4 letters", {"a", "-", "."}, c.pick(3, 4))]:
        c.later(c.model, "reading names back, " + label, "MCNaming.tla", tlc.cfg({"Pieces": tlc.tla(ps), "N": str(n)}, ["BuildRoundTrip", "PatchRoundTrip"]), timeout=1500)
    c.later(c.model, "reading names back, with the listed finding", "MCNaming.tla", tlc.cfg({"Pieces": '{"a", "-"}', "N": "3"}, ["PatchRoundTripAll"]), expect="PatchRoundTripAll")
    rng = random.Random(c.seed * 41 + 10)
    vs = [v for v in strings(["a", "-", "."], 3) if accepted(v)]
    pairs = [(f, t) for f in vs for t in vs if f != t and not f.endswith("-")]
    if c.quick:
        pairs = rng.sample(pairs, 260)
    odd = [v for v in strings([".tar", ".patch", ".zst", "1.0", "-", "--", "b", ".tar.zst"], 2) if accepted(v)]
    odd += ["current", "\u00e9\u4e2d", "a b", "x" * 150, "A", "a", "1.10", "1.1", "01", "1", "%41", "a+b", "a%2Bb", "a=b", "a\\b", "..", "...", ".", "~", "$HOME", "*", "a:b", "'", '"', "a?b", "#", "&"]
    other = [(f, t) for f in odd for t in odd if f != t and not f.endswith("-")]
    rng.shuffle(other)
    wild = "ab.-_+ 1Z"
    for _ in range(c.pick(60, 1500)):
        f, t = ("".join(rng.choice(wild) for _ in range(rng.randrange(1, 9))) for _ in range(2))
        if f != t and accepted(f) and accepted(t) and not f.endswith("-"):
            other.insert(0, (f, t))
    # names which only differ in case, separators, zeros, spaces or the way a letter is encoded
    twins = [("A", "a"), ("v1.0-RC", "v1.0-rc"), ("1.0", "1-0"), ("1", "01"), ("a", "a "), (" a", "a"), ("a_b", "a-b"), ("1.0", "1.0.0"), ("\u00e9", "e\u0301"), ("v1", "1"), ("a.", "a"), (".a", "a"), ("a b", "a_b"),
             ("x" * 24, "x" * 25), ("x" * 80 + "1", "x" * 80 + "2"), ("1.10", "1.1")]
    other = twins + [(t, f) for f, t in twins] + other[: c.pick(200, 4000)]
    sc = [pair_history(40000 + i, f, t) for i, (f, t) in enumerate(pairs + other)]
    s3 = [pair_history(50000 + i, f, t, "s3") for i, (f, t) in enumerate(rng.sample(pairs + other, c.pick(12, 200))) if all(ch.isalnum() or ch in ".-_" for ch in f + t) and "%" not in f + t]
    bad = ["a---b", "---", "a---", "---a", "----", "a-----b", "a/b", "/", "../x", "d/x", "./x", "x/", "@root/x", "@root/a.remote/y", "@root/a/z", "d/../q", "a---b/c"]
    for _ in range(c.pick(8, 200)):
        w = "".join(rng.choice("a-./") for _ in range(rng.randrange(1, 9)))
        i = rng.randrange(len(w) + 1)
        bad.append(w[:i].lstrip("/") + rng.choice(["---", "/"]) + w[i:] if i else "x" + rng.choice(["---", "/"]) + w)
    rej = [rejected_history(random.Random(60000 + i), 60000 + i, b) for i, b in enumerate(bad)]
    runs = histories(c, ("pairs of names, all commands", sc), ("pairs of names, S3", s3), ("names to be rejected", rej))
    known = [pair_history(70000 + i, f, t) for i, (f, t) in enumerate([("a-", "b"), ("1--", "c")])]
    c.judge_known("from-ends-with-dash", r"\{\s*\"the name of the patch is read back as another pair\"\s*\}", pool.run(execute, known), known)
    c.need(name__rejected=80, route__patches=500, add__ok=500, patch__new=300)

    def spoil(r):
        i = first_cmd(r, lambda i: i["cmd"]["op"] == "patch" and i["code"] == 0)
        if i:
            L = i["post"]["L"]
            for n in list(L):
                if n.endswith(".patch.zst") and n not in r["init"]["R"] and L[n]["m"]:
                    L["x" + n] = L.pop(n)
                    return True
    teeth(c, runs, spoil, "a patch under another name")


# ---- C11, C12
def tags_model(c):
    parts = {"0", "1", "9", "10", "02", "x", "x1", "x10", "1x", "rc2", "rc10", "00"} | (set() if c.quick else {"010", "99", "100", "1x1", "1x10", "xx"})
    c.later(c.model, "order of tags and selection against integers", "MCTags.tla",
            tlc.cfg({"Parts": tlc.tla(parts), "Nums": c.pick("{0, 1}", "{0, 1, 9}")}, ["Order", "Selection"]), workers=2, timeout=1500)


def c11(c):
    tags_model(c)
    runs = histories(c, ("repositories with many tags", gen.releases(c.seed, c.pick(650, 8000), {}, 30)),
                     ("repositories with some builds missing", gen.releases(c.seed, c.pick(150, 2000), {"missing": 0.15, "damage": 0.05}, 31)),
                     ("repositories, S3 remote", gen.releases(c.seed, c.pick(24, 400), {"remote": "s3", "maxtags": 6}, 32)))
    c.need(auto__ok=200, auto__many=150, auto__none=30, auto__prefix=100)

    def spoil(r):
        i = first_cmd(r, lambda i: i["cmd"]["op"] == "auto" and i["code"] == 0)
        if i:
            L = i["post"]["L"]
            for n in list(L):
                if n.endswith(".patch.zst") and i is r["items"][0] and n not in r["init"]["Ls"]["a"] and n not in r["init"]["R"]:
                    L["0.0.0.0-" + n.split("-")[-1]] = L.pop(n)
                    return True
    teeth(c, runs, spoil, "a patch from another build")


def c12(c):
    tags_model(c)
    runs = histories(c, ("builds missing or damaged", gen.releases(c.seed, c.pick(600, 8000), {"missing": 0.25, "damage": 0.15, "nocurrent": 0.1, "badcurrent": 0.05, "known": 0.15}, 33)),
                     ("all builds there", gen.releases(c.seed, c.pick(150, 2000), {}, 34)),
                     ("builds missing or damaged, S3 remote", gen.releases(c.seed, c.pick(16, 300), {"remote": "s3", "missing": 0.2, "damage": 0.1, "maxtags": 6}, 35)))
    t = faulty(c, "", (scenes.scenes(c.seed, 36, ["auto"], c.pick(14, 300)), {"read": c.pick(10, None), "unreadable": c.pick(10, None), "fail": c.pick(6, None), "full": c.pick(4, None)}, {}),
               (scenes.scenes(c.seed, 37, ["auto"], c.pick(4, 40), "s3"), {"unreadable": 3}, {"GET": GETS[1:]}))
    c.need(auto__ok=200, auto__failed=200, auto__many=150, auto__prefix=100, unreadable=50)

    def spoil(r):
        i = first_cmd(r, lambda i: i["cmd"]["op"] == "auto" and i["code"] == 0)
        if i:
            for n in list(i["post"]["L"]):
                if n.endswith(".patch.zst") and i is r["items"][0] and n not in r["init"]["Ls"]["a"]:
                    del i["post"]["L"][n]
                    return True
    teeth(c, runs, spoil, "a patch is missing although success was reported")


# ---- executions with faults (vf.ops, spec/FaultTrace)
INSTALLS = ["full", "chain", "fallback", "cached", "dangling", "same", "first", "chain"]
ALLFAULTS = {"kill": None, "short": None, "shortgo": 1, "fail": None, "full": None, "read": 10, "unreadable": 6}
PUTS = ["kill", "killafter", ("status", 500, "InternalError"), ("status", 403, "AccessDenied"), ("status", 409, "OperationAborted"), "any", "any", "any", ("drop",), ("dropafter",), ("corrupt",)]
GETS = ["kill", ("status", 500, "InternalError"), ("status", 404, "NoSuchKey"), ("cut", 100), ("drop",), ("flip", 77), "any", "any"]
LISTS = ["kill", ("status", 403, "AccessDenied"), ("drop",), "any"]


def faulty(c, mode, *groups):
    """groups of (scenes, plan, S3 plan)"""
    jobs = []
    for sc, plan, s3plan in groups:
        for s in sc:
            jobs.append({"scene": s, "plan": plan, "s3plan": s3plan, "mode": mode, "seed": s["seed"] + c.seed})
    tables = pool.run(ops.scene_runs, jobs)
    c.lap("%d executions with faults" % sum(t["count"] for t in tables))
    for t in tables[:2]:
        c.sample({"scene": t["scene"]["kind"], "cmd": t["scene"]["procs"], "edits": t["scene"]["actions"][:6],
                  "faults": [dict(f["fault"]) for f in t["faults"][:6]], "executions": t["count"], "distinct": len(t["runs"])})
    c.judge_tables(tables)
    return tables


def teeth_table(c, tables, spoil, what):
    spoilt = []
    for t in tables:
        t = json.loads(json.dumps(t))
        for i, r in enumerate(t["runs"]):
            if spoil(t, r):
                spoilt.append(dict(t, runs=[r], faults=[t["faults"][i]], count=1))
                break
        if len(spoilt) == 8:
            break
    if not spoilt:
        c.notes.setdefault("nothing_to_tamper_with", []).append(what)
        return
    try:
        c2 = type(c)(c.prop, c.level, c.seed, c.tier)
        c2.save = lambda *a: "-"
        c2.judge_tables(spoilt, what="spoilt")
    except Violation:
        c.notes.setdefault("tampered_traces_rejected", []).append(what)
        c.lap("teeth")
        return
    raise ToolError("a run that was tampered with was accepted: " + what)


def instant(t, r, change):
    """add a picture to the run, made from its last one"""
    import copy
    p = copy.deepcopy(t["pics"][r["post"] - 1])
    if not change(p):
        return False
    t["pics"].append(p)
    r["insts"].append(len(t["pics"]))
    return True


# ---- the commands as single file operations
OPS = ["AllOrNothing", "CurrentKept", "Achieved", "Unharmed", "Sole", "Rerunnable", "Alike"]
SINGLE = {"install1", "install2", "install3", "add3", "patch12", "patch23", "sync"}


def fileops(c, label, flaw="", breaks=None, first=SINGLE, second=("none",), faults=1, kills=1, chunks=2, starts=("ok", "none", "dangling"), broken=(False, True), live=False):
    k = {"Flaw": flaw, "First": set(first), "Second": set(second), "Faults": faults, "Kills": kills, "Chunks": chunks, "Brokens": set(broken), "Starts": set(starts)}
    text = tlc.cfg({n: tlc.tla(x) for n, x in k.items()},
                   [x for x in OPS if breaks is None or x == breaks] , spec="Spec", properties=["NothingLost"] * (breaks in (None, "NothingLost")) + ["Ends_"] * live)
    c.model(label, "FileOps.tla", text, expect=breaks, timeout=1500, workers=4)


# ---- C02
def c02(c):
    c.later(fileops, c, "installs, operation by operation", first={"install1", "install2", "install3"}, second={"none"} if c.quick else {"none", "add3", "patch12", "sync"}, faults=2, live=True)
    for f in ("unlink", "early"):
        c.later(fileops, c, "flawed design: " + f, f, "CurrentKept", first={"install2"}, starts={"ok"})
    c.later(check_system, c, "histories of one machine, installs", CmdOps={"install"}, EnvOps=ENV_INSTALL, Published=V3, MaxSteps=c.pick("3", "4"))
    o = {"variants": [{"machines": 1}, {"machines": 2}], "cmds": {"install": 6, "patch": 1, "sync": 0.5, "add": 1}, "env": 0.5, "damage": 0.3, "pub": 0.7}
    runs = histories(c, ("random histories, directory remote", gen.many(c.seed, c.pick(350, 6000), o, 30)),
                     ("random histories, S3 remote", gen.many(c.seed, c.pick(30, 600), dict(o, remote="s3", steps=(1, 5)), 31)))
    t = faulty(c, "", (scenes.scenes(c.seed, 2, INSTALLS, c.pick(40, 900), big=0.1), ALLFAULTS, {}),
               (scenes.scenes(c.seed, 3, ["add", "inuse", "patch", "inuse", "sync", "inuse", "addpkg", "inuse", "auto", "inuse"], c.pick(10, 120)), {"kill": 7, "fail": 5}, {}),
               (scenes.scenes(c.seed, 4, INSTALLS, c.pick(5, 60), "s3"), {"kill": 6, "fail": 4}, {"GET": GETS, "LIST": LISTS}))
    c.need(cur__dangling=50, killed=100, install__failed=50, fault__fail=100, survived_the_fault=20)

    def spoil(t, r):
        def change(p):
            if p["curs"]["a"]["k"] == "ok":
                p["curs"]["a"] = {"k": "none", "n": "", "c": "-", "in": False}
                return True
        return t["pics"][r["init"] - 1]["curs"]["a"]["k"] == "ok" and instant(t, r, change)
    teeth_table(c, t, spoil, "the link is gone for a moment")


# ---- C03
def c03(c):
    c.later(fileops, c, "all commands, operation by operation", faults=2, chunks=c.pick(2, 4), live=True)
    for f in ("inplace", "keep", "eager"):
        c.later(fileops, c, "flawed design: " + f, f, "AllOrNothing", first={"install2"}, starts={"ok"})
    t = faulty(c, "later", (scenes.scenes(c.seed, 5, scenes.KINDS, c.pick(40, 1200), big=0.15), ALLFAULTS, {}),
               (scenes.scenes(c.seed, 6, ["full", "sync", "addup", "chain", "addpkg"], c.pick(6, 80), "s3"), {"kill": 6, "fail": 4, "short": 2}, {"GET": GETS, "PUT": PUTS, "LIST": LISTS}))
    c.need(killed=100, leftovers=50, later=500, fault__short=50, fault__fail=200, fault__s3=10)

    def spoil(t, r):
        def change(p):
            for n, e in p["Ls"]["a"].items():
                if n.endswith(".tar.zst") and e["t"] == "f":
                    e.update(s=e["s"] // 2, h="half", c="-")
                    return True
        return instant(t, r, change)
    teeth_table(c, t, spoil, "half of a build is visible for a moment")


# ---- C04
def c04(c):
    c.later(fileops, c, "all commands, killed or failed and run again", faults=2, chunks=c.pick(2, 3), live=True)
    c.later(fileops, c, "flawed design: exclusive", "exclusive", "Rerunnable", starts={"ok"})
    c.later(fileops, c, "flawed design: append", "append", "AllOrNothing", first={"install2"}, second={"install2"}, starts={"ok"})
    t = faulty(c, "redo", (scenes.scenes(c.seed, 7, scenes.KINDS, c.pick(60, 1200), big=0.1), ALLFAULTS, {}),
               (scenes.scenes(c.seed, 8, ["full", "sync", "addup", "chain", "addpkg", "patch"], c.pick(6, 80), "s3"), {"kill": 6, "fail": 3}, {"GET": GETS[:4], "PUT": PUTS, "LIST": LISTS}))
    c.need(redo__ok=500, killed=100, fault__fail=200, fault__s3=10)

    def spoil(t, r):
        if not r["redo"]["has"] or r["ref"]["code"] != 0:
            return False
        p = json.loads(json.dumps(t["pics"][r["redo"]["post"] - 1]))
        for n in list(p["Ls"]["a"]):
            if n.endswith(".zst"):
                del p["Ls"]["a"][n]
                t["pics"].append(p)
                r["redo"]["post"] = len(t["pics"])
                return True
    teeth_table(c, t, spoil, "a file is missing after the command was run again")


# ---- C09
def c09(c):
    c.later(check_system, c, "histories of one machine, uploads", CmdOps={"sync", "add", "patch"}, EnvOps={"publish", "ppatch", "lpatch", "evict"}, MaxSteps="3", Vs={"1", "2"} if c.quick else V3)
    up = ["sync", "addup", "sync"]
    t = faulty(c, "later", (scenes.scenes(c.seed, 9, up + ["addpkg"], c.pick(20, 600), big=0.1), ALLFAULTS, {}),
               (scenes.scenes(c.seed, 10, up, c.pick(9, 300), "s3"), {"kill": 3, "read": 4}, {"PUT": PUTS, "LIST": LISTS}))
    c.need(refused=50, later=200, sync__failed=100, add__failed=50)

    def spoil(t, r):
        p = r["procs"][0]
        if p["cmd"]["op"] == "sync" and p["code"] > 0 and p["disturbed"] and t["scene"]["remote"] == "s3" and p["refused"] and len(t["scene"]["procs"]) == 1 and len(r["later"]) and r["later"][0]["post"] != r["init"]:
            # nothing arrives and the command is content
            p["code"], r["post"], r["insts"] = 0, r["init"], [r["init"]]
            return True
    teeth_table(c, t, spoil, "a failed transfer was not reported")


# ---- C16
def c16(c):
    both = SINGLE - {"install1"}
    c.later(fileops, c, "two commands at the same time", first={"install2"} if c.quick else both, second=both, faults=c.pick(0, 1), kills=1, broken={False}, starts={"ok"} if c.quick else {"ok", "dangling"})
    if c.quick:
        c.later(fileops, c, "two commands at the same time, with faults", first={"add3", "sync", "patch12"}, second={"sync", "add3"}, faults=1, kills=1, broken={False}, starts={"ok"})
    c.later(fileops, c, "flawed design: shared", "shared", "AllOrNothing", first={"install2"}, second={"install2"}, starts={"ok"})
    c.later(fileops, c, "flawed design: linkname", "linkname", "Achieved", first={"install2"}, second={"install3"}, starts={"ok"})
    c.later(fileops, c, "flawed design: tidy", "tidy", "Unharmed", first={"install2"}, second={"install2"}, starts={"ok"})
    c.later(fileops, c, "flawed design: purge", "purge", "NothingLost", first={"install2"}, second={"install2"}, starts={"ok"})
    t = pool.run(ops.pair_runs, [{"scene": s, "count": c.pick(44, None) if not s["contents"] else c.pick(8, 200), "seed": s["seed"]}
                                 for s in scenes.pair_scenes(c.seed, 11, c.pick(90, 240))]
                 + [{"scene": s, "count": c.pick(16, 90), "seed": s["seed"]} for s in scenes.pair_scenes(c.seed, 12, c.pick(36, 120), remote="s3")])
    c.lap("%d schedules" % sum(x["count"] for x in t))
    for x in t[:2]:
        c.sample({"pair": x["scene"]["kind"], "cmds": x["scene"]["procs"], "schedules": [f["fault"] for f in x["faults"][:8]], "distinct": len(x["runs"])})
    c.judge_tables(t, what="two commands at the same time")
    c.need(two_processes=500, install__ok=300, sync__ok=100, add__ok=100, patch__ok=50, killed=50)

    def spoil(t, r):
        def change(p):
            for n, e in p["Ls"]["a"].items():
                if n.endswith(".tar.zst") and e["t"] == "f":
                    e.update(s=e["s"] // 2, h="half", c="-")
                    return True
        return instant(t, r, change)
    teeth_table(c, t, spoil, "a mixture of two writes is visible")

    def harm(t, r):
        p = r["procs"][1]
        if p["code"] == 0 and p["alone"] == 0:
            p["code"] = 1
            return True
    teeth_table(c, t, harm, "a command failed because of the other")


# ---- C13
def judge_packs(c, jobs, runs):
    chunks = []
    parts = max(1, min(8, len(runs) // 5))
    for i in range(parts):
        ix = list(range(len(runs)))[i::parts]
        chunks.append(({"prop": c.prop, "runs": [runs[j] for j in ix]}, sum(len(runs[j]["outs"]) for j in ix), lambda n, ix=ix: (jobs[ix[n]], runs[ix[n]], "")))
    c.tlc_judge(chunks, "PackTrace.tla", "PackTrace.cfg", "packaged trees")
    c.validated += len(runs)
    c.evaluations += sum(len(r["outs"]) for r in runs)
    c.lap("judged packages")


def c13(c):
    for order, skip, bad in (("name", "FALSE", None), ("text", "FALSE", "Faithful"), ("shallow", "FALSE", "Faithful"), ("made", "FALSE", "Faithful"), ("name", "TRUE", "Faithful")):
        c.later(c.model, "walk in order of %s%s" % (order, ", files left out" if skip == "TRUE" else ""), "MCPack.tla",
                tlc.cfg({"Order": tlc.tla(order), "Skip": skip}, ["Faithful", "Total"]), expect=bad, workers=2)
    jobs = packs.jobs(c.seed, 50, c.pick(320, 2500), c.pick(5, 8)) + packs.jobs(c.seed, 51, c.pick(32, 300), 3, faults=True)
    runs = pool.run(packs.pack_run, jobs)
    c.lap("packaged %d trees" % len(jobs))
    for r in runs[:2]:
        c.sample({"files": [[bytes(b"/".join(map(bytes, f["p"]))).decode("latin1"), oct(f["m"]), f["s"]] for f in r["files"][:6]], "ways": [o["how"] for o in r["outs"]],
                  "archives": sorted({o["h"] for o in r["outs"]})})
    judge_packs(c, jobs, runs)
    c.need(**{"pack__" + w: 1 for w in packs.WAYS})
    c.need(pack__ok=500)

    def swap(o):
        if len(o["entries"]) > 1:
            o["entries"][0], o["entries"][1] = o["entries"][1], o["entries"][0]
            return True

    def drop(o):
        return o["entries"] and o["entries"].pop()

    def mode(o):
        if o["entries"]:
            o["entries"][0]["m"] ^= 0o100
            return True
    for what, f in (("two entries swapped", swap), ("an entry missing", drop), ("another mode", mode)):
        bad = json.loads(json.dumps(runs[:40]))
        bad = [r for r in bad if f(r["outs"][0])]
        try:
            c2 = type(c)(c.prop, c.level, c.seed, c.tier)
            c2.save = lambda *a: "-"
            judge_packs(c2, [{}] * len(bad), bad)
        except Violation:
            c.notes.setdefault("tampered_traces_rejected", []).append(what)
            continue
        raise ToolError("tampered packages were accepted: " + what)


# ---- C14
def c14(c):
    for client, bad in (("sum", None), ("length", "NothingDamaged"), ("prefix", "NothingDamaged"), ("small", "NothingDamaged"), ("none", "NothingDamaged"), ("first", "NothingDamaged")):
        c.later(c.model, "download, comparing %s" % client, "Download.tla",
                tlc.cfg({"Client": tlc.tla(client), "Symbols": "{0, 1}", "MaxLen": c.pick("3", "4")}, ["NothingDamaged", "Undamaged"]), expect=bad, workers=2)
    kinds = ["full", "chain", "fallback", "patchremote", "known", "first", "cached", "addfetch", "auto", "chain", "full", "known"]
    sc = scenes.downloads(c.seed, 60, kinds, c.pick(64, 900))
    t = faulty(c, "", (sc, {}, {"GET": ["damage"] * c.pick(7, 30) + ["any", "any", ("drop",), "damage-all"]}),
               (scenes.downloads(c.seed, 61, ["full", "first", "full", "patchremote"], c.pick(8, 100), large=True), {}, {"GET": ["damage"] * c.pick(10, 30) + ["damage-all"]}))
    c.need(damaged__install=200, damaged__patch=100, damaged__add=8, damaged__auto=20, install__ok=40, patch__ok=20, survived_the_fault=20)

    def spoil(t, r):
        p = r["procs"][0]
        if p["damaged"] and p["code"] > 0:
            w = json.loads(json.dumps(t["pics"][r["post"] - 1]))
            n, L = p["damaged"][0]["n"], w["Ls"]["a"]
            if n in L or n not in w["R"]:
                return False
            L[n] = dict(w["R"][n], h=p["damaged"][0]["h"])
            t["pics"].append(w)
            r["post"] = len(t["pics"])
            return True
    teeth_table(c, t, spoil, "a damaged object is in the local store")


# ---- C15
def c15(c):
    P = {"MaxPath": c.pick("2", "3"), "MaxKey": c.pick("3", "4"), "MaxObjects": "2", "PathChars": '{"/", "p"}', "KeyChars": '{"/", "p", "a"}', "Page": "1", "Paths": "{}"}
    for how, bad in (("right", None), ("bare", "Directory"), ("deep", "Directory"), ("onepage", "Directory"), ("again", "Directory"), ("marker", "Directory"), ("slashes", "Directory"), ("lost", "Directory")):
        c.later(c.model, "listing of a bucket, %s" % how, "Bucket.tla",
                tlc.cfg(dict(P, How=tlc.tla(how), **({"MaxPath": "2"} if bad else {}), **({"MaxKey": "3"} if bad else {})), ["Directory", "RoundTrip"]), expect=bad, workers=2, timeout=1500)
    sc = gen.larges(c.seed, c.pick(2, 15), {"remote": "s3"}, 77) + gen.buckets(c.seed, c.pick(150, 2500), {"large": c.pick(0.08, 0.08)}, 62)
    sc += gen.releases(c.seed, c.pick(8, 150), {"remote": "s3", "missing": 0.1, "maxtags": 5}, 63)
    runs = pool.run(execute_twin, sc)
    c.lap("histories with both remotes")
    for r, s in list(zip(runs, sc))[:2]:
        c.sample({"path": s["s3path"], "page": s["page"] if "page" in s else 1000, "edits": s["actions"][:6], "commands": [i["cmd"] for i in r["items"] if i["kind"] == "cmd"][:3]})
    c.judge(runs, sc, what="histories with a bucket and with a directory")
    c.evaluations += sum(c.steps_of(r) for r in runs)
    c.need(twin=300, outside=100, install__ok=50, install__failed=20, patch__ok=20, sync__ok=50, add__ok=30, upload__some=40, strays=20)

    def spoil(r):
        i = first_cmd(r, lambda i: i["cmd"]["op"] == "sync" and i["code"] == 0 and i["post"]["R"])
        if i:
            del i["post"]["R"][sorted(i["post"]["R"])[0]]
            return i is r["items"][0]
    teeth(c, runs, spoil, "an object is missing")


LEVEL = {p: "model_checking" for p in ["C%02d" % i for i in range(1, 20)]}
BODY = {"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C09": c09, "C16": c16, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C17": c17, "C18": c18, "C19": c19}
