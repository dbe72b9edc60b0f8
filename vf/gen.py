"""Random scenarios (data only) for vf.hist: worlds, histories, strays, damage, boundary sizes."""
import random

from .hist import UNIT

STYLES = [
    lambda r, i: "%d" % (i + 1),
    lambda r, i: "1.%d.0" % i,
    lambda r, i: "%d.%d.%d" % (r.randrange(12), r.randrange(12), r.randrange(120)),
    lambda r, i: "v%d-%d" % (r.randrange(9), r.randrange(99)),
    lambda r, i: "build_%03d" % r.randrange(1000),
    lambda r, i: "rel-%d.%d-rc%d" % (r.randrange(4), r.randrange(12), r.randrange(12)),
    lambda r, i: r.choice("zyxwvuts") + str(r.randrange(50)),
    lambda r, i: "1.%d+b%d" % (r.randrange(30), r.randrange(30)),
    lambda r, i: "a b%d" % r.randrange(50),
    lambda r, i: "%d.tar" % r.randrange(40),
    lambda r, i: "x%d.patch" % r.randrange(40),
    lambda r, i: "-%d" % r.randrange(40),
    lambda r, i: "m--%d" % r.randrange(40),
    lambda r, i: "%d.zst" % r.randrange(40),
    lambda r, i: ".%d" % r.randrange(40),
    lambda r, i: "w" * r.randrange(20, 90) + str(r.randrange(40)),
    lambda r, i: r.choice(["1.%d", "v%d", "%d.0.0", "nightly-%d"]) % r.randrange(30) + r.choice(WORDS),
    lambda r, i: r.choice(WORDS + ["current", "debug", "sync", "install", "latest", "remote", "local", "none", "HEAD", "tar", "patch", "zst"]).lstrip("-.~") or "x",
]
WORDS = ["-dirty", "-beta.1", "-SNAPSHOT", "-tmp", ".tmp", ".part", "~", "~1", "-old", ".bak", "-latest", "_final", "-wip", ".lock", ".new", "-test", "-debug", ".tar.zst", "-x86_64", "@2", "#1", "%20", "(1)", "+meta",
         "=1", "!", "'", "\"", "\\", "$HOME", "*", "?", "[0]", "{1}", "|", ";", ":", ",", "&", "^", "\u00e9", "\u0130", "\u2028", "\ud55c"]


def siblings(rng, n):
    """names which differ in letter case, a separator, or a bit at one end"""
    b = rng.choice(["v1-RC", "1.0-b", "Rel_2.3", "a-1", "1.2", "x.Y-z", "10", "beta", "App-1_0", "1.0.0"])
    out = [b]
    for _ in range(400):
        s = rng.choice(out)
        x = rng.randrange(8)
        i = rng.randrange(len(s))
        if x == 0:
            t = s.swapcase() if rng.random() < 0.5 else s[:i] + s[i].swapcase() + s[i + 1:]
        elif x in (1, 2):
            t = s.replace(rng.choice(".-_"), rng.choice(".-_"), rng.choice([1, 9]))
        elif x == 3:
            t = s + rng.choice("0-._a1")
        elif x == 4:
            t = rng.choice("0v-.a1") + s
        elif x == 5:
            t = s[:i] + "0" + s[i:]
        elif x == 6:
            t = s[:-1]
        else:
            t = s + rng.choice([".tar", ".0", "-0", "_", "-1"])
        if t and t not in out and not t.endswith("-") and "---" not in t and t not in (".", ".."):
            out.append(t)
        if len(out) >= n:
            break
    out = out[:n]
    rng.shuffle(out)
    return {str(i + 1): v for i, v in enumerate(out)}


def names(rng, n, plain=False):
    if not plain and n > 1 and rng.random() < 0.2:
        x = siblings(rng, n)
        if len(x) == n:
            return x
    out = []
    mixed = rng.random() < 0.4
    st = rng.choice(STYLES[:7] if plain else STYLES)
    while len(out) < n:
        v = (rng.choice(STYLES[:7] if plain else STYLES) if mixed else st)(rng, len(out) + rng.randrange(3))
        if v not in out and not v.endswith("-") and "---" not in v:
            out.append(v)
        elif rng.random() < 0.1:
            st = rng.choice(STYLES[:3])
    rng.shuffle(out)
    return {str(i + 1): v for i, v in enumerate(out)}


STRAY_NAMES = ["._artefacta-temp-1.tar.zst.part", "a---b---c.tar.zst", "notes.txt", "x.tar.zst.part", "x.tar", "tar.zst", ".zst",
               "x.tar.zst~", "x-y.patch", "-.patch.zst", "--.patch.zst", "patch.zst", "1.tar.zst.bak", "README", "a---b---c.patch.zst", ".tar.zst.",
               "x.patch.zst", "99-98.patch.zst", "aa---bb.patch.zst", "1.TAR.ZST", "1.tar.ZST", "x.tar.zstd", "x.tar.gz"]


def stray(rng, where, vs, s3=False):
    k = rng.choice(["f", "x"] if s3 and where == "remote" else ["f", "f", "x", "l", "lb", "ln", "ln", "li", "d", "db", "p", "nonutf8"])
    name = rng.choice(STRAY_NAMES)
    # (a directory in the place of a file that has to be written is an error of the environment)
    if k in ("f", "l", "lb", "ln", "li") and rng.random() < 0.6:
        # in the place of a build or patch
        name = ("@b", rng.choice(vs)) if rng.random() < 0.6 else ("@p",) + tuple(rng.sample(vs, 2))
    elif k in ("f", "l", "lb", "ln", "li", "d", "db") and rng.random() < 0.2:
        name = rng.choice(["77.tar.zst", "77-1.patch.zst", "new.tar.zst", ".tar.zst"])
    if k == "nonutf8":
        name = rng.choice(["a.tar.zst", "1-2.patch.zst", "t"])
    a = {"op": "stray", "mach": where, "v": name, "x": k}
    if k in ("ln", "li"):    # where the link leads: to another name, which is that of a build or patch more often than not
        a["to"] = rng.choice([("@b", rng.choice(vs)), ("@b", rng.choice(vs)), ("@p",) + tuple(rng.sample(vs, 2)), ("@b", "77"), name])
    return a


def world(rng, seed, o):
    """o: options; returns a scenario without commands and what is in it"""
    n = rng.randrange(*o.get("nvers", (2, 7)))
    vs = [str(i + 1) for i in range(n)]
    machines = ["a", "b"][: o.get("machines", 1)]
    s3 = o.get("remote") == "s3"
    sc = {"seed": seed, "remote": o.get("remote", "dir"), "machines": machines, "names": names(rng, n, o.get("plain", False)), "contents": {}, "actions": []}
    if s3:
        sc["s3path"] = rng.choice(o.get("s3paths", ["/", "", "/p", "/p/q/", "p/".join("//"), "/deep/er/path"]))
        sc["page"] = rng.choice(o.get("pages", [1000, 1000, 3, 1]))
        sc["quote"] = rng.random() < 0.7
    if rng.random() < 0.15:     # two versions with the same content
        x, y = rng.sample(vs, 2)
        sc["alias"] = {x: y}
    acts = sc["actions"]
    pub = rng.choice([0.4, 0.7, 1.0, 1.0]) if "pub" not in o else o["pub"]
    cached = rng.choice([0.0, 0.2, 0.5, 0.8])
    have = {m: set() for m in machines}
    have["remote"] = set()
    for v in vs:
        size = rng.choice([10, 10, 10, 9, 11, 14, rng.choice([25, 60, 200])]) * UNIT + (rng.randrange(UNIT) if rng.random() < 0.3 else 0)
        if rng.random() < pub:
            acts.append({"op": "publish", "v": v, "size": size})
            have["remote"].add(v)
        for m in machines:
            if rng.random() < cached:
                acts.append({"op": "publish", "v": v, "where": m, "size": size if rng.random() < 0.8 else rng.choice([8, 10, 12]) * UNIT, "level": rng.choice([1, 3, 12])})
                have[m].add(v)
    cur = {}
    for m in machines:
        x = rng.random()
        full = sorted(have[m])
        if full and x < 0.75:
            cur[m] = rng.choice(full)
            acts.append({"op": "current", "mach": m, "v": cur[m], "rel": rng.random() < 0.1})
        elif x < 0.85:
            cand = [v for v in vs if v not in have[m]]
            if cand:
                cur[m] = rng.choice(cand)
                acts.append({"op": "current", "mach": m, "v": cur[m]})
    # patches
    dens = rng.choice([0.15, 0.3, 0.6, 0.9]) if "density" not in o else o["density"]
    dmg = o.get("damage", 0.15)
    mode = rng.choice(["small", "random", "random", "ties", "boundary"])
    pairs = set()
    for f in vs:
        for t in vs:
            if f == t or rng.random() > dens:
                continue
            if mode == "small":
                z = rng.randrange(1, 4) * UNIT
            elif mode == "ties":
                z = rng.choice([2, 4]) * UNIT
            else:
                z = rng.randrange(1, 13) * UNIT + (rng.randrange(UNIT) if rng.random() < 0.3 else 0)
            for w in rng.choice([["remote"], ["remote"], machines[:1], ["remote"] + machines[:1], machines]):
                d = "ok" if rng.random() > dmg else rng.choice(["trunc", "trunc", "garbage", "emptyzst", "notpatch", "magic", "little"])
                acts.append({"op": "ppatch" if w == "remote" else "lpatch", "mach": w, "from": f, "to": t,
                             "size": z if rng.random() < 0.8 else rng.randrange(1, 13) * UNIT, "v": d})
            pairs.add((f, t))
    if mode == "boundary" and n >= 3:
        # a chain whose total is the size of the build, or just off
        k = rng.randrange(2, min(n, 5) + 1)
        chain = rng.sample(vs, k)
        total = 10 * UNIT + rng.choice([-1, 0, 1])
        parts = [total // (k - 1)] * (k - 1)
        parts[-1] += total - sum(parts)
        keep = [a for a in acts if not (a["op"] in ("ppatch", "lpatch")) and not (a["op"] == "publish" and a["v"] == chain[-1])]
        acts[:] = keep
        acts.append({"op": "publish", "v": chain[-1], "size": 10 * UNIT})
        for i in range(k - 1):
            acts.append({"op": "ppatch", "mach": "remote", "from": chain[i], "to": chain[i + 1], "size": parts[i], "v": "ok"})
        m = machines[0]
        if chain[0] not in have[m]:
            acts.append({"op": "publish", "v": chain[0], "where": m, "size": 10 * UNIT})
        acts[:] = [a for a in acts if not (a["op"] == "current" and a["mach"] == m)]
        acts.append({"op": "current", "mach": m, "v": chain[0]})
        sc["aim"] = chain[-1]
        pairs = {(chain[i], chain[i + 1]) for i in range(k - 1)}
        have[m].add(chain[0])
        have["remote"].add(chain[-1])
        cur[m] = chain[0]
    if rng.random() < 0.06:    # whatever is in it, this is a build
        w = rng.choice(machines + machines + ["remote"])
        acts.append({"op": "badbuild", "where": w, "v": "=zz0", "size": rng.choice([1, 2, 4, 8, 12, 60])})
    # strays come last: they do not replace anything
    for _ in range(rng.choice([0, 0, 1, 2, 5]) if rng.random() < o.get("strays", 0.3) else 0):
        where = rng.choice(machines + ["remote"])
        a = stray(rng, where, vs, s3)
        nm = sc["names"]
        for k in ("v", "to"):
            if isinstance(a.get(k), tuple):
                a[k] = nm.get(a[k][1], a[k][1]) + ".tar.zst" if a[k][0] == "@b" else pair_key(sc, a[k][1], a[k][2])
        if s3 and where == "remote" and any(x["op"] in ("publish", "ppatch") and x.get("where", "remote") == "remote" for x in acts):
            a["only_new"] = True
        acts.append(a)
    return sc, vs, machines, have, cur, pairs


def history(rng, seed, o):
    sc, vs, machines, have, cur, pairs = world(rng, seed, o)
    acts = sc["actions"]
    cmds = o.get("cmds", {"install": 4, "patch": 2, "sync": 1, "add": 1, "debug": 0.3})
    ks, ws = list(cmds), list(cmds.values())
    added = {}
    for i in range(rng.randrange(*o.get("steps", (1, 6)))):
        m = rng.choice(machines)
        if i and rng.random() < o.get("env", 0.3):
            e = rng.choice(["evict", "evict", "publish", "ppatch", "lpatch"])
            v = rng.choice(vs)
            if e == "evict":
                acts.append({"op": "evict", "mach": m, "v": v})
            elif e == "publish":
                acts.append({"op": "publish", "v": v, "size": 10 * UNIT, "if_absent": True})
            else:
                f, t = rng.sample(vs, 2)
                acts.append({"op": e, "mach": m if e == "lpatch" else "remote", "from": f, "to": t, "size": rng.randrange(1, 13) * UNIT,
                             "v": "ok" if rng.random() > o.get("damage", 0.15) else rng.choice(["trunc", "garbage", "emptyzst", "little"]), "if_absent": True})
            continue
        k = rng.choices(ks, ws)[0]
        a = {"op": k, "mach": m}
        if k == "install":
            a["v"] = sc["aim"] if i == 0 and "aim" in sc else rng.choice(vs)
            if i == 0 and "aim" in sc:
                a["mach"] = machines[0]
            if rng.random() < 0.05:
                a["v"] = "missing"
        elif k == "patch":
            f, t = rng.choice(vs), rng.choice(vs)
            if pairs and rng.random() < 0.3:
                f, t = rng.choice(sorted(pairs))
            if f == t and rng.random() < 0.7:
                f, t = rng.sample(vs, 2)
            a["from"], a["to"] = f, t
            if rng.random() < 0.04:
                a["from"] = "missing"
        elif k == "add":
            a["v"] = rng.choice(vs)
            a["from"] = rng.choice(vs) if rng.random() < 0.5 else ""
            a["upload"] = rng.random() < 0.5
            if rng.random() < o.get("badadd", 0.2):
                a["x"] = rng.choice(["empty", "missing", "dir", "dangling"])
            if o.get("newalt") and rng.random() < 0.3:
                nv = "n%d" % i
                sc["names"][nv] = names(rng, 1)["1"] + "x%d" % i
                a["v"] = nv
                vs.append(nv)
        acts.append(a)
    return sc


def many(seed, count, o, tag=0):
    out = []
    for i in range(count):
        s = seed * 1000003 + tag * 10007 + i
        rng = random.Random(s)
        oo = dict(o)
        if "variants" in o:
            oo.update(rng.choice(o["variants"]))
        out.append(history(rng, s % 2**31, oo))
    return out


LATE = ["late-seek", "late-past", "late-cut"]     # the first half of the patch is fine
DAMAGES = ["trunc", "trunc", "trunc", "garbage", "emptyzst", "notpatch", "magic", "little"]


def upgrade(rng, seed, o):
    """one machine, something installed, an upgrade by patches most of the time; further installs after it"""
    long = rng.random() < o.get("long", 0.0)
    n = rng.randrange(3, 8) if not long else rng.randrange(10, 17)
    vs = [str(i + 1) for i in range(n)]
    sc = {"seed": seed, "remote": o.get("remote", "dir"), "machines": ["a"], "names": names(rng, n), "contents": {}, "actions": []}
    large = rng.random() < o.get("large", 0.0)
    if long:
        sc["contents"] = {v: "same" for v in vs}
    elif large:
        k = rng.choice(["same", "same", "mid"])
        sc["contents"] = {v: k for v in vs}
    if sc["remote"] == "s3":
        sc.update(s3path=rng.choice(["/", "/p", "/p/q/"]), page=rng.choice([1000, 2]), quote=rng.random() < 0.7)
    acts = sc["actions"]
    start, target = rng.sample(vs, 2)
    b = rng.choice([8, 10, 10, 16, rng.choice([25, 60, 200])]) * UNIT if not long else 70 * UNIT
    for v in vs:
        if v == target or rng.random() < (0.85 if not long else 0.985):
            if not (v == target and rng.random() < 0.12):
                acts.append({"op": "publish", "v": v, "size": b + (rng.randrange(2 * UNIT) if rng.random() < 0.3 else 0)})
        if v == start or (v != target and rng.random() < o.get("cached", 0.2)):
            acts.append({"op": "publish", "v": v, "where": "a", "size": b if rng.random() < 0.7 else rng.choice([9, 12, 40]) * UNIT, "level": rng.choice([1, 3, 9])})
    acts.append({"op": "current", "mach": "a", "v": start})
    dmg = o.get("damage", 0.0)
    local = rng.choice([0.0, 0.3, 0.7])
    k = rng.randrange(1, min(n - 1, 5) + 1) if not long else rng.randrange(7, n)
    mid = [v for v in vs if v not in (start, target)]
    rng.shuffle(mid)
    chain = [start] + mid[: k - 1] + [target]
    k = len(chain) - 1
    mode = rng.choice(["cheap", "cheap", "exact", "ties", "random"]) if not long else rng.choice(["cheap", "exact", "exact", "dear"])
    sizes = {}
    for i in range(k):
        z = rng.randrange(220, b // k) if long else rng.randrange(150, max(151, b // k)) if mode != "exact" else b // k
        sizes[(chain[i], chain[i + 1])] = z
    if mode == "exact":
        sizes[(chain[-2], chain[-1])] += b - sum(sizes.values()) + rng.choice([-1, 0, 1])
    for f in vs:
        for t in vs:
            if f != t and (f, t) not in sizes and rng.random() < (rng.choice([0.1, 0.3, 0.6]) if not long else 0.05):
                if mode == "ties":
                    z = 2 * UNIT
                elif mode == "random":
                    z = rng.randrange(150, b)
                else:
                    z = rng.randrange(max(200, b // 3), 2 * b)
                sizes[(f, t)] = z
    if mode == "ties":
        sizes = {p: 2 * UNIT for p in sizes}
    for p, z in sizes.items():
        d = "ok" if rng.random() >= dmg else rng.choice(LATE if large and rng.random() < 0.6 else DAMAGES)
        where = ["lpatch"] if rng.random() < local else ["ppatch"]
        if rng.random() < 0.15:
            where = ["lpatch", "ppatch"]
        for w in where:
            acts.append({"op": w, "mach": "a" if w == "lpatch" else "remote", "from": p[0], "to": p[1], "v": d,
                         "size": z if rng.random() < (0.9 if not long else 0.98) else rng.randrange(150, 2 * b)})
    if rng.random() < o.get("strays", 0.1):
        for _ in range(rng.randrange(1, 4)):
            acts.append(dict(stray(rng, rng.choice(["a", "remote"]), ["98", "99"], sc["remote"] == "s3")))
            if isinstance(acts[-1]["v"], tuple):
                acts[-1]["v"] = "98.tar.zst"
            if "to" in acts[-1]:
                acts[-1]["to"] = key_of(sc, rng.choice(vs)) if rng.random() < 0.7 else pair_key(sc, *rng.sample(vs, 2))
    acts.append({"op": "install", "mach": "a", "v": target})
    for _ in range(rng.randrange(0, o.get("more", 3))):
        if rng.random() < 0.4:
            acts.append({"op": "evict", "mach": "a", "v": rng.choice(vs)})
        acts.append({"op": "install", "mach": "a", "v": rng.choice(vs)})
    return sc


def upgrades(seed, count, o, tag=0):
    out = []
    for i in range(count):
        s = seed * 1000003 + tag * 10007 + i
        out.append(upgrade(random.Random(s), s % 2**31, o))
    return out


def readd(rng, seed, o):
    """the same versions are added again and again with other content, often of the same size; no patches touch them"""
    sc = {"seed": seed, "remote": rng.choice(["dir", "dir", "dir", "s3"]), "machines": ["a"], "names": names(rng, 3), "contents": {}, "actions": [], "s3path": rng.choice(["/", "/q"])}
    acts = sc["actions"]
    for v in "123":
        for w in rng.choice([[], ["a"], ["remote"], ["a", "remote"]]):
            acts.append({"op": "publish", "v": v, "where": w, "size": 12 * UNIT})
    for _ in range(rng.randrange(2, 8)):
        x = rng.random()
        v = rng.choice("112")
        if x < 0.65:
            acts.append({"op": "add", "mach": "a", "v": v, "alt": rng.choice([0, 1, 2]), "size": 12 * UNIT + rng.choice([0, 0, 0, 1, 300]), "upload": rng.random() < 0.3,
                         "mtime": rng.choice([0, 1, 1, 2, 99])})
        elif x < 0.85:
            acts.append({"op": "install", "mach": "a", "v": rng.choice("123") if rng.random() < 0.5 else v})
        elif x < 0.93:
            acts.append({"op": "sync", "mach": "a"})
        else:
            acts.append({"op": "evict", "mach": "a", "v": v})
    return sc


def bulk(rng, seed, o):
    """stores with very many files"""
    n = o["n"]
    vs = [str(i + 1) for i in range(n)]
    sc = {"seed": seed, "remote": o.get("remote", "dir"), "machines": ["a", "b"], "names": names(rng, 3, True) if rng.random() < 0.5 else {}, "contents": {v: "tiny" for v in vs}, "actions": [],
          "s3path": rng.choice(["/", "/p"]), "page": rng.choice([1000, 11])}
    acts = sc["actions"]
    pub = o["pub"]
    for v in vs:
        if rng.random() < pub:
            acts.append({"op": "publish", "v": v})
        if rng.random() < 0.95:
            acts.append({"op": "publish", "v": v, "where": "a"})
    for _ in range(rng.choice([0, n // 3, n])):
        f, t = rng.sample(vs, 2)
        acts.append({"op": "lpatch" if rng.random() < 0.8 else "ppatch", "mach": "a", "from": f, "to": t, "v": "ok", "if_absent": True})
    if rng.random() < 0.3:
        acts.append({"op": "add", "mach": "a", "v": rng.choice(vs), "upload": True})
    acts += [{"op": "sync", "mach": "a"}, {"op": "sync", "mach": "a"}, {"op": "install", "mach": "b", "v": rng.choice(vs)}]
    for _ in range(o.get("more", 0)):    # other commands where there is much in the cache
        m = rng.choice(["a", "a", "b"])
        v, w = rng.sample(vs, 2)
        acts.append(rng.choice([{"op": "install", "mach": m, "v": v}, {"op": "install", "mach": m, "v": v}, {"op": "patch", "mach": m, "from": v, "to": w},
                                {"op": "add", "mach": m, "v": v, "from": w, "upload": False}, {"op": "debug", "mach": m}]))
    return sc


def bulks(seed, count, o, tag=0):
    out = []
    for i in range(count):
        s = (seed * 1000003 + tag * 10007 + i) % 2**31
        out.append(bulk(random.Random(s), s, dict(o, n=o["bulk"][i % len(o["bulk"])], pub=[0.02, 0.0, 0.5, 0.1, 0.9][i % 5])))
    return out


def large(rng, seed, o):
    """builds of several megabytes, published, patched, uploaded, installed and rebuilt"""
    vs = ["1", "2", "3"]
    sc = {"seed": seed, "remote": o.get("remote", "dir"), "s3path": rng.choice(["/", "/p"]), "machines": ["a", "b"], "names": names(rng, 4) if rng.random() < 0.5 else {}, "actions": [],
          "contents": {v: rng.choice(["near-mbs", "near-mbs", "near-mbs", "random-mbs"]) for v in vs}}
    rng.shuffle(vs)
    x, y, z = vs
    cmds = [{"op": "add", "mach": "a", "v": x, "upload": rng.random() < 0.5}, {"op": "publish", "v": y, "where": rng.choice(["a", "remote"])},
            {"op": "patch", "mach": "a", "from": x, "to": y}, {"op": "sync", "mach": "a"}, {"op": "install", "mach": "b", "v": x},
            {"op": "add", "mach": "a", "v": z, "from": rng.choice([x, y]), "upload": True}, {"op": "install", "mach": "b", "v": y}, {"op": "install", "mach": "b", "v": z},
            {"op": "install", "mach": "b", "v": x}]
    sc["actions"] = cmds
    return sc


def larges(seed, count, o, tag=0):
    out = []
    for i in range(count):
        s = (seed * 1000003 + tag * 10007 + i) % 2**31
        out.append(dict(large(random.Random(s), s, o), near=[8500000, 4300000, 2200000, 17000000][i % 4]))
    return out


def padded(seed, count, tag=0):
    """build files of more than 100 MB (most of it padding), for which patches are computed in partitions"""
    out = []
    for i in range(count):
        s = (seed * 1000003 + tag * 10007 + i) % 2**31
        rng = random.Random(s)
        vs = ["1", "2", "3"]
        rng.shuffle(vs)
        x, y, z = vs
        out.append({"seed": s, "remote": "dir", "s3path": "/", "machines": ["a", "b"], "names": names(rng, 4) if rng.random() < 0.5 else {},
                    "contents": {v: rng.choice(["mid", "mid", "big", "text", "random-mb", "near-mbs", "tiny"]) for v in vs},
                    "actions": [{"op": "publish", "v": x, "where": "a"}, {"op": "publish", "v": y, "where": rng.choice(["a", "remote"]), "size": 100000001 + rng.randrange(3000000)},
                                {"op": "patch", "mach": "a", "from": x, "to": y}, {"op": "add", "mach": "a", "v": z, "from": y, "upload": True},
                                {"op": "install", "mach": "b", "v": x}, {"op": "install", "mach": "b", "v": y}]})
    return out


PATHS = ["/", "", "/p", "/p/", "//p//", "/p/q", "/p/q/r/", "/P", "/p.q", "/p-1", "/p_q~r", "/1.tar.zst", "/a=b", "/a+b", "/p@q", "/a,b", "/(x)", "/p:q", "/p&q", "/p;q", "/p!q", "/p$q", "/p*q", "/pp/p/pp", "/current", "///"]


def key_of(sc, v):
    return sc["names"].get(v, v) + ".tar.zst"


def pair_key(sc, f, t):
    f, t = sc["names"].get(f, f), sc["names"].get(t, t)
    return (f + "---" + t if "-" in f or "-" in t else f + "-" + t) + ".patch.zst"


def bucket(rng, seed, o):
    """a history with an S3 remote whose bucket holds much more than the remote's files"""
    oo = dict(o, remote="s3", s3paths=PATHS, pages=[1000, 1000, 3, 2, 1], strays=0.4, newalt=True, cmds=rng.choice([{"install": 4, "patch": 2, "sync": 2, "add": 2, "debug": 0.5}, {"sync": 3, "add": 3, "install": 2}, {"install": 1, "patch": 1}]))
    sc = history(rng, seed, oo)
    p = sc["s3path"].strip("/")
    acts = sc["actions"]
    vs = [v for v in sc["names"] if v.isdigit()]
    for i, x in enumerate(("o1", "o2")):
        sc["names"][x] = names(rng, 1)["1"] + "o%d" % i
    cands = vs + ["o1", "o2"]
    around = ["sub/", "sub/sub/", "p/"] if not p else [p + "2/", p + "-old/", p + ".", p, p[:-1] + "/", p[:-1], "x" + p + "/", p + "/sub/", p + "/" + p + "/", p + "//", "x/" + p + "/", p.upper() + "x/", "", p.split("/")[0] + "/" if "/" in p else "other/"]
    inside = p + "/" if p else ""
    for _ in range(rng.choice([0, 1, 2, 4, 8, 16])):
        pre = rng.choice(around)
        if rng.random() < 0.75:
            v = rng.choice(cands)
            k, d = pre + key_of(sc, v), {"v": v}
        elif rng.random() < 0.7:
            f, t = rng.sample(cands, 2)
            k, d = pre + pair_key(sc, f, t), {"patch": [f, t]}
        else:
            k, d = pre + rng.choice(["", "notes.txt", "x", ".zst"]), {"data": rng.choice(["", "00"])}
        rest = k[len(inside):] if k.startswith(inside) else "/"
        if k and (not k.startswith(inside) or "/" in rest or not rest):
            acts.insert(0, {"op": "outside", "key": k, **d})
    if rng.random() < 0.3 and p:
        acts.insert(0, {"op": "outside", "key": p + "/", "data": ""})
    first = next((i for i, a in enumerate(acts) if a["op"] in ("install", "patch", "sync", "add", "debug")), len(acts))
    for _ in range(rng.choice([0, 1, 2])):
        x = rng.choice([{"op": "install", "mach": "a", "v": rng.choice(["o1", "o2"])}, {"op": "patch", "mach": "a", "from": rng.choice(cands), "to": rng.choice(["o1", "o2"])},
                        {"op": "add", "mach": "a", "v": rng.choice(vs), "from": rng.choice(["o1", "o2"])}])
        acts.insert(rng.randrange(first, len(acts) + 1), x)
    if rng.random() < o.get("large", 0):
        acts.insert(0, {"op": "crowd", "n": rng.choice([30, 50, 120, 120, 998, 1001, 2500])})
        sc["page"] = rng.choice([1, 1, 2, 7]) if acts[0]["n"] < 200 else 1000
    return sc


def buckets(seed, count, o, tag=0):
    out = []
    for i in range(count):
        s = (seed * 1000003 + tag * 10007 + i) % 2**31
        out.append(bucket(random.Random(s), s, o))
    return out


def readds(seed, count, o, tag=0):
    out = []
    for i in range(count):
        s = (seed * 1000003 + tag * 10007 + i) % 2**31
        out.append(readd(random.Random(s), s, o))
    return out


# ---- releases: a current version, tags of a repository, builds for them
def part(rng, mode):
    r = rng.random()
    if mode == "small":
        return str(rng.choice([0, 1, 2, 3, 10]))
    if mode == "wide":
        return str(rng.choice([rng.randrange(12), rng.randrange(95, 120), 10 ** rng.randrange(1, 25), rng.randrange(10 ** 24), 10 ** rng.randrange(38, 60), 2 ** 32, 2 ** 63, 2 ** 64, 2 ** 64 - 1, 999, 4294967295]))
    if r < 0.55:
        return str(rng.choice([0, 1, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, rng.randrange(1000)]))
    if r < 0.7:
        return rng.choice(["rc1", "rc10", "x", "b2", "beta", "1a", "a1b2", "", "dev", "rc_1", "1_0", "a_2", "2+1", "%s_%d" % (rng.choice("ab1"), rng.randrange(12)), "\u00e9", "\u00c9", "\u00d6%d" % rng.randrange(3)])
    if r < 0.8:
        return "0" * rng.randrange(1, 3) + str(rng.randrange(20))
    return str(rng.randrange(12))


def join(rng, parts, sep=None):
    out = parts[0]
    for p in parts[1:]:
        out += (sep or rng.choice([".", ".", "-"])) + p
    return out


def legal(v):
    return v and "---" not in v and "/" not in v and not v.endswith("-") and not v.startswith("-")


def ref_ok(t):
    """git accepts it as name of a tag"""
    return t and not t.startswith((".", "-")) and not t.endswith((".", ".lock")) and ".." not in t and "@{" not in t and "/" not in t and not any(ch in t for ch in " ~^:?*[\\")


def case(rng, s):
    return "".join(ch.upper() if rng.random() < 0.5 else ch.lower() for ch in s)


def release(rng, seed, o):
    mode = rng.choice(["small", "mixed", "mixed", "wide"])
    sep = rng.choice([".", ".", "-", None])
    head = rng.choice(["", "", "", "v", "IL", "rel-", "App", "app_", "a_1_", "\u00c9", "r+"])
    while True:
        long = rng.random() < 0.07
        cs = [str(rng.choice([0, 1, 2, 3, 10])) if long else part(rng, mode) for _ in range(rng.randrange(6, 14) if long else rng.choice([1, 2, 3, 3, 3, 4, 5]))]
        cs[0] = head + cs[0] if rng.random() < 0.5 else cs[0]
        cur = join(rng, cs, sep)
        prefix = rng.choice(["", "", "il-", "x", "P.", "app_1-", head, cur[: rng.randrange(1, 3)]])
        if legal(prefix + cur) and legal(cur) and len(cur) < 80:    # (two names and more have to fit into the name of a file)
            break
    import re
    cs = re.split(r"[.-]", cur)
    tags, seen = [], {cur.lower()}
    want = []

    def tag(parts):
        t = join(rng, parts, sep if rng.random() < 0.8 else None)
        if rng.random() < 0.15:
            t = case(rng, t)
        if legal(t) and ref_ok(t) and t.lower() not in seen and legal(prefix + t) and len(t) < 90:
            seen.add(t.lower())
            tags.append(t)
            return t

    nums = [k for k, p in enumerate(cs) if p.isdigit() and p.isascii() and int(p) > 0]
    for k in nums:
        d = str(int(cs[k]) - 1)
        if rng.random() < 0.1:
            d = d.zfill(len(cs[k]))
        tails = []
        for _ in range(rng.choice([0, 1, 1, 2, 4, 8]) if not long else rng.choice([0, 1, 1, 1, 2])):
            w = len(cs) - k - 1 + rng.choice([0, 0, 0, -1, 1])
            tails.append([part(rng, mode) if rng.random() < 0.8 else str(rng.choice([8, 9, 10, 11, 2, 1])) for _ in range(max(0, w))])
        for tl in tails:
            tag(cs[:k] + [d] + tl)
        if rng.random() < 0.15:
            tag(cs[:k] + [d])
        # near misses
        for _ in range(rng.choice([0, 1, 2])):
            x = rng.randrange(6)
            tl = [part(rng, mode) for _ in range(len(cs) - k - 1)]
            n = int(cs[k])
            if x == 0 and n > 1:
                tag(cs[:k] + [str(n - 2)] + tl)
            elif x == 1:
                tag(cs[:k] + [str(n + 1)] + tl)
            elif x == 2:
                tag(cs[:k] + [cs[k]] + tl)
            elif x == 3:
                tag(cs[:k] + [d + rng.choice(["0", "1", "a"])] + tl)
            elif x == 4 and k:
                y = list(cs[:k])
                i = rng.randrange(k)
                y[i] = y[i] + "9" if rng.random() < 0.5 else "q" + y[i]
                tag(y + [d] + tl)
            elif x == 5:
                tag([rng.choice("wz") + cs[0]] + cs[1:k] + [d] + tl) if k else tag([d + "x"] + tl)
    for _ in range(rng.choice([0, 1, 3])):
        tag([part(rng, mode) for _ in range(rng.randrange(1, 5))])
    if rng.random() < 0.3:
        tags.append(cur) if ref_ok(cur) else None
    tags = tags[: o.get("maxtags", 14) if not long else 24]
    kinds = ["light", "light", "annotated", "nested", "packed"] + (["tree", "blob", "anntree"] if rng.random() < 0.4 else [])
    sc = {"seed": seed, "remote": o.get("remote", "dir"), "machines": ["a", "b"], "names": {}, "contents": {}, "actions": [], "bare": rng.random() < 0.2, "s3path": rng.choice(["/", "/p/q"])}
    acts = sc["actions"]
    miss, dmg = o.get("missing", 0.0), o.get("damage", 0.0)
    built = []

    def build(name):
        r = rng.random()
        if r < miss:
            return
        for w in rng.choice([["remote"], ["remote"], ["a"], ["a", "remote"]]):
            if rng.random() < dmg:
                acts.append({"op": "badbuild", "where": w, "v": "=" + name, "size": rng.randrange(5, 400)})
            else:
                acts.append({"op": "publish", "where": w, "v": "=" + name, "size": 10 * UNIT, "if_absent": True})
        built.append(name)

    for t in tags:
        if t == cur:
            continue
        b = prefix + t
        if rng.random() < 0.1:
            b = re.sub(r"[.-]", lambda m: rng.choice(".-"), b)
            b = b if legal(b) else prefix + t
        if rng.random() < 0.08:
            b = case(rng, b)
        build(b)
    if rng.random() > o.get("nocurrent", 0.03):
        r = rng.random()
        for w in ["a"] if r < 0.4 else ["remote"] if r < 0.8 else ["a", "remote"]:
            if rng.random() < o.get("badcurrent", 0.02):
                acts.append({"op": "badbuild", "where": w, "v": "=" + prefix + cur, "size": 40})
            else:
                acts.append({"op": "publish", "where": w, "v": "=" + prefix + cur, "size": 10 * UNIT})
    # builds which are no tags, and with prefix those without
    for _ in range(rng.choice([0, 1, 2])):
        x = join(rng, [part(rng, "small") for _ in cs], sep)
        if legal(prefix + x) and x.lower() not in seen and (prefix + x).lower() not in {b.lower() for b in built}:
            acts.append({"op": "publish", "where": rng.choice(["a", "remote"]), "v": "=" + prefix + x, "if_absent": True})
    if prefix and rng.random() < 0.6:
        for t in tags + [cur]:
            if rng.random() < 0.5 and t.lower() not in {b.lower() for b in built}:
                acts.append({"op": "publish", "where": rng.choice(["a", "remote"]), "v": "=" + t, "if_absent": True})
    for t in built:
        if rng.random() < o.get("known", 0.08):
            acts.append({"op": rng.choice(["ppatch", "lpatch"]), "mach": "a", "from": "=" + t, "to": "=" + prefix + cur, "v": "ok"})
    # branches are no releases
    sc["branches"] = []
    for k in nums:
        if rng.random() < 0.2:
            b = join(rng, cs[:k] + [str(int(cs[k]) - 1)] + ["9999"] * rng.randrange(1, 3), sep)
            if legal(b) and ref_ok(b) and b.lower() not in seen and len(b) < 90:
                sc["branches"].append(b)
                acts.append({"op": "publish", "where": "remote", "v": "=" + prefix + b, "if_absent": True})
    # nor are tags in directories
    for k in nums:
        if rng.random() < 0.1:
            b = join(rng, cs[:k] + [str(int(cs[k]) - 1)] + ["9998"] * rng.randrange(1, 3), sep)
            if legal(b) and ref_ok(b) and b.lower() not in seen and len(b) < 80:
                tags.append("zz/" + rng.choice(["", "y/"]) + b)
                acts.append({"op": "publish", "where": "remote", "v": "=" + prefix + b, "if_absent": True})
    rng.shuffle(tags)
    a = {"op": "auto", "mach": "a", "v": "=" + cur, "prefix": prefix, "tags": [[t, rng.choice(kinds)] for t in tags], "repo": rng.choice(["@repo", "@repo", "@repo/sub"]) if not sc["bare"] else "@repo"}
    acts.append(a)
    if rng.random() < 0.3:
        acts.append(dict(a))
    if rng.random() < 0.25 and built:
        acts += [{"op": "sync", "mach": "a"}, {"op": "install", "mach": "b", "v": "=" + rng.choice(built)}, {"op": "install", "mach": "b", "v": "=" + prefix + cur}]
    return sc


def releases(seed, count, o, tag=0):
    out = []
    for i in range(count):
        s = (seed * 1000003 + tag * 10007 + i) % 2**31
        out.append(release(random.Random(s), s, o))
    return out
