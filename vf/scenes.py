"""Scenes for vf.ops: small worlds with one or two commands (data only)."""
import random

from .gen import names
from .hist import UNIT

KINDS = ["full", "chain", "chain", "fallback", "cached", "dangling", "same", "first", "add", "replace", "inuse", "addfrom", "addup", "sync", "sync", "patch", "patchremote",
         "known", "addpkg", "auto"]


def base(rng, seed, remote, n=4, big=False):
    sc = {"seed": seed, "remote": remote, "machines": ["a"], "names": names(rng, n), "versions": [str(i + 1) for i in range(n)], "contents": {}, "actions": [], "procs": []}
    if remote == "s3":
        sc.update(s3path=rng.choice(["/", "/p", "/p/q/"]), page=rng.choice([1000, 2]))
    if big:
        sc["contents"] = {v: rng.choice(["mid", "mid", "zeros", "text"]) for v in sc["versions"]}
    return sc


def scene(rng, seed, kind, remote="dir", big=False):
    sc = base(rng, seed, remote, rng.randrange(3, 6), big)
    vs = sc["versions"]
    acts = sc["actions"]
    b = 10 * UNIT

    def pub(v, where="remote"):
        acts.append({"op": "publish", "v": v, "where": where, "size": b if not big else None})

    def patch(f, t, where="remote", d="ok"):
        acts.append({"op": "ppatch" if where == "remote" else "lpatch", "mach": where, "from": f, "to": t, "v": d, "size": rng.randrange(400, 600) if not big else None})

    sc["kind"] = kind
    sc["later"] = [{"op": "debug", "mach": "a"}, {"op": "sync", "mach": "a"}]
    extra = rng.random() < 0.5
    if kind in ("full", "chain", "fallback", "cached", "dangling", "same", "first"):
        for v in vs:
            pub(v)
        target = vs[2]
        if kind != "first":
            acts.append({"op": "current", "mach": "a", "v": vs[0]})
            if kind not in ("dangling", "same") or rng.random() < 0.2:
                pub(vs[0], "a")
        if kind == "same":
            target = vs[0]
        if kind == "cached":
            pub(vs[2], "a")
        if kind in ("chain", "fallback"):
            bad = rng.choice([(0, 1), (1, 0), (0, 1)]) if kind == "fallback" else (0, 0)
            loc = rng.choice(["remote", "remote", "a"])
            patch(vs[0], vs[1], rng.choice(["remote", loc]), "ok" if not bad[0] else rng.choice(["garbage", "trunc", "notpatch"]))
            patch(vs[1], vs[2], loc, "ok" if not bad[1] else rng.choice(["garbage", "trunc", "notpatch"]))
        elif extra:
            acts.append({"op": "ppatch", "mach": "remote", "from": vs[0], "to": vs[2], "v": "ok", "size": 2 * b})
        sc["procs"] = [{"op": "install", "mach": "a", "v": target}]
    elif kind in ("add", "replace", "inuse", "addfrom", "addup", "addfetch"):
        inuse = kind == "inuse"       # the build which is replaced is the current one
        kind = "replace" if inuse else kind
        fetch = kind == "addfetch"    # the patch is made from a build which only the remote has
        pub(vs[0], "remote" if fetch else rng.choice(["a", "remote"]))
        if extra:
            pub(vs[1], "a")
        if kind == "replace" or (kind != "add" and rng.random() < 0.4):
            pub(vs[2], "a")
            if rng.random() < 0.3:
                acts[-1]["mode"] = 0o444
        if inuse:
            acts.append({"op": "current", "mach": "a", "v": vs[2]})
        elif rng.random() < 0.5 and not fetch:
            pub(vs[0], "a")
            acts.append({"op": "current", "mach": "a", "v": vs[0]})
        p = {"op": "add", "mach": "a", "v": vs[2], "level": 1, "upload": kind == "addup"}
        if kind in ("addfrom", "addfetch") or (kind == "addup" and extra):
            p["from"] = vs[0]
        if kind == "replace" and rng.random() < 0.6:
            p["alt"] = 1
            sc["alts"] = True
        if rng.random() < 0.2:
            p["mode"] = 0o444
        sc["procs"] = [p]
    elif kind == "sync":
        for v in vs:
            x = rng.random()
            if x < 0.7:
                pub(v, "a")
            elif x < 0.9:
                pub(v)
        pub(vs[0], "a"), pub(vs[1], "remote"), pub(vs[2], "a")
        patch(vs[0], vs[1], "a"), patch(vs[1], vs[2], rng.choice(["a", "remote"]))
        sc["procs"] = [{"op": "sync", "mach": "a"}]
    elif kind in ("patch", "patchremote", "known"):
        for v in vs:
            pub(v, "remote" if kind != "patch" else rng.choice(["a", "remote"]))
        if kind == "known":
            patch(vs[0], vs[1], "remote")
            if rng.random() < 0.5:
                pub(vs[0], "a"), pub(vs[1], "a")
        sc["procs"] = [{"op": "patch", "mach": "a", "from": vs[0], "to": vs[1]}]
    elif kind == "addpkg":
        pub(vs[0], rng.choice(["a", "remote"]))
        sc["addpkg"] = True
        sc["tree"] = [["bin/tool", "aa" * rng.randrange(1, 300), 0o755], ["readme", "bb" * 50, 0o644], ["d/e/f", "", 0o600]]
        sc["procs"] = [{"op": "addpkg", "mach": "a", "v": vs[2], "from": rng.choice(["", vs[0]]), "upload": rng.random() < 0.5, "path": "@tree"}]
    elif kind == "auto":
        p, q, r = "2.%d.%d" % (rng.randrange(1, 9), rng.randrange(1, 9)), None, None
        x, y, z = p.split(".")
        q, r, s = "%s.%s.%d" % (x, y, int(z) - 1), "%s.%d.7" % (x, int(y) - 1), "%d.3.1" % (int(x) - 1)
        pre = rng.choice(["", "il-"])
        sc["names"] = {"1": pre + p, "2": pre + q, "3": pre + r, "4": pre + s}
        sc["versions"] = ["1", "2", "3", "4"]
        if big:
            sc["contents"] = {}
        for v in "1234":
            for w in rng.choice([["remote"], ["a"], ["a", "remote"]]):
                pub(v, w)
        sc["procs"] = [{"op": "auto", "mach": "a", "v": "=" + p, "prefix": pre, "tags": [q, r, s, "0.0.1"], "repo": "@repo"}]
    if remote == "dir" and kind not in ("auto", "addpkg"):    # the same file is written again, with other content
        if rng.random() < 0.3:
            sc["later"].append({"op": "install", "mach": "a", "v": vs[1]})
        v = sc["procs"][0].get("v") or vs[0]
        if rng.random() < 0.5 and (rng.random() < 0.4 or kind in ("full", "first", "add", "replace", "same", "dangling")):
            sc["alts"] = True
            sc["later"].append({"op": "add", "mach": "a", "v": v, "alt": 2 if sc["procs"][0].get("alt") else 1, "level": rng.choice([1, 1, 19])})
    return sc


def scenes(seed, tag, kinds, n, remote="dir", big=0.0):
    out = []
    for i in range(n):
        s = (seed * 1000003 + tag * 7919 + i) % 2**31
        rng = random.Random(s)
        out.append(scene(rng, s, kinds[i % len(kinds)], remote, rng.random() < big))
    return out


PAIRS = ["install=", "install/", "install/", "add=", "add/", "sync=", "sync/addup", "patch=", "patch/", "install/sync", "install/add", "addup=", "install/patch", "chain=", "chain/", "replace/install",
         "remote-install/sync", "remote-sync/sync"]


def downloads(seed, tag, kinds, n, large=False):
    """commands which fetch, with files of their natural size (a byte altered anywhere matters)"""
    out = []
    for i in range(n):
        s = (seed * 1000003 + tag * 7919 + i) % 2**31
        rng = random.Random(s)
        sc = scene(rng, s, kinds[i % len(kinds)], "s3", rng.random() < 0.1 and not large)
        sc.update(quote=rng.random() < 0.6, s3path=rng.choice(["/", "", "/p", "/p/q/", "/p.q-r_s"]), page=rng.choice([1000, 1000, 2]))
        for a in sc["actions"]:
            if a["op"] in ("ppatch", "lpatch") and a.get("v") == "ok" or a["op"] == "publish" and rng.random() < 0.7:
                a["size"] = None
        if large:
            for v in sc["versions"]:
                sc["contents"][v] = rng.choice(["random-mb", "random-mb", "random-mbs", "huge"])
        out.append(sc)
    return out


def pair_scene(rng, seed, kind, big=False, remote="dir"):
    sc = base(rng, seed, remote, 4, big)
    vs, acts = sc["versions"], sc["actions"]
    b = 10 * UNIT

    def pub(v, where="remote"):
        acts.append({"op": "publish", "v": v, "where": where, "size": b if not big else None})

    def patch(f, t, where="remote", d="ok"):
        acts.append({"op": "ppatch" if where == "remote" else "lpatch", "mach": where, "from": f, "to": t, "v": d, "size": rng.randrange(400, 600) if not big else None})

    sc["kind"] = kind
    A = {"mach": "a"}
    B = {"mach": "a"}
    if kind.startswith("remote-"):
        sc["machines"] = ["a", "b"]
        B = {"mach": "b"}
    ins = lambda v, m=A: dict(m, op="install", v=v)
    if kind in ("install=", "install/", "chain=", "chain/", "install/sync", "install/add", "install/patch", "replace/install"):
        for v in vs:
            pub(v)
        if rng.random() < 0.8:
            pub(vs[0], "a")
            acts.append({"op": "current", "mach": "a", "v": vs[0]})
        if kind.startswith("chain") or rng.random() < 0.3:
            patch(vs[0], vs[1]), patch(vs[1], vs[2]), patch(vs[1], vs[3])
        second = {"install=": ins(vs[2]), "install/": ins(vs[3]), "chain=": ins(vs[2]), "chain/": ins(vs[3]), "install/sync": dict(A, op="sync"),
                  "install/add": dict(A, op="add", v=vs[2]), "install/patch": dict(A, op="patch", **{"from": vs[2], "to": vs[3]}), "replace/install": dict(A, op="add", v=vs[2])}[kind]
        if kind == "replace/install":
            pub(vs[2], "a")
        if kind == "install/sync":
            acts[:] = [x for x in acts if not (x["op"] == "publish" and x["v"] == vs[3])]
            pub(vs[3], "a")
        sc["procs"] = [ins(vs[2]), second]
    elif kind in ("add=", "add/", "addup=", "sync/addup"):
        pub(vs[0], "a"), pub(vs[1])
        up = kind == "addup="
        x = dict(A, op="add", v=vs[2], upload=up, **({"from": vs[0]} if rng.random() < 0.5 else {}))
        y = dict(A, op="add", v=vs[2] if kind.endswith("=") else vs[3], upload=up or kind == "sync/addup", **({"from": vs[0]} if rng.random() < 0.5 else {}))
        sc["procs"] = [dict(A, op="sync") if kind == "sync/addup" else x, y]
    elif kind == "sync=":
        pub(vs[0], "a"), pub(vs[1], "a"), pub(vs[2]), patch(vs[0], vs[1], "a")
        sc["procs"] = [dict(A, op="sync"), dict(A, op="sync")]
    elif kind.startswith("patch"):
        for v in vs[:3]:
            pub(v, rng.choice(["a", "remote"]))
        sc["procs"] = [dict(A, op="patch", **{"from": vs[0], "to": vs[1]}), dict(A, op="patch", **{"from": vs[0], "to": vs[1] if kind == "patch=" else vs[2]})]
    elif kind == "remote-install/sync":
        for v in vs[:3]:
            pub(v, "b")
        patch(vs[0], vs[1], "b")
        pub(vs[0]), pub(vs[3])
        pub(vs[0], "a")
        acts.append({"op": "current", "mach": "a", "v": vs[0]})
        sc["procs"] = [ins(vs[3], A), dict(B, op="sync")]
        if rng.random() < 0.5:
            sc["procs"].reverse()
    elif kind == "remote-sync/sync":
        for v in vs[:3]:
            pub(v, "a")
            pub(v, "b")
        patch(vs[0], vs[1], "a"), patch(vs[0], vs[1], "b")
        sc["procs"] = [dict(A, op="sync"), dict(B, op="sync")]
    if rng.random() < 0.5:
        sc["procs"].reverse()
    return sc


def pair_scenes(seed, tag, n, kinds=PAIRS, remote="dir"):
    out = []
    for i in range(n):
        s = (seed * 1000003 + tag * 7919 + i) % 2**31
        rng = random.Random(s)
        out.append(pair_scene(rng, s, kinds[i % len(kinds)], rng.random() < 0.15, remote))
    return out
