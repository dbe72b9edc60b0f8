"""Writes small git repositories by hand."""
import hashlib, os, zlib


def obj(d, kind, data):
    raw = b"%s %d\0" % (kind, len(data)) + data
    i = hashlib.sha1(raw).hexdigest()
    p = os.path.join(d, "objects", i[:2])
    os.makedirs(p, exist_ok=True)
    with open(os.path.join(p, i[2:]), "wb") as f:
        f.write(zlib.compress(raw))
    return i


def write(path, tags, rng=None, bare=False, commits=1, branches=()):
    """tags: names, or [name, kind]; kind: light annotated nested tree blob packed"""
    d = path if bare else os.path.join(path, ".git")
    for x in ("objects", "refs/heads", "refs/tags"):
        os.makedirs(os.path.join(d, x), exist_ok=True)
    blob = obj(d, b"blob", b"hello")
    tree = obj(d, b"tree", b"100644 a\0" + bytes.fromhex(blob))
    cs = []
    shape = rng.choice(["line", "line", "any", "any", "any", "apart"]) if rng else "line"
    for i in range(commits + (rng.randrange(4) if rng else 0)):
        t = 1500000000 + (rng.choice([0, 86400, rng.randrange(10**8)]) if rng else i)
        ps = cs[-1:] if shape == "line" else [] if shape == "apart" else rng.sample(cs, min(len(cs), rng.choice([0, 1, 1, 2])))
        cs.append(obj(d, b"commit", b"tree %s\n%sauthor A <a@b> %d +0000\ncommitter A <a@b> %d +0000\n\nc%d\n"
                      % (tree.encode(), b"".join(b"parent %s\n" % x.encode() for x in ps), t, t, i)))
    # the branch which is checked out: the last commit, any commit, a detached one, or a branch without commits
    head = rng.choice(["last", "last", "any", "any", "detached", "unborn"]) if rng else "last"
    tip = cs[-1] if head in ("last", "unborn") else rng.choice(cs)
    with open(os.path.join(d, "HEAD"), "w") as f:
        f.write(tip + "\n" if head == "detached" else "ref: refs/heads/%s\n" % ("new" if head == "unborn" else "main"))
    with open(os.path.join(d, "config"), "w") as f:
        f.write("[core]\n\trepositoryformatversion = 0\n\tbare = %s\n" % ("true" if bare else "false"))
    with open(os.path.join(d, "refs/heads/main"), "w") as f:
        f.write(tip + "\n")
    for b in branches:
        for where in ("refs/heads", "refs/remotes/origin", "refs/notes")[: 1 + len(b) % 3]:
            os.makedirs(os.path.join(d, where), exist_ok=True)
            with open(os.path.join(d, where, b), "w") as f:
                f.write(cs[-1] + "\n")
    packed = []
    for t in tags:
        name, kind = (t, "light") if isinstance(t, str) else t
        c = rng.choice(cs) if rng else cs[-1]
        target = {"tree": tree, "blob": blob}.get(kind, c)
        if kind in ("annotated", "nested", "anntree"):
            target = obj(d, b"tag", b"object %s\ntype %s\ntag %s\ntagger A <a@b> 1500000000 +0000\n\nm\n"
                         % ((tree if kind == "anntree" else c).encode(), b"tree" if kind == "anntree" else b"commit", name.encode()))
            if kind == "nested":
                target = obj(d, b"tag", b"object %s\ntype tag\ntag %s\ntagger A <a@b> 1500000000 +0000\n\nm\n" % (target.encode(), name.encode()))
        if kind == "packed":
            packed.append((name, target))
            continue
        p = os.path.join(d, "refs/tags", name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(target + "\n")
    if packed:
        with open(os.path.join(d, "packed-refs"), "w") as f:
            f.write("# pack-refs with: peeled fully-peeled sorted \n")
            for n, t in sorted(packed):
                f.write("%s refs/tags/%s\n" % (t, n))
    return path
