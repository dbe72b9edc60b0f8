#!/usr/bin/env python3
"""Planted changes: python3 tools/seed.py FILE [ID...]   (work on a scratch copy, /tmp/seedrepo)

FILE is a Python file with B = {id: {"property", "needs", "breaks", "edits": [(file, old, new)], "demo": shell, "s3": bool}}.
Writes seeded/<id>/ and confirms: builds, existing tests pass, the demonstration tells the trees apart.
With --check, the check of the property is then run against the copy (VF_REPO)."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
sys.path.insert(0, V)
from vf import build


def sh(*a, cwd=S, timeout=900, env=None):
    e = build.cargo_env()
    e.update(env or {})
    r = subprocess.run(a, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return r.returncode, r.stdout


def demo(d):
    return sh("bash", os.path.join(d, "demo.sh"), timeout=300)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    B = {}
    exec(open(args[0]).read(), B)
    B = B["B"]
    for i in args[1:] or B:
        b = B[i]
        d = os.path.join(V, "seeded", i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(os.path.join(V, "tools", "seedlib", "lib.sh"), d)
        body = '#!/bin/bash\n# %s\n. "$(dirname "$0")/lib.sh"\n%s\nexit 0\n' % (b["breaks"].replace("\n", " "), b["demo"].strip())
        open(os.path.join(d, "demo.sh"), "w").write(body)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for n, w in (("s3.py", "\ns3 "), ("die.c", "die ")):
            if w in "\n" + b["demo"]:
                shutil.copy(os.path.join(V, "tools", "seedlib", n), d)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        sh("git", "checkout", "-q", "--", ".")
        sh("cargo", "build", "--offline", "--locked")
        c0, o0 = demo(d)
        for f, old, new in b["edits"]:
            p = os.path.join(S, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "EDIT does not fit", f, s.count(old), old[:60])
                break
            open(p, "w").write(s.replace(old, new))
        c, o = sh("git", "diff")
        open(os.path.join(d, "patch.diff"), "w").write(o)
        c, o = sh("cargo", "test", "--workspace", "--no-run", "--offline", "--locked")
        if c:
            print(i, "DOES NOT BUILD", o[-3000:])
            continue
        c1, o1 = demo(d)
        ct, ot = sh("cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--locked", "--", "--test-threads", "8")
        bad = [l for l in ot.splitlines() if "... FAILED" in l]
        ok = c0 == 0 and c1 == 1 and not bad
        print(i, b["property"], "GOOD" if ok else "BAD", "demo %d/%d" % (c0, c1), bad, "" if c0 == 0 else o0[-1500:], o1.strip()[-300:], flush=True)
        if "--check" in sys.argv:
            c, o = sh("python3", os.path.join(V, "check.py"), b["property"], cwd=V, env={"VF_REPO": S})
            L = o.splitlines(); print("   check:", c, [l[:400] for n, l in enumerate(L) if l.startswith(("VIOLATION", "OK", "ERROR")) or n and L[n-1].startswith("VIOLATION")], flush=True)
    sh("git", "checkout", "-q", "--", ".")


main()
