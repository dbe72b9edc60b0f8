"""Run TLC and read what it says."""
import glob, json, os, re, shutil, subprocess, tempfile

from .build import ToolError, VERIF

SPEC = os.path.join(VERIF, "spec")
JARS = ["/opt/veriftools/tla/tla2tools.jar"] + sorted(glob.glob("/opt/veriftools/tla/*ommunity*.jar"))


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.violated = re.findall(r"Error: (?:Invariant|Action property) (\w+) is violated|Error: (?:Temporal properties were violated)", out)
        self.completed = "Model checking completed. No error has been found." in out
        m = re.findall(r"([\d,]+) states generated(?:,| \()? ?([\d,]+)?(?: distinct)?", out)
        self.generated = self.distinct = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1])

    def printed(self, tag):
        """JSON values printed with PrintT(tag \\o ToJson(..))"""
        r = []
        for l in self.out.split("\n"):
            if l.startswith('"' + tag + " "):
                s = json.loads(l.replace('\\\\', '\\')) if False else _unquote(l)
                r.append(json.loads(s[len(tag) + 1 :]))
        return r

    def error(self):
        i = self.out.find("Error:")
        return self.out[i : i + 6000] if i >= 0 else ""

    def states(self):
        """variable assignments of the states of the error trace, as text"""
        return re.findall(r"State \d+:.*?\n(.*?)(?=\n\n|\Z)", self.out, re.S)


def _unquote(l):
    l = l.strip()
    assert l[0] == '"' and l[-1] == '"'
    return l[1:-1].replace('\\"', '"').replace("\\\\", "\\")


def run(module, cfg, env=None, workers=8, heap="3g", timeout=600, args=(), keep=None, light=False):
    """cfg: name of a file in spec/, or text.  Raises ToolError when TLC itself fails."""
    meta = tempfile.mkdtemp(prefix="vftlc-", dir="/tmp")
    try:
        if "\n" in cfg:
            cfgpath = os.path.join(meta, "m.cfg")
            with open(cfgpath, "w") as f:
                f.write(cfg)
        else:
            cfgpath = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-Dfile.encoding=UTF-8", *(("-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1") if light else ("-XX:+UseParallelGC",)), "-Djava.io.tmpdir=" + meta, "-cp", ":".join(JARS), "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgpath, *args, os.path.join(SPEC, module)]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as t:
            if keep:
                return Result((t.stdout or b"").decode("utf-8", "replace"), 124)
            raise ToolError("TLC did not finish in %d s (%s)" % (timeout, module))
        out = p.stdout.decode("utf-8", "replace")
        r = Result(out, p.returncode)
        # 0 fine, 10-13 violations
        if p.returncode not in (0, 10, 11, 12, 13):
            raise ToolError("TLC failed (%d) on %s:\n%s" % (p.returncode, module, "\n".join(l for l in out.split("\n") if not l.startswith("Linting"))[-6000:]))
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def cfg(constants=None, invariants=(), init="Init", next="Next", view=None, properties=(), constraint=None, extra="", spec=None):
    t = ["SPECIFICATION " + spec] if spec else ["INIT " + init, "NEXT " + next]
    if constants:
        t.append("CONSTANTS")
        t += ["  %s = %s" % kv for kv in constants.items()]
    for x in invariants:
        t.append("INVARIANT " + x)
    for x in properties:
        t.append("PROPERTY " + x)
    if view:
        t.append("VIEW " + view)
    if constraint:
        t.append("CONSTRAINT " + constraint)
    t += ["CHECK_DEADLOCK FALSE", extra, ""]
    return "\n".join(t)


def tla(x):
    """a Python value as TLA+"""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(tla(y) for y in sorted(x)) + "}"
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    raise TypeError(x)
