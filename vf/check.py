"""Frame of all checks: counts, TLC runs, judging recorded runs, evidence, exit status."""
import concurrent.futures, json, os, re, threading, time, traceback

from . import build, hist, pool, tlc
from .build import Hung, ToolError, VERIF


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


class Check:
    def __init__(self, prop, level, seed=None, tier=None):
        self.prop, self.level = prop, level
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.t0 = time.time()
        self.models, self.states, self.transitions, self.validated = [], 0, 0, 0
        self.samples, self.kinds, self.notes, self.assumptions = [], {}, {}, []
        self.evaluations = 0
        self.distinct = set()
        self.times = []

        self.ex = concurrent.futures.ThreadPoolExecutor(4)
        self.futures = []

    def later(self, f, *a, **kw):
        """run f in a thread; its failure is raised by join()"""
        x = self.ex.submit(f, *a, **kw)
        self.futures.append(x)
        return x

    def join(self):
        for x in self.futures:
            x.result()
        self.futures = []

    @property
    def quick(self):
        return self.tier != "thorough"

    def pick(self, q, t):
        return q if self.quick else t

    def lap(self, what):
        self.times.append((what, round(time.time() - self.t0, 1)))

    # -- model checking of the specification itself
    def model(self, label, module, cfg, expect=None, **kw):
        """expect: name of an invariant that has to be violated (the model with a flaw put in)"""
        r = tlc.run(module, cfg, **kw)
        if expect is None:
            if not r.completed:
                raise ToolError("the specification %s breaks its own properties:\n%s" % (label, r.error()[:4000]))
        elif expect not in r.violated:
            raise ToolError("model %s: the flaw put in was not found (%s)\n%s" % (label, r.violated, r.out[-1500:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"model": label, "distinct_states": r.distinct, "states_generated": r.generated,
                            "result": "no violation" if expect is None else "violates %s, as it has to" % expect})
        self.lap("model " + label)
        return r

    # -- recorded runs judged by TLC
    def tlc_judge(self, chunks, module, cfg, what):
        """chunks: (document, number of judgements, run number -> (scenario, run, what the program said)); raises Violation"""
        def one(x):
            i, (doc, want, find) = x
            path = os.path.join(build.WORK, "traces-%s-%d-%d-%d.json" % (self.prop, os.getpid(), threading.get_ident(), i))
            try:
                with open(path, "w") as f:
                    # TLC gets ASCII only
                    f.write(json.dumps(doc))
                return tlc.run(module, cfg, env={"TRACES": path}, timeout=1500, heap="3g", workers=1, light=True)
            finally:
                if os.path.exists(path):
                    os.unlink(path)

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            results = list(ex.map(one, enumerate(chunks)))
        for (doc, want, find), r in zip(chunks, results):
            told = r.printed("STEP")
            for x in told:
                for k in x["kinds"]:
                    self.kinds[k] = self.kinds.get(k, 0) + 1
            if r.violated:
                last = r.states()[-1]
                scenario, run, said = find(int(re.search(r"/\\ run = (\d+)", last).group(1)) - 1)
                k = re.search(r"/\\ k = (\d+)", last)
                k = int(k.group(1)) if k else 0
                bad = re.search(r"/\\ bad = (\{.*?\})\s*(?=/\\|\Z)", last, re.S)
                why = re.sub(r"\s+", " ", bad.group(1)) if bad else "?"
                raise Violation("%s: %s (step %d) %s" % (what, why, k, said[-800:]), self.save(scenario, k, why, run))
            if not r.completed:
                raise ToolError("trace judge: " + r.out[-3000:])
            if len({(x["run"], x["step"]) for x in told}) != want:
                raise ToolError("only %d of %d steps were judged" % (len(told), want))
            self.states += r.distinct
            self.transitions += r.generated

    def judge(self, runs, scenarios, module="Trace.tla", cfg="Trace.cfg", prop=None, what="histories"):
        """every recorded history against the specification"""
        if not runs:
            return
        errs = [hist.strip(r) for r in runs]
        parts = max(1, min(8, len(runs) // 20))
        chunks = []
        for i in range(parts):
            ix = list(range(len(runs)))[i::parts]
            chunks.append(({"prop": prop or self.prop, "runs": [runs[j] for j in ix]}, sum(self.steps_of(runs[j]) for j in ix),
                           lambda n, ix=ix: (scenarios[ix[n]], runs[ix[n]], " / ".join(x for x in errs[ix[n]] if x))))
        self.tlc_judge(chunks, module, cfg, what)
        self.validated += len(runs)
        self.lap("judged " + what)

    def listed(self, key):
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.prop and m.group(2) == key:
                    return m.group(3)
        return None

    def judge_known(self, key, only, runs, scenarios):
        """runs which fail because of a listed finding, in the way `only` says; any other failure is a violation"""
        found = 0
        for r, s in zip(runs, scenarios):
            try:
                self.judge([r], [s], what="known finding " + key)
            except Violation as v:
                if not self.listed(key) or not re.search(only, v.what):
                    raise
                found += 1
        if found:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.listed(key)))
        self.notes["known_findings"] = {key: found}

    def judge_tables(self, tables, prop=None, what="executions with faults"):
        """tables of vf.ops against spec/FaultTrace"""
        order = sorted(range(len(tables)), key=lambda i: -len(tables[i]["runs"]))
        groups = [[] for _ in range(min(8, len(tables)))]
        for n, i in enumerate(order):
            groups[n % len(groups)].append(i)
        chunks = []
        for g in groups:
            pics, runs, src = [], [], []
            for i in g:
                t, o = tables[i], len(pics)
                pics += t["pics"]
                for j, r in enumerate(t["runs"]):
                    runs.append(dict(r, init=r["init"] + o, insts=[x + o for x in r["insts"]], post=r["post"] + o, ref=dict(r["ref"], post=r["ref"]["post"] + o),
                                     redo=dict(r["redo"], post=r["redo"]["post"] + o), later=[dict(x, post=x["post"] + o) for x in r["later"]]))
                    src.append((i, j))

            def find(n, src=src):
                i, j = src[n]
                t = tables[i]
                return ({"scene": t["scene"], "fault": t["faults"][j]["fault"]}, {"run": t["runs"][j], "pics": t["pics"]},
                        json.dumps(t["faults"][j]["fault"]) + " " + t["faults"][j]["err"])
            chunks.append(({"prop": prop or self.prop, "pics": pics, "runs": runs}, len(runs), find))
        self.tlc_judge(chunks, "FaultTrace.tla", "FaultTrace.cfg", what)
        self.validated += sum(t["count"] for t in tables)
        self.evaluations += sum(t["count"] for t in tables)
        for t in tables:
            for f in t["faults"]:
                h = f["fault"].get("how", "schedule")
                self.kinds["fault:" + h] = self.kinds.get("fault:" + h, 0) + 1
        self.notes["executions"] = self.notes.get("executions", 0) + sum(t["count"] for t in tables)
        self.notes["distinct_executions_judged"] = self.notes.get("distinct_executions_judged", 0) + sum(len(t["runs"]) for t in tables)
        self.lap("judged " + what)

    @staticmethod
    def steps_of(run):
        return sum(1 for i in run["items"] if i["kind"] == "cmd")

    def save(self, scenario, k, why, run):
        d = os.path.join(build.WORK, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, os.getpid()))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "why": why, "step": k, "scenario": scenario, "run": run}, f, indent=1)
        return p

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def need(self, **kinds):
        """what has to have been exercised at least so often"""
        for k, n in kinds.items():
            k = k.replace("__", ":").replace("_", "-")
            if self.kinds.get(k, 0) < n:
                # how often faults strike depends on the way the program works, which is free to change
                if not self.kinds.get(k, 0) and not re.match("fault|leftovers|survived|killed|refused", k):
                    raise ToolError("vacuous: %s was never exercised (%s)" % (k, json.dumps(self.kinds)))
                self.notes.setdefault("exercised_less_than_planned", {})[k] = [self.kinds.get(k, 0), n]
                print("NOTE: %s was exercised %d times instead of %d" % (k, self.kinds.get(k, 0), n))

    # -- result
    def evidence(self, violations):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "evaluations": self.evaluations, "models": self.models, "exercised": dict(sorted(self.kinds.items())),
               "samples": self.samples or ["no sample was reached"], "phases_s": self.times}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


def execute(sc):
    """scenario -> recorded run, on the real program"""
    r = hist.Runner(sc, pool.TOOLS, pool.server() if sc.get("remote") == "s3" else None)
    try:
        return r.go()
    finally:
        r.close()


def execute_twin(sc):
    return hist.twin(sc, pool.TOOLS, pool.server())


MODES = {"C03": "later", "C04": "redo", "C09": "later"}


def again(c, path):
    """a recorded violation once more, on the program as it is now"""
    from . import ops, packs, props
    with open(path) as f:
        s = json.load(f)["scenario"]
    if "call" in s:
        import importlib
        pool.run(getattr(importlib.import_module(s["call"][0]), s["call"][1]), [s["job"]])
    elif "scene" in s and "i" in s["fault"]:
        t = ops.Table()
        t.add(ops.pair(s["scene"], ops.fresh(), s["fault"]), {"has": False, "code": 0}, s["fault"])
        c.judge_tables([t.data(s["scene"])], what="replay")
    elif "scene" in s:
        c.judge_tables([ops.scene_runs({"scene": s["scene"], "plan": {}, "faults": [s["fault"]], "mode": MODES.get(c.prop, ""), "seed": 0})], what="replay")
    elif "actions" in s:
        c.judge([(execute_twin if c.prop == "C15" else execute)(s)], [s], what="replay")
    else:
        props.judge_packs(c, [s], [packs.pack_run(s)])


def main(prop, level, body, replay=None):
    c = Check(prop, level)
    try:
        if replay:
            pool.prepare()
            again(c, replay)
            print("OK property=%s: the recorded violation does not happen" % prop)
            return 0
        pool.prepare()
        c.lap("built")
        body(c)
        c.join()
        c.evidence(0)
        print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (prop, c.tier, c.states, c.validated, time.time() - c.t0))
        if os.environ.get("VF_TIMES"):
            print(c.times, json.dumps(c.kinds))
        return 0
    except Violation as v:
        c.sample({"violation": v.what})
        if not replay:
            c.evidence(1)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        print("  " + v.what)
        return 1
    except Hung as h:    # neither success nor failure, which every property takes for granted
        if not replay:
            c.evidence(1)
        print("VIOLATION property=%s replay=%s" % (prop, c.save(getattr(h, "job", {}), 0, str(h), {})))
        print("  " + str(h))
        return 1
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s: the check could not decide" % prop)
        return 2
    finally:
        pool.close()
