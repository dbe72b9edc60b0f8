"""Run scenarios on all cores; every worker has its own scripted S3 server."""
import multiprocessing, os, shutil, tempfile, traceback

from . import build, core, s3 as s3mod
from .build import ToolError

TOOLS = None
_s3 = None
_s3pid = None
_pool = None
_base = None


def server():
    global _s3, _s3pid
    if _s3 is None or _s3pid != os.getpid():
        _s3, _s3pid = s3mod.S3(TOOLS[2][1]), os.getpid()
    return _s3


def prepare(procs=8):
    """build, and fork the workers (before there are any threads)"""
    global TOOLS, _pool, _base
    TOOLS = (build.binary(), build.shim(), build.certs())
    from . import check, hist, ops, props  # noqa: F401  (workers look functions up here)
    core.BASE = _base = tempfile.mkdtemp(prefix="vf-", dir=core.BASE)
    _pool = multiprocessing.get_context("fork").Pool(procs)
    return TOOLS


def close():
    if _pool is not None:
        _pool.terminate()
        _pool.join()
        shutil.rmtree(_base, ignore_errors=True)


def _call(job):
    f, x = job
    try:
        return ("ok", f(x))
    except build.Hung as e:
        return ("hung", str(e))
    except Exception:
        return ("error", traceback.format_exc())


def run(f, xs):
    """[f(x) for x in xs] in parallel; f must be a function of a module of this package"""
    xs = list(xs)
    if not xs:
        return []
    out = []
    for x, (k, v) in zip(xs, _pool.imap(_call, [(f, x) for x in xs], chunksize=1 if len(xs) < 1500 else 8)):
        if k == "error":
            raise ToolError(v)
        if k == "hung":
            e = build.Hung(v)
            e.job = {"call": [f.__module__, f.__name__], "job": x}
            raise e
        out.append(v)
    return out
