"""Replay server: runs harnesses on concrete values against the unmodified
agentspeak package imported normally from /repo.  One JSON request per line."""

import importlib
import importlib.util
import json
import os
import signal
import sys
import threading

os.environ["SYMX_CONCRETE"] = "1"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def plain(n):
    """JSON-able form of a norm()."""
    if isinstance(n, tuple):
        if n and n[0] == "set":
            return ["set"] + sorted((plain(x) for x in n[1]), key=repr)
        return [plain(x) for x in n]
    if isinstance(n, float):
        return ["f", repr(n)]
    return n


def norm_alarm(signum, frame):
    from symx.api import ReplayStop
    raise ReplayStop("timeout")


def run(req):
    from symx import api
    h = api.HARNESSES[req["harness"]]
    sx = api.ConcSx(req["values"])
    status = "ok"
    detail = ""
    signal.signal(signal.SIGALRM, norm_alarm)
    signal.setitimer(signal.ITIMER_REAL, req.get("timeout", 20))
    try:
        h.fn(sx, **req["case"])
    except api.ReplayStop as e:
        status = str(e)
    except BaseException as e:
        import traceback
        status = "exception"
        detail = "%s: %s" % (type(e).__name__, e)
        if req.get("verbose"):
            detail += "\n" + traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {"status": status, "detail": detail[:4000],
            "failures": sx.failures, "checks": sx.nchecks,
            "obs": [[l, plain(n)] for l, n in sx.obs]}


def setup(prop):
    sys.setrecursionlimit(3000)
    from symx import loader
    loader.paths()
    import logging
    import warnings
    warnings.simplefilter("ignore")
    helper = os.path.join(REPO, "simse", "helper.py")
    if os.path.exists(helper):
        spec = importlib.util.spec_from_file_location("simse_helper", helper)
        sys.modules["simse_helper"] = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(sys.modules["simse_helper"])
    importlib.import_module("props." + prop.lower())
    logging.disable(logging.CRITICAL)
    import agentspeak
    assert os.path.dirname(os.path.abspath(agentspeak.__file__)) == os.path.join(REPO, "agentspeak"), agentspeak.__file__


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    setup(sys.argv[1])
    out.write("ready\n")
    for line in sys.stdin:
        req = json.loads(line)
        out.write(json.dumps(run(req)) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
