"""Runs harnesses on concrete values against the unpatched code of /repo.

Server: one JSON request per line on stdin, one JSON answer per line on stdout.
Each request is served in a fresh fork.
"""
import json
import os
import sys
import traceback

from . import instrument
from .common import load_harness, where
from .engine import PathAbort, Violation
from .env import ConcEnv, plain, reset_state


KNOWN = []


def run_one(mod, hname, cfg, values):
    env = ConcEnv(values)
    env.known = KNOWN
    reset_state()
    try:
        mod.HARNESSES[hname](env, cfg)
    except Violation as v:
        return {"outcome": "violation", "label": v.label, "obs": {}}
    except PathAbort as a:
        return {"outcome": "abort", "label": str(a), "obs": {}}
    except Exception as e:
        return {
            "outcome": "exception",
            "label": f"exception {type(e).__name__} in {where(e)}",
            "detail": "".join(traceback.format_exception(e))[-4000:],
            "obs": {},
        }
    return {
        "outcome": "ok",
        "label": "",
        "soft": env.soft,
        "obs": {k: plain(v) for k, v in env.obs.items()},
        "covers": sorted(env.covers),
    }


def serve(pid):
    from .run import known_entries

    KNOWN.extend(known_entries(pid))
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    instrument.setup(False)
    mod = load_harness(pid)
    print(json.dumps({"ready": True}), file=out, flush=True)
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pidc = os.fork()
        if pidc == 0:
            os.close(r)
            code = 1
            try:
                res = [run_one(mod, q["h"], q["cfg"], q["values"]) for q in req]
                with os.fdopen(w, "w") as f:
                    f.write(json.dumps(res))
                code = 0
            except BaseException:
                traceback.print_exc()
            os._exit(code)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pidc, 0)
        print(data if data else json.dumps({"error": "native run died"}), file=out, flush=True)


def replay(path):
    with open(path) as f:
        v = json.load(f)
    instrument.setup(False)
    mod = load_harness(v["property"])
    r = run_one(mod, v["harness"], v["cfg"], v["values"])
    print(f"property {v['property']}, harness {v['harness']}, configuration {v['cfg']}")
    print("values:", json.dumps(v["values"], sort_keys=True))
    print("outcome:", r["outcome"], r["label"])
    if "detail" in r:
        print(r["detail"])
    return 1 if r["outcome"] in ("violation", "exception") else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    serve(sys.argv[1])
