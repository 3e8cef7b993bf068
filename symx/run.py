"""Decides one property: symbolic exploration, replay, evidence."""
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# -- the child: explores a slice of the path tree -------------------------------
def explore(mod, items, slice_s, max_sample, known, seed, isolate):
    """items: [(hname, cfg, prefix)]; returns a result dictionary."""
    import z3

    from . import instrument
    from .common import in_repo, where
    from .engine import (Diverged, Engine, Inconclusive, PathAbort, Unsupported,
                         Violation)
    from .env import SymEnv, plain, reset_state

    z3.set_param("smt.random_seed", seed)
    cov = instrument.Coverage()
    cov.start()
    g = Engine()
    Engine.current = g
    res = {"done": [], "todo": [], "bad": [], "incon": [], "unsup": [], "samples": [],
           "diverged": [], "soft": []}
    t0 = time.perf_counter()
    stack = [tuple(i) for i in reversed(items)]
    sampled = {}
    times = {}
    while stack:
        if time.perf_counter() - t0 > slice_s:
            res["todo"] = list(reversed(stack))
            break
        hname, cfg, prefix = stack.pop()
        reset_state()
        g.start(prefix)
        env = SymEnv(g)
        env.known = known
        tp = time.perf_counter()
        where_ = None
        try:
            mod.HARNESSES[hname](env, cfg)
            exc = g.dead
        except (Exception, PathAbort, Inconclusive, Diverged) as e:
            exc = g.dead if g.dead is not None else e
            if isinstance(exc, Exception) and not isinstance(exc, Violation):
                where_ = where(exc)
                tb = "".join(traceback.format_exception(exc))[-3000:]
        g.quiet = True
        dt = time.perf_counter() - tp
        alts = g.alternatives(len(prefix))
        key = (hname, json.dumps(cfg, sort_keys=True, default=str))
        rec = [hname, cfg, prefix]
        tm = times.setdefault(key, [0, 0.0])
        tm[0] += 1
        tm[1] += dt
        if exc is None:
            g.stats.paths += 1
            res["done"].append((hname, sorted(env.covers), g.stats.assertions))
            for s in env.soft:
                res["soft"].append((hname, cfg, s[0], s[1]))
            if sampled.get(key, 0) < max_sample:
                sampled[key] = sampled.get(key, 0) + 1
                try:
                    g.dead = None
                    m = g.get_model()
                    res["samples"].append(
                        {"h": hname, "cfg": cfg, "values": g.values(m),
                         "obs": {k: plain(v, m) for k, v in env.obs.items()}}
                    )
                except (PathAbort, Inconclusive):
                    pass
        elif isinstance(exc, PathAbort):
            g.stats.aborted += 1
        elif isinstance(exc, Inconclusive):
            res["incon"].append((hname, cfg, str(exc)))
        elif isinstance(exc, Diverged):
            res["diverged"].append(rec)
            alts = []
        elif isinstance(exc, Violation):
            res["bad"].append({"h": hname, "cfg": cfg, "values": exc.model,
                               "label": exc.label, "kind": "check",
                               "prefix": prefix})
        else:
            try:
                g.dead = None
                vals = g.values(g.get_model())
                unsup = isinstance(exc, Unsupported)
                res["bad"].append({
                    "h": hname, "cfg": cfg, "values": vals,
                    "label": f"exception {type(exc).__name__} in {where_}",
                    "kind": "unsupported" if unsup else "exception",
                    "why": f"{type(exc).__name__}: {exc}"[:300], "tb": tb,
                    "prefix": prefix})
            except PathAbort:
                g.stats.aborted += 1
            except Inconclusive as e:
                res["incon"].append((hname, cfg, str(e)))
        for a in alts:
            stack.append((hname, cfg, a))
        if isolate:
            res["todo"] = list(reversed(stack))
            break
        if len([b for b in res["bad"] if b["kind"] != "unsupported"]) >= 4:
            res["todo"] = list(reversed(stack))
            break
    res["stats"] = g.stats.as_dict()
    res["times"] = times
    from . import engine

    res["forks"] = engine.FORKS
    res["functions"] = sorted(cov.seen)
    return res


def child(w, *args):
    try:
        data = pickle.dumps(explore(*args))
    except BaseException:
        data = pickle.dumps({"error": traceback.format_exc()})
    with os.fdopen(w, "wb") as f:
        f.write(data)
    os._exit(0)


# -- the native side --------------------------------------------------------------
class Native:
    def __init__(self, pid, hashseed="0"):
        env = dict(os.environ, PYTHONHASHSEED=hashseed)
        self.p = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "symx.native", pid],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=HERE, env=env, text=True,
            stderr=subprocess.DEVNULL if not os.environ.get("SYMX_DEBUG") else None,
        )
        self.ready = False

    def ask(self, batch):
        if not self.ready:
            l = self.p.stdout.readline()
            if not l:
                raise RuntimeError("the native process did not start")
            self.ready = True
        self.p.stdin.write(json.dumps(batch) + "\n")
        self.p.stdin.flush()
        r = json.loads(self.p.stdout.readline())
        if isinstance(r, dict):
            raise RuntimeError(r["error"])
        return r

    def one(self, b):
        return self.ask([{"h": b["h"], "cfg": b["cfg"], "values": b["values"]}])[0]

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()


def known_entries(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f) if e["property"] == pid and e["status"] == "known"]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    native = Native(pid)

    from . import instrument

    instrument.setup(True)
    from .common import load_harness

    try:
        mod = load_harness(pid)
    except Exception:
        # does the code load at all?
        traceback.print_exc()
        print(f"ERROR property={pid}: the harness does not load")
        return 2
    known = known_entries(pid)
    budget = mod.BUDGET[tier] if hasattr(mod, "BUDGET") else (
        {"quick": 90, "thorough": 600}[tier])
    nproc = int(os.environ.get("SYMX_PROCS", "8"))
    only = [a for a in argv[1:] if not a.startswith("-")]
    queue = [(h, c, []) for h, c in mod.configs(tier) if not only or h in only]
    n_cfg = len(queue)
    total = {}
    why = {}
    functions = set()
    samples, bad, incon, done, soft = [], [], [], {}, []
    covers = {}
    unsup = []
    per_h = {}
    running = {}
    isolated = []
    deadline = t0 + budget
    err = None
    confirmed = []
    known_hit = {}
    slice_s = 0.4
    validated = 0
    discarded = 0
    allforks = {}
    alltimes = {}
    max_val = {"quick": 60, "thorough": 300}[tier]

    def launch(items, isolate=False):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            child(w, mod, items, slice_s, 2, known, seed, isolate)
        os.close(w)
        running[r] = (p, bytearray(), items, isolate)

    def handle_bad(b, was_isolated):
        """Replay; returns a reproduced violation or None."""
        nonlocal err, discarded
        n = native.one(b)
        if n["outcome"] in ("violation", "exception"):
            b["native"] = n
            return b
        if b["kind"] in ("unsupported", "exception"):
            unsup.append((b["h"], b["why"], b.get("tb", "")))
            return None
        if not was_isolated:
            discarded += 1
            isolated.append((b["h"], b["cfg"], b["prefix"]))
            return None
        # other hash seeds: the order of sets is not modelled
        for hs in ("1", "2", "3"):
            alt = Native(pid, hs)
            try:
                n = alt.one(b)
            finally:
                alt.close()
            if n["outcome"] in ("violation", "exception"):
                b["native"], b["hashseed"] = n, hs
                return b
        err = f"not reproduced natively: {b['h']} {b['cfg']} {b['label']} {b['values']} -> {n}"
        return None

    timed_out = False
    while (queue or running or isolated) and not confirmed and err is None:
        now = time.time()
        if now > deadline:
            timed_out = True
            break
        while isolated and len(running) < nproc:
            launch([isolated.pop()], True)
        while queue and len(running) < nproc:
            k = max(1, min(len(queue) // (2 * nproc), 40))
            items, queue = queue[:k], queue[k:]
            launch(items)
        rs, _, _ = select.select(list(running), [], [], 0.5)
        for r in rs:
            p, buf, items, iso = running[r]
            data = os.read(r, 1 << 20)
            if data:
                buf.extend(data)
                continue
            os.close(r)
            del running[r]
            os.waitpid(p, 0)
            if not buf:
                err = f"a worker died on {items[:1]}"
                break
            res = pickle.loads(bytes(buf))
            if "error" in res:
                err = res["error"]
                break
            st = res["stats"]
            for k, v in st.items():
                if k == "unsupported_why":
                    continue
                total[k] = total.get(k, 0) + v
            functions.update(res["functions"])
            for k, (n, t) in res["times"].items():
                tm = alltimes.setdefault(k, [0, 0.0])
                tm[0] += n
                tm[1] += t
            for k, v in (res["forks"] or {}).items():
                allforks[k] = allforks.get(k, 0) + v
            for h, cs, na in res["done"]:
                d = done.setdefault(h, [0, 0])
                d[0] += 1
                d[1] = max(d[1], na)
                covers.setdefault(h, set()).update(cs)
            samples.extend(res["samples"])
            incon.extend(res["incon"])
            for h, c, label, vals in res["soft"]:
                known_hit.setdefault(label, {"h": h, "cfg": c, "values": vals, "label": label})
            for rec in res["diverged"]:
                if iso:
                    err = f"re-execution diverged: {rec}"
                else:
                    isolated.append(tuple(rec))
            queue.extend(res["todo"])
            for b in res["bad"]:
                c = handle_bad(b, iso)
                if c:
                    confirmed.append(c)
                    break
        if time.time() - t0 > 12:
            slice_s = 3.0
    for r, (p, *_a) in running.items():
        try:
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
        except OSError:
            pass
    # -- validation of sampled paths on the unpatched code
    sample_out = []
    if not confirmed and err is None:
        import random

        rng = random.Random(seed)
        byh = {}
        for s in samples:
            byh.setdefault((s["h"], json.dumps(s["cfg"], default=str)), []).append(s)
        pick = []
        groups = list(byh.values())
        rng.shuffle(groups)
        while groups and len(pick) < max_val:
            for g_ in list(groups):
                pick.append(g_.pop(0))
                if not g_:
                    groups.remove(g_)
                if len(pick) >= max_val:
                    break
        B = 8
        for i in range(0, len(pick), B):
            if time.time() - t0 > budget + 60:
                break
            batch = pick[i : i + B]
            try:
                rs = native.ask([{"h": s["h"], "cfg": s["cfg"], "values": s["values"]} for s in batch])
            except RuntimeError as e:
                err = str(e)
                break
            for s, n in zip(batch, rs):
                if n["outcome"] in ("violation", "exception"):
                    # the encoding missed it, but the code does fail on this input
                    confirmed.append({"h": s["h"], "cfg": s["cfg"], "values": s["values"],
                                      "label": n["label"], "native": n, "kind": "validation"})
                elif n["outcome"] == "abort":
                    err = f"a path is not feasible natively: {s} {n}"
                else:
                    a = json.loads(json.dumps(s["obs"]))
                    if a != n["obs"]:
                        err = f"encoding and code disagree on {s['h']} {s['cfg']} {s['values']}:\n  {a}\n  {n['obs']}"
                    else:
                        validated += 1
                        if len(sample_out) < 6:
                            sample_out.append({"harness": s["h"], "configuration": s["cfg"], "inputs": s["values"], "observed": n["obs"]})
            if confirmed or err:
                break
    # -- known findings must still fail natively to be announced
    kf = []
    for e in known:
        hit = known_hit.get(e["label"])
        if hit:
            n = native.one(hit)
            if n["outcome"] == "ok" and any(s[0] == e["label"] for s in n.get("soft", [])):
                kf.append(e)
    native.close()
    exhaustive = not timed_out and not incon and not unsup and not total.get("incomplete") and not confirmed
    hs = sorted({h for h, _c in mod.configs(tier)} if not only else set(only))
    vacuous = [h for h in hs if done.get(h, [0, 0])[0] == 0 or done[h][1] == 0]
    if err is None and not confirmed and vacuous and not timed_out:
        err = f"vacuous: no complete path with an assertion in {vacuous}"
    need = getattr(mod, "COVERS", {})
    missing = [(h, c) for h, cs in need.items() if h in hs for c in cs if c not in covers.get(h, ())]
    if err is None and not confirmed and missing and not timed_out:
        err = f"vacuous: never reached {missing}"
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total.get("paths", 0),
            "transitions": total.get("branches", 0),
            "traces_validated_against_impl": validated,
            "samples": sample_out,
            "exhaustive": bool(exhaustive),
            "bounds": mod.BOUNDS,
            "configurations": n_cfg,
            "paths_per_harness": {h: d[0] for h, d in done.items()},
            "infeasible_paths": total.get("aborted", 0),
            "forks": total.get("forks", 0),
            "concretised": total.get("concretised", 0),
            "queries": total.get("queries", 0),
            "queries_sat": total.get("sat", 0),
            "queries_unsat": total.get("unsat", 0),
            "assertions_discharged": total.get("assertions", 0),
            "solver_s": round(total.get("solver_s", 0.0), 3),
            "functions_encoded": sorted(functions),
            "reached": {h: sorted(c) for h, c in covers.items() if c},
            "paths_without_encoding": len(unsup),
            "paths_without_encoding_reasons": sorted({w for _h, w, _t in unsup})[:10],
            "values_sampled_at_boundary": total.get("incomplete", 0),
            "solver_unknown": len(incon),
            "isolated_reruns": discarded,
            "budget_exhausted": timed_out,
            "counting": "states = complete symbolic paths, transitions = branch decisions on symbolic values",
        },
        "assumptions": COMMON + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    if err:
        ev["coverage"]["error"] = str(err)[:2000]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
    print(f"{pid} [{tier}] {n_cfg} configurations, {total.get('paths', 0)} paths, "
          f"{total.get('branches', 0)} decisions, {total.get('queries', 0)} queries, "
          f"{total.get('assertions', 0)} assertions, solver {total.get('solver_s', 0):.1f}s, "
          f"{validated} paths replayed, {len(unsup)} without encoding, "
          f"{len(incon)} unknown, exhaustive={exhaustive}, {wall:.1f}s")
    for k, v in sorted(allforks.items(), key=lambda i: -i[1])[:25]:
        print("FORK", v, *k)
    if os.environ.get("SYMX_TIMES"):
        for k, (n, t) in sorted(alltimes.items(), key=lambda i: -i[1][1])[:15]:
            print(f"TIME {t:7.1f}s {n:6d} paths {k[0]} {k[1]}")
    if os.environ.get("SYMX_DEBUG"):
        for h, w, tb in unsup[:5]:
            print("UNSUP", h, w)
            print(tb)
        for i in incon[:5]:
            print("UNKNOWN", i)
    for e in kf:
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    if confirmed:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for k, b in enumerate(confirmed[:3]):
            path = os.path.join(rd, f"{pid}-{k}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "harness": b["h"], "cfg": b["cfg"],
                           "values": b["values"], "label": b["label"],
                           "native": b["native"],
                           "how": "./check --replay " + os.path.relpath(path, HERE)},
                          f, indent=1, default=str)
            print(f"  {b['h']} {b['cfg']}: {b['label']}; natively: {b['native']['label']}")
            print(f"  with {json.dumps(b['values'], sort_keys=True)}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if err:
        print(f"ERROR property={pid}: {err}")
        return 2
    return 0


COMMON = [
    "Symbolic runs replace sympy Rational by a z3 real/rational proxy and switch sympy's cache off; every reported violation is replayed on the uninstrumented code.",
    "Hash values of symbolic numbers and texts are collapsed to a constant, so dictionary and set lookups are decided by equality alone (set order is the one this induces).",
    "Progress bars and printing are stubbed; flavio, wilson, democratic.p and models.p, which are not part of this copy, are replaced by empty stand-ins where needed.",
]


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        print(f"ERROR property={sys.argv[1]}: internal error")
        code = 2
    sys.stdout.flush()
    os._exit(code)
