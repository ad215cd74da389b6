"""Runner: ./check PID [quick|thorough] | ./check PID --replay FILE."""
from __future__ import annotations

import ast
import faulthandler
import hashlib
import importlib
import json
import os
import pickle
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402

T0 = time.perf_counter()
REPLAYS = os.path.join(env.VERIF, "replays")


def find_module(pid):
    d = os.path.join(env.VERIF, "checks")
    for fn in sorted(os.listdir(d)):
        if fn.startswith(pid.lower() + "_") and fn.endswith(".py"):
            return fn[:-3]
    raise SystemExit(f"no check for {pid}")


class CaseHang(BaseException):
    pass


def _alarm(*_):
    raise CaseHang()


def innermost(tb):
    """'repo', 'verif' or 'other': owner of the innermost frame that is one of ours."""
    owner = "other"
    for fs in traceback.extract_tb(tb):
        fn = os.path.realpath(fs.filename)
        if fn.startswith(os.path.realpath(env.REPO) + os.sep):
            owner = "repo"
        elif fn.startswith(env.VERIF + os.sep):
            owner = "verif"
    return owner


def run_case(sub, case, ctx):
    """Run one case; returns None or raises Violation (everything the tree is to blame for)."""
    from core import HARNESS, Violation
    import vtime

    signal.alarm(sub.case_timeout)
    HARNESS.clear()
    try:
        try:
            sub.check(case, ctx)
        finally:
            if HARNESS:
                raise HARNESS[0]
    except Violation:
        raise
    except vtime.Hang as ex:
        raise Violation(f"hang: {ex}") from ex
    except CaseHang as ex:
        raise Violation(f"no result after {sub.case_timeout}s of CPU-bound work") from ex
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as ex:  # noqa: BLE001
        mod = type(ex).__module__ or ""
        if mod.startswith("hypothesis"):
            raise
        if innermost(ex.__traceback__) == "repo":
            frames = [f for f in traceback.extract_tb(ex.__traceback__)]
            raise Violation(
                f"unexpected {type(ex).__name__}: {ex} at {frames[-1].filename}:{frames[-1].lineno}"
            ) from ex
        if isinstance(ex, (LookupError, AttributeError, TypeError, ValueError, AssertionError)):
            # checks and simulators do not fail on what the unchanged tree does: something the tree sent,
            # returned or left out is not of the shape every case relies on
            at = traceback.extract_tb(ex.__traceback__)[-1]
            raise Violation(f"the tree's behaviour cannot be interpreted: {type(ex).__name__}: {ex} at "
                            f"{os.path.basename(at.filename)}:{at.lineno} ({at.line})") from ex
        raise
    finally:
        signal.alarm(0)


def worker(pid, modname, subname, n, seed, shard, shards, tier, wfd):
    """Child process: run one shard of one sub-check, write a pickled result to wfd."""
    faulthandler.enable()
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    res = {"sub": subname, "shard": shard, "evals": 0, "extra": 0, "keys": set(), "labels": {},
           "samples": [], "violation": None, "error": None, "wall": 0.0}
    t0 = time.perf_counter()
    try:
        from core import Ctx, Violation

        mod = importlib.import_module(modname)
        sub = next(s for s in mod.SUBS if s.name == subname)
        ctx = Ctx()
        last = {}

        def one(case):
            ctx.start()
            try:
                run_case(sub, case, ctx)
            except Violation as v:
                last["case"] = case
                last["msg"] = str(v)
                last["tb"] = traceback.format_exc()
                raise
            if last:
                return  # shrinking: do not count
            res["evals"] += 1
            key = hashlib.blake2b(repr(case).encode(), digest_size=8).digest()
            new = key not in res["keys"]
            for lb in ctx.case_labels:
                res["labels"][lb] = res["labels"].get(lb, 0) + 1
            if ctx.nontrivial_case:
                if new:
                    res["keys"].add(key)
                    if len(res["samples"]) < 2:
                        res["samples"].append(repr(case)[:700])
            else:
                res["labels"]["(trivial)"] = res["labels"].get("(trivial)", 0) + 1

        if sub.cases is not None:
            allc = list(sub.cases(tier))
            try:
                for i, case in enumerate(allc):
                    if i % shards == shard:
                        one(case)
            except Violation:
                pass
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings

            phases = [Phase.generate, Phase.shrink]
            if os.environ.get("VERIF_NO_SHRINK"):
                phases = [Phase.generate]

            @hypothesis.seed(seed * 1000 + shard)
            @settings(max_examples=max(1, n), database=None, deadline=None,
                      suppress_health_check=list(HealthCheck), phases=phases, print_blob=False,
                      report_multiple_bugs=False, derandomize=False)
            @given(sub.strategy())
            def test(case):
                one(case)

            try:
                test()
            except Violation:
                pass
            except BaseException as ex:  # noqa: BLE001
                nm = type(ex).__name__
                if last and nm in ("Flaky", "FlakyFailure", "FlakyReplay", "ExceptionGroup",
                                   "BaseExceptionGroup"):
                    last["msg"] += " (did not fail identically when repeated)"
                else:
                    raise
        res["extra"] = ctx.extra_evals
        if last:
            res["violation"] = last
    except BaseException as ex:  # noqa: BLE001
        res["error"] = f"{type(ex).__name__}: {ex}\n{traceback.format_exc()}"
    res["wall"] = time.perf_counter() - t0
    with os.fdopen(wfd, "wb") as f:
        pickle.dump(res, f)


def run_jobs(jobs, nproc):
    """jobs: list of argument tuples for worker (without wfd)."""
    import select

    pending = list(jobs)
    live = {}
    results = []
    poller = select.poll()
    bufs = {}
    while pending or live:
        while pending and len(live) < nproc:
            job = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    worker(*job, w)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 70
                os._exit(code)
            os.close(w)
            live[r] = (pid, job)
            bufs[r] = b""
            poller.register(r, select.POLLIN | select.POLLHUP)
        for fd, _ev in poller.poll(1000):
            chunk = os.read(fd, 1 << 20)
            if chunk:
                bufs[fd] += chunk
                continue
            poller.unregister(fd)
            os.close(fd)
            pid, job = live.pop(fd)
            _, status = os.waitpid(pid, 0)
            data = bufs.pop(fd)
            try:
                results.append(pickle.loads(data))
            except Exception as ex:  # noqa: BLE001
                results.append({"sub": job[2], "shard": job[5], "evals": 0, "extra": 0,
                                "keys": set(), "labels": {}, "samples": [], "violation": None,
                                "wall": 0.0,
                                "error": f"worker died: status {status}, {ex!r}"})
    return results


def known_findings(pid):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k["property"] == pid and k["status"] == "open"]


def save_replay(pid, sub, seed, v):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.blake2b((sub + repr(v["case"])).encode(), digest_size=5).hexdigest()
    path = os.path.join(REPLAYS, f"{pid}-{sub}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": sub, "seed": seed, "message": v["msg"],
                   "case": repr(v["case"]), "how": f"./check {pid} --replay {path}",
                   "traceback": v.get("tb", "")[-4000:]}, f, indent=1)
    return path


def replay(pid, path):
    from core import Ctx, Violation

    signal.signal(signal.SIGALRM, _alarm)
    d = json.load(open(path))
    mod = importlib.import_module(find_module(pid))
    sub = next(s for s in mod.SUBS if s.name == d["sub"])
    case = ast.literal_eval(d["case"])
    try:
        run_case(sub, case, Ctx())
    except Violation as v:
        print(f"{sub.name}: {v}")
        if os.environ.get("VERIF_TB"):
            traceback.print_exc()
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replay: property held")
    return 0


def main(argv):
    pid = argv[0]
    try:
        env.import_kasa(pid)
        if pid in env.WITHOUT:
            importlib.import_module(find_module(pid))
    except Exception as ex:
        if pid not in env.WITHOUT:
            raise
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{pid}-import.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "sub": "import", "case": list(env.WITHOUT[pid]), "message": repr(ex)}, f)
        print(f"import without {', '.join(env.WITHOUT[pid])}: {ex!r}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(pid, os.path.abspath(argv[2]))
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise SystemExit(f"bad tier {tier}")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = argv[2] if len(argv) > 2 else None
    modname = find_module(pid)
    mod = importlib.import_module(modname)
    nproc = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    jobs = []
    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        n = sub.quick if tier == "quick" else sub.thorough
        n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1"))))
        shards = sub.shards if tier == "quick" else (sub.tshards or max(sub.shards, 8))
        if sub.cases is None:
            shards = max(1, min(shards, n))
        for sh in range(shards):
            jobs.append((pid, modname, sub.name, (n + shards - 1) // shards, seed, sh, shards, tier))
    results = run_jobs(jobs, nproc)

    errors = [r for r in results if r["error"]]
    viols = [r for r in results if r["violation"]]
    rc = 0
    for k in known_findings(pid):
        fn = getattr(mod, "KNOWN", {}).get(k["id"])
        if fn is None:
            errors.append({"sub": k["id"], "error": "known finding without a probe"})
            continue
        if fn():
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            print(f"note: known finding {k['id']} no longer reproduces")
    seen = set()
    for r in viols:
        if r["sub"] in seen:
            continue
        seen.add(r["sub"])
        path = save_replay(pid, r["sub"], seed, r["violation"])
        print(f"{r['sub']}: {r['violation']['msg']}"[:1500])
        print(f"  case: {r['violation']['case']!r}"[:2500])
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    if not viols and errors:
        rc = 2
    for e in {(e["sub"], e["error"]): e for e in errors}.values():
        print(f"ERROR in {e['sub']}: {e['error']}"[:2500], file=sys.stderr)

    ev = sum(r["evals"] + r["extra"] for r in results)
    subs = {}
    for r in results:
        s = subs.setdefault(r["sub"], {"evaluations": 0, "nontrivial": set(), "classes": {}, "wall_s": 0})
        s["evaluations"] += r["evals"] + r["extra"]
        s["nontrivial"] |= r["keys"]
        s["wall_s"] = round(s["wall_s"] + r["wall"], 2)
        for k, v in r["labels"].items():
            s["classes"][k] = s["classes"].get(k, 0) + v
    samples = []
    for r in results:
        if r["samples"] and not any(x["check"] == r["sub"] for x in samples):
            samples.append({"check": r["sub"], "case": r["samples"][-1]})
    rule = getattr(mod, "RULE", "") + " Per check: " + "; ".join(
        f"{s.name}: {s.rule}" for s in mod.SUBS if s.rule)
    nontrivial = 0
    for s in subs.values():
        s["nontrivial"] = len(s["nontrivial"])
        nontrivial += s["nontrivial"]
        s["classes"] = dict(sorted(s["classes"].items(), key=lambda kv: -kv[1])[:40])
    evd = {
        "property": pid, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nontrivial, "rule": rule.strip(),
            "samples": samples, "checks": subs,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.perf_counter() - T0, 2),
        "violations": len(seen),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evd, f, indent=1)
    if os.environ.get("VERIF_SHOW"):
        for name, s in subs.items():
            print(f"{name}: {s['evaluations']} evals, {s['nontrivial']} nontrivial, "
                  f"{s['wall_s']}s, {s['classes']}")
    print(f"{pid} {tier} seed={seed}: {ev} evaluations, {nontrivial} distinct non-trivial, "
          f"{len(seen)} violations, {evd['wall_s']}s")
    return rc


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
