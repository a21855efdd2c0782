#!/usr/bin/env python3
"""Run the check of one property:  run.py C01   |   run.py --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import boot  # noqa: E402

boot.reexec()
boot.setup()

import hashlib  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import pickle  # noqa: E402
import select  # noqa: E402
import signal  # noqa: E402
import subprocess  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402
from collections import Counter  # noqa: E402

T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SCALE = float(os.environ.get("VH_SCALE", "1"))
# generation stops at this age (only reached on an overloaded machine)
BUDGET = float(os.environ.get("VH_BUDGET", "330" if TIER == "quick" else "3000"))
SHRINK_BUDGET = 40.0
HARD = 800.0 if TIER == "quick" else 6000.0
NPROC = int(os.environ.get("VH_NPROC", str(os.cpu_count() or 4)))


def load(pid):
    mod = importlib.import_module(f"checks.{pid.lower()}")
    return mod


class _Stop(BaseException):
    pass


class HarnessError(Exception):
    pass


def norm_case(case):
    return json.loads(json.dumps(case))


def run_case(sub, case):
    """Evaluate one case; returns (ctx, error or None)."""
    from vh.core import Ctx
    from hypothesis.errors import HypothesisException

    ctx = Ctx()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            sub.run(case, ctx)
        except (MemoryError, ImportError, HypothesisException) as e:
            raise HarnessError(f"{type(e).__name__}: {e}") from e
        except Exception as e:
            return ctx, e
    return ctx, None


def describe(e):
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    return f"{type(e).__name__}: {e}", "".join(tb)[-4000:]


def job(pid, sub, shard):
    """One Hypothesis run; returns a result dictionary."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    total = sub.quick if TIER == "quick" else sub.thorough
    n = max(1, int(round(total * SCALE / sub.shards)))
    h = hashlib.sha256(f"{SEED}/{pid}/{sub.name}/{shard}".encode()).digest()
    seed = int.from_bytes(h[:6], "big")

    res = dict(sub=sub.name, shard=shard, evals=0, nontrivial=set(), tags=Counter(), samples=[],
               skipped=0, fails=0, case=None, error=None, trace=None, distinct=set())
    best = {"key": None, "since": None}

    def evaluate(case):
        case = norm_case(case)
        if best["since"] is None and time.time() - T0 > BUDGET:
            res["skipped"] += 1
            return
        if best["since"] is not None and time.time() - best["since"] > SHRINK_BUDGET:
            raise _Stop()
        ctx, err = run_case(sub, case)
        text = json.dumps(case, sort_keys=True)
        if best["since"] is None:
            res["evals"] += 1
            digest = hashlib.sha1(text.encode()).digest()[:10]
            res["distinct"].add(digest)
            if ctx.nontrivial:
                if digest not in res["nontrivial"] and len(res["samples"]) < 2 and len(text) < 1500:
                    res["samples"].append(case)
                res["nontrivial"].add(digest)
            res["tags"].update(set(ctx.tags))
        if err is not None:
            res["fails"] += 1
            if best["since"] is None:
                best["since"] = time.time()
            key = (len(text), text)
            if best["key"] is None or key < best["key"]:
                best["key"] = key
                res["case"] = case
                res["error"], res["trace"] = describe(err)
            raise err

    try:
        if shard == 0:
            for c in sub.examples:
                evaluate(c)

        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                  report_multiple_bugs=False, phases=(Phase.generate, Phase.target, Phase.shrink),
                  suppress_health_check=list(HealthCheck))
        @given(sub.strategy)
        def prop(case):
            evaluate(case)

        prop()
    except _Stop:
        pass
    except HarnessError as e:
        res["harness"] = describe(e)
    except Exception as e:
        if res["case"] is None:
            res["harness"] = describe(e)
    return res


def spawn(pid, sub, shard):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    p = os.fork()
    if p == 0:
        code = 0
        try:
            os.setsid()
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            if not os.environ.get("VH_DEBUG"):
                os.dup2(devnull, 2)
            t = time.time()
            try:
                out = job(pid, sub, shard)
            except BaseException as e:
                out = dict(sub=sub.name, shard=shard, harness=describe(e))
            out["wall"] = time.time() - t
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return p, r


def run_jobs(pid, subs):
    jobs = [(s, k) for s in subs for k in range(s.shards)]
    # long shards first
    results, running = [], {}
    stop = False
    while jobs or running:
        while jobs and len(running) < NPROC and not stop:
            sub, k = jobs.pop(0)
            p, r = spawn(pid, sub, k)
            running[r] = [p, sub, k, b""]
        if stop:
            jobs = []
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            ent = running[fd]
            if chunk:
                ent[3] += chunk
                continue
            os.close(fd)
            _, status = os.waitpid(ent[0], 0)
            del running[fd]
            try:
                out = pickle.loads(ent[3])
            except Exception:
                out = dict(sub=ent[1].name, shard=ent[2],
                           harness=(f"worker died, status {status}", ""))
            results.append(out)
            if out.get("case") is not None:
                stop = True
        if stop:  # a violation is at hand: end the others
            for fd, ent in list(running.items()):
                try:
                    os.killpg(ent[0], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.close(fd)
                os.waitpid(ent[0], 0)
            running = {}
        if time.time() - T0 > HARD:
            for fd, ent in running.items():
                try:
                    os.killpg(ent[0], signal.SIGKILL)
                except ProcessLookupError:
                    pass
            print("time limit of the harness reached: inconclusive", file=sys.stderr)
            sys.exit(2)
    return results


def known_lines(pid):
    path = os.path.join(boot.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"known: property={pid} "):
                out.append(line.strip())
    return out


def main_check(pid):
    mod = load(pid)
    only = os.environ.get("VH_SUB")
    subs = [s for s in mod.SUBS if not only or s.name in only.split(",")]
    results = run_jobs(pid, subs)

    harness = [r for r in results if r.get("harness")]
    viol = sorted([r for r in results if r.get("case") is not None], key=lambda r: len(json.dumps(r["case"])))

    # ------------------------------------------------------------- evidence
    per = {}
    for r in results:
        if "evals" not in r:
            continue
        d = per.setdefault(r["sub"], dict(evaluations=0, nontrivial=set(), distinct=set(), tags=Counter(),
                                          samples=[], skipped=0, wall_s=0.0))
        d["evaluations"] += r["evals"]
        d["nontrivial"] |= r["nontrivial"]
        d["distinct"] |= r["distinct"]
        d["tags"] += r["tags"]
        d["samples"] += r["samples"][:1]
        d["skipped"] += r["skipped"]
        d["wall_s"] += r["wall"]
    rules = {s.name: s.rule for s in subs}
    cov = dict(
        evaluations=sum(d["evaluations"] for d in per.values()),
        distinct_nontrivial=sum(len(d["nontrivial"]) for d in per.values()),
        rule="cases are drawn by Hypothesis strategies (one per part, see DESIGN.md); non-trivial per part: "
             + "; ".join(f"[{k}] {v}" for k, v in rules.items()),
        samples=[dict(part=k, case=c) for k, d in per.items() for c in d["samples"][:1]][:12],
        parts={k: dict(evaluations=d["evaluations"], distinct=len(d["distinct"]),
                       distinct_nontrivial=len(d["nontrivial"]), skipped_over_budget=d["skipped"],
                       cpu_s=round(d["wall_s"], 1), classes=dict(d["tags"].most_common(40)))
               for k, d in per.items()},
    )
    ev = dict(property=pid, tier=TIER, seed=SEED, level="exploration", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - T0, 2),
              violations=len(viol))
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    # ------------------------------------------------------- known findings
    known = {k.id: k for k in getattr(mod, "KNOWN", [])}
    for line in known_lines(pid):
        kid = line.split("id=")[1].split()[0]
        if kid not in known:
            print(f"known finding {kid} has no reproduction", file=sys.stderr)
            sys.exit(2)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if known[kid].still_fails():
                print(f"KNOWN-FINDING: property={pid} {line.split('what=', 1)[1]}")

    # ----------------------------------------------------------- violations
    if viol:
        rep_dir = os.path.join(boot.VERIF, "replays")
        os.makedirs(rep_dir, exist_ok=True)
        for r in viol:
            path = os.path.join(rep_dir, f"{pid}-{r['sub']}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, sub=r["sub"], case=r["case"], error=r["error"],
                               trace=r["trace"]), f, indent=1)
            p = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path],
                               capture_output=True, text=True)
            if p.returncode == 1 or r["fails"] >= 2:
                print(f"part {r['sub']}: {r['error'][:1500]}")
                if p.returncode != 1:
                    print("note: depends on the history of the process (did not fail alone in a fresh process)")
                print(f"VIOLATION property={pid} replay={path}")
                return 1
            print(f"failure of {r['sub']} did not reproduce: {r['error']}\n{r['trace']}", file=sys.stderr)
        return 2
    if harness:
        for r in harness:
            print(f"harness error in {r['sub']}/{r['shard']}: {r['harness'][0]}\n{r['harness'][1]}", file=sys.stderr)
        return 2
    skipped = sum(d["skipped"] for d in per.values())
    print(f"{pid}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial"
          + (f", {skipped} skipped over time budget" if skipped else "")
          + f") in {time.time() - T0:.1f} s")
    if os.environ.get("VH_VERBOSE"):
        for k, v in cov["parts"].items():
            print("  ", k, v)
    return 0


def main_replay(path):
    d = json.load(open(path))
    mod = load(d["property"])
    sub = {s.name: s for s in mod.SUBS}[d["sub"]]
    ctx, err = run_case(sub, norm_case(d["case"]))
    if err is None:
        print("replay: the property holds on this case")
        return 0
    print("replay:", *describe(err), sep="\n")
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            rc = main_replay(sys.argv[2])
        else:
            rc = main_check(sys.argv[1])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
