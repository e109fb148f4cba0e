"""Entry point: run the check of one property; see run.sh."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
warnings.simplefilter("ignore")

from vbtcheck import core  # noqa: E402

SHRINK_S = {"quick": 40.0, "thorough": 120.0}
DEADLINE_S = {"quick": 560.0, "thorough": float(os.environ.get("VERIF_THOROUGH_S", "3000"))}
HANG_S = 240.0
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def load_known(prop):
    path = os.path.join(core.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [d for d in data.get("findings", []) if d["property"] == prop]


def save_replay(prop, facet, case, msg, seed):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.json" % (prop, facet, core.chash(case)))
    with open(p, "w") as f:
        json.dump({"property": prop, "facet": facet, "case": case, "message": msg, "seed": seed,
                   "replay_cmd": "bash run.sh %s --replay %s" % (prop, p)}, f, indent=1)
    return p


def task_main(facet, n, seed, known, out, cur, deadline, shrink_s):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    try:
        r = core.Runner(facet, n, seed, known, cur, deadline, shrink_s).run()
    except BaseException:
        r = dict(facet=facet.name, evaluations=0, nontrivial=0, hashes=[], labels={}, samples=[],
                 known_hits={}, truncated=False, fail=None, herr=traceback.format_exc())
    with open(out + ".tmp", "w") as f:
        json.dump(r, f)
    os.rename(out + ".tmp", out)


def run_tasks(tasks, jobs):
    """tasks: list of dict(fn args); runs each in a forked process; returns results."""
    pending = list(tasks)
    running = {}
    results = []
    while pending or running:
        while pending and len(running) < jobs:
            t = pending.pop(0)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    task_main(t["facet"], t["n"], t["seed"], t["known"], t["out"], t["cur"], t["deadline"],
                              t["shrink_s"])
                    code = 0
                finally:
                    os._exit(code)
            t["start"] = time.time()
            running[pid] = t
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            now = time.time()
            for p, t in list(running.items()):
                try:
                    started = os.stat(t["cur"]).st_mtime
                except OSError:
                    started = t["start"]
                if now - started > t["hang_s"]:
                    t["hung"] = True
                    os.kill(p, 9)
            continue
        t = running.pop(pid, None)
        if t is None:
            continue
        t["wall"] = time.time() - t["start"]
        if os.path.exists(t["out"]):
            with open(t["out"]) as f:
                r = json.load(f)
        else:
            r = dict(facet=t["facet"].name, evaluations=0, nontrivial=0, hashes=[], labels={}, samples=[],
                     known_hits={}, truncated=False, fail=None, herr=None)
            case = None
            try:
                with open(t["cur"]) as f:
                    case = json.load(f)["case"]
            except Exception:
                pass
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
            if t.get("hung") and case is not None:
                r["fail"] = dict(case=case, msg="the case did not finish within %.0f s" % t["hang_s"])
            elif sig in (11, 6, 8, 7, 4) and case is not None:
                r["fail"] = dict(case=case, msg="the process died with signal %d on this case" % sig)
            else:
                r["herr"] = "worker ended with status %d" % status
        r["wall"] = t["wall"]
        r["shard"] = t["shard"]
        results.append(r)
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--facet", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    core.setup_path()
    import vectorbt as vbt
    if not os.path.abspath(vbt.__file__).startswith(core.REPO + os.sep):
        print("error: vectorbt imported from %s, not %s" % (vbt.__file__, core.REPO))
        return 3
    t_import = time.time() - t0
    mod = importlib.import_module("vbtcheck.checks.%s" % a.prop.lower())
    facets = mod.FACETS
    byname = {f.name: f for f in facets}
    findings = load_known(a.prop)

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        f = byname[rp["facet"]]
        try:
            labels = f.check(core.canon(rp["case"]))
        except core.Violation as e:
            print(e.msg)
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        except Exception:
            traceback.print_exc(file=sys.stdout)
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        print("held; labels:", sorted(set(labels or [])))
        return 0

    # listed findings: replay the exact failing case
    for k in findings:
        f = byname[k["facet"]]
        try:
            f.check(core.canon(k["case"]))
            print("note: listed finding %s no longer fails" % k["sig"])
        except core.Violation as e:
            if e.sig == k["sig"]:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
            else:
                print(e.msg)
                p = save_replay(a.prop, f.name, k["case"], e.msg, a.seed)
                print("VIOLATION property=%s replay=%s" % (a.prop, p))
                return 1
    known = {k["sig"] for k in findings}

    sel = [f for f in facets if not a.facet or f.name in a.facet]
    tasks = []
    deadline = t0 + DEADLINE_S[tier]
    for fi, f in enumerate(sel):
        n = f.quick if tier == "quick" else f.thorough
        n = max(1, int(n * a.scale))
        shards = f.shards if tier == "quick" else f.tshards
        per = max(1, (n + shards - 1) // shards)
        for s in range(shards):
            import zlib
            seed = (a.seed * 1000003 + zlib.crc32(("%s/%s/%d" % (a.prop, f.name, s)).encode())) & 0x7FFFFFFF
            tag = os.path.join(core.SCRATCH, "%s.%d" % (f.name, s))
            tasks.append(dict(facet=f, n=per, seed=seed, known=known, out=tag + ".out", cur=tag + ".cur",
                              deadline=deadline, shard=s, hang_s=HANG_S, shrink_s=SHRINK_S[tier]))
    # long facets first
    results = run_tasks(tasks, JOBS)
    rc = 0
    per_facet = {}
    samples = []
    violations = []
    total_ev = total_nt = 0
    for f in sel:
        rs = [r for r in results if r["facet"] == f.name]
        hs = set()
        lab = {}
        ev = 0
        for r in rs:
            ev += r["evaluations"]
            hs.update(r["hashes"])
            for k, v in r["labels"].items():
                lab[k] = lab.get(k, 0) + v
        total_ev += ev
        total_nt += len(hs)
        per_facet[f.name] = dict(cases=ev, distinct_nontrivial_cases=len(hs), rule=f.rule,
                                 labels=dict(sorted(lab.items())),
                                 wall_s=round(max([r["wall"] for r in rs] or [0]), 1),
                                 truncated=any(r["truncated"] for r in rs))
        for r in rs:
            for s in r["samples"][:1]:
                if len(samples) < 12:
                    samples.append({"facet": f.name, "case": s})
            if r["herr"]:
                print("error in facet %s:\n%s" % (f.name, r["herr"]))
                if rc == 0:
                    rc = 2
        fails = sorted((r["fail"] for r in rs if r["fail"]), key=lambda x: len(core.jdump(x["case"])))
        if fails:
            p = save_replay(a.prop, f.name, fails[0]["case"], fails[0]["msg"], a.seed)
            violations.append(dict(facet=f.name, replay=p, message=fails[0]["msg"][:600]))
            print("facet %s: %s" % (f.name, fails[0]["msg"][:3000]))
            print("VIOLATION property=%s replay=%s" % (a.prop, p))
    if violations:
        rc = 1
    if a.verbose or rc == 2:
        for n, d in per_facet.items():
            print(n, json.dumps(d))
    ev = dict(
        property=a.prop, tier=tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=total_ev, distinct_nontrivial=total_nt,
            rule="Each facet generates cases with Hypothesis and runs them against the real code and an explicit "
                 "oracle. Non-trivial, per facet: " + "; ".join("%s: %s" % (f.name, f.rule) for f in sel),
            samples=samples, facets=per_facet,
            known_findings_replayed=[k["sig"] for k in findings]),
        wall_s=round(time.time() - t0, 2), import_s=round(t_import, 2),
        violations=violations, assumptions=getattr(mod, "ASSUMPTIONS", []))
    if not a.facet and core.REPO == "/repo":
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=core._default)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.0f s" % (
        a.prop, tier, a.seed, total_ev, total_nt, len(violations), time.time() - t0))
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
