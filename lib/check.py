#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is broken.
Exit 2: the check itself could not decide (harness error).
"""
import argparse
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


def env_for(tmp, tier, seed):
    e = dict(os.environ)
    e.update(TF_USE_LEGACY_KERAS="1", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="", LANG="C.UTF-8",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", TF_NUM_INTRAOP_THREADS="1",
             TF_NUM_INTEROP_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=tmp, HOME=tmp, VERIF_TIER=tier,
             VERIF_SEED=str(seed), TF_ENABLE_ONEDNN_OPTS="0")
    e.pop("TF2ONNX_CATCH_ERRORS", None)
    e.pop("TF2ONNX_TEST_OPSET", None)
    e["PYTHONPATH"] = REPO
    return e


def run_replay(pid, path, env):
    p = subprocess.run([PY, os.path.join(HERE, "worker.py"), pid, "--replay", path], env=env, cwd=env["TMPDIR"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    out = p.stdout.decode("utf-8", "replace")
    lines = [x for x in out.split("\n") if x.startswith("REPLAY-")]
    if p.returncode < 0:
        return "crash", "the process died with signal %d" % -p.returncode
    if lines and lines[-1].startswith("REPLAY-FAIL"):
        return "fail", out[out.index("REPLAY-FAIL") + 12:]
    if lines and lines[-1].startswith("REPLAY-PASS"):
        return "pass", ""
    if lines and lines[-1].startswith("REPLAY-REJECT"):
        return "reject", lines[-1]
    return "error", (out + p.stderr.decode("utf-8", "replace"))[-3000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--timeout", type=float)
    a = ap.parse_args()
    pid, t0 = a.pid, time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return run(a, pid, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, pid, t0, tmp):
    env = env_for(tmp, a.tier, a.seed)
    if a.replay:
        got, text = run_replay(pid, os.path.abspath(a.replay), env)
        print(got, text)
        return {"fail": 1, "crash": 1, "pass": 0, "reject": 0}.get(got, 2)
    timeout = a.timeout or (780 if a.tier == "quick" else 3 * 3600)
    n = a.workers
    procs = []
    for i in range(n):
        out = os.path.join(tmp, "w%d.json" % i)
        log = open(os.path.join(tmp, "w%d.log" % i), "wb")
        wtmp = os.path.join(tmp, "t%d" % i)
        os.mkdir(wtmp)
        e = dict(env, TMPDIR=wtmp, HOME=wtmp)
        procs.append((subprocess.Popen([PY, os.path.join(HERE, "worker.py"), pid, a.tier, str(a.seed), str(i), str(n), out],
                                       env=e, cwd=wtmp, stdout=log, stderr=log), out, log))
    # known findings are replayed while the workers run
    sys.path.insert(0, HERE)
    import core
    for k in core.known_findings():
        if k.get("property") == pid and k.get("status") == "known":
            rp = os.path.join(tmp, "known-%s.json" % k["id"])
            with open(rp, "w") as f:
                json.dump(k["replay"], f)
            got, text = run_replay(pid, rp, env)
            if got in ("fail", "crash"):
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))
            else:
                print("note: listed finding %s does not reproduce (%s) %s" % (k["id"], got, text[-500:]))
    notes, errors, failures, crashes = [], [], [], []
    states = []
    for p, out, log in procs:
        left = timeout - (time.time() - t0)
        try:
            rc = p.wait(timeout=max(1, left))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
            notes.append("a worker ran out of time and was stopped")
        log.close()
        if os.path.exists(out):
            with open(out) as f:
                states.append(json.load(f))
        if rc is not None and rc < 0 and os.path.exists(out + ".current"):
            with open(out + ".current") as f:
                crashes.append(json.load(f))
        elif rc not in (0, None):
            with open(log.name, "rb") as f:
                text = f.read()[-3000:].decode("utf-8", "replace")
            if text.strip():
                errors.append(text)
            elif not any(x.get("error") for x in (states[-1] if os.path.exists(out) else {}).values()):
                errors.append("a worker exited with %d" % rc)
        elif rc is not None and not os.path.exists(out):
            errors.append("worker wrote no result")
    merged = collections.OrderedDict()
    for s in states:
        for name, x in s.items():
            m = merged.setdefault(name, {"evaluations": 0, "cases": 0, "nontrivial": set(), "classes": collections.Counter(),
                                         "rejects": 0, "avoided": collections.Counter(), "samples": [], "wall_s": 0})
            for k in ("evaluations", "cases", "rejects"):
                m[k] += x[k]
            m["nontrivial"].update(x["nontrivial"])
            m["classes"].update(x["classes"])
            m["avoided"].update(x["avoided"])
            m["samples"] += x["samples"]
            m["wall_s"] = max(m["wall_s"], x["wall_s"])
            if x.get("out_of_time"):
                notes.append("suite %s stopped at its time limit" % name)
            if x.get("failure"):
                failures.append(x["failure"])
            if x.get("error"):
                errors.append(x["error"])
    violations, seen = [], set()
    rdir = os.path.join(ROOT, "evidence", "replays")
    failures.sort(key=lambda f: len(json.dumps(f["spec"])))
    for c in crashes:
        failures.append({"suite": c["suite"], "spec": c["spec"], "message": "the process crashed on this case"})
    for f in failures:
        if len(violations) >= 4:
            break
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, f["suite"], len(violations)))
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
        got, text = run_replay(pid, path, env)
        if got in ("fail", "crash"):
            violations.append({"replay": path, "suite": f["suite"], "message": f["message"][:1500]})
        elif got == "error":
            errors.append("replay: " + text)
        else:
            notes.append("a failure of suite %s did not reproduce in a fresh process (%s): %s" % (f["suite"], got, f["message"][:300]))
    suites = {k: {"cases": m["cases"], "evaluations": m["evaluations"], "distinct_nontrivial": len(m["nontrivial"]),
                  "rejected": m["rejects"], "excluded_known_findings": dict(m["avoided"]),
                  "classes": dict(sorted(m["classes"].items(), key=lambda kv: -kv[1])[:60]), "wall_s": m["wall_s"]}
              for k, m in merged.items()}
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": sum(m["evaluations"] for m in merged.values()),
                       "distinct_nontrivial": sum(len(m["nontrivial"]) for m in merged.values()),
                       "rule": RULES.get(pid, RULES["*"]),
                       "samples": [json.dumps(x)[:1200] for m in merged.values() for x in m["samples"][:3]][:9],
                       "suites": suites, "notes": notes[:20], "workers": n},
          "wall_s": round(time.time() - t0, 1),
          "violations": len(violations)}
    if violations:
        ev["coverage"]["violations"] = violations
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, s in suites.items():
        print("%s %-22s cases=%d evaluations=%d nontrivial=%d rejected=%d wall=%.0fs" % (
            pid, k, s["cases"], s["evaluations"], s["distinct_nontrivial"], s["rejected"], s["wall_s"]))
        if os.environ.get("VERIF_VERBOSE"):
            print("   ", json.dumps(s["classes"]))
    for x in notes:
        print("note:", x)
    if violations:
        for v in violations:
            print("  %s: %s" % (v["suite"], v["message"].replace("\n", "\n    ")))
        for v in violations:
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS-ERROR", e)
        return 2
    if not merged or sum(m["cases"] for m in merged.values()) == 0:
        print("HARNESS-ERROR nothing was explored")
        return 2
    return 0


RULES = {"*": "a case is one generated program or value decided by the oracle in full; it is non-trivial when the "
              "converter produced a model that was executed and compared on at least one non-empty tensor (for "
              "refusal cases: when the converter was really invoked), and distinct by its generated specification"}

if __name__ == "__main__":
    sys.exit(main())
