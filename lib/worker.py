"""One shard of one check: worker.py PID TIER SEED SHARD NSHARDS OUT  |  worker.py PID --replay FILE"""
import faulthandler
import gc
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.append(os.path.join(ROOT, "vendor"))
if sys.path[0] != HERE:
    sys.path.insert(0, HERE)


def main():
    import core
    pid = sys.argv[1]
    if sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            r = json.load(f)
        suites = {s.name: s for s in core.load_suites(pid)}
        try:
            core.run_case(suites[r["suite"]], r["spec"])
        except core.Violation as e:
            print("REPLAY-FAIL " + str(e)[:3000].replace("\n", "\n  "))
            return 1
        except core.Reject as e:
            print("REPLAY-REJECT " + str(e))
            return 0
        print("REPLAY-PASS")
        return 0
    tier, seed, shard, nshards, out = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
    faulthandler.enable()
    os.environ["VERIF_CURRENT"] = out + ".current"
    only = os.environ.get("VERIF_SUITE")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    max_s = float(os.environ.get("VERIF_MAX_S", "480" if tier == "quick" else "3000"))
    state = {}
    suites = core.load_suites(pid)
    rc = 0
    for k, s in enumerate(suites):
        if only and s.name not in only.split(","):
            continue
        n = s.quick if tier == "quick" else s.thorough
        n = int(n * scale)
        mine = n // nshards + (1 if (shard < n % nshards) else 0)
        if mine == 0:
            continue
        sd = int(core.stable_hash([seed, pid, s.name, shard])[:12], 16)
        st = core.run_suite(s, mine, sd, state, shrink_s=float(os.environ.get("VERIF_SHRINK_S", "45")),
                            max_s=max_s / len(suites))
        with open(out, "w") as f:
            json.dump(state, f)
        if st.get("error"):
            rc = 3
        gc.collect()
    with open(out, "w") as f:
        json.dump(state, f)
    if os.path.exists(out + ".current"):
        os.remove(out + ".current")
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    sys.exit(main())
