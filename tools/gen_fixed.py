"""Rewrites the 'fixed:' lines of known_findings.jsonl from the fix commits of /repo."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(ROOT, "known_findings.jsonl")
MAP = [("FloorDiv", "C01"), ("Cumprod", "C01"), ("Atan2", "C01"), ("RightShift", "C01"), ("Roll", "C02"), ("StridedSlice", "C02"),
       ("Slice with", "C02"), ("SplitV", "C02"), ("ReduceMean and ReduceMax of doubles", "C11"), ("transposed conv", "C03"),
       ("MaxPoolWith", "C03"), ("reshape optimizer keeps", "C11"), ("FakeQuant", "C03")]
EXTRA = os.path.join(ROOT, "tools", "fixed_map.txt")
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        if l.strip():
            pid, k = l.strip().split(" ", 1)
            MAP.append((k, pid))
keep = [l for l in open(P) if l.strip() and not l.startswith("fixed:")]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "3247d22..HEAD"], text=True).strip().split("\n")
with open(P, "w") as f:
    f.writelines(keep)
    for l in log:
        h, s = l.split(" ", 1)
        pid = next((v for k, v in MAP if k in s), None)
        if pid is None:
            print("NO PROPERTY FOR", l)
            continue
        f.write("fixed: property=%s %s %s\n" % (pid, h, s[5:]))
