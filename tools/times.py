"""print wall time and per-family worker seconds of the evidence files"""
import json, glob, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(glob.glob(root + "/evidence/*.json")):
    d = json.load(open(f))
    c = d["coverage"]
    if len(sys.argv) > 1 and d["property"] not in sys.argv[1:]:
        continue
    print(d["property"], d["tier"], d["wall_s"], "s", c["executions"], "executions")
    for k, v in c["worker_seconds_per_family"].items():
        print("   %-18s %9d  %7.1f" % (k, c["executions_per_family"].get(k, 0), v))
