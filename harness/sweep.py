"""sweep: python sweep.py profile[,profile] count [seed0] [nops]   (development tool)"""
import sys, json, time
from produce import produce
from tlc import judge
import collections
profs = sys.argv[1].split(",")
n = int(sys.argv[2]); s0 = int(sys.argv[3]) if len(sys.argv) > 3 else 1
nops = int(sys.argv[4]) if len(sys.argv) > 4 else 10
if profs == ["all"]:
    import gen
    profs = list(gen.Gen.PROFILES)
t = time.time()
res, failed = produce([("gen", p, s0 + k, nops) for p in profs for k in range(n)], 1200)
t1 = time.time() - t
v = judge([l for _, l in res], deadline=3000)
print("gen %.1fs judge %.1fs scenarios %d lines %d states %d failed %d unjudged %d viols %d" % (
    t1, v.wall, len(res), sum(len(l) for _, l in res), v.distinct, len(failed), len(v.unjudged), len(v.viols)))
for f in failed[:3]: print(f)
for u in v.unjudged[:3]: print(u)
seen = collections.Counter()
for x in v.viols:
    seen[x[:2]] += 1
    if seen[x[:2]] <= 3:
        sc, log = res[x[2]]
        print(x[0], x[1], "trace", x[2], "seed", sc["seed"], "line", x[3], json.dumps(log[x[3]-1]["op"])[:150], x[4][:160])
json.dump([l for _, l in res], open("/tmp/tr.json", "w"))
print(seen)
