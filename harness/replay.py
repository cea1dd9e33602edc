"""replay.py FILE [-v]: run a reported history on the real code again and judge it."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import tlc
from produce import produce

e = json.load(open(sys.argv[1]))
sc = e["scenario"]
print(e["property"], e["clause"], e["detail"][:300])
res, failed = produce([("call", sc["model"], "execute", sc) if "model" in sc else ("ops", sc)], 100)
for f in failed:
    print(f)
if res:
    log = res[0][1]
    v = tlc.judge([log], e.get("module", "TraceATG"))
    for k, l in enumerate(log, 1):
        print(k, json.dumps(l["op"])[:600], "->", l["ret"], json.dumps(l["val"])[:200])
        if "-v" in sys.argv and k >= len(log) - 1:
            for i, (o, d) in enumerate(zip(l["st"]["O"], l["D"]), 1):
                print("     ", i, "%(k)s c%(c)s %(s)s-%(e)s %(l)r p=%(p)s" % o, {x: d.get(x) for x in ("pv", "fo", "kids", "t", "wk", "wr", "pa")})
            for n, r in enumerate(l["st"]["R"], 1):
                print("     root", n, r["k"], [(g["n"], g["h"], [(t["c"], t["n"], t["q"]) for t in g["ts"]]) for g in r["gs"]])
            print("     K", [(n, c["n"], c["up"], c["dn"]) for n, c in enumerate(l["st"]["K"], 1)])
    for x in v.viols:
        print("VIOL", x)
    for n, out in v.unjudged:
        print("not judged", out)
    sys.exit(1 if any(x[0] == e["property"] for x in v.viols) or v.unjudged else 0)
sys.exit(1)
