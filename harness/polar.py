"""PolarGrid (C22): builds PolarGrids and reports what they say; judged by spec/TracePolar.tla."""
import contextlib, io, json, os, random, tempfile, warnings
import numpy as np
import tlc
from world import SCALES, OFF
from praatio.data_classes.textgrid import Textgrid
from praatio.data_classes.interval_tier import IntervalTier
from praatio.data_classes.point_tier import PointTier
from aligned_textgrid import Word, Phone
from aligned_textgrid.polar.polar_classes import PrStr, ToBI, TurningPoints, Ranges, Levels, Misc
from aligned_textgrid.polar.polar_grid import PolarGrid

warnings.simplefilter("ignore")
NONE = 999998


def num(x):
    x = float(x)
    if x != x:
        return NONE
    return int(round(x)) if abs(x - round(x)) < 1e-6 else OFF


def build(sc):
    s = SCALES[sc.get("scale", 0)]
    x = sc["in"]
    hi = s.f(sc["end"])
    lo = s.f(0)
    pts = lambda n, q: PointTier(n, [(s.f(p["t"]), p["l"]) for p in q], lo, hi)
    tiers = {"tp": (pts("tp", x["tp"]), TurningPoints), "lv": (pts("lv", x["lv"]), Levels), "pr": (pts("pr", x["pr"]), PrStr),
             "tb": (pts("tb", x["pr"][:1]), ToBI), "mi": (pts("mi", x["pr"][1:]), Misc),
             "rg": (IntervalTier("rg", [(s.f(r["s"]), s.f(r["e"]), r["l"]) for r in x["rg"]], lo, hi), Ranges),
             "wd": (IntervalTier("wd", [(lo, hi, "w")], lo, hi), Word), "ph": (IntervalTier("ph", [(lo, hi, "p")], lo, hi), Phone)}
    tg, ec = Textgrid(), []
    for g in sc["groups"]:
        ec.append([])
        for k in g:
            tg.addTier(tiers[k][0])
            ec[-1].append(tiers[k][1])
    with contextlib.redirect_stdout(io.StringIO()):
        if sc.get("file"):
            d = tempfile.mkdtemp()
            try:
                path = os.path.join(d, "x.TextGrid")
                tg.save(path, "long_textgrid", includeBlankSpaces=True)
                return PolarGrid(textgrid_path=path, entry_classes=ec), s
            finally:
                for f in os.listdir(d):
                    os.remove(os.path.join(d, f))
                os.rmdir(d)
        return PolarGrid(textgrid=tg, entry_classes=ec), s


WANT = {"tp": "Points", "rg": "RangesTier", "wd": "Word_Phone"}
NAME = {"tp": "TurningPoints", "lv": "Levels", "pr": "PrStr", "tb": "ToBI", "mi": "Misc", "rg": "Ranges", "wd": "Word", "ph": "Phone"}


def view(g, s, sc):
    def idx(tier, o):
        for n, x in enumerate(tier, 1):
            if x is o:
                return n
        return 0 if o is None else -1
    tp, lv, pr, rg = g.TurningPoints, g.Levels, g.PrStr, g.Ranges
    t = s.t

    def band(l):
        try:
            return [num(b) for b in l.band]
        except Exception:
            return []
    return {
        "lv": [{"t": t(l.time), "l": l.label, "tp": idx(tp, l.turning_point), "ri": idx(rg, l.range_interval),
                "rt": l.ranges_tier is rg, "ce": l.certainty, "le": l.level, "bd": band(l)} for l in lv],
        "tp": [{"t": t(p.time), "l": p.label, "lv": idx(lv, p.level), "ce": p.certainty, "ov": str(p.override)} for p in tp],
        "pr": [{"t": t(p.time), "l": p.label, "ce": p.certainty, "st": p.status} for p in pr],
        "rg": [{"s": t(r.start), "e": t(r.end), "l": r.label, "lo": num(r.low), "hi": num(r.high), "bd": [num(b) for b in r.bands]} for r in rg],
        "names": [str(x.name) for x in g],
        "want": [[WANT[k] for k in gr if k in WANT][0] for gr in sc["groups"]],
        "acc": [getattr(g, NAME[k]) is g[n][m] for n, gr in enumerate(sc["groups"]) for m, k in enumerate(gr)]
               + [getattr(g, [WANT[k] for k in gr if k in WANT][0]) is g[n] for n, gr in enumerate(sc["groups"])]}


def execute(sc):
    log = [{"in": sc["in"]}]
    g = None
    for op in [{"op": "read", "by": 0}] + sc.get("ops", []):
        try:
            if op["op"] == "read":
                g, s = build(sc)
            elif op["op"] == "shift":
                g.shift(s.inc(op["by"]))
            elif op["op"] == "relate":
                for l in g.Levels:
                    l.set_range_interval()
                    l.set_turning_point(g.TurningPoints)
                for p in g.TurningPoints:
                    p.set_level(g.Levels)
            log.append({"op": op, "ret": "ok", "v": view(g, s, sc)})
        except Exception as ex:
            log.append({"op": op, "ret": type(ex).__name__})
            break
    return sc, log


PLAIN = [["tp", "lv", "pr"], ["rg"]]


def generate(seed):
    r = random.Random(seed)
    end = r.randint(4, 16)
    times = lambda n: sorted(r.sample(range(0, end + 1), min(r.randint(0, n), end)))
    tp = times(8)
    lv = sorted(set(r.sample(tp, r.randint(0, len(tp)))) | set(times(3)))
    rg, at = [], r.randint(0, 2)
    while at < end and r.random() < .8:
        e = min(end, at + r.randint(1, 5))
        lo = r.randint(0, 60) * 5
        hi = lo + r.randint(0, 50) * 5
        k = r.random()
        if k < .8:
            rg.append({"s": at, "e": e, "l": "%d-%d" % (lo, hi), "lo": lo, "hi": hi})
        else:
            rg.append({"s": at, "e": e, "l": r.choice(["x", "a-b", "high"]), "lo": NONE, "hi": NONE})
        at = e + r.choice([0, 0, 1, 2])
    x = {"tp": [{"t": t, "l": r.choice(["0", "0?", "?0", "0,%d" % r.randint(50, 300), "?,120", ",95"])} for t in tp],
         "lv": [{"t": t, "l": r.choice("12345") + r.choice(["", "", "?"])} for t in lv],
         "pr": [{"t": t, "l": r.choice(["*", "*?", "]", "]?", "?]", "?*", "*]"])} for t in times(4)], "rg": rg}
    points = ["tp", "lv", "pr"]
    r.shuffle(points)
    if x["pr"] and r.random() < .4:
        points.insert(r.randint(0, 3), "tb")
    if len(x["pr"]) > 1 and r.random() < .4:
        points.insert(r.randint(0, 3), "mi")
    groups = [points, ["rg"]]
    if r.random() < .6:
        groups.append(r.choice([["wd", "ph"], ["ph", "wd"], ["wd"]]))
    r.shuffle(groups)
    ops = [r.choice([{"op": "shift", "by": r.randint(0, 5)}, {"op": "relate", "by": 0}]) for _ in range(r.randint(0, 3))]
    return {"model": "polar", "in": x, "end": end, "groups": groups, "scale": r.choice([0, 1, 2, 4, 5, 7]), "ops": ops,
            "file": r.random() < .2, "seed": seed}


def run(check):
    quick = check.tier == "quick"
    n = 3 if quick else 5
    ok, out, g, d = tlc.explore("MC_Polar", "MC_Polar.cfg", {"MC_N": str(n)}, heap="10g", timeout=max(60, check.left()), extra=("-noTE",))
    if not ok:
        raise RuntimeError("model polar: " + "\n".join(l for l in out.splitlines() if not l.startswith('"HIST'))[-2000:])
    lines = sorted(l for l in out.splitlines() if l.startswith('"HIST'))
    rnd = random.Random(check.seed)
    rnd.shuffle(lines)
    hs = [{"model": "polar", "in": json.loads(json.loads(l)[5:]), "end": n + 1, "groups": rnd.choice([PLAIN, PLAIN[::-1], PLAIN + [["wd", "ph"]]]),
           "scale": rnd.choice([0, 1, 2, 5]), "family": "polar", "ops": rnd.choice([[], [{"op": "shift", "by": 2}], [{"op": "relate", "by": 0}]])}
          for l in lines[:4000 if quick else 200000]]
    check.models.append({"family": "polar", "size": n, "states": d, "histories": len(lines), "laws": True, "replayed": len(hs)})
    check.states += d
    check.transitions += g
    for k in range(0, len(hs), 20000):
        if check.left() < 30:
            break
        check.judge(check.run_jobs([("call", "polar", "execute", s) for s in hs[k:k + 20000]], 300), "TracePolar")
    total = 1500 if quick else 40000
    for k in range(0, total, 8000):
        if check.left() < 30:
            break
        check.judge(check.run_jobs([("call", "polar", "execute", generate(check.seed * 1000003 + k + j)) for j in range(min(8000, total))], 300), "TracePolar")
