"""The families of spec/MC_ATG.tla: exploring one with TLC gives every history of it."""
import json, random
import tlc
from world import SCALES

WORLD = {"chains": [["A", "B"]], "points": [], "scale": 0}
WORLDS = {
    "relate3": dict(WORLD, chains=[["A", "B", "C"]]),
    "readflat": dict(WORLD, chains=[["A", "B"], ["U", "V"]]),
    "points": dict(WORLD, points=["Pt"]),
    "pjoins": dict(WORLD, points=["Pt"]),
}
# operations that only build what a family starts from
SETUP = {"mktier", "mkobj"}
# families that end in more than one operation to judge
TAIL = {"pickon": 2}
# histories of at most this many operations only set the scene
SETUPLEN = {"names": 10, "pickon": 12}
SIZES = {}      # filled below: family -> (quick N, thorough N)
for f, q, t in [("relate", 3, 5), ("relate3", 2, 3), ("fuse", 3, 4), ("fuseraw", 3, 4), ("append", 2, 3), ("loose", 0, 1),
                ("valid", 3, 4), ("query", 3, 4), ("df", 3, 4), ("classes", 2, 3), ("io", 2, 3), ("gridq", 2, 3),
                ("griddf", 2, 3), ("pick", 2, 3), ("joins", 2, 3), ("tjoins", 2, 4), ("read", 3, 5), ("readflat", 2, 2),
                ("points", 3, 4), ("pjoins", 2, 3), ("validobj", 5, 6), ("names", 0, 0), ("pickon", 0, 0)]:
    SIZES[f] = (q, t)


def explore(fam, n, timeout=600):
    """-> (laws hold, histories, states generated, distinct, output tail)"""
    ok, out, g, d = tlc.explore("MC_ATG", "MC_ATG.cfg", {"MC_FAM": fam, "MC_N": str(n), "MC_EMIT": "1"},
                                heap="10g", timeout=timeout, extra=("-noTE",))
    hists = []
    for line in out.splitlines():
        if line.startswith('"HIST '):
            hists.append(line)
    tail = "" if ok else "\n".join(l for l in out.splitlines() if not l.startswith('"HIST'))[-3000:]
    return ok, hists, g, d, tail


def scenarios(fam, hists, seed, limit, scales=(0,)):
    """a sample of the histories, as scenarios whose last operations are to be judged;
    the kinds of last operation take turns, so that rare ones are not crowded out"""
    rnd = random.Random(seed)
    order = sorted(hists)
    rnd.shuffle(order)
    kinds = {}
    for line in order:
        ops = json.loads(json.loads(line)[5:])
        last = ops[-1]
        if last["op"] in SETUP and fam != "tjoins" or len(ops) <= SETUPLEN.get(fam, 0):
            continue
        kind = (last["op"], last.get("k"), last.get("side"), last.get("tf"), last.get("cl"))
        kinds.setdefault(kind, []).append(ops)
    turns, parsed = [kinds[k] for k in sorted(kinds, key=str)], []
    for k in range(max(map(len, turns), default=0)):
        for t in turns:
            if k >= len(t) or len(parsed) >= limit:
                continue
            ops, scale = t[k], rnd.choice(scales)
            for op in ops:
                if "off" in op:
                    op["off"] = round(SCALES[scale].off / SCALES[scale].unit)
            parsed.append(dict(WORLDS.get(fam, WORLD), scale=scale, ops=ops, seed=seed, family=fam, tail=TAIL.get(fam, 1)))
    return parsed
