"""SequenceList (C26): executes histories on the real code; judged by spec/TraceLists.tla."""
import json, random, warnings
import tlc
from world import Scale
from aligned_textgrid import SequenceInterval, SequencePoint
from aligned_textgrid.sequence_list import SequenceList

warnings.simplefilter("ignore")


# exact in binary, so that equal times stay equal
SCALES = [Scale(1.0), Scale(1.0, 0.0, True), Scale(0.25), Scale(0.125, 16.0), Scale(0.5, -8.0), Scale(2.0 ** -10, 0.0625), Scale(64.0)]


class A(SequenceInterval): pass
class A2(A): pass
class A3(A2): pass
class B(SequenceInterval): pass
class P(SequencePoint): pass
class P2(P): pass
CLS = {"A": A, "A2": A2, "A3": A3, "B": B, "P": P, "P2": P2}
KEY = {v: k for k, v in CLS.items()}


class Lists:
    def __init__(self, pool, scale):
        self.sc = SCALES[scale]
        self.objs = [self.mk(e) for e in pool]
        self.lists = []

    def mk(self, e):
        if e["c"].startswith("P"):
            return CLS[e["c"]]((self.sc.f(e["s"]), e["l"]))
        return CLS[e["c"]]((self.sc.f(e["s"]), self.sc.f(e["e"]), e["l"]))

    def id(self, o):
        for n, x in enumerate(self.objs, 1):
            if x is o:
                return n
        return 0

    def obs(self):
        t = self.sc.t
        O = []
        for o in self.objs:
            if isinstance(o, SequencePoint):
                O.append({"c": KEY.get(type(o), "?"), "s": t(o.time), "e": t(o.time), "l": str(o.label)})
            else:
                O.append({"c": KEY.get(type(o), "?"), "s": t(o.start), "e": t(o.end), "l": str(o.label)})
        L, V = [], []
        for l in self.lists:
            L.append({"c": KEY.get(l.entry_class, "?") if l.entry_class is not None else "", "q": [self.id(x) for x in l]})
            V.append({"len": len(l), "starts": [t(x) for x in l.starts], "ends": [t(x) for x in l.ends],
                      "labels": [str(x) for x in l.labels], "has": [bool(o in l) for o in self.objs]})
        return {"O": O, "L": L}, V

    def do(self, op):
        k = op["op"]
        o = lambda x: self.objs[x - 1]
        if k == "mk":
            self.lists.append(SequenceList(*[o(x) for x in op["xs"]]))
            return []
        l = self.lists[op["n"] - 1]
        if k in ("add", "concat"):
            arg = self.lists[op["m"] - 1] if op["m"] else [o(x) for x in op["xs"]]
            if k == "concat":
                l.concat(arg)
                return []
            r = l + arg
            if any(r is x for x in self.lists):
                r = self.twin(r)
            self.lists.append(r)
            return []
        if k == "append":
            l.append(o(op["x"]), shift=True) if op["sh"] else l.append(o(op["x"]))
            return []
        if k in ("remove", "pop"):
            getattr(l, k)(o(op["x"]))
            return []
        if k == "find":
            return [l.index(o(op["x"]))]
        if k == "slice":
            return [self.id(x) for x in l[op["i"]:op["j"]]]
        if k == "at":
            return [self.id(l[op["i"]])]
        if k == "rev":
            return [self.id(x) for x in reversed(l)]

    def twin(self, r):
        """a list that is independent of r and has the same entries and class"""
        out = SequenceList(*list(r))
        out.entry_class = r.entry_class
        return out


def execute(sc):
    w = Lists(sc["pool"], sc.get("scale", 0))
    st, V = w.obs()
    log = [{"op": {"op": "init"}, "ret": "ok", "val": [], "st": st, "V": V}]
    off = round(w.sc.off / w.sc.unit)
    for op in sc["ops"]:
        if "off" in op:
            op["off"] = off
        val = []
        if max(op.get("n", 0), op.get("m", 0)) > len(w.lists):
            continue
        try:
            val = w.do(op)
            ret = "ok"
        except Exception as ex:
            ret = type(ex).__name__
        try:
            st, V = w.obs()
        except Exception as ex:
            log.append(dict(log[-1], op=op, ret="unobservable"))
            break
        log.append({"op": op, "ret": ret, "val": val, "st": st, "V": V})
    return sc, log


def generate(seed, nops):
    r = random.Random(seed)
    pool = []
    kind = r.choice(["I", "I", "I", "P"])
    disjoint = r.random() < .6
    at = r.randint(-4, 2)
    for n in range(r.randint(2, 12)):
        if kind == "P" or r.random() < .04:
            t = r.randint(-4, 14)
            pool.append({"c": r.choice(["P", "P", "P", "P2"]), "s": t, "e": t, "l": r.choice("xyz") + r.choice(["", str(n)])})
            continue
        s = at if disjoint else r.randint(-4, 12)
        e = s + r.randint(1, 3)
        at = e + r.choice([0, 0, 0, 1])
        l = r.choice(["x", "y%d" % n, "z%d" % n, ""])
        if pool and r.random() < .1:
            s, e, l = pool[-1]["s"], pool[-1]["e"], pool[-1]["l"]
        if s == e:
            e += 1
        pool.append({"c": r.choice(["A"] * 8 + ["A2", "A3", "B"]), "s": s, "e": e, "l": l})
    r.shuffle(pool)
    ids = list(range(1, len(pool) + 1))
    sub = lambda k: r.sample(ids, min(len(ids), r.randint(0, k)))
    ops, nl = [], 0
    for _ in range(nops):
        if nl == 0 or r.random() < .12:
            xs = sub(4)
            ops.append({"op": "mk", "xs": xs})
            if len({pool[x - 1]["c"] for x in xs}) <= 1:
                nl += 1
            continue
        n = r.randint(1, nl)
        k = r.choice(["append"] * 5 + ["add"] * 2 + ["concat"] * 2 + ["remove", "pop", "pop", "find", "slice", "at", "rev"])
        if k == "append":
            ops.append({"op": k, "n": n, "x": r.choice(ids), "sh": r.random() < .3, "off": 0})
        elif k in ("add", "concat"):
            m = r.choice([0, 0, r.randint(1, nl)])
            if m == n and k == "concat":
                m = 0
            ops.append({"op": k, "n": n, "m": m, "xs": [] if m else sub(3), "off": 0})
        elif k == "slice":
            i = r.randint(0, 3)
            ops.append({"op": k, "n": n, "i": i, "j": i + r.randint(0, 4)})
        elif k == "at":
            ops.append({"op": k, "n": n, "i": r.randint(-4, 4)})
        elif k == "rev":
            ops.append({"op": k, "n": n})
        else:
            ops.append({"op": k, "n": n, "x": r.choice(ids)})
    return {"model": "lists", "pool": pool, "scale": r.choice(range(len(SCALES))), "ops": ops, "seed": seed}


def run(check):
    quick = check.tier == "quick"
    n = 2 if quick else 3
    ok, out, g, d = tlc.explore("MC_Lists", "MC_Lists.cfg", {"MC_N": str(n)}, heap="10g", timeout=max(60, check.left()), extra=("-noTE",))
    if not ok:
        raise RuntimeError("model lists: " + "\n".join(l for l in out.splitlines() if not l.startswith('"HIST'))[-2000:])
    rnd = random.Random(check.seed)
    lines = sorted(l for l in out.splitlines() if l.startswith('"HIST'))
    rnd.shuffle(lines)
    hs = []
    for l in lines:
        h = json.loads(json.loads(l)[5:])
        if h["leaf"]:
            hs.append({"model": "lists", "pool": h["pool"], "ops": h["ops"], "scale": rnd.choice(range(len(SCALES))), "family": "lists"})
        if len(hs) >= (6000 if quick else 200000):
            break
    check.models.append({"family": "lists", "size": n, "states": d, "histories": len(lines), "laws": True, "replayed": len(hs)})
    check.states += d
    check.transitions += g
    for k in range(0, len(hs), 20000):
        if check.left() < 30:
            break
        check.judge(check.run_jobs([("call", "lists", "execute", s) for s in hs[k:k + 20000]], 200), "TraceLists")
    total = 2400 if quick else 120000
    for k in range(0, total, 12000):
        if check.left() < 30:
            break
        jobs = [("call", "lists", "execute", generate(check.seed * 1000003 + k + j, 14)) for j in range(min(12000, total))]
        check.judge(check.run_jobs(jobs, 200), "TraceLists")
