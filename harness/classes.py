"""custom_classes, clone_class, get_class_hierarchy (C25): executes histories; judged by spec/TraceClasses.tla."""
import json, random, warnings
import tlc
import world
from aligned_textgrid import SequenceInterval, SequencePoint, Top, Bottom, Word, Phone
from aligned_textgrid.custom_classes import custom_classes, clone_class, get_class_hierarchy

warnings.simplefilter("ignore")


class Run:
    def __init__(self):
        self.cls, self.made = [], []

    def id(self, c):
        if c is None or issubclass(c, (Top, Bottom)):
            return 0
        for n, x in enumerate(self.cls, 1):
            if x is c:
                return n
        self.cls.append(c)
        return len(self.cls)

    def obs(self):
        n = 0
        while n < len(self.cls):
            c = self.cls[n]
            if issubclass(c, SequenceInterval):
                self.id(c.superset_class), self.id(c.subset_class)
            n += 1
        K = []
        for c in self.cls:
            iv = issubclass(c, SequenceInterval)
            K.append({"n": c.__name__, "k": "I" if iv else "P" if issubclass(c, SequencePoint) else "?",
                      "up": self.id(c.superset_class) if iv else 0, "dn": self.id(c.subset_class) if iv else 0,
                      "sub": [m for m, d in enumerate(self.cls, 1) if d is not c and issubclass(c, d)]})
        return K

    def ref(self, r):
        """the class of that name that operation r[0] made"""
        seen, todo = [], list(self.made[r[0] - 1])
        while todo:
            c = todo.pop(0)
            if c in seen or issubclass(c, (Top, Bottom)):
                continue
            seen.append(c)
            if c.__name__ == r[1]:
                return c
            if issubclass(c, SequenceInterval):
                todo += [c.superset_class, c.subset_class]
        return None

    def do(self, op):
        k = op["op"]
        if k == "custom":
            order = None if op["by"] == "none" else list(op["order"])
            if op.get("str"):
                v = [custom_classes(op["names"][0], points=list(op["points"]))]
            elif op["points"]:
                v = custom_classes(list(op["names"]), return_order=order, points=list(op["points"]))
            else:
                v = custom_classes(list(op["names"]), return_order=order)
            v = list(v)
            self.made[-1] = v
            return v
        c = self.ref(op["r"])
        if k == "hier":
            return get_class_hierarchy(c)
        if k == "clone":
            v = [clone_class(c)]
            self.made[-1] = v
            return v
        getattr(c, {"setsuper": "set_superset_class", "setsub": "set_subset_class"}[k])(self.ref(op["r2"]))
        return []


def execute(sc):
    w = Run()
    w.made.append([Word])
    w.id(Word)
    log = [{"op": {"op": "init"}, "ret": "ok", "val": [], "K": w.obs()}]
    for op in sc["ops"]:
        op = dict(op)
        w.made.append([])
        for a, b in (("r", "c"), ("r2", "d")):
            if a in op:
                op[a] = [op[a][0] + 1, op[a][1]]      # the first is what there was before
                c = w.ref(op[a])
                if c is None:
                    return sc, log
                op[b] = w.id(c)
        val = []
        try:
            val, ret = [w.id(c) for c in w.do(op)], "ok"
        except Exception as ex:
            ret = type(ex).__name__
        log.append({"op": op, "ret": ret, "val": val, "K": w.obs()})
    if sc.get("word"):
        Word.set_subset_class(Phone)
    return sc, log


def generate(seed):
    r = random.Random(seed)
    ops, made = [], [("Word", "Phone")]
    for n in range(1, r.randint(3, 9)):
        x = r.random()
        if n == 1 or x < .3:
            names = ["N%d" % j for j in r.sample(range(9), r.randint(1, 6))]
            pts = r.sample(range(len(names)), r.randint(0, len(names) - 1)) if r.random() < .4 else []
            by = r.choice(["none", "int", "str"])
            q = r.sample(range(len(names)), len(names) if r.random() < .7 else r.randint(1, len(names)))
            op = {"op": "custom", "names": names, "by": by, "points": pts,
                  "order": [] if by == "none" else q if by == "int" else [names[j] for j in q]}
            if len(names) == 1 and by == "none" and r.random() < .5:
                op["str"] = 1
                op["points"] = r.choice([[], [0]])
            ops.append(op)
            made.append(names)
            continue
        k = r.randint(0, len(made) - 1)
        if not made[k]:
            k = 0
        ref = lambda k: [k, r.choice(made[k])]
        if x < .65:
            ops.append({"op": "hier", "r": ref(k)})
            made.append(())
        else:
            a = ref(k)
            ops.append({"op": "clone", "r": a})
            made.append(made[k] if a[1] == made[k][0] else ())
    return {"model": "classes", "ops": ops, "seed": seed}


def run(check):
    quick = check.tier == "quick"
    n = 3 if quick else 4
    ok, out, g, d = tlc.explore("MC_Classes", "MC_Classes.cfg", {"MC_N": str(n)}, heap="10g", timeout=max(60, check.left()), extra=("-noTE",))
    if not ok:
        raise RuntimeError("model classes: " + "\n".join(l for l in out.splitlines() if not l.startswith('"HIST'))[-2000:])
    lines = sorted(l for l in out.splitlines() if l.startswith('"HIST'))
    rnd = random.Random(check.seed)
    rnd.shuffle(lines)
    hs = []
    for l in lines:
        ops = json.loads(json.loads(l)[5:])
        if len(ops) == 3 or ops[-1]["op"] != "custom":
            hs.append({"model": "classes", "ops": ops, "family": "classes"})
        if len(hs) >= (8000 if quick else 200000):
            break
    check.models.append({"family": "customclasses", "size": n, "states": d, "histories": len(lines), "laws": True, "replayed": len(hs)})
    check.states += d
    check.transitions += g
    for k in range(0, len(hs), 20000):
        if check.left() < 30:
            break
        check.judge(check.run_jobs([("call", "classes", "execute", s) for s in hs[k:k + 20000]], 200), "TraceClasses")
    total = 3000 if quick else 60000
    for k in range(0, total, 12000):
        if check.left() < 30:
            break
        check.judge(check.run_jobs([("call", "classes", "execute", generate(check.seed * 1000003 + k + j)) for j in range(min(12000, total))], 200), "TraceClasses")
