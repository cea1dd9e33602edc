"""
Random scenario generator.  It chooses operations by looking at the world
(which objects, tiers and groups there are), runs them and records the log.
A scenario that was generated can be replayed from its operations alone
(world.run_scenario).
"""
import random, signal
from world import (World, SequencePoint, SequenceInterval, Top, Bottom, ScenarioTimeout)

CHAINS = [["Word", "Phone"], ["A", "B", "C"], ["Sent", "Wd", "Syl", "Ph"], ["Solo"], ["U", "V"]]
LABELS = ["a", "b", "c", "AH0", "", "x y", "T", "kat", "IY1", "0"]


class Stop(Exception):
    pass


def step(w, op, last):
    """run op and look at everything; if that cannot be done, keep the last known state"""
    val = []
    try:
        ret, val = w.do(op)
        if ret != "timeout":
            st, D, V = w.observe()
            return ret, val, st, D, V
    except ScenarioTimeout:
        ret = "timeout"
    except Exception:
        ret = "unobservable"
    return ret, val, last["st"], last["D"], last["V"]


class Gen:
    def __init__(self, seed, tmp, profile="mixed"):
        self.r = random.Random(seed)
        self.seed = seed
        r = self.r
        k = r.choice([1, 1, 2, 3])
        self.chains = r.sample(CHAINS, k)
        self.points = ["Pt"] if r.random() < 0.4 or profile == "points" else []
        if self.points and r.random() < .4:
            self.points.append("Ev")
        if r.random() < .06:
            # the classes everything else is a subclass of, by themselves
            self.chains, self.points = [["SequenceInterval"]], ["SequencePoint"] if self.points else []
        self.scale = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7])
        self.tmp = tmp
        self.w = World(self.chains, self.points, self.scale, tmp)
        self.ops = []
        st, D, V = self.w.observe()
        self.log = [{"op": {"op": "init"}, "ret": "ok", "val": [], "st": st, "D": D, "V": V}]
        self.nlab = 0
        self.changed = set()     # grids whose class hierarchy was changed
        self.shared = False      # a pickled copy shares its classes with the original in this process
        self.dead = False

    def scenario(self):
        return {"chains": self.chains, "points": self.points, "scale": self.scale, "ops": self.ops,
                "seed": self.seed}

    # ---------------------------------------------------------------- running
    def do(self, **op):
        if self.dead:
            return "dead"
        if op["op"] in ("setsuper", "subappend", "setsubs", "plus"):
            # classes of the same name, one of them a grid's own: not specified
            o = self.w.obj(op["o"])
            for k in op.get("xs", [op.get("x")]):
                x = self.w.obj(k)
                for want in (getattr(o, "superset_class", None), getattr(o, "subset_class", None)):
                    if want is not None and want.__name__ == type(x).__name__ and want is not type(x):
                        return "none"
        if op["op"] in ("concat", "saveload", "tiersave"):
            op["off"] = round(self.w.sc.off / self.w.sc.unit)
        if op["op"] in ("interleave", "popclass"):
            self.changed.add(op["a"][0])
        ret, val, st, D, V = step(self.w, op, self.log[-1])
        self.ops.append(op)
        self.log.append({"op": op, "ret": ret, "val": val, "st": st, "D": D, "V": V})
        if ret in ("timeout", "unobservable"):
            self.dead = True
            raise Stop()
        self.st, self.D = st, D
        return ret

    # ---------------------------------------------------------------- choices
    def lab(self):
        r = self.r
        if r.random() < .45:
            self.nlab += 1
            return "w%d" % self.nlab
        return r.choice(LABELS)

    def cut(self, lo, hi, gap=.2, most=4, short=.2):
        """disjoint intervals in [lo, hi]"""
        r = self.r
        n = r.randint(1, most)
        pts = sorted(set([lo, hi] + [r.randint(lo, hi) for _ in range(n)]))
        out = []
        for a, b in zip(pts, pts[1:]):
            if r.random() < gap:
                continue
            out.append([a, b, self.lab()])
        return out

    def nested(self, depth, lo=None, hi=None, gap=.15, empty=.15, stray=.1, mis=.0, most=4):
        """entries for `depth` tiers, each inside the one above (mostly)"""
        r = self.r
        lo = r.choice([0, 0, 0, 1, 2]) if lo is None else lo
        hi = lo + r.randint(4, 14) if hi is None else hi
        tiers = [self.cut(lo, hi, gap, most)]
        for d in range(1, depth):
            low = []
            for s, e, l in tiers[-1]:
                if r.random() < empty:
                    continue
                low += self.cut(s, e, gap if e - s > 1 else gap / 2, 2)
            # strays outside of the tier above
            if r.random() < stray:
                used = [(s, e) for s, e, _ in tiers[-1]]
                for a in range(lo - 1 if lo > 0 else 0, hi + 3):
                    if all(e <= a or a + 1 <= s for s, e in used) and r.random() < .3:
                        low.append([a, a + 1, self.lab()])
            # misaligned boundaries
            if r.random() < mis and low:
                k = r.randrange(len(low))
                d2 = r.choice([-1, 1])
                s, e, l = low[k]
                if r.random() < .5:
                    ns = s + d2
                    if ns >= 0 and ns < e and (k == 0 or low[k - 1][1] <= ns or low[k - 1][0] < ns):
                        if k and low[k - 1][1] > ns:
                            low[k - 1][1] = ns
                        low[k][0] = ns
                else:
                    ne = e + d2
                    if ne > s and (k == len(low) - 1 or low[k + 1][1] > ne):
                        if k < len(low) - 1 and low[k + 1][0] < ne:
                            low[k + 1][0] = ne
                        low[k][1] = ne
            low.sort()
            tiers.append(low)
        return tiers

    def pts(self, most=5):
        r = self.r
        n = r.randint(0 if r.random() < .15 else 1, most)
        ts = r.sample(range(0, 14), n)
        if r.random() < .6:
            ts.sort()
        return [[t, t, self.lab()] for t in ts]

    # ---------------------------------------------------------------- queries
    def tiers(self, kind=None, root=None):
        out = []
        for a, t in self.w.iter_tiers():
            k = "P" if hasattr(t, "times") else "I"
            rk = self.w.roots[a[0] - 1][0]
            if (kind is None or k == kind) and (root is None or rk in root):
                out.append((list(a), t))
        return out

    def roots(self, kind, sub=None):
        out = []
        for n, (k, x) in enumerate(self.w.roots, 1):
            if k != kind:
                continue
            if sub == "I" and k == "tier" and hasattr(x, "times"):
                continue
            if sub == "P" and k == "tier" and not hasattr(x, "times"):
                continue
            out.append((n, x))
        return out

    def groups(self, kind=None):
        out = []
        for n, (k, x) in enumerate(self.w.roots, 1):
            if k == "group":
                gs = [(1, x)]
            elif k == "grid":
                gs = list(enumerate(x, 1))
            else:
                continue
            for g, y in gs:
                kk = "P" if type(y).__name__ == "PointsGroup" else "I"
                if kind is None or kk == kind:
                    out.append(([n, g], y))
        return out

    def hier(self, cls):
        """names of the hierarchy of cls, top first"""
        n = 0
        while not issubclass(cls.superset_class, Top) and n < 20:
            cls, n = cls.superset_class, n + 1
        out = []
        while not issubclass(cls, Bottom) and len(out) < 20:
            out.append(cls.__name__)
            cls = cls.subset_class
        return out

    def tiered(self, kind="I", root=None):
        out = []
        for a, t in self.tiers(kind, root):
            for e in t:
                out.append((a, self.w.oid[id(e)], e))
        return out

    def loose(self, kind="I"):
        """live objects outside of tiers"""
        ins = {id(e) for _, t in self.tiers() for e in t}
        out = []
        for n, o in enumerate(self.w.objs, 1):
            if n in self.w.was_tiered or id(o) in ins or n not in self.w.live:
                continue
            if isinstance(o, SequenceInterval) == (kind == "I"):
                out.append((n, o))
        return out

    # ---------------------------------------------------------------- builders
    def mk_tier(self, c, ents, name=None, how=None):
        r = self.r
        if name is None:
            name = c if r.random() < .5 else r.choice(["spk", "kj - words", "kj - phones", "t1", "tier x"])
        point = c in self.points
        if point:
            h = []
        else:
            h = self.hier(self.w.ucls[c])
        ents = [list(e) for e in ents]
        if how is None:
            how = r.choice(["objs", "objs", "list", "raw", "praat", "tier", "noclass"])
        if how in ("praat", "noclass") and not ents:
            how = "objs"
        if how in ("objs", "list", "tier", "noclass") and r.random() < .4:
            r.shuffle(ents)
        return self.do(op="mktier", k="P" if point else "I", c=c, n=name, h=h, ents=ents, how=how)

    def mk_group(self, chain=None, top=True, **kw):
        r = self.r
        chain = chain or r.choice(self.chains)
        if chain == ["SequenceInterval"] and r.random() < .3:
            self.do(op="mkempty", k="I")
            return len(self.w.roots)
        d = r.randint(1, len(chain))
        off = 0
        if top is False and d < len(chain):
            off = r.randint(0, len(chain) - d)
        tiers = self.nested(d, **kw)
        first = len(self.w.roots) + 1
        pref = r.choice(["", "", "S1 - ", "spk_", "KY25A - "])
        for k in range(d):
            nm = None
            if pref:
                nm = pref + chain[off + k]
            self.mk_tier(chain[off + k], tiers[k], nm)
        rs = list(range(first, first + d))
        if r.random() < .4:
            r.shuffle(rs)
        self.do(op="mkgroup", rs=rs)
        return len(self.w.roots)

    def mk_pgroup(self):
        r = self.r
        if self.points == ["SequencePoint"] and r.random() < .3:
            self.do(op="mkempty", k="P")
            return len(self.w.roots)
        first = len(self.w.roots) + 1
        n = r.randint(1, len(self.points))
        for c in r.sample(self.points, n):
            self.mk_tier(c, self.pts())
        self.do(op="mkgroup", rs=list(range(first, first + n)))
        return len(self.w.roots)

    def mk_grid(self):
        r = self.r
        rs = []
        for _ in range(r.randint(1, 3)):
            if self.points and r.random() < .3:
                rs.append(self.mk_pgroup())
            else:
                rs.append(self.mk_group(mis=.0))
        if r.random() < .5:
            for n in rs:
                if self.w.roots[n - 1][0] == "group" and r.random() < .5 and type(self.w.roots[n-1][1]).__name__ == "TierGroup":
                    self.do(op="cleanup", k="group", a=[n, 1])
        self.do(op="mkgrid", rs=rs)
        return len(self.w.roots)

    def mk_read(self, mis=.05):
        r = self.r
        nested = r.random() < .6
        tiers, ec = [], []
        used = set()

        def nm(base):
            n = base
            while n in used:
                n += r.choice("abc")
            used.add(n)
            return n
        hi = r.randint(8, 16)

        def add(k, n, ents):
            hh = max([hi] + [e[1] for e in ents])
            tiers.append({"k": k, "n": nm(n), "lo": 0, "hi": hh, "ents": ents})
        if nested:
            for g in range(r.randint(1, 3)):
                chain = r.choice(self.chains)
                d = r.randint(1, len(chain))
                ts = self.nested(d, 0, r.randint(4, hi), mis=mis)
                pre = r.choice(["S%d - " % g, "", "spk%d_" % g])
                cl = []
                for c, e in zip(chain, ts):
                    add("I", pre + c, e)
                    cl.append(c)
                if self.points and r.random() < .3:
                    c = r.choice(self.points)
                    add("P", pre + c, self.pts())
                    tiers[-1]["ents"].sort()
                    cl.append(c)
                ec.append(cl)
            if self.points and r.random() < .3:
                c = r.choice(self.points)
                add("P", "pp" + c, sorted(self.pts()))
                ec.append([c])
        else:
            m = r.random()
            if m < .6:
                # one list repeated
                chain = r.choice(self.chains)
                d = r.randint(1, len(chain))
                ec = list(chain[:d])
                for g in range(r.randint(1, 3)):
                    ts = self.nested(d, 0, r.randint(4, hi), mis=mis)
                    for c, e in zip(chain, ts):
                        add("I", "S%d - %s" % (g, c), e)
                if d > 1 and r.random() < .15:
                    add("I", "extra", self.cut(0, hi))
            else:
                # several hierarchies in one flat list
                for chain in (r.choice(self.chains) for _ in range(r.randint(2, 3))):
                    d = r.randint(1, len(chain))
                    ts = self.nested(d, 0, r.randint(4, hi), mis=mis)
                    part = list(zip(chain, ts))
                    if r.random() < .3:
                        part.reverse()
                    for c, e in part:
                        add("I", "%s %d" % (c, len(tiers)), e)
                        ec.append(c)
        op = dict(op="read", tiers=tiers, ec=ec, nested=nested, ch=self.chains)
        if self.w.sc.off >= 0 and r.random() < .4:
            op["file"] = r.choice(["short_textgrid", "long_textgrid", "textgrid_json"])
            op["kw"] = r.choice([0, 1])
            for t in tiers:
                if t["k"] == "I" and self.w.sc.off != 0:
                    pass
        elif ec == ["SequenceInterval"]:
            op["default"] = 1
        if r.random() < .15:
            op["tup"] = 1
        self.do(**op)
        return len(self.w.roots)

    def tree(self, chain, d, lo, hi):
        """an interval with subsets: nodes for mkobj"""
        r = self.r
        node = {"c": chain[0], "s": lo, "e": hi, "l": self.lab(), "k": "I", "kids": []}
        if d > 1 and hi > lo:
            for s, e, l in self.cut(lo, hi, .15, 2):
                node["kids"].append(self.tree(chain[1:], d - 1 if r.random() < .85 else 1, s, e))
        return node

    def mk_obj(self, chain=None, level=None, depth=None, lo=None, hi=None):
        r = self.r
        chain = chain or r.choice(self.chains)
        level = r.randrange(len(chain)) if level is None else level
        lo = r.randint(0, 12) if lo is None else lo
        hi = lo + r.randint(1, 5) if hi is None else hi
        depth = r.randint(1, len(chain) - level) if depth is None else depth
        n = len(self.w.objs) + 1
        self.do(op="mkobj", tree=self.tree(chain[level:], depth, lo, hi))
        return n

    def mk_pobj(self):
        n = len(self.w.objs) + 1
        t = self.r.randint(0, 14)
        self.do(op="mkobj", tree={"c": self.r.choice(self.points), "s": t, "e": t, "l": self.lab(), "k": "P", "kids": []})
        return n

    # ---------------------------------------------------------------- operations
    def s_cleanup(self):
        r = self.r
        k = r.choice(["grid", "group", "group", "tier", "obj"])
        if k == "grid" and self.roots("grid"):
            self.do(op="cleanup", k="grid", a=[r.choice(self.roots("grid"))[0]])
        elif k == "group" and self.groups("I"):
            self.do(op="cleanup", k="group", a=r.choice(self.groups("I"))[0])
        elif k == "tier" and self.tiers("I"):
            self.do(op="cleanup", k="tier", a=r.choice(self.tiers("I"))[0])
        else:
            c = [(n, o) for _, n, o in self.tiered("I")] + self.loose("I")
            if c:
                n, o = r.choice(c)
                self.do(op="cleanup", k="obj", o=n, h=self.hier(type(o)))

    def s_fuse(self):
        r = self.r
        c = [(n, o) for _, n, o in self.tiered("I")]
        if r.random() < .2:
            c += self.loose("I")
        good = [(n, o) for n, o in c if o.fol is not None and o.prev is not None and (o.fol.label != "#" or o.prev.label != "#")]
        if good and r.random() < .85:
            c = good
        if not c:
            return
        n, o = r.choice(c)
        d = r.choice("rl")
        if r.random() < .85:
            if o.fol is not None and o.fol.label == "#":
                d = "l"
            elif o.prev is not None and o.prev.label == "#":
                d = "r"
        op = dict(op="fuse", o=n, d=d, alias=r.choice([0, 1]))
        if r.random() < .3:
            op["lf"] = r.choice(["", "+", "_"])
        self.do(**op)

    def s_tappend(self):
        r = self.r
        if self.points and r.random() < .35 and self.tiers("P"):
            a, t = r.choice(self.tiers("P"))
            n = self.mk_pobj()
            self.do(op="tappend", o=n, a=a)
            return
        ts = self.tiers("I")
        if not ts:
            return
        a, t = r.choice(ts)
        if r.random() < .08:
            l = self.loose("I") + self.loose("P")
            if l:
                self.do(op="tappend", o=r.choice(l)[0], a=a)
                return
        h = self.hier(t.entry_class)
        c = t.entry_class.__name__
        user = next((ch for ch in self.chains if c in ch), None)
        if user is None:
            return
        lev = user.index(c)
        # a free slot in the tier, at the end, or inside a gap of every tier
        xs = [self.w.sc.t(x) for x in t.ends] if len(t) else [0]
        root = self.w.roots[a[0] - 1]
        if root[0] != "tier":
            g = self.w.group_at(a[:2])
            xs = [self.w.sc.t(x) for u in g for x in u.ends] or [0]
        lo = max(xs)
        if r.random() < .3:
            lo += r.randint(1, 2)
        elif r.random() < .3:
            gaps = [(self.w.sc.t(x), self.w.sc.t(y)) for x, y in zip(list(t.ends), list(t.starts)[1:]) if y > x]
            if len(t) and self.w.sc.t(t.starts[0]) > 0:
                gaps.append((0, self.w.sc.t(t.starts[0])))
            if gaps:
                lo, hi = r.choice(gaps)
                n = self.mk_obj(user, lev, None, lo, hi if r.random() < .6 else r.randint(lo + 1, hi))
                self.do(op="tappend", o=n, a=a, rel=True)
                return
        if lev > 0 and r.random() < .35:
            # an interval that already has a superset
            up = r.randint(0, lev - 1)
            n0 = self.mk_obj(user, up, len(user) - up, lo, lo + r.randint(2, 4))
            c2 = [n for n in range(n0, len(self.w.objs) + 1) if type(self.w.obj(n)).__name__ == c]
            if c2:
                self.do(op="tappend", o=r.choice(c2), a=a, rel=True)
            return
        n = self.mk_obj(user, lev, None, lo, lo + r.randint(1, 4))
        self.do(op="tappend", o=n, a=a, rel=r.random() < .9)

    def s_oappend(self):
        """append to an interval's subset list"""
        r = self.r
        c = [(n, o) for _, n, o in self.tiered("I")] + self.loose("I")
        c = [(n, o) for n, o in c if not issubclass(o.subset_class, Bottom) or r.random() < .1]
        if not c:
            return
        n, o = r.choice(c)
        h = self.hier(type(o))
        sub = o.subset_class.__name__
        user = next((ch for ch in self.chains if sub in ch), None)
        s, e = self.w.sc.t(o.start), self.w.sc.t(o.end)
        how = r.choice(["oappend", "oappend", "subappend", "setsuper", "plus"])
        tiered = n in self.w.was_tiered
        if tiered:
            how = "oappend"
        if user is None or r.random() < .1:
            l = self.loose("I") + self.loose("P")
            l = [x for x, y in l if x != n and y.super_instance is None] if not self.points else [x for x, y in l if x != n and getattr(y, "super_instance", None) is None]
            if not l:
                return
            x = r.choice(l)
        else:
            # a slot in the interval that is not taken
            taken = [(self.w.sc.t(k.start), self.w.sc.t(k.end)) for k in o.subset_list]
            free = [(a, b) for a in range(s, e) for b in range(a + 1, e + 1) if all(y <= a or b <= x for x, y in taken)]
            if not free:
                if tiered:
                    return
                a, b = e, e + 1
            else:
                a, b = r.choice(free)
            x = self.mk_obj(user, user.index(sub), None, a, b)
        if how == "setsuper":
            self.do(op="setsuper", o=x, x=n, h=self.hier(type(self.w.obj(x))) if isinstance(self.w.obj(x), SequenceInterval) else [])
        elif how == "plus":
            if r.random() < .5:
                self.do(op="plus", o=n, x=x, h=h)
            elif isinstance(self.w.obj(x), SequenceInterval):
                self.do(op="plus", o=x, x=n, h=self.hier(type(self.w.obj(x))))
        else:
            self.do(op=how, o=n, x=x, h=h)

    def s_loose(self):
        """build and rearrange intervals outside of tiers"""
        r = self.r
        m = r.random()
        l = self.loose("I")
        if not l or m < .2:
            self.mk_obj()
            return
        n, o = r.choice(l)
        h = self.hier(type(o))
        if m < .4:
            self.s_oappend()
        elif m < .6:
            c = [(k, x) for k, x in l if x.super_instance is not None]
            if c:
                self.do(op="detach", o=r.choice(c)[0], how=r.choice(["super", "sub", "pop"]))
        elif m < .75:
            # another superset
            c = [(k, x) for k, x in l if not issubclass(x.superset_class, Top)]
            if c:
                k, x = r.choice(c)
                ups = [(j, y) for j, y in l if type(y) is x.superset_class]
                if ups:
                    j, y = r.choice(ups)
                    how = r.choice(["setsuper", "subappend", "oappend", "plusup"])
                    hh = self.hier(type(x))
                    if how == "setsuper":
                        self.do(op="setsuper", o=k, x=j, h=hh, alias=r.choice([0, 1]))
                    elif how == "plusup":
                        self.do(op="plus", o=k, x=j, h=hh)
                    else:
                        self.do(op=how, o=j, x=k, h=hh)
        elif m < .9:
            xs = [k for k, x in l if type(x) is o.subset_class] if not issubclass(o.subset_class, Bottom) else []
            xs = r.sample(xs, r.randint(0, min(3, len(xs))))
            # no overlaps
            keep, used = [], []
            for k in xs:
                x = self.w.obj(k)
                if all(x.end <= a or b <= x.start for a, b in used):
                    keep.append(k); used.append((x.start, x.end))
            if r.random() < .1:
                keep = [r.choice(l)[0]]
            self.do(op="setsubs", o=n, xs=keep, how=r.choice(["prop", "list", "set", "alias"]), h=h)
        else:
            k, x = r.choice(l)
            self.do(op=r.choice(["validate"]), o=n)
            self.do(op="contains", o=n, x=k)

    def s_validate(self):
        r = self.r
        c = [(n, o) for _, n, o in self.tiered("I")] + self.loose("I")
        if c:
            n, o = r.choice(c)
            self.do(op="validate", o=n)
            kids = [self.w.oid[id(k)] for k in o.subset_list]
            if kids and r.random() < .7:
                x = r.choice(kids)
            else:
                x = r.choice(c)[0]
            self.do(op="contains", o=n, x=x)

    def s_gappend(self):
        r = self.r
        gs = [x for x in self.groups() if x[0][0] not in self.changed]
        if not gs:
            return
        a, g = r.choice(gs)
        if type(g).__name__ == "PointsGroup":
            if not self.points:
                return
            c = r.choice(self.points)
            self.mk_tier(c, self.pts())
        else:
            have = [t.entry_class.__name__ for t in g]
            ch = next((c for c in self.chains if have[0] in c), None)
            if ch is None:
                return
            m = r.random()
            idx = [ch.index(c) for c in have if c in ch]
            fit = [k for k in (min(idx) - 1, max(idx) + 1) if 0 <= k < len(ch)]
            if m < .75 and fit:
                k = r.choice(fit)
                c = ch[k]
                if k == max(idx) + 1:
                    base = [[self.w.sc.t(e.start), self.w.sc.t(e.end)] for e in g[len(g) - 1]]
                    low = []
                    for s, e in base:
                        if r.random() < .8 and e > s:
                            low += self.cut(s, e, .1, 2)
                    self.mk_tier(c, low)
                else:
                    self.mk_tier(c, self.merge([[self.w.sc.t(e.start), self.w.sc.t(e.end)] for e in g[0]]))
            elif self.points and m > .93:
                self.mk_tier(r.choice(self.points), self.pts())
            else:
                self.mk_tier(r.choice(r.choice(self.chains)), self.cut(0, 8))
        self.do(op="gappend", a=a, r=len(self.w.roots))

    def merge(self, base):
        """a tier of intervals that each cover some consecutive intervals of base"""
        r, out = self.r, []
        k = 0
        while k < len(base):
            n = r.randint(1, 3)
            part = base[k:k + n]
            if r.random() < .85:
                out.append([part[0][0], part[-1][1], self.lab()])
            k += n
        return out

    def s_rappend(self):
        r = self.r
        gs = [x for x in self.roots("grid") if x[0] not in self.changed]
        if not gs:
            return
        n, x = r.choice(gs)
        if self.points and r.random() < .25:
            k = self.mk_pgroup()
        else:
            k = self.mk_group()
        if self.w.roots[k - 1][0] == "group":
            self.do(op="rappend", a=[n], r=k)

    def s_shift(self):
        r = self.r
        by = r.choice([1, 2, 5, -1, 3, 0, -2])
        lo = []
        for a, t in self.tiers():
            pass
        if self.roots("grid") and r.random() < .5:
            self.do(op="shift", k="grid", a=[r.choice(self.roots("grid"))[0]], by=by)
        elif self.groups():
            self.do(op="shift", k="group", a=r.choice(self.groups())[0], by=by)

    def s_concat(self):
        r = self.r
        if r.random() < .35:
            ts = self.tiers(None, ("tier",)) if r.random() < .9 else self.tiers()
            if not ts:
                return
            a, t = r.choice(ts)
            c = t.entry_class.__name__
            if c not in self.w.ucls:
                return
            if c in self.points:
                self.mk_tier(c, self.pts())
            else:
                if r.random() < .1:
                    c = r.choice(r.choice(self.chains))
                self.mk_tier(c, self.cut(r.choice([0, 0, 1]), r.randint(4, 9)))
            self.do(op="concat", k="tier", a=a, r=len(self.w.roots))
            return
        gs = self.groups()
        if not gs:
            return
        a, g = r.choice(gs)
        k = self.like(g)
        if k:
            self.do(op="concat", k="group", a=a, r=k)

    def like(self, g, lo=None):
        """a free group with the same classes as g"""
        r = self.r
        cs = [t.entry_class.__name__ for t in g]
        if any(c not in self.w.ucls for c in cs):
            return None
        first = len(self.w.roots) + 1
        if type(g).__name__ == "PointsGroup":
            for c in cs:
                self.mk_tier(c, self.pts())
        else:
            if r.random() < .07:
                cs = cs[:-1] if len(cs) > 1 else list(r.choice(self.chains))[:1]
            lo = r.choice([0, 0, 0, 1, 2]) if lo is None else lo
            ts = self.nested(len(cs), lo, lo + r.randint(3, 8), stray=.05)
            for c, e in zip(cs, ts):
                self.mk_tier(c, e)
        self.do(op="mkgroup", rs=list(range(first, first + len(cs))))
        if self.w.roots[-1][0] != "group":
            return None
        return len(self.w.roots)

    def s_add(self):
        r = self.r
        if r.random() < .5:
            rs = self.roots("tier")
            if not rs:
                return
            n, t = r.choice(rs)
            c = t.entry_class.__name__
            if c in self.points:
                self.mk_tier(c, self.pts())
            else:
                x = max([0] + [self.w.sc.t(e) for e in t.ends])
                if r.random() < .1:
                    c = r.choice(r.choice(self.chains))
                self.mk_tier(c, self.cut(x, x + r.randint(3, 6)))
            m = len(self.w.roots)
        else:
            rs = self.roots("group")
            if not rs:
                return
            n, g = r.choice(rs)
            x = max([0] + [self.w.sc.t(e) for t in g if hasattr(t, "ends") for e in t.ends])
            m = self.like(g, x)
            if not m:
                return
        if r.random() < .3:
            n, m = m, n
        self.do(op="add", r1=n, r2=m)

    def s_interleave(self):
        r = self.r
        gs = self.roots("grid")
        if not gs or self.shared:
            return
        n, x = r.choice(gs)
        names = [c.__name__ for g in x for c in g.entry_classes if issubclass(c, SequenceInterval)]
        if not names:
            return
        self.nlab += 1
        self.do(op="interleave", a=[n], n="N%d" % self.nlab, w=r.choice(["above", "below"]), ref=r.choice(names),
                tf=r.choice(["above", "below"]), cl=r.random() < .6, bycls=r.choice([0, 1]))

    def s_popclass(self):
        r = self.r
        gs = self.roots("grid")
        if not gs or self.shared:
            return
        n, x = r.choice(gs)
        names = [c.__name__ for g in x for c in g.entry_classes]
        if not names:
            return
        self.do(op="popclass", a=[n], n=r.choice(names), bycls=r.choice([0, 0, 1]))

    def s_small(self):
        r = self.r
        c = self.tiered("I") + self.tiered("P")
        if not c:
            return
        a, n, o = r.choice(c)
        m = r.random()
        if m < .3:
            self.do(op="relabel", o=n, l=self.lab())
        elif m < .5 and self.groups():
            self.do(op="setname", a=r.choice(self.groups())[0], n=r.choice(["spk1", "spk2", "KB", "x1"]))
        elif m < .7:
            self.do(op="rename_tier", a=a, n=r.choice(["words", "phones", "t9", "spk - w"]))
        elif m < .85 and isinstance(o, SequenceInterval) and len(o) == 0 and self.w.roots[a[0]-1][0] == "tier":
            self.do(op="tpop", a=a, o=n)
        else:
            self.s_rerelate()

    def s_times(self):
        """times set by hand: all of a tier, or one boundary"""
        r = self.r
        T = self.w.sc.t
        if r.random() < .5:
            ts = self.tiers()
            if not ts:
                return
            a, t = r.choice(ts)
            if hasattr(t, "times"):
                new = [T(x) + 1 for x in t.times]
                w = "times"
            elif r.random() < .5:
                # every interval ends (starts) at most where its neighbour starts (ends)
                new = [r.randint(T(e.start) + 1, T(e.end)) for e in t]
                w = "ends"
            else:
                new = [r.randint(T(e.start), T(e.end) - 1) for e in t]
                w = "starts"
            if r.random() < .15:
                new = new + [99] if r.random() < .5 else new[:-1]
            self.do(op="settimes", a=a, w=w, ts=new)
        else:
            c = self.tiered("I")
            if not c:
                return
            a, n, o = r.choice(c)
            s, e = T(o.start), T(o.end)
            if e - s > 1:
                if r.random() < .5:
                    self.do(op="retime", o=n, w="e", t=r.randint(s + 1, e))
                else:
                    self.do(op="retime", o=n, w="s", t=r.randint(s, e - 1))

    def s_wrong(self):
        r = self.r
        k = r.choice(["interval", "point", "fol-self", "prev-self", "fol-class", "prev-class", "tier-append", "tier-add",
                      "tier-concat", "grid-index", "interleave", "interleave", "groups", "pnoop", "pnoop"])
        objs = [(n, o) for _, n, o in self.tiered("I") + self.tiered("P")] + self.loose("I")
        grids = self.roots("grid")
        if k == "interval":
            self.do(op="wrong", w=k, c=r.choice(r.choice(self.chains)))
        elif k == "point":
            if self.points:
                self.do(op="wrong", w=k, c=r.choice(self.points))
        elif k == "pnoop":
            p = self.tiered("P")
            if p:
                self.do(op="pnoop", o=r.choice(p)[1], x=r.choice(objs)[0], w=r.choice(["append", "plus", "in", "index"]))
        elif k in ("fol-self", "prev-self") and objs:
            self.do(op="wrong", w=k, o=r.choice(objs)[0])
        elif k in ("fol-class", "prev-class") and objs:
            n, o = r.choice(objs)
            xs = [m for m, x in objs if type(x).__name__ != type(o).__name__]
            if xs:
                self.do(op="wrong", w=k, o=n, x=r.choice(xs))
        elif k == "tier-append" and self.tiers():
            self.do(op="wrong", w=k, a=r.choice(self.tiers())[0], b=r.choice(self.tiers())[0])
        elif k in ("tier-add", "tier-concat") and self.tiers() and objs:
            self.do(op="wrong", w=k, a=r.choice(self.tiers())[0], o=r.choice(objs)[0])
        elif k == "grid-index" and grids:
            self.do(op="wrong", w=k, a=[r.choice(grids)[0]])
        elif k == "groups" and grids and self.tiers():
            self.do(op="wrong", w=k, a=[r.choice(grids)[0]], b=r.choice(self.tiers())[0])
        elif k == "interleave" and grids:
            n, x = r.choice(grids)
            names = [c.__name__ for g in x for c in g.entry_classes if issubclass(c, SequenceInterval)]
            if names:
                c = r.choice(names)
                kw = r.choice([dict(name="N0", above=c, below=c), dict(name="N0"), dict(name="", above=c), dict(above=c),
                               dict(name="N0", below=c, timing_from="beside"), dict(name="N0", above=c, timing_from=""),
                               dict(name="N0", above="Nothing"), dict(name="N0", below="Nothing")])
                self.do(op="wrong", w=k, a=[n], kw=kw)

    def s_classes(self):
        r = self.r
        gs = self.roots("grid")
        if gs:
            n, x = r.choice(gs)
            names = [c.__name__ for g in x for c in g.entry_classes] + ["Nothing"]
            self.do(op="clsbyname", a=[n], n=r.choice(names))

    def s_rerelate(self):
        gs = self.groups("I")
        if gs:
            self.do(op="rerelate", a=self.r.choice(gs)[0])

    def s_query(self):
        r = self.r
        t, h = r.randint(-1, 16), r.choice([0, 1])
        m = r.random()
        if m < .2 and self.roots("grid"):
            self.do(op="at", k="grid", a=[r.choice(self.roots("grid"))[0]], t=t, h=h)
        elif m < .4 and self.groups("I"):
            self.do(op="at", k="group", a=r.choice(self.groups("I"))[0], t=t, h=h)
        elif m < .7 and self.tiers("I"):
            self.do(op="at", k="tier", a=r.choice(self.tiers("I"))[0], t=t, h=h)
        elif self.roots("grid") and m < .85:
            n, x = r.choice(self.roots("grid"))
            k = len(x) + (0 if r.random() < .85 else r.choice([-1, 1]))
            self.do(op="index", k="grid", a=[n], ix=[r.randint(0, max(0, len(g) - 1)) if r.random() < .93 else len(g) for g in x][:k] + [0] * (k - len(x)))
        elif self.groups():
            a, g = r.choice(self.groups())
            k = len(g) + (0 if r.random() < .85 else r.choice([-1, 1]))
            ix = [r.randint(0, max(0, len(u) - 1)) if r.random() < .93 else len(u) for u in g][:k] + [0] * (k - len(g))
            self.do(op="index", k="group", a=a, ix=ix)

    def s_points(self):
        r = self.r
        if not self.points:
            return
        ts = self.tiers("P")
        if not ts or r.random() < .2:
            if r.random() < .5:
                self.mk_tier(r.choice(self.points), self.pts())
            else:
                self.mk_pgroup()
            return
        a, t = r.choice(ts)
        m = r.random()
        if m < .3:
            if r.random() < .6:
                self.do(op="nearest", k="tier", a=a, t=r.randint(-1, 15), h=r.choice([0, 1]))
            elif self.groups("P"):
                self.do(op="nearest", k="group", a=r.choice(self.groups("P"))[0], t=r.randint(-1, 15), h=r.choice([0, 1]))
        elif m < .5 and len(t):
            c = self.tiered("I") + self.tiered("P")
            _, n, o = r.choice(self.tiered("P"))
            _, x, _ = r.choice(c)
            self.do(op="pdist", o=n, x=x)
        elif m < .7 and self.tiers("I") and self.tiered("P"):
            _, n, o = r.choice(self.tiered("P"))
            self.do(op="pat", o=n, a=r.choice(self.tiers("I"))[0])
        elif m < .85:
            n = self.mk_pobj()
            self.do(op="tappend", o=n, a=a)
        elif self.w.roots[a[0] - 1][0] == "tier":
            c = t.entry_class.__name__
            self.mk_tier(c, self.pts())
            self.do(op=r.choice(["concat"]), k="tier", a=a, r=len(self.w.roots))

    def s_df(self):
        r = self.r
        m = r.random()
        sub = r.random() < .6
        if m < .3 and self.roots("grid"):
            self.do(op="df", k="grid", a=[r.choice(self.roots("grid"))[0]], sub=sub)
        elif m < .55 and self.groups():
            self.do(op="df", k="group", a=r.choice(self.groups())[0], sub=sub)
        elif m < .8 and self.tiers():
            self.do(op="df", k="tier", a=r.choice(self.tiers())[0], sub=sub)
        else:
            c = [(n, o) for _, n, o in self.tiered("I") + self.tiered("P")] + self.loose("I")
            if c:
                self.do(op="df", k="obj", o=r.choice(c)[0], sub=sub)

    def s_io(self):
        r = self.r
        gs = self.roots("grid")
        m = r.random()
        if gs and m < .5:
            n, x = r.choice(gs)
            ec, ok = [], True
            for g in x:
                names = [c.__name__ for c in g.entry_classes]
                ok = ok and all(c in self.w.ucls for c in names)
                if type(g).__name__ == "TierGroup":
                    # the hierarchy must be the user's
                    h = self.hier(g.entry_classes[0])
                    ok = ok and h in self.chains and names == h[:len(names)]
                ec.append(names)
            if ok and len(x):
                self.do(op="saveload", a=[n], ec=ec, ch=self.chains, drop=r.random() < .5,
                        fmt=r.choice(["short_textgrid", "long_textgrid", "json", "textgrid_json"][:2] + ["textgrid_json"]))
        elif gs and m < .8:
            self.do(op="rettg", a=[r.choice(gs)[0]])
        elif self.tiers():
            self.do(op="tiersave", a=r.choice(self.tiers())[0])

    def s_pickle(self):
        r = self.r
        c = [n for n, (k, x) in enumerate(self.w.roots, 1) if k != "gone"]
        if c:
            drop = r.random() < .6
            self.shared = self.shared or not drop
            self.do(op="pickle", a=[r.choice(c)], drop=drop)

    def s_build(self):
        r = self.r
        m = r.random()
        if m < .04:
            # an empty TextGrid, and what comes into it
            self.do(op="mkgrid", rs=[])
            n = len(self.w.roots)
            for _ in range(r.randint(0, 2)):
                k = self.mk_pgroup() if self.points and r.random() < .3 else self.mk_group()
                if self.w.roots[k - 1][0] == "group":
                    self.do(op="rappend", a=[n], r=k)
        elif m < .25:
            self.mk_read()
        elif m < .5:
            self.mk_group(mis=.15, top=r.random() < .85)
        elif m < .7:
            self.mk_grid()
        elif m < .85:
            c = r.choice(r.choice(self.chains))
            self.mk_tier(c, self.cut(0, 10))
        else:
            self.mk_obj()

    PROFILES = {
        "mixed": dict(build=2, cleanup=2, fuse=3, tappend=2, oappend=2, loose=1, gappend=1, rappend=1, shift=1, concat=1,
                      add=1, interleave=1, popclass=1, small=1, rerelate=1, query=1, points=1, df=1, io=1, pickle=.3, validate=1,
                      times=.7, wrong=.7),
        "relate": dict(build=6, rerelate=3, cleanup=3, gappend=2, rappend=1, validate=1, times=1),
        "wrong": dict(build=1, wrong=8, tappend=1, interleave=.5, times=.5),
        "fuse": dict(build=1, fuse=8, cleanup=1, rerelate=1),
        "append": dict(build=1, tappend=5, oappend=4, gappend=3, rappend=2, fuse=.5, cleanup=.5),
        "loose": dict(build=.5, loose=8, oappend=2, validate=1),
        "classes": dict(build=2, interleave=4, popclass=3, rappend=1, cleanup=1, fuse=1, small=.5, df=.3),
        "joins": dict(build=2, concat=4, add=4, shift=3, fuse=1),
        "points": dict(build=1, points=8, concat=1, add=1, shift=1, rappend=.5, small=.5, query=1, wrong=.7, times=.5),
        "io": dict(build=4, io=5, cleanup=1, fuse=1, small=1, shift=.3, rappend=.5),
        "read": dict(build=1, io=1),
        "df": dict(build=2, df=5, fuse=1, cleanup=1, tappend=1, points=1),
        "query": dict(build=2, query=6, fuse=1, tappend=1, points=2),
        "pickle": dict(build=2, pickle=2, fuse=3, cleanup=1, tappend=1, interleave=1, popclass=1),
        "names": dict(build=2, small=5, gappend=2, rappend=2, interleave=1, popclass=1, rerelate=1, cleanup=1, classes=1.5),
    }

    def run(self, profile, nops=10, maxobj=55):
        r = self.r
        W = self.PROFILES[profile]
        ks, ws = list(W), list(W.values())
        if profile == "loose":
            self.mk_obj()
        elif profile == "points":
            self.mk_pgroup()
        elif profile in ("classes", "io", "names"):
            r.choice([self.mk_read, self.mk_grid])()
        elif profile == "read":
            self.mk_read(mis=.15)
        else:
            r.choice([self.mk_read, self.mk_grid, self.mk_group])()
        guard = 0
        while len(self.ops) < nops and guard < nops * 3 and not self.dead and len(self.w.objs) < maxobj:
            guard += 1
            getattr(self, "s_" + r.choices(ks, ws)[0])()
        return self


def limited(limit, f):
    """run f for at most `limit` seconds of processor time"""
    def on_alarm(sig, frm):
        raise ScenarioTimeout()
    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        f()
    except Stop:
        pass
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def generate(seed, profile, tmp, nops=10, limit=12):
    """one scenario and its log"""
    g = Gen(seed, tmp, profile)
    try:
        limited(limit, lambda: g.run(profile, nops))
    except (Exception, ScenarioTimeout):
        # the generator only looks at the public interface: it does not work any more
        last = g.log[-1]
        g.log.append(dict(last, ret="unobservable", op=last["op"]))
    return g.scenario(), g.log


def replay(sc, tmp, limit=12):
    """the log of given operations"""
    w = World(sc["chains"], sc.get("points", []), sc.get("scale", 0), tmp)
    st, D, V = w.observe()
    log = [{"op": {"op": "init"}, "ret": "ok", "val": [], "st": st, "D": D, "V": V}]

    def run():
        for op in sc["ops"]:
            ret, val, st, D, V = step(w, op, log[-1])
            log.append({"op": op, "ret": ret, "val": val, "st": st, "D": D, "V": V})
            if ret in ("timeout", "unobservable"):
                break
    try:
        limited(limit, run)
    except ScenarioTimeout:
        log.append(dict(log[-1], ret="timeout"))
    return sc, log


def replay_last(sc, tmp, limit=12):
    """run the operations; the log has the states before and after the last sc["tail"] (1) operations"""
    w = World(sc["chains"], sc.get("points", []), sc.get("scale", 0), tmp)
    st, D, V = w.observe()
    log = [{"op": {"op": "init"}, "ret": "ok", "val": [], "st": st, "D": D, "V": V}]
    n = len(sc["ops"]) - sc.get("tail", 1)

    def run():
        cp = []
        for op in sc["ops"][:n]:
            ret = w.do(op)
            w.discover()
            if op["op"] == "pickle":
                cp.append(len(w.roots))
        if n > 0:
            st, D, V = w.observe()
            log.append({"op": {"op": "resume", "cp": cp}, "ret": "ok", "val": [], "st": st, "D": D, "V": V})
        for op in sc["ops"][n:]:
            ret, val, st, D, V = step(w, op, log[-1])
            log.append({"op": op, "ret": ret, "val": val, "st": st, "D": D, "V": V})
            if ret in ("timeout", "unobservable"):
                break
    try:
        limited(limit, run)
    except ScenarioTimeout:
        log.append(dict(log[-1], op=sc["ops"][-1], ret="timeout"))
    except Exception:
        log.append(dict(log[-1], op=sc["ops"][-1], ret="unobservable"))
    return sc, log
