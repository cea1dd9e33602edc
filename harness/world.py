"""
World: executes abstract operations (JSON records) on the real
aligned_textgrid objects and projects what can be observed through the public
API into integers, strings and sequences that the TLA+ trace specification
(spec/TraceATG.tla) can judge.

Nothing here decides whether an observation is right: the projection only
reports.  Interval/point objects get small integer ids in a canonical
discovery order (roots -> groups -> tiers -> entries, then subset lists and
supersets of what is known), which spec/ATG.tla reproduces (`Canon`).
"""
import os, sys, io, warnings, tempfile, shutil, signal, contextlib

REPO = os.environ.get("ATG_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
warnings.simplefilter("ignore")

import numpy as np
import cloudpickle
from praatio.data_classes.textgrid import Textgrid
from praatio.data_classes.interval_tier import IntervalTier
from praatio.data_classes.point_tier import PointTier
import aligned_textgrid as AT
from aligned_textgrid import (SequenceInterval, SequencePoint, SequenceTier,
                              SequencePointTier, TierGroup, PointsGroup,
                              AlignedTextGrid, Word, Phone, custom_classes, to_df)
from aligned_textgrid.sequences.sequences import Top, Bottom
from aligned_textgrid.sequence_list import SequenceList

OFF = 999999          # a time that is not on the tick grid
NONE = -999999        # None where a time was expected
# ids
BOUNDARY, NOLINK, UNKNOWN = 0, -1, -2


class ScenarioTimeout(BaseException):
    pass


class Scale:
    """ticks <-> seconds"""
    def __init__(self, unit=1.0, off=0.0, as_int=False):
        self.unit, self.off, self.as_int = unit, off, as_int

    def f(self, tick):
        x = self.off + tick * self.unit
        if self.as_int and float(x).is_integer():
            return int(x)
        return x

    def inc(self, tick):
        x = tick * self.unit
        if self.as_int and float(x).is_integer():
            return int(x)
        return x

    def t(self, x, delta=False):
        if x is None:
            return NONE
        try:
            x = float(x)
            if x != x or x in (float("inf"), float("-inf")):
                return OFF
            base = 0.0 if delta else self.off
            n = int(round((x - base) / self.unit))
            if abs(n) > 900000:
                return OFF
            if abs(base + n * self.unit - x) <= 1e-9 * max(1.0, abs(x)):
                return n
        except Exception:
            pass
        return OFF


SCALES = [
    Scale(1.0, 0.0), Scale(1, 0, True), Scale(0.1, 0.0), Scale(1 / 3, 0.0),
    Scale(0.1234567891, 0.0), Scale(0.0625, 2.5), Scale(0.5, -3.0), Scale(7.25, 14.5),
]


class World:
    def __init__(self, chains, points=(), scale=0, tmp=None):
        self.sc = SCALES[scale]
        self.objs, self.oid = [], {}
        self.roots = []            # [kind, pyobj]
        self.classes, self.cid = [], {}
        self.was_tiered = set()
        self.free = set()          # ids of objects made by mkobj
        self.tmp = tmp
        self.ucls = {}
        self.keep = []
        for ch in chains:
            if ch == ["Word", "Phone"]:
                cl = [Word, Phone]
            elif ch == ["SequenceInterval"]:
                cl = [SequenceInterval]
            else:
                cl = custom_classes(list(ch))
            for n, c in zip(ch, cl):
                self.ucls[n] = c
        for n in points:
            self.ucls[n] = SequencePoint if n == "SequencePoint" else custom_classes([n], points=[0])[0]
        for n in list(self.ucls):
            self.class_id(self.ucls[n])
        self.nuser = len(self.classes)

    # ------------------------------------------------------------ registries
    def class_id(self, c):
        if c is None:
            return 0
        if id(c) in self.cid:
            return self.cid[id(c)]
        self.classes.append(c)
        self.cid[id(c)] = len(self.classes)
        if isinstance(c, type) and issubclass(c, SequenceInterval):
            # discover the whole hierarchy around it
            self.class_id(c.superset_class)
            self.class_id(c.subset_class)
        return self.cid[id(c)]

    def reg(self, o):
        if id(o) not in self.oid:
            self.objs.append(o)
            self.oid[id(o)] = len(self.objs)
        return self.oid[id(o)]

    def ref(self, o):
        """id of an object seen through a link"""
        if o is None:
            return NOLINK
        if id(o) in self.oid:
            return self.oid[id(o)]
        try:
            if o.label == "#" and (getattr(o, "start", None) is None):
                return BOUNDARY
        except Exception:
            pass
        return UNKNOWN

    def obj(self, i):
        return self.objs[i - 1]

    # ------------------------------------------------------------ traversal
    def groups_of(self, root):
        kind, x = root
        if kind == "grid":
            return list(x)
        if kind == "group":
            return [x]
        return []

    def iter_tiers(self):
        for ri, (kind, x) in enumerate(self.roots, 1):
            if kind == "tier":
                yield (ri, 1, 1), x
            elif kind in ("grid", "group"):
                for gi, g in enumerate(self.groups_of((kind, x)), 1):
                    for ti, t in enumerate(g, 1):
                        yield (ri, gi, ti), t

    def discover(self):
        for addr, t in self.iter_tiers():
            for e in t:
                i = self.reg(e)
                self.was_tiered.add(i)
        k = 0
        while k < len(self.objs):
            o = self.objs[k]
            if isinstance(o, SequenceInterval):
                for c in o.subset_list:
                    self.reg(c)
                if o.super_instance is not None:
                    self.reg(o.super_instance)
            k += 1

    # ------------------------------------------------------------ projection
    def observe(self):
        self.discover()
        loc, tid = {}, {}
        for addr, t in self.iter_tiers():
            tid[id(t)] = list(addr)
            for e in t:
                loc.setdefault(id(e), list(addr))
        live = set()
        for i, o in enumerate(self.objs, 1):
            if id(o) in loc:
                live.add(i)
            elif i not in self.was_tiered:
                # outside of tiers; not part of anything if its superset is not
                u, n = getattr(o, "super_instance", None), 0
                while u is not None and n < 20 and id(u) not in loc and self.oid.get(id(u)) not in self.was_tiered:
                    u, n = u.super_instance, n + 1
                if u is None or n == 20 or id(u) in loc:
                    live.add(i)
        self.live = live
        O, D = [], []
        for i, o in enumerate(self.objs, 1):
            O.append(self.core(o, i in live))
            D.append(self.derived(o, i, tid) if i in live else {})
        R, V = [], []
        for kind, x in self.roots:
            r, v = self.root(kind, x)
            R.append(r); V.append(v)
        K = []
        k = 0
        while k < len(self.classes):
            c = self.classes[k]
            if isinstance(c, type) and issubclass(c, SequenceInterval):
                K.append({"n": c.__name__, "k": "I", "up": self.class_id(c.superset_class),
                          "dn": self.class_id(c.subset_class)})
            elif isinstance(c, type) and issubclass(c, SequencePoint):
                K.append({"n": c.__name__, "k": "P", "up": 0, "dn": 0})
            elif isinstance(c, type) and issubclass(c, Top):
                K.append({"n": "Top", "k": "T", "up": 0, "dn": 0})
            elif isinstance(c, type) and issubclass(c, Bottom):
                K.append({"n": "Bottom", "k": "B", "up": 0, "dn": 0})
            else:
                K.append({"n": "?", "k": "?", "up": 0, "dn": 0})
            k += 1
        return {"O": O, "R": R, "K": K}, D, V

    def core(self, o, live):
        T = self.sc.t
        if isinstance(o, SequencePoint):
            return {"k": "P" if live else "X", "c": self.class_id(type(o)), "s": T(o.time),
                    "e": T(o.time), "l": str(o.label), "p": 0}
        p = o.super_instance
        return {"k": "I" if live else "X", "c": self.class_id(type(o)), "s": T(o.start), "e": T(o.end),
                "l": str(o.label), "p": 0 if p is None else self.oid.get(id(p), UNKNOWN)}

    @staticmethod
    def attempt(f, default):
        try:
            return f()
        except Exception:
            return default

    def derived(self, o, i, tid):
        T, A = self.sc.t, self.attempt
        d = {"pv": self.ref(o.prev), "fo": self.ref(o.fol)}
        t = o.intier
        d["t"] = [0, 0, 0] if t is None else tid.get(id(t), [-1, -1, -1])
        d["ti"] = A(lambda: NOLINK if o.tier_index is None else int(o.tier_index), UNKNOWN)
        tw = []
        for k in (-2, -1, 0, 1, 2):
            try:
                x = o.get_tierwise(k)
                tw.append(NOLINK if x is None else self.oid.get(id(x), UNKNOWN))
            except IndexError:
                tw.append(0)
            except Exception:
                tw.append(UNKNOWN)
        d["tw"] = tw
        w = A(lambda: o.within, UNKNOWN)
        if w is None:
            d["wk"], d["wr"] = "none", [0]
        elif id(w) in self.oid:
            d["wk"], d["wr"] = "obj", [self.oid[id(w)]]
        elif id(w) in tid:
            d["wk"], d["wr"] = "tier", tid[id(w)]
        else:
            d["wk"], d["wr"] = "other", [0]
        d["wi"] = A(lambda: NOLINK if o.within_index is None else int(o.within_index), UNKNOWN)
        d["pa"] = A(lambda: [int(k) for k in o.within_path], [UNKNOWN])
        d["id"] = A(lambda: str(o.id), "?")
        d["res"] = A(lambda: self.resolve(o), UNKNOWN)
        d["ec"] = A(lambda: self.class_id(o.entry_class), UNKNOWN)
        d["rp"] = A(lambda: 1 if isinstance(repr(o), str) else 0, 0)
        d["rt"] = A(lambda: self.praat(o.return_praatio()), [])
        if isinstance(o, SequenceInterval):
            sub = list(o.subset_list)
            d["kids"] = [self.oid.get(id(c), UNKNOWN) for c in sub]
            d["it"] = A(lambda: [self.oid.get(id(c), UNKNOWN) for c in o], [UNKNOWN])
            d["ct"] = A(lambda: [self.oid.get(id(c), UNKNOWN) for c in o.contains], [UNKNOWN])
            d["ss"] = A(lambda: [T(x) for x in o.sub_starts], [OFF])
            d["se"] = A(lambda: [T(x) for x in o.sub_ends], [OFF])
            d["sl"] = A(lambda: [str(x) for x in o.sub_labels], ["?"])
            d["n"] = A(lambda: len(o), UNKNOWN)
            d["fi"] = self.edge(o, "first")
            d["la"] = self.edge(o, "last")
            d["du"] = A(lambda: T(o.duration, True), OFF)
            n = len(sub)
            d["gi"] = A(lambda: [self.oid.get(id(o[k]), UNKNOWN) for k in range(n)], [UNKNOWN])
            d["gn"] = A(lambda: [self.oid.get(id(o[k]), UNKNOWN) for k in range(-n, 0)], [UNKNOWN])
            # the conveniences of words and phones, where the class has them
            d["pl"] = A(lambda: [self.oid.get(id(c), UNKNOWN) for c in o.phone_list], [UNKNOWN]) if hasattr(type(o), "phone_list") else d["kids"]
            d["ph"] = A(lambda: [str(x) for x in o.phones], ["?"]) if hasattr(type(o), "phones") else d["sl"]
            d["iw"] = self.ref(A(lambda: o.inword, o)) if hasattr(type(o), "inword") else self.ref(o.super_instance)
        else:
            d["kids"] = []
        return d

    def praat(self, e):
        if hasattr(e, "time"):
            return [self.sc.t(e.time), self.sc.t(e.time), str(e.label)]
        return [self.sc.t(e.start), self.sc.t(e.end), str(e.label)]

    def edge(self, o, which):
        try:
            return self.oid.get(id(getattr(o, which)), UNKNOWN)
        except IndexError:
            return 0
        except Exception:
            return UNKNOWN

    def resolve(self, o):
        """follow the path from the outermost container down again"""
        path = list(o.within_path)
        top, n = o, 0
        while top.within is not None and n < 20:
            top, n = top.within, n + 1
        cur = top
        for k in path:
            cur = cur.contains[k]
        return self.oid.get(id(cur), UNKNOWN)

    def tier(self, t):
        T, A = self.sc.t, self.attempt
        q = [self.reg(e) for e in t]
        r = {"c": self.class_id(t.entry_class), "n": str(t.name), "q": q}
        v = {"lb": A(lambda: [str(x) for x in t.labels], ["?"]),
             "xn": A(lambda: T(t.xmin), OFF), "xx": A(lambda: T(t.xmax), OFF),
             "n": A(lambda: len(t), UNKNOWN), "fi": self.edge(t, "first"), "la": self.edge(t, "last"),
             "ix": A(lambda: [int(t.index(e)) for e in t], [UNKNOWN]),
             "tn": A(lambda: [str(e.tiername) for e in t], ["?"]),
             "gi": A(lambda: [self.oid.get(id(t[k]), UNKNOWN) for k in range(len(t))], [UNKNOWN]),
             "gn": A(lambda: [self.oid.get(id(t[k]), UNKNOWN) for k in range(-len(t), 0)], [UNKNOWN]),
             "sl": A(lambda: [self.oid.get(id(e), UNKNOWN) for e in t[1:]], [UNKNOWN]),
             "in": A(lambda: [1 if e in t else 0 for e in t], [0]),
             "rp": A(lambda: 1 if isinstance(repr(t), str) else 0, 0),
             "pa": A(lambda: [int(k) for k in t.within_path], [UNKNOWN])}
        if isinstance(t, SequencePointTier):
            v["st"] = A(lambda: [T(x) for x in t.times], [OFF])
            v["en"] = v["st"]
            v["up"], v["dn"] = 0, 0
        else:
            v["st"] = A(lambda: [T(x) for x in t.starts], [OFF])
            v["en"] = A(lambda: [T(x) for x in t.ends], [OFF])
            v["up"] = self.class_id(t.superset_class)
            v["dn"] = self.class_id(t.subset_class)
        return r, v

    def chain(self, tier):
        """the class hierarchy of a tier, top first"""
        out = []
        c, n = tier.entry_class, 0
        while c is not None and not issubclass(c.superset_class, Top) and n < 20:
            c, n = c.superset_class, n + 1
        n = 0
        while c is not None and not issubclass(c, Bottom) and n < 20:
            out.append(self.class_id(c)); c, n = c.subset_class, n + 1
        return out

    def group(self, g):
        T, A = self.sc.t, self.attempt
        tiers = list(g)
        rs, vs = [], []
        for t in tiers:
            r, v = self.tier(t)
            acc = getattr(g, t.entry_class.__name__, None)
            v["acc"] = next((k for k, u in enumerate(tiers, 1) if u is acc), 0)
            v["win"] = t.within is g
            rs.append(r); vs.append(v)
        kind = "P" if isinstance(g, PointsGroup) else "I"
        chain = self.chain(tiers[0]) if kind == "I" and tiers else []
        r = {"k": kind, "n": A(lambda: str(g.name), "?"), "h": chain, "ts": rs}
        v = {"ts": vs, "xn": A(lambda: T(g.xmin), OFF), "xx": A(lambda: T(g.xmax), OFF),
             "ec": A(lambda: [self.class_id(c) for c in g.entry_classes], [UNKNOWN]),
             "tn": A(lambda: [str(n) for n in g.tier_names], ["?"]),
             "n": A(lambda: len(g), UNKNOWN),
             "ix": A(lambda: [int(g.index(t)) for t in tiers], [UNKNOWN]),
             "rp": A(lambda: 1 if isinstance(repr(g), str) else 0, 0),
             "pa": A(lambda: [int(k) for k in g.within_path], [UNKNOWN])}
        return r, v

    def root(self, kind, x):
        T, A = self.sc.t, self.attempt
        if kind == "gone":
            return {"k": "gone", "gs": []}, {"gs": []}
        if kind == "tier":
            r, v = self.tier(x)
            v["acc"], v["win"] = 0, x.within is None
            k = "P" if isinstance(x, SequencePointTier) else "I"
            return ({"k": "tier", "gs": [{"k": k, "n": "", "h": self.chain(x) if k == "I" else [], "ts": [r]}]},
                    {"gs": [{"ts": [v]}]})
        if kind == "group":
            r, v = self.group(x)
            v["acc"], v["win"] = 0, x.within is None
            return {"k": "group", "gs": [r]}, {"gs": [v]}
        gs, vs = [], []
        groups = list(x)
        for g in groups:
            r, v = self.group(g)
            acc = getattr(x, r["n"], None)
            v["acc"] = next((k for k, u in enumerate(groups, 1) if u is acc), 0)
            v["win"] = g.within is x
            gs.append(r); vs.append(v)
        return ({"k": "grid", "gs": gs},
                {"gs": vs, "n": A(lambda: len(x), UNKNOWN),
                 "ix": A(lambda: [int(x.index(g)) for g in groups], [UNKNOWN]),
                 "tn": A(lambda: [[str(n) for n in g] for g in x.tier_names], [["?"]]) if groups else [],
                 "rp": A(lambda: 1 if isinstance(repr(x), str) else 0, 0),
                 "xn": A(lambda: T(x.xmin), OFF), "xx": A(lambda: T(x.xmax), OFF),
                 "ec": A(lambda: [[self.class_id(c) for c in g] for g in x.entry_classes], [[UNKNOWN]])})

    # ------------------------------------------------------------ addressing
    def tier_at(self, a):
        kind, x = self.roots[a[0] - 1]
        if kind == "tier":
            return x
        return self.group_at(a[:2])[a[2] - 1]

    def group_at(self, a):
        kind, x = self.roots[a[0] - 1]
        if kind == "group":
            return x
        return x[a[1] - 1]

    def ent(self, cls, e):
        s, en, l = e
        if issubclass(cls, SequencePoint):
            return cls((self.sc.f(s), l))
        return cls((self.sc.f(s), self.sc.f(en), l))

    def mk_tree(self, node):
        """node = {"c":cls,"s":,"e":,"l":,"kids":[...]} ; ids in pre-order"""
        o = self.ent(self.ucls[node["c"]], (node["s"], node["e"], node["l"]))
        i = self.reg(o)
        self.free.add(i)
        kids = [self.mk_tree(k) for k in node.get("kids", [])]
        if kids:
            o.set_subset_list(SequenceList(*kids))
        return o

    # ------------------------------------------------------------ operations
    def do(self, op):
        """run one operation; returns (ret, val)"""
        f = getattr(self, "op_" + op["op"])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                v = f(op)
            return "ok", ([] if v is None else v)
        except ScenarioTimeout:
            return "timeout", []
        except RecursionError:
            return "exc:RecursionError", []
        except Exception as ex:
            return "exc:" + type(ex).__name__, []

    def op_mkobj(self, op):
        self.keep.append(self.mk_tree(op["tree"]))

    def op_mktier(self, op):
        ents = [tuple(e) for e in op["ents"]]
        cls = self.ucls[op["c"]]
        point = issubclass(cls, SequencePoint)
        TierC = SequencePointTier if point else SequenceTier
        how = op.get("how", "objs")
        if how == "praat":
            if point:
                src = PointTier(op["n"], [(self.sc.f(e[0]), e[2]) for e in ents])
            else:
                src = IntervalTier(op["n"], [(self.sc.f(e[0]), self.sc.f(e[1]), e[2]) for e in ents])
            t = TierC(src, entry_class=cls)
        else:
            objs = [self.ent(cls, e) for e in ents]
            if how == "list":
                objs = SequenceList(*objs)
            if how == "raw":
                objs = [o.return_praatio() for o in objs]
            if how == "tier":
                objs = TierC(objs, entry_class=cls)
            t = TierC(objs) if how == "noclass" else TierC(objs, entry_class=cls)
            t.name = op["n"]
        self.roots.append(["tier", t])

    def take(self, r):
        x = self.roots[r - 1][1]
        self.roots[r - 1] = ["gone", None]
        return x

    def op_mkgroup(self, op):
        ts = [self.roots[r - 1][1] for r in op["rs"]]
        point = isinstance(ts[0], SequencePointTier)
        g = (PointsGroup if point else TierGroup)(ts)
        for r in op["rs"]:
            self.take(r)
        self.roots.append(["group", g])

    def op_mkempty(self, op):
        """a group made without tiers"""
        self.roots.append(["group", PointsGroup() if op["k"] == "P" else TierGroup()])

    def op_mkgrid(self, op):
        gs = [self.roots[r - 1][1] for r in op["rs"]]
        x = AlignedTextGrid(gs)
        for r in op["rs"]:
            self.take(r)
        self.roots.append(["grid", x])

    def praat_tg(self, tiers):
        tg = Textgrid()
        for t in tiers:
            lo, hi = self.sc.f(t["lo"]), self.sc.f(t["hi"])
            if t["k"] == "P":
                tg.addTier(PointTier(t["n"], [(self.sc.f(e[0]), e[2]) for e in t["ents"]], lo, hi))
            else:
                tg.addTier(IntervalTier(t["n"], [(self.sc.f(e[0]), self.sc.f(e[1]), e[2])
                                                 for e in t["ents"]], lo, hi))
        return tg

    def cls_arg(self, ec):
        if isinstance(ec, list):
            return [self.cls_arg(e) for e in ec]
        return self.ucls[ec]

    def op_read(self, op):
        tg = self.praat_tg(op["tiers"])
        ec = self.cls_arg(op["ec"])
        if op.get("tup"):
            ec = tuple(tuple(e) if isinstance(e, list) else e for e in ec)
        if op.get("file"):
            p = os.path.join(self.tmp, "r.TextGrid")
            tg.save(p, format=op["file"], includeBlankSpaces=False)
            x = AlignedTextGrid(p, ec) if op.get("kw", 0) == 0 else AlignedTextGrid(textgrid_path=p, entry_classes=ec)
        elif op.get("default"):
            x = AlignedTextGrid(tg)
        else:
            x = AlignedTextGrid(tg, entry_classes=ec)
        self.roots.append(["grid", x])

    def op_rerelate(self, op):
        self.group_at(op["a"]).re_relate()

    def op_cleanup(self, op):
        k = op["k"]
        if k == "grid":
            self.roots[op["a"][0] - 1][1].cleanup()
        elif k == "group":
            self.group_at(op["a"]).cleanup()
        elif k == "tier":
            self.tier_at(op["a"]).cleanup()
        else:
            self.obj(op["o"]).cleanup()

    def op_fuse(self, op):
        o = self.obj(op["o"])
        kw = {}
        if "lf" in op:
            sep = op["lf"]
            kw["label_fun"] = lambda a, b: a + sep + b
        name = {"r": ("fuse_rightwards", "fuse_rightward"),
                "l": ("fuse_leftwards", "fuse_leftward")}[op["d"]][op.get("alias", 0)]
        getattr(o, name)(**kw)

    def op_tappend(self, op):
        o = self.obj(op["o"])
        t = self.tier_at(op["a"])
        if op.get("rel", True):
            t.append(o)
        else:
            t.append(o, re_relate=False)

    def op_oappend(self, op):
        self.obj(op["o"]).append(self.obj(op["x"]))

    def op_gappend(self, op):
        t = self.roots[op["r"] - 1][1]
        self.group_at(op["a"]).append(t)
        self.take(op["r"])

    def op_rappend(self, op):
        g = self.roots[op["r"] - 1][1]
        self.roots[op["a"][0] - 1][1].append(g)
        self.take(op["r"])

    def op_shift(self, op):
        inc = self.sc.inc(op["by"])
        if op["k"] == "grid":
            self.roots[op["a"][0] - 1][1].shift(inc)
        else:
            self.group_at(op["a"]).shift(inc)

    def op_concat(self, op):
        if op["k"] == "tier":
            self.tier_at(op["a"]).concat(self.roots[op["r"] - 1][1])
        else:
            self.group_at(op["a"]).concat(self.roots[op["r"] - 1][1])
        self.take(op["r"])

    def op_add(self, op):
        x = self.roots[op["r1"] - 1][1] + self.roots[op["r2"] - 1][1]
        kind = self.roots[op["r1"] - 1][0]
        self.take(op["r1"]); self.take(op["r2"])
        self.roots.append([kind, x])

    def op_interleave(self, op):
        x = self.roots[op["a"][0] - 1][1]
        ref = op["ref"]
        if op.get("bycls"):
            ref = x.get_class_by_name(ref)
        kw = {op["w"]: ref, "timing_from": op["tf"], "copy_labels": op["cl"]}
        x.interleave_class(op["n"], **kw)

    def op_popclass(self, op):
        x = self.roots[op["a"][0] - 1][1]
        ref = op["n"]
        if op.get("bycls"):
            ref = x.get_class_by_name(ref)
        x.pop_class(ref)

    def op_tpop(self, op):
        self.tier_at(op["a"]).pop(self.obj(op["o"]))

    def op_relabel(self, op):
        self.obj(op["o"]).label = op["l"]

    def op_retime(self, op):
        """move the shared boundary between obj o and its tier neighbour"""
        o = self.obj(op["o"])
        if op["w"] == "e":
            o.end = self.sc.f(op["t"])
        else:
            o.start = self.sc.f(op["t"])

    def op_setname(self, op):
        self.group_at(op["a"]).name = op["n"]

    def op_saveload(self, op):
        x = self.roots[op["a"][0] - 1][1]
        p = os.path.join(self.tmp, "s.TextGrid")
        x.save_textgrid(p, op["fmt"])
        ec = [[self.ucls[c] for c in g] for g in op["ec"]]
        if op.get("drop"):
            self.take(op["a"][0])
        self.roots.append(["grid", AlignedTextGrid(p, ec)])

    def op_rettg(self, op):
        """return_textgrid: what would be saved"""
        tg = self.roots[op["a"][0] - 1][1].return_textgrid()
        out = []
        for t in tg.tiers:
            if isinstance(t, PointTier):
                out.append({"n": t.name, "k": "P", "e": [[self.sc.t(e.time), self.sc.t(e.time), e.label] for e in t.entries]})
            else:
                out.append({"n": t.name, "k": "I", "e": [[self.sc.t(e.start), self.sc.t(e.end), e.label] for e in t.entries]})
        return out

    def op_tiersave(self, op):
        """save a single tier and read the file back with praatio"""
        t = self.tier_at(op["a"])
        p = os.path.join(self.tmp, "t.TextGrid")
        t.save_as_tg(p)
        from praatio.textgrid import openTextgrid
        tg = openTextgrid(p, includeEmptyIntervals=True)
        out = []
        for t in tg.tiers:
            if isinstance(t, PointTier):
                out.append({"n": t.name, "k": "P", "e": [[self.sc.t(e.time), self.sc.t(e.time), e.label] for e in t.entries]})
            else:
                out.append({"n": t.name, "k": "I", "e": [[self.sc.t(e.start), self.sc.t(e.end), e.label] for e in t.entries]})
        return out

    def op_pickle(self, op):
        kind, x = self.roots[op["a"][0] - 1]
        y = cloudpickle.loads(cloudpickle.dumps(x))
        if op.get("drop"):
            self.take(op["a"][0])
        self.roots.append([kind, y])

    def op_at(self, op):
        """time lookup; times are ticks, halves allowed through op["h"]"""
        t = self.sc.f(op["t"]) + (self.sc.unit / 2 if op.get("h") else 0)
        k = op["k"]
        N = lambda v: -1 if v is None else int(v)
        if k == "grid":
            v = self.roots[op["a"][0] - 1][1].get_intervals_at_time(t)
            return [[N(i) for i in g] for g in v]
        if k == "group":
            return [N(i) for i in self.group_at(op["a"]).get_intervals_at_time(t)]
        return [N(self.tier_at(op["a"]).get_interval_at_time(t))]

    def op_index(self, op):
        """indexing a grid or group by a list of indices"""
        k = op["k"]
        if k == "grid":
            x = self.roots[op["a"][0] - 1][1]
            v = x[list(op["ix"])]
            tid = {id(t): list(a) for a, t in self.iter_tiers()}
            return [tid.get(id(t), [-1]) for t in v]
        v = self.group_at(op["a"])[list(op["ix"])]
        return [self.oid.get(id(e), UNKNOWN) for e in v]

    # objects outside of (or inside) tiers
    def op_setsuper(self, op):
        o = self.obj(op["o"])
        if op.get("alias") and hasattr(o, "set_word"):
            o.set_word(self.obj(op["x"]))
        else:
            o.set_super_instance(self.obj(op["x"]))

    def op_subappend(self, op):
        self.obj(op["o"]).append_subset_list(self.obj(op["x"]))

    def op_setsubs(self, op):
        xs = [self.obj(i) for i in op["xs"]]
        o = self.obj(op["o"])
        how = op.get("how", "prop")
        if how == "prop":
            o.subset_list = xs
        elif how == "list":
            o.subset_list = SequenceList(*xs)
        elif how == "alias" and hasattr(o, "set_phones"):
            o.set_phones(xs)
        else:
            o.set_subset_list(xs)

    def op_detach(self, op):
        o = self.obj(op["o"])
        how = op["how"]
        if how == "super":
            o.remove_superset()
        elif how == "sub":
            o.super_instance.remove_from_subset_list(o)
        else:
            o.super_instance.pop(o)

    def op_plus(self, op):
        """o + x, the result takes the place of o"""
        o = self.obj(op["o"])
        n = o + self.obj(op["x"])
        self.objs[op["o"] - 1] = n
        del self.oid[id(o)]
        self.keep.append(o)
        self.oid[id(n)] = op["o"]

    def op_validate(self, op):
        return [1 if self.obj(op["o"]).validate() else 0]

    def op_contains(self, op):
        o = self.obj(op["o"])
        return [1 if self.obj(op["x"]) in o else 0, self.attempt(lambda: int(o.index(self.obj(op["x"]))), -1)]

    def op_recast(self, op):
        """a new interval/point made from an existing one: time and label only"""
        o = self.obj(op["o"])
        n = self.ucls[op["c"]](o)
        self.free.add(self.reg(n))
        self.keep.append(n)

    def op_settimes(self, op):
        """all start times (end times, times) of a tier at once"""
        t = self.tier_at(op["a"])
        ts = np.array([self.sc.f(x) for x in op["ts"]])
        setattr(t, op["w"], ts)

    def op_wrong(self, op):
        """calls that make no sense and are refused"""
        k = op["w"]
        if k == "interval":
            cls = self.ucls[op["c"]]
            cls((1, 2, "x", "y"))
        elif k == "point":
            self.ucls[op["c"]]((1, "x", "y"))
        elif k == "fol-self":
            o = self.obj(op["o"]); o.set_fol(o)
        elif k == "prev-self":
            o = self.obj(op["o"]); o.set_prev(o)
        elif k == "fol-class":
            self.obj(op["o"]).set_fol(self.obj(op["x"]))
        elif k == "prev-class":
            self.obj(op["o"]).set_prev(self.obj(op["x"]))
        elif k == "tier-append":
            self.tier_at(op["a"]).append(self.tier_at(op["b"]))
        elif k == "tier-add":
            self.tier_at(op["a"]) + self.obj(op["o"])
        elif k == "tier-concat":
            self.tier_at(op["a"]).concat(self.obj(op["o"]))
        elif k == "grid-index":
            self.roots[op["a"][0] - 1][1][[]]
        elif k == "interleave":
            self.roots[op["a"][0] - 1][1].interleave_class(**op["kw"])
        elif k == "groups":
            self.roots[op["a"][0] - 1][1].tier_groups = [self.tier_at(op["b"])]

    def op_pnoop(self, op):
        """what points do not do"""
        o, x = self.obj(op["o"]), self.obj(op["x"])
        k = op["w"]
        if k == "append":
            o.append(x)
        elif k == "plus":
            return [1 if (o + x) is o else 0]
        elif k == "in":
            return [1 if x in o else 0]
        else:
            return [1 if o[0] is None else 0]

    # points
    def op_nearest(self, op):
        t = self.sc.f(op["t"]) + (self.sc.unit / 2 if op.get("h") else 0)
        if op["k"] == "tier":
            T = self.tier_at(op["a"])
            return [int(T.get_nearest_point_index(t)), self.oid.get(id(T.get_nearest_point(t)), UNKNOWN)]
        return [int(i) for i in self.group_at(op["a"]).get_nearest_points_index(t)]

    def op_pdist(self, op):
        o = self.obj(op["o"])
        D = lambda v: NONE if v is None else self.sc.t(float(v), True)
        out = [D(o.prev_distance), D(o.fol_distance)]
        x = self.obj(op["x"])
        v = np.atleast_1d(np.array(o.distance_from(x)))
        out += [self.sc.t(float(k), True) for k in v]
        return out

    def op_pat(self, op):
        o = self.obj(op["o"])
        t = self.tier_at(op["a"])
        i = o.get_interval_index_at_time(t)
        x = o.get_interval_at_point(t)
        return [-1 if i is None else int(i), NOLINK if x is None else self.oid.get(id(x), UNKNOWN)]

    # dataframe
    def op_df(self, op):
        k = op["k"]
        x = {"grid": lambda: self.roots[op["a"][0] - 1][1], "group": lambda: self.group_at(op["a"]),
             "tier": lambda: self.tier_at(op["a"]), "obj": lambda: self.obj(op["o"])}[k]()
        df = to_df(x, with_subset=op["sub"])
        rows = []
        for row in df.iter_rows(named=True):
            r = {}
            for c, v in row.items():
                if v is None:
                    continue
                if c.endswith("start") or c.endswith("end"):
                    r[c] = str(self.sc.t(v))
                else:
                    r[c] = str(v)
            rows.append(r)
        return rows

    def op_rename_tier(self, op):
        self.tier_at(op["a"]).name = op["n"]

    # classes
    def op_clsbyname(self, op):
        """the name of the class found, and the tiers it is the class of"""
        x = self.roots[op["a"][0] - 1][1]
        c = x.get_class_by_name(op["n"])
        cs = c if isinstance(c, list) else [] if c is None else [c]
        tiers = [[g, t] for g, grp in enumerate(x, 1) for t, tier in enumerate(grp, 1) if any(tier.entry_class is k for k in cs)]
        return [len(cs)] + tiers
