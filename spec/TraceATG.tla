----------------------------- MODULE TraceATG -----------------------------
(***************************************************************************)
(* Judges recorded executions of the real code.                            *)
(*                                                                         *)
(* A trace is a sequence of lines; a line has the operation that was run   *)
(* (op), how it ended (ret: "ok" or "exc:..."), the value it returned      *)
(* (val), the state afterwards (st, see ATG) and everything else that can  *)
(* be observed through the public interface (D per object, V per root).    *)
(* For each line the specification computes the outcome it requires from   *)
(* the recorded state before (Ops!Exp) and compares; and it compares every *)
(* observation with its definition over the state (Bad).                   *)
(* Every disagreement is printed as <<"VIOL", property, clause, trace,     *)
(* line, detail>>, so that a run gives a verdict for every line; judging   *)
(* continues from the recorded state.  A line whose outcome is not         *)
(* prescribed is printed as <<"OPEN", trace, line>>.                       *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils

Traces == JsonDeserialize(IOEnv.ATG_TRACES)

\* cp: the roots that are pickled copies; oks: what was done to other roots as specified
VARIABLES t, i, bad, cp, oks
vars == <<t, i, bad, cp, oks>>

Off == 999999
Line(n, k) == Traces[n][k]

(***************************************************************************)
(* From recorded to specified state: class ids become class names          *)
(***************************************************************************)
Nm(K, c) == IF c \in 1..Len(K) THEN K[c].n ELSE "?"
Conv(s) ==
  [O |-> [n \in 1..Len(s.O) |-> [s.O[n] EXCEPT !.c = Nm(s.K, @)]],
   R |-> [r \in 1..Len(s.R) |-> [s.R[r] EXCEPT !.gs = [g \in 1..Len(@) |->
            [@[g] EXCEPT !.h = [n \in 1..Len(@) |-> Nm(s.K, @[n])],
                         !.ts = [m \in 1..Len(@) |-> [@[m] EXCEPT !.c = Nm(s.K, @)]]]]]]]

(***************************************************************************)
(* Is the recorded state one the definitions can be evaluated on?          *)
(***************************************************************************)
RECURSIVE UpFrom(_, _, _)
UpFrom(O, n, k) == IF n = 0 THEN TRUE ELSE IF k = 0 \/ n \notin 1..Len(O) THEN FALSE ELSE UpFrom(O, O[n].p, k - 1)
IdsOk(s) == /\ \A a \in Tiers(s) : Rng(TierAt(s, a).q) \subseteq 1..Len(s.O)
            /\ \A n \in 1..Len(s.O) : s.O[n].k = "X" \/ UpFrom(s.O, n, 12)
TimesOk(s) == \A n \in Live(s) : s.O[n].s # Off /\ s.O[n].e # Off /\ s.O[n].s > -Off /\ s.O[n].e > -Off
WellFormed(s) == IdsOk(s) /\ TimesOk(s) /\ OneTier(s) /\ NoRepeats(s)

(***************************************************************************)
(* Observations against their definitions: the set of all that are wrong,  *)
(* each as <<property, clause, what>>                                      *)
(***************************************************************************)
F(c, p, cl, x) == IF c THEN {} ELSE {<<p, cl, ToString(x)>>}

BadWF(s) ==
  F(IdsOk(s), "C03", "links-known", 0) \cup F(TimesOk(s), "C18", "times", 0) \cup
  (IF IdsOk(s) THEN F(OneTier(s), "C03", "one-tier", 0) \cup F(NoRepeats(s), "C18", "repeated-entry", 0) ELSE {})

BadObjs(s, D, K, raw) ==
  LET O == s.O
      live == Live(s)
      tiers == Tiers(s)
      members == TLCEval([a \in tiers |-> Rng(TierAt(s, a).q)])
      loc == TLCEval([n \in 1..Len(O) |-> LET S == {a \in tiers : n \in members[a]}
                                         IN IF S = {} THEN <<0, 0, 0>> ELSE CHOOSE a \in S : TRUE])
      parents == {O[n].p : n \in live}
      kids == TLCEval([n \in 1..Len(O) |-> IF n \in parents THEN SortIds(O, {j \in live : O[j].p = n}) ELSE <<>>])
      \* where each object is in its tier and in its subset list
      tpos == TLCEval([n \in 1..Len(O) |-> IF n \notin live \/ loc[n][1] = 0 THEN 1 ELSE IndexIn(TierAt(s, loc[n]).q, n)])
      kpos == TLCEval([n \in 1..Len(O) |-> IF n \notin live \/ O[n].p = 0 THEN 0 ELSE IndexIn(kids[O[n].p], n)])
      RECURSIVE PathL(_)
      PathL(n) == IF O[n].p # 0 THEN PathL(O[n].p) \o <<kpos[n] - 1>>
                  ELSE LET a == loc[n] IN
                       IF a[1] = 0 \/ OrphanAt(s, n, a) \/ ~TopTier(s, a) THEN <<>>
                       ELSE TierPath(s, a) \o <<tpos[n] - 1>>
      unique == Cardinality({Tuple(O, n) : n \in live}) = Cardinality(live)
      One(n) ==
        LET d == D[n]
            a == loc[n]
            q == IF a[1] = 0 THEN <<n>> ELSE TierAt(s, a).q
            ix == tpos[n]
            orphan == OrphanAt(s, n, a)
            nb == IF O[n].p # 0 THEN kids[O[n].p] ELSE q
            parentDead == O[n].p # 0 /\ O[O[n].p].k = "X"
            ks == kids[n]
            path == TLCEval(PathL(n))
            one == unique \/ \A m \in live : m = n \/ O[m].s # O[n].s \/ O[m].e # O[n].e \/ O[m].l # O[n].l
            twin == ~one /\ \E m \in Rng(nb) : m # n /\ Tuple(O, m) = Tuple(O, n)
            ttwin == ~one /\ \E m \in Rng(q) : m # n /\ Tuple(O, m) = Tuple(O, n)
            \* the tier is the outermost tier of a class hierarchy
            top == a[1] # 0 /\ (O[n].k = "P" \/ TopTier(s, a))
            inTier == a[1] # 0 /\ O[n].p = 0 /\ top /\ ~orphan
            uplive == \A m \in Rng(nb) : O[m].k # "X"
        IN (* C02 precedence *)
           (IF orphan \/ parentDead \/ ~uplive THEN {} ELSE
             LET nx == IF O[n].p # 0 THEN kpos[n] ELSE ix IN
             F(d.pv = (IF nx <= 1 THEN 0 ELSE nb[nx-1]), "C02", "prev", n)
             \cup F(d.fo = (IF nx = 0 \/ nx = Len(nb) THEN 0 ELSE nb[nx+1]), "C02", "fol", n))
           (* C03 links in both directions *)
           \cup F(O[n].k = "P" \/ Len(d.kids) = Cardinality(Rng(d.kids)), "C03", "subset-twice", n)
           \cup F(O[n].k = "P" \/ Rng(d.kids) = Rng(ks), "C03", "subset-superset", n)
           \cup F(~parentDead, "C03", "superset-gone", n)
           \cup F(O[n].p = 0 \/ parentDead \/ O[O[n].p].k = "I", "C03", "superset-kind", n)
           \cup F(O[n].k = "P" \/ (d.it = d.kids /\ Rng(d.ct) = Rng(d.kids)), "C03", "contains", n)
           \cup F(IF O[n].p # 0 THEN d.wk = "obj" /\ d.wr = <<O[n].p>>
                  ELSE IF inTier THEN d.wk = "tier" /\ d.wr = a
                  ELSE d.wk = "none", "C03", "within", n)
           \cup F(a[1] = 0 \/ a[3] = 1 \/ O[n].p = 0 \/ parentDead \/ loc[O[n].p] = <<a[1], a[2], a[3]-1>>, "C03", "superset-tier", n)
           \cup F(a[1] = 0 \/ s.R[a[1]].k = "tier" \/ a[3] = Len(GroupAt(s, a).ts) \/ \A m \in Rng(ks) : loc[m] = <<a[1], a[2], a[3]+1>>, "C03", "subset-tier", n)
           (* C01 *)
           \cup F(O[n].s <= O[n].e, "C01", "start-end", n)
           \cup F(\A m \in 1..(Len(d.kids)-1) : ~(d.kids[m] \in live /\ d.kids[m+1] \in live) \/ O[d.kids[m]].s <= O[d.kids[m+1]].s, "C01", "subset-order", n)
           (* C04 addresses *)
           \cup F(d.t = a, "C04", "intier", n)
           \cup F(ttwin \/ d.ti = IF a[1] = 0 THEN -1 ELSE ix - 1, "C04", "tier-index", n)
           \cup (IF a[1] = 0 \/ ttwin THEN {} ELSE
                 F(d.tw = [k \in 1..5 |-> IF ix + k - 3 \in 1..Len(q) THEN q[ix + k - 3] ELSE 0], "C04", "get-tierwise", n))
           \cup (IF twin \/ parentDead THEN {} ELSE
                 F(d.wi = IF O[n].p # 0 THEN kpos[n] - 1 ELSE IF inTier THEN ix - 1 ELSE -1, "C04", "within-index", n)
                 \cup F(d.pa = path, "C04", "path", n)
                 \cup F(d.id = JoinInts(path), "C04", "id", n)
                 \cup F(d.res = n, "C04", "path-resolves", n))
           (* C13 classes *)
           \cup F(a[1] = 0 \/ raw.O[n].c = TierAt(raw, a).c, "C13", "entry-class", n)
           \cup F(a[1] = 0 \/ O[n].p = 0 \/ parentDead \/ (K[raw.O[n].c].up = raw.O[O[n].p].c /\ K[raw.O[O[n].p].c].dn = raw.O[n].c), "C13", "superset-class", n)
           (* C18 summaries *)
           \cup (IF O[n].k = "P" THEN {} ELSE
                 F(d.n = Len(ks), "C18", "len", n)
                 \cup F(Rng(d.kids) # Rng(ks) \/ ~(Rng(d.kids) \subseteq live) \/
                        (d.ss = [m \in 1..Len(d.kids) |-> O[d.kids[m]].s] /\ d.se = [m \in 1..Len(d.kids) |-> O[d.kids[m]].e]
                         /\ d.sl = [m \in 1..Len(d.kids) |-> O[d.kids[m]].l]), "C18", "sub-starts-ends-labels", n)
                 \cup F(d.fi = (IF d.kids = <<>> THEN 0 ELSE d.kids[1]) /\ d.la = (IF d.kids = <<>> THEN 0 ELSE d.kids[Len(d.kids)]), "C18", "first-last", n)
                 \cup F(d.du = O[n].e - O[n].s, "C18", "duration", n)
                 \cup F(d.gi = d.kids /\ d.gn = d.kids, "C18", "indexing", n)
                 \cup F(d.pl = d.kids /\ d.ph = d.sl, "C18", "phones", n)
                 \cup F(d.iw = IF O[n].p = 0 THEN -1 ELSE O[n].p, "C03", "inword", n))
           \cup F(d.rp = 1, "C18", "readable", n)
           \cup F(d.ec = raw.O[n].c, "C13", "own-class", n)
           (* C11 *)
           \cup F(d.rt = <<O[n].s, O[n].e, O[n].l>>, "C11", "returned-entry", n)
  IN UNION {One(n) : n \in live}

Ext(S, f) == IF S = {} THEN -Off ELSE IF f = "min" THEN Min(S) ELSE Max(S)
g0(raw, a) == TierAt(raw, <<a[1], a[2], a[3]-1>>).c
Tail0(q) == IF q = <<>> THEN q ELSE Tail(q)
BadTier(s, V, a, K, raw) ==
  LET tr == TierAt(s, a)
      v == V[a[1]].gs[a[2]].ts[a[3]]
      O == s.O
      q == tr.q
      g == GroupAt(s, a)
      rc == TierAt(raw, a).c
      cls == [m \in 1..Len(g.ts) |-> g.ts[m].c]
  IN F(Ordered(O, q), "C01", "tier-order", a)
     \cup F(v.lb = [m \in 1..Len(q) |-> O[q[m]].l], "C18", "labels", a)
     \cup F(v.st = [m \in 1..Len(q) |-> O[q[m]].s] /\ v.en = [m \in 1..Len(q) |-> O[q[m]].e], "C18", "starts-ends", a)
     \cup F(v.xn = Ext(TimesOf(O, q), "min") /\ v.xx = Ext(TimesOf(O, q), "max"), "C18", "extent", a)
     \cup F(v.n = Len(q) /\ v.gi = q, "C18", "len-index", a)
     \cup F(v.gn = q /\ v.sl = Tail0(q) /\ \A m \in 1..Len(v.in) : v.in[m] = 1, "C18", "slices-membership", a)
     \cup F(v.rp = 1, "C18", "readable", a)
     \cup F(v.fi = (IF q = <<>> THEN 0 ELSE q[1]) /\ v.la = (IF q = <<>> THEN 0 ELSE q[Len(q)]), "C18", "first-last", a)
     \cup F(v.ix = [m \in 1..Len(q) |-> m - 1] \/ \E m, k \in 1..Len(q) : m # k /\ Tuple(O, q[m]) = Tuple(O, q[k]), "C04", "tier-index-of", a)
     \cup F(v.pa = TierPath(s, a), "C04", "tier-path", a)
     \cup F(v.win, "C03", "tier-within", a)
     \cup F(g.k = "P" \/ s.R[a[1]].k = "tier" \/ (v.up = K[rc].up /\ v.dn = K[rc].dn), "C13", "tier-classes", a)
     \cup F(g.k = "P" \/ ((K[K[rc].up].k # "I" \/ K[K[rc].up].dn = rc) /\ (K[K[rc].dn].k # "I" \/ K[K[rc].dn].up = rc)), "C13", "hierarchy-mutual", a)
     \cup F(g.k = "P" \/ a[3] = 1 \/ (K[rc].up = g0(raw, a) /\ K[g0(raw, a)].dn = rc), "C13", "group-hierarchy", a)
     \cup F(s.R[a[1]].k = "tier" \/ Cardinality(Rng(cls)) # Len(cls) \/ v.acc = a[3], "C21", "tier-accessor", a)

BadGroup(s, V, r, n) ==
  LET g == s.R[r].gs[n]
      v == V[r].gs[n]
      T == GroupTimes(s.O, g)
  IN IF s.R[r].k = "tier" THEN {} ELSE
     F(v.xn = Ext(T, "min") /\ v.xx = Ext(T, "max"), "C18", "group-extent", <<r, n>>)
     \cup F(v.n = Len(g.ts) /\ v.rp = 1, "C18", "group-len", <<r, n>>)
     \cup F(v.ix = [m \in 1..Len(g.ts) |-> m - 1], "C04", "group-index-of", <<r, n>>)
     \cup F(v.tn = [m \in 1..Len(g.ts) |-> g.ts[m].n], "C21", "tier-names", <<r, n>>)
     \cup F(v.win, "C03", "group-within", <<r, n>>)
     \cup F(v.pa = IF s.R[r].k = "grid" THEN <<n-1>> ELSE <<>>, "C04", "group-path", <<r, n>>)
BadRoot(s, V, r) ==
  LET root == s.R[r] v == V[r]
      T == UNION {GroupTimes(s.O, root.gs[g]) : g \in 1..Len(root.gs)}
  IN IF root.k # "grid" THEN {} ELSE
     F(v.n = Len(root.gs) /\ v.rp = 1, "C18", "grid-len", r)
     \cup F(v.ix = [m \in 1..Len(root.gs) |-> m - 1], "C04", "grid-index-of", r)
     \cup F(v.tn = [g \in 1..Len(root.gs) |-> [m \in 1..Len(root.gs[g].ts) |-> root.gs[g].ts[m].n]], "C21", "grid-tier-names", r)
     \cup F(root.gs = <<>> \/ (v.xn = Ext(T, "min") /\ v.xx = Ext(T, "max")), "C18", "grid-extent", r)
BadEc(raw, V, r) ==
  LET root == raw.R[r] v == V[r] IN
  IF root.k = "grid" THEN F(v.ec = [g \in 1..Len(root.gs) |-> [m \in 1..Len(root.gs[g].ts) |-> root.gs[g].ts[m].c]], "C21", "entry-classes", r)
  ELSE IF root.k = "group" THEN F(v.gs[1].ec = [m \in 1..Len(root.gs[1].ts) |-> root.gs[1].ts[m].c], "C21", "entry-classes", r)
  ELSE {}

\* a new grid has classes of its own: none that existed before is used in it
RootClasses(raw, r) == UNION {Rng(raw.R[r].gs[g].h) \cup {raw.R[r].gs[g].ts[m].c : m \in 1..Len(raw.R[r].gs[g].ts)} : g \in 1..Len(raw.R[r].gs)}
OwnClasses(L0, L) ==
  LET r == Len(L.st.R) IN
  IF L.op.op \in {"read", "mkgrid", "saveload"} /\ L.ret = "ok" /\ Len(L.st.R) > Len(L0.st.R)
     /\ RootClasses(L.st, r) \cap 1..Len(L0.st.K) # {}
  THEN {<<"C13", "shared-classes", ToString(r)>>} ELSE {}

\* in one grid, a class name stands for one class
OneClass(raw, r) ==
  LET root == raw.R[r]
      cs == UNION {{root.gs[g].ts[m].c : m \in 1..Len(root.gs[g].ts)} : g \in 1..Len(root.gs)}
  IN root.k # "grid" \/ Cardinality({raw.K[c].n : c \in cs}) = Cardinality(cs)

\* group accessors of a grid: right after it is (re)built, and as long as the names stay
UniqueNames(root) == Cardinality({root.gs[m].n : m \in 1..Len(root.gs)}) = Len(root.gs)
Accessors(L0, L) ==
  LET rebuilt(r) == /\ L.ret = "ok"
                    /\ \/ L.op.op \in {"read", "mkgrid", "saveload"} /\ r = Len(L.st.R)
                       \/ /\ L.op.op = "pickle" /\ r = Len(L.st.R)
                          /\ \A g \in 1..Len(L.st.R[r].gs) : L0.V[L.op.a[1]].gs[g].acc = g
                       \/ L.op.op \in {"rappend", "interleave", "popclass"} /\ r = L.op.a[1]
      same(r) == /\ r <= Len(L0.st.R) /\ L0.st.R[r].k = "grid" /\ Len(L0.st.R[r].gs) = Len(L.st.R[r].gs)
                 /\ \A g \in 1..Len(L.st.R[r].gs) : L0.st.R[r].gs[g].n = L.st.R[r].gs[g].n /\ L0.V[r].gs[g].acc = g
  IN UNION {F(\A g \in 1..Len(L.st.R[r].gs) : L.V[r].gs[g].acc = g, "C21", "group-accessor", r)
            : r \in {x \in 1..Len(L.st.R) : L.st.R[x].k = "grid" /\ UniqueNames(L.st.R[x]) /\ (rebuilt(x) \/ same(x))}}

Bad(L, s) ==
  IF ~WellFormed(s) THEN BadWF(s)
  ELSE BadObjs(s, L.D, L.st.K, L.st)
       \cup UNION {BadTier(s, L.V, a, L.st.K, L.st) : a \in Tiers(s)}
       \cup UNION {UNION {BadGroup(s, L.V, r, g) : g \in 1..Len(s.R[r].gs)} : r \in 1..Len(s.R)}
       \cup UNION {BadRoot(s, L.V, r) \cup BadEc(L.st, L.V, r) \cup F(OneClass(L.st, r), "C13", "one-class", r) : r \in 1..Len(s.R)}

(***************************************************************************)
(* Required against recorded outcome                                       *)
(***************************************************************************)
SameObj(x, y) == IF x.k = "X" THEN y.k = "X" ELSE x = y
SameNm(x, y) == x = "?" \/ x = y
\* the order of points with the same time is open
SameTier(k, x, y) == x.c = y.c /\ SameNm(x.n, y.n) /\ (x.q = y.q \/ (k = "P" /\ Len(x.q) = Len(y.q) /\ Rng(x.q) = Rng(y.q)))
SameGroup(x, y) == x.k = y.k /\ SameNm(x.n, y.n) /\ x.h = y.h /\ Len(x.ts) = Len(y.ts) /\ \A m \in 1..Len(x.ts) : SameTier(x.k, x.ts[m], y.ts[m])
SameRoot(x, y) == x.k = y.k /\ Len(x.gs) = Len(y.gs) /\ \A m \in 1..Len(x.gs) : SameGroup(x.gs[m], y.gs[m])
\* what differs, or ""
Diff(x, y) ==
  IF Len(x.R) # Len(y.R) THEN "roots"
  ELSE IF \E r \in 1..Len(x.R) : x.R[r].k # y.R[r].k \/ Len(x.R[r].gs) # Len(y.R[r].gs) THEN "groups"
  ELSE IF \E r \in 1..Len(x.R) : ~SameRoot(x.R[r], y.R[r]) THEN
    (LET r == CHOOSE n \in 1..Len(x.R) : ~SameRoot(x.R[n], y.R[n])
         g == CHOOSE n \in 1..Len(x.R[r].gs) : ~SameGroup(x.R[r].gs[n], y.R[r].gs[n])
         p == x.R[r].gs[g] w == y.R[r].gs[g]
     IN IF p.k # w.k THEN "group kind" ELSE IF ~SameNm(p.n, w.n) THEN "group name"
        ELSE IF Len(p.ts) # Len(w.ts) THEN "tiers" ELSE IF p.h # w.h THEN "hierarchy"
        ELSE LET m == CHOOSE n \in 1..Len(p.ts) : ~SameTier(p.k, p.ts[n], w.ts[n])
             IN IF p.ts[m].c # w.ts[m].c THEN "tier class" ELSE IF ~SameNm(p.ts[m].n, w.ts[m].n) THEN "tier name"
                ELSE "entries of tier " \o ToString(<<r, g, m>>))
  ELSE IF Len(x.O) # Len(y.O) THEN "objects"
  ELSE IF \E n \in 1..Len(x.O) : ~SameObj(x.O[n], y.O[n]) THEN
    (LET n == CHOOSE m \in 1..Len(x.O) : ~SameObj(x.O[m], y.O[m])
     IN ToString(<<n, x.O[n], y.O[n]>>))
  ELSE ""

PropsOf(o) ==
  CASE o.op \in {"mktier", "mkobj", "recast"} -> {"C01"}
    [] o.op = "mkempty" -> {"C03", "C18"}
    [] o.op \in {"mkgroup", "rerelate"} -> {"C05"}
    [] o.op \in {"mkgrid", "rappend", "tappend", "oappend", "gappend"} -> {"C08"}
    [] o.op = "read" -> {"C14"}
    [] o.op = "cleanup" -> {"C06"}
    [] o.op = "fuse" -> {"C07"}
    [] o.op = "shift" -> {"C09"}
    [] o.op \in {"concat", "add"} -> {"C10"}
    [] o.op \in {"saveload", "rettg", "tiersave"} -> {"C11"}
    [] o.op \in {"interleave", "popclass"} -> {"C12"}
    [] o.op \in {"at", "index"} -> {"C15"}
    [] o.op \in {"nearest", "pdist", "pat"} -> {"C16"}
    [] o.op = "df" -> {"C17"}
    [] o.op \in {"setsuper", "subappend", "setsubs", "detach", "plus"} -> {"C20"}
    [] o.op \in {"setname", "rename_tier", "clsbyname"} -> {"C21"}
    [] o.op = "pickle" -> {"C23"}
    [] o.op \in {"validate", "contains"} -> {"C24"}
    [] o.op = "wrong" -> {"C19"}
    [] o.op = "pnoop" -> {"C16"}
    [] o.op = "resume" -> {}
    [] OTHER -> {"C18"}

Ran(L) == L.ret = "ok"
\* it did not return, or left things that cannot be looked at
Lost(L) == L.ret \in {"timeout", "unobservable"}
All(S, cl, dt) == {<<p, cl, dt>> : p \in S}
\* a tier that a group does not take may have changed its class: only the rest is compared
Masked(s, op) ==
  IF op.op # "gappend" THEN s
  ELSE LET S == GroupIds(s.R[op.r].gs[1])
       IN [O |-> [n \in 1..Len(s.O) |-> IF n \in S THEN [s.O[n] EXCEPT !.k = "X"] ELSE s.O[n]],
           R |-> TakeRoots(s.R, {op.r})]
\* x: the required outcome of line L; the set of <<property, clause, detail>> that fail
Outcome(x, pre, L, post) ==
  LET ps == PropsOf(L.op)
      d == IF ~x.ok THEN Diff(Masked(pre, L.op), Masked(post, L.op)) ELSE Diff(x.st, post)
      valOk == x.val = NoVal \/ ValOk(pre, L.op, x.val, L.val)
  IN IF ~x.ok THEN (IF Ran(L) THEN All(ps \cup {"C19"}, "accepted", "")
                    ELSE IF d # "" THEN All(ps \cup {"C19"}, "refused-but-changed", d)
                    ELSE {})
     ELSE IF ~Ran(L) THEN All(ps, "raised", L.ret)
     ELSE IF d # "" THEN All(ps \cup (CASE d \in {"group name", "tier name"} -> {"C21"}
                                         [] d \in {"tier class", "hierarchy"} -> {"C13"}
                                         [] OTHER -> {}), "state", d)
     ELSE IF ~valOk THEN All(ps, "value", ToString(<<x.val, L.val>>))
     ELSE {}

\* the classes a user made are never changed by an operation
UserClasses(K0, K) == \A c \in 1..Len(K0) : c <= Len(K) /\ K[c] = K0[c]

Say(n, k, S) == \A x \in S : PrintT(<<"VIOL", x[1], x[2], n, k, x[3]>>)

Init == /\ t \in 1..Len(Traces)
        /\ i = 1
        /\ bad = Bad(Line(t, 1), Conv(Line(t, 1).st))
        /\ Say(t, 1, bad)
        /\ cp = {} /\ oks = {}

OpRoots(s, op) == (IF "a" \in DOMAIN op THEN {op.a[1]} ELSE {})
                  \cup (IF "o" \in DOMAIN op /\ IdsOk(s) THEN {Loc(s, op.o)[1]} ELSE {})

Next == /\ i < Len(Traces[t])
        /\ t' = t
        /\ LET L == Line(t, i + 1)
               L0 == Line(t, i)
               pre == TLCEval(Conv(L0.st))
               post == TLCEval(Conv(L.st))
               x == TLCEval(IF bad = {} /\ ~Lost(L) THEN Exp(pre, L.op) ELSE Skip(pre))
               \* the history leaves what is specified
               unspec == bad = {} /\ x.skip /\ ~x.inv
               b == TLCEval(IF Lost(L) THEN bad ELSE Bad(L, post))
               exit == Lost(L) \/ (~Ran(L) /\ (x.skip \/ L.op.op = "gappend")) \/ (unspec /\ b # {})
               ps == PropsOf(L.op)
               new == IF exit /\ x.skip THEN {} ELSE b \ bad
               out == IF Lost(L) THEN All(ps \cup {"C18"}, L.ret, "")
                      ELSE IF x.skip THEN {} ELSE Outcome(x, pre, L, post)
               cls == IF exit THEN {} ELSE
                      (IF UserClasses(Line(t, 1).st.K, L.st.K) THEN {} ELSE {<<"C13", "user-classes-changed", "">>})
                      \cup (IF new = {} THEN OwnClasses(L0, L) \cup Accessors(L0, L) ELSE {})
               wrong == out \cup new \cup cls
               on == IF L.op.op \in {"pickle", "resume"} THEN {} ELSE OpRoots(pre, L.op)
           IN /\ bad' = b
              /\ cp' = IF L.op.op = "pickle" /\ Ran(L) THEN cp \cup {Len(L.st.R)}
                       ELSE IF L.op.op = "resume" /\ "cp" \in DOMAIN L.op THEN Rng(L.op.cp) ELSE cp
              /\ oks' = IF on = {} \/ on \cap cp # {} \/ x.skip THEN oks
                        ELSE IF wrong = {} THEN oks \cup {L.op.op} ELSE oks \ {L.op.op}
              /\ (wrong # {} /\ on \cap cp # {} /\ L.op.op \in oks)
                    => Say(t, i + 1, {<<"C23", "unlike the original: " \o y[2], y[3]>> : y \in wrong})
              /\ i' = IF exit THEN Len(Traces[t]) ELSE i + 1
              /\ (unspec => PrintT(<<"OPEN", t, i + 1>>))
              /\ Say(t, i + 1, wrong)
              /\ Say(t, i + 1, {<<p, "breaks " \o y[1] \o " " \o y[2], y[3]>> : <<p, y>> \in (IF Ran(L) THEN ps ELSE {"C19"}) \X new})

Spec == Init /\ [][Next]_vars
===========================================================================
