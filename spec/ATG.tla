------------------------------- MODULE ATG -------------------------------
(***************************************************************************)
(* The state and the transitions of aligned-textgrid.                      *)
(*                                                                         *)
(*  st = [O |-> sequence of objects (intervals and points); an object's id *)
(*               is its position,                                          *)
(*        R |-> sequence of roots]                                         *)
(*  object = [k |-> "I" interval, "P" point, "X" no longer part of         *)
(*               anything,                                                 *)
(*            c |-> class name, s, e |-> times in ticks (s = e for points),*)
(*            l |-> label, p |-> id of the superset interval or 0]         *)
(*  root   = [k |-> "grid" | "group" | "tier" | "gone",                    *)
(*            gs |-> sequence of groups]                                   *)
(*  group  = [k |-> "I" | "P", n |-> name,                                 *)
(*            h |-> the class hierarchy, top first, ts |-> tiers]          *)
(*  tier   = [c |-> class name, n |-> name, q |-> sequence of ids]         *)
(*                                                                         *)
(* A free tier or a free group is a root with one group (and one tier).    *)
(* Everything else a user can observe (subset lists, neighbours, tier      *)
(* indices, paths, extents) is a function of this state and is defined in  *)
(* the section "derived".  Each public operation is a function from        *)
(* states to states in the section "operations".  The operators are pure:  *)
(* MC_ATG explores them, TraceATG replays recorded executions of the real  *)
(* code through them.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
\* sum of f(x) over a set
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Rng(s) == {s[i] : i \in 1..Len(s)}
IndexIn(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x ELSE 0
RECURSIVE JoinInts(_)
JoinInts(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1])
               ELSE ToString(Head(s)) \o "-" \o JoinInts(Tail(s))

(***************************************************************************)
(* Addressing                                                              *)
(***************************************************************************)
GroupAt(st, a) == st.R[a[1]].gs[a[2]]
TierAt(st, a)  == st.R[a[1]].gs[a[2]].ts[a[3]]
Tiers(st) == UNION {UNION {{<<r, g, t>> : t \in 1..Len(st.R[r].gs[g].ts)} : g \in 1..Len(st.R[r].gs)} : r \in 1..Len(st.R)}
\* id -> address of its tier, <<0,0,0>> if it is in none
Loc(st, i) == LET S == {a \in Tiers(st) : i \in Rng(TierAt(st, a).q)}
              IN IF S = {} THEN <<0, 0, 0>> ELSE CHOOSE a \in S : TRUE
Live(st) == {i \in 1..Len(st.O) : st.O[i].k # "X"}

Before(O, a, b) == \/ O[a].s < O[b].s
                   \/ O[a].s = O[b].s /\ O[a].e < O[b].e
                   \/ O[a].s = O[b].s /\ O[a].e = O[b].e /\ a < b
SortIds(O, S) == SetToSortSeq(S, LAMBDA a, b : Before(O, a, b))

(***************************************************************************)
(* Derived observables                                                     *)
(***************************************************************************)
Kids(st, i) == SortIds(st.O, {j \in Live(st) : st.O[j].p = i})
HasKids(O, i) == \E j \in 1..Len(O) : O[j].k # "X" /\ O[j].p = i
UpClass(h, c) == LET n == IndexIn(h, c) IN IF n <= 1 THEN "Top" ELSE h[n-1]
DnClass(h, c) == LET n == IndexIn(h, c) IN IF n = 0 \/ n = Len(h) THEN "Bottom" ELSE h[n+1]

\* the sequence among which object i has a previous and a following entry
Neighbours(st, i) ==
  IF st.O[i].p # 0 THEN Kids(st, st.O[i].p)
  ELSE LET a == Loc(st, i) IN IF a[1] = 0 THEN <<i>> ELSE TierAt(st, a).q
PrevOf(q, i) == LET n == IndexIn(q, i) IN IF n <= 1 THEN 0 ELSE q[n-1]
FolOf(q, i)  == LET n == IndexIn(q, i) IN IF n = 0 \/ n = Len(q) THEN 0 ELSE q[n+1]
\* the tier's class is at the top of its hierarchy (points have none)
TopTier(st, a) == LET g == GroupAt(st, a) IN g.k = "P" \/ g.h = <<>> \/ g.h[1] = TierAt(st, a).c
\* an interval with no superset although there is a tier above
OrphanAt(st, i, a) == a[1] # 0 /\ st.O[i].k = "I" /\ st.O[i].p = 0 /\ st.R[a[1]].k # "tier" /\ a[3] > 1
OrphanIn(st, i) == OrphanAt(st, i, Loc(st, i))

\* paths of indices (from 0) from the outermost container
TierPath(st, a) == IF st.R[a[1]].k = "grid" THEN <<a[2]-1, a[3]-1>>
                   ELSE IF st.R[a[1]].k = "group" THEN <<a[3]-1>> ELSE <<>>
RECURSIVE PathOf(_, _)
PathOf(st, i) ==
  IF st.O[i].p # 0 THEN PathOf(st, st.O[i].p) \o <<IndexIn(Kids(st, st.O[i].p), i) - 1>>
  ELSE LET a == Loc(st, i) IN
       IF a[1] = 0 \/ OrphanIn(st, i) \/ ~TopTier(st, a) THEN <<>>
       ELSE TierPath(st, a) \o <<IndexIn(TierAt(st, a).q, i) - 1>>

TimesOf(O, q) == UNION {{O[i].s, O[i].e} : i \in Rng(q)}
GroupTimes(O, g) == UNION {TimesOf(O, g.ts[t].q) : t \in 1..Len(g.ts)}

(***************************************************************************)
(* Structural properties of a state                                        *)
(***************************************************************************)
Ordered(O, q) == \A i \in 1..(Len(q)-1) : O[q[i]].s <= O[q[i+1]].s
TimeOrder(st) == /\ \A a \in Tiers(st) : Ordered(st.O, TierAt(st, a).q)
                 /\ \A i \in Live(st) : st.O[i].s <= st.O[i].e
Disjoint(O, q) == \A i \in 1..(Len(q)-1) : O[q[i]].e <= O[q[i+1]].s
OneTier(st) == LET T == Tiers(st) IN
   Cardinality(UNION {Rng(TierAt(st, a).q) : a \in T}) = SumOver(T, LAMBDA a : Cardinality(Rng(TierAt(st, a).q)))
NoRepeats(st) == \A a \in Tiers(st) : Cardinality(Rng(TierAt(st, a).q)) = Len(TierAt(st, a).q)
\* parents are in the tier directly above
ParentsAbove(st) == \A a \in Tiers(st) : \A i \in Rng(TierAt(st, a).q) :
   LET p == st.O[i].p IN (p # 0 /\ a[3] > 1 /\ st.O[p].k # "X") =>
        p \in Rng(TierAt(st, <<a[1], a[2], a[3]-1>>).q)

\* q covers [lo, hi] with no gap or overlap
Tiles(O, q, lo, hi) == /\ q # <<>> /\ O[q[1]].s = lo /\ O[q[Len(q)]].e = hi
                       /\ \A i \in 1..(Len(q)-1) : O[q[i]].e = O[q[i+1]].s
\* a group in which every tier is complete
Complete(st, a) ==
  LET g == GroupAt(st, a) ts == g.ts IN
  GroupTimes(st.O, g) = {} \/
  LET lo == Min(GroupTimes(st.O, g)) hi == Max(GroupTimes(st.O, g)) IN
  /\ \A t \in 1..Len(ts) : Tiles(st.O, ts[t].q, lo, hi)
  /\ \A t \in 1..(Len(ts)-1) : \A u \in Rng(ts[t].q) :
        LET k == Kids(st, u) IN Tiles(st.O, k, st.O[u].s, st.O[u].e) /\ Rng(k) \subseteq Rng(ts[t+1].q)

\* each lower interval lies inside one interval of the tier above, or outside of all of them
NestedIn(O, up, lo) == \A i \in Rng(lo) :
   \/ \E u \in Rng(up) : O[u].s <= O[i].s /\ O[i].e <= O[u].e
   \/ \A u \in Rng(up) : O[i].e <= O[u].s \/ O[u].e <= O[i].s
Nested(O, ts) == \A t \in 1..(Len(ts)-1) : NestedIn(O, ts[t].q, ts[t+1].q)
GroupDisjoint(O, ts) == \A t \in 1..Len(ts) : Disjoint(O, ts[t].q) /\ \A i \in Rng(ts[t].q) : O[i].s < O[i].e

(***************************************************************************)
(* Relating tiers                                                          *)
(***************************************************************************)
Overlap(O, i, u) == Min2(O[i].e, O[u].e) - Max2(O[i].s, O[u].s)
\* cells of a tier under construction: id 0 is a new interval
CellOf(O, i) == [id |-> i, s |-> O[i].s, e |-> O[i].e]
Blank(s, e) == [id |-> 0, s |-> s, e |-> e]
RECURSIVE CloseGaps(_)
CloseGaps(cs) ==
  IF Len(cs) <= 1 THEN cs
  ELSE IF cs[1].e < cs[2].s
       THEN <<cs[1], Blank(cs[1].e, cs[2].s)>> \o CloseGaps(Tail(cs))
       ELSE <<cs[1]>> \o CloseGaps(Tail(cs))

\* write the cells of superset interval u into O; new ids are allocated at the end
RECURSIVE WriteCells(_, _, _, _)
WriteCells(O, u, c, cs) ==
  IF cs = <<>> THEN O
  ELSE LET x == Head(cs)
           O2 == IF x.id = 0
                 THEN Append(O, [k |-> "I", c |-> c, s |-> x.s, e |-> x.e, l |-> "", p |-> u])
                 ELSE [O EXCEPT ![x.id].s = x.s, ![x.id].e = x.e, ![x.id].p = u]
       IN WriteCells(O2, u, c, Tail(cs))

\* The intervals `lo` of class c are assigned to the intervals `up`.
\* tie: some assignment is not determined by the overlaps.
RelatePair(O0, up, lo, c) ==
  IF up = <<>> \/ lo = <<>> THEN [O |-> O0, q |-> lo, tie |-> FALSE]
  ELSE
  LET \* subset intervals that are not in the lower tier are let go
      O == TLCEval([i \in 1..Len(O0) |-> IF O0[i].p \in Rng(up) /\ i \notin Rng(lo) THEN [O0[i] EXCEPT !.p = 0] ELSE O0[i]])
      best == TLCEval([i \in 1..Len(lo) |-> Max({Overlap(O, lo[i], up[j]) : j \in 1..Len(up)})])
      arg  == [i \in 1..Len(lo) |-> {j \in 1..Len(up) : Overlap(O, lo[i], up[j]) = best[i]}]
      cont == TLCEval([i \in 1..Len(lo) |-> IF best[i] <= 0 THEN 0 ELSE Min(arg[i])])
      tie  == \E i \in 1..Len(lo) : best[i] > 0 /\ Cardinality(arg[i]) > 1
      mism == \E i \in 1..Len(lo) : best[i] > 0 /\ O[lo[i]].e - O[lo[i]].s > best[i]
      kids == TLCEval([j \in 1..Len(up) |->
                 LET ix == SelectSeq([i \in 1..Len(lo) |-> i], LAMBDA i : cont[i] = j)
                 IN CloseGaps([n \in 1..Len(ix) |-> CellOf(O, lo[ix[n]])])])
      dur(cs) == SumSeq([n \in 1..Len(cs) |-> cs[n].e - cs[n].s])
      squish == \E j \in 1..Len(up) : dur(kids[j]) # O[up[j]].e - O[up[j]].s
      newS(j) == IF mism /\ kids[j] # <<>> THEN Max2(O[up[j]].s, kids[j][1].s) ELSE O[up[j]].s
      newE(j) == IF mism /\ kids[j] # <<>> THEN Min2(O[up[j]].e, kids[j][Len(kids[j])].e) ELSE O[up[j]].e
      cells(j) ==
        LET cs == IF kids[j] = <<>> THEN <<Blank(O[up[j]].s, O[up[j]].e)>> ELSE kids[j]
            c1 == IF mism THEN [cs EXCEPT ![1].s = newS(j)] ELSE cs
            c2 == IF mism THEN [c1 EXCEPT ![Len(c1)].e = newE(j)] ELSE c1
            c3 == IF squish /\ c2[1].s # newS(j) THEN <<Blank(newS(j), c2[1].s)>> \o c2 ELSE c2
            c4 == IF squish /\ c3[Len(c3)].e # newE(j) THEN c3 \o <<Blank(c3[Len(c3)].e, newE(j))>> ELSE c3
        IN c4
      RECURSIVE Fill(_, _)
      Fill(P, j) == IF j > Len(up) THEN P
                    ELSE Fill(WriteCells([P EXCEPT ![up[j]].s = newS(j), ![up[j]].e = newE(j)], up[j], c, cells(j)), j + 1)
      O2 == Fill(O, 1)
  IN [O |-> O2, q |-> SortIds(O2, Rng(lo) \cup ((Len(O)+1)..Len(O2))), tie |-> tie]

\* relate all the tiers ts of one group, top to bottom
RelateTiers(O, ts) ==
  LET all == UNION {Rng(ts[t].q) : t \in 1..Len(ts)}
      O1 == TLCEval([i \in 1..Len(O) |-> IF i \in all THEN [O[i] EXCEPT !.p = 0] ELSE O[i]])
      RECURSIVE Go(_, _, _, _)
      Go(P, us, n, tie) ==
        IF n > Len(us) THEN [O |-> P, ts |-> us, tie |-> tie]
        ELSE LET r == RelatePair(P, us[n-1].q, us[n].q, us[n].c)
             IN Go(r.O, [us EXCEPT ![n].q = r.q], n + 1, tie \/ r.tie)
      out == Go(O1, ts, 2, FALSE)
  IN [out EXCEPT !.ts = [t \in 1..Len(out.ts) |-> [out.ts[t] EXCEPT !.q = SortIds(out.O, Rng(@))]]]

\* the tiers that make up a group, by the class hierarchy h
Arrange(h, ts) ==
  LET cs == TLCEval([t \in 1..Len(ts) |-> ts[t].c])
      RECURSIVE Climb(_), Down(_)
      Climb(c) == IF UpClass(h, c) \in Rng(cs) THEN Climb(UpClass(h, c)) ELSE c
      Down(c) == <<ts[IndexIn(cs, c)]>> \o (IF DnClass(h, c) \in Rng(cs) THEN Down(DnClass(h, c)) ELSE <<>>)
  IN Down(Climb(cs[1]))

\* result of an operation on one group: [O, ts, tie]
SetGroup(st, a, r) == [O |-> r.O, R |-> [st.R EXCEPT ![a[1]].gs[a[2]].ts = r.ts]]

(***************************************************************************)
(* Cleaning up                                                             *)
(***************************************************************************)
Gappy(O, q) == \E i \in 1..(Len(q)-1) : O[q[i]].e # O[q[i+1]].s
\* one interval for each gap between consecutive intervals of q
FillTier(O, q, c) ==
  LET RECURSIVE Go(_, _)
      Go(P, i) == IF i >= Len(q) THEN P
                  ELSE Go(IF P[q[i]].e < P[q[i+1]].s
                          THEN Append(P, [k |-> "I", c |-> c, s |-> P[q[i]].e, e |-> P[q[i+1]].s, l |-> "", p |-> 0])
                          ELSE P, i + 1)
      O2 == Go(O, 1)
  IN [O |-> O2, q |-> SortIds(O2, Rng(q) \cup ((Len(O)+1)..Len(O2)))]

\* a chain of blank intervals under u, from tier n of ts (or outside of any tier) down to the bottom of h
RECURSIVE Drill(_, _, _, _, _)
Drill(O, ts, u, h, n) ==
  LET c == DnClass(h, O[u].c) IN
  IF c = "Bottom" THEN [O |-> O, ts |-> ts]
  ELSE LET O2 == Append(O, [k |-> "I", c |-> c, s |-> O[u].s, e |-> O[u].e, l |-> "", p |-> u])
           x == Len(O2)
           ts2 == IF n <= Len(ts) THEN [ts EXCEPT ![n].q = SortIds(O2, Rng(@) \cup {x})] ELSE ts
       IN Drill(O2, ts2, x, h, n + 1)

CleanupTiers(O, ts, h) ==
  LET times == UNION {TimesOf(O, ts[t].q) : t \in 1..Len(ts)}
      notTight == \E t \in 1..Len(ts) : ts[t].q # <<>> /\
                     (Gappy(O, ts[t].q) \/ Min(TimesOf(O, ts[t].q)) # Min(times) \/ Max(TimesOf(O, ts[t].q)) # Max(times))
      AtMid(P, q, i) == \E u \in Rng(q) : 2 * P[u].s <= P[i].s + P[i].e /\ P[i].s + P[i].e < 2 * P[u].e
      \* project the intervals without a superset in tier n upwards
      RECURSIVE Proj(_, _, _)
      Proj(P, q, is) ==  \* P: objects, q: upper tier, is: orphans left
        IF is = <<>> THEN [O |-> P, q |-> q]
        ELSE IF AtMid(P, q, Head(is)) THEN Proj(P, q, Tail(is))
        ELSE LET i == Head(is)
                 P2 == Append(P, [k |-> "I", c |-> UpClass(h, P[i].c), s |-> P[i].s, e |-> P[i].e, l |-> "", p |-> 0])
             IN Proj(P2, SortIds(P2, Rng(q) \cup {Len(P2)}), Tail(is))
      RECURSIVE Up(_, _)
      Up(r, n) ==
        IF n < 2 THEN r
        ELSE LET orph == SelectSeq(r.ts[n].q, LAMBDA i : r.O[i].p = 0)
             IN IF orph = <<>> THEN Up(r, n - 1)
                ELSE LET x == Proj(r.O, r.ts[n-1].q, orph)
                         y == RelateTiers(x.O, [r.ts EXCEPT ![n-1].q = x.q])
                     IN Up([y EXCEPT !.tie = @ \/ r.tie], n - 1)
      r1 == Up([O |-> O, ts |-> ts, tie |-> FALSE], Len(ts))
      r2 == IF ~notTight THEN r1
            ELSE LET y == RelateTiers(r1.O, r1.ts)
                     f == FillTier(y.O, y.ts[1].q, y.ts[1].c)
                     z == IF Gappy(y.O, y.ts[1].q) THEN RelateTiers(f.O, [y.ts EXCEPT ![1].q = f.q])
                          ELSE [O |-> y.O, ts |-> y.ts, tie |-> FALSE]
                 IN [z EXCEPT !.tie = @ \/ r1.tie \/ y.tie]
      \* superset intervals that have no subset
      RECURSIVE Each(_, _, _), Deep(_, _)
      Each(r, n, is) == IF is = <<>> THEN r
                        ELSE IF HasKids(r.O, Head(is)) THEN Each(r, n, Tail(is))
                        ELSE LET d == Drill(r.O, r.ts, Head(is), h, n + 1)
                             IN Each([r EXCEPT !.O = d.O, !.ts = d.ts], n, Tail(is))
      Deep(r, n) == IF n >= Len(r.ts) THEN r ELSE Deep(Each(r, n, r.ts[n].q), n + 1)
  IN Deep(r2, 1)

CleanupGroup(st, a) ==
  LET g == GroupAt(st, a)
  IN IF g.k = "P" THEN [st |-> st, tie |-> FALSE]
     ELSE LET r == CleanupTiers(st.O, g.ts, g.h) IN [st |-> SetGroup(st, a, r), tie |-> r.tie]

CleanupGrid(st, r) ==
  LET n == Len(st.R[r].gs)
      RECURSIVE Each(_, _, _)
      Each(s, g, tie) == IF g > n THEN [st |-> s, tie |-> tie]
                         ELSE LET x == CleanupGroup(s, <<r, g>>) IN Each(x.st, g + 1, tie \/ x.tie)
      c == Each(st, 1, FALSE)
      s1 == c.st
      ivs == {g \in 1..n : s1.R[r].gs[g].k = "I" /\ GroupTimes(s1.O, s1.R[r].gs[g]) # {}}
      lo(g) == Min(GroupTimes(s1.O, s1.R[r].gs[g]))
      hi(g) == Max(GroupTimes(s1.O, s1.R[r].gs[g]))
      LO == Min({lo(g) : g \in ivs})
      HI == Max({hi(g) : g \in ivs})
      \* one blank interval in every tier
      RECURSIVE Pad(_, _, _, _, _)
      Pad(s, a, t, x, y) ==
        IF t > Len(GroupAt(s, a).ts) THEN s
        ELSE LET O2 == Append(s.O, [k |-> "I", c |-> GroupAt(s, a).ts[t].c, s |-> x, e |-> y, l |-> "", p |-> 0])
             IN Pad([O |-> O2, R |-> [s.R EXCEPT ![a[1]].gs[a[2]].ts[t].q = SortIds(O2, Rng(@) \cup {Len(O2)})]],
                    a, t + 1, x, y)
      RECURSIVE Pads(_, _, _)
      Pads(s, gset, tie) ==
        IF gset = {} THEN [st |-> s, tie |-> tie]
        ELSE LET g == Min(gset)
                 a == <<r, g>>
                 s2 == IF lo(g) # LO THEN Pad(s, a, 1, LO, lo(g)) ELSE s
                 s3 == IF hi(g) # HI THEN Pad(s2, a, 1, hi(g), HI) ELSE s2
                 x == RelateTiers(s3.O, GroupAt(s3, a).ts)
             IN Pads(SetGroup(s3, a, x), gset \ {g}, tie \/ x.tie)
  IN IF ivs = {} \/ \A g \in ivs : lo(g) = LO /\ hi(g) = HI THEN c
     ELSE Pads(s1, ivs, c.tie)

(***************************************************************************)
(* Canonical numbering of new objects                                      *)
(*                                                                         *)
(* The ids above n0 are renumbered in the order in which an observer meets *)
(* the objects: roots, groups, tiers, entries; then the subset lists of    *)
(* what is known.  Objects nobody can reach are dropped.                   *)
(***************************************************************************)
Canon(st, n0) ==
  LET seen == Flat([r \in 1..Len(st.R) |-> Flat([g \in 1..Len(st.R[r].gs) |->
                 Flat([t \in 1..Len(st.R[r].gs[g].ts) |-> SelectSeq(st.R[r].gs[g].ts[t].q, LAMBDA i : i > n0)])])])
      RECURSIVE Uniq(_, _)
      Uniq(s, acc) == IF s = <<>> THEN acc ELSE Uniq(Tail(s), IF Head(s) \in Rng(acc) THEN acc ELSE Append(acc, Head(s)))
      \* breadth first over subset lists
      RECURSIVE More(_, _)
      More(acc, k) == IF k > Len(acc) THEN acc
                      ELSE LET new == SelectSeq(SortIds(st.O, {j \in 1..Len(st.O) : st.O[j].p = acc[k]}), LAMBDA j : j \notin Rng(acc))
                           IN More(acc \o new, k + 1)
      order == More([i \in 1..n0 |-> i] \o Uniq(seen, <<>>), 1)
      pos(i) == IF i <= n0 THEN i ELSE IndexIn(order, i)
  IN IF Len(st.O) = n0 THEN st
     ELSE [O |-> [k \in 1..Len(order) |-> [st.O[order[k]] EXCEPT !.p = IF @ > 0 THEN pos(@) ELSE @]],
           R |-> [r \in 1..Len(st.R) |-> [st.R[r] EXCEPT !.gs = [g \in 1..Len(st.R[r].gs) |->
                    [st.R[r].gs[g] EXCEPT !.ts = [t \in 1..Len(st.R[r].gs[g].ts) |->
                       [st.R[r].gs[g].ts[t] EXCEPT !.q = [k \in 1..Len(@) |-> pos(@[k])]]]]]]]]
(*************************** names ****************************************)
\* A group that is given no name is called what the names of its tiers begin
\* with, spaces, dashes and underscores at both ends taken off and anything
\* but letters, digits and underscores made an underscore; if that is less
\* than two characters, by its place in the TextGrid ("None" outside of one).
\* Names that have more in common elsewhere than at their beginnings: open.
Ch(x, i) == SubSeq(x, i, i)
Subs(x, n) == {SubSeq(x, i, i + n - 1) : i \in 1..(Len(x) - n + 1)}
Shared(x, y) ==
  LET m == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
      n == CHOOSE k \in 0..m : SubSeq(x, 1, k) = SubSeq(y, 1, k) /\ (k = m \/ Ch(x, k + 1) # Ch(y, k + 1))
  IN IF x = "?" \/ y = "?" \/ Subs(x, n + 1) \cap Subs(y, n + 1) # {} THEN "?" ELSE SubSeq(x, 1, n)
Trims == {" ", "_", "-"}
Word == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
         "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
         "0","1","2","3","4","5","6","7","8","9","_"}
RECURSIVE Worded(_), TrimR(_), SharedAll(_)
TrimL(x) == IF \A i \in 1..Len(x) : Ch(x, i) \in Trims THEN ""
            ELSE SubSeq(x, CHOOSE i \in 1..Len(x) : Ch(x, i) \notin Trims /\ \A j \in 1..(i-1) : Ch(x, j) \in Trims, Len(x))
TrimR(x) == IF x # "" /\ Ch(x, Len(x)) \in Trims THEN TrimR(SubSeq(x, 1, Len(x) - 1)) ELSE x
Worded(x) == IF x = "" THEN "" ELSE (IF Ch(x, 1) \in Word THEN Ch(x, 1) ELSE "_") \o Worded(SubSeq(x, 2, Len(x)))
SharedAll(q) == IF Len(q) = 1 THEN q[1] ELSE SharedAll(<<Shared(q[1], q[2])>> \o SubSeq(q, 3, Len(q)))
\* the name of group number g (0: in no TextGrid) with tiers ts
NameOf(ts, g) ==
  IF ts = <<>> THEN "?"
  ELSE LET x == SharedAll([i \in 1..Len(ts) |-> ts[i].n])
           w == IF x = "?" THEN "?" ELSE Worded(TrimR(TrimL(x)))
       IN IF w = "?" THEN "?" ELSE IF Len(w) > 1 THEN w ELSE IF g = 0 THEN "None" ELSE "group_" \o ToString(g - 1)

===========================================================================
