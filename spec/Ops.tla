------------------------------- MODULE Ops -------------------------------
(***************************************************************************)
(* The public operations as functions from states to states.               *)
(*                                                                         *)
(* Exp(st, op) is the outcome the specification requires:                  *)
(*   ok   - FALSE: the operation must be refused and must change nothing   *)
(*   st   - the state afterwards                                           *)
(*   val  - the value returned (for the queries)                           *)
(*   skip - TRUE: the state afterwards is not prescribed                   *)
(*   inv  - whether the invariants are required of it all the same (when   *)
(*          only the choice between equal overlaps is open) or not (the    *)
(*          input is outside of what is specified, see DESIGN.md)          *)
(* A name "?" is not prescribed.                                           *)
(***************************************************************************)
EXTENDS ATG

NoVal == <<>>
Done(s)      == [ok |-> TRUE, st |-> s, val |-> NoVal, skip |-> FALSE, inv |-> TRUE]
DoneT(s, tie) == [ok |-> TRUE, st |-> s, val |-> NoVal, skip |-> tie, inv |-> TRUE]
Refuse(s)    == [ok |-> FALSE, st |-> s, val |-> NoVal, skip |-> FALSE, inv |-> TRUE]
Skip(s)      == [ok |-> TRUE, st |-> s, val |-> NoVal, skip |-> TRUE, inv |-> FALSE]
Query(s, v)  == [ok |-> TRUE, st |-> s, val |-> v, skip |-> FALSE, inv |-> TRUE]

Opt(op, f, d) == IF f \in DOMAIN op THEN op[f] ELSE d

Iv(c, s, e, l, p) == [k |-> "I", c |-> c, s |-> s, e |-> e, l |-> l, p |-> p]
InTiers(st) == UNION {Rng(TierAt(st, a).q) : a \in Tiers(st)}
\* what was in a tier before and is in none afterwards is no longer part of anything
Bury(st0, st) ==
  LET was == InTiers(st0) is == InTiers(st)
      RECURSIVE Dead(_)
      Dead(S) == LET m == {j \in 1..Len(st.O) : st.O[j].p \in S /\ j \notin is} IN IF m \subseteq S THEN S ELSE Dead(S \cup m)
      dead == Dead(was \ is)
  IN [st EXCEPT !.O = [i \in 1..Len(@) |->
        IF i \in is THEN (IF @[i].k = "X" THEN [@[i] EXCEPT !.k = "I"] ELSE @[i])
        ELSE IF i \in dead THEN [@[i] EXCEPT !.k = "X", !.p = 0] ELSE @[i]]]
Gone == [k |-> "gone", gs |-> <<>>]
TakeRoots(R, rs) == [r \in 1..Len(R) |-> IF r \in rs THEN Gone ELSE R[r]]
Tuple(O, i) == <<O[i].s, O[i].e, O[i].l>>

(*************************** making things *********************************)
RECURSIVE TreeObjs(_, _, _)
\* the objects of a tree in pre-order; n = ids used so far, p = id of the superset
TreeObjs(node, n, p) ==
  LET ks == Opt(node, "kids", <<>>)
      RECURSIVE Go(_, _)
      Go(acc, i) == IF i > Len(ks) THEN acc ELSE Go(acc \o TreeObjs(ks[i], n + Len(acc), n + 1), i + 1)
  IN Go(<<[k |-> Opt(node, "k", "I"), c |-> node.c, s |-> node.s, e |-> node.e, l |-> node.l, p |-> p]>>, 1)
MkObj(st, op) == Done([st EXCEPT !.O = @ \o TreeObjs(op.tree, Len(@), 0)])

EntObjs(kind, c, ents) ==
  LET O == TLCEval([i \in 1..Len(ents) |-> [k |-> kind, c |-> c, s |-> ents[i][1], e |-> IF kind = "P" THEN ents[i][1] ELSE ents[i][2],
                                    l |-> ents[i][3], p |-> 0]])
      q == SortIds(O, 1..Len(ents))
  IN [i \in 1..Len(ents) |-> O[q[i]]]
NewIds(O, n) == [i \in 1..n |-> Len(O) + i]
MkTier(st, op) ==
  LET new == EntObjs(op.k, op.c, op.ents)
  IN Done([O |-> st.O \o new,
           R |-> Append(st.R, [k |-> "tier", gs |-> <<[k |-> op.k, n |-> "", h |-> op.h,
                   ts |-> <<[c |-> op.c, n |-> op.n, q |-> NewIds(st.O, Len(new))]>>]>>])])

\* tiers ts with hierarchy h become a group
Related(O, k, h, ts) == IF k = "P" THEN [O |-> O, ts |-> ts, tie |-> FALSE] ELSE RelateTiers(O, Arrange(h, ts))
MkGroup(st, op) ==
  LET first == st.R[op.rs[1]].gs[1]
      r == Related(st.O, first.k, first.h, [i \in 1..Len(op.rs) |-> st.R[op.rs[i]].gs[1].ts[1]])
  IN DoneT([O |-> r.O, R |-> Append(TakeRoots(st.R, Rng(op.rs)),
            [k |-> "group", gs |-> <<[k |-> first.k, n |-> NameOf(r.ts, 0), h |-> first.h, ts |-> r.ts]>>])], r.tie)

\* a group made without tiers has one of the most general class
MkEmpty(st, op) ==
  LET c == IF op.k = "P" THEN "SequencePoint" ELSE "SequenceInterval"
      ts == <<[c |-> c, n |-> c, q |-> <<>>]>>
  IN Done([st EXCEPT !.R = Append(@, [k |-> "group", gs |-> <<[k |-> op.k, n |-> NameOf(ts, 0), h |-> IF op.k = "P" THEN <<>> ELSE <<c>>, ts |-> ts]>>])])

\* add the groups of the roots rs to grid r, one after the other;
\* out: a group's hierarchy is not the one the grid has for its classes
RECURSIVE AddGroups(_, _, _, _, _)
AddGroups(st, r, rs, tie, out) ==
  IF rs = <<>> THEN [st |-> st, tie |-> tie, out |-> out]
  ELSE LET g == st.R[Head(rs)].gs[1]
           x == Related(st.O, g.k, g.h, g.ts)
           clash == g.k = "I" /\ (g.h[1] # g.ts[1].c \/
                      \E n \in 1..Len(st.R[r].gs) : st.R[r].gs[n].h # g.h /\ Rng(st.R[r].gs[n].h) \cap Rng(g.h) # {})
       IN AddGroups([O |-> x.O, R |-> [TakeRoots(st.R, {Head(rs)}) EXCEPT ![r].gs =
                          Append(@, [g EXCEPT !.ts = x.ts, !.n = IF @ = "None" THEN NameOf(x.ts, Len(st.R[r].gs) + 1) ELSE @])]],
                    r, Tail(rs), tie \/ x.tie, out \/ clash)
MkGrid(st, op) ==
  LET s1 == [st EXCEPT !.R = Append(@, [k |-> "grid", gs |-> <<>>])]
      x == AddGroups(s1, Len(s1.R), op.rs, FALSE, FALSE)
  IN IF x.out THEN Skip(st) ELSE DoneT(x.st, x.tie)
RAppend(st, op) == LET x == AddGroups(st, op.a[1], <<op.r>>, FALSE, FALSE) IN IF x.out THEN Skip(st) ELSE DoneT(x.st, x.tie)

(*************************** reading ***************************************)
\* which tier goes with which class in which group: a sequence of groups,
\* each a sequence of <<tier number, class>>
TopOf(ch, c) == \E n \in 1..Len(ch) : ch[n] # <<>> /\ ch[n][1] = c
SubOf(ch, c) == LET S == {n \in 1..Len(ch) : c \in Rng(ch[n])} IN IF S = {} THEN "Bottom" ELSE DnClass(ch[Min(S)], c)
Assign(ntiers, ec, nested, ch) ==
  IF nested THEN
    LET RECURSIVE Go(_, _)
        Go(g, n) == IF g > Len(ec) THEN <<>>
                    ELSE <<[i \in 1..Len(ec[g]) |-> <<n + i, ec[g][i]>>]>> \o Go(g + 1, n + Len(ec[g]))
    IN Go(1, 0)
  ELSE LET tops == SelectSeq([i \in 1..Len(ec) |-> i], LAMBDA i : TopOf(ch, ec[i]))
       IN IF Len(ec) = 1 \/ Len(tops) <= 1
          THEN [g \in 1..(ntiers \div Len(ec)) |-> [i \in 1..Len(ec) |-> <<(g-1) * Len(ec) + i, ec[i]>>]]
          ELSE LET RECURSIVE Down(_, _), Each(_, _)
                   Down(acc, used) ==
                     LET c == SubOf(ch, acc[Len(acc)][2])
                         S == {i \in 1..Len(ec) : ec[i] = c /\ i \notin used}
                     IN IF S = {} THEN [g |-> acc, used |-> used]
                        ELSE Down(Append(acc, <<Min(S), c>>), used \cup {Min(S)})
                   Each(ts, used) == IF ts = <<>> THEN <<>>
                                     ELSE LET d == Down(<<<<Head(ts), ec[Head(ts)]>>>>, used)
                                          IN <<d.g>> \o Each(Tail(ts), d.used)
               IN Each(tops, {})
ChainOf(ch, c) == LET S == {n \in 1..Len(ch) : c \in Rng(ch[n])} IN IF S = {} THEN <<>> ELSE ch[Min(S)]

\* build a grid from praat tiers: in each group the interval tiers are related, point tiers follow
ReadGrid(st, tiers, asg, ch) ==
  LET isI(x) == tiers[x[1]].k = "I"
      parts == Flat([g \in 1..Len(asg) |->
                 LET iv == SelectSeq(asg[g], LAMBDA x : isI(x))
                     pt == SelectSeq(asg[g], LAMBDA x : ~isI(x))
                 IN (IF iv = <<>> THEN <<>> ELSE <<[k |-> "I", xs |-> iv]>>)
                    \o (IF pt = <<>> THEN <<>> ELSE <<[k |-> "P", xs |-> pt]>>)])
      RECURSIVE MkTs(_, _, _, _)
      MkTs(O, k, xs, ts) ==
        IF xs = <<>> THEN [O |-> O, ts |-> ts]
        ELSE LET t == tiers[Head(xs)[1]]
                 new == EntObjs(k, Head(xs)[2], t.ents)
             IN MkTs(O \o new, k, Tail(xs), Append(ts, [c |-> Head(xs)[2], n |-> t.n, q |-> NewIds(O, Len(new))]))
      RECURSIVE Each(_, _, _, _)
      Each(O, gs, n, tie) ==
        IF n > Len(parts) THEN [O |-> O, gs |-> gs, tie |-> tie]
        ELSE LET m == MkTs(O, parts[n].k, parts[n].xs, <<>>)
                 h == IF parts[n].k = "P" THEN <<>> ELSE ChainOf(ch, parts[n].xs[1][2])
                 r == Related(m.O, parts[n].k, h, m.ts)
             IN Each(r.O, Append(gs, [k |-> parts[n].k, n |-> NameOf(r.ts, n), h |-> h, ts |-> r.ts]), n + 1, tie \/ r.tie)
      e == Each(st.O, <<>>, 1, FALSE)
      s1 == [O |-> e.O, R |-> Append(st.R, [k |-> "grid", gs |-> e.gs])]
      c == CleanupGrid(s1, Len(s1.R))
  IN DoneT(c.st, c.tie \/ e.tie)
Read(st, op) ==
  LET asg == Assign(Len(op.tiers), op.ec, op.nested, op.ch)
  IN IF \E g \in 1..Len(asg) : \E i \in 1..Len(asg[g]) : asg[g][i][1] > Len(op.tiers)
     THEN Refuse(st)
     ELSE ReadGrid(st, op.tiers, asg, op.ch)

(*************************** relating, cleaning ****************************)
ReRelate(st, op) == LET r == RelateTiers(st.O, GroupAt(st, op.a).ts) IN DoneT(SetGroup(st, op.a, r), r.tie)

CleanupObj(st, o, h) ==
  LET a == Loc(st, o)
      lower == a[1] # 0 /\ st.R[a[1]].k # "tier" /\ a[3] < Len(GroupAt(st, a).ts)
      ts == IF a[1] # 0 THEN GroupAt(st, a).ts ELSE <<>>
      put(O, us) == IF a[1] = 0 THEN [st EXCEPT !.O = O] ELSE [O |-> O, R |-> [st.R EXCEPT ![a[1]].gs[a[2]].ts = us]]
      ks == Kids(st, o)
      c == DnClass(h, st.O[o].c)
  IN IF c = "Bottom" THEN Done(st)
     ELSE IF ks = <<>>
     THEN LET d == Drill(st.O, ts, o, h, IF a[1] = 0 THEN 1 ELSE a[3] + 1) IN Done(put(d.O, d.ts))
     ELSE IF st.O[ks[1]].s < st.O[o].s \/ st.O[ks[Len(ks)]].e > st.O[o].e THEN Skip(st)
     ELSE LET cs == CloseGaps([i \in 1..Len(ks) |-> CellOf(st.O, ks[i])])
              c1 == IF cs[1].s # st.O[o].s THEN <<Blank(st.O[o].s, cs[1].s)>> \o cs ELSE cs
              c2 == IF c1[Len(c1)].e # st.O[o].e THEN c1 \o <<Blank(c1[Len(c1)].e, st.O[o].e)>> ELSE c1
              O2 == WriteCells(st.O, o, c, c2)
              new == (Len(st.O)+1)..Len(O2)
              ts2 == IF lower THEN [ts EXCEPT ![a[3]+1].q = SortIds(O2, Rng(@) \cup new)] ELSE ts
          IN Done(put(O2, ts2))

Cleanup(st, op) ==
  CASE op.k = "grid"  -> LET x == CleanupGrid(st, op.a[1]) IN DoneT(x.st, x.tie)
    [] op.k = "group" -> LET x == CleanupGroup(st, op.a) IN DoneT(x.st, x.tie)
    [] op.k = "tier"  -> LET t == TierAt(st, op.a) IN
         IF GroupAt(st, op.a).k = "P" \/ ~Gappy(st.O, t.q) THEN Done(st)
         ELSE LET f == FillTier(st.O, t.q, t.c)
                  ts == [GroupAt(st, op.a).ts EXCEPT ![op.a[3]].q = f.q]
              IN IF st.R[op.a[1]].k = "tier" THEN Done(SetGroup(st, op.a, [O |-> f.O, ts |-> ts]))
                 ELSE LET r == RelateTiers(f.O, ts) IN DoneT(SetGroup(st, op.a, r), r.tie)
    [] OTHER -> CleanupObj(st, op.o, op.h)

(*************************** fusing ****************************************)
Fuse(st, op) ==
  LET o == op.o
      nb == Neighbours(st, o)
      x == IF op.d = "r" THEN FolOf(nb, o) ELSE PrevOf(nb, o)
      lf == Opt(op, "lf", " ")
      a == Loc(st, o)
      O == st.O
      lab == IF op.d = "r" THEN O[o].l \o lf \o O[x].l ELSE O[x].l \o lf \o O[o].l
      O1 == TLCEval([i \in 1..Len(O) |->
               IF i = o THEN [O[i] EXCEPT !.s = IF op.d = "l" THEN O[x].s ELSE @,
                                          !.e = IF op.d = "r" THEN O[x].e ELSE @, !.l = lab]
               ELSE IF i = x THEN [O[i] EXCEPT !.p = 0]
               ELSE IF O[i].p = x THEN [O[i] EXCEPT !.p = o] ELSE O[i]])
      R1 == IF a[1] = 0 THEN st.R ELSE [st.R EXCEPT ![a[1]].gs[a[2]].ts[a[3]].q = SelectSeq(@, LAMBDA i : i # x)]
  IN IF OrphanIn(st, o) \/ Opt(op, "d", "r") \notin {"r", "l"} THEN Skip(st)
     ELSE IF x = 0 THEN Refuse(st)
     ELSE Done([O |-> O1, R |-> R1])

(*************************** appending *************************************)
\* entries of S that are in each other's place: their order is open
Clash(O, S) == \E i, j \in S : i # j /\ (IF O[i].k = "P" THEN O[i].s = O[j].s ELSE O[i].s < O[j].e /\ O[j].s < O[i].e)
ClashWith(O, x, S) == \E j \in S : j # x /\ (IF O[x].k = "P" THEN O[x].s = O[j].s ELSE O[x].s < O[j].e /\ O[j].s < O[x].e)
\* the objects connected with o by the superset relation, with the tier each belongs to
RECURSIVE Connected(_, _, _)
Connected(st, S, n) ==   \* S: set of <<id, tier number>>, n: number of tiers
  LET more == {<<st.O[x[1]].p, x[2]-1>> : x \in {y \in S : st.O[y[1]].p # 0 /\ y[2] > 1}}
              \cup UNION {{<<j, x[2]+1>> : j \in {k \in 1..Len(st.O) : st.O[k].p = x[1]}} : x \in {y \in S : y[2] < n}}
  IN IF more \subseteq S THEN S ELSE Connected(st, S \cup more, n)

PutIn(st, a, S) ==   \* put each <<id, tier>> of S into the tiers of group a
  LET ts == GroupAt(st, a).ts
  IN [st EXCEPT !.R[a[1]].gs[a[2]].ts =
        [t \in 1..Len(ts) |-> [ts[t] EXCEPT !.q = SortIds(st.O, Rng(@) \cup {x[1] : x \in {y \in S : y[2] = t}})]]]
\* an equal entry (time and label) is already there
Twin(st, a, S) == \E x \in S : \E j \in Rng(GroupAt(st, a).ts[x[2]].q) :
                     j # x[1] /\ Tuple(st.O, j) = Tuple(st.O, x[1])
TAppend(st, op) ==
  LET t == TierAt(st, op.a)
      free == st.R[op.a[1]].k = "tier"
      S == IF free \/ st.O[op.o].k = "P" THEN {<<op.o, op.a[3]>>} ELSE Connected(st, {<<op.o, op.a[3]>>}, Len(GroupAt(st, op.a).ts))
      s1 == PutIn(st, op.a, S)
  IN IF st.O[op.o].k # GroupAt(st, op.a).k \/ st.O[op.o].c # t.c THEN Refuse(st)
     ELSE IF op.o \in Rng(t.q) THEN Done(st)
     ELSE IF \E x \in S : st.O[x[1]].c # GroupAt(st, op.a).ts[x[2]].c THEN Skip(st)
     ELSE IF \E x \in S : ClashWith(st.O, x[1], Rng(GroupAt(st, op.a).ts[x[2]].q)) THEN Skip(st)
     ELSE IF Twin(st, op.a, S) \/ \E x \in S : Loc(st, x[1])[1] # 0 /\ Loc(st, x[1]) # <<op.a[1], op.a[2], x[2]>> THEN Skip(st)
     ELSE IF free /\ st.O[op.o].p # 0 THEN Skip(st)
     ELSE IF free \/ GroupAt(st, op.a).k = "P" \/ ~Opt(op, "rel", TRUE) THEN Done(s1)
     ELSE LET r == RelateTiers(s1.O, GroupAt(s1, op.a).ts) IN DoneT(SetGroup(s1, op.a, r), r.tie)

OAppend(st, op) ==
  LET o == op.o x == op.x a == Loc(st, o)
      s1 == [st EXCEPT !.O[x].p = o]
      lower == a[1] # 0 /\ st.R[a[1]].k # "tier" /\ a[3] < Len(GroupAt(st, a).ts)
      S == IF lower THEN {y \in Connected(s1, {<<x, a[3]+1>>}, Len(GroupAt(st, a).ts)) : y[2] > a[3]} ELSE {}
  IN IF st.O[x].k # "I" \/ DnClass(op.h, st.O[o].c) # st.O[x].c THEN Refuse(st)
     ELSE IF st.O[x].p = o THEN Done(st)
     ELSE IF ClashWith(st.O, x, Rng(Kids(st, o))) THEN Skip(st)
     ELSE IF lower /\ \E y \in S : ClashWith(st.O, y[1], Rng(GroupAt(st, a).ts[y[2]].q)) THEN Skip(st)
     ELSE Done(IF lower THEN PutIn(s1, a, S) ELSE s1)

GroupIds(g) == UNION {Rng(g.ts[t].q) : t \in 1..Len(g.ts)}
GAppend(st, op) ==
  LET g == GroupAt(st, op.a)
      src == st.R[op.r].gs[1]
      t == src.ts[1]
      cs == {g.ts[i].c : i \in 1..Len(g.ts)}
      fits == \E i \in 1..Len(g.ts) : t.c \in {UpClass(g.h, g.ts[i].c), DnClass(g.h, g.ts[i].c)}
      r == Related(st.O, g.k, g.h, Append(g.ts, t))
      \* subset intervals outside of tiers stay where they are if the new tier is empty
      stay == t.q = <<>> /\ \E i \in Live(st) : st.O[i].c = t.c /\ st.O[i].p \in GroupIds(g)
  IN IF g.k # src.k \/ t.c \in cs THEN Refuse(st)
     ELSE IF stay THEN Skip(st)
     ELSE IF g.k = "P"
     THEN Done([O |-> st.O, R |-> [TakeRoots(st.R, {op.r}) EXCEPT ![op.a[1]].gs[op.a[2]].ts = Append(g.ts, t),
                                                                  ![op.a[1]].gs[op.a[2]].n = "?"]])
     ELSE IF ~fits THEN Refuse(st)
     ELSE DoneT([O |-> r.O, R |-> [TakeRoots(st.R, {op.r}) EXCEPT ![op.a[1]].gs[op.a[2]].ts = r.ts,
                                                                  ![op.a[1]].gs[op.a[2]].n = "?"]], r.tie)

(*************************** time ******************************************)
ShiftIds(O, S, by) == [i \in 1..Len(O) |-> IF i \in S THEN [O[i] EXCEPT !.s = @ + by, !.e = @ + by] ELSE O[i]]
Shift(st, op) ==
  LET S == IF op.k = "grid" THEN UNION {GroupIds(st.R[op.a[1]].gs[g]) : g \in 1..Len(st.R[op.a[1]].gs)}
           ELSE GroupIds(GroupAt(st, op.a))
  IN IF \E i \in 1..Len(st.O) : st.O[i].k # "X" /\ st.O[i].p \in S /\ i \notin S THEN Skip(st)
     ELSE Done([st EXCEPT !.O = ShiftIds(st.O, S, op.by)])

RECURSIVE Below(_, _)
Below(st, S) == LET m == {j \in 1..Len(st.O) : st.O[j].p \in S} IN IF m \subseteq S THEN S ELSE Below(st, S \cup m)

SameClasses(g1, g2) == Len(g1.ts) = Len(g2.ts) /\ \A t \in 1..Len(g1.ts) : g1.ts[t].c = g2.ts[t].c
Concat(st, op) ==
  LET g1 == GroupAt(st, op.a) g2 == st.R[op.r].gs[1]
      times == IF op.k = "tier" THEN TimesOf(st.O, TierAt(st, op.a).q) ELSE GroupTimes(st.O, g1)
      \* tick 0 is op.off ticks after time 0
      by == IF times = {} THEN 0 ELSE Max(times) + op.off
      S == Below(st, GroupIds(g2))
      O1 == ShiftIds(st.O, S, by)
      R1 == TakeRoots(st.R, {op.r})
      ts == TLCEval([t \in 1..Len(g1.ts) |-> [g1.ts[t] EXCEPT !.q = SortIds(O1, Rng(@) \cup Rng(g2.ts[t].q))]])
      r == RelateTiers(O1, ts)
      twin == \E t \in 1..Len(g1.ts) : \E i \in Rng(g1.ts[t].q), j \in Rng(g2.ts[t].q) : Tuple(O1, i) = Tuple(O1, j)
  IN IF op.k = "tier"
     THEN IF g1.k # g2.k \/ TierAt(st, op.a).c # g2.ts[1].c THEN Refuse(st)
          ELSE IF st.R[op.a[1]].k # "tier" \/ twin THEN Skip(st)
          ELSE Done([O |-> O1, R |-> [R1 EXCEPT ![op.a[1]].gs[1].ts = ts]])
     ELSE IF g1.k # g2.k \/ ~SameClasses(g1, g2) THEN Refuse(st)
     ELSE IF g1.k = "P" /\ twin THEN Skip(st)
     ELSE IF g1.k = "P" THEN Done([O |-> O1, R |-> [R1 EXCEPT ![op.a[1]].gs[op.a[2]].ts = ts]])
     ELSE IF ~(Nested(O1, ts) /\ GroupDisjoint(O1, ts)) THEN Skip(st)
     ELSE IF GroupIds(g2) = {} THEN DoneT(st, TRUE)
     ELSE DoneT([O |-> r.O, R |-> [R1 EXCEPT ![op.a[1]].gs[op.a[2]].ts = r.ts]], r.tie)

Add(st, op) ==
  LET a == st.R[op.r1] b == st.R[op.r2] g1 == a.gs[1] g2 == b.gs[1]
      merge(q1, q2) == SortIds(st.O, Rng(q1) \cup {i \in Rng(q2) : \A j \in Rng(q1) : Tuple(st.O, i) # Tuple(st.O, j)})
      ts == TLCEval([t \in 1..Len(g1.ts) |-> [g1.ts[t] EXCEPT !.q = merge(@, g2.ts[t].q)]])
      R1 == TakeRoots(st.R, {op.r1, op.r2})
      r == RelateTiers(st.O, ts)
      fin(O, us) == [O |-> O, R |-> Append(R1, [k |-> a.k, gs |-> <<[g1 EXCEPT !.ts = us]>>])]
  IN IF a.k # b.k \/ g1.k # g2.k \/ ~SameClasses(g1, g2) THEN Refuse(st)
     ELSE IF g1.k = "I" /\ \E t \in 1..Len(ts) : \E i, j \in Rng(ts[t].q) : i # j /\ st.O[i].s = st.O[j].s THEN Skip(st)
     ELSE IF g1.k = "P" \/ a.k = "tier" THEN Done(fin(st.O, ts))
     ELSE IF ~GroupDisjoint(st.O, ts) THEN Skip(st)
     ELSE DoneT(fin(r.O, r.ts), r.tie)

(*************************** the class hierarchy ***************************)
InsertSeq(s, i, x) == SubSeq(s, 1, i-1) \o <<x>> \o SubSeq(s, i, Len(s))
HasClass(g, c) == \E t \in 1..Len(g.ts) : g.ts[t].c = c
InterleaveOp(st, op) ==
  LET gs == st.R[op.a[1]].gs
      with == {g \in 1..Len(gs) : gs[g].k = "I" /\ HasClass(gs[g], op.ref)}
      h == gs[Min(with)].h
      at == IF op.w = "above" THEN IndexIn(h, op.ref) ELSE IndexIn(h, op.ref) + 1
      h2 == InsertSeq(h, at, op.n)
      copy == IF op.tf = "below" THEN DnClass(h2, op.n) ELSE UpClass(h2, op.n)
      OneGroup(s, g) ==
        LET ts == s.R[op.a[1]].gs[g].ts
            src == ts[IndexIn([t \in 1..Len(ts) |-> ts[t].c], copy)].q
            new == TLCEval([i \in 1..Len(src) |-> Iv(op.n, s.O[src[i]].s, s.O[src[i]].e, IF op.cl THEN s.O[src[i]].l ELSE "", 0)])
            t2 == Append(ts, [c |-> op.n, n |-> op.n, q |-> NewIds(s.O, Len(src))])
            r == RelateTiers(s.O \o new, Arrange(h2, t2))
        IN [st |-> SetGroup(s, <<op.a[1], g>>, r), tie |-> r.tie]
      RECURSIVE Each(_, _, _)
      Each(s, G, tie) == IF G = {} THEN [st |-> s, tie |-> tie]
                         ELSE LET x == OneGroup(s, Min(G)) IN Each(x.st, G \ {Min(G)}, tie \/ x.tie)
      e == Each(st, with, FALSE)
      fin == [e.st EXCEPT !.R[op.a[1]].gs = [g \in 1..Len(@) |-> IF @[g].h = h /\ @[g].k = "I" THEN [@[g] EXCEPT !.h = h2] ELSE @[g]]]
  IN IF \E g \in 1..Len(gs) : HasClass(gs[g], op.n) \/ op.n \in Rng(gs[g].h) THEN Skip(st)
     ELSE IF with = {} THEN Refuse(st)
     ELSE IF \E g \in with : ~HasClass(gs[g], copy) THEN Refuse(st)
     ELSE IF \E g \in 1..Len(gs) : gs[g].k = "I" /\ g \notin with /\ HasClass(gs[g], UpClass(h2, op.n)) /\ HasClass(gs[g], DnClass(h2, op.n)) THEN Skip(st)
     ELSE DoneT(fin, e.tie)

PopClass(st, op) ==
  LET r == op.a[1]
      gs == st.R[r].gs
      with == {g \in 1..Len(gs) : HasClass(gs[g], op.n)}
      multi == {g \in with : Len(gs[g].ts) > 1}
      hs == {gs[g].h : g \in multi}
      h == CHOOSE x \in hs : TRUE
      h2 == SelectSeq(h, LAMBDA c : c # op.n)
      OneGroup(s, g) ==
        LET ts == SelectSeq(s.R[r].gs[g].ts, LAMBDA t : t.c # op.n)
            x == RelateTiers(s.O, Arrange(h2, ts))
            bot == Rng(x.ts[Len(x.ts)].q)
            O2 == TLCEval([i \in 1..Len(x.O) |-> IF x.O[i].p \in bot THEN [x.O[i] EXCEPT !.p = 0] ELSE x.O[i]])
        IN [st |-> SetGroup(s, <<r, g>>, [x EXCEPT !.O = O2]), tie |-> x.tie]
      RECURSIVE Each(_, _, _)
      Each(s, G, tie) == IF G = {} THEN [st |-> s, tie |-> tie]
                         ELSE LET x == OneGroup(s, Min(G)) IN Each(x.st, G \ {Min(G)}, tie \/ x.tie)
      e == Each(st, multi, FALSE)
      keep == SelectSeq([g \in 1..Len(gs) |-> g], LAMBDA g : g \notin (with \ multi))
      ngs == TLCEval([n \in 1..Len(keep) |-> LET g == e.st.R[r].gs[keep[n]]
                IN IF multi # {} /\ g.k = "I" /\ g.h = h THEN [g EXCEPT !.h = h2] ELSE g])
  IN IF \E g \in multi : gs[g].k = "P" THEN Skip(st)
     ELSE DoneT([e.st EXCEPT !.R[r].gs = ngs], e.tie)

(*************************** small changes *********************************)
TPop(st, op) ==
  IF op.o \notin Rng(TierAt(st, op.a).q) THEN Refuse(st)
  ELSE Done([O |-> [st.O EXCEPT ![op.o].p = 0],
             R |-> [st.R EXCEPT ![op.a[1]].gs[op.a[2]].ts[op.a[3]].q = SelectSeq(@, LAMBDA i : i # op.o)]])
Relabel(st, op) == Done([st EXCEPT !.O[op.o].l = op.l])
Retime(st, op)  == Done(IF op.w = "e" THEN [st EXCEPT !.O[op.o].e = op.t] ELSE [st EXCEPT !.O[op.o].s = op.t])
SetName(st, op) == Done([st EXCEPT !.R[op.a[1]].gs[op.a[2]].n = op.n])
RenameTier(st, op) ==
  LET s1 == [st EXCEPT !.R[op.a[1]].gs[op.a[2]].ts[op.a[3]].n = op.n]
  IN Done(IF st.R[op.a[1]].k = "tier" \/ GroupAt(st, op.a).n # "None" THEN s1
          ELSE [s1 EXCEPT !.R[op.a[1]].gs[op.a[2]].n = NameOf(GroupAt(s1, op.a).ts, 0)])

(*************************** intervals and their subsets *******************)
SetSuper(st, op) ==
  IF st.O[op.x].k # "I" \/ UpClass(op.h, st.O[op.o].c) # st.O[op.x].c \/ st.O[op.o].p = op.x THEN Refuse(st)
  ELSE IF ClashWith(st.O, op.o, Rng(Kids(st, op.x))) THEN Skip(st)
  ELSE Done([st EXCEPT !.O[op.o].p = op.x])
SubAppend(st, op) ==
  IF st.O[op.x].k # "I" \/ DnClass(op.h, st.O[op.o].c) # st.O[op.x].c THEN Refuse(st)
  ELSE IF ClashWith(st.O, op.x, Rng(Kids(st, op.o))) THEN Skip(st)
  ELSE Done([st EXCEPT !.O[op.x].p = op.o])
SetSubs(st, op) ==
  IF \E i \in Rng(op.xs) : st.O[i].k # "I" \/ DnClass(op.h, st.O[op.o].c) # st.O[i].c THEN Refuse(st)
  ELSE IF Clash(st.O, Rng(op.xs)) THEN Skip(st)
  ELSE IF \E i, j \in Rng(op.xs) \cup Rng(Kids(st, op.o)) : i # j /\ Tuple(st.O, i) = Tuple(st.O, j) THEN Skip(st)
  ELSE Done([st EXCEPT !.O = [i \in 1..Len(@) |-> IF i \in Rng(op.xs) THEN [@[i] EXCEPT !.p = op.o]
                                                  ELSE IF @[i].p = op.o THEN [@[i] EXCEPT !.p = 0] ELSE @[i]]])
Detach(st, op) == Done([st EXCEPT !.O[op.o].p = 0])
Plus(st, op) ==
  IF st.O[op.x].k # "I" THEN Refuse(st)
  ELSE IF st.O[op.o].p # 0 \/ Loc(st, op.o)[1] # 0 THEN Skip(st)   \* o itself is still what its superset contains
  ELSE IF DnClass(op.h, st.O[op.o].c) = st.O[op.x].c THEN SubAppend(st, op)
  ELSE IF UpClass(op.h, st.O[op.o].c) = st.O[op.x].c
  THEN IF st.O[op.o].p = op.x THEN Skip(st) ELSE SetSuper(st, op)
  ELSE Refuse(st)
Recast(st, op) == Done([st EXCEPT !.O = Append(@, [st.O[op.o] EXCEPT !.c = op.c, !.p = 0])])
Validate(st, op) == LET ks == Kids(st, op.o)
  IN Query(st, <<IF ks = <<>> \/ Tiles(st.O, ks, st.O[op.o].s, st.O[op.o].e) THEN 1 ELSE 0>>)
ContainsQ(st, op) == LET ks == Kids(st, op.o)
                        same == \E j \in Rng(ks) : Tuple(st.O, j) = Tuple(st.O, op.x)
  IN Query(st, <<IF same THEN 1 ELSE 0, IndexIn(ks, op.x) - 1>>)

(*************************** queries ***************************************)
\* 2 * time, so that half ticks can be asked for
T2(op) == 2 * op.t + (IF Opt(op, "h", 0) = 1 THEN 1 ELSE 0)
AtTime(O, q, t2) ==
  LET S == {n \in 1..Len(q) : 2 * O[q[n]].s <= t2 /\ t2 < 2 * O[q[n]].e} IN IF S = {} THEN -1 ELSE Min(S) - 1
Abs(x) == IF x < 0 THEN -x ELSE x
NearestSet(O, q, t2) == {n \in 1..Len(q) : \A m \in 1..Len(q) : Abs(2 * O[q[n]].s - t2) <= Abs(2 * O[q[m]].s - t2)}
Nearest(O, q, t2) == Min(NearestSet(O, q, t2)) - 1
AtGroup(O, g, t2) == [t \in 1..Len(g.ts) |-> IF g.k = "P" THEN Nearest(O, g.ts[t].q, t2) ELSE AtTime(O, g.ts[t].q, t2)]
AtOk(O, g, t2, want, got) == IF g.k = "I" THEN want = got
   ELSE Len(got) = Len(want) /\ \A t \in 1..Len(got) : (got[t] + 1) \in NearestSet(O, g.ts[t].q, t2)
EmptyPoints(g) == g.k = "P" /\ \E t \in 1..Len(g.ts) : g.ts[t].q = <<>>
At(st, op) ==
  CASE op.k = "grid" -> IF \E g \in 1..Len(st.R[op.a[1]].gs) : EmptyPoints(st.R[op.a[1]].gs[g]) THEN Skip(st)
                        ELSE Query(st, [g \in 1..Len(st.R[op.a[1]].gs) |-> AtGroup(st.O, st.R[op.a[1]].gs[g], T2(op))])
    [] op.k = "group" -> IF EmptyPoints(GroupAt(st, op.a)) THEN Skip(st) ELSE Query(st, AtGroup(st.O, GroupAt(st, op.a), T2(op)))
    [] OTHER -> Query(st, <<AtTime(st.O, TierAt(st, op.a).q, T2(op))>>)
Index(st, op) ==
  IF op.k = "grid"
  THEN LET gs == st.R[op.a[1]].gs IN
       IF gs = <<>> \/ Len(op.ix) # Len(gs) \/ \E g \in 1..Len(gs) : op.ix[g] >= Len(gs[g].ts) THEN Refuse(st)
       ELSE Query(st, [g \in 1..Len(gs) |-> <<op.a[1], g, op.ix[g] + 1>>])
  ELSE LET g == GroupAt(st, op.a) IN
       IF Len(op.ix) # Len(g.ts) \/ \E t \in 1..Len(g.ts) : op.ix[t] >= Len(g.ts[t].q) THEN Refuse(st)
       ELSE Query(st, [t \in 1..Len(g.ts) |-> g.ts[t].q[op.ix[t] + 1]])
NearestQ(st, op) ==
  IF op.k = "tier"
  THEN LET q == TierAt(st, op.a).q IN IF q = <<>> THEN Skip(st) ELSE
       LET n == Nearest(st.O, q, T2(op)) IN Query(st, <<n, q[n+1]>>)
  ELSE IF EmptyPoints(GroupAt(st, op.a)) THEN Skip(st) ELSE Query(st, AtGroup(st.O, GroupAt(st, op.a), T2(op)))
None == -999999
PDist(st, op) ==
  LET nb == Neighbours(st, op.o)
      pv == PrevOf(nb, op.o) fo == FolOf(nb, op.o)
      t(i) == st.O[i].s
  IN Query(st, <<IF pv = 0 THEN None ELSE t(pv) - t(op.o), IF fo = 0 THEN None ELSE t(fo) - t(op.o)>>
               \o (IF st.O[op.x].k = "P" THEN <<t(op.o) - t(op.x)>> ELSE <<t(op.o) - t(op.x), t(op.o) - st.O[op.x].e>>))
PAt(st, op) ==
  LET q == TierAt(st, op.a).q n == AtTime(st.O, q, 2 * st.O[op.o].s)
  IN Query(st, <<n, IF n < 0 THEN -1 ELSE q[n+1]>>)

(*************************** output ****************************************)
Rows(O, q) == [i \in 1..Len(q) |-> <<O[q[i]].s, O[q[i]].e, O[q[i]].l>>]
\* tier names in a returned TextGrid are unique
TgTiers(st, r) == Flat([g \in 1..Len(st.R[r].gs) |-> [t \in 1..Len(st.R[r].gs[g].ts) |->
                     [n |-> st.R[r].gs[g].ts[t].n, k |-> st.R[r].gs[g].k, e |-> Rows(st.O, st.R[r].gs[g].ts[t].q)]]])
AllTimes(st, r) == UNION {GroupTimes(st.O, st.R[r].gs[g]) : g \in 1..Len(st.R[r].gs)}
\* a tier as praatio saves it: gaps and edges filled with blank intervals
SavedEnts(O, q, k, lo, hi) ==
  IF k = "P" THEN Rows(O, q)
  ELSE IF q = <<>> THEN <<<<lo, hi, "">>>>
  ELSE LET RECURSIVE Go(_)
           Go(i) == <<<<O[q[i]].s, O[q[i]].e, O[q[i]].l>>>>
                    \o (IF i = Len(q) THEN (IF O[q[i]].e < hi THEN <<<<O[q[i]].e, hi, "">>>> ELSE <<>>)
                        ELSE (IF O[q[i]].e < O[q[i+1]].s THEN <<<<O[q[i]].e, O[q[i+1]].s, "">>>> ELSE <<>>) \o Go(i+1))
       IN (IF lo < O[q[1]].s THEN <<<<lo, O[q[1]].s, "">>>> ELSE <<>>) \o Go(1)
\* labels keep their surrounding white space neither in praat files nor in praatio
Bare(l) == l = "" \/ (SubSeq(l, 1, 1) # " " /\ SubSeq(l, Len(l), Len(l)) # " ")
BareQ(O, q) == \A i \in Rng(q) : Bare(O[i].l)
SaveLoad(st, op) ==
  LET r == op.a[1]
      gs == st.R[r].gs
      T == AllTimes(st, r)
      lo == Min(T) hi == Max(T)
      names == Flat([g \in 1..Len(gs) |-> [t \in 1..Len(gs[g].ts) |-> gs[g].ts[t].n]])
      uniq == Cardinality(Rng(names)) = Len(names)
      tiers == Flat([g \in 1..Len(gs) |-> [t \in 1..Len(gs[g].ts) |->
                 [n |-> IF uniq THEN gs[g].ts[t].n ELSE "?", k |-> gs[g].k, ents |-> SavedEnts(st.O, gs[g].ts[t].q, gs[g].k, lo, hi)]]])
      s1 == IF Opt(op, "drop", FALSE) THEN [st EXCEPT !.R = TakeRoots(@, {r})] ELSE st
      x == ReadGrid(s1, tiers, Assign(Len(tiers), op.ec, TRUE, op.ch), op.ch)
  IN IF T = {} \/ lo + op.off < 0 THEN Skip(st)
     ELSE IF \E g \in 1..Len(gs) : \E t \in 1..Len(gs[g].ts) : ~BareQ(st.O, gs[g].ts[t].q) THEN Skip(st)
     ELSE IF \E g \in 1..Len(gs) : gs[g].k = "I" /\ ~Complete(st, <<r, g>>) THEN Skip(st)
     ELSE IF \E g \in 1..Len(gs) : gs[g].k = "P" /\ \E t \in 1..Len(gs[g].ts) : gs[g].ts[t].q = <<>> \/ Clash(st.O, Rng(gs[g].ts[t].q)) THEN Skip(st)
     ELSE x
RetTg(st, op) ==
  LET T == AllTimes(st, op.a[1])
  IN IF T = {} \/ \E a \in Tiers(st) : a[1] = op.a[1] /\ ~BareQ(st.O, TierAt(st, a).q) THEN Skip(st) ELSE Query(st, TgTiers(st, op.a[1]))
\* the copy has the structure of the original; with op.drop only the copy is kept
Pickle(st, op) ==
  LET r == op.a[1]
      mine == SetToSortSeq(Below(st, UNION {GroupIds(st.R[r].gs[g]) : g \in 1..Len(st.R[r].gs)}), <)
      new(i) == IF i \in Rng(mine) THEN Len(st.O) + IndexIn(mine, i) ELSE 0
      copies == TLCEval([n \in 1..Len(mine) |-> [st.O[mine[n]] EXCEPT !.p = new(@)]])
      root == [st.R[r] EXCEPT !.gs = [g \in 1..Len(@) |-> [@[g] EXCEPT !.ts = [t \in 1..Len(@) |->
                [@[t] EXCEPT !.q = [i \in 1..Len(@) |-> new(@[i])]]]]]]
  IN Done([O |-> st.O \o copies, R |-> Append(IF Opt(op, "drop", FALSE) THEN TakeRoots(st.R, {r}) ELSE st.R, root)])

(*************************** data frames ***********************************)
\* a row is a function from column names to strings; what is not there has no value
Row(O, st, i, pre) ==
  LET a == Loc(st, i)
      base == (pre \o "id" :> JoinInts(PathOf(st, i))) @@ (pre \o "label" :> O[i].l) @@ (pre \o "start" :> ToString(O[i].s))
      b2 == IF O[i].k = "P" THEN base ELSE base @@ (pre \o "end" :> ToString(O[i].e))
  IN IF a[1] = 0 THEN b2 ELSE b2 @@ (pre \o "tier_index" :> ToString(IndexIn(TierAt(st, a).q, i) - 1))
RECURSIVE RowsSub(_, _)
RowsSub(st, i) ==
  IF st.O[i].k = "P" THEN <<Row(st.O, st, i, "") @@ ("entry_class" :> st.O[i].c)>>
  ELSE LET me == Row(st.O, st, i, st.O[i].c \o "_")
           ks == Kids(st, i)
       IN IF ks = <<>> THEN <<me>>
          ELSE Flat([k \in 1..Len(ks) |-> LET r == RowsSub(st, ks[k]) IN [n \in 1..Len(r) |-> me @@ r[n]]])
RowsFlat(st, i) == <<Row(st.O, st, i, "") @@ ("entry_class" :> st.O[i].c)>>
DfTier(st, q, sub) == Flat([n \in 1..Len(q) |-> IF sub THEN RowsSub(st, q[n]) ELSE RowsFlat(st, q[n])])
DfGroup(st, g, sub) ==
  LET rows == IF sub /\ g.k = "I" THEN DfTier(st, g.ts[1].q, sub)
              ELSE Flat([t \in 1..Len(g.ts) |-> DfTier(st, g.ts[t].q, sub)])
  IN IF g.n = "None" THEN rows ELSE [n \in 1..Len(rows) |-> rows[n] @@ ("name" :> g.n)]
NoEmpty(g) == g.ts # <<>> /\ \A t \in 1..Len(g.ts) : g.ts[t].q # <<>>
Df(st, op) ==
  CASE op.k = "obj"   -> Query(st, IF op.sub THEN RowsSub(st, op.o) ELSE RowsFlat(st, op.o))
    [] op.k = "tier"  -> IF TierAt(st, op.a).q = <<>> THEN Skip(st) ELSE Query(st, DfTier(st, TierAt(st, op.a).q, op.sub))
    [] op.k = "group" -> IF ~NoEmpty(GroupAt(st, op.a)) THEN Skip(st) ELSE Query(st, DfGroup(st, GroupAt(st, op.a), op.sub))
    [] OTHER -> LET gs == st.R[op.a[1]].gs IN
                IF gs = <<>> \/ \E g \in 1..Len(gs) : ~NoEmpty(gs[g]) THEN Skip(st)
                ELSE Query(st, Flat([g \in 1..Len(gs) |-> DfGroup(st, gs[g], op.sub)]))

\* a single tier saved to a file of its own
TierSave(st, op) ==
  LET t == TierAt(st, op.a) k == GroupAt(st, op.a).k T == TimesOf(st.O, t.q)
  IN IF t.q = <<>> \/ Min(T) + op.off < 0 \/ ~BareQ(st.O, t.q) THEN Skip(st)
     ELSE Query(st, <<[n |-> t.n, k |-> k, e |-> SavedEnts(st.O, t.q, k, Min(T), Max(T))]>>)
\* the class of a name: how many there are, and the tiers that have it
ClsByName(st, op) ==
  LET gs == st.R[op.a[1]].gs
      at == Flat([g \in 1..Len(gs) |-> LET S == SelectSeq([t \in 1..Len(gs[g].ts) |-> t], LAMBDA t : gs[g].ts[t].c = op.n)
                                       IN [n \in 1..Len(S) |-> <<g, S[n]>>]])
  IN Query(st, <<IF at = <<>> THEN 0 ELSE 1>> \o at)
\* all times of a tier at once
SetTimes(st, op) ==
  LET q == TierAt(st, op.a).q
      set(o, t) == CASE op.w = "starts" -> [o EXCEPT !.s = t] [] op.w = "ends" -> [o EXCEPT !.e = t] [] OTHER -> [o EXCEPT !.s = t, !.e = t]
      O1 == TLCEval([i \in 1..Len(st.O) |-> IF i \in Rng(q) THEN set(st.O[i], op.ts[IndexIn(q, i)]) ELSE st.O[i]])
  IN IF Len(op.ts) # Len(q) THEN Refuse(st)
     ELSE IF \E m \in 1..Len(q) : O1[q[m]].k = "I" /\ O1[q[m]].s >= O1[q[m]].e THEN Skip(st)
     ELSE IF \E m \in 1..(Len(q)-1) : O1[q[m]].s > O1[q[m+1]].s \/ O1[q[m]].e > O1[q[m+1]].s THEN Skip(st)
     ELSE Done([st EXCEPT !.O = O1])
\* what points do not do is answered and changes nothing
PNoop(st, op) == IF op.w = "append" THEN Done(st) ELSE Query(st, <<IF op.w = "in" THEN 0 ELSE 1>>)

\* is the recorded value got what is required?
ValOk(st, op, want, got) ==
  CASE op.op = "rettg" ->
        LET ns == TLCEval([n \in 1..Len(want) |-> want[n].n])
        IN /\ Len(got) = Len(want)
           /\ \A n \in 1..Len(want) : got[n].k = want[n].k /\ got[n].e = want[n].e
           /\ Cardinality({got[n].n : n \in 1..Len(got)}) = Len(got)
           /\ \A n \in 1..Len(want) : (\A m \in 1..Len(want) : m # n => ns[m] # ns[n]) => (got[n].n = ns[n] \/ Cardinality(Rng(ns)) # Len(ns))
    [] op.op = "nearest" ->
        IF op.k = "tier"
        THEN LET q == TierAt(st, op.a).q IN (got[1] + 1) \in NearestSet(st.O, q, T2(op)) /\ got[2] = q[got[1] + 1]
        ELSE Len(got) = Len(want) /\ \A t \in 1..Len(got) : (got[t] + 1) \in NearestSet(st.O, GroupAt(st, op.a).ts[t].q, T2(op))
    [] op.op = "at" /\ op.k = "grid" ->
        LET gs == st.R[op.a[1]].gs IN
        Len(got) = Len(want) /\ \A g \in 1..Len(got) : AtOk(st.O, gs[g], T2(op), want[g], got[g])
    [] op.op = "at" /\ op.k = "group" -> AtOk(st.O, GroupAt(st, op.a), T2(op), want, got)
    [] OTHER -> want = got

(*************************** the whole interface ***************************)
Step(st, op) ==
  CASE op.op = "init"       -> Done(st)
    [] op.op = "mkobj"      -> MkObj(st, op)
    [] op.op = "mktier"     -> MkTier(st, op)
    [] op.op = "mkgroup"    -> MkGroup(st, op)
    [] op.op = "mkempty"    -> MkEmpty(st, op)
    [] op.op = "mkgrid"     -> MkGrid(st, op)
    [] op.op = "rappend"    -> RAppend(st, op)
    [] op.op = "read"       -> Read(st, op)
    [] op.op = "rerelate"   -> ReRelate(st, op)
    [] op.op = "cleanup"    -> Cleanup(st, op)
    [] op.op = "fuse"       -> Fuse(st, op)
    [] op.op = "tappend"    -> TAppend(st, op)
    [] op.op = "oappend"    -> OAppend(st, op)
    [] op.op = "gappend"    -> GAppend(st, op)
    [] op.op = "shift"      -> Shift(st, op)
    [] op.op = "concat"     -> Concat(st, op)
    [] op.op = "add"        -> Add(st, op)
    [] op.op = "interleave" -> InterleaveOp(st, op)
    [] op.op = "popclass"   -> PopClass(st, op)
    [] op.op = "tpop"       -> TPop(st, op)
    [] op.op = "relabel"    -> Relabel(st, op)
    [] op.op = "retime"     -> Retime(st, op)
    [] op.op = "setname"    -> SetName(st, op)
    [] op.op = "rename_tier" -> RenameTier(st, op)
    [] op.op = "setsuper"   -> SetSuper(st, op)
    [] op.op = "subappend"  -> SubAppend(st, op)
    [] op.op = "setsubs"    -> SetSubs(st, op)
    [] op.op = "detach"     -> Detach(st, op)
    [] op.op = "plus"       -> Plus(st, op)
    [] op.op = "recast"     -> Recast(st, op)
    [] op.op = "validate"   -> Validate(st, op)
    [] op.op = "contains"   -> ContainsQ(st, op)
    [] op.op = "at"         -> At(st, op)
    [] op.op = "index"      -> Index(st, op)
    [] op.op = "nearest"    -> NearestQ(st, op)
    [] op.op = "pdist"      -> PDist(st, op)
    [] op.op = "pat"        -> PAt(st, op)
    [] op.op = "saveload"   -> SaveLoad(st, op)
    [] op.op = "rettg"      -> RetTg(st, op)
    [] op.op = "tiersave"   -> TierSave(st, op)
    [] op.op = "df"         -> Df(st, op)
    [] op.op = "clsbyname"  -> ClsByName(st, op)
    [] op.op = "pickle"     -> Pickle(st, op)
    [] op.op = "settimes"   -> SetTimes(st, op)
    [] op.op = "wrong"      -> Refuse(st)
    [] op.op = "pnoop"      -> PNoop(st, op)
    [] op.op = "resume"     -> [Skip(st) EXCEPT !.inv = TRUE]
    [] OTHER                -> Skip(st)

\* intervals of one tier that overlap: what these do is not specified
DisjointOps == {"mkgroup", "mkgrid", "rappend", "rerelate", "cleanup", "gappend", "interleave", "popclass", "at", "pat", "tappend"}
Overlapping(st) == \E a \in Tiers(st) : GroupAt(st, a).k = "I" /\ ~Disjoint(st.O, TierAt(st, a).q)
Exp(st, op) ==
  LET x == IF op.op \in DisjointOps /\ Overlapping(st) THEN Skip(st) ELSE Step(st, op)
  IN IF x.ok /\ ~x.skip /\ x.st # st /\ op.op \notin {"mkobj", "recast"} THEN [x EXCEPT !.st = Canon(Bury(st, x.st), Len(st.O))] ELSE x
===========================================================================
