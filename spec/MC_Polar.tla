----------------------------- MODULE MC_Polar -----------------------------
(* All placements of a few turning points, levels and ranges on MC_N ticks *)
EXTENDS Polar, Json, IOUtils
N == atoi(IOEnv.MC_N)
VARIABLES in
RECURSIVE DS(_, _)
DS(a, n) == IF a >= n THEN {<<>>}
            ELSE DS(a + 1, n) \cup UNION {{<<<<a, b>>>> \o r : r \in DS(b, n)} : b \in (a + 1)..n}
Times == {SetToSortSeq(S, <) : S \in {T \in SUBSET (0..N) : Cardinality(T) <= 3}}
LvLabels == <<"1", "3?", "5">>
TpLabels == <<"0", "0,205", "?0">>
Mk(tp, lv, rg) ==
  [tp |-> [i \in 1..Len(tp) |-> [t |-> tp[i], l |-> TpLabels[i]]],
   lv |-> [i \in 1..Len(lv) |-> [t |-> lv[i], l |-> LvLabels[i]]],
   pr |-> IF tp = <<>> THEN <<>> ELSE <<[t |-> tp[1], l |-> "*?"]>>,
   rg |-> [i \in 1..Len(rg) |-> [s |-> rg[i][1], e |-> rg[i][2], l |-> RangeLabel(100 * i, 100 * i + 50), lo |-> 100 * i, hi |-> 100 * i + 50]]]
Init == \E tp \in Times, lv \in Times, rg \in {d \in DS(0, N) : Len(d) <= 2} : in = Mk(tp, lv, rg) /\ PrintT("HIST " \o ToJson(in))
Next == FALSE /\ in' = in
\* the relation between levels and turning points is one to one and holds in both directions
Laws == /\ \A n \in 1..Len(in.lv) : LET p == PointAt(in.tp, in.lv[n].t) IN p = 0 \/ PointAt(in.lv, in.tp[p].t) = n
        /\ \A n \in 1..Len(in.tp) : LET p == PointAt(in.lv, in.tp[n].t) IN p = 0 \/ PointAt(in.tp, in.lv[p].t) = n
        /\ \A n \in 1..Len(in.rg) : LET b == Bands(in.rg[n].lo, in.rg[n].hi) IN b[1] = in.rg[n].lo /\ b[6] = in.rg[n].hi
Spec == Init /\ [][Next]_in
===========================================================================
