------------------------------ MODULE Polar ------------------------------
(***************************************************************************)
(* The PoLaR classes and PolarGrid: what follows from the times and labels *)
(* of the TurningPoints, Levels, PrStr and Ranges of a TextGrid.           *)
(*  points are [t, l], ranges [s, e, l, lo, hi] (lo, hi: the numbers the   *)
(*  label names, None if it does not name two)                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
None == 999998
Rng(s) == {s[i] : i \in 1..Len(s)}
Ch(x, i) == SubSeq(x, i, i)
Has(x, c) == \E i \in 1..Len(x) : Ch(x, i) = c
Certainty(l) == IF Has(l, "?") THEN "uncertain" ELSE "certain"
Status(l) == IF Has(l, "*") THEN "prominence" ELSE IF Has(l, "]") THEN "edge" ELSE l
\* what comes after the last comma
After(l) == LET S == {i \in 1..Len(l) : Ch(l, i) = ","} IN IF S = {} THEN l ELSE SubSeq(l, Max(S) + 1, Len(l))
Override(l) == IF After(l) = "0" THEN "None" ELSE After(l)
RECURSIVE Without(_, _)
Without(l, c) == IF l = "" THEN "" ELSE (IF Ch(l, 1) = c THEN "" ELSE Ch(l, 1)) \o Without(SubSeq(l, 2, Len(l)), c)
\* the level a label names
Level(l) == LET S == {n \in 0..9 : ToString(n) = Without(l, "?")} IN IF S = {} THEN None ELSE CHOOSE n \in S : TRUE
RangeLabel(lo, hi) == ToString(lo) \o "-" \o ToString(hi)
\* six break points that divide the range in five bands
Bands(lo, hi) == IF lo = None THEN [k \in 1..6 |-> None] ELSE [k \in 1..6 |-> lo + ((hi - lo) \div 5) * (k - 1)]
\* the point of q at time t (0: there is none)
PointAt(q, t) == LET S == {i \in 1..Len(q) : q[i].t = t} IN IF S = {} THEN 0 ELSE Min(S)
\* the range interval that contains t
RangeAt(R, t) == LET S == {i \in 1..Len(R) : R[i].s <= t /\ t < R[i].e} IN IF S = {} THEN 0 ELSE Min(S)
===========================================================================
