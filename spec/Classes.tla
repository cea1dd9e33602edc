----------------------------- MODULE Classes -----------------------------
(***************************************************************************)
(* custom_classes(), clone_class(), get_class_hierarchy() and the setting  *)
(* of superset and subset classes.                                         *)
(*  K = sequence of classes [n |-> name, k |-> "I" | "P",                  *)
(*        up, dn |-> superset and subset class (0: top or bottom),         *)
(*        sub |-> the set of classes it is a subclass of, as a sequence]   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE UpPath(_, _, _), DnPath(_, _, _)
UpPath(K, c, n) == IF c = 0 \/ n > 40 THEN <<>> ELSE Append(UpPath(K, K[c].up, n + 1), c)
DnPath(K, c, n) == IF c = 0 \/ n > 40 THEN <<>> ELSE <<c>> \o DnPath(K, K[c].dn, n + 1)
\* the hierarchy of interval class c, top first
Chain(K, c) == UpPath(K, K[c].up, 0) \o DnPath(K, c, 0)
Mutual(K, c) == /\ K[c].up # 0 => K[K[c].up].dn = c
                /\ K[c].dn # 0 => K[K[c].dn].up = c
Names(K, q) == [i \in 1..Len(q) |-> K[q[i]].n]
\* the places in names (from 1) in the order asked for; 0 where there is none
Order(op) == CASE op.by = "none" -> [i \in 1..Len(op.names) |-> i]
               [] op.by = "int"  -> [i \in 1..Len(op.order) |-> IF op.order[i] < Len(op.names) THEN op.order[i] + 1 ELSE 0]
               [] op.by = "str"  -> [i \in 1..Len(op.order) |->
                                      LET S == {j \in 1..Len(op.names) : op.names[j] = op.order[i]} IN IF S = {} THEN 0 ELSE Min(S)]
IvNames(op) == SelectSeq(op.names, LAMBDA x : \E i \in 1..Len(op.names) : op.names[i] = x /\ i - 1 \notin Rng(op.points))

(******************* the model: what the classes become ********************)
\* new classes are numbered in the order of their names
Made(K, op) ==
  LET n == Len(op.names)
      iv == {i \in 1..n : i - 1 \notin Rng(op.points)}
      above(i) == {j \in iv : j < i}
      below(i) == {j \in iv : j > i}
  IN K \o [i \in 1..n |->
        IF i \notin iv THEN [n |-> op.names[i], k |-> "P", up |-> 0, dn |-> 0, sub |-> <<>>]
        ELSE [n |-> op.names[i], k |-> "I", up |-> IF above(i) = {} THEN 0 ELSE Len(K) + Max(above(i)),
              dn |-> IF below(i) = {} THEN 0 ELSE Len(K) + Min(below(i)), sub |-> <<>>]]
Cloned(K, c) ==
  LET q == Chain(K, c) IN
  IF K[c].k = "P" THEN Append(K, [K[c] EXCEPT !.sub = Append(@, c)])
  ELSE K \o [i \in 1..Len(q) |-> [n |-> K[q[i]].n, k |-> "I", up |-> IF i = 1 THEN 0 ELSE Len(K) + i - 1,
                                  dn |-> IF i = Len(q) THEN 0 ELSE Len(K) + i + 1, sub |-> Append(K[q[i]].sub, q[i])]]
===========================================================================
