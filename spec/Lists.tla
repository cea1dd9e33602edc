------------------------------ MODULE Lists ------------------------------
(***************************************************************************)
(* SequenceList: a list of intervals or points that remains sorted.        *)
(*  st = [O |-> objects [c, s, e, l] by id, L |-> lists [c, q]]            *)
(* c of a list is the class it takes ("" as long as it has none).  Two     *)
(* classes fit when one is a subclass of the other; what is added becomes  *)
(* one of the list's class.  An object is in a list if one with the same   *)
(* times and label is.  The order of entries with equal starts is open.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
\* class -> the classes it is a subclass of; "B" fits only itself, P are points
Up(c) == CASE c = "A2" -> {"A2", "A"} [] c = "A3" -> {"A3", "A2", "A"} [] c = "P2" -> {"P2", "P"} [] OTHER -> {c}
Fits(c, d) == c \in Up(d) \/ d \in Up(c)
Same(x, y) == x.s = y.s /\ x.e = y.e /\ x.l = y.l
In(st, x, q) == \E i \in 1..Len(q) : Same(st.O[x], st.O[q[i]])
Sorted(O, q) == \A i \in 1..(Len(q) - 1) : O[q[i]].s <= O[q[i+1]].s
Sort(O, S) == SetToSortSeq(S, LAMBDA x, y : O[x].s < O[y].s \/ (O[x].s = O[y].s /\ x < y))
EndOf(st, q) == IF q = <<>> THEN 0 ELSE Max({st.O[q[i]].e : i \in 1..Len(q)})
LastEnd(st, q) == IF q = <<>> THEN 0 ELSE st.O[q[Len(q)]].e

Done(st, v) == [st |-> st, ok |-> TRUE, skip |-> FALSE, val |-> v]
Refuse(st) == [st |-> st, ok |-> FALSE, skip |-> FALSE, val |-> <<>>]
Skip(st) == [st |-> st, ok |-> TRUE, skip |-> TRUE, val |-> <<>>]
Cast(O, S, c) == [i \in 1..Len(O) |-> IF i \in S THEN [O[i] EXCEPT !.c = c] ELSE O[i]]
Move(O, S, by) == [i \in 1..Len(O) |-> IF i \in S THEN [O[i] EXCEPT !.s = @ + by, !.e = @ + by] ELSE O[i]]
Classes(O, S) == {O[x].c : x \in S}
IsPt(c) == c \in {"P", "P2"}

Mk(st, op) ==
  LET S == Rng(op.xs)
  IN IF Cardinality(Classes(st.O, S)) > 1 THEN Refuse(st)
     ELSE Done([st EXCEPT !.L = Append(@, [c |-> IF S = {} THEN "" ELSE CHOOSE c \in Classes(st.O, S) : TRUE,
                                           q |-> Sort(st.O, S)])], <<>>)
\* x becomes part of list n
Put(st, n, x) == [st EXCEPT !.L[n].q = Sort(st.O, Rng(@) \cup {x})]
App(st, op) ==
  LET l == st.L[op.n]
      x == op.x
      c == IF l.c = "" THEN st.O[x].c ELSE l.c
      s1 == [st EXCEPT !.O = IF op.sh THEN Move(Cast(@, {x}, c), {x}, (IF l.q = <<>> THEN 0 ELSE op.off) + LastEnd(st, l.q)) ELSE Cast(@, {x}, c),
                       !.L[op.n].c = c]
  IN IF In(st, x, l.q) THEN Done(st, <<>>)
     ELSE IF ~Fits(c, st.O[x].c) THEN Refuse(st)
     \* where the last entry ends before another one, or several lists share the entry
     ELSE IF op.sh /\ ((LastEnd(st, l.q) # EndOf(st, l.q) /\ l.q # <<>>) \/ \E n \in 1..Len(st.L) : x \in Rng(st.L[n].q)) THEN Skip(st)
     ELSE Done(Put(s1, op.n, x), <<>>)
\* the entries of xs that are not in q
New(st, q, xs) == {x \in Rng(xs) : ~In(st, x, q)}
Arg(st, op) == IF op.m # 0 THEN st.L[op.m].q ELSE op.xs
Add(st, op) ==
  LET l == st.L[op.n]
      S == New(st, l.q, Arg(st, op))
      cs == Classes(st.O, S)
      c == IF l.c = "" THEN CHOOSE d \in cs : TRUE ELSE l.c
  IN IF S = {} THEN Done([st EXCEPT !.L = Append(@, l)], <<>>)
     ELSE IF Cardinality(cs) > 1 \/ \E d \in cs : ~Fits(c, d) THEN Refuse(st)
     ELSE LET s1 == [st EXCEPT !.O = Cast(@, S \cup Rng(l.q), c)]
          IN Done([s1 EXCEPT !.L = Append(@, [c |-> c, q |-> Sort(s1.O, S \cup Rng(l.q))])], <<>>)
Concat(st, op) ==
  LET l == st.L[op.n]
      S == Rng(Arg(st, op))
      by == IF l.q = <<>> THEN 0 ELSE EndOf(st, l.q) + op.off
      cs == Classes(st.O, S)
      c == IF l.c = "" /\ S # {} THEN CHOOSE d \in cs : TRUE ELSE l.c
      s1 == [st EXCEPT !.O = Move(Cast(@, S \cup Rng(l.q), c), S, by)]
  IN IF S = {} THEN Done(st, <<>>)
     ELSE IF op.m = 0 /\ Cardinality(cs) > 1 THEN Refuse(st)
     ELSE IF \E d \in cs : ~Fits(c, d) THEN Refuse(st)
     ELSE IF Cardinality(cs) > 1 \/ S \cap Rng(l.q) # {} \/ \E x \in S : In(s1, x, l.q) THEN Skip(st)
     ELSE IF \E n \in 1..Len(st.L) : n # op.m /\ Rng(st.L[n].q) \cap S # {} THEN Skip(st)
     ELSE Done([s1 EXCEPT !.L[op.n] = [c |-> c, q |-> Sort(s1.O, Rng(l.q) \cup S)]], <<>>)
FirstSame(st, x, q) == CHOOSE i \in 1..Len(q) : Same(st.O[x], st.O[q[i]]) /\ \A j \in 1..(i-1) : ~Same(st.O[x], st.O[q[j]])
Take(st, op) ==
  LET q == st.L[op.n].q
  IN IF ~In(st, op.x, q) THEN (IF op.op = "pop" THEN Done(st, <<>>) ELSE Refuse(st))
     ELSE Done([st EXCEPT !.L[op.n].q = RemoveAt(q, FirstSame(st, op.x, q))], <<>>)
Slice(st, op) ==
  LET q == st.L[op.n].q
      lo == op.i + 1
      hi == IF op.j > Len(q) THEN Len(q) ELSE op.j
  IN Done(st, IF lo > hi THEN <<>> ELSE SubSeq(q, lo, hi))
At(st, op) ==
  LET q == st.L[op.n].q
      i == IF op.i < 0 THEN Len(q) + op.i + 1 ELSE op.i + 1
  IN IF i < 1 \/ i > Len(q) THEN Refuse(st) ELSE Done(st, <<q[i]>>)
Find(st, op) ==
  LET q == st.L[op.n].q
      S == {i \in 1..Len(q) : q[i] = op.x}
  IN IF S = {} THEN Refuse(st) ELSE Done(st, <<Min(S) - 1>>)
Apply(st, op) ==
  CASE op.op = "mk" -> Mk(st, op)
    [] op.op = "append" -> App(st, op)
    [] op.op = "add" -> Add(st, op)
    [] op.op = "concat" -> Concat(st, op)
    [] op.op \in {"remove", "pop"} -> Take(st, op)
    [] op.op = "slice" -> Slice(st, op)
    [] op.op = "at" -> At(st, op)
    [] op.op = "find" -> Find(st, op)
    [] op.op = "rev" -> Done(st, Reverse(st.L[op.n].q))
===========================================================================
