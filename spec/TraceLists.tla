---------------------------- MODULE TraceLists ----------------------------
(* Judges executions of SequenceList, see Lists.                           *)
EXTENDS Lists, Json, IOUtils
Traces == JsonDeserialize(IOEnv.ATG_TRACES)
VARIABLES t, i
vars == <<t, i>>
Line(n, k) == Traces[n][k]
Vals(O, q) == [n \in 1..Len(q) |-> <<O[q[n]].s, O[q[n]].e, O[q[n]].l>>]
Bag(s) == [x \in Rng(s) |-> Cardinality({n \in 1..Len(s) : s[n] = x})]
\* entries with equal starts may be in any order; of equal entries either one may go
SameList(O, x, y) ==
  /\ x.q = y.q \/ (Sorted(O, y.q) /\ Bag(Vals(O, x.q)) = Bag(Vals(O, y.q)) /\ Cardinality(Rng(y.q)) = Len(y.q))
  /\ x.c = y.c
Known(st) == \A n \in 1..Len(st.L) : \A m \in 1..Len(st.L[n].q) : st.L[n].q[m] \in 1..Len(st.O)
\* what the lists report
Views(L) ==
  LET ok(n) == LET q == L.st.L[n].q v == L.V[n] IN
        /\ v.len = Len(q)
        /\ v.starts = [m \in 1..Len(q) |-> L.st.O[q[m]].s]
        /\ v.ends = [m \in 1..Len(q) |-> L.st.O[q[m]].e]
        /\ v.labels = [m \in 1..Len(q) |-> L.st.O[q[m]].l]
        /\ v.has = [x \in 1..Len(L.st.O) |-> In(L.st, x, q)]
  IN {n \in 1..Len(L.st.L) : ~ok(n)}
F(b, cl, d) == IF b THEN {} ELSE {<<cl, d>>}
\* lists that share entries which another one moved or gave another class are out of scope
AllSorted(s) == \A n \in 1..Len(s.L) : /\ Sorted(s.O, s.L[n].q)
                                        /\ \A m \in 1..Len(s.L[n].q) : s.O[s.L[n].q[m]].c = s.L[n].c
Expect(L0, L) == IF AllSorted(L0.st) THEN Apply(L0.st, L.op) ELSE Skip(L0.st)
Judge(L0, L) ==
  IF L.ret \in {"timeout", "unobservable"} THEN {<<L.ret, "">>}
  ELSE IF ~Known(L.st) THEN {<<"foreign-entry", "">>}
  ELSE LET x == TLCEval(Expect(L0, L))
       IN F(Views(L) = {}, "view", ToString(Views(L)))
          \cup (IF x.skip THEN {}
                ELSE IF ~x.ok THEN F(L.ret # "ok", "accepted", "") \cup F(L.st = L0.st, "refused-but-changed", "")
                ELSE IF L.ret # "ok" THEN {<<"raised", L.ret>>}
                ELSE F(Len(x.st.L) = Len(L.st.L) /\ \A n \in 1..Len(x.st.L) : SameList(L.st.O, x.st.L[n], L.st.L[n]), "list",
                       ToString(<<x.st.L, L.st.L>>))
                     \cup F(x.st.O = L.st.O, "entries", ToString(<<x.st.O, L.st.O>>))
                     \cup F(x.val = L.val, "value", ToString(<<x.val, L.val>>)))
Say(n, k, S) == \A x \in S : PrintT(<<"VIOL", "C26", x[1], n, k, x[2]>>)
Init == t \in 1..Len(Traces) /\ i = 1
Next == /\ i < Len(Traces[t])
        /\ t' = t
        /\ LET b == TLCEval(Judge(Line(t, i), Line(t, i + 1)))
               open == Known(Line(t, i + 1).st) /\ Expect(Line(t, i), Line(t, i + 1)).skip
           IN /\ Say(t, i + 1, b)
              /\ (open => PrintT(<<"OPEN", t, i + 1>>))
              \* after something went wrong, or an error that is not prescribed, the rest is not judged
              /\ i' = IF b # {} \/ (open /\ Line(t, i + 1).ret # "ok") THEN Len(Traces[t]) ELSE i + 1
Spec == Init /\ [][Next]_vars
===========================================================================
