--------------------------- MODULE TraceClasses ---------------------------
(* Judges executions, see Classes.  The number a class has in a recording  *)
(* only tells classes apart; what is required is stated on the hierarchy.  *)
EXTENDS Classes, Json, IOUtils
Traces == JsonDeserialize(IOEnv.ATG_TRACES)
VARIABLES t, i
vars == <<t, i>>
Line(n, k) == Traces[n][k]
F(b, cl, d) == IF b THEN {} ELSE {<<cl, d>>}
Old(K0, K, S) == \A c \in 1..Len(K0) : c \in S \/ (c <= Len(K) /\ K[c] = K0[c])
Judge(L0, L) ==
  LET K0 == L0.K K == L.K op == L.op v == L.val
      new == (Len(K0) + 1)..Len(K)
      ok == L.ret = "ok"
  IN CASE op.op = "custom" ->
            LET o == Order(op)
                iv == IvNames(op)
            IN IF \E j \in 1..Len(o) : o[j] = 0
               THEN F(~ok, "accepted", "") \cup F(Old(K0, K, {}), "refused-but-changed", "")
               ELSE IF ~ok THEN {<<"raised", L.ret>>}
               ELSE F(Old(K0, K, {}), "other-classes", "")
                    \cup F(Len(v) = Len(o) /\ \A j \in 1..Len(v) : v[j] \in new, "returned", ToString(v))
                    \cup (IF Len(v) # Len(o) \/ \E j \in 1..Len(v) : v[j] \notin new THEN {} ELSE
                       F(\A j \in 1..Len(v) : K[v[j]].n = op.names[o[j]], "names", ToString(Names(K, v)))
                       \cup F(Cardinality(Rng(v)) = Cardinality(Rng(o)), "not-distinct", "")
                       \cup F(\A j \in 1..Len(v) : K[v[j]].k = (IF o[j] - 1 \in Rng(op.points) THEN "P" ELSE "I"), "kind", "")
                       \cup F(\A c \in new : K[c].k = "I" => Mutual(K, c) /\ Names(K, Chain(K, c)) = iv /\ K[c].n \in Rng(iv), "hierarchy",
                              ToString([c \in new |-> IF K[c].k = "I" THEN Names(K, Chain(K, c)) ELSE <<>>])))
       [] op.op = "clone" ->
            IF K0[op.c].k = "I" /\ K0[op.c].up # 0 THEN F(~ok, "accepted", "") \cup F(Old(K0, K, {}), "refused-but-changed", "")
            ELSE IF ~ok THEN {<<"raised", L.ret>>}
            ELSE F(Old(K0, K, {}), "other-classes", "")
                 \cup F(Len(v) = 1 /\ v[1] \in new, "returned", ToString(v))
                 \cup (IF Len(v) # 1 \/ v[1] \notin new THEN {}
                       ELSE IF K0[op.c].k = "P" THEN F(K[v[1]].k = "P" /\ K[v[1]].n = K0[op.c].n /\ op.c \in Rng(K[v[1]].sub), "clone", "")
                       ELSE LET q == Chain(K0, op.c) z == Chain(K, v[1])
                            IN F(Names(K, z) = Names(K0, q) /\ Rng(z) \subseteq new /\ (\A c \in Rng(z) : Mutual(K, c) /\ K[c].k = "I")
                                 /\ (Len(q) = Len(z) => \A j \in 1..Len(q) : q[j] \in Rng(K[z[j]].sub)), "clone", ToString(Names(K, z))))
       [] op.op = "hier" ->
            IF K0[op.c].k = "P" THEN {} ELSE IF ~ok THEN {<<"raised", L.ret>>}
            ELSE F(Old(K0, K, {}) /\ Len(K) = Len(K0), "other-classes", "") \cup F(v = Chain(K0, op.c), "value", ToString(<<Chain(K0, op.c), v>>))
       [] op.op \in {"setsuper", "setsub"} ->
            LET up == IF op.op = "setsuper" THEN op.d ELSE op.c
                dn == IF op.op = "setsuper" THEN op.c ELSE op.d
            IN IF op.c = op.d \/ K0[op.d].k = "P" THEN F(~ok, "accepted", "") \cup F(Old(K0, K, {}), "refused-but-changed", "")
               ELSE IF ~ok THEN {<<"raised", L.ret>>}
               ELSE F(K[up].dn = dn /\ K[dn].up = up, "not-mutual", "")
                    \cup F(K[up].up = K0[up].up /\ K[dn].dn = K0[dn].dn, "the other ends", "")
                    \* what they were linked with before is let go or not
                    \cup F(Old(K0, K, {up, dn, K0[up].dn, K0[dn].up}), "other-classes", "")
       [] OTHER -> {}
\* once classes are displaced, hierarchies branch
Straight(K) == \A c \in 1..Len(K) : K[c].k = "P" \/ Mutual(K, c)
Say(n, k, S) == \A x \in S : PrintT(<<"VIOL", "C25", x[1], n, k, x[2]>>)
Init == t \in 1..Len(Traces) /\ i = 1
Next == /\ i < Len(Traces[t])
        /\ t' = t
        /\ LET b == TLCEval(Judge(Line(t, i), Line(t, i + 1)))
           IN /\ Say(t, i + 1, b)
              /\ i' = IF b # {} \/ ~Straight(Line(t, i + 1).K) THEN Len(Traces[t]) ELSE i + 1
Spec == Init /\ [][Next]_vars
===========================================================================
