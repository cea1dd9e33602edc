----------------------------- MODULE MC_Lists -----------------------------
(* All short histories on small pools of entries; MC_N is the number of    *)
(* operations that follow the making of the first list.                    *)
EXTENDS Lists, Json, IOUtils
N == atoi(IOEnv.MC_N)
VARIABLES pre, st, hist, stop, pool
vars == <<pre, st, hist, stop, pool>>
E_(c, s, e, l) == [c |-> c, s |-> s, e |-> e, l |-> l]
Pools == {<<E_("A", 0, 1, "a"), E_("A2", 1, 2, "b"), E_("A", 2, 4, "c"), E_("A", 0, 1, "a"), E_("B", 4, 5, "d")>>,
          <<E_("A", 3, 4, "a"), E_("A", 0, 2, "b"), E_("A3", 0, 1, "a"), E_("A2", -2, -1, "c")>>,
          <<E_("A", 0, 3, "a"), E_("A", 1, 2, "b"), E_("A", 2, 5, "c"), E_("P", 1, 1, "p")>>,
          <<E_("P", 0, 0, "p"), E_("P2", 2, 2, "q"), E_("P", -1, -1, "r"), E_("P", 2, 2, "q")>>}
Ids == 1..Len(st.O)
Args == {<<>>} \cup {<<x>> : x \in Ids} \cup {z \in {<<x, y>> : x \in Ids, y \in Ids} : z[1] # z[2]}
Lists_ == 1..Len(st.L)
Ops1 == {[op |-> "append", n |-> n, x |-> x, sh |-> sh, off |-> 0] : n \in Lists_, x \in Ids, sh \in {FALSE, TRUE}}
        \cup {[op |-> o, n |-> n, m |-> 0, xs |-> a, off |-> 0] : o \in {"add", "concat"}, n \in Lists_, a \in Args}
        \cup {[op |-> o, n |-> n, m |-> m, xs |-> <<>>, off |-> 0] : o \in {"add", "concat"}, n \in Lists_, m \in Lists_}
        \cup {[op |-> o, n |-> n, x |-> x] : o \in {"remove", "pop", "find"}, n \in Lists_, x \in Ids}
        \cup {[op |-> "slice", n |-> n, i |-> 1, j |-> j] : n \in Lists_, j \in {1, 2, 9}}
        \cup {[op |-> "at", n |-> n, i |-> i] : n \in Lists_, i \in -3..2}
        \cup {[op |-> "rev", n |-> n] : n \in Lists_}
Menu(k) == CASE k = 1 -> {[op |-> "mk", xs |-> a] : a \in Args}
             [] k = 2 -> Ops1 \cup {[op |-> "mk", xs |-> a] : a \in {<<>>, <<3>>, <<2, 1>>}}
             [] k <= N + 1 -> {o \in Ops1 : hist[k-1].op \in {"mk", "append", "add", "concat", "remove", "pop"}}
             [] OTHER -> {}
\* entries are neither lost nor made up, and lists stay sorted
Op == hist[Len(hist)]
Fresh == stop # "skip" /\ hist # <<>>
Moves == Op.op \in {"concat", "append"}
Laws == Fresh =>
  /\ (\A n \in 1..Len(pre.L) : Sorted(pre.O, pre.L[n].q)) =>
        \A n \in 1..Len(st.L) : (~Moves \/ n = Op.n) => Sorted(st.O, st.L[n].q)
  /\ stop = "refused" => st = pre
  /\ Op.op = "concat" /\ stop = "" =>
       /\ Rng(st.L[Op.n].q) = Rng(pre.L[Op.n].q) \cup Rng(Arg(pre, Op))
       /\ Len(pre.L[Op.n].q) > 0 /\ (\A x \in Rng(Arg(pre, Op)) : pre.O[x].s > 0) => SubSeq(st.L[Op.n].q, 1, Len(pre.L[Op.n].q)) = pre.L[Op.n].q
       /\ \A x \in 1..Len(st.O) : st.O[x].e - st.O[x].s = pre.O[x].e - pre.O[x].s
  /\ Op.op = "add" /\ stop = "" =>
       /\ st.L[Op.n].q = pre.L[Op.n].q
       /\ \A x \in Rng(Arg(pre, Op)) \cup Rng(pre.L[Op.n].q) : In(st, x, st.L[Len(st.L)].q)
  /\ Op.op = "append" /\ stop = "" => In(st, Op.x, st.L[Op.n].q)
Init == /\ \E p \in Pools : st = [O |-> p, L |-> <<>>] /\ pre = [O |-> p, L |-> <<>>] /\ pool = p
        /\ hist = <<>> /\ stop = ""
Next == /\ stop = ""
        /\ \E o \in Menu(Len(hist) + 1) :
             LET x == Apply(st, o)
             IN /\ pre' = st /\ st' = x.st /\ hist' = Append(hist, o)
                /\ stop' = IF x.skip THEN "skip" ELSE IF ~x.ok THEN "refused" ELSE ""
                /\ PrintT("HIST " \o ToJson([pool |-> pool, ops |-> hist', leaf |-> stop' # "" \/ Len(hist') = N + 1 \/ o.op \in {"find", "slice", "at", "rev"}]))
                /\ pool' = pool
Spec == Init /\ [][Next]_vars
===========================================================================
