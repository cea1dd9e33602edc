---------------------------- MODULE MC_Classes ----------------------------
(* All short histories: class lists of up to MC_N names in every order,    *)
(* with every choice of points, then clones and hierarchies of any class.  *)
EXTENDS Classes, Json, IOUtils
N == atoi(IOEnv.MC_N)
VARIABLES K, pre, hist, where
vars == <<K, pre, hist, where>>
Base == <<"Ax", "Bx", "Cx", "Dx">>
Lists_ == {SubSeq(Base, 1, n) : n \in 0..N}
Arr(S) == UNION {{q \in [1..n -> S] : \A a, b \in 1..n : a # b => q[a] # q[b]} : n \in 1..Cardinality(S)}
Points(n) == {SetToSeq(S) : S \in SUBSET (0..(n-1))}
Customs == UNION {UNION {{[op |-> "custom", names |-> l, by |-> "none", order |-> <<>>, points |-> p]}
             \cup {[op |-> "custom", names |-> l, by |-> "int", order |-> q, points |-> p] : q \in Arr(0..(Len(l)-1))}
             \cup {[op |-> "custom", names |-> l, by |-> "str", order |-> q, points |-> p] : q \in Arr(Rng(l))}
             \cup (IF Len(l) = 2 THEN {[op |-> "custom", names |-> l, by |-> "str", order |-> <<"Zx">>, points |-> p],
                                       [op |-> "custom", names |-> l, by |-> "int", order |-> <<0, 2>>, points |-> p]} ELSE {})
             : p \in Points(Len(l))} : l \in Lists_}
\* a class is referred to by the operation that made it and its name
Made_ == {c \in 1..Len(K) : TRUE}
Ref(c) == <<where[c], K[c].n>>
Follow == {[op |-> "hier", r |-> Ref(c)] : c \in {x \in Made_ : K[x].k = "I"}}
          \cup {[op |-> "clone", r |-> Ref(c)] : c \in Made_}
          \cup {[op |-> o, r |-> Ref(c), r2 |-> Ref(d)] : o \in {"setsuper", "setsub"}, c \in {x \in Made_ : K[x].k = "I"}, d \in Made_}
Some == {[op |-> "custom", names |-> <<"Ax", "Bx">>, by |-> "none", order |-> <<>>, points |-> <<>>],
         [op |-> "custom", names |-> <<"Ex", "Px", "Fx">>, by |-> "int", order |-> <<2, 1, 0>>, points |-> <<1>>]}
Menu(k) == CASE k = 1 -> Customs [] k = 2 -> Some \cup Follow [] k = 3 -> Follow [] OTHER -> {}
Id(r) == CHOOSE c \in 1..Len(K) : where[c] = r[1] /\ K[c].n = r[2]
Step(o) ==
  CASE o.op = "custom" -> IF 0 \in Rng(Order(o)) THEN K ELSE Made(K, o)
    [] o.op = "clone" -> LET c == Id(o.r) IN IF K[c].k = "I" /\ K[c].up # 0 THEN K ELSE Cloned(K, c)
    [] o.op \in {"setsuper", "setsub"} ->
         LET c == Id(o.r) d == Id(o.r2)
             up == IF o.op = "setsuper" THEN d ELSE c dn == IF o.op = "setsuper" THEN c ELSE d
         IN IF c = d \/ K[d].k = "P" THEN K ELSE [K EXCEPT ![up].dn = dn, ![dn].up = up]
    [] OTHER -> K
Laws == /\ (\A n \in 1..Len(hist) : hist[n].op \notin {"setsuper", "setsub"}) =>
             \A c \in 1..Len(K) : K[c].k = "I" => Mutual(K, c) /\ \E j \in 1..Len(Chain(K, c)) : Chain(K, c)[j] = c
        /\ hist # <<>> /\ hist[Len(hist)].op \notin {"setsuper", "setsub"} => \A c \in 1..Len(pre) : K[c] = pre[c]
Init == K = <<>> /\ pre = <<>> /\ hist = <<>> /\ where = <<>>
Next == \E o \in Menu(Len(hist) + 1) :
          /\ IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op \notin {"setsuper", "setsub"}
          /\ pre' = K /\ K' = Step(o) /\ hist' = Append(hist, o)
          /\ where' = [c \in 1..Len(K') |-> IF c <= Len(K) THEN where[c] ELSE Len(hist')]
          /\ PrintT("HIST " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
===========================================================================
