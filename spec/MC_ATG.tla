------------------------------ MODULE MC_ATG ------------------------------
(***************************************************************************)
(* Small-scope exploration of the specification.                           *)
(*                                                                         *)
(* A family (environment variable MC_FAM) fixes what is built and which    *)
(* operations follow; MC_N is the number of ticks.  TLC explores every     *)
(* history of the family, checks the laws below on every transition of     *)
(* the specification, and prints every history (HIST) so that it can be    *)
(* run on the real code and the execution judged by TraceATG.              *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils

Fam == IOEnv.MC_FAM
N == atoi(IOEnv.MC_N)
Emit == IOEnv.MC_EMIT = "1"

VARIABLES pre, st, hist, stop
vars == <<pre, st, hist, stop>>

(*************************** what is built *********************************)
RECURSIVE DS(_, _)
\* all sequences of disjoint intervals between a and n
DS(a, n) == IF a >= n THEN {<<>>}
            ELSE DS(a + 1, n) \cup UNION {{<<<<a, b>>>> \o r : r \in DS(b, n)} : b \in (a + 1)..n}
Ents(ds, pre_) == [i \in 1..Len(ds) |-> <<ds[i][1], ds[i][2], pre_ \o ToString(i)>>]
AB == <<"A", "B">>
ABC == <<"A", "B", "C">>
Tier(c, h, ds, lab) == [op |-> "mktier", k |-> "I", c |-> c, n |-> c, h |-> h, ents |-> Ents(ds, lab), how |-> "objs"]
PTier(c, ts, lab) == [op |-> "mktier", k |-> "P", c |-> c, n |-> c, h |-> <<>>,
                      ents |-> [i \in 1..Len(ts) |-> <<ts[i], ts[i], lab \o ToString(i)>>], how |-> "objs"]
Group(rs) == [op |-> "mkgroup", rs |-> rs]
Grid(rs) == [op |-> "mkgrid", rs |-> rs]
Node(c, s, e, l, kids) == [c |-> c, s |-> s, e |-> e, l |-> l, k |-> "I", kids |-> kids]
PNode(c, s, l) == [c |-> c, s |-> s, e |-> s, l |-> l, k |-> "P", kids |-> <<>>]
Obj(tree) == [op |-> "mkobj", tree |-> tree]
KidNodes(c, ds, lab) == [i \in 1..Len(ds) |-> Node(c, ds[i][1], ds[i][2], lab \o ToString(i), <<>>)]
\* a tier that fills [0, n]
Full(n) == {d \in DS(0, n) : d # <<>> /\ d[1][1] = 0 /\ d[Len(d)][2] = n /\ \A i \in 1..(Len(d)-1) : d[i][2] = d[i+1][1]}
\* point times, each set as an increasing sequence
PSeqs(n) == {SetToSortSeq(S, <) : S \in {T \in SUBSET (0..n) : Cardinality(T) <= 3}}

(*************************** what follows **********************************)
InT(s) == {x \in Live(s) : Loc(s, x)[1] # 0}
LiveI(s) == {x \in Live(s) : s.O[x].k = "I"}
GroupsOf(s, k) == UNION {{<<r, g>> : g \in {m \in 1..Len(s.R[r].gs) : s.R[r].gs[m].k = k}} : r \in {q \in 1..Len(s.R) : s.R[q].k \in {"group", "grid"}}}
GridsOf(s) == {r \in 1..Len(s.R) : s.R[r].k = "grid"}
TiersOf(s, k) == {a \in Tiers(s) : GroupAt(s, a).k = k}
FRelate(s) == {[op |-> "rerelate", a |-> a] : a \in GroupsOf(s, "I")}
FClean(s) == {[op |-> "cleanup", k |-> "group", a |-> a] : a \in GroupsOf(s, "I")}
             \cup {[op |-> "cleanup", k |-> "tier", a |-> a] : a \in TiersOf(s, "I")}
             \cup {[op |-> "cleanup", k |-> "grid", a |-> <<r>>] : r \in GridsOf(s)}
FCleanObj(s, h) == {[op |-> "cleanup", k |-> "obj", o |-> x, h |-> h] : x \in LiveI(s)}
FFuse(s) == {[op |-> "fuse", o |-> x, d |-> d, alias |-> 0] : x \in LiveI(s), d \in {"r", "l"}}
FShift(s) == {[op |-> "shift", k |-> "group", a |-> a, by |-> b] : a \in GroupsOf(s, "I") \cup GroupsOf(s, "P"), b \in {2, -1}}
             \cup {[op |-> "shift", k |-> "grid", a |-> <<r>>, by |-> 3] : r \in GridsOf(s)}
FAt(s) == {[op |-> "at", k |-> "group", a |-> a, t |-> u, h |-> hh] : a \in GroupsOf(s, "I"), u \in -1..(N+1), hh \in {0, 1}}
          \cup {[op |-> "at", k |-> "tier", a |-> a, t |-> u, h |-> hh] : a \in TiersOf(s, "I"), u \in -1..(N+1), hh \in {0, 1}}
          \cup {[op |-> "at", k |-> "grid", a |-> <<r>>, t |-> u, h |-> 0] : r \in GridsOf(s), u \in -1..(N+1)}
IxSeqs(lens) == IF Len(lens) = 1 THEN {<<x>> : x \in 0..lens[1]} ELSE {<<x, y>> : x \in 0..lens[1], y \in 0..lens[2]}
FIndex(s) == UNION {{[op |-> "index", k |-> "group", a |-> a, ix |-> ix] :
                     ix \in IxSeqs([t \in 1..Len(GroupAt(s, a).ts) |-> Len(GroupAt(s, a).ts[t].q)]) \cup {<<0, 0, 0>>}} : a \in GroupsOf(s, "I")}
             \cup UNION {{[op |-> "index", k |-> "grid", a |-> <<r>>, ix |-> ix] :
                     ix \in {<<x, y>> : x \in 0..2, y \in 0..2} \cup {<<0>>}} : r \in GridsOf(s)}
FDf(s) == UNION {{[op |-> "df", k |-> "group", a |-> a, sub |-> b] : a \in GroupsOf(s, "I") \cup GroupsOf(s, "P")}
                 \cup {[op |-> "df", k |-> "tier", a |-> a, sub |-> b] : a \in Tiers(s)}
                 \cup {[op |-> "df", k |-> "obj", o |-> x, sub |-> b] : x \in Live(s)}
                 \cup {[op |-> "df", k |-> "grid", a |-> <<r>>, sub |-> b] : r \in GridsOf(s)} : b \in {TRUE, FALSE}}
FValid(s) == {[op |-> "validate", o |-> x] : x \in LiveI(s)}
             \cup {[op |-> "contains", o |-> x, x |-> y] : x \in LiveI(s), y \in LiveI(s)}
FClasses(s, h) ==
  UNION {{[op |-> "interleave", a |-> <<r>>, n |-> IF \E g \in 1..Len(s.R[r].gs) : "Nw" \in Rng(s.R[r].gs[g].h) THEN "Nx" ELSE "Nw", w |-> w, ref |-> c, tf |-> tf, cl |-> cl, bycls |-> 0]
            : w \in {"above", "below"}, c \in Rng(h) \cup {"Nw"}, tf \in {"above", "below"}, cl \in {TRUE, FALSE}}
         \cup {[op |-> "popclass", a |-> <<r>>, n |-> c, bycls |-> b] : c \in Rng(h) \cup {"Nw"}, b \in {0, 1}} : r \in GridsOf(s)}
FIo(s, h) == UNION {{[op |-> "rettg", a |-> <<r>>],
                     [op |-> "saveload", a |-> <<r>>, fmt |-> "short_textgrid", off |-> 0, drop |-> FALSE, ch |-> <<h>>,
                      ec |-> [g \in 1..Len(s.R[r].gs) |-> [t \in 1..Len(s.R[r].gs[g].ts) |-> s.R[r].gs[g].ts[t].c]]]} : r \in GridsOf(s)}
             \cup {[op |-> "tiersave", a |-> a, off |-> 0] : a \in Tiers(s)}
FPick(s) == {[op |-> "pickle", a |-> <<r>>, drop |-> d] : r \in {q \in 1..Len(s.R) : s.R[q].k # "gone"}, d \in {TRUE, FALSE}}
FTApp(s) == {[op |-> "tappend", o |-> x, a |-> a, rel |-> b] : x \in Live(s) \ InT(s), a \in Tiers(s), b \in {TRUE, FALSE}}
FOApp(s, h) == {[op |-> "oappend", o |-> x, x |-> y, h |-> h] : x \in LiveI(s), y \in LiveI(s) \ InT(s)}
LooseI(s) == LiveI(s) \ InT(s)
FLoose(s, h) ==
  {[op |-> "setsuper", o |-> x, x |-> y, h |-> h] : x \in LooseI(s), y \in LooseI(s)}
  \cup {[op |-> "subappend", o |-> x, x |-> y, h |-> h] : x \in LooseI(s), y \in LooseI(s)}
  \cup {[op |-> "plus", o |-> x, x |-> y, h |-> h] : x \in LooseI(s), y \in LooseI(s)}
  \cup {[op |-> "oappend", o |-> x, x |-> y, h |-> h] : x \in LooseI(s), y \in LooseI(s)}
  \cup UNION {{[op |-> "setsubs", o |-> x, xs |-> SetToSortSeq(ys, >), how |-> how, h |-> h] :
         ys \in {T \in SUBSET {y \in LooseI(s) : s.O[y].c = DnClass(h, s.O[x].c)} : Cardinality(T) <= 2}, how \in {"prop", "set"}} : x \in LooseI(s)}
  \cup {[op |-> "detach", o |-> x, how |-> how] : x \in {y \in LooseI(s) : s.O[y].p # 0}, how \in {"super", "sub", "pop"}}
FRecast(s, cs) == {[op |-> "recast", o |-> x, c |-> s.O[x].c] : x \in Live(s)}
FPoints(s) ==
  {[op |-> "nearest", k |-> "tier", a |-> a, t |-> u, h |-> hh] : a \in TiersOf(s, "P"), u \in -1..(N+1), hh \in {0, 1}}
  \cup {[op |-> "nearest", k |-> "group", a |-> a, t |-> u, h |-> hh] : a \in GroupsOf(s, "P"), u \in -1..(N+1), hh \in {0, 1}}
  \cup {[op |-> "pdist", o |-> x, x |-> y] : x \in {z \in InT(s) : s.O[z].k = "P"}, y \in InT(s)}
  \cup {[op |-> "pat", o |-> x, a |-> a] : x \in {z \in InT(s) : s.O[z].k = "P"}, a \in TiersOf(s, "I")}
FSmall(s) == {[op |-> "relabel", o |-> x, l |-> "new"] : x \in InT(s)}
             \cup {[op |-> "setname", a |-> a, n |-> "spk"] : a \in GroupsOf(s, "I")}
             \cup {[op |-> "rename_tier", a |-> a, n |-> "tn"] : a \in Tiers(s)}
FNames(s) == {[op |-> "setname", a |-> a, n |-> nm] : a \in {x \in GroupsOf(s, "I") : s.R[x[1]].k = "grid"}, nm \in {"spk", "other"}}
             \cup {[op |-> "rename_tier", a |-> a, n |-> "KY - tn"] : a \in {x \in Tiers(s) : s.R[x[1]].k = "grid"}}
FNameOps(s) ==
  {x \in FClasses(s, AB) : x.op = "popclass" \/ (x.cl /\ x.tf = "below")}
  \cup {[op |-> "cleanup", k |-> "grid", a |-> <<r>>] : r \in GridsOf(s)}
  \cup {x \in FRelate(s) : s.R[x.a[1]].k = "grid"}
  \cup {[op |-> "shift", k |-> "grid", a |-> <<r>>, by |-> 1] : r \in GridsOf(s)}
  \cup (IF s.R[7].k = "tier" THEN {[op |-> "gappend", a |-> a, r |-> 7] : a \in {x \in GroupsOf(s, "I") : s.R[x[1]].k = "grid"}} ELSE {})
  \cup (IF s.R[9].k = "group" THEN {[op |-> "rappend", a |-> <<r>>, r |-> 9] : r \in GridsOf(s)}
          \cup {[op |-> "concat", k |-> "group", a |-> a, r |-> 9, off |-> 0] : a \in {x \in GroupsOf(s, "I") : s.R[x[1]].k = "grid"}} ELSE {})
  \cup {[op |-> "pickle", a |-> <<r>>, drop |-> TRUE] : r \in GridsOf(s)}
  \cup {[op |-> "rettg", a |-> <<r>>] : r \in GridsOf(s)}
\* operations on a grid that was copied or on its copy
On(s, x, r) == IF "a" \in DOMAIN x THEN x.a[1] = r ELSE Loc(s, x.o)[1] = r
FContinue(s) ==
  FFuse(s)
  \cup {[op |-> "cleanup", k |-> "grid", a |-> <<r>>] : r \in GridsOf(s)} \cup FRelate(s)
  \cup {[op |-> "rettg", a |-> <<r>>] : r \in GridsOf(s)} \cup {[op |-> "df", k |-> "grid", a |-> <<r>>, sub |-> TRUE] : r \in GridsOf(s)}
  \cup {[op |-> "rappend", a |-> <<r>>, r |-> g] : r \in GridsOf(s), g \in {m \in {8, 10} : s.R[m].k = "group"}}
\* up to three intervals that may overlap, with different starts
AnyKids == LET iv == {<<a, b>> : a \in 0..N, b \in 1..(N+1)} IN
  LET I == {x \in iv : x[1] < x[2]} IN
  {<<>>} \cup {<<x>> : x \in I} \cup {<<x, y>> : x \in I, y \in {z \in I : TRUE}} \cup {<<x, y, z>> : x \in I, y \in I, z \in I}
Shapes2 == {<<>>, <<<<0, 1>>>>, <<<<1, 2>>>>, <<<<0, 2>>>>, <<<<0, 1>>, <<1, 2>>>>}

(*************************** families **************************************)
\* the operations that may come as number n of a history in state s
PairBase(n, h) ==
  CASE n = 1 -> {Tier("A", h, d, "u") : d \in DS(0, N)}
    [] n = 2 -> {Tier("B", h, d, "l") : d \in DS(0, N)}
    [] n = 3 -> {Group(<<1, 2>>)}
\* an upper tier that is full, a lower tier that is nested
Menu(n, s) ==
  CASE Fam = "relate" ->
         IF n <= 3 THEN PairBase(n, AB) ELSE IF n = 4 THEN FRelate(s) \cup FClean(s) ELSE {}
    [] Fam = "relate3" ->
         CASE n = 1 -> {Tier("A", ABC, d, "u") : d \in DS(0, N)}
           [] n = 2 -> {Tier("B", ABC, d, "m") : d \in DS(0, N)}
           [] n = 3 -> {Tier("C", ABC, d, "l") : d \in DS(0, N)}
           [] n = 4 -> {Group(<<3, 1, 2>>)}
           [] n = 5 -> {x \in FClean(s) : x.k = "group"}
           [] OTHER -> {}
    [] Fam = "fuse" ->
         IF n <= 3 THEN PairBase(n, AB) ELSE IF n = 4 THEN {[op |-> "cleanup", k |-> "group", a |-> <<3, 1>>]}
         ELSE IF n <= 6 THEN FFuse(s) ELSE {}
    [] Fam = "fuseraw" ->
         IF n <= 3 THEN PairBase(n, AB) ELSE IF n = 4 THEN FFuse(s) ELSE IF n = 5 THEN FRelate(s) \cup FClean(s) ELSE {}
    [] Fam = "append" ->
         IF n <= 3 THEN PairBase(n, AB)
         ELSE IF n = 4 THEN {Obj(Node("A", x, y, "o", ks)) : <<x, y, ks>> \in UNION {{<<x, y, KidNodes("B", d, "k")>> : d \in DS(x, y)} : <<x, y>> \in {<<0, 1>>, <<N, N+1>>, <<N-1, N+1>>}}}
                            \cup {Obj(Node("B", x, x+1, "o", <<>>)) : x \in 0..N}
         ELSE IF n = 5 THEN FTApp(s) \cup FOApp(s, AB) ELSE IF n = 6 THEN FClean(s) ELSE {}
    [] Fam = "loose" ->
         CASE n = 1 -> {Obj(Node("A", 0, 2, "a", KidNodes("B", d, "k"))) : d \in IF N <= 1 THEN DS(0, 2) ELSE {<<<<0, 1>>, <<1, 2>>>>}}
           [] n = 2 -> {Obj(Node("A", 2, 4, "b", KidNodes("B", d, "m"))) : d \in IF N <= 1 THEN DS(2, 4) ELSE {<<<<3, 4>>>>}}
           [] n = 3 -> {Obj(Node("B", 4, 5, "y", <<>>))} \cup IF N <= 1 THEN {Obj(Node("B", 1, 2, "x", <<>>))} ELSE {}
           [] n \in 4..(3 + Max2(N, 1)) -> FLoose(s, AB) \cup IF N = 0 THEN FCleanObj(s, AB) \cup FValid(s) \cup FFuse(s) \cup FRecast(s, AB) ELSE {}
           [] N > 0 /\ n = 4 + N -> FCleanObj(s, AB) \cup FValid(s) \cup FFuse(s)
           [] OTHER -> {}
    [] Fam = "valid" ->
         IF n <= 3 THEN PairBase(n, AB) ELSE IF n = 4 THEN FValid(s) \cup FCleanObj(s, AB) ELSE {}
    [] Fam = "validobj" ->
         CASE n = 1 -> {Obj(Node("A", 1, N, "a", KidNodes("B", d, "k"))) : d \in {k \in AnyKids : \A i \in 1..(Len(k)-1) : k[i][1] < k[i+1][1]}}
           [] n = 2 -> {x \in FValid(s) : x.o = 1}
           [] OTHER -> {}
    [] Fam = "names" ->
         CASE n = 1 -> {[Tier("A", AB, <<<<0, 2>>>>, "u") EXCEPT !.n = nm] : nm \in {"A", "KY - A"}}
           [] n = 2 -> {[Tier("B", AB, d, "l") EXCEPT !.n = IF hist[1].n = "A" THEN "B" ELSE "KY - B"] : d \in {<<>>, <<<<0, 1>>, <<1, 2>>>>}}
           [] n = 3 -> {Group(<<1, 2>>)}
           [] n = 4 -> {Tier("A", AB, d, "v") : d \in {<<>>, <<<<0, 2>>>>}}
           [] n = 5 -> {Group(<<4>>)}
           [] n = 6 -> {Grid(<<3, 5>>), Grid(<<5, 3>>)}
           [] n = 7 -> {Tier("B", AB, <<<<0, 1>>>>, "w")}
           [] n = 8 -> {Tier("A", AB, <<<<0, 2>>>>, "x")}
           [] n = 9 -> {Group(<<8>>)}
           [] n = 10 -> FNames(s)
           [] n = 11 -> FNames(s) \cup FNameOps(s)
           [] n = 12 -> FNameOps(s)
           [] OTHER -> {}
    [] Fam = "pickon" ->
         CASE n = 1 -> {Tier("A", AB, d, "u") : d \in {<<<<0, 2>>>>, <<<<0, 1>>, <<1, 2>>>>}}
           [] n = 2 -> {Tier("B", AB, d, "l") : d \in Shapes2}
           [] n = 3 -> {Group(<<1, 2>>)}
           [] n = 4 -> {Tier("A", AB, d, "v") : d \in {<<>>, <<<<1, 2>>, <<2, 3>>>>}}
           [] n = 5 -> {Group(<<4>>)}
           [] n = 6 -> {Grid(<<3, 5>>)}
           [] n = 7 -> {Tier("A", AB, <<<<0, 2>>>>, "x")}
           [] n = 8 -> {Group(<<7>>)}
           [] n = 9 -> {Tier("A", AB, <<<<0, 2>>>>, "y")}
           [] n = 10 -> {Group(<<9>>)}
           [] n = 11 -> {[op |-> "pickle", a |-> <<6>>, drop |-> FALSE]}
           [] n = 12 -> {x \in FContinue(s) : On(s, x, 6)}
           [] n = 13 -> {x \in FContinue(s) : On(s, x, 11) /\ x.op = hist[12].op}
           [] OTHER -> {}
    [] Fam = "query" ->
         IF n <= 3 THEN PairBase(n, AB) ELSE IF n = 4 THEN FAt(s) \cup FIndex(s) ELSE {}
    [] Fam = "df" ->
         IF n <= 3 THEN PairBase(n, AB) ELSE IF n = 4 THEN FDf(s) ELSE {}
    [] Fam \in {"classes", "io", "gridq", "griddf", "pick"} ->
         CASE n = 1 -> {Tier("A", AB, d, "u") : d \in DS(0, N)}
           [] n = 2 -> {Tier("B", AB, d, "l") : d \in DS(0, N)}
           [] n = 3 -> {Group(<<1, 2>>)}
           [] n = 4 -> {Tier("A", AB, d, "v") : d \in {<<>>, <<<<0, 2>>>>, <<<<1, 2>>, <<2, 3>>>>}}
           [] n = 5 -> {Group(<<4>>)}
           [] n = 6 -> {Grid(<<3, 5>>)}
           [] n = 7 -> IF Fam = "classes" THEN FClasses(s, AB)
                       ELSE IF Fam = "io" THEN {[op |-> "cleanup", k |-> "grid", a |-> <<6>>]}
                       ELSE IF Fam = "gridq" THEN FAt(s) \cup FIndex(s)
                       ELSE IF Fam = "griddf" THEN FDf(s)
                       ELSE FPick(s)
           [] n = 8 -> IF Fam = "classes" THEN FClasses(s, AB) \cup FClean(s)
                       ELSE IF Fam = "io" THEN FIo(s, AB) \cup FSmall(s) \cup FShift(s)
                       ELSE IF Fam = "pick" THEN FFuse(s) \cup FClean(s) ELSE {}
           [] n = 9 -> IF Fam = "io" THEN FIo(s, AB) ELSE {}
           [] OTHER -> {}
    [] Fam = "joins" ->
         CASE n = 1 -> {Tier("A", AB, d, "u") : d \in DS(0, N)}
           [] n = 2 -> {Tier("B", AB, d, "l") : d \in DS(0, N)}
           [] n = 3 -> {Group(<<1, 2>>)}
           [] n = 4 -> {Tier("A", AB, d, "v") : d \in Shapes2}
           [] n = 5 -> {Tier("B", AB, d, "w") : d \in Shapes2}
           [] n = 6 -> {Group(<<4, 5>>)}
           [] n = 7 -> {[op |-> "concat", k |-> "group", a |-> <<3, 1>>, r |-> 6, off |-> 0],
                        [op |-> "add", r1 |-> 3, r2 |-> 6], [op |-> "shift", k |-> "group", a |-> <<6, 1>>, by |-> N]}
           [] n = 8 -> (IF s.R[6].k = "group" THEN {[op |-> "add", r1 |-> 3, r2 |-> 6], [op |-> "add", r1 |-> 6, r2 |-> 3]} ELSE {})
           [] OTHER -> {}
    [] Fam = "tjoins" ->
         CASE n = 1 -> {Tier("A", AB, d, "u") : d \in DS(0, N)}
           [] n = 2 -> {Tier(c, AB, d, "v") : c \in {"A", "B"}, d \in DS(0, N)}
           [] n = 3 -> {[op |-> "concat", k |-> "tier", a |-> <<1, 1, 1>>, r |-> 2, off |-> 0], [op |-> "add", r1 |-> 1, r2 |-> 2]}
           [] n = 4 -> FFuse(s) \cup FClean(s)
           [] OTHER -> {}
    [] Fam = "read" ->
         CASE n = 1 -> {[op |-> "read", nested |-> TRUE, ec |-> <<AB>>, ch |-> <<AB>>,
                         tiers |-> <<[k |-> "I", n |-> "S - A", lo |-> 0, hi |-> N, ents |-> Ents(d, "u")],
                                     [k |-> "I", n |-> "S - B", lo |-> 0, hi |-> N, ents |-> Ents(e, "l")]>>] : d \in DS(0, N), e \in DS(0, N)}
           [] OTHER -> {}
    [] Fam = "readflat" ->
         CASE n = 1 -> {[op |-> "read", nested |-> FALSE, ec |-> ec, ch |-> <<AB, <<"U", "V">>>>,
                         tiers |-> <<[k |-> "I", n |-> "t1", lo |-> 0, hi |-> 2, ents |-> Ents(d, "p")],
                                     [k |-> "I", n |-> "t2", lo |-> 0, hi |-> 2, ents |-> Ents(e, "q")],
                                     [k |-> "I", n |-> "t3", lo |-> 0, hi |-> 2, ents |-> Ents(f, "r")],
                                     [k |-> "I", n |-> "t4", lo |-> 0, hi |-> 2, ents |-> Ents(g, "s")]>>]
                         : d \in Shapes2, e \in Shapes2, f \in {<<>>, <<<<0, 2>>>>, <<<<1, 2>>>>}, g \in {<<<<0, 1>>>>, <<<<0, 1>>, <<1, 2>>>>},
                           ec \in {<<"A", "B">>, <<"A">>, <<"A", "B", "U", "V">>, <<"B", "A", "U">>, <<"A", "A", "B", "U">>, <<"A", "B", "A">>}}
           [] OTHER -> {}
    [] Fam = "points" ->
         CASE n = 1 -> {PTier("Pt", p, "p") : p \in PSeqs(N)}
           [] n = 2 -> {Group(<<1>>)}
           [] n = 3 -> {Tier("A", AB, d, "u") : d \in Shapes2}
           [] n = 4 -> FPoints(s) \cup {Obj(PNode("Pt", x, "o")) : x \in {0, 2}} \cup FShift(s)
           [] n = 5 -> FTApp(s)
           [] OTHER -> {}
    [] Fam = "pjoins" ->
         CASE n = 1 -> {PTier("Pt", p, "p") : p \in PSeqs(N)}
           [] n = 2 -> {PTier("Pt", p, "q") : p \in PSeqs(N)}
           [] n = 3 -> {[op |-> "concat", k |-> "tier", a |-> <<1, 1, 1>>, r |-> 2, off |-> 0], [op |-> "add", r1 |-> 1, r2 |-> 2]}
           [] n = 4 -> FPoints(s)
           [] OTHER -> {}

(*************************** the laws **************************************)
Op == hist[Len(hist)]
\* what is known of an object whatever happens to its time and place
Kept(s, u, S) == \A x \in S : x <= Len(u.O) /\ u.O[x].l = s.O[x].l
TotalDur(s, S) == SumOver(S, LAMBDA x : s.O[x].e - s.O[x].s)
GroupIn(s, a) == GroupIds(GroupAt(s, a))
WellNested(s, a) == Nested(s.O, GroupAt(s, a).ts) /\ GroupDisjoint(s.O, GroupAt(s, a).ts)
SameTimes(s, u, S) == \A x \in S : u.O[x].s = s.O[x].s /\ u.O[x].e = s.O[x].e
\* each interval of the lower tiers belongs to the interval above it that it overlaps most
BestParents(s, a) ==
  LET ts == GroupAt(s, a).ts IN
  \A t \in 2..Len(ts) : \A x \in Rng(ts[t].q) :
    LET ov(u) == Overlap(s.O, x, u)
        p == s.O[x].p
    IN IF p = 0 THEN \A u \in Rng(ts[t-1].q) : ov(u) <= 0
       ELSE p \in Rng(ts[t-1].q) /\ ov(p) > 0 /\ \A u \in Rng(ts[t-1].q) : ov(u) <= ov(p)

Invariants(s) == TimeOrder(s) /\ OneTier(s) /\ NoRepeats(s) /\ ParentsAbove(s)
                 /\ \A a \in TiersOf(s, "I") : \A x \in Rng(TierAt(s, a).q) : s.O[x].c = TierAt(s, a).c

LawRelate == Op.op \in {"mkgroup", "rerelate"} =>
  LET a == IF Op.op = "mkgroup" THEN <<Len(st.R), 1>> ELSE Op.a
      old == GroupIn(st, a) \cap 1..Len(pre.O)
      new == GroupIn(st, a) \ old
  IN /\ Kept(pre, st, old)
     /\ \A x \in new : st.O[x].l = ""
     /\ (GroupAt(st, a).k = "I" /\ WellNested(st, a)) => BestParents(st, a)

LawCleanup == Op.op = "cleanup" /\ Op.k \in {"group", "grid"} =>
  LET S == IF Op.k = "group" THEN {<<Op.a[1], Op.a[2]>>}
           ELSE {<<Op.a[1], g>> : g \in {m \in 1..Len(st.R[Op.a[1]].gs) : st.R[Op.a[1]].gs[m].k = "I"}}
      again == Exp(st, Op)
  IN \A a \in S :
     LET old == GroupIn(pre, a) IN
     /\ old \subseteq GroupIn(st, a)
     /\ Kept(pre, st, old)
     /\ \A x \in GroupIn(st, a) \ old : st.O[x].l = ""
     /\ (WellNested(pre, a) /\ BestParents(pre, a) /\ GroupIn(pre, a) # {} /\ (\A t \in 1..Len(GroupAt(pre, a).ts) : GroupAt(pre, a).ts[t].q # <<>>))
          => Complete(st, a) /\ SameTimes(pre, st, old) /\ again.ok /\ (again.skip \/ again.st = st)

LawFuse == Op.op = "fuse" /\ st # pre /\ Disjoint(pre.O, Neighbours(pre, Op.o)) =>
  LET o == Op.o
      gone == {x \in Live(pre) : st.O[x].k = "X" \/ (Loc(pre, o)[1] = 0 /\ x # o /\ st.O[x].p = 0 /\ pre.O[x].p # 0)}
      q0 == Neighbours(pre, o) q1 == Neighbours(st, o)
  IN /\ Len(q1) = Len(q0) - 1
     /\ \E x \in Rng(q0) : /\ Rng(q0) \ Rng(q1) = {x}
                           /\ Rng(Kids(st, o)) = Rng(Kids(pre, o)) \cup Rng(Kids(pre, x))
                           /\ st.O[o].s = Min2(pre.O[o].s, pre.O[x].s) /\ st.O[o].e = Max2(pre.O[o].e, pre.O[x].e)
                           /\ \A y \in Live(st) \ {o, x} : [st.O[y] EXCEPT !.p = 0] = [pre.O[y] EXCEPT !.p = 0]

LawAppend == Op.op = "tappend" /\ st # pre =>
  LET a == Op.a IN /\ Op.o \in Rng(TierAt(st, a).q)
                   /\ Rng(TierAt(pre, a).q) \subseteq Rng(TierAt(st, a).q)
                   /\ Kept(pre, st, Rng(TierAt(st, a).q) \cap 1..Len(pre.O))

LawShift == Op.op = "shift" =>
  LET back == Exp(st, [Op EXCEPT !.by = -@]) IN
  /\ back.ok /\ (back.skip \/ back.st = pre)
  /\ st.R = pre.R /\ \A x \in 1..Len(st.O) : st.O[x].p = pre.O[x].p /\ st.O[x].l = pre.O[x].l

LawJoin == Op.op \in {"concat", "add"} /\ st # pre =>
  LET r == IF Op.op = "add" THEN Len(st.R) ELSE Op.a[1]
      all == UNION {GroupIds(st.R[r].gs[g]) : g \in 1..Len(st.R[r].gs)}
      old == all \cap 1..Len(pre.O)
  IN /\ Kept(pre, st, old)
     /\ Op.op = "concat" => LET first == IF Op.k = "tier" THEN Rng(TierAt(pre, Op.a).q) ELSE GroupIn(pre, Op.a)
                                sec == GroupIds(pre.R[Op.r].gs[1])
                            IN /\ first \cup sec \subseteq all
                               /\ \A x \in first : \A y \in sec : st.O[x].e <= st.O[y].s
                               /\ TotalDur(st, first \cup sec) = TotalDur(pre, first \cup sec)

\* what interleave_class puts in, pop_class takes out
LawClasses == Op.op = "interleave" /\ st # pre =>
  LET back == Exp(st, [op |-> "popclass", a |-> Op.a, n |-> Op.n, bycls |-> 0])
      r == Op.a[1]
      full == \A g \in 1..Len(pre.R[r].gs) : Complete(pre, <<r, g>>) /\ GroupTimes(pre.O, pre.R[r].gs[g]) # {}
  IN full => /\ back.ok /\ ~back.skip
             /\ back.st.R[r].gs = pre.R[r].gs
             /\ \A x \in Live(pre) : back.st.O[x] = pre.O[x]
             /\ \A g \in 1..Len(st.R[r].gs) : Complete(st, <<r, g>>)

\* a grid that was saved and read again has the same contents
Abs1(s, r) == [g \in 1..Len(s.R[r].gs) |-> [t \in 1..Len(s.R[r].gs[g].ts) |-> Rows(s.O, s.R[r].gs[g].ts[t].q)]]
Named1(s, r) == LET x == Abs1(s, r) IN [g \in 1..Len(x) |-> [t \in 1..Len(x[g]) |-> SelectSeq(x[g][t], LAMBDA w : w[3] # "")]]
SameSpan(s, r) == \A g \in 1..Len(s.R[r].gs) : GroupTimes(s.O, s.R[r].gs[g]) # {} /\ Min(GroupTimes(s.O, s.R[r].gs[g])) = Min(AllTimes(s, r))
                                             /\ Max(GroupTimes(s.O, s.R[r].gs[g])) = Max(AllTimes(s, r))
LawSave == Op.op = "saveload" /\ Len(st.R) > Len(pre.R) =>
             /\ Named1(st, Len(st.R)) = Named1(pre, Op.a[1])
             /\ SameSpan(pre, Op.a[1]) => Abs1(st, Len(st.R)) = Abs1(pre, Op.a[1])
LawPickle == Op.op = "pickle" => /\ Abs1(st, Len(st.R)) = Abs1(pre, Op.a[1])
                                 /\ UNION {GroupIds(st.R[Len(st.R)].gs[g]) : g \in 1..Len(st.R[Len(st.R)].gs)} \cap 1..Len(pre.O) = {}

LawRead == Op.op = "read" /\ st # pre =>
  LET r == Len(st.R) IN \A g \in 1..Len(st.R[r].gs) :
     (st.R[r].gs[g].k = "I" /\ \A t \in 1..Len(st.R[r].gs[g].ts) : st.R[r].gs[g].ts[t].q # <<>>
      /\ WellNested(st, <<r, g>>)) => Complete(st, <<r, g>>)

LawRefuse == stop = "refused" => st = pre
Laws == hist = <<>> \/ stop = "skip" \/
  (Invariants(st) /\ LawRelate /\ LawCleanup /\ LawFuse /\ LawAppend /\ LawShift /\ LawJoin /\ LawClasses
   /\ LawSave /\ LawPickle /\ LawRead /\ LawRefuse)

(*************************** exploration ***********************************)
Init == pre = [O |-> <<>>, R |-> <<>>] /\ st = [O |-> <<>>, R |-> <<>>] /\ hist = <<>> /\ stop = ""
Next == /\ stop = ""
        /\ \E o \in Menu(Len(hist) + 1, st) :
             LET x == Exp(st, o)
             IN /\ pre' = st
                /\ st' = x.st
                /\ hist' = Append(hist, o)
                /\ stop' = IF x.skip THEN "skip" ELSE IF ~x.ok THEN "refused" ELSE ""
                /\ IF Emit THEN PrintT("HIST " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
===========================================================================
