---------------------------- MODULE TracePolar ----------------------------
(* Judges PolarGrids, see Polar.                                           *)
EXTENDS Polar, Json, IOUtils
Traces == JsonDeserialize(IOEnv.ATG_TRACES)
VARIABLES t, i
vars == <<t, i>>
Line(n, k) == Traces[n][k]
F(b, cl, d) == IF b THEN {} ELSE {<<cl, d>>}
TL(q) == [n \in 1..Len(q) |-> <<q[n].t, q[n].l>>]
Named(R) == SelectSeq([n \in 1..Len(R) |-> <<R[n].s, R[n].e, R[n].l>>], LAMBDA x : x[3] # "")
Sum(op, L) == IF "by" \in DOMAIN op THEN op.by ELSE 0
Moved(in, by) ==
  [tp |-> [n \in 1..Len(in.tp) |-> [t |-> in.tp[n].t + by, l |-> in.tp[n].l]],
   lv |-> [n \in 1..Len(in.lv) |-> [t |-> in.lv[n].t + by, l |-> in.lv[n].l]],
   pr |-> [n \in 1..Len(in.pr) |-> [t |-> in.pr[n].t + by, l |-> in.pr[n].l]],
   rg |-> [n \in 1..Len(in.rg) |-> [in.rg[n] EXCEPT !.s = @ + by, !.e = @ + by]]]
\* x: what went in, v: what the PolarGrid says
Judge(x, v) ==
  F(TL(v.tp) = TL(x.tp) /\ TL(v.lv) = TL(x.lv) /\ TL(v.pr) = TL(x.pr), "points", ToString(<<TL(v.tp), TL(v.lv)>>)) \cup
  F(Named(v.rg) = Named(x.rg), "ranges", ToString(Named(v.rg))) \cup
  (IF TL(v.tp) # TL(x.tp) \/ TL(v.lv) # TL(x.lv) \/ TL(v.pr) # TL(x.pr) \/ Named(v.rg) # Named(x.rg) THEN {} ELSE
   UNION {LET p == v.lv[n] r == RangeAt(v.rg, p.t) IN
            F(p.tp = PointAt(v.tp, p.t), "turning-point", ToString(<<n, p.tp, PointAt(v.tp, p.t)>>))
            \cup F(v.rg = <<>> \/ (p.ri = r /\ p.rt), "range-interval", ToString(<<n, p.ri, r>>))
            \cup F(p.ce = Certainty(p.l) /\ p.le = Level(p.l), "level-values", ToString(p))
            \cup F(r = 0 \/ Level(p.l) \notin 1..5 \/ v.rg = <<>> \/ p.bd = SubSeq(v.rg[r].bd, Level(p.l), Level(p.l) + 1), "band", ToString(p))
          : n \in 1..Len(v.lv)} \cup
   UNION {LET p == v.tp[n] IN
            F(p.lv = PointAt(v.lv, p.t), "level", ToString(<<n, p.lv>>))
            \cup F(p.ce = Certainty(p.l) /\ p.ov = Override(p.l), "turning-point-values", ToString(p))
          : n \in 1..Len(v.tp)} \cup
   UNION {F(v.pr[n].ce = Certainty(v.pr[n].l) /\ v.pr[n].st = Status(v.pr[n].l), "prstr-values", ToString(v.pr[n])) : n \in 1..Len(v.pr)} \cup
   UNION {LET r == v.rg[n]
              S == {m \in 1..Len(x.rg) : x.rg[m].l = r.l /\ r.l # "" /\ x.rg[m].s = r.s}
              lo == IF S = {} THEN None ELSE x.rg[Min(S)].lo
              hi == IF S = {} THEN None ELSE x.rg[Min(S)].hi
          IN F(r.lo = lo /\ r.hi = hi /\ r.bd = Bands(lo, hi), "range-values", ToString(r))
          : n \in 1..Len(v.rg)} \cup
   F(v.names = v.want, "group-names", ToString(v.names)) \cup
   F(\A n \in 1..Len(v.acc) : v.acc[n], "accessors", ToString(v.acc)))
Say(n, k, S) == \A x \in S : PrintT(<<"VIOL", "C22", x[1], n, k, x[2]>>)
\* the first line has the input; each further line what the grid is after a step
RECURSIVE By(_, _)
By(n, k) == IF k = 1 THEN 0 ELSE By(n, k - 1) + Line(n, k).op.by
Init == t \in 1..Len(Traces) /\ i = 1
Next == /\ i < Len(Traces[t])
        /\ t' = t
        /\ LET L == Line(t, i + 1)
               ok == \A n \in 1..Len(Line(t, 1).in.rg) : Line(t, 1).in.rg[n].lo = None
                         \/ Line(t, 1).in.rg[n].l = RangeLabel(Line(t, 1).in.rg[n].lo, Line(t, 1).in.rg[n].hi)
               b == TLCEval(IF ~ok THEN {} ELSE IF L.ret # "ok" THEN {<<"raised", L.ret>>} ELSE Judge(Moved(Line(t, 1).in, By(t, i + 1)), L.v))
           IN /\ Say(t, i + 1, b)
              /\ (~ok => PrintT(<<"OPEN", t, i + 1>>))
              /\ i' = IF b # {} THEN Len(Traces[t]) ELSE i + 1
Spec == Init /\ [][Next]_vars
===========================================================================
