------------------------------ MODULE CoreTrace ------------------------------
(* Calls of intersection, and fits whose sweeps return given tables.        *)
EXTENDS UoICore, TraceUtil
VARIABLE l
IntersectClauses(c) ==
  IF c.exc # "" THEN {"C01.raises"}
  ELSE LET nf == IF c.shared /\ c.K > 1 THEN c.p ELSE c.K * c.p
       IN Guard(Len(c.got) >= 1 /\ IsMat(c.got, Len(c.got), nf), "C01.shape",
            C("C01.duplicates", NoDup(c.got)) \cup
            C("C01.supports", SeqToSet(c.got) = Supports(c.sel, Len(c.sel[1]), c.K, c.p, c.thr, c.shared)))
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, IntersectClauses(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
