------------------------------ MODULE NullTrace -----------------------------
(* Fits of a constant response (action Null of Degenerate).                 *)
EXTENDS TraceUtil
VARIABLE l

Rows(c) == IF c.ytype = "label" THEN (IF c.multinomial THEN 2 ELSE 1) ELSE 1
Clauses(c) ==
  IF c.exc # "" THEN {"C10.null.exception"}
  ELSE
  C("C10.null.shape", c.shape = IF c.ytype = "label" THEN <<Rows(c), c.p>> ELSE <<c.p>>) \cup
  C("C10.null.zero", \A i \in 1..Len(c.W) : RIsZero(c.W[i])) \cup
  C("C10.null.resampled", c.untouched /\ c.draws = 0) \cup
  C("C10.null.refit", c.same) \cup
  C("C10.null.prediction", Len(c.pred) = c.m /\
     CASE c.ytype = "label" -> c.classes = <<1>> /\ \A i \in 1..c.m : c.pred[i] = 1
       [] c.ytype = "count" -> \A i \in 1..c.m :
            IF c.icpt THEN RClose(c.mean[i], c.value, "1e-9", 0) /\ RLeq(RAbs(RSub(c.pred[i], c.value)), 1)
            ELSE REq(c.mean[i], 1) /\ REq(c.pred[i], 1)
       [] OTHER -> \A i \in 1..c.m : RClose(c.pred[i], IF c.icpt THEN RVal(c.value) ELSE RVal(0), "1e-9", 0)) \cup
  C("C10.null.intercept",
     /\ Len(c.b) = Rows(c)
     /\ ~c.icpt => \A k \in 1..Len(c.b) : RIsZero(c.b[k])
     \* the intercept of counts of zero is the logarithm of zero
     /\ \A k \in 1..Len(c.b) : RIsFinite(c.b[k]) \/ (c.ytype = "count" /\ RIsZero(c.value) /\ REq(c.b[k], "-inf")))

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
