----------------------------- MODULE ScoreTrace -----------------------------
(* Calls of the stand-alone criteria.                                       *)
EXTENDS Glm
VARIABLE l
(* the Gaussian likelihood at its maximizing variance; the mean Poisson one *)
LL(c) == IF c.model = "normal" THEN GaussLL(c.y, c.mu) ELSE PoisLL(c.y, c.mu)
Want(c) ==
  CASE c.fn = "ll" -> LL(c)
    [] c.fn = "AIC" -> AIC(c.ll, c.k)
    [] c.fn = "BIC" -> BIC(c.ll, c.k, c.n)
    [] c.fn = "AICc" -> AICc(c.ll, c.k, c.n)
Clauses(c) ==
  IF c.exc # "" THEN C("C12.rejects", c.bad)
  ELSE C("C12.accepts", ~c.bad) \cup (IF c.bad THEN {} ELSE C("C12." \o c.fn, RClose(c.got, Want(c), "1e-10", "1e-12")))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
