------------------------------ MODULE OwnTrace -------------------------------
(* Recorded calls held to Ownership: an event is a call or group of calls.  *)
(* Buffers are compared by digests of everything below them.                *)
EXTENDS TraceUtil
VARIABLE l

Kept(a) == a.before = a.after
Event(e) ==
  (* what the caller owns is as it was                                      *)
  C("C20.modified", \A i \in DOMAIN e.args : Kept(e.args[i])) \cup
  (* what was handed out earlier is as it was                               *)
  C("C20.handed", \A i \in DOMAIN e.handed : Kept(e.handed[i])) \cup
  (* the model's state is in buffers of its own                             *)
  C("C20.shared", e.shared = <<>>)
Clauses(c) ==
  UNION {Event(c.runs[i]) : i \in DOMAIN c.runs} \cup
  (IF c.runs[1].exc # "" THEN {"raises"} ELSE
   (* arrays that cannot be written do                                      *)
   C("C20.readonly", c.runs[2].exc = "") \cup
   C("C20.same", c.runs[2].exc # "" \/ CloseSeq(c.runs[1].out, c.runs[2].out, "1e-9", "1e-12")) \cup
   (* and writing into the arrays afterwards does not reach the model       *)
   C("C20.detached", Kept(c.runs[1].later)))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
