------------------------------ MODULE MpiTrace ------------------------------
(***************************************************************************)
(* Recorded distributed runs: fits (UoIFit) and single helper calls.       *)
(***************************************************************************)
EXTENDS TraceUtil
VARIABLE l

Bag(s) == [t \in SeqToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = t})]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
CallsAgree(c) == \A r \in DOMAIN c.ops : c.ops[r] = c.ops[1]
AttrsEqual(a, b, names) == \A x \in names : Has(a, x) /\ Has(b, x) /\ a[x] = b[x]

FitClauses(c) ==
  C("C04.terminates", c.problem = "") \cup
  C("C04.calls", c.problem = "" => CallsAgree(c)) \cup
  (IF c.problem # "" THEN {}
   ELSE IF c.serialexc # "" THEN C("C04.error", \A r \in DOMAIN c.excs : c.excs[r] = c.serialexc)
   ELSE Guard(\A r \in DOMAIN c.excs : c.excs[r] = "", "C04.raises",
     LET names == DOMAIN c.serial
         first == c.ranks[1]
     IN UNION {C("C04.ranks." \o x, \A r \in DOMAIN c.ranks : Has(c.ranks[r], x) /\ c.ranks[r][x] = first[x]) : x \in names} \cup
        (IF c.exact THEN UNION {C("C04.serial." \o x, Has(first, x) /\ first[x] = c.serial[x]) : x \in names} ELSE {}) \cup
        C("C04.selection.once", Bag(Concat(c.sel)) = Bag(c.serialsel)) \cup
        (IF c.exact THEN C("C04.estimation.once", Bag(Concat(c.est)) = Bag(c.serialest)) ELSE {})))

(* a helper: expected results are rows of element codes the harness wrote   *)
(* down before the call                                                     *)
Shape(a) == a.shape
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
SameArray(a, b) == a.kind = b.kind /\ (a.kind = "array" => a.shape = b.shape /\ a.dtype = b.dtype /\ a.data = b.data)
Stacked(send) ==
  [kind |-> "array", dtype |-> send[1].dtype,
   shape |-> <<LET rows[i \in 0..Len(send)] == IF i = 0 THEN 0 ELSE rows[i - 1] + send[i].shape[1] IN rows[Len(send)]>> \o Tail(send[1].shape),
   data |-> Concat([i \in DOMAIN send |-> send[i].data])]
None == [kind |-> "none"]
HelperClauses(c) ==
  LET P == c.P
      invalid == \E r \in DOMAIN c.send : c.send[r].kind = "other"
      root == c.root + 1
  IN IF c.what = "Bcast" /\ invalid
     THEN \* whoever passes something else is told so
          C("C05.valueerror", \A r \in 1..P : c.send[r].kind = "other" => c.excs[r] = "ValueError")
     ELSE IF c.what = "Gatherv" /\ invalid
     THEN C("C05.valueerror", \A r \in 1..P : c.send[r].kind = "other" => c.excs[r] = "ValueError")
     ELSE C("C05.terminates", c.problem = "") \cup
          Guard(\A r \in 1..P : c.excs[r] = "", "C05.raises",
            CASE c.what = "Bcast" -> C("C05.bcast", \A r \in 1..P : SameArray(c.got[r], c.send[root]))
              [] c.what = "Gatherv" ->
                   C("C05.gather", SameArray(c.got[root], Stacked(c.send))) \cup
                   C("C05.gather.others", \A r \in 1..P : r # root => SameArray(c.got[r], None))
              [] c.what = "load" -> C("C05.load", \A r \in 1..P : SameArray(c.got[r][1], c.send[1]) /\ SameArray(c.got[r][2], c.send[2])))
     \cup C("C05.calls", c.problem = "" /\ (\A r \in 1..P : c.excs[r] = "") => CallsAgree(c))
     \cup C("C05.unchanged", c.unchanged)

Clauses(c) == CASE c.kind = "fit" -> FitClauses(c) [] c.kind = "helper" -> HelperClauses(c)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
