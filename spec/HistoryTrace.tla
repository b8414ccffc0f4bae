---------------------------- MODULE HistoryTrace ---------------------------
(***************************************************************************)
(* Recorded histories of objects: fits, queries and uses of the global     *)
(* generator by others.  As in History, what a fit returns is a function   *)
(* of the data and of the state of its generator: the trace is checked     *)
(* with a memory of what every (generator state, data) gave before.        *)
(***************************************************************************)
EXTENDS TraceUtil
VARIABLES l, e, memo,   \* key -> index of the event that defined it
          last,         \* object -> key of its last fit
          asked         \* <<key, query>> -> event
tvars == <<l, e, memo, last, asked>>

R == Trace[l]
Ev == R.events[e]
SameVal(x, y, rtol, atol) ==
  /\ x.shape = y.shape /\ Len(x.vals) = Len(y.vals)
  /\ \A i \in DOMAIN x.vals : IF x.text THEN x.vals[i] = y.vals[i]
                              ELSE (x.vals[i] = y.vals[i] \/ RClose(x.vals[i], y.vals[i], rtol, atol))
SameRes(x, y) ==
  /\ DOMAIN x = DOMAIN y
  /\ \A n \in DOMAIN x : SameVal(x[n], y[n], "1e-9", "1e-300")
SameOut(x, y) == x.exc = y.exc /\ SameRes(x.res, y.res)

Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
FitEvent ==
  /\ Ev.ev = "fit"
  /\ LET old == IF Ev.key \in DOMAIN memo THEN R.events[memo[Ev.key]] ELSE Ev
         other == {k \in DOMAIN memo : k # Ev.key /\ R.events[memo[k]].d = Ev.d /\ R.events[memo[k]].gid # Ev.gid}
     IN /\ Report(l,
             C("C06.global", Ev.globpre = Ev.globpost) \cup
             C(IF Ev.fresh /\ old.fresh THEN "C06.repeat" ELSE "C07.refit", SameOut(Ev, old)) \cup
             C("C06.generator", Ev.gpost = old.gpost) \cup
             C("C06.splits.selection", Distinct(Ev.sel)) \cup
             C("C06.splits.estimation", Distinct(Ev.est) /\ (Ev.nest = 0 \/ Ev.est = <<>> \/ Len(Ev.est) = Ev.nest)) \cup
             C("C06.seeds", \A k \in other :
                  LET o == R.events[memo[k]] IN
                  o.sel = <<>> \/ Ev.sel = <<>> \/ Ev.fixed \/ (o.sel # Ev.sel /\ (o.est = <<>> \/ o.est # Ev.est))))
        /\ memo' = IF Ev.key \in DOMAIN memo THEN memo ELSE memo @@ (Ev.key :> e)
        /\ last' = (Ev.o :> Ev.key) @@ last
  /\ UNCHANGED asked
QueryEvent ==
  /\ Ev.ev = "query"
  /\ LET k == <<last[Ev.o], Ev.d>>
         old == IF k \in DOMAIN asked THEN R.events[asked[k]] ELSE Ev
     IN /\ Report(l, C("C06.global", Ev.globpre = Ev.globpost) \cup C("C07.query", SameOut(Ev, old)))
        /\ asked' = IF k \in DOMAIN asked THEN asked ELSE asked @@ (k :> e)
  /\ UNCHANGED <<memo, last>>
(* two computations which must agree                                        *)
SameEvent ==
  /\ Ev.ev = "same"
  /\ Report(l, C(Ev.clause, SameVal(Ev.a, Ev.b, Ev.rtol, Ev.atol)))
  /\ UNCHANGED <<memo, last, asked>>
TouchEvent == Ev.ev = "touch" /\ UNCHANGED <<memo, last, asked>>

Empty == <<>>
TraceInit == l = 1 /\ e = 1 /\ memo = Empty /\ last = Empty /\ asked = Empty
TraceNext ==
  \/ /\ l <= Len(Trace) /\ e <= Len(R.events) /\ e' = e + 1 /\ l' = l
     /\ FitEvent \/ QueryEvent \/ SameEvent \/ TouchEvent
  \/ /\ l <= Len(Trace) /\ e > Len(R.events)
     /\ l' = l + 1 /\ e' = 1 /\ memo' = Empty /\ last' = Empty /\ asked' = Empty
TraceSpec == TraceInit /\ [][TraceNext]_tvars
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].events) + 1 + Sum(i - 1)
TraceAccepted == TLCGet("stats").diameter - 1 = Sum(Len(Trace))
=============================================================================
