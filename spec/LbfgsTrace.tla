------------------------------ MODULE LbfgsTrace -----------------------------
(***************************************************************************)
(* Recorded minimizations are behaviours of Lbfgs.  A line of the trace is *)
(* a run: its settings and its events (evaluations, progress reports, the  *)
(* end).  Every event is bound to the action of Lbfgs it must be.          *)
(***************************************************************************)
EXTENDS TraceUtil
VARIABLES l, e,          \* run and event
          cfg, phase, k, trials,
          base,          \* the evaluation at the last reported (or first) point
          now,           \* evaluations since
          values         \* objectives: values[i + 1] after i reports
L == INSTANCE Lbfgs WITH MaxIter <- 0, MaxTrials <- 0, log <- <<>>
tvars == <<l, e, cfg, phase, k, trials, base, now, values>>

R == Trace[l]
Ev == R.events[e]
N(ev) == Len(ev.x)
Penal(i) == R.c # "0.0" /\ R.start < i /\ i <= R.end       \* coordinate i, from 1
Objective(ev) == IF R.c = "0.0" THEN ev.f
  ELSE RAdd(ev.f, RMul(R.c, RSum([i \in 1..N(ev) |-> IF Penal(i) THEN RAbs(ev.x[i]) ELSE 0])))
(* the gradient, or the subgradient of smallest norm                        *)
Pseudo(ev) == [i \in 1..N(ev) |->
  IF ~Penal(i) THEN ev.g[i]
  ELSE IF RLt(ev.x[i], 0) THEN RSub(ev.g[i], R.c)
  ELSE IF RLt(0, ev.x[i]) THEN RAdd(ev.g[i], R.c)
  ELSE IF RLt(ev.g[i], RNeg(R.c)) THEN RAdd(ev.g[i], R.c)
  ELSE IF RLt(R.c, ev.g[i]) THEN RSub(ev.g[i], R.c) ELSE 0]
Norm(v) == RSqrt(RDot(v, v))
Ratio(ev) == RDiv(Norm(Eager(Pseudo(ev))), RMax(1, Norm(ev.x)))
(* a test which is too close to call may go either way                      *)
Outcomes(x, bound, strict) ==
  IF RClose(x, bound, "1e-9", 0) THEN BOOLEAN
  ELSE {IF strict THEN RLt(x, bound) ELSE RLeq(x, bound)}
Smalls(ev) == Outcomes(Ratio(ev), R.epsilon, FALSE)
Flats(fx) ==       \* fx: the objective of report k + 1
  IF R.past = 0 \/ k + 1 < R.past THEN {FALSE}
  ELSE LET old == values[k + 2 - R.past]
           rate == RAbs(RDiv(RSub(old, fx), fx))
       IN Outcomes(rate, R.delta, TRUE)

Same(a, b) == DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : REq(a[i], b[i])
Slope(g, x, y) == RDot(g, [i \in DOMAIN x |-> RSub(y[i], x[i])])
Tol(a, b) == RMul("1e-10", RAdd("1e-10", RMax(RAbs(a), RAbs(b))))
LeqTol(a, b) == RLeq(a, RAdd(b, Tol(a, b)))

(* what the line search in force promises of an accepted point              *)
Decrease(p, q) == LeqTol(Objective(q), RAdd(Objective(p), RMul(R.ftol, Slope(Eager(Pseudo(p)), p.x, q.x))))
Curvature(p, q) ==
  LET d0 == Slope(p.g, p.x, q.x)
      d1 == Slope(q.g, p.x, q.x)
  IN CASE R.c # "0.0" \/ R.search = "armijo" -> TRUE
       [] R.search = "wolfe" -> LeqTol(RMul(R.wolfe, d0), d1)
       [] R.search = "strongwolfe" -> LeqTol(RAbs(d1), RAbs(RMul(R.wolfe, d0)))
       [] OTHER -> LeqTol(RAbs(d1), RAbs(RMul(R.gtol, d0)))

Stay == UNCHANGED <<cfg, phase, k, trials>>
Next1 == e' = e + 1 /\ UNCHANGED l

EvalEvent ==
  /\ Ev.type = "eval"
  /\ IF phase = "start"
     THEN /\ IF Ev.raised THEN L!First(FALSE, TRUE) ELSE \E s \in Smalls(Ev) : L!First(s, FALSE)
          /\ base' = Ev /\ now' = <<>>
          /\ values' = IF Ev.raised THEN <<>> ELSE <<Objective(Ev)>>
          /\ Report(l, C("C16.first.x0", Same(Ev.x, R.x0)) \cup C("C16.shape", Ev.shape = R.shape) \cup C("C16.args", Ev.args))
     ELSE /\ IF ENABLED L!Trial(Ev.raised) THEN L!Trial(Ev.raised) /\ Report(l, {})
             ELSE Stay /\ Report(l, C("C16.protocol.evaluation", FALSE))
          /\ now' = Append(now, Ev) /\ UNCHANGED <<base, values>>
          /\ Report(l, C("C16.shape", Ev.shape = R.shape) \cup C("C16.args", Ev.args))

ProgressClauses(ev, src) ==
  C("C16.report.k", ev.k = k + 1) \cup
  C("C16.report.evaluations", ev.ls = Len(now)) \cup
  C("C16.report.gradient", Same(ev.g, src.g)) \cup
  C("C16.report.objective", RClose(ev.fx, Objective(src), "1e-12", "1e-300")) \cup
  C("C16.report.xnorm", RClose(ev.xnorm, Norm(ev.x), "1e-10", "1e-300")) \cup
  C("C16.report.gnorm", RClose(ev.gnorm, Norm(Eager(Pseudo(ev))), "1e-10", "1e-300")) \cup
  C("C16.report.step", RLt(0, ev.step)) \cup
  C("C16.shape", ev.shape = R.shape) \cup C("C16.args", ev.args) \cup
  C("C16.decreasing", LeqTol(Objective(src), values[Len(values)])) \cup
  C("C16.search.decrease", R.fun = "wrong" \/ Decrease(base, src)) \cup
  C("C16.search.curvature", R.fun = "wrong" \/ Curvature(base, src))

ProgressEvent ==
  /\ Ev.type = "progress"
  /\ LET src == {i \in DOMAIN now : ~now[i].raised /\ Same(now[i].x, Ev.x)}
     IN IF src = {} THEN \* not one of the points of this iteration
             /\ Report(l, C("C16.report.point", FALSE))
             /\ phase' = "lost" /\ UNCHANGED <<cfg, k, trials, base, now, values>>
        ELSE LET i == CHOOSE i \in src : \A j \in src : j <= i IN
             /\ Report(l, ProgressClauses(Ev, now[i]))
             /\ IF ENABLED L!Progress(FALSE, FALSE, Ev.answer)
                THEN \* the next event shows which way a close call went
                     LET P == Smalls(now[i]) \X Flats(Objective(now[i]))
                         seen == IF e < Len(R.events) /\ R.events[e + 1].type = "eval" THEN "search"
                                 ELSE IF R.max > 0 /\ k + 1 >= R.max /\ "iterations" \in SeqToSet(R.warnings) THEN "limit" ELSE "point"
                         fits == {o \in P : L!Decide(cfg, k + 1, o[1], o[2]) = seen}
                     IN \E o \in {CHOOSE o \in IF fits = {} THEN P ELSE fits : TRUE} : L!Progress(o[1], o[2], Ev.answer)
                ELSE Report(l, C("C16.protocol.progress", FALSE)) /\ Stay
             /\ base' = now[i] /\ now' = <<>> /\ values' = Append(values, Objective(now[i]))

(* how the run may end in each phase                                        *)
Warned(w) == w \in SeqToSet(R.warnings)
EndClauses(ev) ==
  LET returned == ev.exc = ""
      last == returned /\ Same(ev.x, base.x) /\ ev.shape = R.shape
  IN C("C16.x0.unchanged", ev.x0same) \cup
     CASE phase = "x0" -> C("C16.return.minimal", last /\ R.warnings = <<>>)
       [] phase = "point" -> C("C16.return.converged", last /\ R.warnings = <<>>)
       [] phase = "limit" -> C("C16.return.limit", last) \cup C("C16.warning.limit", Warned("iterations"))
       [] phase = "cancel" -> C("C16.cancel", ev.exc = "LBFGSError")
       [] phase = "allzero" -> C("C16.cancel", ev.exc = "AllZeroLBFGSError")
       [] phase = "raise" -> C("C16.propagates", ev.exc = "mine")
       [] phase = "search" ->
            C("C16.stops.early", ~R.nice) \cup
            (IF returned THEN C("C16.return.weak", last) \cup C("C16.warning.weak", R.warnings # <<>> /\ ~Warned("iterations"))
             ELSE C("C16.error", ev.exc = "LBFGSError"))
       [] phase = "start" -> C("C16.protocol.unevaluated", FALSE)
       [] OTHER -> {}

EndEvent ==
  /\ Ev.type = "end"
  /\ Report(l, EndClauses(Ev))
  /\ IF phase = "search" THEN \E h \in {"weak"} : L!GiveUp(h)
     ELSE IF ENABLED L!End THEN L!End ELSE Stay
  /\ UNCHANGED <<base, now, values>>

(* a table of settings: what must be refused                                *)
TableEvent ==
  /\ Ev.type = "call"
  /\ Report(l, C("C16.invalid", Ev.invalid => Ev.exc \in {"LBFGSError", "AssertionError"} /\ Ev.calls = 0) \cup
               C("C16.valid", ~Ev.invalid => Ev.exc = ""))
  /\ Stay /\ UNCHANGED <<base, now, values>>

(* the same run without a progress callback                                 *)
PairEvent ==
  /\ Ev.type = "pair" /\ Report(l, C("C16.progress.optional", Ev.same))
  /\ Stay /\ UNCHANGED <<base, now, values>>

StartRun(i) ==
  IF i <= Len(Trace)
  THEN [max |-> Trace[i].max, past |-> Trace[i].past, trials |-> Trace[i].trials]
  ELSE [max |-> 0, past |-> 0, trials |-> 1]
Fresh == phase' = "start" /\ k' = 0 /\ trials' = 0 /\ base' = <<>> /\ now' = <<>> /\ values' = <<>>

TraceInit ==
  /\ l = 1 /\ e = 1 /\ cfg = StartRun(1) /\ phase = "start" /\ k = 0 /\ trials = 0
  /\ base = <<>> /\ now = <<>> /\ values = <<>>
TraceNext ==
  \/ /\ l <= Len(Trace) /\ e <= Len(R.events) /\ Next1
     /\ EvalEvent \/ ProgressEvent \/ EndEvent \/ TableEvent \/ PairEvent
  \/ /\ l <= Len(Trace) /\ e > Len(R.events)
     /\ l' = l + 1 /\ e' = 1 /\ cfg' = StartRun(l + 1) /\ Fresh
TraceSpec == TraceInit /\ [][TraceNext]_tvars
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].events) + 1 + Sum(i - 1)
TraceAccepted == TLCGet("stats").diameter - 1 = Sum(Len(Trace))
=============================================================================
