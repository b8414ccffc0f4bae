-------------------------------- MODULE Lbfgs -------------------------------
(***************************************************************************)
(* The protocol between the minimizer and its callbacks: evaluations,      *)
(* progress reports, the stopping tests and the ways a run can end.        *)
(* Numbers are abstracted: `small` is the gradient test, `flat` the test   *)
(* of the decrease over `past` iterations; LbfgsTrace computes both from   *)
(* recorded runs.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

VARIABLES cfg,     \* max (iterations, 0: no limit), past (0: no test), trials
          phase,
          k,       \* progress reports so far
          trials   \* evaluations of the running line search
pvars == <<cfg, phase, k, trials>>

Ended(p) == p \in {"x0", "point", "limit", "cancel", "allzero", "raise", "weak", "error", "done"}

(* the decision after a progress report                                     *)
Decide(c, n, small, flat) ==
  IF small THEN "point"
  ELSE IF c.past > 0 /\ n >= c.past /\ flat THEN "point"
  ELSE IF c.max > 0 /\ n >= c.max THEN "limit"
  ELSE "search"

PInit(c) == cfg = c /\ phase = "start" /\ k = 0 /\ trials = 0

(* the evaluation of the starting point                                     *)
First(small, raised) ==
  /\ phase = "start"
  /\ phase' = IF raised THEN "raise" ELSE IF small THEN "x0" ELSE "search"
  /\ UNCHANGED <<cfg, k, trials>>
(* one trial of a line search                                               *)
Trial(raised) ==
  /\ phase = "search" /\ trials < cfg.trials
  /\ trials' = trials + 1
  /\ phase' = IF raised THEN "raise" ELSE phase
  /\ UNCHANGED <<cfg, k>>
(* an iteration is reported; the callback answers                           *)
Progress(small, flat, answer) ==
  /\ phase = "search" /\ trials >= 1
  /\ k' = k + 1 /\ trials' = 0
  /\ phase' = CASE answer = "raise" -> "raise"
                [] answer = "stop" -> "cancel"
                [] answer = "allzero" -> "allzero"
                [] OTHER -> Decide(cfg, k + 1, small, flat)
  /\ UNCHANGED cfg
(* a line search gives up: with the last point and a warning, or an error   *)
GiveUp(how) ==
  /\ phase = "search" /\ how \in {"weak", "error"}
  /\ phase' = how /\ UNCHANGED <<cfg, k, trials>>
End == Ended(phase) /\ phase # "done" /\ phase' = "done" /\ UNCHANGED <<cfg, k, trials>>

(***************************************************************************)
(* exploration                                                             *)
(***************************************************************************)
CONSTANTS MaxIter, MaxTrials
VARIABLE log           \* what the callbacks saw and answered
vars == <<pvars, log>>
Cfgs == [max : 0..MaxIter, past : 0..2, trials : 1..MaxTrials]
Init == \E c \in Cfgs : PInit(c) /\ log = <<>>
Next ==
  \/ \E s, r \in BOOLEAN : First(s, r) /\ log' = Append(log, IF r THEN "eval!" ELSE "eval")
  \/ \E r \in BOOLEAN : Trial(r) /\ log' = Append(log, IF r THEN "eval!" ELSE "eval")
  \/ \E s, f \in BOOLEAN, a \in {"ok", "stop", "allzero", "raise"} :
        Progress(s, f, a) /\ log' = Append(log, IF a = "ok" THEN "progress" ELSE "progress!")
  \/ \E h \in {"weak", "error"} : GiveUp(h) /\ UNCHANGED log
  \/ End /\ UNCHANGED log
Bound == k <= MaxIter /\ Len(log) <= 2 * MaxIter * MaxTrials
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Count(x) == Cardinality({i \in DOMAIN log : log[i] = x})
(* nothing is called after an answer that ends the run                      *)
Quiet == \A i \in DOMAIN log : log[i] \in {"eval!", "progress!"} => i = Len(log) /\ Ended(phase)
Numbered == k = Count("progress") + Count("progress!")
Limited == cfg.max > 0 => k <= cfg.max
LimitOnly == phase = "limit" => k = cfg.max
Alternates == \A i \in DOMAIN log : log[i] \in {"progress", "progress!"} => i > 2 /\ log[i - 1] = "eval"
Reported == phase = "point" => k >= 1
Enough == phase = "search" /\ cfg.max > 0 => k < cfg.max
Finished == (cfg.max > 0) ~> (phase = "done" \/ ~Bound)

(***************************************************************************)
(* scenarios for the implementation                                        *)
(***************************************************************************)
Scn == [fun : {"quad", "logit", "quartic", "rosen", "kink", "slope", "flat", "wrong", "offset"},
        ls : {"default", "morethuente", "armijo", "wolfe", "strongwolfe"},
        l1 : {"none", "all", "head", "tail", "middle", "empty"},
        past : {0, 1, 2, 3}, max : {0, 1, 2, 5},
        x0 : {"vector", "list", "scalar", "matrix", "fortran", "int", "float32", "readonly", "strided"},
        answer : {"none", "stop", "raise", "evalraise", "zeros", "noprogress"},
        api : {"fmin", "class"}]
NoL1(s) == s.l1 = "none" \/ s.ls \in {"default", "wolfe"}
ScnInit == cfg = 0 /\ phase = "x" /\ k = 0 /\ trials = 0 /\ log = <<>>
ScnNext == FALSE /\ UNCHANGED vars
Written == "OUT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.OUT, SetToSeq(
   {s \in Scn : NoL1(s) /\ (s.x0 \in {"vector", "matrix"} \/ (s.past = 0 /\ s.max \in {0, 5} /\ s.ls \in {"default", "wolfe"}
                              /\ s.fun \in {"quad", "logit"})) /\ (s.api = "fmin" \/ s.x0 = "vector")
                /\ (s.fun \in {"quad", "logit", "rosen"} \/ (s.past < 2 /\ s.max # 1 /\ s.x0 = "vector"))}))
ASSUME Written
=============================================================================
