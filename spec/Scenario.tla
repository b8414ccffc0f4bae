------------------------------ MODULE Scenario ------------------------------
(***************************************************************************)
(* The configurations of the UoI linear models which are meaningful, chosen *)
(* dimension by dimension.  TLC's simulation mode draws behaviours; each    *)
(* complete behaviour is a fit for the harness to perform and record.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

VARIABLES stage, cfg
vars == <<stage, cfg>>

Stages == <<"which", "preproc", "metric", "target", "boots", "thr", "regs", "shape", "strat", "warm", "out", "xrep", "yrep", "call", "done">>
Whichs == {"lasso", "pyc", "enet", "logistic", "multinomial", "poisson", "poissoncd"}
Linear == {"lasso", "pyc", "enet"}
Poiss == {"poisson", "poissoncd"}
Logist == {"logistic", "multinomial"}

Set(f, S) == \E v \in S : cfg' = [x \in DOMAIN cfg \cup {f} |-> IF x = f THEN v ELSE cfg[x]]
At(s) == stage <= Len(Stages) /\ Stages[stage] = s /\ stage' = stage + 1

Metrics(w) == IF w \in Linear THEN {"r2", "AIC", "AICc", "BIC"}
              ELSE IF w \in Poiss THEN {"log", "AIC", "AICc", "BIC"}
              ELSE {"acc", "log", "AIC", "AICc", "BIC"}

Init == stage = 1 /\ cfg = <<>>
Next ==
  \/ At("which") /\ Set("which", Whichs)
  \/ At("preproc") /\ Set("preproc",
       {p \in [std : BOOLEAN, icpt : BOOLEAN] : cfg.which = "pyc" => p.icpt})
  \/ At("metric") /\ Set("metric", Metrics(cfg.which))
  \/ At("target") /\ Set("target", {"default", "default", "train", "test"})
  \/ At("boots") /\ Set("boots", {<<1, 1>>, <<3, 2>>, <<5, 4>>, <<4, 5>>, <<6, 3>>, <<2, 7>>, <<11, 1>>, <<24, 12>>})
  \/ At("thr") /\ Set("thr", {"one", "all", "half", "list", "ints", "spread", "floats", "down", "third"})
  \/ At("regs") /\ Set("regs", IF cfg.boots[1] > 20 THEN {1, 2} ELSE {1, 2, 5, 7, 9, 16})
  \/ At("shape") /\ Set("shape", {"plain", "scaled", "single", "discrete", "tall", "correlated", "tiny"}
                                \cup (IF cfg.which \in Linear THEN {"wide"} ELSE {})
                                \cup (IF cfg.boots[1] <= 3 /\ cfg.regs <= 2 THEN {"large"} ELSE {}))
  \/ At("strat") /\ Set("strat", BOOLEAN)
  \/ At("warm") /\ Set("warm", BOOLEAN)
  \/ At("out") /\ Set("out", IF cfg.which = "multinomial" THEN [shared : BOOLEAN, K : {3, 4, 5}, multi : {"auto"}]
                             ELSE IF cfg.which = "logistic" THEN [shared : BOOLEAN, K : {2}, multi : {"auto", "auto", "multinomial"}]
                             ELSE [shared : {TRUE}, K : {1}, multi : {"auto"}])
  \/ At("xrep") /\ Set("xrep", {"C", "C", "F", "strided", "readonly"}
                              \cup (IF cfg.which \in {"lasso", "enet"} \cup Logist /\ (cfg.preproc.std => ~cfg.preproc.icpt)
                                    THEN {"csr", "csc"} ELSE {}))
  \/ At("yrep") /\ Set("yrep", {"plain", "plain", "readonly"} \cup (IF cfg.which \in Linear THEN {"column"}
                               ELSE IF cfg.which \in Logist THEN {"names", "negative", "float"} ELSE {"int", "int32"}))
  \/ At("call") /\ Set("call", [seed : {"int", "state", "npint"}, verbose : BOOLEAN, twice : BOOLEAN])
  \/ At("done") /\ PrintT("SCN|" \o ToJson(cfg)) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
=============================================================================
