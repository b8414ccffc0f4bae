----------------------------- MODULE Ownership ------------------------------
(***************************************************************************)
(* Who owns the arrays a call works on.                                    *)
(*                                                                         *)
(* Every array lives in a buffer.  A call gets buffers of the caller,      *)
(* every stage of it either passes a buffer on (a view), replaces it by a  *)
(* copy, or writes into it; at the end the model keeps a buffer as fitted  *)
(* attribute, which the caller may keep a reference to.  A stage that      *)
(* needs to write may do so only in a buffer which the call itself made:   *)
(* which buffer a variable is in depends on the options (standardization   *)
(* copies, conversions copy only if there is something to convert,         *)
(* indexing by integers copies, slicing does not, a warm start reuses what *)
(* was handed out).  `version` counts the writes into a buffer.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS N, MaxCalls
VARIABLES owner,    \* buffer -> "free" | "caller" | "call" | "model" | "handed"
          version,  \* buffer -> number of writes into it
          sealed,   \* buffer -> the version others rely on, or -1
          data,     \* the buffer the call's data is in
          coef,     \* the buffer of the call's coefficients (0: none yet)
          attr,     \* the buffer of the fitted attribute (0: not fitted)
          stage, opts, calls
vars == <<owner, version, sealed, data, coef, attr, stage, opts, calls>>

Bufs == 1..N
Options == [std : BOOLEAN, convert : BOOLEAN, resample : BOOLEAN, warm : BOOLEAN]
Free == {b \in Bufs : owner[b] = "free"}
New == CHOOSE b \in Free : \A c \in Free : b <= c

Init == /\ owner = [b \in Bufs |-> IF b = 1 THEN "caller" ELSE "free"]
        /\ version = [b \in Bufs |-> 0]
        /\ sealed = [b \in Bufs |-> IF b = 1 THEN 0 ELSE -1]
        /\ data = 0 /\ coef = 0 /\ attr = 0 /\ stage = "idle" /\ calls = 0
        /\ opts = [std |-> FALSE, convert |-> FALSE, resample |-> FALSE, warm |-> FALSE]

Call == /\ stage = "idle" /\ calls < MaxCalls
        /\ \E o \in Options : opts' = o
        /\ stage' = "prefit" /\ calls' = calls + 1 /\ data' = 1 /\ coef' = 0
        /\ UNCHANGED <<owner, version, sealed, attr>>
(* pass the data on, or replace it by a copy                                *)
Step(from, to, copies) ==
  /\ stage = from /\ stage' = to
  /\ IF copies THEN /\ Free # {} /\ owner' = [owner EXCEPT ![New] = "call"] /\ data' = New
               ELSE UNCHANGED <<owner, data>>
  /\ UNCHANGED <<version, sealed, coef, attr, opts, calls>>
PreFit == Step("prefit", "check", opts.std)
Check == Step("check", "boot", opts.convert)
Boot == Step("boot", "center", opts.resample)
(* centering, weighting: in place if the buffer is the call's own           *)
Center == /\ stage = "center" /\ stage' = "solve"
          /\ IF owner[data] = "call"
             THEN /\ version' = [version EXCEPT ![data] = @ + 1] /\ UNCHANGED <<owner, data>>
             ELSE /\ Free # {} /\ owner' = [owner EXCEPT ![New] = "call"] /\ data' = New
                  /\ UNCHANGED version
          /\ UNCHANGED <<sealed, coef, attr, opts, calls>>
(* the solver iterates in a buffer of its own, also from a warm start       *)
Solve == /\ stage = "solve" /\ stage' = "store" /\ Free # {}
         /\ owner' = [owner EXCEPT ![New] = "call"] /\ coef' = New
         /\ version' = [version EXCEPT ![New] = @ + 1]
         /\ UNCHANGED <<sealed, data, attr, opts, calls>>
(* rescaling in place, then the buffer is the model's                       *)
Store == /\ stage = "store" /\ stage' = "done"
         /\ version' = IF opts.std THEN [version EXCEPT ![coef] = @ + 1] ELSE version
         /\ owner' = [b \in Bufs |-> IF b = coef THEN "model"
                       ELSE IF owner[b] = "model" \/ (owner[b] = "call" /\ b # coef) THEN "free" ELSE owner[b]]
         /\ attr' = coef /\ coef' = 0 /\ data' = 0
         /\ UNCHANGED <<sealed, opts, calls>>
Return == /\ stage = "done" /\ stage' = "idle"
          /\ \/ UNCHANGED <<owner, sealed>>
             \/ /\ owner' = [owner EXCEPT ![attr] = "handed"]
                /\ sealed' = [sealed EXCEPT ![attr] = version[attr]]
          /\ UNCHANGED <<version, data, coef, attr, opts, calls>>
Next == Call \/ PreFit \/ Check \/ Boot \/ Center \/ Solve \/ Store \/ Return
Spec == Init /\ [][Next]_vars

(* what others hold is as they left it                                      *)
Kept == \A b \in Bufs : sealed[b] >= 0 => version[b] = sealed[b]
(* the model holds no buffer of the caller                                  *)
OwnState == attr # 0 => owner[attr] \in {"model", "handed"}
NeverWritten == [][\A b \in Bufs : owner[b] \in {"caller", "handed"} => version'[b] = version[b]]_vars

(***************************************************************************)
(* scenarios: entry points, memory layouts, types                           *)
(***************************************************************************)
Fits == {"lasso", "pyc", "enet", "logistic", "multinomial", "free", "binary2", "poisson", "poissoncd"}
Solvers == {"masked", "masked3", "maskedl1", "poissonglm", "poissonglmcd", "pyclasso", "lbfgs", "owlqn"}
Small == {"intercepts", "thresholds", "generators", "functions",
          "sweeps", "scores"}
Decomp == {"cur", "uoicur", "nmf", "nmfcd"}
Scn == [entry : Fits \cup Solvers \cup Small \cup Decomp,
        layout : {"C", "F", "strided", "reversed", "memmap", "overlap", "csr", "csc"},
        type : {"float64", "float32", "int64"},
        std : BOOLEAN, icpt : BOOLEAN, weights : BOOLEAN]
Takes == Fits \cup {"masked", "masked3", "maskedl1", "poissonglm", "poissonglmcd"}
Meaningful(s) ==
  /\ s.layout \in {"csr", "csc"} =>
       /\ s.entry \in {"lasso", "enet", "logistic", "multinomial", "masked", "masked3", "maskedl1", "uoicur", "cur"}
       /\ ~s.std /\ (s.entry \in {"lasso", "enet"} => ~s.icpt) /\ s.type # "int64"
  /\ s.entry \notin Takes => ~s.std
  /\ s.entry \notin Takes \cup {"pyclasso"} => s.icpt
  /\ s.entry \in {"pyc", "pyclasso"} => s.icpt
  /\ s.weights => s.entry \in {"masked", "masked3", "maskedl1", "poissonglm", "poissonglmcd", "uoicur"} \cup Fits
  /\ s.layout = "overlap" => s.entry \in Fits \cup {"masked", "poissonglm", "poissonglmcd", "pyclasso"}
  /\ (s.entry \in {"lbfgs", "owlqn"} \cup Small) => s.type # "float32"
  /\ s.entry \in {"logistic", "multinomial", "free", "binary2"} => s.type # "float32" \/ s.std
Written == "OUT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({s \in Scn : Meaningful(s)}))
ASSUME Written
ScnNext == FALSE /\ UNCHANGED vars
ScnInit == /\ owner = 0 /\ version = 0 /\ sealed = 0 /\ data = 0 /\ coef = 0 /\ attr = 0 /\ stage = "" /\ opts = 0 /\ calls = 0
=============================================================================
