------------------------------ MODULE Generate -------------------------------
(***************************************************************************)
(* The data generators: a design is drawn, coefficients are drawn and      *)
(* masked or are the caller's, an intercept is drawn if there is to be     *)
(* one, and the response is drawn from the linear predictor of what is     *)
(* then returned.  Values are 0 (zero), 1.. (nonzero draws), the predictor *)
(* is the pair of what it was computed from.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxP, MaxK
VARIABLES p, K, inf, shared, icpt, given, W, b, eta, phase
vars == <<p, K, inf, shared, icpt, given, W, b, eta, phase>>

Masks(m, k) == {M \in SUBSET (1..m) : Cardinality(M) = k}
Init == /\ p \in 1..MaxP /\ K \in 1..MaxK /\ inf \in 0..MaxP /\ inf <= p
        /\ shared \in BOOLEAN /\ icpt \in BOOLEAN /\ given \in {<<>>} \cup (IF K = 1 THEN [1..p -> {0, 7}] ELSE {})
        /\ W = <<>> /\ b = 0 /\ eta = <<>> /\ phase = "design"
Coefficients ==
  /\ phase = "design" /\ phase' = "intercept"
  /\ IF given # <<>> THEN W' = <<given>>
     ELSE IF shared THEN \E M \in Masks(p, inf) : W' = [k \in 1..K |-> [j \in 1..p |-> IF j \in M THEN k ELSE 0]]
     ELSE \E Ms \in [1..K -> Masks(p, inf)] : W' = [k \in 1..K |-> [j \in 1..p |-> IF j \in Ms[k] THEN k ELSE 0]]
  /\ UNCHANGED <<p, K, inf, shared, icpt, given, b, eta>>
Intercept == /\ phase = "intercept" /\ phase' = "response" /\ b' = (IF icpt THEN 9 ELSE 0)
             /\ UNCHANGED <<p, K, inf, shared, icpt, given, W, eta>>
Response == /\ phase = "response" /\ phase' = "returned" /\ eta' = <<W, b>>
            /\ UNCHANGED <<p, K, inf, shared, icpt, given, W, b>>
Next == Coefficients \/ Intercept \/ Response
Spec == Init /\ [][Next]_vars

Support(w) == {j \in DOMAIN w : w[j] # 0}
Returned == phase = "returned"
Informative == Returned /\ given = <<>> => \A k \in 1..K : Cardinality(Support(W[k])) = inf
Shared == Returned /\ shared /\ given = <<>> => \A k \in 1..K : Support(W[k]) = Support(W[1])
Given == Returned /\ given # <<>> => W = <<given>>
ZeroIntercept == Returned /\ ~icpt => b = 0
FromReturned == Returned => eta = <<W, b>>

(***************************************************************************)
(* scenarios                                                                *)
(***************************************************************************)
Scn == [gen : {"linear", "poisson", "classes"}, p : {1, 2, 3, 6}, inf : {"none", "one", "half", "all"}, icpt : BOOLEAN,
        given : BOOLEAN, K : {2, 3, 4}, shared : BOOLEAN, noise : {"none", "little", "default", "much"},
        where : {"default", "zero", "negative"}, rng : {"int", "state", "None", "numpy"}]
Meaningful(s) ==
  /\ s.gen # "classes" => s.K = 2 /\ ~s.shared
  /\ s.gen = "classes" => ~s.given /\ s.p > 1 /\ s.where = "default"
  /\ s.gen # "linear" => s.noise = "default"
  /\ s.inf = "half" => s.p > 2
  /\ s.given => (s.inf = "half" \/ (s.p = 1 /\ s.inf = "one"))
  /\ s.p = 1 => s.inf # "all"
Written == "OUT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({s \in Scn : Meaningful(s)}))
ASSUME Written
ScnNext == FALSE /\ UNCHANGED vars
ScnInit == /\ p = 0 /\ K = 0 /\ inf = 0 /\ shared = 0 /\ icpt = 0 /\ given = 0 /\ W = 0 /\ b = 0 /\ eta = 0 /\ phase = ""
=============================================================================
