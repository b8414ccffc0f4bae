----------------------------- MODULE Degenerate -----------------------------
(***************************************************************************)
(* A fit of degenerate data.  A constant response is answered with the     *)
(* null model before anything is drawn; everything else runs through       *)
(* selection and estimation, whatever the bootstraps look like: a          *)
(* bootstrap may have a constant response, a support may be empty.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS N, Y, B
VARIABLES pc, y, draws, sel, supports, coef, b
vars == <<pc, y, draws, sel, supports, coef, b>>

Rows == 1..N
Size == N - 1                           \* rows of a bootstrap
Boots == {S \in SUBSET Rows : Cardinality(S) = Size}
Constant(S) == \A i, j \in S : y[i] = y[j]
None == 0 - 1
Sum(S) == LET F[T \in SUBSET Rows] == IF T = {} THEN 0 ELSE LET i == CHOOSE i \in T : TRUE IN y[i] + F[T \ {i}] IN F[S]

Init == /\ pc = "start" /\ y \in [Rows -> Y]
        /\ draws = <<>> /\ sel = <<>> /\ supports = {} /\ coef = None /\ b = None
(* one feature: it is selected or not by every bootstrap                    *)
Null == /\ pc = "start" /\ Constant(Rows)
        /\ coef' = 0 /\ b' = y[1] /\ pc' = "done"
        /\ UNCHANGED <<y, draws, sel, supports>>
Draw == /\ pc \in {"start", "select"} /\ ~Constant(Rows) /\ Len(sel) < B
        /\ \E S \in Boots : /\ draws' = Append(draws, S)
                            /\ \E s \in (IF Constant(S) THEN {0} ELSE {0, 1}) : sel' = Append(sel, s)
        /\ pc' = "select" /\ UNCHANGED <<y, supports, coef, b>>
Intersect == /\ pc = "select" /\ Len(sel) = B
             /\ supports' = {IF \A i \in 1..B : sel[i] = 1 THEN {1} ELSE {}}
             /\ pc' = "estimate" /\ UNCHANGED <<y, draws, sel, coef, b>>
Estimate == /\ pc = "estimate"
            /\ \E S \in Boots :
                 /\ draws' = Append(draws, S)
                 /\ coef' \in (IF supports = {{}} \/ Constant(S) THEN {0} ELSE {0 - 1, 0, 1})
            /\ b' = Sum(Rows) \div N
            /\ pc' = "done" /\ UNCHANGED <<y, sel, supports>>
Stop == pc = "done" /\ UNCHANGED vars
Next == Null \/ Draw \/ Intersect \/ Estimate \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NothingDrawn == Constant(Rows) => draws = <<>> /\ supports = {}
NullModel == pc = "done" /\ Constant(Rows) => coef = 0 /\ \A i \in Rows : coef + b = y[i]
Shape == pc = "done" /\ ~Constant(Rows) => supports \in SUBSET SUBSET {1} /\ supports # {} /\ Len(draws) = B + 1
EmptySupport == pc = "done" /\ supports = {{}} => coef = 0
Ends == <>(pc = "done")

(***************************************************************************)
(* scenarios                                                                *)
(***************************************************************************)
Fams == {"lasso", "pyc", "enet", "logistic", "binary2", "multinomial", "free", "poisson", "poissoncd"}
Kinds == {"constfeature", "zerofeature", "twins", "onefeature", "wide", "onereg", "oneboot", "rare", "tiny", "onetest", "allthree", "nearconst", "small"}
Values == {"zero", "one", "three", "tenth", "big", "negative", "text", "tiny"}
Scn == [case : {"fit"}, fam : Fams, kind : Kinds, std : BOOLEAN, icpt : BOOLEAN] \cup
       [case : {"constant"}, fam : Fams, kind : Values, std : BOOLEAN, icpt : BOOLEAN]
Meaningful(s) ==
  /\ s.fam = "pyc" => s.icpt
  /\ s.kind \in {"nearconst", "small"} => s.fam \in {"lasso", "pyc", "enet"} /\ (s.kind = "nearconst" => s.icpt)
  /\ s.case = "constant" =>
       CASE s.fam \in {"lasso", "pyc", "enet"} -> s.kind # "text"
         [] s.fam \in {"poisson", "poissoncd"} -> s.kind \in {"zero", "one", "three"}
         [] OTHER -> s.kind # "tiny"
Written == "OUT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({s \in Scn : Meaningful(s)}))
ASSUME Written
ScnNext == FALSE /\ UNCHANGED vars
ScnInit == pc = "" /\ y = 0 /\ draws = 0 /\ sel = 0 /\ supports = 0 /\ coef = 0 /\ b = 0
=============================================================================
