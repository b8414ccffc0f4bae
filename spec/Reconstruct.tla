----------------------------- MODULE Reconstruct ----------------------------
(***************************************************************************)
(* Life of a fitted factorization: fits replace the bases and forget the   *)
(* error, transforms solve every row on its own and record the error of    *)
(* what they return, refused calls leave everything as it is.              *)
(* Solutions are uninterpreted: <<bases, row>>.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Rows, MaxOps
VARIABLES bases, err, got, asked, ops
vars == <<bases, err, got, asked, ops>>

Mats == UNION {[1..n -> Rows] : n \in 0..2}
None == <<>>
Init == bases = 0 /\ err = None /\ got = None /\ asked = None /\ ops = 0
Solve(X) == [i \in DOMAIN X |-> <<bases, X[i]>>]
More == ops < MaxOps /\ ops' = ops + 1
Fit(d) == More /\ bases' = d /\ err' = None /\ UNCHANGED <<got, asked>>
Transform(X, flag) == /\ More /\ bases # 0
                      /\ got' = Solve(X) /\ asked' = <<bases, X>>
                      /\ err' = IF flag THEN <<bases, X, Solve(X)>> ELSE err
                      /\ UNCHANGED bases
FitTransform(d, X) == /\ More /\ bases' = d
                      /\ LET W == [i \in DOMAIN X |-> <<d, X[i]>>] IN
                         got' = W /\ asked' = <<d, X>> /\ err' = <<d, X, W>>
Refused == More /\ UNCHANGED <<bases, err, got, asked>>
Next == \/ \E d \in 1..2 : Fit(d)
        \/ \E X \in Mats : \E flag \in BOOLEAN : Transform(X, flag)
        \/ \E d \in 1..2, X \in Mats : FitTransform(d, X)
        \/ Refused
Spec == Init /\ [][Next]_vars

(* an error is the one of the bases that are held                           *)
Current == err # None => err[1] = bases
(* a row's answer does not depend on the others                             *)
RowWise == got # None => \A i \in DOMAIN got : got[i] = <<asked[1], asked[2][i]>>
RefusedKeeps == [][Refused => UNCHANGED <<bases, err, got>>]_vars
ForgetsError == [][bases' # bases => err' = None \/ err'[1] = bases']_vars

(***************************************************************************)
(* scenarios: histories                                                     *)
(***************************************************************************)
Ops == {"transform", "transform int", "transform float32", "transform rows", "quiet", "inverse", "refit", "fit_transform",
        "wide", "narrow", "negative fit", "wrong weights"}
Scn == {<<f>> \o h : f \in {"fit", "fit_transform"}, h \in [1..2 -> Ops]}
Written == "OUT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({[ops |-> s] : s \in Scn}))
ASSUME Written
ScnNext == FALSE /\ UNCHANGED vars
ScnInit == bases = 0 /\ err = 0 /\ got = 0 /\ asked = 0 /\ ops = 0
=============================================================================
