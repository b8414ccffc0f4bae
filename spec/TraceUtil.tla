------------------------------ MODULE TraceUtil ------------------------------
(* Common vocabulary of the trace specifications.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real

(* One recorded case (or event) per line of the file the harness wrote.     *)
Trace == ndJsonDeserialize(IOEnv.TRACE)

(* A clause which fails puts its name into the set of failing clauses.      *)
C(name, holds) == IF holds THEN {} ELSE {name}

(* Clauses which can only be evaluated when the observation is well formed. *)
Guard(ok, name, clauses) == IF ok THEN clauses ELSE {name}

Has(r, f) == f \in DOMAIN r

(* The verdict on line `i`; printing is the only side effect.               *)
Report(i, bad) == \A c \in bad : PrintT("BAD|" \o ToString(i) \o "|" \o c)
Note(text) == PrintT("NOTE|" \o text)

IsSeq(s, n) == DOMAIN s = 1..n
IsMat(s, n, m) == DOMAIN s = 1..n /\ \A i \in 1..n : DOMAIN s[i] = 1..m
SeqToSet(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(SeqToSet(s)) = Len(s)
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b

(* Sequences of reals. *)
AllFinite(s) == \A i \in DOMAIN s : RIsFinite(s[i])
CloseSeq(s, t, rtol, atol) ==
  /\ DOMAIN s = DOMAIN t
  /\ \A i \in DOMAIN s : RClose(s[i], t[i], rtol, atol)
CloseMat(s, t, rtol, atol) ==
  /\ DOMAIN s = DOMAIN t
  /\ \A i \in DOMAIN s : CloseSeq(s[i], t[i], rtol, atol)
RMax(x, y) == IF RLeq(x, y) THEN y ELSE x
RIsZero(x) == REq(x, 0)
RSign(x) == IF RLt(0, x) THEN 1 ELSE IF RLt(x, 0) THEN -1 ELSE 0
=============================================================================
