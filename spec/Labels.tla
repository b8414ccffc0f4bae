------------------------------- MODULE Labels -------------------------------
(***************************************************************************)
(* Class labels and the indices the classifiers work with.  Any renaming   *)
(* of the labels which keeps their order leaves everything but the names   *)
(* in place; one which does not permutes the classes.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Names, Renamed
VARIABLES y, f, score        \* responses, a renaming, scores of one sample
vars == <<y, f, score>>

Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A z \in S : x <= z IN <<m>> \o Sorted(S \ {m})
Classes(s) == Sorted(Range(s))
Index(s) == [i \in DOMAIN s |-> CHOOSE k \in 1..Len(Classes(s)) : Classes(s)[k] = s[i]]
Rename(g, s) == [i \in DOMAIN s |-> g[s[i]]]
Keeps(g) == \A a, b \in Names : a < b => g[a] < g[b]
Injective(g) == \A a, b \in Names : a # b => g[a] # g[b]

(* the first class of the highest score                                     *)
Mode(sc) == CHOOSE k \in DOMAIN sc : \A j \in DOMAIN sc : (j < k => sc[j] < sc[k]) /\ sc[j] <= sc[k]
Predict(s, sc) == Classes(s)[Mode(sc)]
K == Len(Classes(y))

Init == /\ y \in [1..N -> Names]
        /\ f \in {g \in [Names -> Renamed] : Injective(g)}
        /\ score \in [1..Cardinality(Range(y)) -> 0..2]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

IndicesStay == Keeps(f) => Index(Rename(f, y)) = Index(y)
ClassesFollow == Keeps(f) => Classes(Rename(f, y)) = [k \in 1..K |-> f[Classes(y)[k]]]
PredictionsFollow == Keeps(f) => Predict(Rename(f, y), score) = f[Predict(y, score)]
RoundTrip == \A i \in 1..N : Classes(y)[Index(y)[i]] = y[i]
Proper == Predict(y, score) \in Range(y)
(* exchanging two classes exchanges their indices                           *)
Reversed == K = 2 /\ f[Classes(y)[1]] > f[Classes(y)[2]] =>
  \A i \in 1..N : Index(Rename(f, y))[i] = 3 - Index(y)[i]
(* of any renaming: indices are permuted, always in the same way            *)
Permuted == \E pi \in [1..K -> 1..K] : \A i \in 1..N : Index(Rename(f, y))[i] = pi[Index(y)[i]]
=============================================================================
