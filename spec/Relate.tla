------------------------------- MODULE Relate -------------------------------
(***************************************************************************)
(* Changes of units and names, and how models and predictions follow them. *)
(* New feature j is sign[j] * scale[j] * (old feature perm[j]) + shift[j], *)
(* the new response is ys * y + yt.  Explored here on small integers       *)
(* (coefficients over a common denominator); RelateTrace applies the same  *)
(* action to recorded fits.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS P, Scales, Shifts
VARIABLES w, b, t, u      \* a model, two changes
vars == <<w, b, t, u>>

Den == 16       \* coefficients are w[j] / Den
Feat == 1..P
Perms == {f \in [Feat -> Feat] : \A i, j \in Feat : i # j => f[i] # f[j]}
Changes == [perm : Perms, sign : [Feat -> {1, -1}], scale : [Feat -> Scales], shift : [Feat -> Shifts],
            ys : {1, 2}, yt : {0, 3}]
OnX(c, x) == [j \in Feat |-> c.sign[j] * c.scale[j] * x[c.perm[j]] + c.shift[j]]
OnY(c, y) == c.ys * y + c.yt * Den                  \* responses over Den
OnW(c, v) == [j \in Feat |-> c.sign[j] * ((c.ys * v[c.perm[j]]) \div c.scale[j])]
Dot(v, x) == LET S[n \in 0..P] == IF n = 0 THEN 0 ELSE S[n - 1] + v[n] * x[n] IN S[P]
OnB(c, v, i) == c.ys * i + c.yt * Den - Dot(OnW(c, v), c.shift)
Predict(v, i, x) == Dot(v, x) + i
Support(v) == {j \in Feat : v[j] # 0}
OnSupport(c, S) == {j \in Feat : c.perm[j] \in S}
(* first c, then d                                                          *)
Then(c, d) == [perm |-> [j \in Feat |-> c.perm[d.perm[j]]],
               sign |-> [j \in Feat |-> d.sign[j] * c.sign[d.perm[j]]],
               scale |-> [j \in Feat |-> d.scale[j] * c.scale[d.perm[j]]],
               shift |-> [j \in Feat |-> d.sign[j] * d.scale[j] * c.shift[d.perm[j]] + d.shift[j]],
               ys |-> d.ys * c.ys, yt |-> d.ys * c.yt + d.yt]

Id == [perm |-> [j \in Feat |-> j], sign |-> [j \in Feat |-> 1], scale |-> [j \in Feat |-> 1],
       shift |-> [j \in Feat |-> 0], ys |-> 1, yt |-> 0]
Single == {c \in Changes : Cardinality({f \in DOMAIN Id : c[f] # Id[f]}) <= 1}
Coefs == {v * Den : v \in {-1, 0, 1}}
Init == w \in [Feat -> Coefs] /\ b = Den /\ t \in Changes /\ u \in Single
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Points == [Feat -> {-1, 2}]
Follows == \A x \in Points : Predict(OnW(t, w), OnB(t, w, b), OnX(t, x)) = OnY(t, Predict(w, b, x))
Supports == Support(OnW(t, w)) = OnSupport(t, Support(w))
Composes ==
  /\ OnW(u, OnW(t, w)) = OnW(Then(t, u), w)
  /\ OnB(u, OnW(t, w), OnB(t, w, b)) = OnB(Then(t, u), w, b)
  /\ \A x \in Points : OnX(u, OnX(t, x)) = OnX(Then(t, u), x)

(***************************************************************************)
(* scenarios: kinds of changes for the implementation                      *)
(***************************************************************************)
Kinds == [perm : {"id", "reverse", "rotate", "swap"}, sign : {"none", "first", "all", "mixed"},
          scale : {"one", "pow2", "far", "any"}, shift : {"none", "small", "big"},
          ys : {"one", "pow2", "neg", "any"}, yt : {"none", "some"}]
Written == "OUT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.OUT, SetToSeq(Kinds))
ASSUME Written
ScnInit == w = 0 /\ b = 0 /\ t = 0 /\ u = 0
ScnNext == FALSE /\ UNCHANGED vars
=============================================================================
