------------------------------ MODULE MCSplit ------------------------------
(***************************************************************************)
(* Exhaustive: all ways of splitting a few samples, two bootstraps, tasks  *)
(* executed in any order.  One split per bootstrap, drawn before the tasks, *)
(* is used by all tasks of the bootstrap; training and held-out rows       *)
(* partition the samples.                                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS N, Train, Boots, Tasks
VARIABLES split, used
vars == <<split, used>>
Init == split = [b \in 1..Boots |-> {}] /\ used = {}
Draw(b) == /\ split[b] = {}
           /\ \A c \in 1..(b - 1) : split[c] # {}
           /\ \E s \in SUBSET (1..N) : Cardinality(s) = Train /\ split' = [split EXCEPT ![b] = s]
           /\ UNCHANGED used
Run(b, t) == /\ \A c \in 1..Boots : split[c] # {}
             /\ ~\E u \in used : u.b = b /\ u.t = t
             /\ used' = used \cup {[b |-> b, t |-> t, fit |-> split[b], held |-> (1..N) \ split[b]]}
             /\ UNCHANGED split
Next == \E b \in 1..Boots : Draw(b) \/ \E t \in 1..Tasks : Run(b, t)
Spec == Init /\ [][Next]_vars
Partition == \A u \in used : u.fit \cap u.held = {} /\ u.fit \cup u.held = 1..N /\ Cardinality(u.fit) = Train
OneSplit == \A u, v \in used : u.b = v.b => u.fit = v.fit
=============================================================================
