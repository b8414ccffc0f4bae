------------------------------- MODULE MCCore -------------------------------
(***************************************************************************)
(* Exhaustive: all small selection arrays.  A behaviour fills in the array *)
(* bootstrap by bootstrap (a sweep each, in any order, as distributed      *)
(* ranks do) and then intersects.  The laws below are checked for every    *)
(* array; the arrays are also written out as scenarios for the code.       *)
(***************************************************************************)
EXTENDS UoICore, TLC, Json, IOUtils, SequencesExt

VARIABLES dim,   \* dimensions
          sel,   \* bootstrap -> sweep (or <<>>)
          sup    \* the supports, in the end
vars == <<dim, sel, sup>>

Dims == {[B |-> 2, R |-> 2, F |-> 2, K |-> 1, thr |-> t, shared |-> TRUE] : t \in {<<1>>, <<2>>, <<1, 2>>}}
   \cup {[B |-> 3, R |-> 1, F |-> 2, K |-> 1, thr |-> t, shared |-> TRUE] : t \in {<<1>>, <<2>>, <<3>>, <<2, 3>>, <<3, 1>>}}
   \cup {[B |-> 2, R |-> 1, F |-> 4, K |-> 2, thr |-> t, shared |-> s] : t \in {<<1>>, <<2>>, <<2, 1>>}, s \in BOOLEAN}
Sweeps(d) == [1..d.R -> [1..d.F -> {0, 1}]]
Arrays(d) == [1..d.B -> Sweeps(d)]

Init == /\ dim \in Dims
        /\ sel = [b \in 1..dim.B |-> <<>>]
        /\ sup = {}
Sweep(b) == /\ sel[b] = <<>>
            /\ \E s \in Sweeps(dim) : sel' = [sel EXCEPT ![b] = s]
            /\ UNCHANGED <<dim, sup>>
Full == \A b \in 1..dim.B : sel[b] # <<>>
P == dim.F \div dim.K
Sups(s, thr, shared) == Supports(s, dim.R, dim.K, P, thr, shared)
Intersect == /\ Full /\ sup = {}
             /\ sup' = Sups(sel, dim.thr, dim.shared)
             /\ UNCHANGED <<dim, sel>>
Next == (\E b \in 1..dim.B : Sweep(b)) \/ Intersect
Spec == Init /\ [][Next]_vars

Leq(m, n) == \A f \in DOMAIN m : m[f] => n[f]
Done == sup # {}
(* at most one support per threshold and value, at least one                *)
Count == Done => Cardinality(sup) \in 1..(dim.R * Len(dim.thr))
(* a higher threshold selects fewer features                                *)
Monotone == Full => \A r \in 1..dim.R : \A t \in 1..(dim.B - 1) :
              Leq(StableMask(sel, r, t + 1, dim.F), StableMask(sel, r, t, dim.F))
(* the strictest threshold is the intersection, the weakest the union       *)
Extremes == Full => \A r \in 1..dim.R : \A f \in 1..dim.F :
   /\ StableMask(sel, r, dim.B, dim.F)[f] = (\A b \in 1..dim.B : sel[b][r][f] = 1)
   /\ StableMask(sel, r, 1, dim.F)[f] = (\E b \in 1..dim.B : sel[b][r][f] = 1)
(* sharing a support only ever adds features                                *)
Shared == Done /\ dim.K > 1 => \A m \in Sups(sel, dim.thr, FALSE) :
   \E s \in Sups(sel, dim.thr, TRUE) : \A f \in 1..dim.F : m[f] => s[((f - 1) % P) + 1]
(* thresholds in another order give the same supports                       *)
OrderFree == Done => sup = Sups(sel, [i \in 1..Len(dim.thr) |-> dim.thr[Len(dim.thr) + 1 - i]], dim.shared)

Scenarios == UNION {{[dim |-> d, sel |-> a] : a \in Arrays(d)} : d \in Dims}
ScnInit == dim = <<>> /\ sel = <<>> /\ sup = {}
ScnNext == FALSE /\ UNCHANGED vars
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Scenarios))
=============================================================================
