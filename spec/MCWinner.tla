------------------------------ MODULE MCWinner ------------------------------
(***************************************************************************)
(* Exhaustive: all score tables and estimates of a small estimation stage. *)
(* Tasks (bootstrap, support) are executed in any order; afterwards the    *)
(* winners and the median are those of the sequential definition.          *)
(***************************************************************************)
EXTENDS UoICore, TLC
CONSTANTS B, S, V
VARIABLES score, done, win
vars == <<score, done, win>>
Tasks == (1..B) \X (1..S)
IntLeq(a, b) == a <= b
Init == score = [t \in {} |-> 0] /\ done = FALSE /\ win = <<>>
Run(t) == /\ t \notin DOMAIN score
          /\ \E v \in 0..V : score' = [u \in DOMAIN score \cup {t} |-> IF u = t THEN v ELSE score[u]]
          /\ UNCHANGED <<done, win>>
Row(b) == [s \in 1..S |-> score[<<b, s>>]]
Choose == /\ DOMAIN score = Tasks /\ ~done
          /\ done' = TRUE
          /\ win' = [b \in 1..B |-> ArgMaxFirst(Row(b), IntLeq)]
          /\ UNCHANGED score
Next == (\E t \in Tasks : Run(t)) \/ Choose
Spec == Init /\ [][Next]_vars
Best == done => \A b \in 1..B : \A s \in 1..S :
          /\ Row(b)[s] <= Row(b)[win[b]]
          /\ s < win[b] => Row(b)[s] < Row(b)[win[b]]
(* the median of the winners' scores lies between its middle elements       *)
MedianOk == done =>
  LET w == [b \in 1..B |-> Row(b)[win[b]]]
      m == Middle(w, IntLeq)
      below(x) == Cardinality({b \in 1..B : w[b] <= x})
      above(x) == Cardinality({b \in 1..B : w[b] >= x})
  IN /\ m[1] <= m[2]
     /\ 2 * below(m[2]) >= B /\ 2 * above(m[1]) >= B
     /\ B % 2 = 1 => m[1] = m[2]
=============================================================================
