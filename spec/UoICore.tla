------------------------------- MODULE UoICore -------------------------------
(***************************************************************************)
(* The combinatorial core of the Union of Intersections.                   *)
(*                                                                         *)
(* A selection array is a sequence (bootstraps) of sequences               *)
(* (regularization values) of sequences (coefficients) of 0/1, 1 meaning   *)
(* that the coefficient was nonzero.  A mask is a sequence of booleans.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* ---- thresholds ------------------------------------------------------ *)
(* A proportion num/den of n bootstraps, in whole bootstraps.             *)
ProportionToCount(numer, denom, n) == (numer * n) \div denom
ThresholdOk(t, n) == 1 <= t /\ t <= n

(* ---- intersection and union ------------------------------------------ *)
Hits(sel, r, f) == Cardinality({b \in DOMAIN sel : sel[b][r][f] = 1})
StableMask(sel, r, t, nf) == [f \in 1..nf |-> Hits(sel, r, f) >= t]

(* All stable masks, one per threshold and regularization value.          *)
StableMasks(sel, nr, nf, thresholds) ==
  {StableMask(sel, r, thresholds[i], nf) : r \in 1..nr, i \in DOMAIN thresholds}

(* A mask over K x p coefficients (class after class) shared by classes.  *)
SharedMask(mask, K, p) == [f \in 1..p |-> \E k \in 1..K : mask[(k - 1) * p + f]]

Supports(sel, nr, K, p, thresholds, shared) ==
  LET masks == StableMasks(sel, nr, K * p, thresholds)
  IN IF shared /\ K > 1 THEN {SharedMask(m, K, p) : m \in masks} ELSE masks

(* ---- the winner of a bootstrap ---------------------------------------- *)
(* The first index with the greatest element, for an order Leq.           *)
ArgMaxFirst(s, Leq(_, _)) ==
  CHOOSE i \in DOMAIN s :
    /\ \A j \in DOMAIN s : Leq(s[j], s[i])
    /\ \A j \in 1..(i - 1) : ~Leq(s[i], s[j])
ArgMinFirst(s, Leq(_, _)) ==
  CHOOSE i \in DOMAIN s :
    /\ \A j \in DOMAIN s : Leq(s[i], s[j])
    /\ \A j \in 1..(i - 1) : ~Leq(s[j], s[i])

(* ---- order statistics -------------------------------------------------- *)
(* Rank of position i in s, ties broken by position.                      *)
RankOf(s, i, Leq(_, _)) ==
  Cardinality({j \in DOMAIN s : ~Leq(s[i], s[j]) \/ (Leq(s[i], s[j]) /\ Leq(s[j], s[i]) /\ j <= i)})
Nth(s, k, Leq(_, _)) == s[CHOOSE i \in DOMAIN s : RankOf(s, i, Leq) = k]
(* The two middle elements (equal for an odd number), whose mean is the   *)
(* median.                                                                *)
Middle(s, Leq(_, _)) ==
  LET n == Len(s) IN <<Nth(s, (n + 1) \div 2, Leq), Nth(s, (n + 2) \div 2, Leq)>>

(* ---- splitting work over ranks (contiguous, sizes differ by at most 1,  *)
(* the larger parts first)                                                *)
Min2(a, b) == IF a <= b THEN a ELSE b
PartSize(n, size, rank) == (n \div size) + (IF rank < n % size THEN 1 ELSE 0)
PartStart(n, size, rank) == rank * (n \div size) + Min2(rank, n % size)
=============================================================================
