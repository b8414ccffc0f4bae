------------------------------ MODULE CurTrace ------------------------------
(* Column subset selections held to Cur.                                    *)
EXTENDS TraceUtil
VARIABLE l

(***************************************************************************)
(* what every bootstrap selects for sure, and what it may select            *)
(***************************************************************************)
RECURSIVE NormTo(_, _, _, _)
NormTo(c, S, j, i) == IF i = 0 THEN 0 ELSE
  (IF i \in S /\ c.col[i] = j THEN c.w[i] * c.w[i] ELSE 0) + NormTo(c, S, j, i - 1)
Cols(c) == 1..c.p
UnitSure(c, S, k, level) ==
  LET n == [j \in Cols(c) |-> NormTo(c, S, j, c.n)] IN
  IF level # 1 THEN {} ELSE {j \in Cols(c) : n[j] > 0 /\ Cardinality({i \in Cols(c) \ {j} : n[i] >= n[j]}) < k}
UnitPossible(c, S, k, level) ==
  LET n == [j \in Cols(c) |-> NormTo(c, S, j, c.n)] IN
  IF level = 0 THEN {} ELSE {j \in Cols(c) : Cardinality({i \in Cols(c) : n[i] > n[j]}) < k}
(* leverage scores of any matrix, and whether its singular vectors are       *)
(* determined well enough                                                    *)
Prob(c, x, i, j) == RMul(c.cs[i], RDiv(c.lev[x][i][j], c.ks[i]))
LevSure(c, x, i) == IF ~c.sharp[x][i] THEN {} ELSE {j \in Cols(c) : RLeq("1.000001", Prob(c, x, i, j))}
LevPossible(c, x, i) == IF ~c.sharp[x][i] THEN Cols(c) ELSE {j \in Cols(c) : RLeq("1e-9", Prob(c, x, i, j))}

NB(c) == Len(c.boots)
K(c) == 1..Len(c.ks)
Sure(c) == Eager([x \in 1..NB(c) |-> [i \in K(c) |->
  IF c.unit THEN UnitSure(c, SeqToSet(c.boots[x]), c.ks[i], c.level[i]) ELSE LevSure(c, x, i)]])
Possible(c) == Eager([x \in 1..NB(c) |-> [i \in K(c) |->
  IF c.unit THEN UnitPossible(c, SeqToSet(c.boots[x]), c.ks[i], c.level[i]) ELSE LevPossible(c, x, i)]])
Often(c, sel, t) == {j \in Cols(c) : \E i \in K(c) : Cardinality({x \in 1..NB(c) : j \in sel[x][i]}) >= t}

(***************************************************************************)
(* the bootstraps: boots_frac of the rows, without repetition               *)
(***************************************************************************)
Size(c) == RMul(c.frac, c.n)
Boots(c) ==
  C("C17.boots.number", NB(c) = c.B) \cup
  C("C17.boots.rows", \A x \in 1..NB(c) : /\ NoDup(c.boots[x])
                                          /\ SeqToSet(c.boots[x]) \subseteq 1..c.n
                                          /\ RLt(RAbs(RSub(Len(c.boots[x]), Size(c))), "1.000001")) \cup
  C("C17.boots.same", (RLt(c.frac, "0.75") /\ c.n >= 12 /\ NB(c) >= 3) =>
                        \E x, y \in 1..NB(c) : SeqToSet(c.boots[x]) # SeqToSet(c.boots[y])) \cup
  C("C17.boots.stratify", c.strata # <<>> => \A x \in 1..NB(c), g \in SeqToSet(c.strata) :
       LET all == Cardinality({i \in 1..c.n : c.strata[i] = g}) IN
       RLt(RAbs(RSub(Cardinality({i \in SeqToSet(c.boots[x]) : c.strata[i] = g}), RMul(c.frac, all))), "1.000001"))

(* entries are small integers: the same numbers in the same order           *)
Columns(X, idx, got) ==
  IF idx = <<>> THEN got = <<>> \/ \A i \in DOMAIN got : got[i] = <<>>
  ELSE /\ DOMAIN got = DOMAIN X
       /\ \A i \in DOMAIN X : /\ DOMAIN got[i] = DOMAIN idx
                              /\ \A j \in DOMAIN idx : REq(got[i][j], X[i][idx[j]])
Common(c) ==
  LET idx == c.result IN
  C("C17.settings", \A i \in DOMAIN c.used : c.used[i] = c.asked) \cup
  Guard(SeqToSet(idx) \subseteq Cols(c) /\ NoDup(idx), "C17.indices",
    C("C17.components", Columns(c.X, idx, c.components)) \cup
    C("C17.transform", Columns(c.Z, idx, c.transformed)) \cup
    C("C17.fit_transform", c.fittransformed))

Uoi(c) ==
  Common(c) \cup
  C("C17.sorted", \A i \in 1..(Len(c.result) - 1) : c.result[i] < c.result[i + 1]) \cup
  Guard(Boots(c) = {}, "C17.boots", 
    LET got == SeqToSet(c.result) IN
    C("C17.selected", Often(c, Sure(c), c.thr) \subseteq got) \cup
    C("C17.unselected", got \subseteq Often(c, Possible(c), c.thr))) \cup Boots(c)

Cur(c) ==
  LET got == SeqToSet(c.result) IN
  Common(c) \cup
  C("C17.cur.selected", Sure(c)[1][1] \subseteq got) \cup
  C("C17.cur.unselected", got \subseteq Possible(c)[1][1]) \cup
  C("C17.cur.order", (c.unit \/ c.sharp[1][1]) =>
       \A i \in 1..(Len(c.result) - 1) :
         IF c.unit THEN TRUE
         ELSE LET a == c.lev[1][1][c.result[i]] b == c.lev[1][1][c.result[i + 1]]
              IN RLeq(a, RAdd(b, "1e-7")))

(***************************************************************************)
(* frequencies: blocks of columns of the same leverage.  The number of      *)
(* columns of a block which are selected is a sum of independent Bernoulli  *)
(* variables; six standard deviations are allowed for.                      *)
(***************************************************************************)
RECURSIVE Choose(_, _), Pow(_, _)
Choose(n, k) == IF k = 0 THEN RVal(1) ELSE RDiv(RMul(Choose(n - 1, k - 1), n), k)
Pow(q, n) == IF n = 0 THEN RVal(1) ELSE RMul(q, Pow(q, n - 1))
AtLeast(q, B, t) == RSum([i \in 1..(B - t + 1) |->
   LET m == t + i - 1 IN RMul(Choose(B, m), RMul(Pow(q, m), Pow(RSub(1, q), B - m)))])
RMin(x, y) == IF RLeq(x, y) THEN x ELSE y
Prob1(c, g, i) == IF g > c.ks[i] THEN RVal(0) ELSE RMin(1, RDiv(c.cs[i], c.ks[i] * c.sizes[g]))
Frequency(c) ==
  UNION {LET ts == [i \in K(c) |-> AtLeast(Prob1(c, g, i), c.B, c.thr)]
             lo == IF Len(ts) = 1 THEN ts[1] ELSE LET F[i \in K(c)] == IF i = 1 THEN ts[1] ELSE RMax(F[i - 1], ts[i]) IN F[Len(ts)]
             hi == RMin(1, RSum(ts))
             dev(q) == RAdd(RMul(6, RSqrt(RMax(RMul(c.sizes[g], RMul(q, RSub(1, q))), 0))), 8)
             zero == RLeq(hi, "1e-12")
         IN C("C17.frequency.low", RLeq(RSub(RMul(c.sizes[g], lo), dev(lo)), c.counts[g])) \cup
            C("C17.frequency.high", IF zero THEN c.counts[g] = 0 ELSE RLeq(c.counts[g], RAdd(RMul(c.sizes[g], hi), dev(hi))))
         : g \in 1..Len(c.sizes)}

Clauses(c) ==
  IF c.exc # "" THEN {"raises"}
  ELSE CASE c.case = "uoi" -> Uoi(c)
         [] c.case = "cur" -> Cur(c)
         [] OTHER -> Frequency(c)

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
