------------------------------ MODULE NmfTrace ------------------------------
(* Fits of UoI_NMF held to Nmf.                                             *)
EXTENDS TraceUtil
VARIABLE l

NR(c) == Len(c.ranks)
(***************************************************************************)
(* the factorizations: every bootstrap at every rank, and nothing else      *)
(***************************************************************************)
CallsOk(c) ==
  /\ Len(c.calls) = c.B * NR(c)
  /\ \A b \in 1..c.B, i \in 1..NR(c) :
       \E x \in DOMAIN c.calls : c.calls[x].k = c.ranks[i] /\ c.calls[x].rows = c.boots[b] /\ Len(c.calls[x].H) = c.ranks[i]
H(c) == Eager([b \in 1..c.B |-> [i \in 1..NR(c) |->
  LET x == CHOOSE x \in DOMAIN c.calls : c.calls[x].k = c.ranks[i] /\ c.calls[x].rows = c.boots[b]
  IN c.calls[x].H]])
Length(v) == RSqrt(RDot(v, v))
Unit(v) == LET s == Length(v) IN IF RIsZero(s) THEN v ELSE [j \in DOMAIN v |-> RDiv(v[j], s)]
Units(c) == LET h == H(c) IN Eager([b \in 1..c.B |-> [i \in 1..NR(c) |-> [k \in DOMAIN h[b][i] |-> Unit(h[b][i][k])]]])

(***************************************************************************)
(* dissimilarities and the rank                                             *)
(***************************************************************************)
MaxOf(s) == LET F[i \in 1..Len(s)] == IF i = 1 THEN RVal(s[1]) ELSE RMax(F[i - 1], s[i]) IN F[Len(s)]
Dissim(g, h) ==
  LET k == Len(g)
      D == Eager([i \in 1..k |-> [j \in 1..k |-> RDot(g[i], h[j])]])
  IN RSub(1, RDiv(RAdd(RSum([i \in 1..k |-> MaxOf(D[i])]), RSum([j \in 1..k |-> MaxOf([i \in 1..k |-> D[i][j]])])), 2 * k))
PairSeq(B) == LET n == (B * (B - 1)) \div 2
                  P == {x \in (1..B) \X (1..B) : x[1] < x[2]}
                  code(x) == Cardinality({y \in P : y[1] < x[1] \/ (y[1] = x[1] /\ y[2] <= x[2])})
              IN [i \in 1..n |-> CHOOSE x \in P : code(x) = i]
Gamma(c, u, i) == LET ps == PairSeq(c.B) IN
  RDiv(RSum([x \in DOMAIN ps |-> Dissim(u[ps[x][1]][i], u[ps[x][2]][i])]), Len(ps))
Gammas(c, u) == Eager([i \in 1..NR(c) |-> Gamma(c, u, i)])

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Rows(c, u, is) == SelectSeq(Flat([x \in 1..(c.B * Len(is)) |-> u[((x - 1) % c.B) + 1][is[((x - 1) \div c.B) + 1]]]),
                            LAMBDA v : \E j \in DOMAIN v : ~RIsZero(v[j]))
Same(v, w) == CloseSeq(v, w, "1e-9", "1e-12")
(* the same rows in any order                                               *)
Bag(s, t) == /\ Len(s) = Len(t)
             /\ \A i \in DOMAIN s : Cardinality({j \in DOMAIN s : Same(s[i], s[j])}) = Cardinality({j \in DOMAIN t : Same(s[i], t[j])})
(* the first minimum, up to the rounding of what is no tie                  *)
Best(g) == LET m == CHOOSE i \in DOMAIN g : (\A j \in DOMAIN g : RLeq(g[i], g[j])) /\ \A j \in 1..(i - 1) : ~RLeq(g[j], g[i])
           IN {m} \cup {i \in DOMAIN g : ~REq(g[i], g[m]) /\ RClose(g[i], g[m], "1e-12", "1e-14")}
Pre(c, u) ==
  IF ~c.dissim THEN C("C18.bases.all", Bag(Rows(c, u, [i \in 1..NR(c) |-> i]), c.pre))
  ELSE LET g == Gammas(c, u) IN
       Guard(Len(c.gamma) = NR(c) /\ CloseSeq(c.gamma, g, "1e-7", "1e-12"), "C18.dissimilarity",
         C("C18.rank", \E i \in Best(c.gamma) : Bag(Rows(c, u, <<i>>), c.pre)))

(***************************************************************************)
(* clusters and their consensus                                             *)
(***************************************************************************)
Insert(S) == LET n == Cardinality(S) IN [i \in 1..n |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]
Noise == 0 - 1
Ids(c) == Insert({c.labels[i] : i \in DOMAIN c.labels} \ {Noise})
Members(c, id) == LET S == {i \in DOMAIN c.labels : c.labels[i] = id} s == Insert(S) IN [i \in DOMAIN s |-> c.pre[s[i]]]
Median(s) == LET t == SortSeq(s, LAMBDA x, y : RLt(x, y)) n == Len(s) IN
  IF n % 2 = 1 THEN RVal(t[(n + 1) \div 2]) ELSE RDiv(RAdd(t[n \div 2], t[n \div 2 + 1]), 2)
Consensus(how, M, j) == LET s == [i \in DOMAIN M |-> M[i][j]] IN
  CASE how \in {"default", "mean"} -> RDiv(RSum(s), Len(s))
    [] how = "median" -> Median(s)
    [] how = "max" -> MaxOf(s)
    [] how = "squares" -> RDiv(RSum([i \in DOMAIN s |-> RMul(s[i], s[i])]), Len(s))
Component(c, id) == LET M == Members(c, id) IN Unit([j \in 1..c.p |-> Consensus(c.cons, M, j)])
Clusters(c) ==
  C("C18.clustered", c.seen = <<>> \/ CloseMat(c.seen, c.pre, "1e-12", "1e-15")) \cup
  Guard(Len(c.labels) = Len(c.pre) /\ c.labels = c.given, "C18.labels",
    Guard(Len(c.comps) = Len(Ids(c)), "C18.components.number",
      C("C18.components.consensus", \A i \in DOMAIN Ids(c) : CloseSeq(c.comps[i], Component(c, Ids(c)[i]), "1e-9", "1e-12"))))

Resamples(c) ==
  /\ Len(c.boots) = c.B
  /\ \A b \in DOMAIN c.boots : Len(c.boots[b]) = c.n /\ SeqToSet(c.boots[b]) \subseteq 1..c.n
Fit(c) ==
  C("C18.settings", \A i \in DOMAIN c.used : c.used[i] = c.asked) \cup
  Guard(Resamples(c), "C18.bootstraps",
    C("C18.bootstraps.replacement", c.n >= 10 /\ c.B >= 3 => \E b \in 1..c.B : ~NoDup(c.boots[b])) \cup
    C("C18.bootstraps.same", c.n >= 10 /\ c.B >= 3 => \E b \in 1..c.B : c.boots[b] # c.boots[1]) \cup
    Guard(CallsOk(c), "C18.factorizations", Pre(c, Units(c)))) \cup
  Clusters(c) \cup
  \* what the fitted model was given is what it uses
  C("C18.regressor", c.regressed)

(* every row is as likely as any other: six standard deviations             *)
Draws(c) ==
  C("C18.bootstraps.frequency", \A i \in 1..c.n :
     RLeq(RAbs(RSub(c.counts[i], c.B)), RMul(6, RSqrt(RMul(c.B, RSub(1, RDiv(1, c.n)))))) )

Clauses(c) ==
  IF c.exc # "" THEN IF c.case = "stub" /\ c.nothing THEN {} ELSE {"raises"}
  ELSE CASE c.case = "draws" -> Draws(c) [] OTHER -> Fit(c)

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
