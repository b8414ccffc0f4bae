----------------------------- MODULE RelateTrace ----------------------------
(***************************************************************************)
(* Pairs of recorded fits, of a data set and of the same data in other     *)
(* units, another order, with other labels or in another representation:   *)
(* the second one is the first one under the action of Relate.             *)
(*                                                                         *)
(* Sweeps agree to the tolerance of the solver.  What is decided by them   *)
(* (supports, winners, and with them the model) has to agree if the sweeps *)
(* have the same zero pattern and the best scores are no draw - or anyhow, *)
(* if nothing is rounded differently (`exact`).                            *)
(***************************************************************************)
EXTENDS TraceUtil
VARIABLE l

RECURSIVE RMaxAbs(_)
RMaxAbs(s) == IF s = <<>> THEN RVal(0) ELSE RMax(RAbs(Head(s)), RMaxAbs(Tail(s)))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
ArgMax(row) == CHOOSE i \in 1..Len(row) : \A j \in 1..Len(row) :
                 IF j < i THEN RLt(row[j], row[i]) ELSE RLeq(row[j], row[i])
(* by how much the largest entry of a row is the largest                    *)
Margin(row) == LET m == ArgMax(row) IN
  IF Len(row) = 1 THEN RVal(1) ELSE RSub(row[m], RMaxAbs([j \in 1..Len(row) - 1 |-> row[IF j < m THEN j ELSE j + 1]]))
Softmax(eta) ==
  LET m == eta[ArgMax(eta)]
      e == Eager([k \in 1..Len(eta) |-> RExp(RSub(eta[k], m))])
      t == RSum(e)
  IN [k \in 1..Len(eta) |-> RDiv(e[k], t)]

(***************************************************************************)
(* predictions are the link of X coef + intercept                          *)
(***************************************************************************)
Link(r, K, ytype) ==
  LET p == Len(r.W) \div K
      n == Len(r.X)
      eta == [i \in 1..n |-> Eager([k \in 1..K |->
                RAdd(r.b[k], RDot([j \in 1..p |-> r.W[(k - 1) * p + j]], r.X[i]))])]
      big(i) == RMaxAbs(eta[i])
  IN CASE ytype = "real" ->
            \A i \in 1..n : RClose(r.pred[i], eta[i][1], "1e-9",
               RMul("1e-11", RAdd(RAbs(r.b[1]), RSum([j \in 1..p |-> RAbs(RMul(r.W[j], r.X[i][j]))]))))
       [] ytype = "count" ->
            \A i \in 1..n :
               LET mu == RExp(eta[i][1]) IN
               /\ RClose(r.mean[i], mu, "1e-7", "1e-12")
               /\ \/ REq(r.pred[i], RFloor(mu))
                  \/ RClose(RFloor(RAdd(mu, "0.5")), mu, "1e-7", "1e-7") /\ RLeq(RAbs(RSub(r.pred[i], mu)), "1.000001")
                  \/ RLt("1e6", mu) /\ RClose(r.pred[i], mu, "1e-6", 1)
       [] OTHER ->
            \A i \in 1..n :
               LET pr == IF K = 1 THEN Softmax(<<RVal(0), eta[i][1]>>) ELSE Softmax(eta[i]) IN
               /\ CloseSeq(r.proba[i], pr, "1e-7", "1e-9")
               /\ r.pred[i] = ArgMax(pr) \/ RLeq(Margin(pr), "1e-7")
(* probabilities are a distribution whose mode is predicted                 *)
Distribution(r, labels) ==
  /\ r.classes = [k \in 1..labels |-> k]
  /\ \A i \in 1..Len(r.proba) :
       /\ Len(r.proba[i]) = labels
       /\ \A k \in 1..labels : RLeq(0, r.proba[i][k])
       /\ RClose(RSum(r.proba[i]), 1, "1e-9", "1e-9")
       /\ r.pred[i] \in 1..labels
       /\ \A k \in 1..labels : RLeq(r.proba[i][k], RAdd("1e-12", r.proba[i][r.pred[i]]))

(***************************************************************************)
(* the second fit follows the first one                                    *)
(***************************************************************************)
Follows(case) ==
  LET c == case.change
      f == case.first
      s == case.second
      p == case.p
      K == case.K
      tol == case.tol
      etol == case.etol
      rev == c.reversed                 \* the two classes changed places
      ys == IF rev THEN RMul("-1", c.ys) ELSE c.ys
      IdxK(i) == ((i - 1) \div p) + 1
      IdxJ(i) == ((i - 1) % p) + 1
      At(row, i) == row[(IdxK(i) - 1) * p + c.perm[IdxJ(i)] + 1]
      Sgn(j) == IF rev THEN RMul("-1", c.sign[j]) ELSE RVal(c.sign[j])
      ysg == IF RLt(c.ys, 0) THEN RVal("-1") ELSE RVal(1)
      yab == RAbs(c.ys)
      (* sweeps are in the units of the solver                              *)
      MapSweep(row) == [i \in 1..K * p |-> RMul(RMul(ysg, Sgn(IdxJ(i))), At(row, i))]
      W2 == Eager([i \in 1..K * p |-> RMul(c.ys, RDiv(RMul(Sgn(IdxJ(i)), At(f.W, i)), c.scale[IdxJ(i)]))])
      MapSup(row) == [i \in 1..Len(row) |-> row[((i - 1) \div p) * p + c.perm[IdxJ(i)] + 1]]
      shift(k) == RSum([j \in 1..p |-> RMul(W2[(k - 1) * p + j], c.shift[j])])
      B2 == Eager([k \in 1..K |-> RSub(RAdd(RMul(ys, f.b[k]), c.yt), shift(k))])
      size == Eager([k \in 1..K |-> RAdd(RAbs(B2[k]), RSum([j \in 1..p |-> RAbs(RMul(W2[(k - 1) * p + j], RMax(RAbs(c.shift[j]), s.xabs[j])))]))])
      Pattern(m) == [r \in 1..Len(m) |-> [i \in 1..Len(m[r]) |-> RIsZero(m[r][i])]]
      sw == [n \in 1..Len(f.sweeps) |-> [r \in 1..Len(f.sweeps[n]) |-> Eager(MapSweep(f.sweeps[n][r]))]]
      closesweeps == /\ Len(sw) = Len(s.sweeps)
                     /\ \A n \in 1..Len(sw) : CloseMat(sw[n], s.sweeps[n], tol, tol)
      samepattern == \A n \in 1..Len(sw) : Pattern(sw[n]) = Pattern(s.sweeps[n])
      supports == SeqToSet([r \in 1..Len(f.supports) |-> MapSup(f.supports[r])]) = SeqToSet(s.supports)
      Clear(row) == Cardinality({i \in 1..Len(row) : \A j \in 1..Len(row) :
                        RLeq(RSub(row[j], row[i]), RMul("1e-5", RAdd(1, RAbs(row[j]))))}) = 1
      clear == \A n \in 1..Len(f.scores) : Clear(f.scores[n])
      decided == samepattern /\ (case.exact \/ clear)
      Order(row) == IF rev THEN Rev(row) ELSE row
      near(i) == RMul("10", etol)
      name(x) == case.prop \o "." \o x
  IN IF f.exc # "" \/ s.exc # "" THEN {name("exception")}
     ELSE
     Guard(Len(s.W) = K * p /\ Len(f.W) = K * p /\ Len(s.b) = K /\ Len(f.b) = K /\ s.shape = f.shape
           /\ Len(s.pred) = Len(f.pred), name("shape"),
       C(name("sweeps"), closesweeps) \cup
       (IF ~closesweeps THEN {} ELSE
        C(name("pattern"), case.exact => samepattern) \cup
        C(name("supports"), samepattern => supports) \cup
        (IF ~decided THEN {} ELSE
         C(name("scores"), case.exact => CloseMat(f.scores, s.scores, "1e-6", "1e-6")) \cup
         C(name("coef"), \A i \in 1..K * p : RClose(s.W[i], W2[i], etol,
              RMul(etol, RDiv(RMul(yab, f.wscale), RAbs(c.scale[IdxJ(i)]))))) \cup
         C(name("intercept"), IF K = 1 THEN RClose(s.b[1], B2[1], etol, RMul(etol, RMax(size[1], yab)))
              ELSE \A k \in 2..K : RClose(RSub(s.b[k], s.b[1]), RSub(B2[k], B2[1]), etol,
                                     RMul(etol, RAdd(1, RAdd(size[1], size[k]))))) \cup
         C(name("predict"), \A i \in 1..Min(10, Len(f.pred)) :
            CASE case.ytype = "label" -> \/ s.pred[i] = (IF rev THEN 3 - f.pred[i] ELSE f.pred[i])
                                         \/ RLeq(Margin(f.proba[i]), near(i))
              [] case.ytype = "count" -> RClose(s.mean[i], f.mean[i], near(i), "1e-9")
              [] OTHER -> RClose(s.pred[i], RAdd(RMul(c.ys, f.pred[i]), c.yt), etol, RMul(near(i), RMax(size[1], yab)))) \cup
         C(name("proba"), Len(f.proba) = Len(s.proba) /\ \A i \in 1..Min(10, Len(f.proba)) : CloseSeq(s.proba[i], Order(f.proba[i]), near(i), near(i))))))

Clauses(case) ==
  Follows(case) \cup
  (IF case.second.exc # "" THEN {} ELSE
   C("C08.link", Link(case.second, case.K, case.ytype)) \cup
   (IF case.ytype # "label" THEN {} ELSE C("C13.distribution", Distribution(case.second, case.labels))))

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
