-------------------------- MODULE ReconstructTrace --------------------------
(* Histories of fitted factorizations held to Reconstruct.                  *)
EXTENDS TraceUtil
VARIABLE l

Length(v) == RSqrt(RDot(v, v))
Column(M, j) == [i \in DOMAIN M |-> M[i][j]]
(* the optimality conditions of  min |b - w H|  over w >= 0, to the          *)
(* precision eps of the matrix                                               *)
Optimal(H, b, w, eps) ==
  LET res == Eager([j \in DOMAIN b |-> RSub(RDot(w, Column(H, j)), b[j])])
      size == Eager(RAdd(Length(b), RSum([k \in DOMAIN w |-> RAbs(w[k])])))
      tol == RMul(eps, size)
  IN \A k \in DOMAIN w :
       LET g == RDot(H[k], res) IN
       /\ RLeq(0, w[k])
       /\ RLeq(RNeg(tol), g)
       /\ RLt(0, w[k]) => RLeq(RAbs(RMul(g, w[k])), RMul(tol, RMax(size, w[k])))
(* the regressor of the caller: the sum of the row, plus the position, plus   *)
(* the sums of the bases                                                     *)
Answer(H, b, w) == \A k \in DOMAIN w : RClose(w[k], RAdd(RAdd(RSum(b), k), RSum(H[k])), "1e-5", "1e-6")
Row(c, H, b, w, eps) == IF c.reg = "stub" THEN Answer(H, b, w) ELSE Optimal(H, b, w, eps)
Back(H, w) == [j \in DOMAIN H[1] |-> RDot(w, Column(H, j))]
Error(H, X, W) == RSqrt(RSum([i \in DOMAIN X |->
   LET r == Back(H, W[i]) IN LET d == [j \in DOMAIN r |-> RSub(X[i][j], r[j])] IN RDot(d, d)]))
Size(X) == RSqrt(RSum([i \in DOMAIN X |-> RDot(X[i], X[i])]))

Transformed(c, e) ==
  Guard(IsMat(e.W, Len(e.X), Len(e.H)), "C19.shape",
    C("C19.regression", \A i \in DOMAIN e.X : Row(c, e.H, e.X[i], e.W[i], e.eps)) \cup
    C("C19.rows", Len(e.single) = Len(e.X) /\ \A i \in DOMAIN e.X :
        CloseSeq(e.W[i], e.single[i], RMul(10, e.eps), RMul(e.eps, Length(e.X[i])))) \cup
    C("C19.error", e.quiet \/ (e.err # "None" /\ RClose(e.err, Error(e.H, e.X, e.W), "1e-4", RMul("1e-5", Size(e.X))))))
Event(c, i) ==
  LET e == c.events[i] IN
  IF e.refused THEN
    C("C19.refused", e.exc = "ValueError") \cup
    C("C19.refused.unchanged", CloseMat(e.H, c.events[i - 1].H, 0, 0) /\ e.err = c.events[i - 1].err)
  ELSE IF e.exc # "" THEN {"raises"}
  ELSE CASE e.op = "fit" -> C("C19.fit.error", e.err = "None")
         [] e.op = "fit_transform" -> Transformed(c, e) \cup
              C("C19.fit_transform", CloseMat(e.H, e.twinH, "1e-12", 0) /\ CloseMat(e.W, e.twinW, "1e-12", 0) /\ (IF "None" \in {e.err, e.twinerr} THEN e.err = e.twinerr ELSE RClose(e.err, e.twinerr, "1e-9", "1e-12")))
         [] e.op = "inverse" ->
              C("C19.inverse", Len(e.out) = Len(e.W) /\ \A j \in DOMAIN e.W : CloseSeq(e.out[j], Back(e.H, e.W[j]), "1e-9", "1e-9"))
              \cup C("C19.bases", CloseMat(e.H, c.events[i - 1].H, 0, 0) /\ e.err = c.events[i - 1].err)
         [] OTHER -> Transformed(c, e) \cup C("C19.quiet", e.quiet => e.err = c.events[i - 1].err) \cup C("C19.bases", CloseMat(e.H, c.events[i - 1].H, 0, 0))

Clauses(c) == UNION {Event(c, i) : i \in DOMAIN c.events}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
