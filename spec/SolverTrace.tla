----------------------------- MODULE SolverTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the penalized solvers: Poisson.fit,                   *)
(* MaskedCoefLogisticRegression.fit and uoi_selection_sweep.               *)
(***************************************************************************)
EXTENDS Glm
VARIABLE l

NF(c) == NCols(c.X)
Resp(c) ==
  IF c.model = "multinomial"
  THEN Eager([i \in DOMAIN c.y |-> [k \in 1..c.K |-> IF c.y[i] = k - 1 THEN RVal(1) ELSE RVal(0)]])
  ELSE Eager([i \in DOMAIN c.y |-> <<RVal(c.y[i])>>])

(* weights of the samples: the caller's times those of the classes          *)
ClassCount(c, k) == Cardinality({i \in DOMAIN c.y : c.y[i] = k})
ClassWeight(c, k) ==
  IF c.cw = "none" THEN RVal(1)
  ELSE IF c.cw = "balanced" THEN RDiv(Len(c.y), c.nclass * ClassCount(c, k))
  ELSE RVal(c.cwvals[k + 1])
Weights(c) ==
  Eager([i \in DOMAIN c.y |-> IF c.cw = "none" THEN RVal(c.sw[i]) ELSE RMul(c.sw[i], ClassWeight(c, c.y[i]))])

(* the units the penalty applies to                                         *)
WX(c) == IF c.std THEN Standardized(c.X, c.icpt) ELSE Eager(c.X)
WW(c) == IF c.std THEN LET s == ColScales(c.X) IN Eager([k \in DOMAIN c.W |-> [j \in DOMAIN c.W[k] |-> RMul(c.W[k][j], s[j])]])
         ELSE Eager(c.W)
WB(c) == IF c.std /\ c.icpt THEN LET m == ColMeans(c.X) IN Eager([k \in DOMAIN c.W |-> RAdd(c.b[k], RDot(m, c.W[k]))])
         ELSE Eager(c.b)
Norm2(W, b) == RAdd(RSum([k \in DOMAIN W |-> RDot(W[k], W[k])]), RDot(b, b))
(* solvers stop at a gradient norm relative to the norm of the solution     *)
Tol(c, W, b) == RMul(c.tol, RMax(1, RSqrt(Norm2(W, b))))
FitShape(c) == IsMat(c.W, c.K, NF(c)) /\ IsSeq(c.b, c.K)
FitFinite(c) == (\A k \in 1..c.K : AllFinite(c.W[k])) /\ AllFinite(c.b)
KktClauses(c) ==
  IF c.exc # "" THEN {c.prop \o ".raises"}
  ELSE Guard(FitShape(c), c.prop \o ".shape", Guard(FitFinite(c), c.prop \o ".finite",
     LET X == WX(c)
         W == WW(c)
         b == WB(c)
         f == Eager([j \in 1..NF(c) |-> RVal(1)])
         t == Tol(c, W, b)
         Y == Resp(c)
         sw == Weights(c)
         res == Residual(c.model, X, Y, W, b, sw)
     IN C(c.prop \o ".masked", \A k \in 1..c.K : \A j \in 1..NF(c) : c.free[k][j] \/ RIsZero(c.W[k][j])) \cup
        C(c.prop \o ".stationary", \A k \in 1..c.K : \A j \in 1..NF(c) :
             c.free[k][j] => Stationary(GradW(X, res, k, j), W[k][j], c.l1, c.l2, f[j], t)) \cup
        (IF c.icpt THEN C(c.prop \o ".intercept", \A k \in 1..c.K : RLeq(RAbs(GradB(X, res, k)), t))
         ELSE C(c.prop \o ".nointercept", \A k \in 1..c.K : RIsZero(c.b[k])))))

(* the rows of a sweep; hints are intercepts, which are checked too          *)
Pen(reg) ==
  IF Has(reg, "C") THEN [l1 |-> RDiv(1, reg.C), l2 |-> RVal(0)]
  ELSE IF Has(reg, "l1_ratio")
  THEN [l1 |-> RMul(reg.alpha, reg.l1_ratio), l2 |-> RMul(reg.alpha, RSub(1, reg.l1_ratio))]
  ELSE [l1 |-> RVal(reg.alpha), l2 |-> RVal(0)]
SweepClauses(c) ==
  IF c.exc # "" THEN {"C15.sweep.raises"}
  ELSE Guard(IsMat(c.coefs, Len(c.regs), c.K * NF(c)) /\ IsMat(c.hints, Len(c.regs), c.K), "C15.sweep.shape",
    LET X == Eager(c.X)
        Y == Resp(c)
        f == IF c.std THEN ColScales(X) ELSE Eager([j \in 1..NF(c) |-> RVal(1)])
        free == [k \in 1..c.K |-> [j \in 1..NF(c) |-> TRUE]]
    IN C("C15.sweep", \A r \in DOMAIN c.regs :
          LET W == Eager([k \in 1..c.K |-> [j \in 1..NF(c) |-> RVal(c.coefs[r][(k - 1) * NF(c) + j])]])
              pen == Pen(c.regs[r])
          IN Kkt(c.model, X, Y, W, c.hints[r], Ones(Len(X)), pen.l1, pen.l2, f, free, c.icpt,
                 RMul(c.tol, RMax(1, RSqrt(Norm2(W, c.hints[r])))))))

(* two fits which must be the same model: cols[j] is the column of the first *)
(* which column j of the second is                                          *)
AgreeClauses(c) ==
  IF c.exc # "" THEN {c.prop \o ".raises"}
  ELSE LET in == {c.cols[j] : j \in DOMAIN c.cols}
       IN Guard(Len(c.W1) = Len(c.W2) /\ Len(c.b1) = Len(c.b2) /\ \A k \in DOMAIN c.W1 : Len(c.W2[k]) = Len(c.cols), c.prop \o ".shape",
            \* so are the coefficients of one feature, for even numbers of
            \* classes and an l1 penalty (the optimality is checked elsewhere)
            C(c.prop \o "." \o c.what, \A k \in DOMAIN c.W1 : \A j \in DOMAIN c.cols :
                 IF c.shift THEN RClose(RSub(c.W1[k][c.cols[j]], c.W1[1][c.cols[j]]), RSub(c.W2[k][j], c.W2[1][j]), c.tol, c.tol)
                 ELSE RClose(c.W1[k][c.cols[j]], c.W2[k][j], c.tol, c.tol)) \cup
            C(c.prop \o "." \o c.what \o ".zero", \A k \in DOMAIN c.W1 : \A j \in DOMAIN c.W1[k] : j \in in \/ RIsZero(c.W1[k][j])) \cup
            \* intercepts of several classes are determined up to a constant
            C(c.prop \o "." \o c.what \o ".intercept", \A k \in DOMAIN c.b1 :
                 RClose(RSub(c.b1[k], c.b1[1]), RSub(c.b2[k], c.b2[1]), c.tol, c.tol)
                 /\ (Len(c.b1) = 1 => RClose(c.b1[1], c.b2[1], c.tol, c.tol))))

Clauses(c) ==
  CASE c.kind = "kkt" -> KktClauses(c)
    [] c.kind = "sweep" -> SweepClauses(c)
    [] c.kind = "agree" -> AgreeClauses(c)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
