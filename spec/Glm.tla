-------------------------------- MODULE Glm --------------------------------
(***************************************************************************)
(* Generalized linear models with canonical links: linear, logistic        *)
(* (binary), multinomial, Poisson.  Their objectives, gradients and        *)
(* optimality conditions, scaling of features, and scores.                 *)
(*                                                                         *)
(* X is a sequence of rows, W a sequence (outputs) of coefficient rows, b  *)
(* the sequence of intercepts, Y a sequence of response rows (one-hot for  *)
(* multinomial).                                                           *)
(***************************************************************************)
EXTENDS TraceUtil, UoICore

Mean(s) == RDiv(RSum(s), Len(s))
Col(X, j) == Eager([i \in DOMAIN X |-> X[i][j]])
NCols(X) == IF Len(X) = 0 THEN 0 ELSE Len(X[1])
Var(s) == LET m == Mean(s) IN RDiv(RSum([i \in DOMAIN s |-> RMul(RSub(s[i], m), RSub(s[i], m))]), Len(s))
IsConst(s) == \A i \in DOMAIN s : REq(s[i], s[1])
Scale(s) == IF IsConst(s) THEN RVal(1) ELSE RSqrt(Var(s))

(* ---- standardization -------------------------------------------------- *)
(* Means and scales of the columns; no centering without an intercept.    *)
ColMeans(X) == Eager([j \in 1..NCols(X) |-> Mean(Col(X, j))])
ColScales(X) == Eager([j \in 1..NCols(X) |-> Scale(Col(X, j))])
Standardized(X, center) ==
  LET m == ColMeans(X)
      s == ColScales(X)
  IN Eager([i \in DOMAIN X |-> [j \in DOMAIN X[i] |->
       RDiv(IF center THEN RSub(X[i][j], m[j]) ELSE X[i][j], s[j])]])
Rows(X, rows) == Eager([i \in DOMAIN rows |-> X[rows[i]]])
Cols(X, cols) == Eager([i \in DOMAIN X |-> [j \in DOMAIN cols |-> X[i][cols[j]]]])

(* ---- predictions ------------------------------------------------------ *)
Eta(X, W, b) == Eager([i \in DOMAIN X |-> [k \in DOMAIN W |-> RAdd(RDot(X[i], W[k]), b[k])]])
Sigmoid(x) == RDiv(1, RAdd(1, RExp(RNeg(x))))
MaxOf(s) == s[CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : RLeq(s[j], s[i])]
Softmax(s) ==
  LET m == MaxOf(s)
      e == Eager([k \in DOMAIN s |-> RExp(RSub(s[k], m))])
      t == RSum(e)
  IN [k \in DOMAIN s |-> RDiv(e[k], t)]
Link(model, eta) ==
  CASE model = "linear" -> [i \in DOMAIN eta |-> [k \in DOMAIN eta[i] |-> RVal(eta[i][k])]]
    [] model = "logistic" -> [i \in DOMAIN eta |-> <<Sigmoid(eta[i][1])>>]
    [] model = "multinomial" -> [i \in DOMAIN eta |-> Softmax(eta[i])]
    [] model = "poisson" -> [i \in DOMAIN eta |-> <<RExp(eta[i][1])>>]
Mu(model, X, W, b) == Eager(Link(model, Eta(X, W, b)))

(* ---- gradient of the mean negative log-likelihood --------------------- *)
Residual(model, X, Y, W, b, sw) ==
  LET mu == Mu(model, X, W, b)
  IN Eager([i \in DOMAIN X |-> [k \in DOMAIN W |-> RMul(sw[i], RSub(mu[i][k], Y[i][k]))]])
GradW(X, res, k, j) == RDiv(RDot(Col(res, k), Col(X, j)), Len(X))
GradB(X, res, k) == RDiv(RSum(Col(res, k)), Len(X))
Ones(n) == [i \in 1..n |-> 1]

(* ---- optimality conditions -------------------------------------------- *)
(* of   mean nll + sum_j f[j] (l1 |w_j| + l2 f[j] w_j^2 / 2)              *)
(* where f[j] is the scale of feature j when the penalty is on the        *)
(* coefficients of scaled features (1 otherwise).  free[k][j] tells which *)
(* coefficients are not masked.                                           *)
Stationary(g, w, l1, l2, f, tol) ==
  LET s == RAdd(g, RMul(RMul(l2, RMul(f, f)), w))
      t == RMul(tol, f)
  IN IF RIsZero(w) THEN RLeq(RAbs(s), RAdd(RMul(l1, f), t))
     ELSE RLeq(RAbs(RAdd(s, RMul(RMul(l1, f), RSign(w)))), t)
Kkt(model, X, Y, W, b, sw, l1, l2, f, free, fitb, tol) ==
  LET res == Residual(model, X, Y, W, b, sw)
  IN /\ \A k \in DOMAIN W : \A j \in DOMAIN W[k] :
          free[k][j] => Stationary(GradW(X, res, k, j), W[k][j], l1, l2, f[j], tol)
     /\ fitb => \A k \in DOMAIN W : RLeq(RAbs(GradB(X, res, k)), tol)

(* ---- the calibration the intercept is fitted for ---------------------- *)
Calibrated(model, X, Y, W, b, tol) ==
  LET mu == Mu(model, X, W, b)
  IN \A k \in DOMAIN W : RLeq(RAbs(RSub(Mean(Col(mu, k)), Mean(Col(Y, k)))), tol)

(* ---- scores ------------------------------------------------------------ *)
R2(y, p) ==
  LET m == Mean(y)
      ssr == RSum([i \in DOMAIN y |-> RMul(RSub(y[i], p[i]), RSub(y[i], p[i]))])
      sst == RSum([i \in DOMAIN y |-> RMul(RSub(y[i], m), RSub(y[i], m))])
  IN RSub(1, RDiv(ssr, sst))
GaussLL(y, p) ==
  LET mse == Mean([i \in DOMAIN y |-> RMul(RSub(y[i], p[i]), RSub(y[i], p[i]))])
  IN RMul(RDiv(RNeg(Len(y)), 2), RAdd(1, RLn(mse)))
(* mean log-likelihoods *)
BernLL(y, p) == Mean([i \in DOMAIN y |-> RLn(IF REq(y[i], 1) THEN p[i] ELSE RSub(1, p[i]))])
MultLL(Y, P) == Mean([i \in DOMAIN Y |-> RLn(P[i][CHOOSE k \in DOMAIN Y[i] : REq(Y[i][k], 1)])])
PoisLL(y, mu) ==
  IF \A i \in DOMAIN mu : RIsZero(mu[i])
  THEN IF \A i \in DOMAIN y : RIsZero(y[i]) THEN RVal(0) ELSE RVal("-inf")
  ELSE Mean([i \in DOMAIN y |-> RSub(RMul(y[i], RLn(mu[i])), mu[i])])
AIC(ll, k) == RSub(RMul(2, k), RMul(2, ll))
BIC(ll, k, n) == RSub(RMul(k, RLn(n)), RMul(2, ll))
AICc(ll, k, n) ==
  IF n > k + 1 THEN RAdd(AIC(ll, k), RDiv(2 * k * (k + 1), n - k - 1)) ELSE AIC(ll, k)
(* minus the criterion, so that larger is better; ll is the total one     *)
Criterion(metric, ll, k, n) ==
  CASE metric = "AIC" -> RNeg(AIC(ll, k))
    [] metric = "BIC" -> RNeg(BIC(ll, k, n))
    [] metric = "AICc" -> RNeg(AICc(ll, k, n))

(* ---- the regularization path ------------------------------------------ *)
(* The gradient of the model without features; alpha_max is its largest   *)
(* entry divided by the l1 ratio.                                         *)
NullIntercept(model, Y, fitb) ==
  LET m == [k \in DOMAIN Y[1] |-> Mean(Col(Y, k))]
  IN IF ~fitb THEN [k \in DOMAIN m |-> RVal(0)]
     ELSE CASE model = "linear" -> m
            [] model = "logistic" -> <<RLn(RDiv(m[1], RSub(1, m[1])))>>
            [] model = "multinomial" -> [k \in DOMAIN m |-> RLn(m[k])]
            [] model = "poisson" -> <<RLn(m[1])>>
NullGrad(model, X, Y, fitb) ==
  LET W == [k \in DOMAIN Y[1] |-> [j \in 1..NCols(X) |-> 0]]
      res == Residual(model, X, Y, W, NullIntercept(model, Y, fitb), Ones(Len(X)))
  IN Eager([k \in DOMAIN Y[1] |-> [j \in 1..NCols(X) |-> RAbs(GradW(X, res, k, j))]])
AlphaMax(model, X, Y, fitb) ==
  LET g == NullGrad(model, X, Y, fitb) IN MaxOf([k \in DOMAIN g |-> MaxOf(g[k])])

Median(s) == LET m == Middle(s, RLeq) IN RDiv(RAdd(m[1], m[2]), 2)
=============================================================================
