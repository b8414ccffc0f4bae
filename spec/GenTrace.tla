------------------------------ MODULE GenTrace -------------------------------
(* Recorded data sets held to Generate.  Sums of n independent terms stay   *)
(* within seven standard deviations of their mean (and a multiple of the    *)
(* largest term), or the distribution is another.                           *)
EXTENDS TraceUtil
VARIABLE l

Support(w) == {j \in DOMAIN w : ~RIsZero(w[j])}
Rows(c) == DOMAIN c.X
(* the sum of the terms d[i], of variance v[i] each, is not too large       *)
Centered(d, v, largest) ==
  RLeq(RAbs(RSum(d)), RAdd(RMul(7, RSqrt(RSum(v))), RMul(17, largest)))
(* the response minus its mean, also along each feature                     *)
Unexplained(c, d, v) ==
  /\ Centered(d, v, c.unit)
  /\ \A j \in 1..c.p :
       Centered([i \in DOMAIN d |-> RMul(d[i], c.X[i][j])],
                [i \in DOMAIN d |-> RMul(v[i], RMul(c.X[i][j], c.X[i][j]))],
                RMul(c.unit, c.xmax[j]))

Eta(c, k) == Eager([i \in Rows(c) |-> RAdd(RDot(c.X[i], c.W[k]), c.b[k])])
Mean(s) == RDiv(RSum(s), Len(s))
Variance(s) == LET m == Mean(s) IN LET d == Eager([i \in DOMAIN s |-> RSub(s[i], m)]) IN RDiv(RDot(d, d), Len(s))

Linear(c) ==
  LET eta == Eta(c, 1)
      var == RDiv(Variance(eta), c.snr)
      d == Eager([i \in Rows(c) |-> RSub(c.y[i], eta[i])])
      scale == RAdd(RAbs(Mean(eta)), RSqrt(Variance(eta)))
  IN IF c.noise = "none" \/ RLeq(var, RMul("1e-24", RMul(scale, scale)))
     THEN C("C22.linear", \A i \in Rows(c) : RClose(c.y[i], eta[i], "1e-9", RMul("1e-9", scale)))
     ELSE C("C22.noise.mean", Unexplained([c EXCEPT !.unit = 0], d, [i \in Rows(c) |-> var])) \cup
          (* sum of squares over the variance: n plus or minus sqrt(2 n)    *)
          C("C22.noise.variance",
            RLeq(RAbs(RSub(RDiv(RDot(d, d), var), c.n)), RMul(7, RSqrt(2 * c.n))))

Poisson(c) ==
  LET eta == Eta(c, 1)
      mu == Eager([i \in Rows(c) |-> RExp(eta[i])])
      d == Eager([i \in Rows(c) |-> RSub(c.y[i], mu[i])])
      top == c.mumax
  IN C("C22.counts", \A i \in Rows(c) : RLeq(0, c.y[i]) /\ REq(c.y[i], RFloor(c.y[i])))
     \cup C("C22.poisson.mean", Unexplained(c, d, mu))
     \cup C("C22.poisson.variance",
        Centered([i \in Rows(c) |-> RSub(RMul(d[i], d[i]), mu[i])],
                 [i \in Rows(c) |-> RAdd(mu[i], RMul(2, RMul(mu[i], mu[i])))], RAdd(2, RMul(2, top))))

(* probabilities of the classes                                             *)
Binary(c) == LET eta == Eta(c, 1) IN
  Eager([i \in Rows(c) |-> RDiv(1, RAdd(1, RExp(RNeg(eta[i]))))])
Softmax(c) ==
  LET etas == Eager([k \in 1..c.K |-> Eta(c, k)])
  IN Eager([k \in 1..c.K |-> Eager([i \in Rows(c) |->
        RDiv(1, RSum([m \in 1..c.K |-> RExp(RSub(etas[m][i], etas[k][i]))]))])])
Class(c, k, pr) ==
  Unexplained(c, Eager([i \in Rows(c) |-> RSub(IF c.y[i] = k THEN 1 ELSE 0, pr[i])]),
              Eager([i \in Rows(c) |-> RMul(pr[i], RSub(1, pr[i]))]))
Classes(c) ==
  Guard(\A i \in Rows(c) : c.y[i] \in 0..(c.K - 1), "C22.labels",
    IF c.K = 2 THEN C("C22.frequencies", Class(c, 1, Binary(c)))
    ELSE LET S == Softmax(c) IN
         C("C22.frequencies", \A k \in 1..c.K : Class(c, k - 1, S[k])))

Common(c) ==
  C("C22.informative", c.given \/ \A k \in DOMAIN c.W : Cardinality(Support(c.W[k])) = c.inf) \cup
  C("C22.shared", ~c.shared \/ \A k \in DOMAIN c.W : Support(c.W[k]) = Support(c.W[1])) \cup
  C("C22.given", ~c.given \/ CloseSeq(c.W[1], c.beta, 0, 0)) \cup
  C("C22.intercept", c.icpt \/ \A k \in DOMAIN c.b : RIsZero(c.b[k])) \cup
  C("C22.intercept.drawn", ~c.icpt \/ \E k \in DOMAIN c.b : ~RIsZero(c.b[k])) \cup
  C("C22.range", c.given \/ c.gen # "linear" \/
     (/\ \A j \in Support(c.W[1]) : RLeq(c.low, c.W[1][j]) /\ RLeq(c.W[1][j], c.high)
      /\ c.icpt => (RLeq(c.low, c.b[1]) /\ RLeq(c.b[1], c.high))))
(* the design has the mean and the scale that were asked for                *)
Design(c) ==
  LET flat == Eager([t \in 1..(c.n * c.p) |-> RDiv(RSub(c.X[((t - 1) \div c.p) + 1][((t - 1) % c.p) + 1], c.loc), c.scale)])
      N == c.n * c.p IN
  C("C22.design", c.gen = "classes" \/
     (/\ RLeq(RAbs(RSum(flat)), RMul(7, RSqrt(N)))
      /\ RLeq(RAbs(RSub(RDot(flat, flat), N)), RMul(7, RSqrt(2 * N)))))
OutputShape(c) ==
  /\ c.shapes.X = <<c.n, c.p>> /\ c.shapes.y = <<c.n>>
  /\ IF c.gen = "classes" THEN LET k == IF c.K = 2 THEN 1 ELSE c.K IN c.shapes.W = <<k, c.p>> /\ c.shapes.b = <<1, k>>
     ELSE c.shapes.W = <<c.p>> /\ c.shapes.b = <<>>

(* over many seeds: every feature is informative in inf / p of them         *)
Everywhere(c) == \A j \in DOMAIN c.hits :
  RLeq(RAbs(RSub(c.hits[j], RDiv(c.m * c.inf, c.p))),
       RMul("5.5", RSqrt(RDiv(c.m * c.inf * (c.p - c.inf), c.p * c.p))))

Swimmer(c) ==
  C("C22.swimmer.shape", c.flat = <<256, 1024>> /\ c.shape[3] = 256 /\ c.shape[1] * c.shape[2] = 1024) \cup
  C("C22.swimmer.same", c.same) \cup C("C22.swimmer.fresh", c.fresh)

Clauses(c) ==
  CASE c.what = "support" -> C("C22.everywhere", Everywhere(c))
    [] c.what = "swimmer" -> IF c.exc # "" THEN {"raises"} ELSE Swimmer(c)
    [] OTHER ->
       IF c.exc # "" THEN {"raises"}
       ELSE Guard(OutputShape(c), "C22.shapes",
              Common(c) \cup Design(c) \cup
              (CASE c.gen = "linear" -> Linear(c) [] c.gen = "poisson" -> Poisson(c) [] OTHER -> Classes(c)))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
