------------------------------ MODULE FitTrace ------------------------------
(***************************************************************************)
(* Recorded fits of the UoI linear models, event by event:                 *)
(*                                                                         *)
(*   begin   configuration and data                                        *)
(*   sweep   one selection sweep: rows, regularization values, coefficients*)
(*   est     one estimation fit: rows, columns (mask), coefficients        *)
(*   score   one prediction of an estimation model: rows, columns          *)
(*   end     the fitted attributes                                         *)
(*                                                                         *)
(* The state `run` is what the specification knows of the current fit; the *)
(* order of the events of different bootstraps is free.  Every clause name *)
(* starts with the property it belongs to.                                 *)
(***************************************************************************)
EXTENDS Glm

VARIABLES l,     \* case
          e,     \* event of the case
          run    \* state of the fit

vars == <<l, e, run>>
Idle == [ev |-> "idle"]

Ev == Trace[l].events[e]

(* ---- what begin determines ------------------------------------------- *)
WorkX(c) == IF c.std THEN Standardized(c.X, c.icpt) ELSE Eager([i \in DOMAIN c.X |-> [j \in DOMAIN c.X[i] |-> RVal(c.X[i][j])]])
(* responses as rows: standardized y, 0/1, one-hot classes, counts          *)
WorkY(c) ==
  CASE c.model = "linear" ->
         LET m == IF c.std /\ c.icpt THEN Mean(c.y) ELSE RVal(0)
             s == IF c.std THEN Scale(c.y) ELSE RVal(1)
         IN Eager([i \in DOMAIN c.y |-> <<RDiv(RSub(c.y[i], m), s)>>])
    [] c.model = "multinomial" ->
         Eager([i \in DOMAIN c.y |-> [k \in 1..c.K |-> IF c.y[i] = k - 1 THEN RVal(1) ELSE RVal(0)]])
    [] OTHER -> Eager([i \in DOMAIN c.y |-> <<RVal(c.y[i])>>])

Begin ==
  /\ Ev.ev = "begin"
  /\ run' = [ev |-> "run", c |-> [x \in DOMAIN Ev \ {"X", "y", "ev"} |-> Ev[x]],
             X |-> Eager(Ev.X), y |-> Eager(Ev.y), Xs |-> WorkX(Ev), Ys |-> WorkY(Ev),
             sweeps |-> <<>>, ests |-> <<>>, scores |-> <<>>]
  /\ Report(l, {})

(* ---- splits (C03) ------------------------------------------------------ *)
(* Rows are identified by their values; ~sure: several rows look alike in    *)
(* what was passed, and it is open which of them it was.                     *)
N == run.c.n
(* within one sample of the requested fraction of the samples               *)
SizeOk(rows, frac) ==
  LET want == RMul(frac, N)
  IN RLeq(RSub(want, "1.000001"), Len(rows)) /\ RLeq(Len(rows), RAdd(want, "1.000001"))
Groups == SeqToSet(run.c.groups)
InGroup(rows, g) == Cardinality({i \in DOMAIN rows : run.c.groups[rows[i]] = g})
GroupSize(g) == Cardinality({i \in 1..N : run.c.groups[i] = g})
StratifiedOk(rows) ==
  run.c.groups # <<>> => \A g \in Groups :
    LET want == RDiv(RMul(Len(rows), GroupSize(g)), N)
    IN RLeq(RAbs(RSub(InGroup(rows, g), want)), "1.000001")
SplitClauses(who, rows, paired, sure, frac) ==
  C("C03." \o who \o ".repeated", NoDup(rows)) \cup
  C("C03." \o who \o ".size", SizeOk(rows, frac)) \cup
  C("C03." \o who \o ".stratify", ~sure \/ StratifiedOk(rows)) \cup
  C("C03." \o who \o ".paired", paired)

(* Row r of a sweep is the penalized fit with the r-th value (C01, C15).     *)
(* hints[r] is the intercept which goes with the coefficients: it is checked *)
(* here, so it may come from anywhere.                                       *)
PenaltyOf(reg) ==
  IF Has(reg, "C") THEN [l1 |-> RDiv(1, reg.C), l2 |-> RVal(0)]
  ELSE IF Has(reg, "l1_ratio")
  THEN [l1 |-> RMul(reg.alpha, reg.l1_ratio), l2 |-> RMul(reg.alpha, RSub(1, reg.l1_ratio))]
  ELSE [l1 |-> RVal(reg.alpha), l2 |-> RVal(0)]
RowOk(X, Y, f, coef, reg, hint) ==
  LET pen == PenaltyOf(reg)
      W == Eager([k \in 1..run.c.K |-> [j \in 1..run.c.p |-> RVal(coef[(k - 1) * run.c.p + j])]])
      free == [k \in 1..run.c.K |-> [j \in 1..run.c.p |-> TRUE]]
  IN Kkt(run.c.model, X, Y, W, hint, Ones(Len(X)), pen.l1, pen.l2, f, free, run.c.icpt, run.c.kkttol)
SweepRows(ev) ==
  LET X == Rows(run.Xs, ev.rows)
      Y == Rows(run.Ys, ev.rows)
      \* the Poisson sweep scales the features of every bootstrap itself
      f == IF run.c.model = "poisson" /\ run.c.std THEN ColScales(X) ELSE Eager([j \in 1..run.c.p |-> RVal(1)])
  IN Guard(IsMat(ev.coefs, Len(ev.regs), run.c.K * run.c.p) /\ IsMat(ev.hints, Len(ev.regs), run.c.K), "C01.sweep.shape",
       C("C01.row", \A r \in DOMAIN ev.regs : RowOk(X, Y, f, ev.coefs[r], ev.regs[r], ev.hints[r])))
SweepRowClauses(ev) ==
  IF ~Has(run.c, "kkt") \/ ~run.c.kkt THEN {}
  ELSE IF \E k \in 1..run.c.K : LET Y == Rows(run.Ys, ev.rows) IN run.c.model \in {"multinomial", "logistic"} /\ IsConst(Col(Y, k)) THEN {}
  ELSE SweepRows(ev)

Sweep ==
  /\ Ev.ev = "sweep"
  /\ run' = [run EXCEPT !.sweeps = Append(@, [rows |-> Ev.rows, regs |-> Ev.regs, coefs |-> Ev.coefs, matched |-> Ev.matched])]
  /\ Report(l, IF Ev.matched THEN SplitClauses("sel", Ev.rows, Ev.paired, Ev.sure, run.c.selfrac) \cup SweepRowClauses(Ev)
               ELSE IF Ev.guess THEN SweepRowClauses(Ev) ELSE {})
  /\ IF Ev.matched THEN TRUE ELSE Note("unmatched rows")

Est ==
  /\ Ev.ev = "est"
  /\ run' = [run EXCEPT !.ests = Append(@, [rows |-> Ev.rows, mask |-> Ev.mask, W |-> Ev.W, b |-> Ev.b, matched |-> Ev.matched, sure |-> Ev.sure])]
  /\ Report(l, IF Ev.matched THEN SplitClauses("est", Ev.rows, Ev.paired, Ev.sure, run.c.estfrac) ELSE {})
  /\ IF Ev.matched THEN TRUE ELSE Note("unmatched rows")

(* A prediction, by the model of the est event `of` (0: unknown): the rows  *)
(* scored are the training rows of that fit or the ones held out.           *)
HeldOut(rows) == (1..N) \ SeqToSet(rows)
Score ==
  /\ Ev.ev = "score"
  /\ run' = [run EXCEPT !.scores = Append(@, Ev.of)]
  /\ Report(l, IF Ev.of = 0 \/ ~Ev.matched THEN {}
               ELSE LET tr == run.ests[Ev.of]
                    IN IF ~tr.matched THEN {}
                       ELSE C("C03.score.rows",
                              /\ NoDup(Ev.rows)
                              /\ SeqToSet(Ev.rows) = IF run.c.target = "train" THEN SeqToSet(tr.rows) ELSE HeldOut(tr.rows)))

(* ---- the end ----------------------------------------------------------- *)
K == run.c.K
P == run.c.p
NC == K * P

(* selection: bootstraps are the sets of rows of the sweeps                  *)
SelBoots == {SeqToSet(run.sweeps[i].rows) : i \in DOMAIN run.sweeps}
(* all rows of sweeps of one bootstrap, as <<reg index, coefs>>: the values  *)
(* are looked up in the path, so that a sweep of a part of it is allowed     *)
SameReg(a, b) == \A x \in DOMAIN a : x \in DOMAIN b /\ REq(a[x], b[x])
RegIdx(reg) == {r \in DOMAIN run.c.regs : SameReg(reg, run.c.regs[r])}
SelComplete ==
  /\ Len(run.sweeps) = run.c.Bs
  /\ \A i \in DOMAIN run.sweeps : Len(run.sweeps[i].regs) = Len(run.c.regs)
SweepsShaped ==
  \A i \in DOMAIN run.sweeps :
    IsMat(run.sweeps[i].coefs, Len(run.sweeps[i].regs), NC)
SelTable ==
  Eager([b \in DOMAIN run.sweeps |-> [r \in DOMAIN run.c.regs |-> [f \in 1..NC |->
      IF RIsZero(run.sweeps[b].coefs[r][f]) THEN 0 ELSE 1]]])

Sup(x, s) == x.supports[s]
SupSize(m) == Cardinality({f \in DOMAIN m : m[f]})
(* the mask over all coefficients of support s                               *)
FullMask(x, s) ==
  LET m == Sup(x, s) IN IF run.c.shared THEN [f \in 1..NC |-> m[((f - 1) % P) + 1]] ELSE m
SupLen == IF run.c.shared THEN P ELSE NC

ShapeOk(x) ==
  /\ Len(x.supports) >= 1
  /\ IsMat(x.supports, Len(x.supports), SupLen)
  /\ IsMat(x.scores, run.c.Be, Len(x.supports))
  /\ IsMat(x.estimates, run.c.Be, Len(x.supports))
  /\ \A b \in 1..run.c.Be : \A s \in DOMAIN x.supports : DOMAIN x.estimates[b][s] = 1..NC
  /\ IsSeq(x.winners, run.c.Be)
  /\ \A b \in 1..run.c.Be : x.winners[b] \in DOMAIN x.supports
  /\ IsMat(x.W, K, P)
  /\ IsSeq(x.b, K)

SupportsClauses(x) ==
  C("C01.duplicates", \A s, t \in DOMAIN x.supports : s # t => x.supports[s] # x.supports[t]) \cup
  \* two bootstraps of so many samples are not the same
  C("C01.sweep.missing", ~(N >= 30 /\ Len(run.sweeps) \in 1..(run.c.Bs - 1) /\ \A i \in DOMAIN run.sweeps : Len(run.sweeps[i].regs) = Len(run.c.regs))) \cup
  IF ~SelComplete THEN (IF Note("selection not observed") THEN {} ELSE {})
  ELSE Guard(SweepsShaped, "C01.sweep.shape",
       C("C01.supports", SeqToSet(x.supports) = Supports(SelTable, Len(run.c.regs), K, P, run.c.thresholds, run.c.shared)))

(* the estimation fit behind estimates[b][s]: same mask, same coefficients   *)
EstOf(x, b, s) ==
  {i \in DOMAIN run.ests :
     /\ run.ests[i].mask = FullMask(x, s)
     /\ \A f \in 1..NC :
          LET w == run.ests[i].W[((f - 1) \div P) + 1][((f - 1) % P) + 1]
          IN REq(w, x.estimates[b][s][f])}
Nonempty(x) == {s \in DOMAIN x.supports : SupSize(x.supports[s]) > 0}
EstComplete(x) ==
  /\ \A i \in DOMAIN run.ests : run.ests[i].matched
  /\ Len(run.ests) = run.c.Be * Cardinality(Nonempty(x))

(* model.predict reports the class of greater probability                    *)
ClassOf(mu) == IF Len(mu) = 1 THEN (IF RLt("0.5", mu[1]) THEN 1 ELSE 0)
               ELSE (CHOOSE k \in DOMAIN mu : (\A j \in DOMAIN mu : RLeq(mu[j], mu[k])) /\ (\A j \in 1..(k - 1) : RLt(mu[j], mu[k]))) - 1
NearTie(mu) == IF Len(mu) = 1 THEN RLt(RAbs(RSub(mu[1], "0.5")), "1e-9")
               ELSE \E j, k \in DOMAIN mu : j # k /\ RLt(RAbs(RSub(mu[j], mu[k])), "1e-9")
(* probabilities are kept off 0 and 1 in the log-likelihood                  *)
Clip(p) == LET eps == "2.220446049250313e-16"
           IN IF RLt(p, eps) THEN RVal(eps) ELSE IF RLt(RSub(1, eps), p) THEN RSub(1, eps) ELSE p

(* the score of coefficients W, b on rows; k is the number of features       *)
ScoreOf(W, b, rows, k, nointercept) ==
  LET X == Rows(run.Xs, rows)
      Y == Rows(run.Ys, rows)
      mu == Mu(run.c.model, X, W, b)
      n == Len(rows)
      y1 == Col(Y, 1)
      m1 == Col(mu, 1)
      metric == run.c.metric
  IN CASE run.c.model = "linear" /\ metric = "r2" -> R2(y1, m1)
       [] run.c.model = "linear" -> Criterion(metric, GaussLL(y1, m1), k, n)
       [] run.c.model = "poisson" ->
            LET ll == PoisLL(y1, m1)
                kk == IF nointercept THEN k ELSE k + 1
            IN IF metric = "log" THEN ll ELSE Criterion(metric, RMul(n, ll), kk, n)
       [] OTHER ->
            LET cl == [i \in DOMAIN mu |-> [j \in DOMAIN mu[i] |-> Clip(mu[i][j])]]
                ll == IF run.c.model = "logistic" THEN BernLL(y1, Col(cl, 1)) ELSE MultLL(Y, cl)
            IN CASE metric = "acc" ->
                      RDiv(Cardinality({i \in 1..n : LET k1 == ClassOf(mu[i])
                                                     IN IF run.c.model = "logistic" THEN REq(y1[i], k1) ELSE REq(Y[i][k1 + 1], 1)}), n)
                 [] metric = "log" -> ll
                 [] OTHER -> Criterion(metric, RMul(n, ll), k, n)
TieRows(W, b, rows) ==
  /\ run.c.metric = "acc"
  /\ LET mu == Mu(run.c.model, Rows(run.Xs, rows), W, b) IN \E i \in DOMAIN mu : NearTie(mu[i])

HeldRows(rows) == LET h == HeldOut(rows) IN [i \in 1..Cardinality(h) |-> CHOOSE r \in h : Cardinality({q \in h : q <= r}) = i]
TargetRows(rows) == IF run.c.target = "train" THEN rows ELSE HeldRows(rows)
AllRows == [i \in DOMAIN run.Xs |-> i]
WrongRows(rows) == {Eager(IF run.c.target = "train" THEN HeldRows(rows) ELSE rows), Eager(AllRows)}

ScoreClauses(x, b, s, est) ==
  LET rows == Eager(TargetRows(est.rows))
      want == ScoreOf(est.W, est.b, rows, SupSize(x.supports[s]), REq(est.b[1], 0))
      \* a linear fit without residuals has no likelihood
      saturated == run.c.model = "linear" /\ run.c.metric # "r2" /\
        LET Y == Rows(run.Ys, rows)
            mu == Mu("linear", Rows(run.Xs, rows), est.W, est.b)
        IN \A q \in DOMAIN Y : RLeq(RAbs(RSub(Y[q][1], mu[q][1])), "1e-9")
      right == saturated \/ TieRows(est.W, est.b, rows) \/ RClose(x.scores[b][s], want, run.c.rtol, run.c.atol)
  IN C("C12.score", right) \cup
     \* the right criterion of the wrong rows
     C("C03.score.values", right \/ ~\E t \in WrongRows(est.rows) :
         RClose(x.scores[b][s], ScoreOf(est.W, est.b, t, SupSize(x.supports[s]), REq(est.b[1], 0)), run.c.rtol, run.c.atol))

(* the empty support: the model without features, on the bootstrap's rows.   *)
(* It has the fitted intercept even without fit_intercept.                   *)
NullB(rows) ==
  LET Y == Rows(run.Ys, rows) IN NullIntercept(run.c.model, Y, TRUE)
EmptyScore(x, b, s, rows) ==
  LET W == [k \in 1..K |-> [j \in 1..P |-> 0]]
      Y == Rows(run.Ys, rows)
      bb == NullB(rows)
      t == Eager(TargetRows(rows))
  IN CASE \E k \in 1..K : ~RIsFinite(bb[k]) -> TRUE
       [] OTHER ->
          IF TieRows(W, bb, t) THEN TRUE
          ELSE RClose(x.scores[b][s], ScoreOf(W, bb, t, 0, RIsZero(bb[1])), run.c.rtol, run.c.atol)
(* the empty model of other rows or scored on other rows                     *)
EmptyElsewhere(x, b, s, rows) ==
  LET W == [k \in 1..K |-> [j \in 1..P |-> 0]]
  IN \E f \in {rows} \cup WrongRows(rows) : \E t \in {Eager(TargetRows(rows))} \cup WrongRows(rows) :
       LET bb == NullB(f)
       IN /\ \A k \in 1..K : RIsFinite(bb[k])
          /\ ~TieRows(W, bb, t)
          /\ RClose(x.scores[b][s], ScoreOf(W, bb, t, 0, RIsZero(bb[1])), run.c.rtol, run.c.atol)

(* an unpenalized fit: the gradient vanishes on the unmasked coefficients    *)
FitOk(est) ==
  LET X == Rows(run.Xs, est.rows)
      Y == Rows(run.Ys, est.rows)
      free == [k \in 1..K |-> [j \in 1..P |-> est.mask[(k - 1) * P + j]]]
      res == Residual(run.c.model, X, Y, est.W, est.b, Ones(Len(X)))
  IN /\ \A k \in 1..K : \A j \in 1..P : free[k][j] =>
          RLeq(RAbs(GradW(X, res, k, j)), run.c.esttol)
     /\ run.c.icpt => \A k \in 1..K : RLeq(RAbs(GradB(X, res, k)), run.c.esttol)
     /\ ~run.c.icpt => \A k \in 1..K : RIsZero(est.b[k])

(* Where fits were not observed the estimates themselves are checked, on the *)
(* rows x.guess[b], with the intercepts x.hints[b][s]: wherever these come    *)
(* from, they have to make the estimates of all supports unpenalized fits.   *)
DirectClauses(x) ==
  UNION {
    IF x.guess[b] = <<>> THEN (IF Note("estimation not observed") THEN {} ELSE {})
    ELSE
    UNION {
      LET est == [rows |-> x.guess[b], mask |-> FullMask(x, s), b |-> x.hints[b][s],
                  W |-> Eager([k \in 1..K |-> [j \in 1..P |-> RVal(x.estimates[b][s][(k - 1) * P + j])]])]
      IN C("C02.unpenalized", FitOk(est)) \cup
         (IF run.c.model # "linear" THEN {} ELSE ScoreClauses(x, b, s, est))
      : s \in Nonempty(x)} \cup
    UNION {
      LET ok == EmptyScore(x, b, s, x.guess[b])
      IN C("C12.score.empty", ok) \cup C("C03.empty.rows", ok \/ ~EmptyElsewhere(x, b, s, x.guess[b]))
      : s \in DOMAIN x.supports \ Nonempty(x)}
    : b \in 1..run.c.Be}

EstimateClauses(x) ==
  UNION {UNION {
    C("C02.offsupport", \A f \in 1..NC : ~FullMask(x, s)[f] => RIsZero(x.estimates[b][s][f]))
    : s \in DOMAIN x.supports} : b \in 1..run.c.Be} \cup
  IF ~EstComplete(x) THEN DirectClauses(x)
  ELSE
  LET who == [b \in 1..run.c.Be |-> [s \in DOMAIN x.supports |-> IF s \in Nonempty(x) THEN EstOf(x, b, s) ELSE {}]]
      one == \A b \in 1..run.c.Be : \A s \in Nonempty(x) : who[b][s] # {}
      set(i) == SeqToSet(run.ests[i].rows)
      \* equal coefficients may be those of several bootstraps
      cand(b) == {set(i) : i \in {q \in UNION {who[b][s] : s \in Nonempty(x)} : run.ests[q].sure}}
      goes(i, R) == ~run.ests[i].sure \/ set(i) = R
      common(b) == {R \in cand(b) : \A s \in Nonempty(x) : \E i \in who[b][s] : goes(i, R)}
      pick(b, s, R) == CHOOSE i \in who[b][s] : goes(i, R)
      bad(b, R) ==
        UNION {LET i == pick(b, s, R) IN
           C("C02.unpenalized", FitOk(run.ests[i])) \cup ScoreClauses(x, b, s, run.ests[i])
           : s \in Nonempty(x)} \cup
        (IF Nonempty(x) = {} THEN {}
         ELSE LET r == run.ests[pick(b, CHOOSE s \in Nonempty(x) : TRUE, R)].rows
              IN UNION {LET ok == EmptyScore(x, b, s, r)
                            IN C("C12.score.empty", ok) \cup C("C03.empty.rows", ok \/ ~EmptyElsewhere(x, b, s, r))
                            : s \in DOMAIN x.supports \ Nonempty(x)})
      worst(b, S) == IF \E R \in S : bad(b, R) = {} THEN {} ELSE bad(b, CHOOSE R \in S : TRUE)
  IN C("C02.unfitted", one) \cup
     (IF ~one THEN {}
      ELSE UNION {
        IF cand(b) = {}
        THEN IF \A s \in Nonempty(x) : who[b][s] # {} THEN worst(b, {{}}) ELSE {}
        ELSE Guard(common(b) # {}, "C03.est.onesplit", worst(b, common(b)))
        : b \in 1..run.c.Be})

(* winners and the median, in the units the fit worked in                    *)
Units(x) ==
  LET sx == IF run.c.std THEN ColScales(run.X) ELSE [j \in 1..P |-> RVal(1)]
      sy == IF run.c.std /\ run.c.model = "linear" THEN Scale(run.y) ELSE RVal(1)
  IN Eager([k \in 1..K |-> [j \in 1..P |-> RDiv(RMul(x.W[k][j], sx[j]), sy)]])
Comparable(x, b) == \A s \in DOMAIN x.supports : ~REq(x.scores[b][s], "nan")
WinnerClauses(x) ==
  UNION {IF Comparable(x, b)
         THEN C("C02.winner", x.winners[b] = ArgMaxFirst([s \in DOMAIN x.supports |-> RVal(x.scores[b][s])], RLeq))
         ELSE {} : b \in 1..run.c.Be} \cup
  LET u == Units(x)
      med == Eager([k \in 1..K |-> [j \in 1..P |-> Median([b \in 1..run.c.Be |-> RVal(x.estimates[b][x.winners[b]][(k - 1) * P + j])])]])
  IN C("C02.median", CloseMat(u, med, run.c.rtol, run.c.atol))

PathClauses(x) ==
  IF ~Has(run.c, "path") THEN {}
  ELSE
  LET pa == run.c.path            \* [ratios, num, eps, values, ratio of each]
      am == AlphaMax(run.c.model, run.Xs, run.Ys, run.c.icpt)
      R == pa.num
  IN C("C11.length", Len(pa.values) = R * Len(pa.ratios)) \cup
     (IF Len(pa.values) # R * Len(pa.ratios) THEN {}
      ELSE UNION {
        LET q == ((i - 1) \div R) + 1
            r == (i - 1) % R
            top == RDiv(am, pa.ratios[q])
            want == IF R = 1 THEN top ELSE RMul(top, RExp(RMul(RDiv(r, R - 1), RLn(pa.eps))))
        IN C("C11.ratio", RClose(pa.given[i], pa.ratios[q], "1e-12", 0)) \cup
           C(IF r = 0 THEN "C11.strongest" ELSE "C11.spacing", RClose(pa.values[i], want, run.c.rtol, 0))
        : i \in DOMAIN pa.values})

FiniteAll(x) ==
  /\ \A k \in 1..K : AllFinite(x.W[k])
  /\ AllFinite(x.b)
  /\ \A b \in 1..run.c.Be : \A s \in DOMAIN x.supports : AllFinite(x.estimates[b][s])

CalClauses(x) ==
  LET Yraw == IF run.c.model = "linear" THEN [i \in DOMAIN run.y |-> <<run.y[i]>>] ELSE run.Ys
  IN IF run.c.icpt
     THEN C("C09.calibrated", Calibrated(run.c.model, run.X, Yraw, x.W, x.b, run.c.caltol))
     ELSE C("C09.zero", \A k \in 1..K : RIsZero(x.b[k]))

EndFit ==
  /\ Ev.ev = "end"
  /\ run' = Idle
  /\ Report(l, C("raises", Ev.exc = "") \cup
       IF Ev.exc # "" THEN {}
       ELSE Guard(ShapeOk(Ev), "C10.shape",
              C("C10.finite", FiniteAll(Ev)) \cup
              SupportsClauses(Ev) \cup
              (IF FiniteAll(Ev) THEN EstimateClauses(Ev) \cup WinnerClauses(Ev) ELSE {}) \cup
              PathClauses(Ev) \cup CalClauses(Ev) \cup
              C("C03.sel.boots", SelBoots = {} \/ ~(\A i \in DOMAIN run.sweeps : run.sweeps[i].matched)
                                 \/ Cardinality(SelBoots) <= run.c.Bs)))

TraceInit == l = 1 /\ e = 1 /\ run = Idle
Step == Begin \/ Sweep \/ Est \/ Score \/ EndFit
TraceNext ==
  /\ l <= Len(Trace)
  /\ Step
  /\ IF e = Len(Trace[l].events) THEN l' = l + 1 /\ e' = 1 ELSE l' = l /\ e' = e + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].events) + Total(i - 1)
TraceAccepted == TLCGet("stats").diameter - 1 = Total(Len(Trace))
=============================================================================
