--------------------------- MODULE ThresholdTrace ----------------------------
(* Recorded thresholds and refusals held to Thresholds.                     *)
EXTENDS TraceUtil
VARIABLE l

(* the operators of Thresholds, for any number of bootstraps                *)
T == INSTANCE Thresholds WITH MaxN <- 1, MaxQ <- 1, n <- 1, setting <- <<>>, phase <- "", thresholds <- <<>>, fits <- 0
Setting(c) == [i \in DOMAIN c.entries |-> [kind |-> c.entries[i].kind, p |-> c.entries[i].p, q |-> c.entries[i].q]]
(* a row of the table of proportions: got[p] for the proportions p/q, of n; *)
(* -1 stands for ValueError, -2 for another exception                       *)
Expected(p, q, k) == LET t == T!Meant(T!Prop(p, q), k) IN IF T!InRange(t, k) THEN t ELSE -1
Table(c) == \A r \in DOMAIN c.rows :
              /\ \A i \in DOMAIN c.rows[r].linear : c.rows[r].linear[i] = Expected(i - 2, c.rows[r].q, c.n)
              /\ c.rows[r].cur = c.rows[r].linear
              /\ c.rows[r].array = SelectSeq(c.rows[r].linear, LAMBDA t : t > 0)
              /\ c.rows[r].list = SelectSeq(c.rows[r].linear, LAMBDA t : t > 0)
Near(c) == \A i \in DOMAIN c.near : LET e == c.near[i] IN
             e.linear = Expected(e.p, e.q, c.n) /\ e.cur = e.linear
Counts(c) == \A i \in DOMAIN c.counts : LET t == i - 4 IN
              /\ c.counts[i].linear = (IF T!InRange(t, c.n) THEN t ELSE -1)
              /\ c.counts[i].cur = c.counts[i].linear

Clauses(c) ==
  CASE c.what = "table" -> C("C21.proportions", Table(c)) \cup C("C21.near", Near(c)) \cup C("C21.counts", Counts(c))
    [] c.what = "given" ->
         IF c.exc # "" THEN {"raises"}
         ELSE C("C21.thresholds", c.got = [i \in DOMAIN c.entries |-> T!Meant(Setting(c)[i], c.n)])
    [] c.what = "reject" ->
         IF c.valid THEN C("C21.accepted", c.exc = "" /\ c.fits > 0)
         ELSE C("C21.refused", c.exc = "ValueError") \cup C("C21.unfitted", c.fits = 0)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
