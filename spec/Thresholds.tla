----------------------------- MODULE Thresholds ------------------------------
(***************************************************************************)
(* Settings and what becomes of them: a proportion p/q of n bootstraps     *)
(* means at least the integer part of n p/q bootstraps, a count t means t, *)
(* lists and arrays mean one threshold per entry, in order.  An object     *)
(* goes from its settings to checks of the settings, checks of the data,   *)
(* and only then draws bootstraps and fits models; an invalid setting ends *)
(* in "refused" before anything is fitted.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxN, MaxQ
VARIABLES n, setting, phase, thresholds, fits
vars == <<n, setting, phase, thresholds, fits>>

Bad == [kind |-> "nonsense", p |-> 0, q |-> 1]
(* settings: a count, a proportion, a sequence of either, or nonsense       *)
Prop(p, q) == [kind |-> "float", p |-> p, q |-> q]
Count(t) == [kind |-> "int", p |-> t, q |-> 1]
Entry == {Count(t) : t \in -1..(MaxN + 1)} \cup {Prop(p, q) : q \in 1..MaxQ, p \in -1..(MaxQ + 1)}
Meant(e, k) == IF e.kind = "int" THEN e.p ELSE (e.p * k) \div e.q
InRange(t, k) == t >= 1 /\ t <= k
(* one kind of entries, all in range                                        *)
Valid(s, k) == /\ \A i \in DOMAIN s : s[i] # Bad
               /\ \A i, j \in DOMAIN s : s[i].kind = s[j].kind
               /\ \A i \in DOMAIN s : InRange(Meant(s[i], k), k)
Settings == {<<e>> : e \in Entry} \cup {<<e, f>> : e \in {Count(1), Count(2), Prop(1, 2), Prop(1, 1), Prop(0, 1)},
                                                  f \in {Count(1), Count(3), Prop(2, 3), Bad}}

Init == /\ n \in 1..MaxN /\ setting \in Settings /\ phase = "made" /\ thresholds = <<>> /\ fits = 0
Construct == /\ phase = "made"
             /\ IF Valid(setting, n)
                THEN phase' = "checked" /\ thresholds' = [i \in DOMAIN setting |-> Meant(setting[i], n)]
                ELSE phase' = "refused" /\ UNCHANGED thresholds
             /\ UNCHANGED <<n, setting, fits>>
CheckData == /\ phase = "checked" /\ phase' \in {"fitting", "refused"} /\ UNCHANGED <<n, setting, thresholds, fits>>
Fit == /\ phase = "fitting" /\ fits < 2 /\ fits' = fits + 1 /\ UNCHANGED <<n, setting, thresholds, phase>>
Next == Construct \/ CheckData \/ Fit
Spec == Init /\ [][Next]_vars

InBounds == phase \in {"checked", "fitting"} => \A i \in DOMAIN thresholds : InRange(thresholds[i], n)
RefusedUnfitted == phase = "refused" => fits = 0
OnePerEntry == phase \in {"checked", "fitting"} => Len(thresholds) = Len(setting)
(* the integer part: neither more nor a whole bootstrap less                *)
IntegerPart == phase = "fitting" =>
  \A i \in DOMAIN setting : setting[i].kind = "float" =>
     /\ thresholds[i] * setting[i].q <= n * setting[i].p
     /\ n * setting[i].p < (thresholds[i] + 1) * setting[i].q
(* k out of n bootstraps as a proportion is the count k                     *)
ASSUME \A m \in 1..MaxN : \A k \in 1..m : Meant(Prop(k, m), m) = k
ASSUME \A m \in 1..MaxN : \A q \in 1..MaxQ : \A p \in 0..(MaxQ - 1) : Meant(Prop(p, q), m) <= Meant(Prop(p + 1, q), m)

(***************************************************************************)
(* scenarios                                                                *)
(***************************************************************************)
Linear == {"lasso", "pyc", "enet", "logistic", "multinomial", "free", "poisson", "poissoncd"}
Nonsense == {"none", "text", "list of text", "mixed list", "array of text", "zero", "too many", "negative", "nan", "inf",
             "negative float", "small float", "too large float", "one bad in list", "one bad in array", "bool array",
             "list with none", "empty text", "dict"}
Data == {"columns", "cube", "nan X", "inf X", "nan y", "short y", "long y", "no samples", "sparse centered", "flat X"}
Score == {"score foo", "score foreign", "score case", "score none", "target foo", "target index", "target case"}
Cur == {"ks too large", "ks zero", "ks negative", "ks float", "ks one bad", "ks text", "ks tuple", "ks none ok",
        "cs zero", "cs negative", "cs one bad", "cs short", "cs long", "cs text", "cs tuple", "cs none ok", "cs float ok",
        "cs list ok", "ks int ok"}
NmfBad == {"one bootstrap", "one bootstrap ok", "ranks text", "ranks float", "ranks set", "nmf class", "cluster class", "nnreg",
           "negative X"}
Solve == {"multi_class", "C negative", "C text", "tol negative", "max_iter negative", "one class", "poisson solver",
          "pyc intercept", "pyc intercept late", "pyc param", "float labels", "weights short"}
Scn == {[what |-> "reject", entry |-> e, why |-> w] : e \in Linear, w \in Nonsense \cup Data \cup Score \cup {"valid"}}
  \cup {[what |-> "reject", entry |-> "uoicur", why |-> w] : w \in Nonsense \cup Cur \cup {"valid"}}
  \cup {[what |-> "reject", entry |-> "nmf", why |-> w] : w \in NmfBad \cup {"valid"}}
  \cup {[what |-> "reject", entry |-> "solver", why |-> w] : w \in Solve \cup {"valid"}}
  \cup {[what |-> "given", entry |-> e, why |-> w] : e \in Linear,
          w \in {"int", "float", "list int", "list float", "array int", "array float", "array int8", "array uint64", "long list"}}
Written == "OUT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.OUT, SetToSeq(Scn))
ASSUME Written
ScnNext == FALSE /\ UNCHANGED vars
ScnInit == n = 1 /\ setting = 0 /\ phase = "" /\ thresholds = 0 /\ fits = 0
=============================================================================
