--------------------------------- MODULE Cur --------------------------------
(***************************************************************************)
(* Column subset selection in the Union of Intersections framework, on     *)
(* matrices every row of which has one entry: the right singular vectors   *)
(* are then unit vectors, in the order of the norms of the columns, so     *)
(* that a rank of k has exactly the k longest columns of the bootstrap.    *)
(*                                                                         *)
(* col[i], w[i]: the row i has the entry w[i] in column col[i].            *)
(* A rank is either generous (all of its columns are selected) or not      *)
(* (none is), or selects at random.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS N, P, MaxB, W
VARIABLES pc, col, w, cfg, b, rows, flags, result
vars == <<pc, col, w, cfg, b, rows, flags, result>>

Rows == 1..N
Cols == 1..P
RECURSIVE NormTo(_, _, _)
NormTo(S, j, i) == IF i = 0 THEN 0 ELSE (IF i \in S /\ col[i] = j THEN w[i] * w[i] ELSE 0) + NormTo(S, j, i - 1)
Norm(S, j) == NormTo(S, j, N)
(* columns that the leading k singular vectors have, or may have             *)
Sure(S, k) == {j \in Cols : Norm(S, j) > 0 /\ Cardinality({i \in Cols \ {j} : Norm(S, i) >= Norm(S, j)}) < k}
Possible(S, k) == {j \in Cols : Cardinality({i \in Cols : Norm(S, i) > Norm(S, j)}) < k}
Tops(S, k) == {T \in SUBSET Possible(S, k) : Sure(S, k) \subseteq T /\ Cardinality(T) = k}
Picks(S, k, level) == CASE level = 0 -> {{}}
                        [] level = 1 -> Tops(S, k)
                        [] OTHER -> UNION {SUBSET T : T \in Tops(S, k)}
Sizes == {N - 1, N}
Cfgs == [B : 1..MaxB, thr : 1..MaxB, size : Sizes, ks : {<<1>>, <<2, 1>>}, level : [1..2 -> 0..2]]
None == <<>>

Init == /\ pc = "draw" /\ col \in [Rows -> Cols] /\ w \in [Rows -> W]
        /\ cfg \in {c \in Cfgs : c.thr <= c.B /\ (Len(c.ks) = 1 => c.level[2] = 0)}
        /\ b = 1 /\ rows = <<>> /\ flags = <<>> /\ result = None
Draw == /\ pc = "draw"
        /\ \E S \in SUBSET Rows : Cardinality(S) = cfg.size /\ rows' = Append(rows, S)
        /\ pc' = "pick" /\ UNCHANGED <<col, w, cfg, b, flags, result>>
Pick == /\ pc = "pick"
        /\ \E f \in [1..Len(cfg.ks) -> SUBSET Cols] :
             /\ \A i \in 1..Len(cfg.ks) : f[i] \in Picks(rows[b], cfg.ks[i], cfg.level[i])
             /\ flags' = Append(flags, f)
        /\ b' = b + 1 /\ pc' = (IF b = cfg.B THEN "union" ELSE "draw")
        /\ UNCHANGED <<col, w, cfg, rows, result>>
Count(i, j) == Cardinality({x \in 1..Len(flags) : j \in flags[x][i]})
Union(t) == {j \in Cols : \E i \in 1..Len(cfg.ks) : Count(i, j) >= t}
Finish == /\ pc = "union"
          /\ result' = SetToSortSeq(Union(cfg.thr), <)
          /\ pc' = "done" /\ UNCHANGED <<col, w, cfg, b, rows, flags>>
Stop == pc = "done" /\ UNCHANGED vars
Next == Draw \/ Pick \/ Finish \/ Stop
Spec == Init /\ [][Next]_vars

Got == {result[i] : i \in DOMAIN result}
Done == pc = "done"
Increasing == Done => \A i, j \in DOMAIN result : i < j => result[i] < result[j]
(* the columns that every bootstrap is sure to select are there, those that *)
(* no rank can select often enough are not: this is what traces are held to *)
Lower(i, j) == Cardinality({x \in 1..cfg.B : cfg.level[i] = 1 /\ j \in Sure(rows[x], cfg.ks[i])})
Upper(i, j) == Cardinality({x \in 1..cfg.B : cfg.level[i] > 0 /\ j \in Possible(rows[x], cfg.ks[i])})
Bracket == Done => /\ {j \in Cols : \E i \in 1..Len(cfg.ks) : Lower(i, j) >= cfg.thr} \subseteq Got
                   /\ Got \subseteq {j \in Cols : \E i \in 1..Len(cfg.ks) : Upper(i, j) >= cfg.thr}
(* more is asked for, less is selected *)
Monotone == Done => \A t \in 1..cfg.B : (t >= cfg.thr => Union(t) \subseteq Got) /\ (t <= cfg.thr => Got \subseteq Union(t))
Intersection == Done /\ cfg.thr = cfg.B /\ Len(cfg.ks) = 1 => \A x \in 1..cfg.B : Got \subseteq flags[x][1]

(***************************************************************************)
(* scenarios                                                                *)
(***************************************************************************)
Scn == [case : {"uoi"}, kind : {"unit", "general"}, frac : {"one", "nearly", "most", "half"}, ranks : {"all", "one", "list", "reversed"},
        thr : {"one", "some", "every"}, algorithm : {"randomized", "arpack"}, form : {"dense", "sparse", "fortran", "int"}] \cup
       [case : {"cur"}, kind : {"unit", "general"}, algorithm : {"randomized", "arpack"}, form : {"dense", "sparse", "fortran", "int"}] \cup
       [case : {"frequency"}, kind : {"uoi", "cur", "function"}, ranks : {"one", "list"}, thr : {"one", "some", "every"}]
Meaningful(s) == s.case = "frequency" /\ s.kind # "uoi" => s.ranks = "one" /\ s.thr = "one"
Written == "OUT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({s \in Scn : Meaningful(s)}))
ASSUME Written
ScnNext == FALSE /\ UNCHANGED vars
ScnInit == pc = "" /\ col = 0 /\ w = 0 /\ cfg = 0 /\ b = 0 /\ rows = 0 /\ flags = 0 /\ result = 0
=============================================================================
