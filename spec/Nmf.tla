--------------------------------- MODULE Nmf --------------------------------
(***************************************************************************)
(* The non-negative matrix factorization in the Union of Intersections     *)
(* framework: resample, factorize at every rank, choose the rank whose     *)
(* bases are the most reproducible, cluster them, take the consensus.      *)
(* Bases are unit vectors 1..P here, or zero.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS P, B, Labels
VARIABLES pc, ranks, dissim, H, b, chosen, pre, labels, comps
vars == <<pc, ranks, dissim, H, b, chosen, pre, labels, comps>>

Noise == 0 - 1
Bases(k) == [1..k -> 0..P]
NR == Len(ranks)

Init == /\ pc = "factorize" /\ ranks \in {<<1, 2>>, <<2, 1>>, <<1>>, <<2>>} /\ dissim \in BOOLEAN
        /\ H = <<>> /\ b = 1 /\ chosen = 0 /\ pre = <<>> /\ labels = <<>> /\ comps = <<>>
Factorize == /\ pc = "factorize"
             /\ \E h \in [1..NR -> UNION {Bases(k) : k \in {1, 2}}] :
                  /\ \A i \in 1..NR : h[i] \in Bases(ranks[i])
                  /\ H' = Append(H, h)
             /\ b' = b + 1 /\ pc' = (IF b = B THEN "choose" ELSE "factorize")
             /\ UNCHANGED <<ranks, dissim, chosen, pre, labels, comps>>

(* how many bases of either set have a counterpart in the other             *)
Cover(g, h) == Cardinality({i \in DOMAIN g : g[i] # 0 /\ \E j \in DOMAIN h : h[j] = g[i]}) +
               Cardinality({j \in DOMAIN h : h[j] # 0 /\ \E i \in DOMAIN g : g[i] = h[j]})
Pairs == {x \in (1..B) \X (1..B) : x[1] < x[2]}
RECURSIVE Over(_, _)
Over(S, i) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN
                2 * ranks[i] - Cover(H[x[1]][i], H[x[2]][i]) + Over(S \ {x}, i)
(* dissimilarity of the rank i is Total(i) / (2 rank |Pairs|)               *)
Total(i) == Over(Pairs, i)
NotMore(i, j) == Total(i) * ranks[j] <= Total(j) * ranks[i]
First(i) == /\ \A j \in 1..NR : NotMore(i, j)
            /\ \A j \in 1..(i - 1) : ~NotMore(j, i)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Gathered(is) == SelectSeq(Flat([x \in 1..(B * Len(is)) |-> H[((x - 1) % B) + 1][is[((x - 1) \div B) + 1]]]), LAMBDA v : v # 0)
ChooseRank == /\ pc = "choose"
              /\ IF dissim THEN chosen' = (CHOOSE i \in 1..NR : First(i)) /\ pre' = Gathered(<<chosen'>>)
                           ELSE chosen' = 0 /\ pre' = Gathered([i \in 1..NR |-> i])
              /\ pc' = "cluster" /\ UNCHANGED <<ranks, dissim, H, b, labels, comps>>
Cluster == /\ pc = "cluster" /\ labels' \in [1..Len(pre) -> Labels \cup {Noise}]
           /\ pc' = "consensus" /\ UNCHANGED <<ranks, dissim, H, b, chosen, pre, comps>>
Members(c) == {pre[i] : i \in {i \in DOMAIN labels : labels[i] = c}}
Found == {labels[i] : i \in DOMAIN labels} \ {Noise}
Consensus == /\ pc = "consensus"
             /\ LET ids == SetToSortSeq(Found, <) IN comps' = [i \in DOMAIN ids |-> Members(ids[i])]
             /\ pc' = "done" /\ UNCHANGED <<ranks, dissim, H, b, chosen, pre, labels>>
Stop == pc = "done" /\ UNCHANGED vars
Next == Factorize \/ ChooseRank \/ Cluster \/ Consensus \/ Stop
Spec == Init /\ [][Next]_vars

Done == pc = "done"
OneMinimum == pc \notin {"factorize"} => Cardinality({i \in 1..NR : First(i)}) = 1
(* dissimilarities are proportions                                          *)
Bounded == pc # "factorize" => \A i \in 1..NR : 0 <= Total(i) /\ Total(i) <= 2 * ranks[i] * Cardinality(Pairs)
Same(i) == \A x \in 1..B : Range(H[x][i]) = Range(H[1][i]) /\ 0 \notin Range(H[x][i])
Reproduced == Done /\ dissim /\ (\E i \in 1..NR : Same(i)) => Total(chosen) = 0
NoZero == \A i \in DOMAIN pre : pre[i] # 0
PerLabel == Done => /\ Len(comps) = Cardinality(Found)
                    /\ \A i \in DOMAIN comps : comps[i] # {} /\ comps[i] \subseteq Range(pre)
Kept == pc \in {"cluster", "consensus", "done"} =>
          Len(pre) = LET ks == IF dissim THEN {chosen} ELSE 1..NR IN
                     Cardinality({<<x, i, j>> \in (1..B) \X ks \X (1..2) : j <= ranks[i] /\ H[x][i][j] # 0})

(***************************************************************************)
(* scenarios                                                                *)
(***************************************************************************)
Scn == [case : {"stub"}, dissim : BOOLEAN, bases : {"any", "tie", "zeros", "near"}, ranks : {"int", "list", "reversed", "one"},
        labels : {"all", "noise", "gaps", "single", "none"}, cons : {"default", "mean", "median", "max", "squares"}, cls : {"base", "derived"}] \cup
       [case : {"real"}, dissim : BOOLEAN, solver : {"mu", "cd", "default"}, cls : {"base", "derived"}, cluster : {"default", "given"}, cons : {"default", "median"}] \cup
       [case : {"draws"}, cls : {"base", "derived"}]
Meaningful(s) == /\ (s.case = "stub" /\ s.labels \in {"none", "single"}) => s.cons = "default"
                 /\ (s.case = "real" /\ s.cls = "base") => s.solver # "mu"
Written == "OUT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.OUT, SetToSeq({s \in Scn : Meaningful(s)}))
ASSUME Written
ScnNext == FALSE /\ UNCHANGED vars
ScnInit == pc = "" /\ ranks = 0 /\ dissim = 0 /\ H = 0 /\ b = 0 /\ chosen = 0 /\ pre = 0 /\ labels = 0 /\ comps = 0
=============================================================================
