------------------------------- MODULE Helpers ------------------------------
(***************************************************************************)
(* Bcast_from_root and Gatherv_rows as exchanges of buffers: every         *)
(* interleaving of the ranks, every root, every number of rows per rank.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT MaxRanks
VARIABLES cfg, pc, meta, sizes, total, buffer, out
vars == <<cfg, pc, meta, sizes, total, buffer, out>>

Cfgs == UNION {[what : {"Bcast", "Gatherv"}, P : {P}, root : 1..P, width : 1..2, rows : [1..P -> 0..2]] : P \in 1..MaxRanks}
(* the elements of a rank's array, in C order                               *)
Data(c, r) == [i \in 1..(c.rows[r] * c.width) |-> <<r, i>>]
Ranks == 1..cfg.P
(* posted values are wrapped: <<v>>, and <<>> when nothing was posted       *)
Unset == <<>>
None == <<-1>>

Init == /\ cfg \in Cfgs
        /\ pc = [r \in 1..cfg.P |-> "begin"]
        /\ meta = Unset                         \* shape and type from the root
        /\ sizes = [r \in 1..cfg.P |-> -1]      \* row counts sent to the root
        /\ total = <<>>
        /\ buffer = [r \in 1..cfg.P |-> Unset]  \* payloads sent
        /\ out = [r \in 1..cfg.P |-> Unset]
Go(r, p) == pc' = [pc EXCEPT ![r] = p]

BMeta(r) ==
  /\ cfg.what = "Bcast" /\ pc[r] = "begin"
  /\ IF r = cfg.root THEN meta' = <<cfg.rows[r] * cfg.width>> ELSE meta # Unset /\ UNCHANGED meta
  /\ Go(r, "data") /\ UNCHANGED <<cfg, sizes, total, buffer, out>>
BData(r) ==
  /\ cfg.what = "Bcast" /\ pc[r] = "data"
  /\ IF r = cfg.root
     THEN buffer' = [buffer EXCEPT ![r] = <<Data(cfg, r)>>] /\ out' = [out EXCEPT ![r] = <<Data(cfg, r)>>]
     ELSE /\ buffer[cfg.root] # Unset
          \* what is received fits exactly into what was allocated
          /\ Assert(Len(buffer[cfg.root][1]) = meta[1], "size")
          /\ out' = [out EXCEPT ![r] = buffer[cfg.root]] /\ UNCHANGED buffer
  /\ Go(r, "end") /\ UNCHANGED <<cfg, meta, sizes, total>>
GSizes(r) ==
  /\ cfg.what = "Gatherv" /\ pc[r] = "begin"
  /\ IF r = cfg.root THEN \A q \in Ranks \ {r} : sizes[q] # -1 ELSE TRUE
  /\ sizes' = [sizes EXCEPT ![r] = cfg.rows[r]]
  /\ Go(r, "data") /\ UNCHANGED <<cfg, meta, total, buffer, out>>
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
GData(r) ==
  /\ cfg.what = "Gatherv" /\ pc[r] = "data"
  /\ buffer' = [buffer EXCEPT ![r] = <<Data(cfg, r)>>]
  /\ IF r # cfg.root THEN out' = [out EXCEPT ![r] = <<None>>]
     ELSE /\ \A q \in Ranks \ {r} : buffer[q] # Unset
          /\ LET counts == [q \in Ranks |-> sizes[q] * cfg.width]
                 disp(q) == SumTo(counts, q - 1)
                 n == SumTo(counts, cfg.P)
                 src(i) == CHOOSE q \in Ranks : disp(q) < i /\ i <= disp(q) + counts[q]
             IN out' = [out EXCEPT ![r] = <<[i \in 1..n |-> buffer'[src(i)][1][i - disp(src(i))]]>>]
  /\ Go(r, "end") /\ UNCHANGED <<cfg, meta, sizes, total>>
Next == \E r \in Ranks : BMeta(r) \/ BData(r) \/ GSizes(r) \/ GData(r)
Ended == \A r \in Ranks : pc[r] = "end"
Spec == Init /\ [][Next \/ (Ended /\ UNCHANGED vars)]_vars /\ WF_vars(Next)

Delivered == Ended =>
  IF cfg.what = "Bcast" THEN \A r \in Ranks : out[r] = <<Data(cfg, cfg.root)>>
  ELSE /\ out[cfg.root] = <<FlattenSeq([r \in Ranks |-> Data(cfg, r)])>>
       /\ \A r \in Ranks \ {cfg.root} : out[r] = <<None>>
Terminates == <>Ended

(* scenarios: the same dimensions with representations of the arrays        *)
Reps == {"C", "F", "strided", "reversed", "readonly", "transposed"}
Types == {"f4", "f8", "i8", "i4"}
Tails == {<<>>, <<1>>, <<3>>, <<2, 2>>, <<0>>, <<2, 1, 3>>}
Others == {"none", "same", "shape", "type", "rubbish"}
BScn == UNION {[what : {"Bcast"}, P : {P}, root : 0..(P - 1), rows : {<<n>> : n \in {-1, 0, 1, 4}}, tail : Tails, type : Types,
         rep : Reps, others : Others] : P \in 1..MaxRanks}
GScn == UNION {[what : {"Gatherv"}, P : {P}, root : 0..(P - 1), rows : [1..P -> {0, 1, 3}], tail : {<<>>}, type : {"f8"},
         rep : {"C"}, others : {"same", "rubbish"}] : P \in 1..MaxRanks}
LScn == UNION {[what : {"load"}, P : {P}, root : 0..(P - 1), rows : {<<n>> : n \in {0, 1, 4}}, tail : Tails, type : Types,
         rep : {"C"}, others : {"default", "keys"}] : P \in 1..MaxRanks}
ASSUME "OUT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.OUT, SetToSeq(BScn) \o SetToSeq(GScn) \o SetToSeq(LScn))
ScnInit == cfg = 0 /\ pc = 0 /\ meta = 0 /\ sizes = 0 /\ total = 0 /\ buffer = 0 /\ out = 0
ScnNext == FALSE /\ UNCHANGED vars
=============================================================================
