------------------------------- MODULE UoIFit -------------------------------
(***************************************************************************)
(* A distributed UoI fit.  Every rank runs the same program; ranks meet    *)
(* only in collectives, which are buffered (the root of a broadcast and    *)
(* the leaves of a gather do not wait), so all interleavings are explored. *)
(* What a task computes is represented by the task and the data split it   *)
(* was given; the serial fit is the fold of the same program on one rank.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT MaxRanks
VARIABLES dim,     \* P ranks, B selection boots, R values, E estimation boots, S supports
          pc,      \* rank -> position in the program
          chan,    \* position -> what was posted there
          mem,     \* rank -> what it knows
          todo,    \* rank -> tasks left in the current module
          count,   \* task -> how often it was executed
          draws    \* splits drawn from the generator so far
vars == <<dim, pc, chan, mem, todo, count, draws>>

Dims == [P : 1..MaxRanks, B : 1..2, R : 1..2, E : 1..2, S : 1..2]

(* np.array_split: the first N mod P ranks get one more                     *)
ShareStart(N, P, r) == (r - 1) * (N \div P) + (IF r - 1 < N % P THEN r - 1 ELSE N % P)
Share(N, P, r) == [i \in 1..((N \div P) + (IF r <= N % P THEN 1 ELSE 0)) |-> ShareStart(N, P, r) + i]
ByTask(d) == d.P > d.B
SelTasks(d, r) ==
  IF ByTask(d) THEN [i \in DOMAIN Share(d.B * d.R, d.P, r) |->
                       LET t == Share(d.B * d.R, d.P, r)[i] - 1 IN <<"sel", (t \div d.R) + 1, (t % d.R) + 1>>]
  ELSE LET bs == Share(d.B, d.P, r)
       IN [i \in 1..(Len(bs) * d.R) |-> <<"sel", bs[((i - 1) \div d.R) + 1], ((i - 1) % d.R) + 1>>]
EstTasks(d, r) == [i \in DOMAIN Share(d.E * d.S, d.P, r) |->
                     LET t == Share(d.E * d.S, d.P, r)[i] - 1 IN <<"est", (t \div d.S) + 1, (t % d.S) + 1>>]
AllTasks(d) == {<<"sel", b, i>> : b \in 1..d.B, i \in 1..d.R} \cup {<<"est", b, i>> : b \in 1..d.E, i \in 1..d.S}

Program(d) ==
  [b \in 1..d.B |-> <<"split", b>>] \o <<<<"start", "sel">>, <<"work">>, <<"gather", "sel">>, <<"bcast", "supports">>>>
  \o [b \in 1..d.E |-> <<"split", d.B + b>>] \o <<<<"start", "est">>, <<"work">>, <<"gather", "est">>, <<"bcast", "final">>>>

Ranks == 1..dim.P
At(r) == Program(dim)[pc[r]]
Ended(r) == pc[r] > Len(Program(dim))
Value(d, splits, t) == IF t[1] = "sel" THEN <<t, splits[t[2]]>> ELSE <<t, splits[d.B + t[2]]>>

Init == /\ dim \in Dims
        /\ pc = [r \in 1..dim.P |-> 1]
        /\ chan = [k \in DOMAIN Program(dim) |-> [r \in 1..dim.P |-> <<>>]]
        /\ mem = [r \in 1..dim.P |-> [splits |-> [b \in 1..(dim.B + dim.E) |-> 0], rows |-> <<>>, supports |-> <<>>, final |-> <<>>]]
        /\ todo = [r \in 1..dim.P |-> <<>>]
        /\ count = [t \in AllTasks(dim) |-> 0]
        /\ draws = 0
Advance(r) == pc' = [pc EXCEPT ![r] = @ + 1]
(* the root alone draws, and everybody uses what it drew                    *)
Split(r) ==
  /\ At(r)[1] = "split"
  /\ IF r = 1
     THEN /\ draws' = draws + 1
          /\ chan' = [chan EXCEPT ![pc[r]][1] = <<draws + 1>>]
          /\ mem' = [mem EXCEPT ![r].splits[At(r)[2]] = draws + 1]
     ELSE /\ chan[pc[r]][1] # <<>>
          /\ mem' = [mem EXCEPT ![r].splits[At(r)[2]] = chan[pc[r]][1][1]]
          /\ UNCHANGED <<draws, chan>>
  /\ Advance(r) /\ UNCHANGED <<dim, todo, count>>
Start(r) ==
  /\ At(r)[1] = "start"
  /\ todo' = [todo EXCEPT ![r] = IF At(r)[2] = "sel" THEN SelTasks(dim, r) ELSE EstTasks(dim, r)]
  /\ mem' = [mem EXCEPT ![r].rows = <<>>]
  /\ Advance(r) /\ UNCHANGED <<dim, chan, count, draws>>
Work(r) ==
  /\ At(r)[1] = "work"
  /\ IF todo[r] = <<>> THEN Advance(r) /\ UNCHANGED <<todo, mem, count>>
     ELSE /\ count' = [count EXCEPT ![Head(todo[r])] = @ + 1]
          /\ mem' = [mem EXCEPT ![r].rows = Append(@, Value(dim, mem[r].splits, Head(todo[r])))]
          /\ todo' = [todo EXCEPT ![r] = Tail(@)]
          /\ UNCHANGED pc
  /\ UNCHANGED <<dim, chan, draws>>
Gathered(k) == FlattenSeq([r \in Ranks |-> chan[k][r][1]])
Gather(r) ==
  /\ At(r)[1] = "gather"
  /\ IF r = 1
     THEN /\ \A q \in Ranks \ {1} : chan[pc[r]][q] # <<>>
          /\ LET all == FlattenSeq([q \in Ranks |-> IF q = 1 THEN mem[1].rows ELSE chan[pc[r]][q][1]])
             IN mem' = [mem EXCEPT ![1] = IF At(r)[2] = "sel" THEN [@ EXCEPT !.supports = all] ELSE [@ EXCEPT !.final = all]]
          /\ UNCHANGED chan
     ELSE /\ chan' = [chan EXCEPT ![pc[r]][r] = <<mem[r].rows>>]
          /\ UNCHANGED mem
  /\ Advance(r) /\ UNCHANGED <<dim, todo, count, draws>>
Bcast(r) ==
  /\ At(r)[1] = "bcast"
  /\ LET what == At(r)[2] IN
     IF r = 1
     THEN /\ chan' = [chan EXCEPT ![pc[r]][1] = <<IF what = "supports" THEN mem[1].supports ELSE mem[1].final>>]
          /\ UNCHANGED mem
     ELSE /\ chan[pc[r]][1] # <<>>
          /\ mem' = [mem EXCEPT ![r] = IF what = "supports" THEN [@ EXCEPT !.supports = chan[pc[r]][1][1]]
                                       ELSE [@ EXCEPT !.final = chan[pc[r]][1][1]]]
          /\ UNCHANGED chan
  /\ Advance(r) /\ UNCHANGED <<dim, todo, count, draws>>
Rank(r) == ~Ended(r) /\ (Split(r) \/ Start(r) \/ Work(r) \/ Gather(r) \/ Bcast(r))
Next == \E r \in Ranks : Rank(r)
AllEnded == \A r \in Ranks : Ended(r)
Stop == AllEnded /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Stop]_vars /\ WF_vars(Next)

(* the serial fit: the tasks in order, with the splits in order             *)
SerialSel(d) == [i \in 1..(d.B * d.R) |-> Value(d, [b \in 1..(d.B + d.E) |-> b], <<"sel", ((i - 1) \div d.R) + 1, ((i - 1) % d.R) + 1>>)]
SerialEst(d) == [i \in 1..(d.E * d.S) |-> Value(d, [b \in 1..(d.B + d.E) |-> b], <<"est", ((i - 1) \div d.S) + 1, ((i - 1) % d.S) + 1>>)]
Same == \A r \in Ranks : Ended(r) => mem[r].supports = SerialSel(dim) /\ mem[r].final = SerialEst(dim)
AtMostOnce == \A t \in DOMAIN count : count[t] <= 1
ExactlyOnce == AllEnded => \A t \in DOMAIN count : count[t] = 1
OneGenerator == draws <= dim.B + dim.E
Terminates == <>AllEnded

(* the configurations to run: every kind of partition                       *)
Scn == [P : 2..6, B : 1..4, R : 1..3, E : 1..3]
ScnInit == dim = <<>> /\ pc = <<>> /\ chan = <<>> /\ mem = <<>> /\ todo = <<>> /\ count = <<>> /\ draws = 0
ScnNext == FALSE /\ UNCHANGED vars
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({[P |-> s.P, B |-> s.B, R |-> s.R, E |-> s.E,
    bytask |-> s.P > s.B, idle |-> s.P > s.B * s.R] : s \in Scn}))
=============================================================================
